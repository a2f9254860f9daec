#pragma once
#include <regex>
#include <string>
#include <vector>
#include "net/web_server/responses.h"
#include "net/web_server/web_server.h"
namespace net {
struct query_router {
  struct route_request : web_server::http_req_t {
    explicit route_request(web_server::http_req_t const& r) : web_server::http_req_t{r} {}
    std::vector<std::string> path_params_;
  };
  using request_handler = std::function<void(route_request const&, web_server::http_res_cb_t const&, bool)>;
  struct handler { std::string method_; std::regex path_; request_handler fn_; };
  query_router& route(std::string method, std::string const& path, request_handler fn) {
    routes_.push_back({std::move(method), std::regex{path}, std::move(fn)});
    return *this;
  }
  void reply_hook(std::function<void(web_server::http_res_t const&)> hook) { hook_ = std::move(hook); }
  // The first route that matches the whole target answers.
  void operator()(web_server::http_req_t const& req, web_server::http_res_cb_t const& cb, bool const ssl) {
    auto const reply = [&](web_server::http_res_t&& res) { if (hook_) { hook_(res); } cb(std::move(res)); };
    std::string const target{req.target().data(), req.target().size()};
    std::string const method{req.method_string().data(), req.method_string().size()};
    for (auto const& h : routes_) {
      std::smatch m;
      if ((h.method_ != "*" && h.method_ != method) || !std::regex_match(target, m, h.path_)) { continue; }
      route_request r{req};
      for (std::size_t i = 1; i < m.size(); ++i) { r.path_params_.push_back(m[i].str()); }
      try { h.fn_(r, reply, ssl); }
      catch (std::exception const& e) { reply(server_error_response(req, e.what())); }
      return;
    }
    reply(not_found_response(req));
  }
  std::vector<handler> routes_;
  std::function<void(web_server::http_res_t const&)> hook_;
};
}  // namespace net
