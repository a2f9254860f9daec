#pragma once
#include "net/web_server/web_server.h"
namespace net {
inline web_server::string_res_t string_response(web_server::http_req_t const& req, std::string_view const content, boost::beast::http::status const s) {
  namespace http = boost::beast::http;
  web_server::string_res_t res{s, req.version()};
  res.set(http::field::server, BOOST_BEAST_VERSION_STRING);
  res.set(http::field::content_type, "text/html");
  res.keep_alive(req.keep_alive());
  res.body() = std::string{content};
  res.prepare_payload();
  return res;
}
inline web_server::string_res_t not_found_response(web_server::http_req_t const& req, std::string_view const what = "Not found") { return string_response(req, what, boost::beast::http::status::not_found); }
inline web_server::string_res_t bad_request_response(web_server::http_req_t const& req, std::string_view const what = "Bad request") { return string_response(req, what, boost::beast::http::status::bad_request); }
inline web_server::string_res_t server_error_response(web_server::http_req_t const& req, std::string_view const what = "Internal server error") { return string_response(req, what, boost::beast::http::status::internal_server_error); }
}  // namespace net
