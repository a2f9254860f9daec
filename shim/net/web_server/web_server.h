#pragma once
// Stand-in for the web server of the net library: hands the server's request
// handler to the simulator, whose clients call it (one request at a time, as
// the io_context of the real one does).
#include <functional>
#include <string>
#include <string_view>
#include <variant>
#include "boost/asio/io_context.hpp"
#include "boost/beast/http/buffer_body.hpp"
#include "boost/beast/http/empty_body.hpp"
#include "boost/beast/http/file_body.hpp"
#include "boost/beast/http/message.hpp"
#include "boost/beast/http/status.hpp"
#include "boost/beast/http/string_body.hpp"
#include "boost/beast/version.hpp"
#include "boost/system/error_code.hpp"
namespace net {
struct web_server {
  using http_req_t = boost::beast::http::request<boost::beast::http::string_body>;
  using string_res_t = boost::beast::http::response<boost::beast::http::string_body>;
  using empty_res_t = boost::beast::http::response<boost::beast::http::empty_body>;
  using http_res_t = std::variant<string_res_t, empty_res_t>;
  using http_res_cb_t = std::function<void(http_res_t&&)>;
  using http_req_cb_t = std::function<void(http_req_t const&, http_res_cb_t const&, bool)>;
  explicit web_server(boost::asio::io_context&) {}
  void on_http_request(http_req_cb_t cb) { cb_ = std::move(cb); }
  void init(std::string const&, std::string const&, boost::system::error_code& ec) { ec = {}; }
  void run() { if (clients()) { clients()(cb_); } }
  void stop() {}
  // what the simulated clients do
  static std::function<void(http_req_cb_t const&)>& clients() {
    static std::function<void(http_req_cb_t const&)> f;
    return f;
  }
  http_req_cb_t cb_;
};
}  // namespace net
