#pragma once
#include "net/web_server/query_router.h"
namespace net {
inline bool serve_static_file(std::string const&, web_server::http_req_t const&, web_server::http_res_cb_t const&) { return false; }
}  // namespace net
