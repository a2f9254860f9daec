#pragma once
#include <string>
#include <string_view>
namespace cista {
template <typename P> struct basic_string : std::string { using std::string::string; std::string_view view() const { return *this; } };
namespace raw { using string = std::string; using string_view = std::string_view; }
namespace offset { using string = std::string; using string_view = std::string_view; template <typename T> using ptr = T*; }
}
