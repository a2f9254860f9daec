#pragma once
#include <memory>
namespace cista::offset { template <typename T> using unique_ptr = std::unique_ptr<T>; }
