#pragma once
#include <vector>
namespace cista {
template <typename T> struct basic_vector_tag {};
namespace raw { template <typename T> using vector = std::vector<T>; }
namespace offset { template <typename T> struct vector : std::vector<T> { using std::vector<T>::vector; }; }
}
