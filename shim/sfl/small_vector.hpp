// Stand-in for sfl::small_vector: same interface as std::vector (the inline storage is only an optimization)
#pragma once
#include <cstddef>
#include <memory>
#include <vector>
namespace sfl {
template <typename T, std::size_t N, typename Allocator = std::allocator<T>> class small_vector : public std::vector<T> { public: using std::vector<T>::vector; };
}
