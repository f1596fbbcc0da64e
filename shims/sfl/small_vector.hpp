// Stand-in for sfl::small_vector (not installed here).
#pragma once
#include <vector>
#include <memory>
#include <cstddef>
namespace sfl {
template <typename T, std::size_t N, typename Allocator = std::allocator<T>>
class small_vector : public std::vector<T, Allocator> {
public:
    using std::vector<T, Allocator>::vector;
};
}
