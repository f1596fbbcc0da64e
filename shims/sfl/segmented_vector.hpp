// Stand-in for sfl::segmented_vector (the real library is not installed in this sandbox).
// Same contract the code relies on: growth at the end keeps references valid, random access,
// value-initialising resize, clear, shrink_to_fit.  Built on std::deque; compile with
// -D_GLIBCXX_ASSERTIONS so that an out-of-range access aborts like SFL_ASSERT does.
#pragma once
#include <deque>
#include <memory>
#include <cstddef>
namespace sfl {
template <typename T, std::size_t N, typename Allocator = std::allocator<T>>
class segmented_vector : public std::deque<T, Allocator> {
public:
    using std::deque<T, Allocator>::deque;
};
}
