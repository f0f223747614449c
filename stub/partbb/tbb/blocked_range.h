#pragma once
#include <cstddef>
namespace tbb {
struct split {};
template <class V> class blocked_range {
  public:
    using const_iterator = V; using size_type = std::size_t;
    blocked_range(V b, V e, std::size_t g = 1) : b_(b), e_(e), g_(g) {}
    V begin() const { return b_; } V end() const { return e_; } std::size_t size() const { return std::size_t(e_ - b_); } std::size_t grainsize() const { return g_; } bool empty() const { return !(b_ < e_); } bool is_divisible() const { return g_ < size(); }
  private:
    V b_, e_; std::size_t g_;
};
} // namespace tbb
