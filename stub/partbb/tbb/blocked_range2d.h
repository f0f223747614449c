#pragma once
#include "blocked_range.h"
namespace tbb {
template <class R, class C = R> class blocked_range2d {
  public:
    blocked_range2d(R rb, R re, C cb, C ce) : r_(rb, re), c_(cb, ce) {}
    blocked_range2d(R rb, R re, std::size_t rg, C cb, C ce, std::size_t cg) : r_(rb, re, rg), c_(cb, ce, cg) {}
    const blocked_range<R>& rows() const { return r_; } const blocked_range<C>& cols() const { return c_; } bool empty() const { return r_.empty() || c_.empty(); }
  private:
    blocked_range<R> r_; blocked_range<C> c_;
};
} // namespace tbb
