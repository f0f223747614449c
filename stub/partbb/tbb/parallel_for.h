#pragma once
// Stand-in for TBB's parallel_for: the harness decides how a range is split, in which order the pieces run and on which threads.
#include <cstddef>
#include <functional>
#include <utility>
#include "blocked_range.h"
#include "blocked_range2d.h"
namespace partbb {
// one call of parallel_for: n pieces can be separated; run(b, e) executes pieces [b, e)
struct Stage { std::size_t n; std::function<void(std::size_t, std::size_t)> run; };
inline std::function<void(const Stage&)>& hook() { static std::function<void(const Stage&)> h; return h; }
inline bool& split_columns() { static bool b = false; return b; }
inline void go(const Stage& s) { if (hook() && s.n) hook()(s); else if (s.n) s.run(0, s.n); }
} // namespace partbb
namespace tbb {
struct auto_partitioner {}; struct simple_partitioner {}; struct static_partitioner {}; struct affinity_partitioner {};
template <class V, class B, class... X> void parallel_for(const blocked_range<V>& r, const B& body, X&&...)
{
    partbb::go({std::size_t(r.end() - r.begin()), [&](std::size_t b, std::size_t e) { body(blocked_range<V>(V(r.begin() + V(b)), V(r.begin() + V(e)), r.grainsize())); }});
}
template <class R, class C, class B, class... X> void parallel_for(const blocked_range2d<R, C>& r, const B& body, X&&...)
{
    if (r.empty()) return;
    if (partbb::split_columns()) partbb::go({std::size_t(r.cols().end() - r.cols().begin()), [&](std::size_t b, std::size_t e) { body(blocked_range2d<R, C>(r.rows().begin(), r.rows().end(), C(r.cols().begin() + C(b)), C(r.cols().begin() + C(e)))); }});
    else partbb::go({std::size_t(r.rows().end() - r.rows().begin()), [&](std::size_t b, std::size_t e) { body(blocked_range2d<R, C>(R(r.rows().begin() + R(b)), R(r.rows().begin() + R(e)), r.cols().begin(), r.cols().end())); }});
}
template <class I, class F, class... X> requires requires(F f, I i) { f(i); } void parallel_for(I first, I last, const F& f, X&&...)
{
    if (last <= first) return; partbb::go({std::size_t(last - first), [&](std::size_t b, std::size_t e) { for (std::size_t k = b; k < e; ++k) f(I(first + I(k))); }});
}
} // namespace tbb
namespace oneapi { namespace tbb = ::tbb; }
