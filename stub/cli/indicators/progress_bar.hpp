#pragma once
// Stand-in for the progress bar: it only remembers how far it was ticked and whether the cursor is shown.
#include <cstddef>
#include <string>
#include <utility>
#include "indicators/cursor_control.hpp"
namespace indicators {
namespace option {
#define OPT(N, T) struct N { T value; explicit N(T v) : value(std::move(v)) {} }
OPT(BarWidth, std::size_t); OPT(Start, std::string); OPT(Fill, std::string); OPT(Lead, std::string); OPT(Remainder, std::string); OPT(End, std::string); OPT(PrefixText, std::string); OPT(PostfixText, std::string); OPT(ShowPercentage, bool); OPT(ShowElapsedTime, bool); OPT(ShowRemainingTime, bool); OPT(MaxProgress, std::size_t); OPT(MinProgress, std::size_t); OPT(Completed, bool);
#undef OPT
} // namespace option
class ProgressBar {
  public:
    template <class... A> explicit ProgressBar(A&&... a) { (set_option(std::forward<A>(a)), ...); }
    template <class O> void set_option(O&&) {} void set_option(const option::MaxProgress& m) { max_ = m.value; } void set_option(option::MaxProgress&& m) { max_ = m.value; }
    void tick() { ++n_; } void set_progress(std::size_t v) { n_ = v; } void mark_as_completed() { n_ = max_; } bool is_completed() const { return n_ >= max_; } std::size_t current() const { return n_; }
  private:
    std::size_t n_ = 0, max_ = 100;
};
} // namespace indicators
