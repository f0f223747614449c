// Controlled scheduler and access monitor: interface used by harnesses.  The harness is compiled by clang++ with
// -fsanitize=thread but linked with rt.cpp instead of the ThreadSanitizer runtime.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
constexpr int MAXT = 12;
struct Race { std::string what; };
struct Point { int cost; int nenabled; bool running_enabled; int chosen; };
struct Execution {
    std::vector<Point> points;      // scheduling decisions with more than one enabled thread
    std::vector<std::string> races; // unordered conflicting accesses
    bool deadlock = false, livelock = false, threw = false, truncated = false;
    std::uint64_t steps = 0, accesses = 0;
};
// Runs `bodies` as threads 1..n under the schedule given by `prefix`, then by default choices.  `allow` bounds races kept.
Execution run(const std::vector<std::function<void()>>& bodies, const std::vector<int>& prefix);
// Explicit scheduling point (used by stand-ins of uninstrumented libraries).
void point();
// Treats the region as read/written by the current thread (for uninstrumented helpers).
void touch(const void* p, std::size_t n, bool write);
bool active();
struct Options { int preemptions = 2; std::uint64_t max_executions = ~0ull; unsigned shard = 0, nshards = 1; };
struct Stats { std::uint64_t executions = 0, points = 0, accesses = 0; bool capped = false; };
// Depth-first exploration of all schedules with at most opt.preemptions preemptive switches.
// make() prepares fresh state and returns the bodies; check(execution) judges one complete execution.
Stats explore(const Options& opt, const std::function<std::vector<std::function<void()>>()>& make,
              const std::function<void(const Execution&, const std::vector<int>& choices)>& check);
// The same with every execution in a forked child, so that one-time initialisation happens afresh in each.  judge() runs
// in the child after the execution; its text reaches check() in the parent ("died: ..." when the child did not finish).
Stats explore_forked(const Options& opt, const std::function<std::vector<std::function<void()>>()>& make, const std::function<std::string(const Execution&)>& judge,
                     const std::function<void(const Execution&, const std::vector<int>& choices, const std::string& text)>& check);
} // namespace sched
