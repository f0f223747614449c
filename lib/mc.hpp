// Exploration library shared by all harnesses.  See DESIGN.md.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <streambuf>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <csignal>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {
struct Violation { std::string key, where, detail; };
struct State {
    bool thorough = false;
    std::uint64_t seed = 1;
    unsigned shard = 0, nshards = 1;
    std::string out, scratch, only;
    char* cur = nullptr; // current case, shared with the driver through a file
    volatile std::uint64_t tick = 0, last_tick = 0;
    int stuck = 0;
    std::map<std::string, std::uint64_t> n;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> vcount;
    std::vector<Violation> v;
    std::vector<std::string> samples;
    std::set<std::string> outcomes;
    std::uint64_t outer = 0;
    bool exhaustive = true;
};
inline State& S() { static State* s = new State; return *s; }
constexpr std::size_t CUR = 1 << 16;

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}
inline std::string fmt(const char* f, ...)
{
    va_list a; va_start(a, f); char b[8192]; std::vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline void on_prof(int)
{
    // A case that has used 20-30 s of CPU without any progress call is reported as a hang by the driver.
    auto& s = S();
    if (s.tick == s.last_tick) { if (++s.stuck >= 3) { static const char m[] = "MC-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(97); } }
    else { s.stuck = 0; s.last_tick = s.tick; }
}
inline void init(int argc, char** argv)
{
    auto& s = S();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], b = argv[i + 1];
        if (a == "--tier") s.thorough = b == "thorough";
        else if (a == "--seed") s.seed = std::stoull(b);
        else if (a == "--shard") s.shard = unsigned(std::stoul(b));
        else if (a == "--nshards") s.nshards = unsigned(std::stoul(b));
        else if (a == "--out") s.out = b;
        else if (a == "--scratch") s.scratch = b;
        else if (a == "--only") s.only = b;
    }
    if (s.scratch.empty()) s.scratch = ".";
    if (!s.out.empty()) {
        int fd = ::open((s.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, CUR) == 0)
            s.cur = static_cast<char*>(mmap(nullptr, CUR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if (s.cur == MAP_FAILED) s.cur = nullptr;
    }
    if (!s.cur) s.cur = static_cast<char*>(std::calloc(1, CUR));
    std::signal(SIGPROF, on_prof);
    itimerval t{{10, 0}, {10, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);
}
inline bool thorough() { return S().thorough; }
// Names the case about to run (survives a crash) and counts it.
inline void at(const char* f, ...)
{
    va_list a; va_start(a, f); std::vsnprintf(S().cur, CUR, f, a); va_end(a); S().tick = S().tick + 1;
}
inline void at_s(const std::string& c)
{
    auto& s = S(); std::size_t k = std::min(c.size(), CUR - 1); std::memcpy(s.cur, c.data(), k); s.cur[k] = 0; s.tick = s.tick + 1;
}
inline void count(const char* name, std::uint64_t k = 1) { S().n[name] += k; }
inline std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
{
    auto* b = static_cast<const unsigned char*>(p); for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; } return h;
}
inline std::uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }
// One evaluation; `nontrivial` cases are deduplicated by hash of the current case text.
inline void evaluated(bool nontrivial = true)
{
    auto& s = S(); ++s.n["evaluations"];
    if (nontrivial) s.distinct.insert(fnv(s.cur, std::strlen(s.cur)));
}
inline void sample(const std::string& t) { auto& s = S(); if (s.samples.size() < 4) s.samples.push_back(t); }
inline void outcome(const std::string& t) { auto& s = S(); if (s.outcomes.size() < 100000) s.outcomes.insert(t); }
inline void fail(const std::string& key, const std::string& detail)
{
    auto& s = S(); auto& c = s.vcount[key + "|" ]; ++c;
    if (c <= 400) s.v.push_back({key, s.cur, detail});
}
inline bool check(bool ok, const char* key, const char* f, ...)
{
    if (ok) return true;
    va_list a; va_start(a, f); char b[4096]; std::vsnprintf(b, sizeof b, f, a); va_end(a);
    fail(key, b); return false;
}
inline bool ok(bool c, const char* key) { if (!c) fail(key, ""); return c; }
// Outer-loop sharding.
inline bool mine() { auto& s = S(); return (s.outer++ % s.nshards) == s.shard; }
inline bool first_shard() { return S().shard == 0; }
inline bool only(const char* part) { auto& s = S(); return s.only.empty() || s.only == part; }

inline int finish()
{
    auto& s = S();
    itimerval t{{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &t, nullptr);
    std::FILE* f = s.out.empty() ? stdout : std::fopen(s.out.c_str(), "w");
    if (!f) return 3;
    std::fprintf(f, "{\"counters\":{");
    bool first = true;
    s.n["distinct_nontrivial"] = s.distinct.size();
    if (!s.outcomes.empty()) s.n["distinct_outcomes"] = s.outcomes.size();
    for (auto& [k, v] : s.n) { std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long)v); first = false; }
    std::fprintf(f, "},\"exhaustive\":%s,\"samples\":[", s.exhaustive ? "true" : "false");
    first = true;
    for (auto& x : s.samples) { std::fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
    std::fprintf(f, "],\"violations\":[");
    first = true;
    for (auto& x : s.v) { std::fprintf(f, "%s{\"key\":\"%s\",\"where\":\"%s\",\"detail\":\"%s\"}", first ? "" : ",", jesc(x.key).c_str(), jesc(x.where).c_str(), jesc(x.detail).c_str()); first = false; }
    std::fprintf(f, "],\"done\":true}\n");
    if (f != stdout) std::fclose(f);
    std::fflush(nullptr);
    _exit(0); // no static destructors: they are not part of any property
}

// ---------------------------------------------------------------- choice-tree enumeration
struct Skip {};
class Chooser {
  public:
    int operator()(int n) // 0..n-1
    {
        if (n <= 0) throw Skip{};
        if (pos_ == taken_.size()) { taken_.push_back(0); width_.push_back(n); }
        else if (width_[pos_] != n) { std::fprintf(stderr, "MC: divergence while replaying a prefix\n"); std::abort(); }
        return taken_[pos_++];
    }
    void reset() { pos_ = 0; }
    bool advance()
    {
        // drop choices beyond the ones used by the last execution, then count up
        taken_.resize(pos_); width_.resize(pos_);
        while (!taken_.empty()) {
            if (++taken_.back() < width_.back()) return true;
            taken_.pop_back(); width_.pop_back();
        }
        return false;
    }
    const std::vector<int>& taken() const { return taken_; }
    std::string str() const { std::string s; for (std::size_t i = 0; i < pos_; ++i) { s += (i ? "," : ""); s += std::to_string(taken_[i]); } return s; }
  private:
    std::vector<int> taken_, width_;
    std::size_t pos_ = 0;
};
template <class F> std::uint64_t enumerate(F body)
{
    Chooser c; std::uint64_t k = 0;
    do { c.reset(); try { body(c); } catch (const Skip&) {} ++k; } while (c.advance());
    return k;
}
// All sequences over {0..K-1} of length 1..D, sharded on the outer index; body returns false to prune extensions.
template <class F> void sequences(int K, int D, F body)
{
    std::vector<int> s;
    std::function<void()> rec = [&] {
        if (!s.empty()) { if (!body(static_cast<const std::vector<int>&>(s))) return; }
        if (int(s.size()) == D) return;
        for (int k = 0; k < K; ++k) {
            if (int(s.size()) == std::min(1, D - 1) && !mine()) continue;
            s.push_back(k); rec(); s.pop_back();
        }
    };
    rec();
}
inline std::string seq_str(const std::vector<int>& s) { std::string o; for (int x : s) { if (!o.empty()) o += ' '; o += std::to_string(x); } return o; }

// ---------------------------------------------------------------- breadth-first state exploration
// run(history) builds a fresh real object, replays `history`, checks everything, and returns the canonical state
// ("" = do not extend: the last operation was refused or the state is terminal and must not be expanded).
template <class Run> void bfs(int K, int max_depth, std::size_t max_states, Run run)
{
    auto& s = S();
    std::unordered_set<std::string> seen;
    std::deque<std::vector<int>> q;
    std::vector<int> h;
    seen.insert(run(h)); q.push_back(h);
    std::uint64_t depth = 0;
    while (!q.empty()) {
        h = q.front(); q.pop_front();
        if (int(h.size()) >= max_depth) continue;
        for (int k = 0; k < K; ++k) {
            h.push_back(k);
            std::string c = run(h);
            ++s.n["transitions"];
            if (!c.empty() && seen.insert(c).second) {
                if (seen.size() >= max_states) { s.exhaustive = false; s.n["state_cap_hit"] = 1; s.n["states"] += seen.size(); return; }
                q.push_back(h); depth = std::max<std::uint64_t>(depth, h.size());
            }
            h.pop_back();
        }
    }
    s.n["states"] += seen.size();
    s.n["max_depth_reached"] = std::max(s.n["max_depth_reached"], depth);
}
inline bool near(double a, double b, double rel, double abs = 0)
{
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
// Does f throw a std::exception?
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

// huira prints errors on std::cerr; harnesses silence them.
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
} // namespace mc
namespace mc { inline void quiet() { static NullBuf* b = new NullBuf; std::cerr.rdbuf(b); std::cout.rdbuf(b); std::clog.rdbuf(b); } }
