#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/wait.h>
#include <unistd.h>
#include <execinfo.h>
#include <map>
#include <exception>
#include <unordered_map>

extern "C" { extern char __executable_start, etext; void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }

namespace {
using u32 = std::uint32_t; using u64 = std::uint64_t; using uptr = std::uintptr_t;
constexpr int T = sched::MAXT + 1; // 0 = main
struct VC { u32 c[T] = {}; void join(const VC& o) { for (int i = 0; i < T; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Acc { u32 clk[T]; unsigned char mask[T]; };
struct Cell { u64 key = 0; u64 gen = 0; Acc w, r, a; };
enum { PLAIN_W, PLAIN_R, ATOMIC };

struct Lock { int owner = -1, count = 0; int readers[T] = {}; int nread = 0; VC vc, rvc; };
struct Thread { pthread_t th; sem_t go; int blocked = 0; const void* on = nullptr; bool done = true; bool waiting_cond = false; std::function<void()> body; VC vc; uptr lo = 0, hi = 0; };
struct G {
    Thread t[T]; int n = 0, cur = -1; bool on = false; sem_t main_go;
    std::vector<int> prefix; std::size_t pos = 0; int cost = 0; sched::Execution ex;
    std::vector<Cell> cells; u64 gen = 0; u64 used = 0;
    std::unordered_map<uptr, Lock> locks; std::unordered_map<uptr, VC> sync; std::unordered_map<uptr, int> once;
    std::map<std::pair<uptr, uptr>, int> seen_races; bool started = false;
    u64 max_steps = 200000;
};
G* g;
thread_local int me = 0;
thread_local int in_rt = 0;
struct Enter { bool ok; Enter() { ok = me > 0 && in_rt == 0 && g && g->on; ++in_rt; } ~Enter() { --in_rt; } };

std::string sym(uptr pc)
{
    char b[256]; std::snprintf(b, sizeof b, "pc+0x%zx", size_t(pc - uptr(&__executable_start))); Dl_info i; std::string s = b;
    if (dladdr((void*)pc, &i) && i.dli_sname) { s += " "; s += i.dli_sname; } return s;
}
Cell& cell(u64 key)
{
    auto& v = g->cells; u64 m = v.size() - 1; u64 i = (key * 0x9E3779B97F4A7C15ull) >> 20 & m;
    for (;;) {
        Cell& c = v[i];
        if (c.gen != g->gen) { // free in this generation
            if (++g->used * 2 > v.size()) { // grow
                std::vector<Cell> old; old.swap(v); v.resize(old.size() * 2); g->used = 0;
                for (auto& o : old) if (o.gen == g->gen) { u64 m2 = v.size() - 1, j = (o.key * 0x9E3779B97F4A7C15ull) >> 20 & m2; while (v[j].gen == g->gen) j = (j + 1) & m2; v[j] = o; ++g->used; }
                return cell(key);
            }
            c.key = key; c.gen = g->gen; std::memset(&c.w, 0, sizeof(Acc) * 3); return c;
        }
        if (c.key == key) return c;
        i = (i + 1) & m;
    }
}
Cell* find(u64 key)
{
    auto& v = g->cells; u64 m = v.size() - 1; u64 i = (key * 0x9E3779B97F4A7C15ull) >> 20 & m;
    while (v[i].gen == g->gen) { if (v[i].key == key) return &v[i]; i = (i + 1) & m; } return nullptr;
}
void report(const char* kind, uptr addr, uptr pc, int other)
{
    if (g->ex.races.size() >= 8) return;
    if (g->seen_races[{pc, 0}]++) return;
    Dl_info i; char b[256]; std::string where;
    if (dladdr((void*)addr, &i) && i.dli_sname) where = i.dli_sname; else where = "memory";
    std::snprintf(b, sizeof b, "%s of %s by thread %d unordered with thread %d at ", kind, where.c_str(), me, other);
    g->ex.races.push_back(b + sym(pc));
}
inline bool conflict(const Acc& a, unsigned char mask, const VC& vc, int& who)
{
    for (int i = 1; i <= g->n; ++i) if (i != me && (a.mask[i] & mask) && a.clk[i] > vc.c[i]) { who = i; return true; }
    return false;
}
inline void note(Acc& a, unsigned char mask, u32 clk) { if (a.clk[me] == clk) a.mask[me] |= mask; else { a.clk[me] = clk; a.mask[me] = mask; } }
void access(uptr p, size_t n, int kind, uptr pc)
{
    Thread& t = g->t[me];
    if (p >= t.lo && p < t.hi) return; // own stack
    g->ex.accesses++;
    while (n) {
        size_t off = p & 7, k = std::min(n, 8 - off); unsigned char mask = (unsigned char)(((1u << k) - 1) << off);
        Cell& c = cell(p >> 3); int who = 0; u32 clk = t.vc.c[me];
        if (kind == PLAIN_W) { if (conflict(c.w, mask, t.vc, who) || conflict(c.r, mask, t.vc, who) || conflict(c.a, mask, t.vc, who)) report("write", p, pc, who); note(c.w, mask, clk); }
        else if (kind == PLAIN_R) { if (conflict(c.w, mask, t.vc, who) || conflict(c.a, mask, t.vc, who)) report("read", p, pc, who); note(c.r, mask, clk); }
        else { if (conflict(c.w, mask, t.vc, who) || conflict(c.r, mask, t.vc, who)) report("atomic access", p, pc, who); }
        p += k; n -= k;
    }
}
void atomic_note(uptr p, size_t n, bool write)
{
    if (!write) return; // atomic reads conflict with plain writes only; those are found when the write is the later one through `r`
    Thread& t = g->t[me]; if (p >= t.lo && p < t.hi) return;
    size_t off = p & 7; unsigned char mask = (unsigned char)(((1u << std::min<size_t>(n, 8 - off)) - 1) << off); Cell& c = cell(p >> 3); note(c.a, mask, t.vc.c[me]);
}
// ------------------------------------------------------------------ scheduling
bool enabled(int i) { return !g->t[i].done && !g->t[i].blocked; }
void hand_to(int next)
{
    int self = me; g->cur = next; if (next == self) return;
    sem_post(&g->t[next].go);
    if (!g->t[self].done) { while (sem_wait(&g->t[self].go) && errno == EINTR) {} }
}
int pick()
{
    int en[T], n = 0; bool self_on = enabled(me);
    if (self_on) en[n++] = me;
    for (int i = 1; i <= g->n; ++i) if (i != me && enabled(i)) en[n++] = i;
    if (n == 0) return -1;
    int ch = 0;
    if (n > 1) {
        if (g->pos < g->prefix.size()) ch = g->prefix[g->pos];
        if (ch >= n) { std::fprintf(stderr, "MC: divergence while replaying a schedule\n"); _exit(96); }
        g->pos++;
        g->ex.points.push_back({g->cost, n, self_on, ch});
        if (self_on && ch) g->cost++;
    }
    return en[ch];
}
void finish_deadlock() { g->ex.deadlock = true; g->on = false; sem_post(&g->main_go); for (;;) pause(); }
void do_point()
{
    if (++g->ex.steps > g->max_steps) { g->ex.livelock = true; g->on = false; sem_post(&g->main_go); for (;;) pause(); }
    int k = pick(); if (k < 0) finish_deadlock();
    hand_to(k);
}
void block_on(const void* p) { g->t[me].blocked = 1; g->t[me].on = p; int k = pick(); if (k < 0) finish_deadlock(); hand_to(k); }
void wake(const void* p) { for (int i = 1; i <= g->n; ++i) if (g->t[i].blocked && g->t[i].on == p) { g->t[i].blocked = 0; g->t[i].on = nullptr; } }
void tick() { g->t[me].vc.c[me]++; }
void* worker(void* a)
{
    int id = int(uptr(a)); ++in_rt; me = id;
    pthread_attr_t at; void* lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    g->t[id].lo = uptr(lo); g->t[id].hi = uptr(lo) + sz;
    for (;;) {
        while (sem_wait(&g->t[id].go) && errno == EINTR) {}
        --in_rt;
        try { g->t[id].body(); } catch (...) { ++in_rt; g->ex.threw = true; --in_rt; }
        ++in_rt;
        g->t[id].done = true;
        bool all = true; for (int i = 1; i <= g->n; ++i) all &= g->t[i].done;
        if (all) { g->on = false; sem_post(&g->main_go); }
        else { int k = pick(); if (k < 0) { g->ex.deadlock = true; g->on = false; sem_post(&g->main_go); } else { g->cur = k; sem_post(&g->t[k].go); } }
    }
}
template <class F> F real(const char* n) { static F f = (F)dlsym(RTLD_NEXT, n); return f; }
inline bool from_exe(void* pc) { return uptr(pc) >= uptr(&__executable_start) && uptr(pc) < uptr(&etext); }
void acquire(uptr a) { auto it = g->sync.find(a); if (it != g->sync.end()) g->t[me].vc.join(it->second); }
void release(uptr a, bool rmw) { VC& v = g->sync[a]; if (!rmw) v = VC{}; v.join(g->t[me].vc); tick(); }
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
void a_load(uptr p, size_t n, int mo, uptr pc) { do_point(); access(p, n, ATOMIC, pc); if (mo == 1 || mo == 2 || mo >= 4) acquire(p); }
void a_store(uptr p, size_t n, int mo, uptr pc) { do_point(); access(p, n, ATOMIC, pc); atomic_note(p, n, true); if (mo >= 3) release(p, false); else g->sync.erase(p); }
void a_rmw(uptr p, size_t n, int mo, uptr pc) { do_point(); access(p, n, ATOMIC, pc); atomic_note(p, n, true); if (mo == 1 || mo == 2 || mo >= 4) acquire(p); if (mo >= 3) release(p, true); }
} // namespace

namespace sched {
bool active() { return me > 0 && g && g->on; }
void point() { Enter e; if (e.ok) do_point(); }
void touch(const void* p, std::size_t n, bool w) { Enter e; if (e.ok) access(uptr(p), n, w ? PLAIN_W : PLAIN_R, uptr(__builtin_return_address(0))); }
Execution run(const std::vector<std::function<void()>>& bodies, const std::vector<int>& prefix)
{
    ++in_rt;
    if (!g) { g = new G; sem_init(&g->main_go, 0, 0); g->cells.resize(1 << 14); }
    while (g->n < int(bodies.size()) || !g->started) {
        g->started = true; int id = ++g->n; sem_init(&g->t[id].go, 0, 0); g->t[id].done = true;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20); pthread_create(&g->t[id].th, &at, worker, (void*)uptr(id));
        while (!((volatile uptr&)g->t[id].hi)) usleep(50);
    }
    g->ex = Execution{}; g->prefix = prefix; g->pos = 0; g->cost = 0; ++g->gen; g->used = 0;
    g->locks.clear(); g->sync.clear(); g->seen_races.clear();
    for (int i = 1; i <= g->n; ++i) { g->t[i].vc = VC{}; g->t[i].vc.c[i] = 1; g->t[i].blocked = 0; g->t[i].done = i > int(bodies.size()); if (!g->t[i].done) g->t[i].body = bodies[size_t(i - 1)]; }
    // the first thread is a free choice as well
    int n = int(bodies.size()), ch = 0;
    if (n > 1) { if (!prefix.empty()) ch = prefix[0]; g->pos = 1; g->ex.points.push_back({0, n, false, ch}); }
    g->on = true; g->cur = ch + 1; sem_post(&g->t[ch + 1].go);
    while (sem_wait(&g->main_go) && errno == EINTR) {}
    g->on = false;
    Execution e = std::move(g->ex); --in_rt; return e;
}
static void dfs(const Options& o, Stats& st, const std::function<std::vector<std::function<void()>>()>& make, const std::function<void(const Execution&, const std::vector<int>&)>& check, const std::vector<int>& prefix, int level, std::uint64_t& branch)
{
    if (st.executions >= o.max_executions) { st.capped = true; return; }
    Execution x = run(make(), prefix);
    std::vector<int> ch; for (auto& p : x.points) ch.push_back(p.chosen);
    if (level > 0 || o.shard == 0) { ++st.executions; st.points += x.points.size(); st.accesses += x.accesses; check(x, ch); }
    if (x.deadlock || x.livelock) { st.capped = true; return; } // threads are stuck: nothing further can run in this process
    for (std::size_t i = prefix.size(); i < x.points.size(); ++i) {
        int cost = x.points[i].cost + (x.points[i].running_enabled ? 1 : 0);
        if (cost > o.preemptions) continue;
        for (int alt = 1; alt < x.points[i].nenabled; ++alt) {
            if (level == 0 && branch++ % o.nshards != o.shard) continue;
            std::vector<int> p(ch.begin(), ch.begin() + long(i)); p.push_back(alt);
            dfs(o, st, make, check, p, level + 1, branch);
            if (st.capped) return;
        }
    }
}
Stats explore(const Options& o, const std::function<std::vector<std::function<void()>>()>& make, const std::function<void(const Execution&, const std::vector<int>&)>& check)
{
    Stats st; std::uint64_t b = 0; dfs(o, st, make, check, {}, 0, b); return st;
}
static Execution forked(const std::function<std::vector<std::function<void()>>()>& make, const std::function<std::string(const Execution&)>& judge, const std::vector<int>& prefix, std::string& text)
{
    int fd[2]; if (pipe(fd)) std::abort(); std::fflush(stdout); std::fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); alarm(60); Execution x = run(make(), prefix); std::string t = (x.deadlock || x.livelock) ? std::string() : judge(x);
        std::string b; auto put = [&](const void* p, size_t n) { b.append((const char*)p, n); };
        std::uint64_t h[6] = {x.points.size(), x.races.size(), x.deadlock, x.livelock, x.threw, x.accesses}; put(h, sizeof h);
        for (auto& p : x.points) put(&p, sizeof p);
        auto str = [&](const std::string& s) { std::uint64_t n = s.size(); put(&n, 8); put(s.data(), n); };
        for (auto& r : x.races) str(r); str(t); b += "END";
        for (size_t o = 0; o < b.size();) { ssize_t k = write(fd[1], b.data() + o, b.size() - o); if (k <= 0) break; o += size_t(k); }
        _exit(0);
    }
    close(fd[1]); std::string b; char buf[65536]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) b.append(buf, size_t(k)); close(fd[0]);
    int status = 0; while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    Execution x; if (b.size() < 51 || b.substr(b.size() - 3) != "END") { text = "died: status " + std::to_string(status); x.truncated = true; return x; }
    const char* q = b.data(); auto get = [&](void* p, size_t n) { std::memcpy(p, q, n); q += n; }; std::uint64_t h[6]; get(h, sizeof h);
    x.points.resize(h[0]); x.deadlock = h[2]; x.livelock = h[3]; x.threw = h[4]; x.accesses = h[5]; for (auto& p : x.points) get(&p, sizeof p);
    auto str = [&]() { std::uint64_t n; get(&n, 8); std::string s(q, n); q += n; return s; }; for (std::uint64_t i = 0; i < h[1]; ++i) x.races.push_back(str()); text = str(); return x;
}
static void dfs_forked(const Options& o, Stats& st, const std::function<std::vector<std::function<void()>>()>& make, const std::function<std::string(const Execution&)>& judge, const std::function<void(const Execution&, const std::vector<int>&, const std::string&)>& check, const std::vector<int>& prefix, int level, std::uint64_t& branch)
{
    if (st.executions >= o.max_executions) { st.capped = true; return; }
    std::string text; Execution x = forked(make, judge, prefix, text); std::vector<int> ch; for (auto& p : x.points) ch.push_back(p.chosen);
    if (level > 0 || o.shard == 0) { ++st.executions; st.points += x.points.size(); st.accesses += x.accesses; check(x, x.truncated ? prefix : ch, text); }
    for (std::size_t i = prefix.size(); i < x.points.size(); ++i) {
        int cost = x.points[i].cost + (x.points[i].running_enabled ? 1 : 0); if (cost > o.preemptions) continue;
        for (int alt = 1; alt < x.points[i].nenabled; ++alt) {
            if (level == 0 && branch++ % o.nshards != o.shard) continue;
            std::vector<int> p(ch.begin(), ch.begin() + long(i)); p.push_back(alt); dfs_forked(o, st, make, judge, check, p, level + 1, branch); if (st.capped) return;
        }
    }
}
Stats explore_forked(const Options& o, const std::function<std::vector<std::function<void()>>()>& make, const std::function<std::string(const Execution&)>& judge, const std::function<void(const Execution&, const std::vector<int>&, const std::string&)>& check)
{
    Stats st; std::uint64_t b = 0; dfs_forked(o, st, make, judge, check, {}, 0, b); return st;
}
} // namespace sched

#define PC uptr(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { Enter e; if (e.ok) access(uptr(p), n, PLAIN_R, PC); } \
    void __tsan_write##n(void* p) { Enter e; if (e.ok) access(uptr(p), n, PLAIN_W, PC); } \
    void __tsan_unaligned_read##n(void* p) { Enter e; if (e.ok) access(uptr(p), n, PLAIN_R, PC); } \
    void __tsan_unaligned_write##n(void* p) { Enter e; if (e.ok) access(uptr(p), n, PLAIN_W, PC); } \
    void __tsan_read_write##n(void* p) { Enter e; if (e.ok) { access(uptr(p), n, PLAIN_R, PC); access(uptr(p), n, PLAIN_W, PC); } } \
    void __tsan_unaligned_read_write##n(void* p) { Enter e; if (e.ok) { access(uptr(p), n, PLAIN_R, PC); access(uptr(p), n, PLAIN_W, PC); } } \
    void __tsan_volatile_read##n(void* p) { Enter e; if (e.ok) access(uptr(p), n, PLAIN_R, PC); } \
    void __tsan_volatile_write##n(void* p) { Enter e; if (e.ok) access(uptr(p), n, PLAIN_W, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { Enter e; if (e.ok && *p != v) access(uptr(p), 8, PLAIN_W, PC); }
void __tsan_vptr_read(void** p) { Enter e; if (e.ok) access(uptr(p), 8, PLAIN_R, PC); }
void __tsan_read_range(void* p, size_t n) { Enter e; if (e.ok) access(uptr(p), n, PLAIN_R, PC); }
void __tsan_write_range(void* p, size_t n) { Enter e; if (e.ok) access(uptr(p), n, PLAIN_W, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { { Enter e; if (e.ok) { access(uptr(s), n, PLAIN_R, PC); access(uptr(d), n, PLAIN_W, PC); } } return std::memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { { Enter e; if (e.ok) { access(uptr(s), n, PLAIN_R, PC); access(uptr(d), n, PLAIN_W, PC); } } return std::memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { { Enter e; if (e.ok) access(uptr(d), n, PLAIN_W, PC); } return std::memset(d, c, n); }

#define ATOM(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type* p, int mo) { Enter e; if (e.ok) a_load(uptr(p), bits / 8, mo, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile type* p, type v, int mo) { Enter e; if (e.ok) a_store(uptr(p), bits / 8, mo, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo) { Enter e; if (e.ok) a_rmw(uptr(p), bits / 8, mo, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int mo) { Enter e; if (e.ok) a_rmw(uptr(p), bits / 8, mo, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int mo) { Enter e; if (e.ok) a_rmw(uptr(p), bits / 8, mo, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int mo) { Enter e; if (e.ok) a_rmw(uptr(p), bits / 8, mo, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int mo) { Enter e; if (e.ok) a_rmw(uptr(p), bits / 8, mo, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int mo) { Enter e; if (e.ok) a_rmw(uptr(p), bits / 8, mo, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_nand(volatile type* p, type v, int mo) { Enter e; if (e.ok) a_rmw(uptr(p), bits / 8, mo, PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* c, type v, int mo, int) { Enter e; if (e.ok) a_rmw(uptr(p), bits / 8, mo, PC); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* c, type v, int mo, int) { Enter e; if (e.ok) a_rmw(uptr(p), bits / 8, mo, PC); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type c, type v, int mo, int) { Enter e; if (e.ok) a_rmw(uptr(p), bits / 8, mo, PC); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// ---- memory
static void fresh(void* p, size_t n)
{
    if (!p || !n) return; Enter e; if (!e.ok) return;
    for (uptr k = uptr(p) >> 3, z = (uptr(p) + n + 7) >> 3; k < z; ++k) if (Cell* c = find(k)) { std::memset(&c->w, 0, sizeof(Acc) * 3); }
}
static void gone(void* p, uptr pc) { if (!p) return; Enter e; if (e.ok) { size_t n = malloc_usable_size(p); access(uptr(p), n, PLAIN_W, pc); } }
void* malloc(size_t n) { void* p = __libc_malloc(n); if (me > 0 && !in_rt) fresh(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (me > 0 && !in_rt) fresh(p, a * b); return p; }
void* realloc(void* o, size_t n) { if (me > 0 && !in_rt) gone(o, PC); void* p = __libc_realloc(o, n); if (me > 0 && !in_rt) fresh(p, n); return p; }
void free(void* p) { if (me > 0 && !in_rt) gone(p, PC); __libc_free(p); }

// ---- locks
typedef int (*mfn)(pthread_mutex_t*);
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int lock_impl(uptr a, bool rec, bool try_)
{
    do_point();
    for (;;) {
        Lock& l = g->locks[a];
        if (l.owner == me && rec) { ++l.count; return 0; }
        if (l.owner < 0 && l.nread == 0) { l.owner = me; l.count = 1; g->t[me].vc.join(l.vc); g->t[me].vc.join(l.rvc); return 0; }
        if (try_) return EBUSY;
        block_on((void*)a);
    }
}
static void unlock_impl(uptr a)
{
    Lock& l = g->locks[a]; if (l.owner == me) { if (--l.count == 0) { l.owner = -1; l.vc = g->t[me].vc; tick(); wake((void*)a); } }
    else if (l.readers[me]) { --l.readers[me]; --l.nread; l.rvc.join(g->t[me].vc); tick(); wake((void*)a); }
    do_point();
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (me > 0 && from_exe(__builtin_return_address(0))) { Enter e; if (e.ok) return lock_impl(uptr(m), recursive(m), false); } return real<mfn>("pthread_mutex_lock")(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { static mfn f = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_trylock"); if (me > 0 && from_exe(__builtin_return_address(0))) { Enter e; if (e.ok) return lock_impl(uptr(m), recursive(m), true); } return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { static mfn f = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); if (me > 0 && from_exe(__builtin_return_address(0))) { Enter e; if (e.ok) { unlock_impl(uptr(m)); return 0; } } return f(m); }
typedef int (*rfn)(pthread_rwlock_t*);
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { static rfn f = (rfn)dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); if (me > 0 && from_exe(__builtin_return_address(0))) { Enter e; if (e.ok) return lock_impl(uptr(m), false, false); } return f(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    static rfn f = (rfn)dlsym(RTLD_NEXT, "pthread_rwlock_rdlock");
    if (me > 0 && from_exe(__builtin_return_address(0))) { Enter e; if (e.ok) { do_point(); for (;;) { Lock& l = g->locks[uptr(m)]; if (l.owner < 0) { ++l.readers[me]; ++l.nread; g->t[me].vc.join(l.vc); return 0; } block_on(m); } } }
    return f(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) { static rfn f = (rfn)dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); if (me > 0 && from_exe(__builtin_return_address(0))) { Enter e; if (e.ok) { unlock_impl(uptr(m)); return 0; } } return f(m); }
int pthread_once(pthread_once_t* o, void (*fn)())
{
    typedef int (*ofn)(pthread_once_t*, void (*)()); static ofn f = (ofn)dlsym(RTLD_NEXT, "pthread_once");
    if (me > 0 && from_exe(__builtin_return_address(0))) {
        ++in_rt; bool ok = g && g->on && in_rt == 1; 
        if (ok) {
            do_point();
            for (;;) {
                if (*o == 2) { acquire(uptr(o)); --in_rt; return 0; }
                if (*o == 0) { *o = 1; --in_rt; try { fn(); } catch (...) { ++in_rt; *o = 0; release(uptr(o), true); wake(o); --in_rt; throw; } ++in_rt; *o = 2; release(uptr(o), false); wake(o); do_point(); --in_rt; return 0; }
                block_on(o);
            }
        }
        --in_rt;
    }
    return f(o, fn);
}
int __cxa_guard_acquire(u64* gd)
{
    Enter e; volatile char* b = (volatile char*)gd;
    if (!e.ok) { if (b[0]) return 0; b[1] = 1; return 1; } // only the main thread runs outside an execution
    do_point();
    for (;;) { if (b[0]) { acquire(uptr(gd)); return 0; } if (!b[1]) { b[1] = 1; return 1; } block_on(gd); }
}
void __cxa_guard_release(u64* gd) { Enter e; volatile char* b = (volatile char*)gd; b[0] = 1; b[1] = 0; if (e.ok) { release(uptr(gd), false); wake(gd); do_point(); } }
void __cxa_guard_abort(u64* gd) { Enter e; volatile char* b = (volatile char*)gd; b[1] = 0; if (e.ok) { wake(gd); do_point(); } }
}
