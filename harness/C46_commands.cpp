// C46: the catalogue commands as a user runs them, each in a process of its own with a recorded network: every crash point, write failure and server answer of every command on every starting directory, then the same command again undisturbed.
#ifndef PART
#define PART 0
#endif
#if PART == 1
#include "apps/huira_cli/cli.cpp"
#define main huira_main
#include "apps/huira_cli/main.cpp"
#elif PART == 2
#include "apps/huira_cli/commands/fetch_tycho2.cpp"
#elif PART == 3
#include "apps/huira_cli/commands/process_tycho2.cpp"
#else
#include "huira_prelude.hpp"
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include "curl/curl.h"
#include "huira/huira.hpp"
#include "huira/stars/io/load_tycho2.hpp"
#include "huira/stars/io/star_catalog.hpp"
#include "indicators/cursor_control.hpp"
#include "mc.hpp"
namespace fs = std::filesystem; using namespace huira;
int huira_main(int argc, char** argv);
// ---- the world a command runs in; shared with the child that runs it
enum Kind { NONE, CRASH, TORN, FULL, SHORT, REFUSED, CUT, NOTFOUND, NKIND };
static const char* KN[] = {"undisturbed", "killed", "killed half-way", "disk full", "disk full half-way", "no connection", "connection lost", "not found"};
struct Plan { int kind = NONE; long at = -1; };
static Plan P; static bool armed = false; static long events = 0, calls = 0; static std::string root; static int report = -1;
template <class F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static void die() { _exit(77); }
static bool mine(const char* p) { return armed && p && std::string(p).rfind(root, 0) == 0; }
// 0 go on, 1 fail, 2 half then die, 3 half then fail
static int event() { long k = events++; if (k != P.at) return 0; switch (P.kind) { case CRASH: die(); return 0; case TORN: return 2; case FULL: return 1; case SHORT: return 3; default: return 0; } }
static bool full = false; // once the disk is full it stays full
extern "C" {
FILE* fopen64(const char* p, const char* m) { if (mine(p) && (m[0] == 'w' || m[0] == 'a' || std::string(m).find('+') != std::string::npos)) { int e = event(); if (e == 2) { real<FILE* (*)(const char*, const char*)>("fopen64")(p, m); die(); } if (e) { errno = ENOSPC; return nullptr; } } return real<FILE* (*)(const char*, const char*)>("fopen64")(p, m); }
FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
static bool file(int fd) { return armed && fd > 2 && fd != report; }
ssize_t write(int fd, const void* b, size_t n) { auto w = real<ssize_t (*)(int, const void*, size_t)>("write"); if (!file(fd)) return w(fd, b, n); if (full) { errno = ENOSPC; return -1; } int e = event(); if (e >= 2) { ssize_t k = w(fd, b, n / 2); if (e == 2) die(); full = true; return k; } if (e) { full = true; errno = ENOSPC; return -1; } return w(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { if (!file(fd)) return real<ssize_t (*)(int, const struct iovec*, int)>("writev")(fd, v, c); std::string s; for (int i = 0; i < c; ++i) s.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); return write(fd, s.data(), s.size()); }
int rename(const char* a, const char* b) { auto f = real<int (*)(const char*, const char*)>("rename"); if (mine(a)) { int e = event(); if (e == 2) { f(a, b); die(); } if (e) { errno = EACCES; return -1; } } return f(a, b); }
int remove(const char* a) { auto f = real<int (*)(const char*)>("remove"); if (mine(a)) { int e = event(); if (e == 2) { f(a); die(); } if (e) { errno = EACCES; return -1; } } return f(a); }
int unlink(const char* a) { auto f = real<int (*)(const char*)>("unlink"); if (mine(a)) { int e = event(); if (e == 2) { f(a); die(); } if (e) { errno = EACCES; return -1; } } return f(a); }
int mkdir(const char* a, mode_t m) { auto f = real<int (*)(const char*, mode_t)>("mkdir"); if (mine(a)) { int e = event(); if (e == 2) { f(a, m); die(); } if (e) { errno = ENOSPC; return -1; } } return f(a, m); }
}
// ---- what the files hold
static std::vector<std::string> NAMES; static std::string record(int id, double mag) { std::string l(206, ' '); auto put = [&](std::size_t at, const std::string& s) { l.replace(at, s.size(), s); }; put(0, mc::fmt("%04d %05d 1", 1 + id % 9000, id % 99999)); put(15, mc::fmt("%12.8f", std::fmod(id * 0.731, 360.0))); put(28, mc::fmt("%12.8f", std::fmod(id * 0.377, 170.0) - 85)); put(41, "    1.5"); put(49, "   -2.5"); put(110, mc::fmt("%6.3f", mag + 0.5)); put(123, mc::fmt("%6.3f", mag)); put(152, mc::fmt("%12.8f", std::fmod(id * 0.731, 360.0))); put(165, mc::fmt("%12.8f", std::fmod(id * 0.377, 170.0) - 85)); put(178, "1.50"); put(183, "1.60"); return l; }
static std::string supplement(int id, double mag) { std::string l(122, ' '); auto put = [&](std::size_t at, const std::string& s) { l.replace(at, s.size(), s); }; put(0, mc::fmt("%04d %05d 1", 1 + id % 9000, id % 99999)); put(13, "T"); put(15, mc::fmt("%12.8f", std::fmod(id * 0.731, 360.0))); put(28, mc::fmt("%12.8f", std::fmod(id * 0.377, 170.0) - 85)); put(83, mc::fmt("%6.3f", mag + 0.5)); put(96, mc::fmt("%6.3f", mag)); return l; }
// what the server holds (1) or held last year (0)
static const std::string& content(int f, int version) { static std::map<int, std::string> m; auto& s = m[f * 2 + version]; if (s.empty()) { int n = f == 5 ? 60 : f == 9 ? 1 : 3; for (int i = 0; i < n; ++i) { int id = 1 + f * 100 + i + version * 5000; double mag = 2 + 0.01 * f + 0.1 * (i % 80) + 0.003 * version; s += (f < 20 ? record(id, mag) : supplement(id, mag)) + "\n"; } } return s; }
static const char PAGE[] = "<html><body>404 Not Found</body></html>\n";
// ---- the network
struct Easy { std::string url; curl_write_callback w = nullptr; void* data = nullptr; bool fail = false, follow = false; };
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; } void curl_global_cleanup() {} CURL* curl_easy_init() { return reinterpret_cast<CURL*>(new Easy); } void curl_easy_cleanup(CURL* c) { delete reinterpret_cast<Easy*>(c); } void curl_easy_reset(CURL* c) { *reinterpret_cast<Easy*>(c) = Easy(); } const char* curl_easy_strerror(CURLcode) { return "it did not work"; }
#undef curl_easy_setopt
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) { auto& e = *reinterpret_cast<Easy*>(c); va_list a; va_start(a, o); switch (o) { case CURLOPT_URL: e.url = va_arg(a, const char*); break; case CURLOPT_WRITEFUNCTION: e.w = va_arg(a, curl_write_callback); break; case CURLOPT_WRITEDATA: e.data = va_arg(a, void*); break; case CURLOPT_FAILONERROR: e.fail = va_arg(a, long) != 0; break; case CURLOPT_FOLLOWLOCATION: e.follow = va_arg(a, long) != 0; break; default: break; } va_end(a); return CURLE_OK; }
#undef curl_easy_getinfo
static long last_status = 200;
CURLcode curl_easy_getinfo(CURL*, CURLINFO i, ...) { va_list a; va_start(a, i); if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long*) = last_status; va_end(a); return CURLE_OK; }
CURLcode curl_easy_perform(CURL* c)
{
    auto& e = *reinterpret_cast<Easy*>(c); long k = calls++; bool hit = k == P.at; int which = -1; for (std::size_t i = 0; i < NAMES.size(); ++i) if (e.url.find("/" + NAMES[i] + ".gz") != std::string::npos) which = int(i); last_status = 200;
    if (hit && P.kind == REFUSED) return CURLE_COULDNT_CONNECT; auto send = [&](const std::string& s, std::size_t upto) { std::size_t i = 0, step = 1; while (i < upto) { std::size_t n = std::min(step, upto - i); std::string part = s.substr(i, n); if (e.w(part.data(), 1, n, e.data) != n) return false; i += n; step = step * 7 + 1; } return true; };
    if (which < 0 || (hit && P.kind == NOTFOUND)) { last_status = 404; if (e.fail) return CURLE_HTTP_RETURNED_ERROR; return send(PAGE, sizeof PAGE - 1) ? CURLE_OK : CURLE_WRITE_ERROR; }
    if (which % 8 == 3 && !e.follow) { last_status = 302; return CURLE_OK; } // this one has moved
    auto& s = content(which, 1); if (hit && P.kind == CUT) return send(s, s.size() / 2) ? CURLE_PARTIAL_FILE : CURLE_WRITE_ERROR; return send(s, s.size()) ? CURLE_OK : CURLE_WRITE_ERROR;
}
}
// ---- starting points, commands and what they should come to
struct State { std::map<std::string, std::string> f; bool dir = true; }; // file name -> bytes
static std::string reference(const std::vector<int>& version) // catalogue bytes of a set of source files
{
    static std::map<std::vector<int>, std::string> memo; auto i = memo.find(version); if (i != memo.end()) return i->second; std::string d = mc::S().scratch + mc::fmt("/ref%d", mc::S().shard); std::vector<StarData> all; for (std::size_t k = 0; k < NAMES.size(); ++k) { std::ofstream(d, std::ios::binary) << content(int(k), version[k]); auto v = k < 20 ? read_tycho2_dat(d) : read_tycho2_suppl(d); all.insert(all.end(), v.begin(), v.end()); }
    StarCatalog c(all); c.set_catalog_type(CatalogType::Tycho2); c.write_star_data(d); std::ifstream in(d, std::ios::binary); std::string s{std::istreambuf_iterator<char>(in), {}}; fs::remove(d); return memo[version] = s;
}
struct Cmd { bool fetch, force, process, clean, out, verbose; std::string text() const { return std::string(verbose ? "-v " : "") + (fetch ? "fetch-tycho2" : "process-tycho2") + (force ? " -f" : "") + (process ? " -p" : "") + (clean ? " -c" : "") + (out ? " -o out" : ""); } };
static const char* DIR = "sky"; // inside root
static State start(int k) // 0 no directory, 1 empty, 2 last year's files and catalogue, 3 some of them missing, 4 last year's catalogue only
{
    State s; if (k == 0) { s.dir = false; return s; } if (k == 2 || k == 3) for (int i = 0; i < int(NAMES.size()); ++i) if (k == 2 || (i != 0 && i != 7 && i != 21)) s.f[std::string(DIR) + "/" + NAMES[std::size_t(i)]] = content(i, 0); if (k == 2 || k == 4) s.f[std::string(DIR) + "/tycho2.hrsc"] = reference(std::vector<int>(22, 0)); return s;
}
// the state a command should leave; ok = should it succeed
static State goal(const Cmd& c, const State& s, bool& ok)
{
    State g = s; ok = true; std::string d = std::string(DIR) + "/"; if (c.fetch) { g.dir = true; for (std::size_t i = 0; i < NAMES.size(); ++i) if (c.force || !g.f.count(d + NAMES[i])) g.f[d + NAMES[i]] = content(int(i), 1); }
    if (!c.fetch || c.process) { std::vector<int> v; for (std::size_t i = 0; i < NAMES.size(); ++i) { auto f = g.f.find(d + NAMES[i]); if (f == g.f.end()) { ok = false; return s; } v.push_back(f->second == content(int(i), 1)); } g.f[c.out ? "out/tycho2.hrsc" : d + "tycho2.hrsc"] = reference(v); if (c.clean && c.fetch) for (auto& n : NAMES) g.f.erase(d + n); } return g;
}
static void lay(const State& s) { armed = false; std::error_code e; fs::remove_all(root, e); fs::create_directories(root + "/out"); if (s.dir) fs::create_directories(root + "/" + DIR); for (auto& [n, b] : s.f) std::ofstream(root + "/" + n, std::ios::binary) << b; }
static State look() { State s; s.dir = fs::exists(root + "/" + DIR); for (auto& e : fs::recursive_directory_iterator(root)) if (e.is_regular_file()) { std::ifstream in(e.path(), std::ios::binary); s.f[fs::relative(e.path(), root).string()] = std::string{std::istreambuf_iterator<char>(in), {}}; } return s; }
struct Run { int rc = 0; bool killed = false, aborted = false, cursor = true; long events = 0, calls = 0; };
static void tell() { armed = false; long r[3] = {events, calls, indicators::cursor_shown}; if (real<ssize_t (*)(int, const void*, size_t)>("write")(report, r, sizeof r) != sizeof r) _exit(78); }
static Run go(const std::vector<std::string>& args, const Plan& p)
{
    int fd[2]; if (pipe(fd)) std::abort(); std::fflush(nullptr); pid_t c = fork(); if (c == 0) {
        int null = open("/dev/null", O_RDWR); dup2(null, 1); dup2(null, 2); close(fd[0]); report = fd[1]; if (chdir(root.c_str())) _exit(78); P = p; events = calls = 0; full = false; std::vector<char*> av; std::vector<std::string> a{"huira"}; a.insert(a.end(), args.begin(), args.end()); for (auto& s : a) av.push_back(s.data()); av.push_back(nullptr); std::set_terminate([] { _exit(99); });
        on_exit([](int rc, void*) { tell(); _exit(rc); }, nullptr); armed = true; int rc; try { rc = huira_main(int(a.size()), av.data()); } catch (...) { _exit(99); } tell(); _exit(rc & 255); }
    close(fd[1]); long r[3] = {0, 0, 1}; ssize_t n = read(fd[0], r, sizeof r); close(fd[0]); int st = 0; waitpid(c, &st, 0); Run o; o.killed = WIFEXITED(st) && WEXITSTATUS(st) == 77; o.aborted = !WIFEXITED(st) || WEXITSTATUS(st) == 99; o.rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1; if (n == sizeof r) { o.events = r[0]; o.calls = r[1]; o.cursor = r[2]; } if (o.rc == 78) std::abort(); return o;
}
static std::vector<std::string> line(const Cmd& c) { std::vector<std::string> a; if (c.verbose) a.push_back("-v"); a.push_back(c.fetch ? "fetch-tycho2" : "process-tycho2"); if (c.force) a.push_back("-f"); if (c.process) a.push_back("-p"); if (c.clean) a.push_back("--clean"); if (c.out) { a.push_back("-o"); a.push_back(root + "/out"); } a.push_back(root + "/" + DIR); return a; }
static bool readable(const std::string& bytes, const std::string& whole1, const std::string& whole2) { if (bytes == whole1 || bytes == whole2) return true; std::string p = mc::S().scratch + mc::fmt("/cat%d", mc::S().shard); std::ofstream(p, std::ios::binary) << bytes; bool ok = false; try { (void)StarCatalog::read_star_data(p, 100.f); ok = true; } catch (const std::exception&) {} fs::remove(p); return !ok; } // whole, or refused when read
static std::string diff(const State& a, const State& b) { for (auto& [n, s] : b.f) { auto i = a.f.find(n); if (i == a.f.end()) return n + " is missing"; if (i->second != s) return n + mc::fmt(" holds other bytes (%zu, not %zu)", i->second.size(), s.size()); } for (auto& [n, s] : a.f) if (!b.f.count(n)) return n + " is left over"; return ""; }
// after a fault: nothing half-done under a final name, nothing lost
static bool sound(const Cmd& c, const State& before, const State& want, const State& now, const Run& r)
{
    std::string d = std::string(DIR) + "/"; std::string cat = c.out ? "out/tycho2.hrsc" : d + "tycho2.hrsc"; bool made = now.f.count(cat) && want.f.count(cat) && now.f.at(cat) == want.f.at(cat);
    for (std::size_t i = 0; i < NAMES.size(); ++i) { std::string n = d + NAMES[i]; auto f = now.f.find(n); if (f != now.f.end()) { bool old = before.f.count(n) && before.f.at(n) == f->second; if (!mc::check(old || (c.fetch && f->second == content(int(i), 1)), "part", "%s holds %zu bytes and is taken for a whole file", NAMES[i].c_str(), f->second.size())) return false; } else if (!mc::check(!before.f.count(n) || (c.clean && c.fetch && c.process && made), "lost", "%s is gone%s", NAMES[i].c_str(), c.clean ? " before the catalogue is whole" : "")) return false; }
    auto f = now.f.find(cat); if (f != now.f.end()) { std::string o = before.f.count(cat) ? before.f.at(cat) : std::string("-"), w = want.f.count(cat) ? want.f.at(cat) : std::string("-"); if (!mc::check(readable(f->second, o, w), "catalogue", "a catalogue of %zu bytes, neither the old nor the new one, is read without complaint", f->second.size())) return false; }
    if (!r.killed) { if (!mc::check(!r.aborted, "abort", "the command aborts")) return false; if (!mc::check(r.cursor, "cursor", "the terminal's cursor stays hidden")) return false; for (auto& [n, s] : now.f) if (!mc::check(before.f.count(n) || n == cat || std::find(NAMES.begin(), NAMES.end(), fs::path(n).filename().string()) != NAMES.end(), "debris", "%s is left behind", n.c_str())) return false; }
    return true;
}
static void scenario(int from, const Cmd& c)
{
    State s = start(from); bool ok; State want = goal(c, s, ok); std::string t = mc::fmt("directory %d, %s", from, c.text().c_str());
    auto again = [&](const State& w) { Run r = go(line(c), Plan{}); mc::count("runs"); State n = look(); std::string d = diff(n, w); mc::check(r.rc == 0 && d.empty(), "again", "run again undisturbed: exit %d, %s", r.rc, d.c_str()); };
    // the goal after an interrupted run: what was fetched already stays
    auto rest = [&](const State& now) { bool k; return goal(c, now, k); };
    lay(s); mc::at_s(t); mc::evaluated(true); Run base = go(line(c), Plan{}); mc::count("runs"); State n = look(); std::string d = diff(n, want); mc::check((base.rc == 0) == ok && !base.aborted && d.empty(), "undisturbed", "exit %d, %s", base.rc, d.c_str()); mc::check(base.cursor, "cursor", "the terminal's cursor stays hidden"); mc::check(base.calls <= 22, "calls", "%ld downloads", base.calls);
    auto fault = [&](Plan p) {
        lay(s); mc::at("%s, %s at %ld", t.c_str(), KN[p.kind], p.at); mc::evaluated(true); mc::count("transitions"); Run r = go(line(c), p); mc::count("runs"); State now = look(); mc::outcome(mc::fmt("%s %d %d %zu", t.c_str(), p.kind, r.rc, now.f.size())); if (!sound(c, s, want, now, r)) return;
        if (!r.killed) { std::string d = diff(now, want); if (!mc::check((r.rc == 0) <= d.empty(), "success", "reports success, but %s", d.c_str())) return; if (r.rc == 0 && p.kind >= REFUSED) mc::fail("success", "reports success without the download"); }
        if (!ok) return; State g = rest(now); for (auto i = g.f.begin(); i != g.f.end();) if (!want.f.count(i->first)) i = g.f.erase(i); else ++i; if (c.force || c.fetch) { for (auto& [n, b] : want.f) if (n.find("hrsc") == std::string::npos && !g.f.count(n)) g.f[n] = b; } again(g);
    };
    for (int k = CRASH; k <= SHORT; ++k) for (long e = 0; e < base.events; ++e) fault({k, e}); for (int k = REFUSED; k < NKIND; ++k) for (long e = 0; e < base.calls; ++e) fault({k, e});
    if (mc::thorough() && ok && c.fetch && !c.verbose) for (long e = 0; e < base.events; ++e) for (long e2 = 0; e2 < base.events; ++e2) { // killed, and killed again while making up for it
        lay(s); mc::at("%s, killed at %ld and again at %ld", t.c_str(), e, e2); mc::evaluated(true); mc::count("transitions", 2); go(line(c), {TORN, e}); State m = look(); Run r = go(line(c), {CRASH, e2}); mc::count("runs", 2); State now = look(); State w2 = rest(m); if (!sound(c, m, w2, now, r)) continue; State g = rest(now); for (auto i = g.f.begin(); i != g.f.end();) if (!want.f.count(i->first)) i = g.f.erase(i); else ++i; again(g); }
}
static void lines()
{
    struct L { std::vector<std::string> a; int rc; int does; }; const std::string D = root + "/" + DIR, O = root + "/out"; // does: 0 nothing, 1 fetch, 2 force, 3 process into sky, 4 process into out, 5 fetch+process+clean, 6 fetch+process
    std::vector<L> v = {{{}, 1, 0}, {{"-v"}, 1, 0}, {{"--version"}, 0, 0}, {{"-h"}, 0, 0}, {{"--help"}, 0, 0}, {{"-v", "--version", "fetch-tycho2", D}, 0, 0}, {{"fetch"}, 1, 0}, {{"nonsense", D}, 1, 0}, {{"-x", "fetch-tycho2", D}, 1, 0}, {{"fetch-tycho2"}, 1, 0}, {{"process-tycho2"}, 1, 0}, {{"fetch-tycho2", "-q", D}, 1, 0}, {{"fetch-tycho2", D, D}, 1, 0}, {{"process-tycho2", D, "-o"}, 1, 0}, {{"fetch-tycho2", "--version"}, 0, 0}, {{"fetch-tycho2", "--help"}, 0, 0}, {{"process-tycho2", "--help"}, 0, 0},
        {{"fetch-tycho2", D}, 0, 1}, {{"-v", "fetch-tycho2", D}, 0, 1}, {{"--verbose", "-v", "fetch-tycho2", D}, 0, 1}, {{"fetch-tycho2", "sky"}, 0, 1}, {{"fetch-tycho2", "./sky/"}, 0, 1}, {{"fetch-tycho2", D, "-f"}, 0, 2}, {{"fetch-tycho2", "--force", D}, 0, 2}, {{"fetch-tycho2", "-c", D}, 0, 1}, {{"fetch-tycho2", "-pc", D}, 0, 5}, {{"fetch-tycho2", D, "--process", "--clean"}, 0, 5}, {{"fetch-tycho2", "-p", D}, 0, 6}, {{"process-tycho2", D}, 0, 3}, {{"process-tycho2", "sky"}, 0, 3}, {{"process-tycho2", D, "-o", O}, 0, 4}, {{"process-tycho2", "-o", "out", "sky"}, 0, 4}, {{"process-tycho2", "--output", O, D}, 0, 4}, {{"process-tycho2", "--output=" + O, D}, 0, 4}, {{"-v", "process-tycho2", "--output=" + O, D}, 0, 4}, {{"process-tycho2", D, "-o", root + "/none/out"}, 1, 0}, {{"process-tycho2", root + "/none"}, 1, 0}, {{"process-tycho2", O}, 1, 0}, {{"process-tycho2", D + "/suppl_1.dat"}, 1, 0}, {{"fetch-tycho2", D + "/suppl_1.dat"}, 1, 0}};
    for (auto& l : v) for (int from : {2, 3}) { if (!mc::mine()) continue; State s = start(from); std::string t; for (auto& a : l.a) t += a + " "; mc::at("directory %d, huira %s", from, t.c_str()); mc::evaluated(true); lay(s); Run r = go(l.a, Plan{}); mc::count("runs"); State n = look(); Cmd c{l.does != 3 && l.does != 4, l.does == 2, l.does == 5 || l.does == 6, l.does == 5, l.does == 4, false}; bool ok = true; State w = l.does ? goal(c, s, ok) : s; int rc = ok ? l.rc : 1; std::string d = diff(n, w); mc::check((r.rc != 0) == (rc != 0) && !r.aborted && d.empty() && r.cursor, "command line", "exit %d%s, %d expected, %s%s", r.rc, r.aborted ? " (abort)" : "", rc, d.c_str(), r.cursor ? "" : ", cursor hidden"); mc::outcome(t); }
    // directories of every kind of name
    for (const char* n : {"new", "a/b/c", "sky.d", "with space", "2.5", ".hidden", "ends.", "\xc3\xbc"}) { if (!mc::mine()) continue; mc::at("fetch into a new directory %s", n); mc::evaluated(true); lay(start(1)); Run r = go({"fetch-tycho2", "-p", root + "/" + n}, Plan{}); mc::count("runs"); State s = look(); bool all = s.f.count(std::string(n) + "/tycho2.hrsc") > 0; for (auto& x : NAMES) all = all && s.f.count(std::string(n) + "/" + x); mc::check(r.rc == 0 && all, "directory", "exit %d, %s", r.rc, all ? "complete" : "files missing"); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); for (int i = 0; i < 20; ++i) NAMES.push_back(mc::fmt("tyc2.dat.%02d", i)); NAMES.push_back("suppl_1.dat"); NAMES.push_back("suppl_2.dat"); root = mc::S().scratch + mc::fmt("/w%d", mc::S().shard);
    if (mc::first_shard()) { mc::at_s("the reference catalogue"); mc::evaluated(true); auto all = reference(std::vector<int>(22, 1)); std::string p = mc::S().scratch + "/r"; std::ofstream(p, std::ios::binary) << all; auto c = StarCatalog::read_star_data(p, 100.f); mc::check(c.get_star_data().size() == 21 * 3 + 58, "reference", "%zu stars", c.get_star_data().size()); }
    lines();
    for (int from = 0; from < 5; ++from) for (int k = 0; k < 8; ++k) for (int v = 0; v < 2; ++v) { Cmd c{true, (k & 1) != 0, (k & 2) != 0, (k & 4) != 0, false, v != 0}; if (v && !mc::thorough() && k != 6) continue; if (c.clean && !c.process && !mc::thorough()) continue; if (mc::mine()) scenario(from, c); }
    for (int from = 1; from < 5; ++from) for (int o = 0; o < 2; ++o) for (int v = 0; v < 2; ++v) if (mc::mine()) scenario(from, Cmd{false, false, false, false, o != 0, v != 0});
    std::error_code e; fs::remove_all(root, e); return mc::finish();
}
#endif
