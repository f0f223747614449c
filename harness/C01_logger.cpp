// C01: every bounded history of logger operations against a reference deque; crash reports of every crash kind.
#include "huira_prelude.hpp"
#include "huira/util/colorful_text.hpp"
#include "huira/util/logger.hpp"
#include "mc.hpp"
#include <sys/wait.h>
using namespace huira;

struct Line { std::string level, msg; };
static std::vector<Line> read_dump(const std::string& path, bool* header = nullptr)
{
    std::ifstream f(path); std::string l; std::vector<Line> r; int n = 0; if (header) *header = false;
    while (std::getline(f, l)) {
        ++n;
        if (n == 1 && header) *header = l == "Huira Log";
        auto t = l.find("] [Thread "); if (t == std::string::npos || n < 5) { if (n >= 6 && !l.empty()) r.push_back({"?", l}); continue; }
        auto b = l.find('['); auto e = l.find("] ", t + 3);
        std::string lv = l.substr(b + 1, t - b - 1); while (!lv.empty() && lv.back() == ' ') lv.pop_back();
        r.push_back({lv, l.substr(e + 2)});
    }
    return r;
}
static const char* name(LogLevel l) { switch (l) { case LogLevel::Debug: return "DEBUG"; case LogLevel::Info: return "INFO"; case LogLevel::Warning: return "WARN"; default: return "ERROR"; } }

struct Model {
    std::deque<Line> q; std::size_t cap = 1; LogLevel lvl = LogLevel::Info; int sink = 0; bool cd = false, ci = false, cw = true;
    void log(LogLevel l, const std::string& m) { if (l < lvl) return; q.push_back({name(l), m}); while (q.size() > cap) q.pop_front(); }
    void resize(std::size_t n) { cap = n ? n : 1; while (q.size() > cap) q.pop_front(); }
};
static std::vector<Line> sunk; static int throwing = 0;
enum { LOGD, LOGI, LOGW, LOGE, MACRO_I, MACRO_E, LV_D, LV_W, LV_E, SZ0, SZ1, SZ2, SZ3, SZ5, SINK, SINKT, NOSINK, NOPS };

static void compare(const Model& m, const std::vector<Line>& expect_sunk, const char* when)
{
    static std::string path = mc::S().scratch + "/d.log";
    std::string got = dump_log(path);
    mc::check(got == path, "dump-path", "dump returned '%s' instead of '%s' (%s)", got.c_str(), path.c_str(), when);
    bool hdr; auto lines = read_dump(path, &hdr);
    mc::check(hdr, "dump-header", "dump has no header");
    bool same = lines.size() == m.q.size();
    for (std::size_t i = 0; same && i < lines.size(); ++i) same = lines[i].level == m.q[i].level && lines[i].msg == m.q[i].msg;
    if (!same) {
        std::string a, b; for (auto& x : lines) a += x.level + ":" + x.msg + " "; for (auto& x : m.q) b += x.level + ":" + x.msg + " ";
        mc::check(false, "dump-content", "%s: dump lists <%s> but the accepted messages that fit are <%s>", when, a.c_str(), b.c_str());
    }
    mc::check(Logger::get_buffer_size() == m.cap, "buffer-size", "buffer size %zu, expected %zu", Logger::get_buffer_size(), m.cap);
    mc::check(Logger::get_level() == m.lvl, "level", "level differs");
    same = sunk.size() == expect_sunk.size();
    for (std::size_t i = 0; same && i < sunk.size(); ++i) same = sunk[i].level == expect_sunk[i].level && sunk[i].msg == expect_sunk[i].msg;
    mc::check(same, "sink", "%s: sink received %zu messages, expected %zu", when, sunk.size(), expect_sunk.size());
}
static void history(const std::vector<int>& h)
{
    mc::at_s("history " + mc::seq_str(h));
    Model m; std::vector<Line> es; static int serial = 0;
    sunk.clear(); throwing = 0; Logger::clear_custom_sink(); Logger::set_level(LogLevel::Info); Logger::set_buffer_size(1);
    Logger::log(LogLevel::Error, "start"); m.log(LogLevel::Error, "start");
    for (int op : h) {
        std::string msg = "m" + std::to_string(++serial % 1000);
        auto accept = [&](LogLevel l) { m.log(l, msg); if (l >= m.lvl && m.sink) es.push_back({name(l), msg}); };
        auto sz = [&](std::size_t n) { Logger::set_buffer_size(n); m.resize(n); };
        auto lv = [&](LogLevel l) { Logger::set_level(l); m.lvl = l; };
        switch (op) {
        case LOGD: Logger::log(LogLevel::Debug, msg); accept(LogLevel::Debug); break;
        case LOGI: Logger::log(LogLevel::Info, msg); accept(LogLevel::Info); break;
        case LOGW: Logger::log(LogLevel::Warning, msg); accept(LogLevel::Warning); break;
        case LOGE: Logger::log(LogLevel::Error, msg); accept(LogLevel::Error); break;
        case MACRO_I: HUIRA_LOG_INFO(msg); accept(LogLevel::Info); break;
        case MACRO_E: { bool t = mc::throws([&] { HUIRA_THROW_ERROR(msg); }); mc::check(t, "throw", "HUIRA_THROW_ERROR does not throw"); accept(LogLevel::Error); break; }
        case LV_D: lv(LogLevel::Debug); break;
        case LV_W: lv(LogLevel::Warning); break;
        case LV_E: lv(LogLevel::Error); break;
        case SZ0: sz(0); break;
        case SZ1: sz(1); break;
        case SZ2: sz(2); break;
        case SZ3: sz(3); break;
        case SZ5: sz(5); break;
        case SINK: Logger::set_custom_sink([](const LogEntry& e) { sunk.push_back({name(e.level), e.message}); }); m.sink = 1; break;
        case SINKT: Logger::set_custom_sink([](const LogEntry& e) { sunk.push_back({name(e.level), e.message}); throw 7; }); m.sink = 2; break;
        case NOSINK: Logger::clear_custom_sink(); m.sink = 0; break;
        }
    }
    compare(m, es, "after the history");
    // the buffer must go on working: fill it past its capacity
    for (std::size_t i = 0; i <= m.cap; ++i) { std::string msg = "t" + std::to_string(i); Logger::log(LogLevel::Error, msg); m.log(LogLevel::Error, msg); if (m.sink) es.push_back({"ERROR", msg}); }
    compare(m, es, "after refilling");
    mc::evaluated(h.size() > 1);
    mc::count("transitions", h.size());
}
static void console()
{
    // all reachable states of the three console switches, from every state, under every switch
    struct C { bool d, i, w; }; auto key = [](C c) { return c.d * 4 + c.i * 2 + c.w; };
    auto set = [](int op) { bool v = op & 1; switch (op / 2) { case 0: Logger::enable_console_debug(v); break; case 1: Logger::enable_console_info(v); break; default: Logger::enable_console_warning(v); } };
    auto ref = [](C c, int op) { bool v = op & 1; switch (op / 2) {
        case 0: c.d = v; if (v) c.i = c.w = true; break;
        case 1: c.i = v; if (v) c.w = true; else c.d = false; break;
        default: c.w = v; if (!v) c.i = c.d = false; } return c; };
    mc::sequences(6, mc::thorough() ? 6 : 5, [&](const std::vector<int>& s) {
        mc::at_s("console " + mc::seq_str(s));
        Logger::enable_console_warning(false); C c{false, false, false};
        for (int op : s) { set(op); c = ref(c, op); }
        mc::check(Logger::is_console_debug_enabled() == c.d && Logger::is_console_info_enabled() == c.i && Logger::is_console_warning_enabled() == c.w, "console", "console flags %d%d%d, expected %d%d%d",
            Logger::is_console_debug_enabled(), Logger::is_console_info_enabled(), Logger::is_console_warning_enabled(), c.d, c.i, c.w);
        mc::evaluated(); mc::outcome("console" + std::to_string(key(c)));
        return true;
    });
    Logger::enable_console_warning(false);
}
#ifdef CRASH
static void crashes()
{
    const char* kinds[] = {"abort", "segv", "fpe", "ill", "bus", "terminate-exception", "terminate-other", "terminate-none"};
    int sigs[] = {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT, SIGABRT, SIGABRT};
    for (int kind = 0; kind < 8; ++kind) for (int enabled = 0; enabled < 2; ++enabled) for (int scopes = 0; scopes < 3; ++scopes) for (int msgs = 0; msgs < 4; ++msgs) {
        if (!mc::mine()) continue;
        mc::at("crash kind=%s enabled=%d scopes=%d messages=%d", kinds[kind], enabled, scopes, msgs);
        std::string dir = mc::S().scratch + "/c"; std::filesystem::remove_all(dir); std::filesystem::create_directory(dir);
        pid_t p = fork();
        if (p == 0) {
            mc::quiet(); setenv("HUIRA_LOG_DIR", dir.c_str(), 1); alarm(20);
            Logger::set_buffer_size(50); Logger::enable_crash_handler(enabled);
            for (int i = 0; i < msgs; ++i) Logger::log(LogLevel::Warning, "before" + std::to_string(i));
            auto die = [&] {
                switch (kind) { case 5: { auto f = []() noexcept { throw std::runtime_error("boom-text"); }; f(); } break;
                    case 6: { auto f = []() noexcept { throw 3; }; f(); } break; case 7: std::terminate(); default: raise(sigs[kind]); } };
            { ScopeLogger gone("finished-scope"); }
            if (scopes == 0) die(); else { ScopeLogger a("outer-scope"); if (scopes == 1) die(); ScopeLogger b("inner-scope"); die(); }
            _exit(42);
        }
        int st = 0; waitpid(p, &st, 0);
        mc::check(WIFSIGNALED(st) && WTERMSIG(st) == sigs[kind], "crash-status", "the process must still die of its own signal: status %x", st);
        std::vector<std::string> files; for (auto& e : std::filesystem::directory_iterator(dir)) files.push_back(e.path().string());
        mc::evaluated(enabled);
        if (!enabled) { mc::check(files.empty(), "crash-disabled", "a crash report was written although disabled"); continue; }
        if (!mc::check(files.size() == 1, "crash-file", "%zu log files after a crash, expected 1", files.size())) continue;
        auto lines = read_dump(files[0]); std::string all; for (auto& l : lines) all += l.level + ":" + l.msg + "\n";
        bool before = true; for (int i = 0; i < msgs; ++i) before &= all.find("WARN:before" + std::to_string(i)) != std::string::npos;
        mc::check(before, "crash-history", "messages logged before the crash are missing: %s", all.c_str());
        if (kind < 5) {
            mc::check(all.find("ERROR:Crash detected with signal: " + std::to_string(sigs[kind])) != std::string::npos, "crash-signal", "signal not reported: %s", all.c_str());
            mc::check((all.find("outer-scope") != std::string::npos) == (scopes > 0) && (all.find("inner-scope") != std::string::npos) == (scopes > 1) && all.find("finished-scope") == std::string::npos, "crash-scopes", "scope trace wrong: %s", all.c_str());
            if (scopes == 2) mc::check(all.find("Crash inside scope: inner-scope") != std::string::npos && all.find("-> outer-scope") < all.find("-> inner-scope"), "crash-scopes", "scope order wrong: %s", all.c_str());
        } else if (kind == 5) mc::check(all.find("boom-text") != std::string::npos, "crash-what", "exception text missing: %s", all.c_str());
        else mc::check(all.find(kind == 6 ? "unknown exception" : "without active exception") != std::string::npos, "crash-what", "reason missing: %s", all.c_str());
        mc::count("crashes");
        mc::sample(std::string(mc::S().cur) + " -> " + all.substr(0, 300));
    }
}
#endif
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet();
#ifdef CRASH
    crashes();
#else
    Logger::enable_crash_handler(false);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) std::signal(s, SIG_DFL);
    console();
    mc::sequences(NOPS, mc::thorough() ? 5 : 4, [&](const std::vector<int>& h) { history(h); return true; });
    // deeper histories over the buffer operations only
    static const int small[] = {LOGE, LOGI, SZ1, SZ2, SZ3, SZ5};
    mc::sequences(6, mc::thorough() ? 8 : 6, [&](const std::vector<int>& s) { std::vector<int> h; for (int x : s) h.push_back(small[x]); history(h); return true; });
    mc::sample("history ops: 0-3 log debug/info/warning/error, 4-5 macros, 6-8 level, 9-13 resize 0/1/2/3/5, 14-16 sink; last: " + std::string(mc::S().cur));
#endif
    return mc::finish();
}
