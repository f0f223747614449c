// C41: all interleavings of first users of the ephemeris layer, and all placements of library errors in short call sequences; each in a fresh process.
#include "huira_prelude.hpp"
#include "huira/core/time.hpp"
#include "huira/core/interval.hpp"
#include "huira/util/paths.hpp"
#include "mc.hpp"
#include "sched/sched.hpp"
#include <sys/wait.h>
using namespace huira;
static std::string D; // scratch
static std::string child(const std::function<std::string()>& f)
{
    int fd[2]; if (pipe(fd)) std::abort(); std::fflush(stdout); std::fflush(stderr); pid_t p = fork();
    if (p == 0) { close(fd[0]); alarm(30); std::string t; try { t = f(); } catch (const std::exception& e) { t = std::string("uncaught: ") + e.what(); } t += "\nEND"; (void)!write(fd[1], t.data(), t.size()); _exit(0); }
    close(fd[1]); std::string b; char buf[8192]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) b.append(buf, std::size_t(k)); close(fd[0]); int st; waitpid(p, &st, 0);
    if (b.size() < 4 || b.substr(b.size() - 4) != "\nEND") return "died"; return b.substr(0, b.size() - 4);
}
struct Op { const char* n; bool time; std::function<std::string()> f; };
static std::string num(double x) { return mc::fmt("%.6f", x); }
static std::vector<Op>& ops()
{
    static std::vector<Op> o = {
        {"text", true, [] { return num(Time("2016-12-31T23:59:60.5").et()); }}, {"from-utc", true, [] { return num(Time::from_julian_date(2457754.5, TimeScale::UTC).et()); }}, {"to-tt", true, [] { return num(Time::from_et(5e8).to_julian_date(TimeScale::TT)); }}, {"iso", true, [] { return Time::from_et(5e8).to_iso_8601(); }},
        {"state", false, [] { auto [p, v, l] = spice::spkezr<double>("EARTH", Time::from_et(1000), "J2000", "NONE", "SUN"); return num(p.x) + num(v.y) + num(l); }},
        {"rotation", false, [] { auto r = spice::pxform<double>("J2000", "IAU_EARTH", Time::from_et(1000)); return num((r * Vec3<double>{1, 0, 0}).y); }},
        {"rotation-rate", false, [] { auto [r, w] = spice::sxform<double>("J2000", "IAU_MARS", Time::from_et(1000)); return num((r * Vec3<double>{1, 0, 0}).y) + num(w.z * 1e5); }},
        {"conic", false, [] { auto [p, v] = spice::conics<double>({7000, 0.1, 0.2, 0.3, 0.4, 0.5, 0, 398600}, Time::from_et(1000)); return num(p.x) + num(v.y); }},
        {"unknown-body", false, [] { auto [p, v, l] = spice::spkezr<double>("NOWHERE", Time::from_et(1000), "J2000", "NONE", "SUN"); return std::string("accepted"); }},
        {"unknown-frame", false, [] { (void)spice::pxform<double>("J2000", "NOFRAME", Time::from_et(1000)); return std::string("accepted"); }},
        {"bad-text", true, [] { return num(Time("gibberish").et()); }},
        {"load", false, [] { spice::furnsh(D + "/a/k1.txt"); return std::string("loaded"); }}, {"load-relative", false, [] { spice::furnsh_relative_to_file(D + "/a/k1.txt"); return std::string("loaded"); }}, {"load-relative-2", false, [] { spice::furnsh_relative_to_file(D + "/b/k2.txt"); return std::string("loaded"); }},
        {"load-missing", false, [] { spice::furnsh_relative_to_file(D + "/a/none.txt"); return std::string("accepted"); }}, {"load-no-directory", false, [] { spice::furnsh_relative_to_file(D + "/nodir/k.txt"); return std::string("accepted"); }},
        {"load-lsk", false, [] { spice::furnsh(D + "/own.tls"); return std::string("loaded"); }},
    };
    return o;
}
static const char* expect_error(const std::string& n) { return n == "unknown-body" ? "unknown body" : n == "unknown-frame" ? "unknown frame" : n == "bad-text" ? "cannot parse" : n == "load-missing" ? "could not be located" : n == "load-no-directory" ? "" : nullptr; }
static std::string call(const Op& o) { try { return "=" + o.f(); } catch (const std::exception& e) { return std::string("!") + e.what(); } catch (...) { return "!?"; } }
static std::map<std::string, std::string> want;
static long default_lsk() { long k = 0; for (auto& f : stub_spice::st().furnished) k += f.find("naif0012") != std::string::npos; return k; }
// what must hold after any calls, whatever they were
static std::string settled(const std::string& cwd)
{
    auto& s = stub_spice::st(); std::string r;
    if (fs::current_path().string() != cwd) r += "working directory is left at " + fs::current_path().string() + "; ";
    if (s.aborts) r += "an error reached the library while its action was to end the process; ";
    if (default_lsk() > 1) r += "the default leap-second kernel was loaded " + std::to_string(default_lsk()) + " times; ";
    std::string g = call(ops()[0]); if (g != want["text"]) r += "a later time call gives '" + g + "'; "; g = call(ops()[8]); if (g.find("unknown body") == std::string::npos) r += "a later error gives '" + g + "'; ";
    g = call(ops()[4]); if (g != want["state"]) r += "a later ephemeris call gives '" + g + "'; "; if (s.aborts) r += "a later error would end the process; "; return r;
}
static bool right(const Op& o, const std::string& got) { const char* e = expect_error(o.n); return e ? got[0] == '!' && got.find(e) != std::string::npos : got == want[o.n]; }
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); D = fs::absolute(mc::S().scratch).string() + "/k"; fs::create_directories(D + "/a"); fs::create_directories(D + "/b"); fs::create_directories(D + "/data/kernels/lsk");
    std::ofstream(D + "/a/k1.txt") << "x"; std::ofstream(D + "/b/k2.txt") << "x"; const char* L = "KPL/LSK\n\\begindata\nDELTET/DELTA_T_A = 32.184\nDELTET/K = 1.657D-3\nDELTET/EB = 1.671D-2\nDELTET/M = ( 6.239996D0 1.99096871D-7 )\nDELTET/DELTA_AT = ( 10, @1972-JAN-1\n 36, @2015-JUL-1\n 37, @2017-JAN-1 )\n\\begintext\n";
    std::ofstream(D + "/own.tls") << L; std::ofstream(D + "/data/kernels/lsk/naif0012.tls") << L; set_data_dir(D + "/data"); fs::current_path(D);
    auto quietlog = [] { Logger::set_level(LogLevel::Error); Logger::enable_crash_handler(false); Logger::set_buffer_size(4); }; quietlog();
    for (auto& o : ops()) { want[o.n] = child([&] { return call(o); }); mc::at("%s alone", o.n); mc::check(expect_error(o.n) ? right(o, want[o.n]) : want[o.n][0] == '=', "alone", "gives %s", want[o.n].c_str()); }
    // ---- sequences with every error placement, in a fresh process each
    const int n = int(ops().size());
    auto histories = [&](int depth, auto& pick) {
        mc::sequences(n, depth, [&](const std::vector<int>& q) {
            if (int(q.size()) < depth) return true;
            for (int at = -1; at < 2 * int(q.size()) + 1; ++at) for (int pend = 0; pend < 2; ++pend) {
                if (!pick(q, at, pend)) continue;
                std::string name; for (int i : q) name += std::string(name.empty() ? "" : ", ") + ops()[std::size_t(i)].n; mc::at("%s with library call %d failing%s", name.c_str(), at, pend ? " and an older error pending" : ""); mc::evaluated(at >= 0 || q.size() > 1);
                std::string r = child([&] {
                    auto& s = stub_spice::st(); s.fail_at = at; std::string bad, cwd = fs::current_path().string(); bool lsk = false, timed = false;
                    for (std::size_t k = 0; k < q.size(); ++k) {
                        const Op& o = ops()[std::size_t(q[k])]; long before = s.calls; if (pend && k == 1) { std::string a = s.action; s.action = "RETURN"; stub_spice::signal_error("SPICE(OLD)", "older error"); s.action = a; }
                        std::string g = call(o); bool hit = at >= before && at < s.calls;
                        // an error in the trial call that looks for a leap-second kernel is expected and absorbed; any other one surfaces
                        if (hit) { bool surfaced = g[0] == '!' && g.find("injected") != std::string::npos, absorbed = o.time && right(o, g) && at == before; if (!surfaced && !absorbed && !(o.time && g[0] == '!' && right(o, g))) bad += std::string(o.n) + " failed inside but gives '" + g + "'; "; }
                        else if (!right(o, g)) bad += std::string(o.n) + " gives '" + g + "' expected '" + want[o.n] + "'; ";
                        if (s.failed && s.calls > before) bad += std::string("error pending after ") + o.n + "; "; if (fs::current_path().string() != cwd) { bad += std::string("working directory changed by ") + o.n + "; "; fs::current_path(cwd); }
                        if (std::string(o.n) == "load-lsk" && g[0] == '=' && !timed) lsk = true; timed |= o.time;
                    }
                    s.fail_at = -1; if (lsk && at < 0 && default_lsk()) bad += "the default leap-second kernel was loaded over the user's; "; return bad + settled(cwd);
                });
                if (!r.empty()) mc::fail(r.find("working directory") != std::string::npos ? "directory" : r.find("pending") != std::string::npos ? "lingers" : r.find("leap-second") != std::string::npos ? "lsk-twice" : "history", r);
            }
            return true;
        });
    };
    auto all = [](const std::vector<int>&, int, int p) { return p == 0; }; histories(1, all);
    auto two = [](const std::vector<int>&, int, int) { return true; }; histories(2, two);
    if (mc::thorough()) { auto three = [&](const std::vector<int>& q, int, int p) { return p == 0 && ops()[std::size_t(q[0])].time != ops()[std::size_t(q[2])].time; }; histories(3, three); }
    if (mc::mine()) { // a missing default kernel is reported, and using the library works once one is there
        mc::at("no default kernel"); mc::evaluated(true);
        std::string r = child([&] { set_data_dir(D + "/nowhere"); std::string a = call(ops()[0]), b = call(ops()[4]), bad; if (a[0] != '!') bad += "a time without any leap-second kernel gives '" + a + "'; "; if (b != want["state"]) bad += "a state afterwards gives '" + b + "'; "; set_data_dir(D + "/data"); b = call(ops()[0]); if (b != want["text"]) bad += "the time afterwards gives '" + b + "'; "; return bad + settled(fs::current_path().string()); });
        if (!r.empty()) mc::fail("no-kernel", r);
    }
    // ---- interleavings
    std::map<std::string, int> ix; for (int i = 0; i < n; ++i) ix[ops()[std::size_t(i)].n] = i;
    std::vector<std::vector<std::vector<const char*>>> ps = {{{"text"}, {"text"}}, {{"text"}, {"from-utc"}, {"iso"}}, {{"text"}, {"unknown-body"}}, {{"unknown-body"}, {"unknown-frame"}}, {{"bad-text"}, {"state"}}, {{"bad-text"}, {"text"}}, {{"to-tt"}, {"load"}}, {{"text"}, {"load-lsk"}}, {{"load-relative"}, {"load-relative-2"}}, {{"load-relative"}, {"load-missing"}}, {{"rotation"}, {"rotation-rate"}}, {{"conic"}, {"unknown-frame"}}, {{"state"}, {"unknown-body"}, {"text"}}, {{"text", "state"}, {"unknown-body"}}};
    if (mc::thorough()) { ps.push_back({{"text", "bad-text"}, {"iso", "unknown-body"}}); ps.push_back({{"load-relative", "text"}, {"load-relative-2", "to-tt"}}); ps.push_back({{"rotation-rate"}, {"unknown-frame"}, {"text"}}); }
    for (auto& p : ps) {
        std::string name; for (auto& t : p) { name += name.empty() ? "" : " | "; for (auto* o : t) name += std::string(o) + " "; }
        std::vector<std::vector<std::string>> got; std::string cwd = fs::current_path().string(); bool stop = false;
        auto make = [&] { stub_spice::reset_all(); got.assign(p.size(), {}); for (auto& g : got) g.reserve(4); std::vector<std::function<void()>> b; for (std::size_t t = 0; t < p.size(); ++t) b.push_back([&, t] { for (auto* o : p[t]) got[t].push_back(call(ops()[std::size_t(ix[o])])); }); return b; };
        auto judge = [&](const sched::Execution&) { std::string r; for (std::size_t t = 0; t < p.size(); ++t) for (std::size_t k = 0; k < p[t].size(); ++k) if (k >= got[t].size() || !right(ops()[std::size_t(ix[p[t][k]])], got[t][k])) r += std::string(p[t][k]) + " gives '" + (k < got[t].size() ? got[t][k] : "nothing") + "'; "; return r + settled(cwd); };
        // calls into the library are scheduling points too
        if (mc::thorough() || p.size() == 2) stub_spice::hook = [] { sched::point(); };
        sched::Options o; o.preemptions = mc::thorough() ? (p.size() > 2 ? 2 : 3) : (p.size() > 2 || p[0].size() > 1 ? 1 : 2); o.shard = mc::S().shard; o.nshards = mc::S().nshards;
        auto st = sched::explore_forked(o, make, judge, [&](const sched::Execution& x, const std::vector<int>& ch, const std::string& text) {
            if (stop) return; mc::at("threads %s schedule %s", name.c_str(), mc::seq_str(ch).c_str()); auto bad = [&](const char* k, const std::string& d) { mc::fail(k, d); stop = true; };
            if (x.deadlock) bad("deadlock", "all threads blocked"); else if (x.livelock) bad("livelock", "no progress"); else if (!text.empty()) bad("interleaving", text); for (auto& r : x.races) bad("race", r);
            mc::count("transitions", x.points.size()); mc::S().distinct.insert(mc::fnv(name + mc::seq_str(ch)));
        });
        stub_spice::hook = nullptr; mc::count("evaluations", st.executions); mc::count("schedules", st.executions);
    }
    return mc::finish();
}
