// C02: all interleavings (at synchronisation operations, bounded preemptions) of small multi-threaded logger programs.
#include "huira_prelude.hpp"
#include "huira/util/colorful_text.hpp"
#include "huira/util/logger.hpp"
#include "mc.hpp"
#include "sched/sched.hpp"
using namespace huira;

// ---- a program: per thread a list of calls
struct Op { int kind; int arg; }; // kinds below
enum { LOG, DUMP, RESIZE, SINK, NOSINK, LEVEL, CONSOLE, GETSIZE };
struct Program { const char* name; std::size_t cap; int pre; std::vector<std::vector<Op>> th; bool sink_check; };

struct Obs { std::string final_dump; std::vector<std::string> dumps; bool operator<(const Obs& o) const { return std::tie(final_dump, dumps) < std::tie(o.final_dump, o.dumps); } };
static std::string msg(int t, int i) { return std::string("thread") + char('0' + t) + "-message-long-enough-to-live-on-the-heap-" + std::to_string(i); }
static std::string parse(const std::string& path, bool& wellformed)
{
    std::ifstream f(path); std::string l, r; int n = 0;
    while (std::getline(f, l)) { if (++n <= 5) continue; auto e = l.find("] ", l.find("[Thread ")); if (l.find(" [") == std::string::npos || e == std::string::npos) wellformed = false; else r += l.substr(l.find('[') + 1, 4) + ":" + l.substr(e + 2) + ";"; }
    return r;
}
// ---- reference: all serialisations
struct Ref { std::deque<std::string> q; std::size_t cap; int lvl = 1; };
static std::string show(const Ref& r) { std::string s; for (auto& x : r.q) s += x + ";"; return s; }
static const char* nm[] = {"DEBU", "INFO", "WARN", "ERRO"};
static void serial(const Program& p, Ref r, std::vector<std::size_t> pc, std::vector<std::vector<std::string>> d, std::set<Obs>& out)
{
    bool any = false;
    for (std::size_t t = 0; t < p.th.size(); ++t) if (pc[t] < p.th[t].size()) {
        any = true; auto r2 = r; auto pc2 = pc; auto d2 = d; Op o = p.th[t][pc2[t]++];
        switch (o.kind) {
        case LOG: if (o.arg >= r2.lvl) { r2.q.push_back(std::string(nm[o.arg]) + ":" + msg(int(t), int(pc[t]))); while (r2.q.size() > r2.cap) r2.q.pop_front(); } break;
        case DUMP: d2[t].push_back(show(r2)); break;
        case RESIZE: r2.cap = std::size_t(std::max(1, o.arg)); while (r2.q.size() > r2.cap) r2.q.pop_front(); break;
        case LEVEL: r2.lvl = o.arg; break;
        }
        serial(p, r2, pc2, d2, out);
    }
    if (!any) { Obs o; o.final_dump = show(r); for (auto& x : d) for (auto& y : x) o.dumps.push_back(y); out.insert(o); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet();
    Logger::enable_crash_handler(false);
    const Op L0{LOG, 0}, LI{LOG, 1}, LW{LOG, 2}, LE{LOG, 3}, D{DUMP, 0}, S{SINK, 0}, N{NOSINK, 0}, C{CONSOLE, 0}, GS{GETSIZE, 0};
    auto R = [](int n) { return Op{RESIZE, n}; }; auto V = [](int n) { return Op{LEVEL, n}; };
    std::vector<Program> ps = {
        {"log|log", 8, 1, {{LI}, {LE}}}, {"2log|2log", 8, 0, {{LI, LW}, {LE, LI}}}, {"2log|2log small buffer", 2, 1, {{LI, LW}, {LE, LI}}},
        {"log|log|log", 8, 0, {{LI}, {LW}, {LE}}}, {"log|log|log one slot", 1, 1, {{LI}, {LW}, {LE}}},
        {"2log|dump", 4, 1, {{LI, LE}, {D}}}, {"log|2dump", 2, 2, {{LI}, {D, D}}}, {"log|log|dump", 2, 1, {{LI}, {LE}, {D}}},
        {"log|grow", 2, 2, {{LI}, {R(4)}}}, {"2log|shrink", 4, 3, {{LI, LE}, {R(2)}}}, {"2log|shrink to one", 3, 3, {{LI, LE}, {R(0)}}}, {"log|shrink then grow", 3, 3, {{LE}, {R(1), R(4)}}},
        {"grow|shrink", 3, 3, {{R(5)}, {R(2)}}}, {"dump|resize", 3, 3, {{D}, {R(1)}}}, {"log|dump|resize", 3, 2, {{LI}, {D}, {R(2)}}},
        {"size|resize|log", 3, 2, {{GS}, {R(2)}, {LI}}},
        {"2log|level", 4, 0, {{LI, LE}, {V(3)}}}, {"log debug|level", 4, 0, {{L0, LI}, {V(0)}}},
        {"2log|sink", 4, 0, {{LI, LE}, {S}}, true}, {"log|sink,nosink", 4, 0, {{LI, LI}, {S, N}}, true}, {"log|log|sink", 4, 0, {{LI}, {LE}, {S}}, true}, {"log sinked|nosink", 4, 0, {{S, LI}, {N}}, true},
        {"console|log", 4, 0, {{C}, {LI, C}}},
    };
    if (mc::thorough()) {
        ps.push_back({"3log|3log", 4, 1, {{LI, LW, LE}, {LE, LI, LW}}}); ps.push_back({"2log|2log|dump", 3, 1, {{LI, LW}, {LE, LI}, {D}}});
        ps.push_back({"2log|resize|dump", 3, 2, {{LI, LE}, {R(2)}, {D}}}); ps.push_back({"2log|2log|shrink", 4, 2, {{LI, LE}, {LE, LW}, {R(2)}}});
    }
    std::string dir = mc::S().scratch;
    for (auto& p : ps) {
        std::set<Obs> allowed; { Ref r; r.cap = p.cap; for (int i = 0; i < p.pre; ++i) { r.q.push_back("ERRO:" + msg(9, i)); while (r.q.size() > r.cap) r.q.pop_front(); }
            serial(p, r, std::vector<std::size_t>(p.th.size(), 0), std::vector<std::vector<std::string>>(p.th.size()), allowed); }
        std::set<Obs> seen; std::vector<std::vector<std::string>> dumps; std::atomic<int> sunk{0}; int bad_sink = 0;
        auto make = [&]() {
            Logger::clear_custom_sink(); Logger::set_level(LogLevel::Info); Logger::set_buffer_size(1); Logger::set_buffer_size(p.cap);
            // leave exactly the pre-logged messages in the buffer
            Logger::set_buffer_size(1); Logger::log(LogLevel::Error, ""); Logger::set_buffer_size(p.cap); 
            for (int i = 0; i < p.pre; ++i) Logger::log(LogLevel::Error, msg(9, i));
            dumps.assign(p.th.size(), {}); sunk = 0;
            std::vector<std::function<void()>> b;
            for (std::size_t t = 0; t < p.th.size(); ++t) b.push_back([&, t] {
                int i = 0;
                for (auto& o : p.th[t]) {
                    switch (o.kind) {
                    case LOG: Logger::log(LogLevel(o.arg), msg(int(t), i)); break;
                    case DUMP: { std::string f = dir + "/t" + std::to_string(t) + "_" + std::to_string(i); dump_log(f); dumps[t].push_back(f); break; }
                    case RESIZE: Logger::set_buffer_size(std::size_t(o.arg)); break;
                    case LEVEL: Logger::set_level(LogLevel(o.arg)); break;
                    case SINK: Logger::set_custom_sink([&](const LogEntry& e) { if (e.message.find("message-long-enough") == std::string::npos) ++bad_sink; ++sunk; }); break;
                    case NOSINK: Logger::clear_custom_sink(); break;
                    case CONSOLE: Logger::enable_console_info(false); (void)Logger::is_console_info_enabled(); break;
                    case GETSIZE: { auto z = Logger::get_buffer_size(); if (z != 3 && z != 2) mc::fail("size", "torn buffer size"); } break;
                    }
                    ++i;
                }
            });
            mc::at("program '%s'", p.name);
            return b;
        };
        sched::Options o; o.preemptions = mc::thorough() ? 4 : p.th.size() > 2 ? 2 : 3; o.shard = mc::S().shard; o.nshards = mc::S().nshards;
        bool stop = false;
        auto st = sched::explore(o, make, [&](const sched::Execution& x, const std::vector<int>& ch) {
            if (stop) return;
            mc::at("program '%s' schedule %s", p.name, mc::seq_str(ch).c_str());
            auto bad = [&](const char* k, const std::string& d) {
                // replay before report
                mc::fail(k, d); stop = true;
            };
            if (x.deadlock) { bad("deadlock", "all threads blocked"); mc::finish(); }
            if (x.livelock) { bad("livelock", "no progress"); mc::finish(); }
            if (x.threw) bad("exception", "a logger call threw");
            for (auto& r : x.races) bad("race", r);
            bool wf = true; Obs ob; for (auto& v : dumps) for (auto& f : v) ob.dumps.push_back(parse(f, wf));
            dump_log(dir + "/final"); ob.final_dump = parse(dir + "/final", wf);
            if (!wf) bad("torn", "a dump has a malformed line: " + ob.final_dump);
            if (!allowed.count(ob)) { std::string s = ob.final_dump; for (auto& d : ob.dumps) s += " | " + d; bad("not-serialisable", "dump contents no serial order gives: " + s); }
            if (bad_sink) bad("torn-sink", "sink received a damaged message");
            if (p.sink_check && sunk > 2) bad("sink-twice", "sink called too often");
            seen.insert(ob);
            mc::count("transitions", x.points.size());
            mc::count("plain_accesses_checked", x.accesses);
            mc::S().distinct.insert(mc::fnv(std::string(p.name) + mc::seq_str(ch)));
        });
        mc::count("evaluations", st.executions); mc::count("schedules", st.executions);
        for (auto& s : seen) mc::outcome(std::string(p.name) + s.final_dump + (s.dumps.empty() ? "" : s.dumps[0]));
        if (mc::first_shard()) { mc::count("programs"); mc::sample(std::string(p.name) + ": " + std::to_string(st.executions) + " schedules in this shard, " + std::to_string(seen.size()) + " of " + std::to_string(allowed.size()) + " serial outcomes seen"); }
    }
    return mc::finish();
}
