// C05: every sequence of state setters on a frame and its child, against a last-writer-wins reference model.
#include "huira_prelude.hpp"
#include "huira/huira.hpp"
#define HUIRA_REF
#include "refmath.hpp"
using namespace huira; using namespace rf;
using TS = RGB;
struct PCB : PositionCallback { double k; explicit PCB(double k_) : k(k_) {} void evaluate(const Time& t, const Rotation<double>&, const Vec3<double>&) override { position = {5 * k, 6 + t.et(), 7}; velocity = {0, 1, 0}; } };
struct RCB : RotationCallback { double a; explicit RCB(double a_) : a(a_) {} void evaluate(const Time&, const Vec3<double>&, const Vec3<double>&) override { rotation = Rotation<double>::from_local_to_parent(Vec3<double>{0, 0, 1}, units::Radian{a}); angular_velocity = {0, 0, 0.25}; } };
struct TCB : StateCallback { void evaluate(const Time& t) override { state.position = {9, 8, 7 - t.et()}; state.velocity = {0, 0, -1}; state.rotation = Rotation<double>::from_local_to_parent(Vec3<double>{1, 0, 0}, units::Radian{0.4}); state.angular_velocity = {0.5, 0, 0}; state.scale = {9, 9, 9}; } };
enum { POS_A, POS_B, ROT_A, ROT_B, VEL, ANG, BODY, ANGV, SCALE, MANUAL, ORIGIN, FRAME, SPICE, PCALL, RCALL, SCALL, NOPS };
enum Src { MAN, SPI, CB, TC };
struct Ref { Src ps = MAN, rs = MAN; V p, v, w, s{1, 1, 1}; M R; bool body = false; std::string o, f; };
static const V E1{1, 2, 3};
static M ecl() { M m; double a = 0.409092804, c = std::cos(a), s = std::sin(a); double q[3][3] = {{1, 0, 0}, {0, c, s}, {0, -s, c}}; std::memcpy(m.m, q, sizeof q); return tr(m); }
static M swapm() { M m; double q[3][3] = {{0, 1, 0}, {0, 0, 1}, {1, 0, 0}}; std::memcpy(m.m, q, sizeof q); return tr(m); }
static State local(const Ref& r, double te, double epoch)
{
    State s; s.s = r.s; double d = te - epoch;
    if (r.ps == MAN) { s.p = r.p + d * r.v; s.v = r.v; } else if (r.ps == CB) { s.p = {5 * 2.0, 6 + te, 7}; s.v = {0, 1, 0}; } else if (r.ps == TC) { s.p = {9, 8, 7 - te}; s.v = {0, 0, -1}; }
    if (r.rs == MAN) { M D = rot(r.w, len(r.w) * d); s.R = r.body ? r.R * D : D * r.R; s.w = r.body ? s.R * r.w : r.w; } else if (r.rs == CB) { s.R = rot({0, 0, 1}, 0.3); s.w = {0, 0, 0.25}; } else if (r.rs == TC) { s.R = rot({1, 0, 0}, 0.4); s.w = {0.5, 0, 0}; }
    return s;
}
static State global(const State& parent, const Ref& r, double te, double epoch)
{
    State g = compose(parent, local(r, te, epoch));
    if (r.ps == SPI) { const auto* b = stub_spice::body(r.o); g.p = 1000.0 * (V{b->p[0], b->p[1], b->p[2]} + te * V{b->v[0], b->v[1], b->v[2]}); g.v = 1000.0 * V{b->v[0], b->v[1], b->v[2]}; }
    if (r.rs == SPI) { g.R = r.f == "ECLIPJ2000" ? ecl() : r.f == "SWAP" ? swapm() : M{}; g.w = {}; }
    if (r.ps == SPI && r.rs == SPI) g.s = r.s; // taken directly against the barycentre, no parent involved
    return g;
}
static std::string run(const std::vector<int>& h)
{
    Scene<TS> s; auto P = s.root.new_subframe(); auto L = s.new_sphere_light(units::Meter(1), units::Watt(1), "L");
    bool inst = !h.empty() && h.size() % 2; // the child is an instance or a frame
    std::shared_ptr<Node<TS>> n[2]; n[0] = P.get();
    if (inst) n[1] = P.new_instance(L).get(); else n[1] = P.new_subframe().get();
    Ref r[2];
    auto apply = [&](int k, int op) -> bool { // real call; returns threw
        Node<TS>& x = *n[k]; using units::Meter; using units::MetersPerSecond; using units::RadiansPerSecond;
        return mc::throws([&] { switch (op) {
            case POS_A: x.set_position(Meter(1), Meter(2), Meter(3)); break; case POS_B: x.set_position(Vec3<double>{-4, 5, 6}); break;
            case ROT_A: x.set_rotation(Rotation<double>::from_local_to_parent(Vec3<double>{0, 1, 0}, units::Radian{0.7})); break;
            case ROT_B: x.set_rotation(Rotation<double>::from_local_to_parent(Vec3<double>{1, 1, 0}, units::Radian{-1.1})); break;
            case VEL: x.set_velocity(MetersPerSecond(0.5), MetersPerSecond(-1), MetersPerSecond(2)); break;
            case ANG: x.set_angular_velocity(RadiansPerSecond(0.1), RadiansPerSecond(0.2), RadiansPerSecond(-0.3)); break;
            case BODY: x.set_body_angular_velocity(RadiansPerSecond(0.3), RadiansPerSecond(-0.1), RadiansPerSecond(0.2)); break;
            case ANGV: x.set_angular_velocity(Vec3<double>{0, 0.4, 0}); break;
            case SCALE: x.set_scale(2, 2, 2); break;
            case MANUAL: { Transform<double> t; t.position = {7, 7, 1}; t.rotation = Rotation<double>::from_local_to_parent(Vec3<double>{0, 0, 1}, units::Radian{1.5}); t.scale = {0.5, 0.5, 0.5}; t.velocity = {1, 1, 1}; t.angular_velocity = {0, 0, 0.2}; x.set_manual_transform(t); break; }
            case ORIGIN: x.set_spice_origin(k ? "MOON" : "EARTH"); break; case FRAME: x.set_spice_frame(k ? "SWAP" : "ECLIPJ2000"); break;
            case SPICE: x.set_spice("MARS", "J2000"); break;
            case PCALL: x.set_custom_position_callback<PCB>(2.0); break; case RCALL: x.set_custom_rotation_callback<RCB>(0.3); break; case SCALL: x.set_custom_state_callback<TCB>(); break; } });
    };
    auto refuse = [&](int k, int op) -> bool {
        bool cp = k == 0 && r[1].ps == SPI, cr = k == 0 && r[1].rs == SPI;      // a SPICE child pins the parent
        bool pp = k == 1 && r[0].ps != SPI, pr = k == 1 && r[0].rs != SPI;      // the root is SPICE-driven
        switch (op) { case POS_A: case POS_B: case PCALL: return cp; case ROT_A: case ROT_B: case RCALL: return cr; case MANUAL: case SCALL: return cp || cr;
            case VEL: return r[k].ps != MAN; case ANG: case ANGV: case BODY: return r[k].rs != MAN; case ORIGIN: return pp; case FRAME: return pr; case SPICE: return pp || pr; default: return false; } };
    auto ref = [&](int k, int op) { Ref& x = r[k]; switch (op) {
        case POS_A: x.ps = MAN; x.p = {1, 2, 3}; break; case POS_B: x.ps = MAN; x.p = {-4, 5, 6}; break;
        case ROT_A: x.rs = MAN; x.R = rot({0, 1, 0}, 0.7); break; case ROT_B: x.rs = MAN; x.R = rot({1, 1, 0}, -1.1); break;
        case VEL: x.v = {0.5, -1, 2}; break; case ANG: x.w = {0.1, 0.2, -0.3}; x.body = false; break; case BODY: x.w = {0.3, -0.1, 0.2}; x.body = true; break; case ANGV: x.w = {0, 0.4, 0}; x.body = false; break;
        case SCALE: x.s = {2, 2, 2}; break; case MANUAL: x.ps = x.rs = MAN; x.p = {7, 7, 1}; x.R = rot({0, 0, 1}, 1.5); x.s = {0.5, 0.5, 0.5}; x.v = {1, 1, 1}; x.w = {0, 0, 0.2}; x.body = false; break;
        case ORIGIN: x.ps = SPI; x.o = k ? "MOON" : "EARTH"; break; case FRAME: x.rs = SPI; x.f = k ? "SWAP" : "ECLIPJ2000"; break; case SPICE: x.ps = x.rs = SPI; x.o = "MARS"; x.f = "J2000"; break;
        case PCALL: x.ps = CB; break; case RCALL: x.rs = CB; break; case SCALL: x.ps = x.rs = TC; break; } };
    for (std::size_t i = 0; i < h.size(); ++i) {
        int k = h[i] / NOPS, op = h[i] % NOPS; bool e = refuse(k, op), g = apply(k, op);
        if (i + 1 == h.size()) mc::check(e == g, "refusal", "step %zu: %s on %s %s", i, mc::fmt("operation %d", op).c_str(), k ? "child" : "parent", e ? "is accepted but must be refused" : "is refused but must be accepted");
        if (e || g) { if (i + 1 < h.size()) return ""; } else ref(k, op);
        if (e != g) return "";
    }
    // ---- what the nodes report and use
    for (int k = 0; k < 2; ++k) {
        Node<TS>& x = *n[k]; const Ref& q = r[k]; const char* who = k ? "child" : "parent";
        auto mode = [](Src a, bool pos) { return a == MAN ? TransformMode::MANUAL_TRANSFORM : a == SPI ? TransformMode::SPICE_TRANSFORM : a == TC ? TransformMode::TRANSFORM_CALLBACK : pos ? TransformMode::POSITION_CALLBACK : TransformMode::ROTATION_CALLBACK; };
        mc::check(x.get_position_mode() == mode(q.ps, true) && x.get_rotation_mode() == mode(q.rs, false), "mode", "%s: modes %d,%d expected %d,%d", who, int(x.get_position_mode()), int(x.get_rotation_mode()), int(mode(q.ps, true)), int(mode(q.rs, false)));
        auto val = [&](const char* name, bool avail, auto get, auto same) { bool ok = false; bool t = mc::throws([&] { ok = same(get()); }); mc::check(avail ? (!t && ok) : t, name, "%s: %s (threw=%d, value %s)", who, avail ? "must report its manual value" : "must refuse: not manually set", t, ok ? "right" : "wrong"); };
        auto v3 = [](V e) { return [e](const Vec3<double>& g) { return nearv(from(g), e, 1e-12, 1e-12); }; };
        val("get-position", q.ps == MAN, [&] { return x.get_static_position(); }, v3(q.p));
        val("get-velocity", q.ps == MAN, [&] { return x.get_static_velocity(); }, v3(q.v));
        val("get-rotation", q.rs == MAN, [&] { return x.get_static_rotation(); }, [&](const Rotation<double>& g) { return diff(from(g), q.R) < 1e-12; });
        val("get-angular", q.rs == MAN, [&] { return x.get_static_angular_velocity(); }, v3(q.w));
        val("get-scale", true, [&] { return x.get_static_scale(); }, v3(q.s));
        val("get-origin", q.ps == SPI, [&] { return x.get_spice_origin(); }, [&](const std::string& g) { return g == q.o; });
        val("get-frame", q.rs == SPI, [&] { return x.get_spice_frame(); }, [&](const std::string& g) { return g == q.f; });
    }
    double ep = 10, te = 13; State root; State gp = global(root, r[0], te, ep), gc = global(gp, r[1], te, ep);
    for (int k = 0; k < 2; ++k) {
        State got; bool t = mc::throws([&] { got = from(n[k]->get_apparent_transform(ObservationMode::TRUE_STATE, Time::from_et(ep), Time::from_et(te), Transform<double>{})); });
        if (!mc::check(!t, "evaluate", "%s: evaluation throws", k ? "child" : "parent")) continue;
        std::string d = compare(got, k ? gc : gp, 1e-9, 1e-4); mc::check(d.empty(), "used", "%s: %s", k ? "child" : "parent", d.c_str());
    }
    mc::evaluated(h.size() > 1); mc::count("traces_validated_against_impl");
    std::string c; for (int k = 0; k < 2; ++k) { auto& q = r[k]; c += mc::fmt("%d%s%g %d%s%g %g %g%d %g|", q.ps, q.o.c_str(), q.p.x, q.rs, q.f.c_str(), q.R.m[0][0], q.v.x, q.w.x, q.body, q.s.x); }
    return c;
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    // shards split on the first operation (every shard keeps its own visited set)
    auto& S = mc::S();
    mc::bfs(2 * NOPS, mc::thorough() ? 6 : 4, 3000000, [&](const std::vector<int>& h) -> std::string {
        if (!h.empty() && unsigned(h[0]) % S.nshards != S.shard) return "";
        mc::at_s("setters " + mc::seq_str(h));
        return run(h);
    });
    mc::sample("16 setters on parent (0-15) and child (16-31); last: " + std::string(mc::S().cur));
    return mc::finish();
}
