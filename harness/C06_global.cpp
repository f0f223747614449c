// C06: global states of all small chains of nodes, at several times, from several observers, against reference arithmetic.
#include "huira_prelude.hpp"
#include "huira/huira.hpp"
#define HUIRA_REF
#include "refmath.hpp"
using namespace huira; using namespace rf;
using TS = RGB; using units::Meter; using units::Radian;
using Rd = Rotation<double>; using Vd = Vec3<double>;
static Rd rr(V a, double t) { return Rd::from_local_to_parent(Vd{a.x, a.y, a.z}, Radian{t}); }
static Vd vv(V a) { return {a.x, a.y, a.z}; }
// callbacks whose answer depends on every argument they are given
struct PCB : PositionCallback { void evaluate(const Time& t, const Rd& r, const Vd& w) override { Vd q = r * Vd{1e5, 2e5, 3e5}; position = q + 1e6 * w + Vd{t.et() * 7, 0, 0}; velocity = {7, 1, 0}; } };
struct RCB : RotationCallback { void evaluate(const Time& t, const Vd& p, const Vd& v) override { rotation = Rd::from_local_to_parent(Vd{0, 1, 0}, Radian{0.1 + 1e-3 * t.et() + 1e-9 * p.x + 1e-6 * p.y + 1e-4 * v.y}); angular_velocity = {0, 1e-3, 0}; } };
struct TCB : StateCallback { void evaluate(const Time& t) override { state.position = {100, -50 + t.et(), 20}; state.velocity = {0, 1, 0}; state.rotation = Rd::from_local_to_parent(Vd{1, 0, 0}, Radian{0.02 * t.et()}); state.angular_velocity = {0.02, 0, 0}; state.scale = {9, 9, 9}; } };
enum Kind { IDENT, TRANS, MOVE, ROT, SPIN, BODY, SCALED, PCALL, RCALL, SCALL, SPORG, SPFRM, SPALL, KEPLER, ZUP, ZDOWN, PANDR, NK };
static const char* KN[] = {"identity", "translated", "moving", "rotated", "spinning", "body-spin", "scaled", "position-callback", "rotation-callback", "state-callback", "spice-origin", "spice-frame", "spice", "kepler", "z-up", "z-down", "moving+rotation-callback"};
static const double EP = 10;
static bool okparent(Kind par, Kind k, bool root) // SPICE components need a SPICE-driven parent component
{
    bool pp = root || par == SPORG || par == SPALL, pr = root || par == SPFRM || par == SPALL;
    return k == SPORG ? pp : k == SPFRM ? pr : k == SPALL ? pp && pr : true;
}
template <class N> static void build(N& x, Kind k)
{
    Node<TS>& y = *x.get();
    using units::MetersPerSecond; using units::RadiansPerSecond; using MPS = MetersPerSecond; using RPS = RadiansPerSecond;
    switch (k) {
    case IDENT: break;
    case TRANS: x.set_position(Meter(3e8), Meter(-1e7), Meter(2)); break;
    case MOVE: x.set_position(Meter(1000), Meter(2000), Meter(-3e7)); x.set_velocity(MPS(2e4), MPS(-1e4), MPS(500)); break;
    case ROT: x.set_rotation(rr({1, 2, -0.5}, 0.8)); x.set_position(Meter(5), Meter(6e6), Meter(7)); break;
    case SPIN: x.set_rotation(rr({0, 1, 0}, 0.5)); x.set_angular_velocity(RPS(1e-4), RPS(-2e-4), RPS(3e-4)); x.set_position(Meter(10), Meter(20), Meter(30)); break;
    case BODY: x.set_rotation(rr({1, 0, 1}, -0.9)); x.set_body_angular_velocity(RPS(3e-4), RPS(1e-4), RPS(-2e-4)); x.set_position(Meter(-1e6), Meter(0), Meter(5e5)); x.set_velocity(MPS(10), MPS(20), MPS(30)); break;
    case SCALED: x.set_scale(2, 0.5, 3); x.set_position(Meter(400), Meter(500), Meter(600)); x.set_velocity(MPS(1), MPS(2), MPS(3)); break;
    case PCALL: x.set_rotation(rr({0, 0, 1}, 0.3)); x.set_angular_velocity(RPS(0), RPS(2e-4), RPS(1e-4)); y.template set_custom_position_callback<PCB>(); break;
    case RCALL: x.set_position(Meter(1e6), Meter(1e3), Meter(0)); x.set_velocity(MPS(50), MPS(60), MPS(0)); y.template set_custom_rotation_callback<RCB>(); break;
    case SCALL: y.template set_custom_state_callback<TCB>(); break;
    case SPORG: x.set_spice_origin("EARTH"); x.set_rotation(rr({0, 0, 1}, 1.2)); x.set_angular_velocity(RPS(0), RPS(0), RPS(1e-3)); break;
    case SPFRM: x.set_spice_frame("IAU_EARTH"); x.set_position(Meter(7e6), Meter(-2e6), Meter(1e5)); x.set_velocity(MPS(-7), MPS(8), MPS(9)); break;
    case SPALL: x.set_spice("MARS", "ECLIPJ2000"); break;
    case KEPLER: y.set_keplerian_orbit(Meter(7e6), 0.2, Radian(0.5), Radian(1), Radian(-0.7), Radian(0.3), Time::from_et(EP - 100), 398600.4); break;
    case ZUP: case ZDOWN: x.set_position(Meter(1e6), Meter(2e6), Meter(-3e5)); x.set_velocity(MPS(100), MPS(-200), MPS(700)); if (k == ZUP) y.set_z_up_y_forward_callback(); else y.set_z_down_y_forward_callback(); break;
    case PANDR: y.template set_custom_position_callback<PCB>(); y.template set_custom_rotation_callback<RCB>(); break;
    default: break;
    }
}
static State kepler(double t) // classic elements, solved here independently
{
    double a = 7e6, e = 0.2, mu = 398600.4e9, n = std::sqrt(mu / (a * a * a)), Mn = 0.3 + n * (t - (EP - 100)), E = Mn;
    for (int i = 0; i < 80; ++i) E -= (E - e * std::sin(E) - Mn) / (1 - e * std::cos(E));
    double b = a * std::sqrt(1 - e * e), Ed = n / (1 - e * std::cos(E)); M R = rot({0, 0, 1}, 1) * rot({1, 0, 0}, 0.5) * rot({0, 0, 1}, -0.7);
    State s; s.p = R * V{a * (std::cos(E) - e), b * std::sin(E), 0}; s.v = R * V{-a * std::sin(E) * Ed, b * std::cos(E) * Ed, 0}; return s;
}
static void rcb(State& l, double te) { l.R = rot({0, 1, 0}, 0.1 + 1e-3 * te + 1e-9 * l.p.x + 1e-6 * l.p.y + 1e-4 * l.v.y); l.w = {0, 1e-3, 0}; }
static State global(const State& P, Kind k, double te)
{
    State l; double d = te - EP; auto man = [&](V p, V v, V ax, double an, V w, bool body) { l.p = p + d * v; l.v = v; M D = rot(w, len(w) * d), R0 = rot(ax, an); l.R = body ? R0 * D : D * R0; l.w = body ? l.R * w : w; };
    switch (k) {
    case TRANS: l.p = {3e8, -1e7, 2}; break;
    case MOVE: man({1000, 2000, -3e7}, {2e4, -1e4, 500}, {0, 0, 1}, 0, {}, false); break;
    case ROT: man({5, 6e6, 7}, {}, {1, 2, -0.5}, 0.8, {}, false); break;
    case SPIN: man({10, 20, 30}, {}, {0, 1, 0}, 0.5, {1e-4, -2e-4, 3e-4}, false); break;
    case BODY: man({-1e6, 0, 5e5}, {10, 20, 30}, {1, 0, 1}, -0.9, {3e-4, 1e-4, -2e-4}, true); break;
    case SCALED: man({400, 500, 600}, {1, 2, 3}, {0, 0, 1}, 0, {}, false); l.s = {2, 0.5, 3}; break;
    case PCALL: man({}, {}, {0, 0, 1}, 0.3, {0, 2e-4, 1e-4}, false); l.p = l.R * V{1e5, 2e5, 3e5} + 1e6 * l.w + V{te * 7, 0, 0}; l.v = {7, 1, 0}; break;
    case RCALL: man({1e6, 1e3, 0}, {50, 60, 0}, {0, 0, 1}, 0, {}, false); rcb(l, te); break;
    case SCALL: l.p = {100, -50 + te, 20}; l.v = {0, 1, 0}; l.R = rot({1, 0, 0}, 0.02 * te); l.w = {0.02, 0, 0}; break;
    case KEPLER: l = kepler(te); break;
    case ZUP: case ZDOWN: { man({1e6, 2e6, -3e5}, {100, -200, 700}, {0, 0, 1}, 0, {}, false); V z = (k == ZUP ? 1. : -1.) * norm(l.p), x = norm(cross(norm(l.v), z)), y = cross(z, x); double q[3][3] = {{x.x, y.x, z.x}, {x.y, y.y, z.y}, {x.z, y.z, z.z}}; std::memcpy(l.R.m, q, sizeof q); break; }
    case SPORG: man({}, {}, {0, 0, 1}, 1.2, {0, 0, 1e-3}, false); break;
    case SPFRM: man({7e6, -2e6, 1e5}, {-7, 8, 9}, {0, 0, 1}, 0, {}, false); break;
    case PANDR: l.p = V{1e5, 2e5, 3e5} + V{te * 7, 0, 0}; l.v = {7, 1, 0}; rcb(l, te); break;
    default: break;
    }
    State g = compose(P, l);
    auto body = [&](const char* n) { const auto* b = stub_spice::body(n); g.v = 1000.0 * V{b->v[0], b->v[1], b->v[2]}; g.p = 1000.0 * V{b->p[0], b->p[1], b->p[2]} + te * g.v; };
    auto frame = [&](const char* n) { double m[3][3], rate; stub_spice::frame(n, te, m, rate); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) g.R.m[i][j] = m[j][i]; g.w = {0, 0, rate}; };
    if (k == SPORG) body("EARTH"); if (k == SPFRM) frame("IAU_EARTH"); if (k == SPALL) { body("MARS"); frame("ECLIPJ2000"); g.s = {1, 1, 1}; }
    return g;
}
static const double C = 299792458.0;
static V aberrate(V u, V v) // special relativity, through the angle to the motion
{
    double b = len(v) / C; if (b == 0) return u; V k = norm(v); double mu = dot(u, k), g = 1 / std::sqrt(1 - b * b); V perp = u - mu * k;
    return ((mu + b) / (1 + b * mu)) * k + (1 / (g * (1 + b * mu))) * perp;
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    const double TE[3] = {10, 1000, -400}; V OP[2] = {{4e8, 1e7, -2e7}, {-1e12, 5e11, 2e11}}, OV[3] = {{}, {3e4, -1e4, 2e3}, {-5e7, 1e8, 2e7}};
    auto one = [&](std::vector<int> ch) {
        if (!mc::mine()) return;
        for (std::size_t i = 0; i < ch.size(); ++i) if (!okparent(i ? Kind(ch[i - 1]) : IDENT, Kind(ch[i]), i == 0)) return;
        std::string name; for (int k : ch) name += std::string(KN[k]) + " > ";
        mc::at_s(name);
        Scene<TS> s; std::vector<std::shared_ptr<Node<TS>>> n; auto L = s.new_sphere_light(Meter(1), units::Watt(1), "L");
        FrameHandle<TS> f = s.root.new_subframe(); bool inst = ch.size() % 2 == 0;
        for (std::size_t i = 0; i < ch.size(); ++i) {
            // an unrelated sibling before every node must not matter
            if (i == 0) { s.root.new_subframe().set_position(Meter(1), Meter(1), Meter(1)); } else f.new_subframe().set_scale(5, 5, 5);
            if (i + 1 == ch.size() && inst) { auto h = i ? f.new_instance(L) : s.root.new_instance(L); build(h, Kind(ch[i])); n.push_back(h.get()); }
            else { f = i ? f.new_subframe() : s.root.new_subframe(); build(f, Kind(ch[i])); n.push_back(f.get()); }
        }
        auto ref = [&](std::size_t k, double te) { State g; for (std::size_t i = 0; i <= k; ++i) g = global(g, Kind(ch[i]), te); return g; };
        auto eval = [&](std::size_t k, ObservationMode m, double te, V op, V ov) { Transform<double> o; o.position = vv(op); o.velocity = vv(ov); return n[k]->get_apparent_transform(m, Time::from_et(EP), Time::from_et(te), o); };
        std::vector<Transform<double>> seen;
        for (int pass = 0; pass < 2; ++pass) { // the second pass runs backwards and must reproduce the first
            std::size_t at = 0; struct Q { std::size_t k; ObservationMode m; double te; V op, ov; }; std::vector<Q> qs;
            for (std::size_t k = 0; k < n.size(); ++k) for (double te : TE) {
                qs.push_back({k, ObservationMode::TRUE_STATE, te, OP[0], OV[1]});
                for (auto& op : OP) qs.push_back({k, ObservationMode::GEOMETRIC_STATE, te, op, OV[1]});
                for (auto& ov : OV) qs.push_back({k, ObservationMode::ABERRATED_STATE, te, OP[0], ov});
            }
            if (pass == 0) seen.resize(qs.size());
            for (std::size_t i = 0; i < qs.size(); ++i) {
                at = pass ? qs.size() - 1 - i : i; auto& q = qs[at]; Transform<double> t;
                if (!mc::check(!mc::throws([&] { t = eval(q.k, q.m, q.te, q.op, q.ov); }), "evaluate", "node %zu mode %d at %g throws", q.k, int(q.m), q.te)) continue;
                if (pass) { auto& a = seen[at]; mc::check(a.position == t.position && a.velocity == t.velocity && a.angular_velocity == t.angular_velocity && a.scale == t.scale && diff(from(a.rotation), from(t.rotation)) == 0, "history", "node %zu mode %d at %g: a second evaluation in another order gives another answer", q.k, int(q.m), q.te); continue; }
                seen[at] = t;
                double dt = 0; State e = ref(q.k, q.te);
                if (q.m != ObservationMode::TRUE_STATE) { for (int it = 0; it < 60; ++it) { dt = len(q.op - e.p) / C; e = ref(q.k, q.te - dt); } }
                if (q.m == ObservationMode::ABERRATED_STATE) { V rel = e.p - q.op; double d = len(rel); if (d > 1e-6) e.p = q.op + d * aberrate((1 / d) * rel, q.ov); }
                bool zf = false; for (std::size_t i = 0; i <= q.k; ++i) zf |= ch[i] == ZUP || ch[i] == ZDOWN; // single-precision axes
                std::string df = compare(from(t), e, zf ? 3e-7 : q.m == ObservationMode::TRUE_STATE ? 1e-11 : 1e-9, zf ? 100 : 1e-5); // light time is resolved to a picosecond
                mc::check(df.empty(), q.m == ObservationMode::TRUE_STATE ? "true-state" : q.m == ObservationMode::GEOMETRIC_STATE ? "geometric" : "aberrated", "node %zu at %g: %s", q.k, q.te, df.c_str());
                mc::evaluated(q.k > 0);
            }
        }
        mc::count("chains");
    };
    for (int a = 0; a < NK; ++a) { one({a}); for (int b = 0; b < NK; ++b) { one({a, b}); for (int c = 0; c < NK; ++c) { one({a, b, c}); if (mc::thorough()) for (int d = 0; d < NK; ++d) one({a, b, c, d}); } } }
    mc::sample(mc::S().cur);
    return mc::finish();
}
