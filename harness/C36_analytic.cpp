// C36: renders of scenes with closed-form answers over lattices of placements and observer poses; each pixel must lie between the extremes of the exact radiance over it (plus six standard deviations where the estimator is random).
#include "scenes.hpp"
using TS = RGB; using FB = FrameBuffer<TS>; using sc::Meter; using D3 = Vec3<double>; using C3 = std::array<double, 3>; using St = sc::Stage<TS>;
using D2 = glm::dvec2; static const double PI_ = 3.14159265358979323846; static const int W = 20, H = 12; static const double PITCH = 500e-6, FL = St::f, AREA = PI_ * (FL / 4 / 2) * (FL / 4 / 2);
struct Pose { Rotation<double> R; D3 P; bool blend; };
static std::vector<Pose> poses()
{
    auto aa = [](double x, double y, double z, double a) { return Rotation<double>::from_local_to_parent(glm::normalize(D3{x, y, z}), units::Radian(a)); }; std::vector<Pose> v; int i = 0;
    for (auto& R : {Rotation<double>(), aa(1, 0, 0, 1.1), aa(0.3, -0.8, 0.5, 2.2), aa(0, 1, 0, 3.14159)}) for (auto& P : {D3{0, 0, 0}, D3{300, -50, 20}}) for (bool bl : {false, true}) { if (mc::thorough() || i == 0 || i == 7 || i == 9 || i == 14) v.push_back({R, P, bl}); ++i; }
    return v;
}
struct Cam { bool blend; double F() const { return blend ? -1 : 1; }
    D3 ray(double px, double py) const { double x = (px - W / 2.0) * PITCH / FL, y = (py - H / 2.0) * PITCH / FL; return glm::normalize(blend ? D3{x, -y, -1} : D3{x, y, 1}); }
    bool pix(D3 p, double& px, double& py) const { double z = p.z * F(); if (z <= 0) return false; px = p.x / z * FL / PITCH + W / 2.0; py = (blend ? -p.y : p.y) / z * FL / PITCH + H / 2.0; return true; }
    double k(double x, double y) const { double c = std::fabs(ray(x, y).z); return AREA * c * c * c * c * PITCH * PITCH / (FL * FL); } };
static bool sphere(D3 d, D3 c, double r, double& t) { double b = glm::dot(d, c), q = b * b - glm::dot(c, c) + r * r; if (q <= 0 || b <= 0) return false; t = b - std::sqrt(q); return t > 0; }
static C3 rgb(const TS& s) { return {double(s[0]), double(s[1]), double(s[2])}; }
// L(direction, j) for j in [0, variants): radiance along a ray of the camera; sig: standard deviation of one sample
static void expect(const char* key, FB& fb, const Cam& c, int variants, const std::function<C3(D3, int)>& L, double rel = 2e-3, const std::function<C3(D3)>& sig = nullptr, int spp = 1, int w = W, int h = H)
{
    auto& im = fb.received_power(); int lit = 0; const int K = 4;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        C3 lo{1e300, 1e300, 1e300}, hi{-1, -1, -1}, s{0, 0, 0};
        for (int a = 0; a <= K; ++a) for (int b = 0; b <= K; ++b) { D3 d = c.ray(x + (a - 2.) / K * 1.02 + .5, y + (b - 2.) / K * 1.02 + .5); for (int j = 0; j < variants; ++j) { C3 v = L(d, j); for (std::size_t i = 0; i < 3; ++i) { lo[i] = std::min(lo[i], v[i]); hi[i] = std::max(hi[i], v[i]); } } if (sig) { C3 v = sig(d); for (std::size_t i = 0; i < 3; ++i) s[i] = std::max(s[i], v[i]); } }
        double k = c.k(x + .5, y + .5); for (std::size_t i = 0; i < 3; ++i) { double slack = 0.25 * (hi[i] - lo[i]) + rel * hi[i] + 6 * s[i] / std::sqrt(double(spp)), g = double(im(x, y)[i]) / k; lit += g > 0; mc::check(g >= lo[i] - slack && g <= hi[i] + slack, key, "pixel (%d,%d) bin %zu: radiance %.7g, exact %.7g to %.7g (+-%.3g)", x, y, i, g, lo[i], hi[i], slack); }
    }
    mc::count("images"); mc::count("pixels", w * h); mc::outcome(mc::fmt("%s %d", key, lit));
}
static FB shoot(St& g, int spp, int bounces, std::size_t n = 1, double dt = 0) { auto v = g.view(n, dt); Renderer<TS> r; r.set_samples_per_pixel(spp); r.set_max_bounces(bounces); FB fb = g.cam.make_frame_buffer(); fb.enable_received_power(); r.render(v, fb); return fb; }
static PrimitiveHandle<TS> prim(St& g, MeshHandle<TS> m, MaterialHandle<TS> t) { return g.s.add_primitive(GeometryHandle<TS>{m.get()}, t); }
static PrimitiveHandle<TS> ball(St& g, double r, MaterialHandle<TS> t) { return g.s.add_primitive(GeometryHandle<TS>{g.s.add_ellipsoid(Meter(r), Meter(r), Meter(r)).get()}, t); }
static D3 cam3(const Cam& c, double x, double y, double d) { return {x, y, c.F() * d}; }
static void move(St& g, InstanceHandle<TS>& i, double x, double y, double d) { auto p = g.at(x, y, d); i.set_position(Meter(p.x), Meter(p.y), Meter(p.z)); }
static LightHandle<TS> lamp(St& g, double r, TS L) { return g.s.new_sphere_light(Meter(r), units::SpectralWattsPerMeterSquaredSteradian<TS>{L}); }
#define CASE(...) mc::at(__VA_ARGS__); mc::evaluated(true)

static void skies(const Pose& q, int pi)
{
    St g(W, H, 500, q.blend, q.R, q.P); Cam c{q.blend};
    for (int k = 0; k < 3; ++k) { CASE("constant sky %d pose %d", k, pi); TS s = k == 0 ? TS{0.7f} : k == 1 ? sc::ramp<TS>(1, 5) : TS::from_total(2); if (k == 2) g.s.set_background_radiance(2.f); else g.s.set_background_radiance(s); FB fb = shoot(g, 2, 3); expect("sky", fb, c, 1, [&](D3, int) { return rgb(s); }, 1e-3); }
    for (int k = 0; k < 2; ++k) {
        CASE("graded sky %d pose %d", k, pi); Image<TS> im(32, 16, TS{0}); for (int y = 0; y < 16; ++y) for (int x = 0; x < 32; ++x) im(x, y) = k ? TS{float(1 + y + 3 * std::sin(x * PI_ / 16))} + sc::ramp<TS>(0, 1) : sc::ramp<TS>(2 + std::cos(x * PI_ / 16), 3 + y); Image<TS> ref = im; g.s.set_background_radiance(std::move(im)); FB fb = shoot(g, 24, 3);
        expect("graded-sky", fb, c, 1, [&](D3 d, int) { D3 w = q.R * d; return rgb(ref.sample_bilinear(float(.5 + std::atan2(w.z, w.x) / (2 * PI_)), float(.5 - std::asin(std::max(-1., std::min(1., w.y))) / PI_))); }, 4e-2);
    }
}
static void lamps(const Pose& q, int pi)
{
    for (double r : {0.25, 1.0, 3.0}) {
        St g(W, H, 500, q.blend, q.R, q.P); Cam c{q.blend}; TS bg = sc::ramp<TS>(0.5, 0.2); g.s.set_background_radiance(bg);
        TS L = sc::ramp<TS>(3, 8); auto i = g.put(lamp(g, r, L), 0, 0, 10);
        for (double d : {6.0, 12.0, -8.0}) for (double x : {-4.0, -1.3, 0.0, 0.9, 5.0}) for (double y : {-1.0, 0.2, 2.5}) {
            CASE("light radius %g at (%g,%g,%g) pose %d", r, x, y, d, pi); move(g, i, x, y, d); FB fb = shoot(g, 3, 3); D3 C = cam3(c, x, y, d);
            expect("light-in-view", fb, c, 1, [&](D3 v, int) { double t; return sphere(v, C, r, t) ? rgb(L) : rgb(bg); });
        }
    }
}
static C3 lit(C3 Lr, double r, D3 p, D3 n, D3 lp, double alb, const D3& view)
{
    D3 to = lp - p; double d2 = glm::dot(to, to), cs = glm::dot(n, to) / std::sqrt(d2); if (glm::dot(n, view) > 0) cs = -cs; C3 o{0, 0, 0}; if (cs > 0) for (std::size_t i = 0; i < 3; ++i) o[i] = alb / PI_ * Lr[i] * PI_ * r * r / d2 * cs; return o;
}
static void matte(const Pose& q, int pi)
{
    const double r = 0.02; TS Lr = sc::ramp<TS>(40000, 90000);
    for (int shape = 0; shape < 4; ++shape) { // 0 facing square, 1 tilted square, 2 sphere, 3 tilted square without vertex normals
        St g(W, H, 500, q.blend, q.R, q.P); Cam c{q.blend}; double alb = 0.6, tilt = shape == 1 || shape == 3 ? 0.4 : 0, R = 1.4; auto m = g.matte(alb); auto b = g.put(shape == 2 ? ball(g, R, m) : prim(g, g.quad(R, shape != 3, shape == 1, tilt), m), 0, 0, 10); auto l = g.put(lamp(g, r, Lr), 0, 0, 0);
        for (double x : {-2.0, 0.4}) for (double y : {0.1, 1.1}) for (auto& lp : {D3{3, 4, 2}, D3{-6, 0.5, 9}, D3{0.5, 0.3, 14}, D3{0, 0.4, -3}}) {
            CASE("matte shape %d at (%g,%g) light at (%g,%g,%g) pose %d", shape, x, y, lp.x, lp.y, lp.z, pi); move(g, b, x, y, 10); move(g, l, lp.x, lp.y, lp.z); FB fb = shoot(g, 4, 2); D3 C = cam3(c, x, y, 10), LP = cam3(c, lp.x, lp.y, lp.z);
            expect("lit-surface", fb, c, 1, [&](D3 v, int) -> C3 { double t;
                if (sphere(v, LP, r, t)) { double tb; bool front = shape == 2 ? !(sphere(v, C, R, tb) && tb < t) : false; if (shape != 2) { D3 n = glm::normalize(glm::cross(D3{1, 0, tilt}, D3{0, 1, 0})); tb = glm::dot(C, n) / glm::dot(v, n); D3 e = v * tb - C; front = !(tb > 0 && tb < t && std::fabs(e.x) <= R && std::fabs(e.y) <= R); } if (front) return rgb(Lr); }
                if (shape == 2) { if (!sphere(v, C, R, t)) return {0, 0, 0}; D3 p = v * t, n = (p - C) / R; return lit(rgb(Lr), r, p, n, LP, alb, v); }
                D3 n = glm::normalize(glm::cross(D3{1, 0, tilt}, D3{0, 1, 0})); t = glm::dot(C, n) / glm::dot(v, n); if (t <= 0) return {0, 0, 0}; D3 e = v * t - C; if (std::fabs(e.x) > R || std::fabs(e.y) > R) return {0, 0, 0}; return lit(rgb(Lr), r, v * t, n, LP, alb, v); }, 1.5e-2);
        }
    }
}
static void shadows(const Pose& q, int pi)
{
    const double r = 0.05; TS Lr = sc::ramp<TS>(9000, 5000); St g(W, H, 500, q.blend, q.R, q.P); Cam c{q.blend}; double R1 = 5, R2 = 0.8; g.put(prim(g, g.quad(R1), g.matte(0.8)), 0, 0, 12); auto o = g.put(prim(g, g.quad(R2), g.matte(0.0)), 0, 0, 8); auto l = g.put(lamp(g, r, Lr), 0, 0, 0); auto ob = g.put(ball(g, 0.5, g.matte(0.0)), 0, 0, 8);
    for (double ox : {-1.0, 0.3}) for (double oy : {-0.2, 0.9}) for (auto& lp : {D3{4, 1, 3}, D3{-3, -2, 5}, D3{0, 3, -1}}) {
        CASE("occluder at (%g,%g) light at (%g,%g,%g) pose %d", ox, oy, lp.x, lp.y, lp.z, pi); move(g, o, ox, oy, 8); double bx = -ox, by = oy - 0.8, bd = 9.5; move(g, ob, bx, by, bd); move(g, l, lp.x, lp.y, lp.z); FB fb = shoot(g, 6, 2); D3 C = cam3(c, ox, oy, 8), LP = cam3(c, lp.x, lp.y, lp.z), B = cam3(c, bx, by, bd);
        auto quadhit = [&](D3 org, D3 dir, D3 cc, double R, double& t) { if (dir.z == 0) return false; t = (cc.z - org.z) / dir.z; if (t <= 1e-9) return false; D3 e = org + dir * t - cc; return std::fabs(e.x) <= R && std::fabs(e.y) <= R; };
        expect("shadow", fb, c, 7, [&](D3 v, int j) -> C3 { D3 z{0, 0, 0}; double t; if (sphere(v, LP, r, t)) return rgb(Lr); if (quadhit(z, v, C, R2, t)) return {0, 0, 0}; if (sphere(v, B, 0.5, t)) return {0, 0, 0}; if (!quadhit(z, v, cam3(c, 0, 0, 12), R1, t)) return {0, 0, 0}; D3 p = v * t, L = LP; if (j) { D3 off{0, 0, 0}; off[(j - 1) / 2] = (j % 2 ? 1 : -1) * r * 1.1; L += off; } D3 to = L - p; double s; if (quadhit(p, to, C, R2, s) && s < 1) return {0, 0, 0}; double s2; D3 dir = glm::normalize(to); if (sphere(dir, B - p, 0.5, s2) && s2 < glm::length(to)) return {0, 0, 0}; return lit(rgb(Lr), r, p, {0, 0, -c.F()}, LP, 0.8, v); }, 2e-2);
    }
}
static void furnace(const Pose& q, int pi)
{
    for (int shape = 0; shape < 3; ++shape) for (double alb : {1.0, 0.45}) { // the third holds an absorbing medium no light gets into
        St g(W, H, 500, q.blend, q.R, q.P); Cam c{q.blend}; TS sky = sc::ramp<TS>(1, 3); g.s.set_background_radiance(sky); auto m = g.matte(alb); double R = 1.3; auto b = g.put(shape == 2 ? g.s.add_primitive(GeometryHandle<TS>{g.s.add_ellipsoid(Meter(R), Meter(R), Meter(R)).get()}, m, g.s.new_medium(g.s.new_constant_density_field(TS{0.9f}, TS{0.f}), g.s.new_isotropic_phase_function())) : shape ? ball(g, R, m) : prim(g, g.quad(R), m), 0, 0, 10);
        for (int bounces : {1, 2, 5}) for (double x : {-3.0, 0.2, 2.2}) for (double d : {7.0, 14.0, -9.0}) {
            CASE("uniform sky, matte shape %d albedo %g at (%g,%g) %d bounces pose %d", shape, alb, x, d, bounces, pi); move(g, b, x, 0.3, d); FB fb = shoot(g, 4, bounces); D3 C = cam3(c, x, 0.3, d);
            expect("furnace", fb, c, 1, [&](D3 v, int) { double t; bool hit; if (shape) hit = sphere(v, C, R, t); else { t = C.z / v.z; D3 e = v * t - C; hit = t > 0 && std::fabs(e.x) <= R && std::fabs(e.y) <= R; } C3 o = rgb(sky); if (hit) for (auto& e : o) e *= bounces == 1 ? 0 : alb; return o; });
        }
    }
}
static void alphas(const Pose& q, int pi)
{
    const int SPP = 64; for (double al : {0.0, 0.3, 0.8, 1.0}) for (int layers = 1; layers <= 2; ++layers) {
        St g(W, H, 500, q.blend, q.R, q.P); Cam c{q.blend}; TS sky = sc::ramp<TS>(1, 3); g.s.set_background_radiance(sky); auto p = prim(g, g.quad(1.5), g.matte(0.5, al)); g.put(p, 0.4, 0.2, 9); if (layers == 2) g.put(p, -0.7, -0.1, 11);
        CASE("%d layers of opacity %g pose %d", layers, al, pi); FB fb = shoot(g, SPP, 1); auto hits = [&](D3 v) { int n = 0; for (int k = 0; k < layers; ++k) { D3 C = k ? cam3(c, -0.7, -0.1, 11) : cam3(c, 0.4, 0.2, 9); D3 e = v * (C.z / v.z) - C; n += std::fabs(e.x) <= 1.5 && std::fabs(e.y) <= 1.5; } return n; };
        expect("opacity", fb, c, 1, [&](D3 v, int) { C3 o = rgb(sky); for (auto& e : o) e *= std::pow(1 - al, hits(v)); return o; }, 2e-3, [&](D3 v) { C3 o = rgb(sky); double pr = std::pow(1 - al, hits(v)); for (auto& e : o) e *= std::sqrt(pr * (1 - pr)); return o; }, SPP);
    }
}
static void absorbers(const Pose& q, int pi)
{
    const int SPP = 200; for (int k = 0; k < 3; ++k) {
        St g(W, H, 500, q.blend, q.R, q.P); Cam c{q.blend}; TS sky = sc::ramp<TS>(1, 3); g.s.set_background_radiance(sky); TS sa = k == 0 ? TS{0.3f} : k == 1 ? sc::ramp<TS>(0.1, 0.5) : TS{0.f}; auto m = g.s.new_material(g.s.new_bsdf_null("")); auto med = g.s.new_medium(g.s.new_constant_density_field(sa, TS{0.f}), g.s.new_isotropic_phase_function());
        auto b = g.put(g.s.add_primitive(GeometryHandle<TS>{g.s.add_ellipsoid(Meter(1.6), Meter(1.6), Meter(1.6)).get()}, m, med), 0, 0, 10); double avg = (double(sa[0]) + double(sa[1]) + double(sa[2])) / 3;
        for (double x : {0.1, -2.4}) { CASE("absorbing ball %d at %g pose %d", k, x, pi); move(g, b, x, 0.2, 10); FB fb = shoot(g, SPP, 6); D3 C = cam3(c, x, 0.2, 10); auto chord = [&](D3 v) { double t; if (!sphere(v, C, 1.6, t)) return 0.; return 2 * (glm::dot(v, C) - t); };
            expect("absorption", fb, c, 1, [&](D3 v, int) { C3 o = rgb(sky); double s = chord(v); for (std::size_t i = 0; i < 3; ++i) o[i] *= std::exp(-double(sa[i]) * s); return o; }, 3e-3, [&](D3 v) { C3 o = rgb(sky); double s = chord(v); for (std::size_t i = 0; i < 3; ++i) o[i] *= std::exp(-double(sa[i]) * s) * std::sqrt(std::max(0., std::exp(avg * s) - 1)); return o; }, SPP); }
    }
}
static void unresolved_vs_resolved(const Pose& q, int pi)
{
    for (double ph : {0.0, 1.0, 2.0}) for (double x : {-0.5, 0.3}) {
        CASE("sphere resolved and unresolved, phase %g at x=%g pose %d", ph, x, pi); double tot[2][3] = {}; for (int k = 0; k < 2; ++k) { St g(W, H, 80, q.blend, q.R, q.P); double d = 30, LD = 4000; double fx = std::sin(ph) * LD, fd = d - std::cos(ph) * LD; auto li = g.put(lamp(g, 10, sc::ramp<TS>(3e5, 6e5)), x + fx, 0.05, fd); if (k) g.put(g.s.new_unresolved_sphere(Meter(0.5), li, 0.5f), x, 0.05, d); else g.put(ball(g, 0.5, g.matte(0.5)), x, 0.05, d); FB fb = shoot(g, 60, 2); for (int yy = 0; yy < H; ++yy) for (int xx = 0; xx < W; ++xx) for (std::size_t i = 0; i < 3; ++i) tot[k][i] += double(fb.received_power()(xx, yy)[i]); }
        for (int i = 0; i < 3; ++i) mc::check(std::fabs(tot[0][i] - tot[1][i]) <= 0.06 * tot[0][i] && tot[0][i] > 0, "resolved-unresolved", "bin %d: the resolved sphere sends %.6g W, the unresolved one %.6g W", i, tot[0][i], tot[1][i]); mc::outcome(mc::fmt("ru %g %g", ph, tot[0][0]));
    }
}
static void points(const Pose& q, int pi)
{
    TS E = sc::ramp<TS>(2, 7); Cam c{q.blend};
    // positions in pixels: lattice over the frame, its borders, outside; distances; front/behind; kinds: fixed irradiance, emitter, star, sphere light hidden behind bodies
    for (int kind = 0; kind < 3; ++kind) {
        St g(W, H, 500, q.blend, q.R, q.P); std::optional<InstanceHandle<TS>> i; double Pw = 5000; if (kind == 0) i = g.put(g.s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{E}), 0, 0, 10); if (kind == 1) i = g.put(g.s.new_unresolved_emitter(units::SpectralWatts<TS>{E * float(Pw)}), 0, 0, 10);
        for (double px : {-3.0, -0.05, 0.03, 0.5, 7.98, 8.02, 12.5, 19.97, 20.04, 26.0}) for (double py : {-0.04, 0.02, 3.4, 6.0, 11.96, 12.05}) for (double dist : {9.0, 800.0, -9.0}) {
            D3 v = c.ray(px, py); if (dist < 0) v = -v; D3 p = v * std::fabs(dist); if (kind == 2 && dist > 10) continue;
            CASE("point kind %d at pixel (%g,%g) distance %g pose %d", kind, px, py, dist, pi);
            if (kind == 2) { D3 d = q.R * v; g.s.set_stars({Star<TS>(d, E)}); } else { D3 wp = q.P + q.R * p; i->set_position(Meter(wp.x), Meter(wp.y), Meter(wp.z)); }
            FB fb = shoot(g, 1, 1); bool in = dist > 0 && px >= 0 && px < W && py >= 0 && py < H; double e = kind == 1 ? Pw / (4 * PI_ * dist * dist) : 1, sum = 0; double ap = AREA * std::fabs(v.z);
            for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double g0 = double(fb.received_power()(x, y)[0]); sum += g0; if (g0 != 0) { mc::check(in && x == int(px) && y == int(py), "point-place", "light at pixel (%d,%d)", x, y); for (std::size_t b = 0; b < 3; ++b) mc::check(mc::near(double(fb.received_power()(x, y)[b]), e * ap * double(E[b]), 2e-4), "point-power", "bin %zu power %.8g, expected %.8g", b, double(fb.received_power()(x, y)[b]), e * ap * double(E[b])); } }
            if (in) mc::check(sum > 0, "point-lost", "a point inside the frame is missing"); mc::outcome(mc::fmt("point %d %d", kind, in)); mc::count("points");
        }
    }
    // hiding: body or light in front or behind, covering the point's pixel or its neighbours
    for (int body = 0; body < 3; ++body) for (int kind = 0; kind < 3; ++kind) for (double bd : {6.0, 13.0}) for (double off : {0.0, 6.0}) {
        St g(W, H, 500, q.blend, q.R, q.P); auto mt = g.matte(0.0); double px = 10.5, py = 6.5, dist = 9; D3 v = c.ray(px, py); CASE("point kind %d and body %d at %g m, %g m aside, pose %d", kind, body, bd, off, pi);
        if (body == 0) g.put(prim(g, g.quad(1), mt), off, 0, bd); if (body == 1) g.put(ball(g, 1, mt), off, 0, bd); TS Lr{0.f}; if (body == 2) g.put(lamp(g, 1, Lr), off, 0, bd);
        if (kind == 2) g.s.set_stars({Star<TS>(q.R * v, E)}); else { D3 p = q.P + q.R * (v * dist); auto i = kind == 0 ? g.s.root.new_instance(g.s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{E})) : g.s.root.new_instance(g.s.new_unresolved_emitter(units::SpectralWatts<TS>{E})); i.set_position(Meter(p.x), Meter(p.y), Meter(p.z)); }
        bool hidden = off == 0 && (kind == 2 || bd < dist); FB fb = shoot(g, 2, 1); double got = double(fb.received_power()(10, 6)[0]); mc::check(hidden == (got == 0), hidden ? "seen-through" : "hidden", "power %g in the point's pixel", got); mc::outcome(mc::fmt("hide %d", hidden));
    }
    // two instances of one source keep their own brightness
    { St g(W, H, 500, q.blend, q.R, q.P); auto em = g.s.new_unresolved_emitter(units::SpectralWatts<TS>{E * 100.f}); CASE("two instances of one emitter pose %d", pi); double pos[2][3] = {{4.5, 3.5, 5}, {14.5, 8.5, 20}}; for (auto& p : pos) { D3 w = q.P + q.R * (c.ray(p[0], p[1]) * p[2]); auto i = g.s.root.new_instance(em); i.set_position(Meter(w.x), Meter(w.y), Meter(w.z)); } FB fb = shoot(g, 1, 1); for (auto& p : pos) { double want = double(E[0]) * 100 / (4 * PI_ * p[2] * p[2]) * AREA * std::fabs(c.ray(p[0], p[1]).z), got = double(fb.received_power()(int(p[0]), int(p[1]))[0]); mc::check(mc::near(got, want, 1e-4), "instances", "instance at %g m gives %.8g, expected %.8g", p[2], got, want); } }
}
static void spread(const Pose& q, int pi)
{
    for (bool wide : {false, true}) { // the wide image spans several tiles
    const double PITCH = wide ? 1e-4 : 5e-4, stop = wide ? 200 : 1000; const int w = wide ? 150 : 44, h = wide ? 140 : 36; St g(w, h, PITCH * 1e6, q.blend, q.R, q.P, stop); g.cam.use_aperture_psf(9, 8); Cam c{q.blend}; double area = PI_ * (FL / stop / 2) * (FL / stop / 2); TS E = wide ? sc::ramp<TS>(1e5, 2e5) : sc::ramp<TS>(2e6, 3e6); auto i = g.put(g.s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{E}), 0, 0, 10);
    for (double px : wide ? std::vector<double>{63.9, 64.3, 127.2, 70.5} : std::vector<double>{12.5, 18.2, 22.0, 29.75}) for (double py : wide ? std::vector<double>{62.5, 64.1, 100.5} : std::vector<double>{11.5, 16.1, 24.9}) for (int moving = 0; moving < 3; ++moving) {
        CASE("point-spread at (%g,%g) moving %d pose %d", px, py, moving, pi); D3 v = glm::normalize(D3{(px - w / 2.) * PITCH / FL, (q.blend ? -1 : 1) * (py - h / 2.) * PITCH / FL, c.F()}); D3 p = q.P + q.R * (v * 10.); i.set_position(Meter(p.x), Meter(p.y), Meter(p.z)); D3 vel{moving ? (wide ? 0.1 : 0.5) : 0, moving == 2 ? (wide ? 0.06 : 0.3) : 0, 0}; D3 wv = q.R * vel; i.set_velocity(units::MetersPerSecond(wv.x), units::MetersPerSecond(wv.y), units::MetersPerSecond(wv.z));
        FB fb = shoot(g, 1, 1, moving ? 3 : 1, moving ? 1 : 0); double sum[3] = {}, cx = 0, cy = 0; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (std::size_t b = 0; b < 3; ++b) { double e = double(fb.received_power()(x, y)[b]); mc::check(e >= 0, "spread-negative", "pixel (%d,%d) receives %g", x, y, e); sum[b] += e; if (b == 1) { cx += e * (x + .5); cy += e * (y + .5); } }
        D3 a = v * 10., e = a + vel * (moving ? 1. : 0.); D3 m = (a + e) * 0.5; double ex = m.x / (m.z * c.F()) * FL / PITCH + w / 2., ey = (q.blend ? -1 : 1) * m.y / (m.z * c.F()) * FL / PITCH + h / 2.; for (std::size_t b = 0; b < 3; ++b) { double want = double(E[b]) * area * std::fabs(v.z); mc::check(std::fabs(sum[b] - want) <= 0.02 * want, "spread-power", "bin %zu: %.7g W land on the image, the source sends %.7g W", b, sum[b], want); }
        cx /= sum[1]; cy /= sum[1]; mc::check(std::fabs(cx - ex) < 0.15 && std::fabs(cy - ey) < 0.15, "spread-centre", "centred at (%.4f,%.4f), expected (%.4f,%.4f)", cx, cy, ex, ey); mc::outcome(mc::fmt("spread %d", moving));
    }
    }
}
// point sources out of focus: a disc of the size of the aperture's image, centred on the point, holding all its light
static void blurred(const Pose& q, int pi)
{
    for (bool wide : {false, true}) for (double rad : {0.3, 1.6, 4.2}) for (int sg : {1, -1}) { const int w = wide ? 150 : 40, h = wide ? 140 : 34; const double stop = 4, R0 = FL / stop / 2; St g(w, h, 5e2, q.blend, q.R, q.P, stop); Cam c{q.blend}; double d = sg * FL * R0 / (5e-4 * rad); g.cam.enable_depth_of_field(true); g.cam.set_focus_distance(Meter(d)); TS E = sc::ramp<TS>(2e6, 3e6); auto i = g.put(g.s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{E}), 0, 0, 10);
        for (double px : wide ? std::vector<double>{63.9, 127.2, 66.5} : std::vector<double>{12.5, 18.2, 29.75}) for (double py : wide ? std::vector<double>{62.5, 64.1, 100.5} : std::vector<double>{11.5, 16.1, 24.9}) for (int moving = 0; moving < 2; ++moving) {
            CASE("out of focus by %g pixels (%s), at (%g,%g)%s pose %d", rad, sg > 0 ? "near" : "beyond infinity", px, py, moving ? " moving" : "", pi); D3 v = glm::normalize(D3{(px - w / 2.) * PITCH / FL, (q.blend ? -1 : 1) * (py - h / 2.) * PITCH / FL, c.F()}); D3 p = q.P + q.R * (v * 10.); i.set_position(Meter(p.x), Meter(p.y), Meter(p.z)); D3 vel{moving ? 0.3 : 0, moving ? 0.2 : 0, 0}; D3 wv = q.R * vel; i.set_velocity(units::MetersPerSecond(wv.x), units::MetersPerSecond(wv.y), units::MetersPerSecond(wv.z)); FB fb = shoot(g, 1, 1, moving ? 3 : 1, moving ? 1 : 0);
            D3 a = v * 10., e2 = a + vel * (moving ? 1. : 0.), m = (a + e2) * 0.5; auto at = [&](D3 z) { return D2{z.x / (z.z * c.F()) * FL / PITCH + w / 2., (q.blend ? -1 : 1) * z.y / (z.z * c.F()) * FL / PITCH + h / 2.}; }; D2 ex = at(m), A = at(a), B = at(e2), u = B - A; double sum[3] = {}, cx = 0, cy = 0, far = 0, r2 = 0; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (std::size_t b = 0; b < 3; ++b) { double e = double(fb.received_power()(x, y)[b]); sum[b] += e; if (b == 1) { cx += e * (x + .5); cy += e * (y + .5); D2 z{x + .5, y + .5}; double t = glm::dot(u, u) > 0 ? std::clamp(glm::dot(z - A, u) / glm::dot(u, u), 0., 1.) : 0; if (e > 0) far = std::max(far, glm::length(z - A - u * t)); r2 += e * glm::dot(z - ex, z - ex); } }
            for (std::size_t b = 0; b < 3; ++b) { double want = double(E[b]) * AREA * std::fabs(v.z); mc::check(std::fabs(sum[b] - want) <= 0.02 * want, "blur-power", "bin %zu: %.7g W land on the image, the source sends %.7g W", b, sum[b], want); } cx /= sum[1]; cy /= sum[1]; r2 /= sum[1]; mc::check(std::fabs(cx - ex.x) < (rad < 0.5 ? 0.55 : 0.25) && std::fabs(cy - ex.y) < (rad < 0.5 ? 0.55 : 0.25), "blur-centre", "centred at (%.4f,%.4f), expected (%.4f,%.4f)", cx, cy, ex.x, ex.y);
            double R = rad < 0.5 ? 0 : rad; mc::check(far < R + 1.6, "blur-size", "light %.3f pixels away from the point, the disc has a radius of %.3f", far, R); if (!moving && R > 0) mc::check(std::fabs(r2 - (R * R / 2 + 1. / 6)) < 0.15 * R * R / 2 + 0.35, "blur-spread", "mean square distance %.4f, that of a disc is %.4f", r2, R * R / 2); if (!moving && R == 0) mc::check(r2 < 0.6, "blur-spread", "an image in focus is spread"); mc::outcome(mc::fmt("blurred %g %d", rad, moving)); }
    }
}
static void veils(const Pose& q, int pi)
{
    for (int k = 0; k < 4; ++k) { // point sources, graded sky with a body, two lamps, nothing
        St g(W, H, 500, q.blend, q.R, q.P); if (k == 0) for (double x : {3.5, 11.5}) { D3 w = q.P + q.R * (Cam{q.blend}.ray(x, 5.5) * 9.); auto i = g.s.root.new_instance(g.s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{sc::ramp<TS>(2, float(x))})); i.set_position(Meter(w.x), Meter(w.y), Meter(w.z)); }
        if (k == 1) { Image<TS> im(16, 8, TS{0}); for (int y = 0; y < 8; ++y) for (int x = 0; x < 16; ++x) im(x, y) = sc::ramp<TS>(1 + float(x % 5), 2 + float(y)); g.s.set_background_radiance(std::move(im)); g.put(ball(g, 1, g.matte(0.5)), 0.3, 0, 9); }
        if (k == 2) { g.put(lamp(g, 1, sc::ramp<TS>(3, 8)), -1, 0, 9); g.put(lamp(g, 0.5, sc::ramp<TS>(9, 2)), 2, 1, 12); }
        auto v = g.view(1, 0); auto once = [&](bool readout) { Renderer<TS> r; r.set_samples_per_pixel(4); r.set_max_bounces(2); FB fb = g.cam.make_frame_buffer(); fb.enable_received_power(); if (readout) { fb.enable_depth(); fb.enable_albedo(); } r.render(v, fb); return fb; };
        FB a = once(false); double mean[3] = {0, 0, 0}; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) for (std::size_t b = 0; b < 3; ++b) mean[b] += double(a.received_power()(x, y)[b]) / (W * H);
        for (double al : {0.02, 0.4, 1.0}) for (bool more : {false, true}) { CASE("veiling glare %g over scene %d, pose %d", al, k, pi); g.cam.set_veiling_glare(float(al)); FB fb = once(more); for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) for (std::size_t b = 0; b < 3; ++b) { double want = (1 - al) * double(a.received_power()(x, y)[b]) + al * mean[b], got = double(fb.received_power()(x, y)[b]); mc::check(std::fabs(got - want) <= 1e-5 * (want + mean[b]), "veil", "pixel (%d,%d) bin %zu receives %.8g W, expected %.8g W", x, y, b, got, want); } mc::outcome(mc::fmt("veil %d", k)); }
        CASE("veiling glare off again over scene %d, pose %d", k, pi); g.cam.disable_veiling_glare(); FB fb = once(false); bool same = true; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) same &= fb.received_power()(x, y) == a.received_power()(x, y); mc::check(same, "veil-off", "disabling veiling glare leaves a veil");
    }
    if (pi == 0) for (int n : {700, 2000}) { CASE("veiling glare over a constant sky, %d x %d pixels", n, n - 100); St g(n, n - 100, 0.5, q.blend, q.R, q.P); g.s.set_background_radiance(TS{0.7f}); auto v = g.view(1, 0); FB f[2] = {g.cam.make_frame_buffer(), g.cam.make_frame_buffer()}; for (int k = 0; k < 2; ++k) { if (k) g.cam.set_veiling_glare(0.9f); Renderer<TS> r; r.set_samples_per_pixel(1); r.set_max_bounces(1); f[k].enable_received_power(); r.render(v, f[k]); } double a = double(f[0].received_power()(n / 2, n / 2)[1]), b = double(f[1].received_power()(n / 2, n / 2)[1]); mc::check(mc::near(a, b, 2e-3), "veil-large", "an even image changes from %.8g to %.8g W", a, b); }
}
// inside a closed matte ball lit by a small lamp at its centre every wall shows the same radiance, and each further bounce adds the same fraction
static void cavity(const Pose& q, int pi)
{
    const double r = 0.05, R = 5; TS Lr = sc::ramp<TS>(9000, 5000); St g(W, H, 500, q.blend, q.R, q.P);
    for (double alb : {0.9, 0.5}) { PrimitiveHandle<TS> p = ball(g, R, g.matte(alb)); auto b = g.put(p, 0, 0, -2); auto l = g.put(lamp(g, r, Lr), 0, 0, -2);
        for (int bounces : {1, 2, 3, 4, 5, 8}) for (int dyn = 0; dyn < 2; ++dyn) { CASE("cavity of albedo %g, %d bounces, dynamic %d, pose %d", alb, bounces, dyn, pi); auto v = g.view(1, 0); Renderer<TS> ren; ren.set_samples_per_pixel(40); ren.set_max_bounces(bounces); if (dyn) { ren.set_dynamic_sampling(); ren.set_min_samples(20); ren.set_variance_threshold(1e9f); } FB fb = g.cam.make_frame_buffer(); fb.enable_received_power(); fb.enable_received_direct_power(); fb.enable_received_indirect_power(); ren.render(v, fb); Cam c{q.blend};
            double sum[3] = {}, dir[3] = {}, n = W * H; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) for (std::size_t i = 0; i < 3; ++i) { double k = c.k(x + .5, y + .5); sum[i] += double(fb.received_power()(x, y)[i]) / k / n; dir[i] += double(fb.received_direct_power()(x, y)[i]) / k / n; }
            for (std::size_t i = 0; i < 3; ++i) { double d = alb / PI_ * double(Lr[i]) * PI_ * r * r / (R * R), want = d * (1 - std::pow(alb, bounces)) / (1 - alb); mc::check(mc::near(dir[i], d, 5e-3), "cavity-direct", "bin %zu: directly lit walls show %.6g, exact %.6g", i, dir[i], d); mc::check(mc::near(sum[i], want, 2e-2), "cavity", "bin %zu: walls show %.6g, exact %.6g", i, sum[i], want); mc::outcome(mc::fmt("cavity %d", bounces)); }
            if (dyn == 0) { Renderer<TS> rc; rc.set_samples_per_pixel(8); rc.set_max_bounces(bounces); float cl = float(0.3 * alb / PI_ * 9000 * PI_ * r * r / (R * R)); rc.set_indirect_clamp(cl); rc.render(v, fb); for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double k = c.k(x + .5, y + .5); for (std::size_t i = 0; i < 3; ++i) { double d = alb * double(Lr[i]) * r * r / (R * R), gd = double(fb.received_direct_power()(x, y)[i]) / k, gi = double(fb.received_indirect_power()(x, y)[i]) / k; mc::check(mc::near(gd, d, 3e-2), "clamp-direct", "clamping indirect light changes the direct light of pixel (%d,%d) to %.6g from %.6g", x, y, gd, d); mc::check(gi <= double(cl) * 1.001, "clamp", "indirect light %.6g exceeds the clamp %.6g", gi, double(cl)); mc::check(mc::near(double(fb.received_power()(x, y)[i]) / k, gd + gi, 1e-4), "clamp-sum", "total %.6g is not direct %.6g plus indirect %.6g", double(fb.received_power()(x, y)[i]) / k, gd, gi); } } }
        }
        b.set_position(Meter(1e6), Meter(0), Meter(0)); l.set_position(Meter(1e6), Meter(0), Meter(0)); }
}
// stopping early keeps at least the requested samples, and never brings in a bias beyond their scatter
static void early(const Pose& q, int pi)
{
    for (double al : {0.3, 0.7}) for (int mn : {16, 49, 200}) for (double th : {1e9, 1e-9}) { CASE("early stopping, at least %d samples, threshold %g, opacity %g, pose %d", mn, th, al, pi); St g(W, H, 500, q.blend, q.R, q.P); Cam c{q.blend}; TS sky = sc::ramp<TS>(1, 3); g.s.set_background_radiance(sky); g.put(prim(g, g.quad(20), g.matte(0.5, al)), 0, 0, 9); auto v = g.view(1, 0); Renderer<TS> r; r.set_samples_per_pixel(100); r.set_max_bounces(1); r.set_dynamic_sampling(); r.set_min_samples(mn); r.set_variance_threshold(float(th)); FB fb = g.cam.make_frame_buffer(); fb.enable_received_power(); r.render(v, fb); double least = th < 1 ? 100 : std::min(mn, 100), p = 1 - al, sq = 0, m = 0;
        for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double e = double(fb.received_power()(x, y)[1]) / c.k(x + .5, y + .5) / double(sky[1]) - p; sq += e * e / (W * H); m += e / (W * H); } double var = p * (1 - p) / least; mc::check(sq < var * (1 + 6 * std::sqrt(2. / (W * H))), "few-samples", "the pixels scatter by %.4g, %g samples would scatter by %.4g", std::sqrt(sq), least, std::sqrt(var)); if (th > 1 && mn < 40) mc::check(sq > p * (1 - p) / 100 * (1 + 6 * std::sqrt(2. / (W * H))), "never-stops", "no pixel stops early although the threshold is met at once"); mc::check(std::fabs(m) < 6 * std::sqrt(var / (W * H)), "early-bias", "the image is %.4g too bright", m); mc::outcome(mc::fmt("early %d", mn)); }
}
// a wall lit by a lamp behind the camera through cut-out or transmitting sheets; sheets and bodies beyond the lamp change nothing
static void foils(const Pose& q, int pi)
{
    const double r = 0.05; TS Lr = sc::ramp<TS>(90000, 50000); const int SPP = 100;
    for (double al : {1.0, 0.4, 0.0}) for (double tr : {0.0, 0.5}) for (int shape = 0; shape < 2; ++shape) for (int layers = 1; layers <= 2; ++layers) for (int beyond = 0; beyond < 3; ++beyond) {
        if (shape == 1 && layers == 2) continue; CASE("light through %d %s of opacity %g, transmission %g, %s beyond the lamp, pose %d", layers, shape ? "shell" : "sheet", al, tr, beyond == 0 ? "nothing" : beyond == 1 ? "a body" : "a sheet", pi);
        St g(W, H, 500, q.blend, q.R, q.P); Cam c{q.blend}; g.put(prim(g, g.quad(9), g.matte(0.8)), 0, 0, 8); g.put(lamp(g, r, Lr), 1, 2, -10); auto m = g.matte(0.0, al); TS T = tr > 0 ? sc::ramp<TS>(0.3, 0.7) : TS{0.f}; m.set_transmission_factor(T); if (shape) g.put(ball(g, 4, m), 1.5, 2, -10); else { auto p = prim(g, g.quad(25), m); g.put(p, 0, 0, -3); if (layers == 2) g.put(p, 0.5, 0, -5); }
        if (beyond == 1) g.put(prim(g, g.quad(3), g.matte(0.0)), 1, 2, -11.5); if (beyond == 2) g.put(prim(g, g.quad(3), m), 1, 2, -11.5);
        FB fb = shoot(g, SPP, 1); D3 LP = cam3(c, 1, 2, -10); auto wall = [&](D3 v) { return lit(rgb(Lr), r, v * (cam3(c, 0, 0, 8).z / v.z), {0, 0, -c.F()}, LP, 0.8, v); };
        expect("light-through", fb, c, 1, [&](D3 v, int) { C3 o = wall(v); for (std::size_t i = 0; i < 3; ++i) o[i] *= std::pow(1 - al + al * double(T[i]), layers); return o; }, 1e-2, [&](D3 v) { C3 o = wall(v); for (std::size_t i = 0; i < 3; ++i) { double e = 1 - al + al * double(T[i]), e2 = 1 - al + al * double(T[i]) * double(T[i]); o[i] *= std::sqrt(std::max(0., std::pow(e2, layers) - std::pow(e, 2 * layers))); } return o; }, SPP);
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); sc::start(); auto PS = poses(); int i = 0;
    using F = void (*)(const Pose&, int); for (F f : {F(skies), F(lamps), F(matte), F(shadows), F(furnace), F(alphas), F(absorbers), F(unresolved_vs_resolved), F(points), F(spread), F(blurred), F(veils), F(cavity), F(early), F(foils)}) { int pi = 0; for (auto& p : PS) { if (mc::mine()) try { f(p, pi); } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); } ++pi; } ++i; }
    return mc::finish();
}
