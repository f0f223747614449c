// C43: every combination of a lattice of camera and source motions, sample counts and frame sizes rendered over an exposure: trails of point sources against the time the exact track spends left of, right of, above and below every pixel border; moving bodies, skies and lights against the exact average over pixel and time.
#include "scenes.hpp"
using TS = RGB; using FB = FrameBuffer<TS>; using sc::Meter; using D3 = Vec3<double>; using St = sc::Stage<TS>;
static const double PI_ = 3.14159265358979323846, FL = St::f; static const double AREA = PI_ * (FL / 4 / 2) * (FL / 4 / 2);
static Rotation<double> aa(D3 a, double ang) { double n = glm::length(a); return n == 0 || ang == 0 ? Rotation<double>() : Rotation<double>::from_local_to_parent(a / n, units::Radian(ang)); }
struct RefCurve { // natural cubic spline through four samples or more, else the polynomial
    std::vector<D3> y, M;
    explicit RefCurve(const std::vector<D3>& s) : y(s), M(s.size(), D3{0})
    {
        std::size_t n = y.size(); if (n <= 3) return; double h = 1.0 / double(n - 1); std::size_t m = n - 2; std::vector<double> d(m, 4); std::vector<D3> r(m); for (std::size_t i = 0; i < m; ++i) r[i] = (y[i + 2] - 2.0 * y[i + 1] + y[i]) * (6 / (h * h));
        for (std::size_t i = 1; i < m; ++i) { double f = 1 / d[i - 1]; d[i] -= f; r[i] -= r[i - 1] * f; } for (std::size_t i = m; i-- > 0;) { D3 v = r[i]; if (i + 1 < m) v -= M[i + 2]; M[i + 1] = v / d[i]; }
    }
    D3 at(double t) const
    {
        std::size_t n = y.size(); if (n == 1) return y[0]; if (n == 2) return y[0] * (1 - t) + y[1] * t; if (n == 3) return y[0] * ((1 - 2 * t) * (1 - t)) + y[1] * (4 * t * (1 - t)) + y[2] * (t * (2 * t - 1));
        double h = 1.0 / double(n - 1); std::size_t i = std::min(n - 2, std::size_t(t / h)); double a = (double(i + 1) * h - t) / h, b = 1 - a; return y[i] * a + y[i + 1] * b + (M[i] * (a * a * a - a) + M[i + 1] * (b * b * b - b)) * (h * h / 6);
    }
};
struct Frame { int w, h; double pitch; bool blend; double F() const { return blend ? -1 : 1; }
    D3 ray(double px, double py) const { double x = (px - w / 2.0) * pitch / FL, y = (py - h / 2.0) * pitch / FL; return glm::normalize(blend ? D3{x, -y, -1} : D3{x, y, 1}); }
    bool pix(D3 p, double& px, double& py) const { double z = p.z * F(); if (z <= 0) return false; px = p.x / z * FL / pitch + w / 2.0; py = (blend ? -p.y : p.y) / z * FL / pitch + h / 2.0; return px >= 0 && px < w && py >= 0 && py < h; }
    double k(double x, double y) const { double c = std::fabs(ray(x, y).z); return AREA * c * c * c * c * pitch * pitch / (FL * FL); } };
static FB shoot(St& g, int spp, int bounces, std::size_t n, double dt) { auto v = g.view(n, dt); Renderer<TS> r; r.set_samples_per_pixel(spp); r.set_max_bounces(bounces); FB fb = g.cam.make_frame_buffer(); fb.enable_received_power(); r.render(v, fb); return fb; }
// a camera's motion in its own axes at the start; the rates are constant
struct Motion { const char* name; D3 axis; double angle; D3 vel; };
static const double DT = 2;
template <class H> static void set_pos(H& i, D3 p) { i.set_position(Meter(p.x), Meter(p.y), Meter(p.z)); }
template <class H> static void set_vel(H& i, D3 v) { i.set_velocity(units::MetersPerSecond(v.x), units::MetersPerSecond(v.y), units::MetersPerSecond(v.z)); }
template <class H> static void set_spin(H& i, D3 axis, double angle) { D3 w = glm::length(axis) == 0 || angle == 0 ? D3{0} : glm::normalize(axis) * (angle / DT); i.set_angular_velocity(units::RadiansPerSecond(w.x), units::RadiansPerSecond(w.y), units::RadiansPerSecond(w.z)); }
static void aim(St& g, const Motion& m) { set_spin(g.eye, g.R * m.axis, m.angle); set_vel(g.eye, g.R * m.vel / DT); }
struct Seen { Rotation<double> R; D3 P; D3 in(D3 world) const { return R.inverse() * (world - P); } D3 dir(D3 world) const { return R.inverse() * world; } };
static Seen seen(const St& g, const Motion& m, double t) { return {aa(g.R * m.axis, m.angle * t) * g.R, g.P + g.R * m.vel * t}; }
static void trail(const char* what, const Frame& f, FB& fb, const std::vector<D3>& samples, const TS& E, int hidden_from = 1 << 30)
{
    RefCurve R(samples); const int K = mc::thorough() ? 40000 : 12000; const int Q = 16; std::vector<double> hx(std::size_t(f.w * Q), 0), hy(std::size_t(f.h * Q), 0); double border = 0, total = 0; bool was = false, cross = false;
    for (int i = 0; i < K; ++i) { D3 d = R.at((i + .5) / K); double x, y; bool in = f.pix(d, x, y); if (i && in != was) cross = true; was = in; if (!in) continue; double e = AREA * std::fabs(d.z) / glm::length(d) / K; total += e; hx[std::size_t(x * Q)] += e; hy[std::size_t(y * Q)] += e; if (x < 1 || x > f.w - 1 || y < 1 || y > f.h - 1) border += e; }
    const double edge = border >= total ? border : 0.6 * border; auto& im = fb.received_power(); double got = 0; std::vector<double> gx(std::size_t(f.w), 0), gy(std::size_t(f.h), 0); double behind = 0;
    for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) { double e = double(im(x, y)[1]) / double(E[1]); mc::check(e >= 0 && std::isfinite(e), "trail-finite", "%s: pixel (%d,%d) receives %g", what, x, y, e); for (std::size_t c = 0; c < 3; ++c) mc::check(std::fabs(double(im(x, y)[c]) - e * double(E[c])) <= 1e-5 * e * double(E[c]), "trail-colour", "%s: pixel (%d,%d) bin %zu", what, x, y, c); got += e; gx[std::size_t(x)] += e; gy[std::size_t(y)] += e; if (x > hidden_from + 1) behind += e; }
    const bool hide = hidden_from < f.w; if (hide) mc::check(behind == 0, "trail-hidden", "%s: %g arrives through the body", what, behind);
    if (!hide) mc::check(std::fabs(got - total) <= edge + 2e-3 * total, "trail-power", "%s: the image holds %.6g of the light, the track spends %.6g in the frame (%.3g at its border)", what, got, total, border);
    auto side = [&](const char* ax, const std::vector<double>& h, const std::vector<double>& g2, int n) { double want = 0, have = 0; for (int X = 1; X < n; ++X) { for (int q = 0; q < Q; ++q) want += h[std::size_t((X - 1) * Q + q)]; have += g2[std::size_t(X - 1)]; if (hide && X > hidden_from - 1) break; double near = 0, on = 0.5 * (h[std::size_t(X * Q - 1)] + h[std::size_t(X * Q)]); for (int q = -Q; q < Q; ++q) near += h[std::size_t(std::clamp(X * Q + q, 0, n * Q - 1))]; mc::check(std::fabs(want - have) <= 0.5 * near + on + edge + 3e-3 * total, "trail-place", "%s: %.6g of the light falls below %s = %d, the track spends %.6g there (%.3g close to it)", what, have, ax, X, want, near); } };
    side("x", hx, gx, f.w); if (!hide) side("y", hy, gy, f.h); mc::evaluated(total > 0); mc::count(total > 0 ? "trails" : "unseen"); mc::outcome(mc::fmt("%d %d %zu", total > 0, cross, samples.size()));
}
static std::vector<Motion> motions()
{
    std::vector<Motion> v = {{"still", {0, 0, 1}, 0, {0, 0, 0}}}; for (double a : {0.05, 1.0, PI_, 2 * PI_, -5.0}) v.push_back({"roll", {0, 0, 1}, a, {0, 0, 0}}); for (double a : {0.1, -0.5, 1.3}) { v.push_back({"yaw", {0, 1, 0}, a, {0, 0, 0}}); v.push_back({"pitch", {1, 0, 0}, a, {0, 0, 0}}); v.push_back({"tumble", {0.3, 0.6, 1}, a * 3, {0, 0, 0}}); }
    v.push_back({"slide", {0, 0, 1}, 0, {1.5, 0.4, 0}}); v.push_back({"approach", {0, 0, 1}, 0, {0.2, 0, 5}}); v.push_back({"slide and roll", {0, 0, 1}, 2.5, {-1, 1, 0}}); return v;
}
static void trails(const Frame& f, const Rotation<double>& rot, D3 pos, int id)
{
    St g(f.w, f.h, f.pitch * 1e6, f.blend, rot, pos); const TS E = sc::ramp<TS>(2, 3); auto src = g.s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{E}); const bool big = f.w > 60; int n = 0;
    const double at[][2] = {{0.5, 0.5}, {0.2, 0.3}, {0.85, 0.6}, {0.43, 0.97}, {-0.15, 0.4}, {0.6, 1.3}}; std::vector<std::size_t> counts = mc::thorough() ? std::vector<std::size_t>{1, 2, 3, 4, 5, 6, 9, 17} : std::vector<std::size_t>{1, 2, 3, 5, 9};
    for (auto& m : motions()) for (auto N : counts) { aim(g, m); for (auto& a : at) for (int kind = 0; kind < 4; ++kind) { // a star, a still object, a moving one, one on a spinning frame
        if (!mc::mine()) continue; if (big && !mc::thorough() && (++n % 3)) continue; double x = a[0] * f.w, y = a[1] * f.h; D3 d = f.ray(x, y), w0 = g.P + g.R * (d * 10.0), wv = g.R * D3{0.9, f.blend ? 0.6 : -0.6, 0.5 * f.F()}, off = g.R * D3{0.8, 0.3, 0.2}, ax = g.R * D3{0.2, 0.1, 1};
        std::string what = mc::fmt("%dx%d frame %d: camera %s %g, %s at (%.2f,%.2f), %zu samples", f.w, f.h, id, m.name, m.angle, kind == 0 ? "star" : kind == 1 ? "object" : kind == 2 ? "moving object" : "circling object", x, y, N); mc::at_s(what);
        std::vector<D3> s; for (std::size_t i = 0; i < N; ++i) { double t = N == 1 ? 0 : double(i) / double(N - 1); auto c = seen(g, m, t); D3 v = kind == 0 ? c.dir(g.R * d) : c.in(kind == 1 ? w0 : kind == 2 ? w0 + wv * t : w0 + aa(ax, 4.4 * t) * off); s.push_back(glm::normalize(v)); }
        if (kind == 0) { g.s.set_stars({Star<TS>(g.R * d, E)}); auto fb = shoot(g, 1, 0, N, DT); trail("star", f, fb, s, E); g.s.set_stars({}); }
        else if (kind < 3) { auto o = g.s.root.new_instance(src); set_pos(o, w0); set_vel(o, kind == 2 ? wv / DT : D3{0}); auto fb = shoot(g, 1, 0, N, DT); trail("object", f, fb, s, E); g.s.root.delete_instance(o); }
        else { auto fr = g.s.root.new_subframe(); set_pos(fr, w0); set_spin(fr, ax, 4.4); auto o = fr.new_instance(src); set_pos(o, off); auto fb = shoot(g, 1, 0, N, DT); trail("circling object", f, fb, s, E); g.s.root.delete_subframe(fr); }
    } }
    // behind a still body
    if (mc::mine()) { auto q = g.s.add_primitive(GeometryHandle<TS>{g.quad(40).get()}, g.matte(0)); auto i = g.put(q, 0, 0, 5); for (double X : {0.3, 0.7}) for (auto N : counts) { Motion m = motions()[0]; aim(g, m); D3 e = f.ray(X * f.w, 0.5 * f.h) * (5 / std::fabs(f.ray(X * f.w, 0.5 * f.h).z)); D3 p = g.at(e.x + 40, 0, 5); i.set_position(Meter(p.x), Meter(p.y), Meter(p.z)); D3 d = f.ray(0.05 * f.w, 0.4 * f.h), w0 = g.P + g.R * (d * 10.0), wv = g.R * D3{2.5 * 0.9 * f.w * f.pitch / FL * 4, 0.3, 0}; std::vector<D3> s; for (std::size_t k = 0; k < N; ++k) { double t = N == 1 ? 0 : double(k) / double(N - 1); s.push_back(glm::normalize(g.R.inverse() * (w0 + wv * t - g.P))); } mc::at("%dx%d frame %d: an object passing behind a body from x = %.2f, %zu samples", f.w, f.h, id, X * f.w, N); auto o = g.s.root.new_instance(src); set_pos(o, w0); set_vel(o, wv / DT); auto fb = shoot(g, 1, 1, N, DT); g.s.root.delete_instance(o); trail("passing behind", f, fb, s, E, int(X * f.w)); } }
}
// ---- stars seen from a camera swung round a circle: their places shift towards its velocity at every moment
static D3 aberrate(D3 u, D3 v) { double b = glm::length(v) / 299792458.0; if (b == 0) return u; D3 k = glm::normalize(v); double mu = glm::dot(u, k), q = std::sqrt(1 - b * b); D3 perp = u - mu * k; return ((mu + b) / (1 + b * mu)) * k + (q / (1 + b * mu)) * perp; }
static void swings(const Frame& f, const Rotation<double>& rot, int id)
{
    St g(f.w, f.h, f.pitch * 1e6, f.blend, rot, {0, 0, 0}); const TS E = sc::ramp<TS>(2, 3); std::vector<std::size_t> counts = mc::thorough() ? std::vector<std::size_t>{1, 2, 3, 4, 5, 9, 17} : std::vector<std::size_t>{1, 2, 4, 7};
    for (double turn : {0.0, 1.0, PI_, -4.0}) for (D3 axis : {D3{0, 0, 1}, D3{0.2, -0.1, 1}}) for (double beta : {0.003, 0.1, 0.5}) for (int free = 0; free < 2; ++free) for (auto N : counts) for (double at : {0.5, 0.25}) { if (!mc::mine()) continue; if (turn == 0 && (free || axis.x != 0)) continue;
        mc::at("%dx%d frame %d: camera swung by %g at %g c%s, star at %g, %zu samples", f.w, f.h, id, turn, beta, free ? ", kept level" : "", at, N); D3 ax = g.R * glm::normalize(axis), r = glm::normalize(g.R * D3{0.7, 0.6, 0}); double w = turn / DT; D3 arm = r - ax * glm::dot(r, ax); arm = glm::normalize(arm) * (turn == 0 ? 1.0 : beta * 299792458.0 / std::fabs(w)); D3 still = turn == 0 ? g.R * D3{0.6, -0.8, 0} * (beta * 299792458.0) : D3{0};
        auto fr = g.s.root.new_subframe(); set_spin(fr, ax, turn); g.eye = fr.new_instance(g.cam); set_pos(g.eye, arm); g.eye.set_rotation(g.R); if (turn == 0) set_vel(g.eye, still); if (free && turn != 0) set_spin(g.eye, ax, -turn);
        auto vel = [&](double t) { return turn == 0 ? still : glm::cross(ax * w, aa(ax, turn * t) * arm); }; D3 d = g.R * f.ray(at * f.w, (1 - at) * f.h); D3 star = aberrate(d, -vel(0)); // seen at that place at the start
        std::vector<D3> s; for (std::size_t i = 0; i < N; ++i) { double t = N == 1 ? 0 : double(i) / double(N - 1); auto R = free ? g.R : aa(ax, turn * t) * g.R; s.push_back(glm::normalize(R.inverse() * aberrate(star, vel(t)))); }
        g.s.set_stars({Star<TS>(star, E)}); auto fb = shoot(g, 1, 0, N, DT); g.s.set_stars({}); trail("swung star", f, fb, s, E); g.s.root.delete_subframe(fr); }
}
// ---- bodies, skies and lights: L(camera direction, t) exactly
static void average(const char* key, const Frame& f, FB& fb, int spp, const std::function<double(D3, double)>& L)
{
    auto& im = fb.received_power(); const int A = 12, T = 24; double tot = 0, tw = 0, tv = 0, big = 0; int lit = 0; for (int y = 0; y <= 2 * f.h; ++y) for (int x = 0; x <= 2 * f.w; ++x) for (int t = 0; t <= 16; ++t) big = std::max(big, L(f.ray(x * .5, y * .5), std::min(t / 16., 1 - 1e-9)));
    for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) { double s = 0, s2 = 0; for (int a = 0; a < A; ++a) for (int b = 0; b < A; ++b) { D3 d = f.ray(x + (a + .5) / A, y + (b + .5) / A); for (int t = 0; t < T; ++t) { double v = L(d, (t + ((a * A + b) * 89 % 144 + .5) / (A * A)) / T); s += v; s2 += v * v; big = std::max(big, v); } } double n = A * A * T, m = s / n, var = std::max(0.0, s2 / n - m * m), k = f.k(x + .5, y + .5), g = double(im(x, y)[0]) / k; double sig = std::sqrt((var + 2e-3 * big * big) / spp); lit += m > 0; mc::check(std::fabs(g - m) <= 6 * sig + 2e-2 * big, key, "pixel (%d,%d): radiance %.6g, the average over the exposure is %.6g (+-%.3g)", x, y, g, m, sig); tot += g; tw += m; tv += sig * sig; }
    mc::check(std::fabs(tot - tw) <= 6 * std::sqrt(tv) + 4e-3 * tw + 1e-3 * big * std::sqrt(double(f.w * f.h)), key, "all pixels: %.6g, the average over the exposure is %.6g (+-%.3g)", tot, tw, std::sqrt(tv)); mc::evaluated(lit > 0); mc::count("averages"); mc::outcome(mc::fmt("%s %d", key, lit));
}
static double hit(D3 d, D3 c, double r) { double b = glm::dot(d, c), q = b * b - glm::dot(c, c) + r * r; return q <= 0 || b <= 0 ? -1 : b - std::sqrt(q); }
template <class T> static T piece(const std::vector<T>& s, double t) { if (s.size() == 1) return s[0]; double x = t * double(s.size() - 1); std::size_t i = std::min(s.size() - 2, std::size_t(x)); double k = x - double(i); return s[i] * (1 - k) + s[i + 1] * k; }
static void bodies(const Rotation<double>& rot, D3 pos, bool blend, int id)
{
    const Frame f{8, 6, 1e-3, blend}; const int spp = mc::thorough() ? 6000 : 1500; auto tt = [](std::size_t i, std::size_t n) { return n == 1 ? 0 : double(i) / double(n - 1); };
    static const Motion M[] = {{"still", {0, 0, 1}, 0, {0, 0, 0}}, {"slide", {0, 0, 1}, 0, {1.2, -0.5, 0}}, {"yaw", {0, 1, 0}, 0.3, {0, 0, 0}}, {"roll", {0, 0, 1}, 1.4, {0, 0, 0}}, {"tumble", {1, -2, 1}, 0.5, {0.3, 0.2, 0}}};
    { St g(f.w, f.h, 1000, blend, rot, pos); TS Lr{4.f}; auto lamp = g.put(g.s.new_sphere_light(Meter(1), units::SpectralWattsPerMeterSquaredSteradian<TS>{Lr}), 0, 0, 8);
      TS sky{0.5f}; g.s.set_background_radiance(sky);
      for (auto& m : M) for (D3 v : {D3{0, 0, 0}, D3{1.5, 0, 0}, D3{-1, 1, 2}}) for (double scale : {1.0}) for (std::size_t N : {1, 2, 3, 6}) { if (!mc::mine()) continue; mc::at("frame %d: camera %s, light moving (%g,%g,%g), scale %g, %zu samples", id, m.name, v.x, v.y, v.z, scale, N); aim(g, m); D3 w0 = g.at(0.3, 0.2, 8), wv = g.R * v; set_pos(lamp, w0); set_vel(lamp, wv / DT); std::vector<D3> s; for (std::size_t i = 0; i < N; ++i) { double t = tt(i, N); s.push_back(seen(g, m, t).in(w0 + wv * t)); } auto fb = shoot(g, spp, 2, N, DT); average("moving-light", f, fb, spp, [&](D3 d, double t) { return hit(d, piece(s, t), scale) > 0 ? 4.0 : 0.5; }); } }
    { St g(f.w, f.h, 1000, blend, rot, pos); TS sky{2.f}; g.s.set_background_radiance(sky); auto q = g.put(g.s.add_primitive(GeometryHandle<TS>{g.quad(1, false).get()}, g.matte(0)), 0, 0, 8); // a black square, spinning, moving and scaled
      for (auto& m : {M[0], M[1]}) for (D3 v : {D3{0, 0, 0}, D3{1.5, 0, 0}, D3{-1, 1, 2}}) for (double turn : {0.0, 0.9, -2.4}) for (double sx : {1.0, 1.4}) for (std::size_t N : {1, 2, 4}) { if (!mc::mine()) continue; mc::at("frame %d: camera %s, square moving (%g,%g,%g) turning %g scale %g, %zu samples", id, m.name, v.x, v.y, v.z, turn, sx, N); aim(g, m); D3 w0 = g.at(0.3, 0.2, 8), wv = g.R * v; set_pos(q, w0); set_vel(q, wv / DT); q.set_rotation(g.R); q.set_scale(sx, 1, 1); set_spin(q, g.R * D3{0, 0, 1}, turn); std::vector<D3> s; for (std::size_t i = 0; i < N; ++i) { double t = tt(i, N); s.push_back(seen(g, m, t).in(w0 + wv * t)); } auto fb = shoot(g, spp, 2, N, DT);
        average("moving-body", f, fb, spp, [&](D3 d, double t) { D3 c = piece(s, t); double k = c.z / d.z; if (k <= 0) return 2.0; D3 p = d * k - c; double a = N == 1 ? 0 : turn * t; double x = p.x * std::cos(a) + p.y * std::sin(a), y = p.y * std::cos(a) - p.x * std::sin(a); return std::fabs(x) < sx && std::fabs(y) < 1 ? 0.0 : 2.0; }); } }
    { St g(f.w, f.h, 1000, blend, rot, pos); Image<TS> im(16, 8, TS{0}); for (int y = 0; y < 8; ++y) for (int x = 0; x < 16; ++x) im(x, y) = TS{float(3 + 2 * std::sin(x * PI_ / 8) + 0.4 * y)}; Image<TS> ref = im; g.s.set_background_radiance(std::move(im));
      for (auto& m : M) for (std::size_t N : {1, 2, 3, 6}) { if (!mc::mine()) continue; mc::at("frame %d: camera %s before a graded sky, %zu samples", id, m.name, N); aim(g, m); auto fb = shoot(g, spp, 2, N, DT); average("moving-sky", f, fb, spp, [&](D3 d, double t) { D3 w = seen(g, m, N == 1 ? 0 : t).R * d; return double(ref.sample_bilinear(float(.5 + std::atan2(w.z, w.x) / (2 * PI_)), float(.5 - std::asin(std::clamp(w.y, -1., 1.)) / PI_))[0]); }); } }
    { St g(f.w, f.h, 1000, blend, rot, pos); auto q = g.put(g.s.add_primitive(GeometryHandle<TS>{g.quad(30, false).get()}, g.matte(0.8)), 0, 0, 10); TS Lr{900.f}; auto lamp = g.put(g.s.new_sphere_light(Meter(0.3), units::SpectralWattsPerMeterSquaredSteradian<TS>{Lr}), 0, 0, -1); (void)q; // a wall lit by a moving light
      for (auto& m : M) for (D3 v : {D3{0, 0, 0}, D3{6, 0, 0}, D3{-3, 4, 2}, D3{0, 0, -5}}) for (std::size_t N : {1, 2, 3, 6}) { if (!mc::mine()) continue; if (N > 1 && m.angle != 0) continue; mc::at("frame %d: camera %s, wall lit by a light moving (%g,%g,%g), %zu samples", id, m.name, v.x, v.y, v.z, N); aim(g, m); D3 w0 = g.at(0.3, 0.2, -1), wv = g.R * D3{v.x, v.y, v.z * f.F()}; set_pos(lamp, w0); set_vel(lamp, wv / DT); D3 n = g.R * D3{0, 0, -f.F()}, o = g.at(0, 0, 10); auto fb = shoot(g, spp, 1, N, DT);
        average("lit-by-moving-light", f, fb, spp, [&](D3 d, double t0) { double t = N == 1 ? 0 : t0; auto c = seen(g, m, t); D3 e = c.R * d; double k = glm::dot(o - c.P, n) / glm::dot(e, n); D3 to = w0 + wv * t - (c.P + e * k); double d2 = glm::dot(to, to); return 0.8 * 900 * 0.09 / d2 * std::max(0.0, glm::dot(n, to)) / std::sqrt(d2); }); } }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); sc::start(); auto tilt = aa({0.3, -0.8, 0.5}, 2.2);
    try { trails({24, 18, 5e-4, false}, Rotation<double>(), {0, 0, 0}, 0); trails({24, 18, 5e-4, true}, tilt, {30, -5, 2}, 1); trails({150, 140, 8e-5, false}, tilt, {0, 0, 0}, 2); if (mc::thorough()) { trails({150, 140, 8e-5, true}, aa({1, 0, 0}, 1.1), {300, -50, 20}, 3); trails({33, 70, 3e-4, false}, aa({0, 1, 0}, 3), {1, 2, 3}, 4); } swings({60, 48, 2e-4, false}, tilt, 5); swings({60, 48, 8e-4, true}, Rotation<double>(), 6); bodies(Rotation<double>(), {0, 0, 0}, false, 0); bodies(tilt, {30, -5, 2}, true, 1); }
    catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); }
    return mc::finish();
}
