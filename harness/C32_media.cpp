// C32: media: the set of enclosing media over all crossing histories, transmittance and free flight over lattices, nested volumes in a real scene view against exact optical depths, and renders of scattering media in a uniform sky.
#include "scenes.hpp"
using TS = RGB; using D3 = Vec3<double>; using Vf = Vec3<float>; using sc::Meter;
struct Lattice : RandomSampler<float> { };
static double PI_ = 3.14159265358979323846;
static TS spec(double a, double b, double c) { TS s{0}; s[0] = float(a); s[1] = float(b); s[2] = float(c); return s; }
struct Vol { D3 c; double r; TS a, s; int parent; };
struct World_ { Scene<TS> s; CameraModelHandle<TS> cam; InstanceHandle<TS> eye; std::optional<SceneView<TS>> v; std::optional<PhaseFunctionHandle<TS>> ph; std::vector<PrimitiveHandle<TS>> prims; std::vector<InstanceHandle<TS>> inst;
    World_() : cam(s.new_camera_model("c")), eye(s.root.new_instance(cam)) { cam.set_focal_length(units::Millimeter{20}); cam.set_fstop(4); cam.configure_sensor_from_pitch(Resolution{10, 8}, units::Micrometer{1500}); cam.set_sensor_simulate_noise(false); ph = s.new_isotropic_phase_function(); }
    PrimitiveHandle<TS> fog(TS a, TS sc_, double r, bool clear = false) { auto m = clear ? s.new_material(s.new_bsdf_lambertian("")) : s.new_material(s.new_bsdf_null("")); if (clear) m.set_alpha_factor(0); auto g = s.add_ellipsoid(Meter(r), Meter(r), Meter(r)); return s.add_primitive(GeometryHandle<TS>{g.get()}, m, s.new_medium(s.new_constant_density_field(a, sc_), *ph)); }
    PrimitiveHandle<TS> box(TS a, TS sc_, double r) { VertexBuffer<TS> v; for (int i = 0; i < 8; ++i) { Vertex<TS> q; q.position = {float(i & 1 ? r : -r), float(i & 2 ? r : -r), float(i & 4 ? r : -r)}; v.push_back(q); } IndexBuffer ix{0, 2, 1, 1, 2, 3, 4, 5, 6, 5, 7, 6, 0, 1, 4, 1, 5, 4, 2, 6, 3, 3, 6, 7, 0, 4, 2, 2, 4, 6, 1, 3, 5, 3, 7, 5}; auto m = s.new_material(s.new_bsdf_null("")); return s.add_primitive(GeometryHandle<TS>{s.add_mesh(ix, v, "").get()}, m, s.new_medium(s.new_constant_density_field(a, sc_), *ph)); }
    InstanceHandle<TS> put(PrimitiveHandle<TS>& p, D3 c) { auto i = s.root.new_instance(p); i.set_position(Meter(c.x), Meter(c.y), Meter(c.z)); inst.push_back(i); return i; }
    SceneView<TS>& view(std::size_t n = 1, double dt = 0) { v.emplace(s, Interval{Time::from_et(0), Time::from_et(dt)}, eye, ObservationMode::TRUE_STATE, n); return *v; } };

// ---- histories of crossings ----
static void stacks()
{
    const int N = 4, D = mc::thorough() ? 9 : 7; World_ w; std::vector<std::shared_ptr<Primitive<TS>>> p; std::vector<const Medium<TS>*> med; for (int i = 0; i < 9; ++i) { auto h = w.fog(TS{0.1f}, TS{0}, 1); p.push_back(h.get()); med.push_back(h.get()->medium.get()); }
    auto apply = [&](const std::vector<int>& s, int n) {
        MediumStack<TS> m; std::vector<int> in; mc::at_s("crossings " + mc::seq_str(s)); mc::evaluated(s.size() > 1);
        for (int x : s) { m.toggle(p[std::size_t(x)].get()); auto it = std::find(in.begin(), in.end(), x); if (it == in.end()) in.push_back(x); else in.erase(it);
            mc::check(m.size() == in.size() && m.is_empty() == in.empty(), "stack-size", "%zu media on the stack, %zu enclose the ray", m.size(), in.size()); bool ok = in.empty() ? m.top() == nullptr : m.top() == med[std::size_t(in.back())]; mc::check(ok, "stack-top", "the active medium is not the last one entered of those still enclosing the ray");
            MediumStack<TS> c = m; std::set<const Medium<TS>*> got, want; for (int q : in) want.insert(med[std::size_t(q)]); for (int q = 0; q < n && !c.is_empty(); ++q) { got.insert(c.top()); for (int z = 0; z < n; ++z) if (med[std::size_t(z)] == c.top()) { c.toggle(p[std::size_t(z)].get()); break; } } mc::check(c.is_empty() && got == want, "stack-set", "the stack holds other media than those that enclose the ray"); }
        mc::outcome(mc::fmt("depth %zu", in.size()));
    };
    mc::sequences(N, D, [&](const std::vector<int>& s) -> bool { if (!s.empty() && mc::mine()) apply(s, N); return true; });
    // up to eight at once, entered in order, left in every order of three chosen ones
    for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) for (int c = 0; c < 8; ++c) { if (!mc::mine()) continue; std::vector<int> s{0, 1, 2, 3, 4, 5, 6, 7, a, b, c, 8}; if (a == b || b == c || a == c) s.pop_back(); apply(s, 9); }
    mc::at("null and default crossings"); mc::evaluated(true); MediumStack<TS> m; m.toggle(nullptr); mc::check(m.is_empty() && m.top() == nullptr, "stack-null", "a null primitive entered");
}
// ---- one medium ----
static void medium()
{
    World_ w; std::vector<double> ks{0, 1e-9, 3e-7, 1e-4, 0.03, 1, 40}; int i = 0; 
    for (double a : ks) for (double b : ks) for (int col = 0; col < 3; ++col) {
        if (!mc::mine()) continue; TS A = col == 0 ? TS{float(a)} : col == 1 ? spec(a, a / 2, 0) : spec(a, 3 * a, a / 7), S = col == 0 ? TS{float(b)} : col == 1 ? spec(0, b, b / 3) : spec(2 * b, b, b); auto m = w.s.new_medium(w.s.new_constant_density_field(A, S), *w.ph); auto M = m.get(); double av = 0; for (std::size_t c = 0; c < 3; ++c) av += (double(A[c]) + double(S[c])) / 3; (void)i; RandomSampler<float> rs(3);
        Ray<TS> r(Vf{1, -2, 3}, glm::normalize(Vf{0.3f, -0.4f, 0.8f})), q(Vf{-4, 0, 1}, glm::normalize(Vf{-1, 0.1f, 0})); std::vector<double> ts{0, 1e-3, 0.4, 1, 7, 300, 2e5, 1e7}; if (av > 0) for (double z : {0.01, 0.5, 3.0}) ts.push_back(z / av);
        for (double t : ts) { mc::at("absorption %g scattering %g colour %d over %g m", a, b, col, t); mc::evaluated(av > 0 && t > 0); TS T = M->evaluate_transmittance(r, float(t), rs), T2 = M->evaluate_transmittance(q, float(t), rs), Th = M->evaluate_transmittance(r, float(t / 2), rs);
            for (std::size_t c = 0; c < 3; ++c) { double e = std::exp(-(double(A[c]) + double(S[c])) * double(float(t))), tau = (double(A[c]) + double(S[c])) * t; mc::check(mc::near(double(T[c]), e, 3e-7 * (2 + tau), 1e-37), "beer-lambert", "bin %zu: transmittance %.9g, exact %.9g", c, double(T[c]), e); mc::check(T[c] == T2[c], "direction", "another direction gives %.9g, not %.9g", double(T2[c]), double(T[c])); mc::check(T[c] >= 0 && T[c] <= 1, "range", "transmittance %.9g", double(T[c])); mc::check(mc::near(double(Th[c]) * double(Th[c]), double(T[c]), 1e-6 * (2 + tau), 1e-36), "split", "two halves give %.9g, the whole %.9g", double(Th[c]) * double(Th[c]), double(T[c])); } }
        { TS T = M->evaluate_transmittance(r, -1.f, rs); mc::check(T[0] == 1 && T[1] == 1 && T[2] == 1, "negative-length", "a negative length attenuates"); }
        // free flight: exponential with the mean extinction
        mc::at("free flight, absorption %g scattering %g colour %d", a, b, col); mc::evaluated(true); const int n = mc::thorough() ? 40000 : 4000; std::vector<double> d; int esc = 0; RandomSampler<float> g(17); for (int k = 0; k < n; ++k) { auto o = M->sample_free_path(r, g); if (!o) { ++esc; continue; } d.push_back(double(o->t)); mc::check(o->t >= 0 && o->is_valid() && glm::length(Vf(o->wo + r.direction())) < 1e-6f, "interaction", "t %g", double(o->t)); D3 e = D3(r.origin()) + D3(r.direction()) * double(o->t); mc::check(glm::length(D3(o->p) - e) <= 1e-5 * (5 + double(o->t)), "interaction", "not on the ray"); for (std::size_t c = 0; c < 3; ++c) mc::check(o->properties.absorption[c] == A[c] && o->properties.scattering[c] == S[c], "interaction", "other properties"); }
        if (av == 0) mc::check(esc == n, "free-flight", "%d of %d flights end in a vacuum", n - esc, n);
        else { mc::check(esc == 0, "free-flight", "%d of %d flights never end although the mean extinction is %g per metre", esc, n, av); double worst = 0; std::sort(d.begin(), d.end()); for (std::size_t k = 0; k < d.size(); ++k) { double F = 1 - std::exp(-av * d[k]); worst = std::max({worst, std::fabs(F - double(k) / n), std::fabs(F - double(k + 1) / n)}); } mc::check(worst < 3.2 / std::sqrt(double(n)), "free-flight", "distribution of free flights off by %.4f (%d samples)", worst, n); }
        mc::count("media");
    }
    mc::at("refused media"); mc::evaluated(true); for (int k = 0; k < 3; ++k) { TS bad{0.1f}; bad[std::size_t(k)] = -1e-3f; mc::check(mc::throws([&] { w.s.new_constant_density_field(bad, TS{0}); }) && mc::throws([&] { w.s.new_constant_density_field(TS{0}, bad); }), "refused", "a negative coefficient in bin %d is accepted", k); }
}
static void phase()
{
    World_ w; auto p = w.ph->get(); for (auto& wo : {Vf{0, 0, 1}, glm::normalize(Vf{1, -2, 0.3f}), Vf{-1, 0, 0}}) { mc::at("phase function from (%g,%g,%g)", double(wo.x), double(wo.y), double(wo.z)); mc::evaluated(true); double sum = 0; const int N = 60; for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { double z = -1 + 2 * (a + .5) / N, f = 2 * PI_ * (b + .5) / N, r = std::sqrt(1 - z * z); float v = p->evaluate(wo, Vf{float(r * std::cos(f)), float(r * std::sin(f)), float(z)}); mc::check(v >= 0, "phase-negative", "%g", double(v)); sum += double(v) * 4 * PI_ / (N * N); } mc::check(mc::near(sum, 1, 1e-4), "phase-normalised", "integrates to %.6f", sum);
        const int n = 20000, Z = 8, F = 8; std::vector<int> h(Z * F); D3 mean{0}; RandomSampler<float> g(5); for (int k = 0; k < n; ++k) { auto s = p->sample(wo, g); D3 q(s.wi); mc::check(std::fabs(glm::length(q) - 1) < 1e-5, "phase-unit", "length %g", glm::length(q)); mc::check(mc::near(double(s.p), double(p->evaluate(wo, s.wi)), 1e-5), "phase-density", "density %g, value %g", double(s.p), double(p->evaluate(wo, s.wi))); mean += q / double(n); int a = std::min(Z - 1, int((q.z + 1) / 2 * Z)), b = std::min(F - 1, int((std::atan2(q.y, q.x) + PI_) / (2 * PI_) * F)); ++h[std::size_t(a * F + b)]; }
        double e = double(n) / (Z * F); for (int x : h) mc::check(std::fabs(x - e) < 6 * std::sqrt(e), "phase-samples", "a cell holds %d samples of %d, expected %.0f", x, n, e); }
}
// ---- volumes in a scene ----
static bool seg(D3 o, D3 d, const Vol& v, double& t0, double& t1) { D3 l = v.c - o; double b = glm::dot(l, d), q = b * b - glm::dot(l, l) + v.r * v.r; if (q <= 0) return false; q = std::sqrt(q); t0 = b - q; t1 = b + q; return t1 > 0; }
// innermost volume at a point: nested or disjoint, so the smallest enclosing one
static int inner(const std::vector<Vol>& vs, D3 p) { int k = -1; for (std::size_t i = 0; i < vs.size(); ++i) if (glm::length(p - vs[i].c) < vs[i].r && (k < 0 || vs[i].r < vs[std::size_t(k)].r)) k = int(i); return k; }
static std::array<double, 3> depth(const std::vector<Vol>& vs, D3 o, D3 d, double tf)
{
    std::vector<double> cut{0, tf}; for (auto& v : vs) { double a, b; if (seg(o, d, v, a, b)) { if (a > 0 && a < tf) cut.push_back(a); if (b > 0 && b < tf) cut.push_back(b); } } std::sort(cut.begin(), cut.end()); std::array<double, 3> t{0, 0, 0};
    for (std::size_t i = 0; i + 1 < cut.size(); ++i) { int k = inner(vs, o + d * (0.5 * (cut[i] + cut[i + 1]))); if (k < 0) continue; for (std::size_t c = 0; c < 3; ++c) t[c] += (cut[i + 1] - cut[i]) * (double(vs[std::size_t(k)].a[c]) + double(vs[std::size_t(k)].s[c])); } return t;
}
static std::vector<std::vector<Vol>> layouts()
{
    TS a = spec(0.1, 0.2, 0.05), b = spec(0.4, 0, 0.3), c = spec(0.02, 0.5, 0.2), z{0};
    return {{{{0, 0, 10}, 3, a, z, -1}}, {{{0, 0, 10}, 3, a, z, -1}, {{0.5, 0, 9.5}, 1, b, z, 0}}, {{{0, 0, 10}, 3, a, z, -1}, {{0.5, 0, 9.5}, 1.5, z, z, 0}, {{0.6, 0.1, 9.4}, 0.5, c, a, 1}}, {{{-2, 0, 8}, 1.5, a, c, -1}, {{2, 0, 12}, 1.5, b, z, -1}}, {{{0, 0, 2}, 6, a, z, -1}, {{0, 0, 5}, 1, b, z, 0}}, {{{0, 0, 0}, 2, b, z, -1}, {{0, 0, 0}, 5, a, z, -1}, {{0, 1, 8}, 1, c, z, -1}}, {{{-1, 0, 10}, 1, a, z, -1}, {{1.2, 0, 10}, 1, a, z, -1}, {{0, 0, 10}, 4, c, z, -1}}, {{{0, 0, 10}, 4, a, z, -1}, {{0, 0, 10}, 3, b, z, 0}, {{0, 0, 10}, 2, c, z, 1}, {{0, 0, 10}, 1, a, b, 2}}};
}
static void volumes()
{
    auto L = layouts(); for (std::size_t li = 0; li < L.size(); ++li) for (int kind = 0; kind < 2; ++kind) {
        if (!mc::mine()) continue; auto& vs = L[li]; World_ w; for (auto& v : vs) { auto p = w.fog(v.a, v.s, v.r, kind == 1); w.put(p, v.c); } auto& V = w.view(); RandomSampler<float> rs(9);
        // a ray against a stack built by walking: the transmittance from an outside point, both ways and split
        int G = mc::thorough() ? 17 : 9; std::vector<D3> org{{0, 0, -20}, {15, 3, 10}, {-4, 9, 22}};
        for (auto& o : org) for (int x = 0; x < G; ++x) for (int y = 0; y < G; ++y) {
            D3 aim{(x - G / 2) * 6.0 / G + 0.013, (y - G / 2) * 6.0 / G + 0.027, 9.1}; D3 d = glm::normalize(aim - o); double tf = 45; mc::at("layout %zu kind %d from (%g,%g,%g) towards (%g,%g,%g)", li, kind, o.x, o.y, o.z, aim.x, aim.y, aim.z);
            { auto tau = depth(vs, o, d, tf); mc::evaluated(tau[0] > 0); bool graze = false; for (auto& v : vs) { double q = glm::length(glm::cross(v.c - o, d)); graze |= std::fabs(q - v.r) < 2e-2; } if (graze) { mc::count("grazing_skipped"); continue; } auto T = [&](D3 p, D3 e, double t) { return V.evaluate_transmittance(Ray<TS>(Vf(p), Vf(e)), float(t), MediumStack<TS>{}, rs); }; 
                TS f = T(o, d, tf); for (std::size_t c = 0; c < 3; ++c) { double e = std::exp(-tau[c]); if (kind == 0) { mc::check(f[c] >= 0 && f[c] <= 1, "range", "transmittance %g", double(f[c])); continue; } mc::check(mc::near(double(f[c]), e, 3e-3), "nested", "bin %zu: transmittance %.7g, exact %.7g", c, double(f[c]), e); }
                if (kind == 1) { D3 far = o + d * tf; if (inner(vs, far) < 0) { TS b = T(far, -d, tf); for (std::size_t c = 0; c < 3; ++c) mc::check(mc::near(double(b[c]), double(f[c]), 3e-3), "reverse", "bin %zu: %.7g one way, %.7g the other", c, double(f[c]), double(b[c])); } for (double k : {9.0, 13.7, 21.0, 31.0}) { if (k >= tf) continue; D3 mid = o + d * k; if (inner(vs, mid) >= 0) continue; bool near_b = false; for (auto& v : vs) near_b |= std::fabs(glm::length(mid - v.c) - v.r) < 1e-2; if (near_b) continue; TS a = T(o, d, k), b = T(mid, d, tf - k); for (std::size_t c = 0; c < 3; ++c) mc::check(mc::near(double(a[c]) * double(b[c]), double(f[c]), 5e-3), "split", "bin %zu: parts give %.7g, the whole %.7g", c, double(a[c]) * double(b[c]), double(f[c])); } } }
        }
        mc::count("volume_rays", std::uint64_t(G * G * 3)); mc::outcome(mc::fmt("layout %zu", li));
    }
}
// renders: absorbing layouts seen from every place, moving or not, against the exact optical depth
static void renders()
{
    auto L = layouts(); std::vector<D3> at{{0, 0, 0}, {0.4, 0.1, 9.3}, {0, 0, 7.5}, {0, 0.5, -4}}; 
    for (std::size_t li = 0; li < L.size(); ++li) for (std::size_t e = 0; e < at.size(); ++e) for (int mode = 0; mode < 3; ++mode) {
        if (!mc::mine()) continue; auto vs = L[li]; for (auto& v : vs) { v.a = v.a + v.s; v.s = TS{0}; } World_ w; TS sky = spec(1, 2, 0.5); w.s.set_background_radiance(sky); for (auto& v : vs) { auto p = w.fog(v.a, v.s, v.r, mode == 1); w.put(p, v.c); } w.eye.set_position(Meter(at[e].x), Meter(at[e].y), Meter(at[e].z));
        mc::at("absorbing layout %zu from (%g,%g,%g) mode %d", li, at[e].x, at[e].y, at[e].z, mode); mc::evaluated(true); int spp = mc::thorough() ? 512 : 96; auto& V = w.view(mode == 2 ? 2 : 1, mode == 2 ? 1 : 0); Renderer<TS> r; r.set_samples_per_pixel(spp); r.set_max_bounces(40); FrameBuffer<TS> fb = w.cam.make_frame_buffer(); fb.enable_received_power(); r.render(V, fb); auto& im = fb.received_power();
        const double FL = 0.02, P = 1.5e-3; double num[3] = {}, den[3] = {}, var[3] = {}; for (int y = 0; y < 8; ++y) for (int x = 0; x < 10; ++x) { double k = 0; { double X = (x + .5 - 5) * P / FL, Y = (y + .5 - 4) * P / FL, c = 1 / std::sqrt(1 + X * X + Y * Y); k = PI_ * (FL / 8) * (FL / 8) * c * c * c * c * P * P / (FL * FL); } 
            double m[3] = {}, m2[3] = {}; const int Q = 12; for (int a = 0; a < Q; ++a) for (int b = 0; b < Q; ++b) { D3 d = glm::normalize(D3{(x + (a + .5) / Q - 5) * P / FL, (y + (b + .5) / Q - 4) * P / FL, 1}); auto t = depth(vs, at[e], d, 200); double av = (t[0] + t[1] + t[2]) / 3; for (std::size_t c = 0; c < 3; ++c) { double T = std::exp(-t[c]); m[c] += T / (Q * Q); m2[c] += T * T / std::exp(-av) / (Q * Q); } }
            for (std::size_t c = 0; c < 3; ++c) { double g = double(im(x, y)[c]) / k / double(sky[c]); num[c] += g; den[c] += m[c]; var[c] += std::max(0., m2[c] - m[c] * m[c]) / spp; } }
        for (std::size_t c = 0; c < 3; ++c) { double s = std::sqrt(var[c]); mc::check(std::fabs(num[c] - den[c]) <= 6 * s + 0.012 * den[c] + 1e-9, "absorbed-sky", "bin %zu: the image transmits %.6g of 80 pixels, exactly %.6g (+-%.3g)", c, num[c], den[c], 6 * s); }
        mc::count("images");
    }
}
// a medium that only scatters, in a uniform sky, is invisible
static void furnace()
{
    for (int shape = 0; shape < 3; ++shape) for (double k : {0.05, 0.4, 1.5}) for (int eye = 0; eye < 3; ++eye) for (int n : {1, 2}) {
        if (!mc::mine()) continue; World_ w; TS sky = spec(1, 2, 0.5); w.s.set_background_radiance(sky); auto p = shape == 1 ? w.box(TS{0}, TS{float(k)}, 1.5) : w.fog(TS{0}, TS{float(k)}, 2, shape == 2); D3 c{0.2, 0.1, eye == 1 ? 0.3 : 6}; auto i = w.put(p, c); if (n == 2) i.set_velocity(units::MetersPerSecond(0.2), units::MetersPerSecond(0), units::MetersPerSecond(0)); if (eye == 2) w.put(p, D3{0.45, 1.2, 6.5});
        mc::at("scattering %g shape %d eye %d, %d samples", k, shape, eye, n); mc::evaluated(true); auto shot = [&](World_& x) { auto& V = x.view(std::size_t(n), n == 1 ? 0 : 1); Renderer<TS> r; r.set_samples_per_pixel(16); r.set_max_bounces(2000); FrameBuffer<TS> fb = x.cam.make_frame_buffer(); fb.enable_received_power(); r.render(V, fb); return fb; }; World_ none; none.s.set_background_radiance(sky); FrameBuffer<TS> fb = shot(w), cl = shot(none); auto &im = fb.received_power(), &ref = cl.received_power(); double all = 0;
        for (int y = 0; y < 8; ++y) for (int x = 0; x < 10; ++x) for (std::size_t b = 0; b < 3; ++b) { double g = double(im(x, y)[b]) / double(ref(x, y)[b]); all += g / 240; mc::check(shape != 2 || eye == 2 || std::fabs(g - 1) < 1e-4, "scatter-furnace", "pixel (%d,%d) bin %zu shows %.6g of the sky", x, y, b, g); }
        mc::check(std::fabs(all - 1) < (shape == 2 ? eye == 2 ? 5e-3 : 1e-4 : 0.06), "scatter-furnace", "the image shows %.6g of the sky", all); // random termination at surfaces leaves noise; where volumes cross, a path may slip through the seam
        mc::count("images");
    }
}
// media enclosing a point of the scene, and identical media behind overlapping instances
static void overlaps()
{
    for (double sep : {0.5, 1.0, 1.7, 2.5}) for (int same = 0; same < 2; ++same) for (int mode = 0; mode < 2; ++mode) {
        if (!mc::mine()) continue; World_ w; TS a = spec(0.3, 0.6, 0.1); auto p = w.fog(a, TS{0}, 1, true), q = w.fog(a, TS{0}, 1, true); w.put(p, {-sep / 2, 0, 8}); w.put(same ? p : q, {sep / 2, 0, 8}); auto& V = w.view(); RandomSampler<float> rs(2);
        for (double y : {0.0, 0.3, 0.62}) for (int dir = 0; dir < 2; ++dir) for (double tilt : {0.0, 0.11}) { D3 o{dir ? 9. : -9., y, 8 + (mode ? 0.2 : 0)}; D3 d = glm::normalize(D3{dir ? -1. : 1., tilt * 0.3, tilt * 0.1}); mc::at("two equal volumes %g apart, same primitive %d, ray at %g mode %d dir %d tilt %g", sep, same, y, mode, dir, tilt); mc::evaluated(true); std::vector<Vol> vs{{{-sep / 2, 0, 8}, 1, a, TS{0}, -1}, {{sep / 2, 0, 8}, 1, a, TS{0}, -1}}; auto tau = depth(vs, o, d, 30); TS T = V.evaluate_transmittance(Ray<TS>(Vf(o), Vf(d)), 30.f, MediumStack<TS>{}, rs); for (std::size_t c = 0; c < 3; ++c) mc::check(mc::near(double(T[c]), std::exp(-tau[c]), 3e-3), "overlap", "bin %zu: transmittance %.7g, exact %.7g", c, double(T[c]), std::exp(-tau[c])); }
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); sc::start(); stacks(); medium(); if (mc::mine()) phase(); volumes(); overlaps(); renders(); furnace(); return mc::finish();
}
