// C40: sampler streams over every call pattern; every warp over complete lattices of the unit square: domain, length, density as Jacobian and as distribution; sub-pixel samples of the renderer.
#include "scenes.hpp"
using TS = RGB; using Vd = Vec3<double>; using Vf = Vec3<float>; using sc::Meter;
namespace smp = huira::sampling;
constexpr double PID = 3.14159265358979323846;
template <class F> static void streams()
{
    const int D = mc::thorough() ? 11 : 8;
    for (std::uint32_t seed : {0u, 1u, 2u, 17u, 255u, 65535u, 0x80000000u, 0xffffffffu}) {
        std::vector<F> ref; { RandomSampler<F> s(seed); for (int i = 0; i < 64; ++i) ref.push_back(s.get_1d()); }
        mc::sequences(3, D, [&](const std::vector<int>& q) -> bool { // 0: one value, 1: two values, 2: another sampler draws
            if (!mc::mine()) return true; mc::at_s(mc::fmt("seed %u, calls %s, %zu-byte values", seed, mc::seq_str(q).c_str(), sizeof(F))); mc::evaluated(!q.empty()); RandomSampler<F> s(seed), o(seed ^ 5u); std::size_t n = 0;
            for (int op : q) { if (op == 0) { F v = s.get_1d(); mc::check(v == ref[n], "stream", "value %zu is %.9g, %.9g when drawn one by one", n, double(v), double(ref[n])); ++n; } else if (op == 1) { auto v = s.get_2d(); mc::check(v.x == ref[n] && v.y == ref[n + 1], "stream", "pair at %zu is (%.9g,%.9g), (%.9g,%.9g) when drawn one by one", n, double(v.x), double(v.y), double(ref[n]), double(ref[n + 1])); n += 2; } else { o.get_1d(); o.get_2d(); } }
            RandomSampler<F> c = s; mc::check(c.get_1d() == ref[n] && s.get_1d() == ref[n], "stream", "a copy does not continue like the original"); Sampler<F>& b = s; mc::check(b.get_1d() == ref[n + 1], "stream", "through the base class the stream differs"); return true;
        });
    }
    // range, uniformity and distinctness over consecutive seeds (the seeds of render tiles) and long streams
    if (mc::first_shard()) {
        std::set<std::vector<F>> seen; const int S = 4096; std::vector<long> h(64, 0), h0(64, 0); long n = 0; double cross = 0;
        for (int k = 0; k < S; ++k) { RandomSampler<F> s{std::uint32_t(k)}; std::vector<F> v; F last = 0; for (int i = 0; i < 512; ++i) { F x = s.get_1d(); if (!i) mc::at("seed %d", k); mc::evaluated(true); mc::check(x >= F(0) && x < F(1), "range", "%.17g", double(x)); if (i < 4) v.push_back(x); if (x >= F(0) && x < F(1)) { ++h[std::size_t(x * 64)]; if (!i) ++h0[std::size_t(x * 64)]; } ++n; if (i) cross += (double(x) - 0.5) * (double(last) - 0.5); last = x; } mc::at("seed %d", k); mc::check(seen.insert(v).second, "seeds", "the same stream as an earlier seed"); }
        mc::at("uniformity over %d seeds", S); double chi = 0, chi0 = 0; for (int i = 0; i < 64; ++i) { double e = n / 64.0, e0 = S / 64.0; chi += (h[std::size_t(i)] - e) * (h[std::size_t(i)] - e) / e; chi0 += (h0[std::size_t(i)] - e0) * (h0[std::size_t(i)] - e0) / e0; } mc::check(chi < 63 + 6 * std::sqrt(126.0) && chi0 < 63 + 6 * std::sqrt(126.0), "uniform", "chi-square %.1f over all values, %.1f over first values (63 degrees of freedom)", chi, chi0); mc::check(std::fabs(cross / n) < 6 / 12.0 / std::sqrt(double(n)), "uniform", "successive values correlate: %.3g", cross / n);
        RandomSampler<F> a, b; int same = 0; for (int i = 0; i < 8; ++i) same += a.get_1d() == b.get_1d(); mc::check(same < 8, "seeds", "two unseeded samplers give one stream");
        for (double x : {0.0, 0.25, 0.5, 0.999}) for (double y : {0.0, 0.7}) { DeterministicSampler<F> d(F(x), {F(y), F(x)}); mc::at("fixed sampler %g %g", x, y); for (int i = 0; i < 3; ++i) { mc::evaluated(true); auto p = d.get_2d(); mc::check(d.get_1d() == F(x) && p.x == F(y) && p.y == F(x), "fixed", "another value"); } } DeterministicSampler<F> d; mc::check(d.get_1d() == F(0.5) && d.get_2d() == Vec2<F>(F(0.5), F(0.5)), "fixed", "default is not the centre");
    }
}
// a warp of the square: direction (or disk point) and the density it reports; want(point) is the density it should have; total = what the lattice should cover
struct Out { Vd p; double pdf; bool ok = true; };
using Warp = std::function<Out(float, float)>;
static double solid(Vd a, Vd b, Vd c) { a = glm::normalize(a); b = glm::normalize(b); c = glm::normalize(c); Vd x = b - a, y = c - a, n = glm::cross(x, y); double flat = glm::length(n) / 2, tri = glm::dot(a, glm::cross(b, c)); (void)flat; return std::fabs(2 * std::atan2(tri, 1 + glm::dot(a, b) + glm::dot(b, c) + glm::dot(c, a))); }
static const std::vector<float>& ends() { static const std::vector<float> v{0.f, 1e-38f, 1e-20f, 2.3283064e-10f, 5.9604645e-8f, 1e-4f, 0.25f, 0.5f, std::nextafter(0.5f, 0.f), 0.75f, 0.9999f, std::nextafter(1.f, 0.f)}; return v; }
// every point: domain and density; every cell: density x image area = cell area
static void warp(const char* name, const Warp& w, bool disk, const std::function<bool(const Vd&)>& in, const std::function<double(const Vd&)>& density, double jtol, int N)
{
    std::vector<std::pair<float, float>> pts; for (float a : ends()) for (float b : ends()) pts.push_back({a, b}); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) pts.push_back({float((i + 0.5) / N), float((j + 0.5) / N)});
    for (auto& q : pts) { mc::at("%s of (%.9g,%.9g)", name, double(q.first), double(q.second)); mc::evaluated(true); Out o = w(q.first, q.second); if (!o.ok) { mc::count("rejected"); continue; } mc::check(std::isfinite(o.p.x) && std::isfinite(o.p.y) && std::isfinite(o.p.z) && std::isfinite(o.pdf), "finite", "(%g,%g,%g) density %g", o.p.x, o.p.y, o.p.z, o.pdf); if (!disk) mc::check(std::fabs(glm::length(o.p) - 1) < 4e-6, "unit", "length %.9g", glm::length(o.p)); mc::check(in(o.p), "domain", "(%.9g,%.9g,%.9g)", o.p.x, o.p.y, o.p.z); double d = density(o.p); if (d >= 0) mc::check(std::fabs(o.pdf - d) <= 2e-3 * d + 2e-5, "density", "reports %.9g, the distribution has %.9g there", o.pdf, d); }
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { double h = 1.0 / N, m = 0.02; float u0 = float((i + m) * h), u1 = float((i + 1 - m) * h), v0 = float((j + m) * h), v1 = float((j + 1 - m) * h); mc::at("%s over the cell [%g,%g]x[%g,%g]", name, double(u0), double(u1), double(v0), double(v1)); Out a = w(u0, v0), b = w(u1, v0), c = w(u1, v1), d = w(u0, v1), e = w((u0 + u1) / 2, (v0 + v1) / 2); if (!a.ok || !b.ok || !c.ok || !d.ok || !e.ok) continue; double area = disk ? (std::fabs((b.p.x - a.p.x) * (c.p.y - a.p.y) - (b.p.y - a.p.y) * (c.p.x - a.p.x)) + std::fabs((c.p.x - a.p.x) * (d.p.y - a.p.y) - (c.p.y - a.p.y) * (d.p.x - a.p.x))) / 2 : solid(a.p, b.p, e.p) + solid(b.p, c.p, e.p) + solid(c.p, d.p, e.p) + solid(d.p, a.p, e.p);
        double mass = area * (a.pdf + b.pdf + c.pdf + d.pdf + 4 * e.pdf) / 8, cell = double(u1 - u0) * double(v1 - v0); mc::evaluated(true); if (i == 0 || i == N - 1 || (disk && (i == j || i + j == N - 1 || i == N / 2 || j == N / 2))) continue; mc::check(std::fabs(mass / cell - 1) < jtol, "jacobian", "its image carries %.6g of probability, the cell is %.6g", mass, cell); mc::count("cells"); }
}
// the lattice's images fall into bins in proportion to the density: bins of (z, azimuth)
static void bins(const char* name, const Warp& w, const std::function<double(const Vd&)>& density, double zmin, int N)
{
    const int Z = 8, A = 8; std::vector<double> got(Z * A, 0), want(Z * A, 0); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { Out o = w(float((i + 0.5) / N), float((j + 0.5) / N)); if (!o.ok) continue; int z = std::clamp(int((o.p.z - zmin) / (1 - zmin) * Z), 0, Z - 1), a = std::clamp(int((std::atan2(o.p.y, o.p.x) / (2 * PID) + 0.5) * A), 0, A - 1); got[std::size_t(z * A + a)] += 1.0 / N / N; }
    const int Q = 200; for (int i = 0; i < Z * Q; ++i) for (int j = 0; j < A * Q / 4; ++j) { double z = zmin + (1 - zmin) * (i + 0.5) / (Z * Q), p = ((j + 0.5) / (A * Q / 4) - 0.5) * 2 * PID, r = std::sqrt(std::max(0.0, 1 - z * z)); want[std::size_t(i / Q * A + j / (Q / 4))] += density({r * std::cos(p), r * std::sin(p), z}) * (1 - zmin) / (Z * Q) * 2 * PID / (A * Q / 4); }
    double total = 0; for (int b = 0; b < Z * A; ++b) { mc::at("%s, bin %d", name, b); mc::evaluated(true); total += want[std::size_t(b)]; mc::check(std::fabs(got[std::size_t(b)] - want[std::size_t(b)]) < 6.0 / N + 0.004 * want[std::size_t(b)], "distribution", "%.5g of the square lands there, the density gives %.5g", got[std::size_t(b)], want[std::size_t(b)]); } mc::outcome(mc::fmt("%s %.3f", name, total));
}
struct Fixed : Sampler<float> { std::vector<float> v; std::size_t i = 0; float get_1d() override { return v[i++ % v.size()]; } Vec2<float> get_2d() override { float a = get_1d(), b = get_1d(); return {a, b}; } };
static double ggxD(const Vd& p, double a2) { double d = p.z * p.z * a2 + p.x * p.x + p.y * p.y; return a2 / (PID * d * d); }
static void warps()
{
    int N = mc::thorough() ? 512 : 192; auto up = [](const Vd& p) { return p.z >= 0; }; auto conv = [](const auto& h) { return Out{Vd(h.direction), double(h.pdf)}; };
    std::vector<std::function<void()>> jobs; auto add = [&](std::function<void()> f) { jobs.push_back(f); };
    add([&] { auto w = [&](float a, float b) { return conv(smp::uniform_hemisphere(a, b)); }; auto d = [](const Vd&) { return 1 / (2 * PID); }; warp("uniform hemisphere", w, false, up, d, 2e-3, N); bins("uniform hemisphere", w, d, 0, 512); });
    add([&] { auto w = [&](float a, float b) { return conv(smp::cosine_hemisphere(a, b)); }; auto d = [](const Vd& p) { return p.z / PID; }; warp("cosine hemisphere", w, false, up, d, 1.5e-2, N); bins("cosine hemisphere", w, d, 0, 512); });
    for (double n : {0.0, 0.5, 1.0, 2.0, 5.0, 20.0, 100.0}) add([&, n] { std::string nm = mc::fmt("power-cosine %g", n); auto w = [&](float a, float b) { return conv(smp::power_cosine_hemisphere(a, b, float(n))); }; auto d = [n](const Vd& p) { return (n + 1) / (2 * PID) * std::pow(p.z, n); }; warp(nm.c_str(), w, false, up, [&](const Vd& p) { return p.z > 1e-3 ? d(p) : -1.0; }, n > 50 ? 0.08 : 3e-2, N); bins(nm.c_str(), w, d, 0, 512); });
    add([&] { auto w = [&](float a, float b) { return conv(smp::sine_hemisphere(a, b)); }; auto d = [](const Vd& p) { return 2 / (PID * PID) * std::hypot(p.x, p.y); }; warp("sine hemisphere", w, false, up, d, 1e-2, N); bins("sine hemisphere", w, d, 0, 512); });
    for (double r : {0.02, 0.05, 0.15, 0.3, 0.5, 0.7, 1.0}) add([&, r] { double a2 = r * r * r * r; std::string nm = mc::fmt("ggx half vector %g", r); auto w = [&](float a, float b) { auto m = smp::ggx_sample_half_vector(a, b, float(r)); return Out{Vd(m.half_vector), double(m.pdf)}; }; auto d = [a2](const Vd& p) { return ggxD(p, a2) * p.z; }; warp(nm.c_str(), w, false, up, [&](const Vd& p) { return d(p); }, r < 0.3 ? 0.4 : 3e-2, N); if (r >= 0.3) bins(nm.c_str(), w, d, 0, 512); });
    for (double r : {0.05, 0.15, 0.3, 0.5, 0.7, 1.0}) for (double th : {0.0, 0.4, 0.9, 1.3, 1.5}) for (double ph : {0.0, 2.5}) add([&, r, th, ph] { double al = r * r, a2 = al * al; Vd wo{std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)}; Vf wf{float(wo.x), float(wo.y), float(wo.z)}; std::string nm = mc::fmt("ggx visible normal %g seen from %g, %g", r, th, ph); double t2 = (1 - wo.z * wo.z) / (wo.z * wo.z), G1 = 2 / (1 + std::sqrt(1 + a2 * t2));
        auto w = [&](float a, float b) { auto m = smp::ggx_vndf_sample(wf, float(r), a, b); return Out{Vd(m.half_vector), double(m.pdf)}; }; auto d = [&](const Vd& p) { return p.z < 0 ? 0 : ggxD(p, a2) * G1 * std::max(0.0, glm::dot(wo, p)) / wo.z; }; warp(nm.c_str(), w, false, up, [&](const Vd& p) { return p.z > 1e-3 && glm::dot(wo, p) > 1e-3 ? d(p) : -1.0; }, 0.4, N / 2); if (r >= 0.3) bins(nm.c_str(), w, d, 0, 512); });
    add([&] { auto w = [&](float a, float b) { (void)a; (void)b; return Out{}; }; (void)w; struct S : RandomSampler<float> { float a, b; Vec2<float> get_2d() override { return {a, b}; } }; IsotropicPhaseFunction<TS> iso; auto q = [&](float a, float b) { S s; s.a = a; s.b = b; auto p = iso.sample({0, 0, 1}, s); return Out{Vd(p.wi), double(p.p)}; }; auto d = [](const Vd&) { return 1 / (4 * PID); }; warp("isotropic sphere", q, false, [](const Vd&) { return true; }, d, 2e-3, N / 4); bins("isotropic sphere", q, d, -1, 128); for (Vd a : {Vd{0, 0, 1}, Vd{1, 0, 0}, Vd{0.6, 0, 0.8}}) mc::check(std::fabs(iso.evaluate({0, 0, 1}, {float(a.x), float(a.y), float(a.z)}) * 4 * PID - 1) < 1e-6, "density", "isotropic phase function"); });
    for (double R : {1.0, 0.003, 25.0}) add([&, R] { CircularAperture<TS> ap{Meter(2 * R)}; std::string nm = mc::fmt("aperture of radius %g", R); auto w = [&](float a, float b) { Fixed s; s.v = {a, b}; auto p = ap.sample(s); return Out{Vd{p.x / R, p.y / R, 0}, 1 / PID}; }; warp(nm.c_str(), w, true, [](const Vd& p) { return std::hypot(p.x, p.y) <= 1 + 1e-6; }, [](const Vd&) { return 1 / PID; }, 2e-2, N);
        const int M = 512, Q = 6, A = 8; std::vector<double> got(Q * A, 0); for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) { auto o = w(float((i + 0.5) / M), float((j + 0.5) / M)); double r2 = o.p.x * o.p.x + o.p.y * o.p.y; got[std::size_t(std::clamp(int(r2 * Q), 0, Q - 1) * A + std::clamp(int((std::atan2(o.p.y, o.p.x) / (2 * PID) + 0.5) * A), 0, A - 1))] += 1.0 / M / M; } for (int b = 0; b < Q * A; ++b) { mc::at("%s, part %d of equal area", nm.c_str(), b); mc::evaluated(true); mc::check(std::fabs(got[std::size_t(b)] * Q * A - 1) < 0.08, "distribution", "%.4g of the samples instead of %.4g", got[std::size_t(b)], 1.0 / Q / A); } });
    for (double R : {0.5, 0.01, 2.9, 2.9999}) for (Vd c : {Vd{0, 0, 3}, Vd{0, 0, -3}, Vd{3, 0, 0}, Vd{1.2, -2, 1.888}, Vd{0.02, 0.03, 2.9997}}) add([&, R, c] { SphereLight<TS> L(Meter(R), units::Watt(10.0)); Interaction<TS> is{}; is.normal_s = is.normal_g = {0, 0, 1}; Transform<float> t; t.position = {float(c.x), float(c.y), float(c.z)}; std::string nm = mc::fmt("cone towards a light of radius %g at (%g,%g,%g)", R, c.x, c.y, c.z); double D = glm::length(Vd(t.position)), s2 = R / D * R / D, om = 2 * PID * s2 / (1 + std::sqrt(std::max(0.0, 1 - s2))); Vd ax = glm::normalize(c);
        auto w = [&](float a, float b) { Fixed s; s.v = {a, b}; auto l = L.sample_li(is, t, s); if (!l) { mc::fail("missing", "no sample of a light that is outside"); return Out{{}, 0, false}; } double far = glm::dot(Vd(t.position), Vd(l->wi)); double near = far - std::sqrt(std::max(0.0, far * far - D * D + R * R)); mc::check(std::fabs(l->distance - near) < 2e-3 * D, "distance", "%g to the light's surface, exactly %g", double(l->distance), near); double q = L.pdf_li(is, t, l->wi); double cc = glm::dot(Vd(l->wi), ax), off = glm::length(glm::cross(Vd(l->wi), ax)); if (cc > 0 && off * D < R * 0.999) mc::check(std::fabs(q * om - 1) < 2e-3, "density", "density of the sampled direction %g, sampled with %g", q, 1 / om); return Out{Vd(l->wi), double(l->pdf)}; };
        warp(nm.c_str(), w, false, [&](const Vd& p) { return glm::length(glm::cross(p, ax)) <= R / D * 1.00001 + 2e-6 && glm::dot(p, ax) >= -1e-6; }, [&](const Vd&) { return 1 / om; }, R < 0.1 ? 9 : 0.02, N / 4); });
    for (auto& j : jobs) if (mc::mine()) j();
}
static void frames()
{
    int G = mc::thorough() ? 41 : 21; for (int i = -G; i <= G; ++i) for (int j = -G; j <= G; ++j) for (int k = -1; k <= 1; k += 1) for (int f = 0; f < 3; ++f) {
        Vd v{double(i) / G, double(j) / G, double(k)}; if (!k && (std::abs(i) != G && std::abs(j) != G)) continue; if (f == 1) std::swap(v.x, v.z); if (f == 2) std::swap(v.y, v.z); Vd n = glm::normalize(v); Vf nf{float(n.x), float(n.y), float(n.z)}, t, b; mc::at("frame of (%.9g,%.9g,%.9g)", n.x, n.y, n.z); mc::evaluated(true); build_default_tangent_frame(nf, t, b); Vd T(t), B(b), Nn(nf);
        mc::check(std::fabs(glm::length(T) - 1) < 1e-5 && std::fabs(glm::length(B) - 1) < 1e-5 && std::fabs(glm::dot(T, B)) < 1e-5 && std::fabs(glm::dot(T, Nn)) < 1e-5 && std::fabs(glm::dot(B, Nn)) < 1e-5, "frame", "not orthonormal"); mc::check(glm::dot(glm::cross(T, B), Nn) > 0.99999, "frame", "not right-handed");
        for (Vf l : {Vf{1, 0, 0}, Vf{0, 1, 0}, Vf{0, 0, 1}, Vf{0.6f, -0.48f, 0.64f}}) { auto wv = smp::local_to_world(l, t, b, nf); auto back = smp::world_to_local(wv, t, b, nf); mc::check(glm::length(Vd(back) - Vd(l)) < 3e-6, "frame", "there and back differs by %g", glm::length(Vd(back) - Vd(l))); mc::check(glm::length(Vd(wv) - (T * double(l.x) + B * double(l.y) + Nn * double(l.z))) < 2e-6, "frame", "world direction is not the combination of the axes"); } }
}
// the renderer's samples stay inside the pixel they belong to, up to the last column and row of wide and tall images
static void pixels()
{
    struct Shape { int w, h, spp; }; std::vector<Shape> shapes{{16384, 1, mc::thorough() ? 8192 : 2048}, {1, 16384, mc::thorough() ? 8192 : 2048}, {4096, 1, 4096}, {1, 4096, 4096}, {1920, 2, 2048}, {37, 23, 256}, {9000, 3, 512}, {3, 9000, 512}};
    for (auto& s : shapes) { if (!mc::mine()) continue; mc::at("render of %d x %d, %d samples", s.w, s.h, s.spp); mc::evaluated(true); Scene<TS> scene; auto cam = scene.new_camera_model(); cam.configure_sensor_from_pitch(Resolution{s.w, s.h}, units::Micrometer{1}); cam.set_sensor_simulate_noise(false); auto eye = scene.root.new_instance(cam); auto fb = cam.make_frame_buffer(); fb.enable_received_power(); SceneView<TS> v(scene, Interval{Time::from_et(1), Time::from_et(1)}, eye, ObservationMode::TRUE_STATE, 1); Renderer<TS> r; r.set_samples_per_pixel(s.spp); try { r.render(v, fb); } catch (const std::exception& e) { mc::fail("outside", e.what()); } mc::count("images"); }
}
int main(int argc, char** argv) { mc::init(argc, argv); sc::start(); streams<float>(); streams<double>(); warps(); frames(); pixels(); return mc::finish(); }
