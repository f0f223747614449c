// C29: point-spread and defocus kernels over a lattice of configurations against double-precision integrals; build histories; radius choice; stamps in rendered frames.
#include "scenes.hpp"
using TS = RGB; using namespace huira::units;
using sc::Meter;
constexpr double PID = 3.14159265358979323846;
template <class S> struct Comet : PSF<S> { double a; Comet(double w, int r, int b) : a(w) { this->build_polyphase_cache(r, b); } S evaluate(float x, float y) override { S v{0}; for (std::size_t c = 0; c < S::size(); ++c) v[c] = float(val(x, y, c)); return v; } double val(double x, double y, std::size_t c) const { double w = a * (1 + 0.3 * double(c)), p = x > 0 ? x / 2 : x; return std::exp(-(p * p + y * y * 0.6 + 0.3 * x * y) / (2 * w * w)); } };
template <class S> struct Flat : PSF<S> { Flat(int r, int b) { this->build_polyphase_cache(r, b); } S evaluate(float, float) override { return S{1.f}; } };
template <class S> struct Dark : PSF<S> { Dark(int r, int b) { this->build_polyphase_cache(r, b); } S evaluate(float x, float) override { S v{0}; v[1] = x > 0 ? 1.f : 0.5f; return v; } };
static double airy(double x) { if (x < 1e-9) return 1; double v = 2 * ::j1(x) / x; return v * v; }
using Fn = std::function<double(double, double, std::size_t)>;
static std::vector<double> refkernel(const Fn& f, int radius, double px, double py, std::size_t c, int n)
{
    int d = 2 * radius + 1; std::vector<double> k(std::size_t(d * d)); double tot = 0; for (int y = 0; y < d; ++y) for (int x = 0; x < d; ++x) { double s = 0; for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) s += f(x - radius - px + (i + 0.5) / n - 0.5, y - radius - py + (j + 0.5) / n - 0.5, c); k[std::size_t(y * d + x)] = s; tot += s; } if (tot > 0) for (auto& v : k) v /= tot; return k;
}
template <class I> static void basics(const I& k, int radius, const char* what)
{
    mc::check(k.width() == 2 * radius + 1 && k.height() == 2 * radius + 1, "size", "%s is %dx%d for radius %d", what, k.width(), k.height(), radius);
}
template <class S> static void kernels(const PSF<S>& p, const Fn& f, int radius, int banks, double tol, int n, bool all, bool energy = true)
{
    mc::check(p.get_radius() == radius && p.get_banks() == banks, "size", "radius %d banks %d", p.get_radius(), p.get_banks()); mc::check(p.get_all_kernels().size() == std::size_t(banks) * std::size_t(banks), "size", "%zu kernels", p.get_all_kernels().size());
    for (int by = 0; by < banks; ++by) for (int bx = 0; bx < banks; ++bx) {
        float u = (float(bx) + 0.5f) / float(banks), v = (float(by) + 0.5f) / float(banks); std::string w = mc::fmt(", phase (%g,%g)", double(u), double(v)); std::string base = mc::S().cur; mc::at_s(base + w); mc::evaluated(true); const auto& k = p.get_kernel(u, v); basics(k, radius, "kernel"); if (k.width() != 2 * radius + 1) { mc::at_s(base); continue; }
        const auto& e0 = p.get_kernel(float(bx) / float(banks) + 1e-4f, float(by) / float(banks) + 1e-4f); mc::check(&e0 == &k, "phase", "two positions of one bank give two kernels");
        for (std::size_t c = 0; c < S::size(); ++c) { double s = 0; bool ok = true; for (int y = 0; y < k.height(); ++y) for (int x = 0; x < k.width(); ++x) { double q = k(x, y)[c]; ok = ok && std::isfinite(q) && q >= 0; s += q; } mc::check(ok, "value", "channel %zu: negative or not a number", c); if (energy) mc::check(std::fabs(s - 1) < 2e-4, "energy", "channel %zu sums to %.7g", c, s); else mc::check(std::fabs(s - (c == 1)) < 1e-4, "energy", "channel %zu sums to %.7g", c, s); }
        bool corner = (bx == 0 || bx == banks - 1 || bx == banks / 2) && (by == 0 || by == banks - 1 || by == 1 % banks); if (!all && !corner) { mc::at_s(base); continue; }
        for (std::size_t c = 0; c < S::size(); ++c) { auto r = refkernel(f, radius, double(bx) / banks, double(by) / banks, c, n); double bad = 0; int X = 0, Y = 0; for (int y = 0; y < k.height(); ++y) for (int x = 0; x < k.width(); ++x) { double d = std::fabs(k(x, y)[c] - r[std::size_t(y * k.width() + x)]); if (d > bad) { bad = d; X = x; Y = y; } } mc::check(bad < tol, "kernel", "channel %zu pixel (%d,%d): %.6g, the integral over the pixel is %.6g", c, X, Y, double(k(X, Y)[c]), r[std::size_t(Y * k.width() + X)]); mc::count("kernels"); }
        mc::at_s(base);
    }
}
static void airy_configs()
{
    struct Q { double fn, px, py; int r, b; }; std::vector<Q> qs; for (double fn : {2.0, 8.0, 22.0, 64.0}) for (auto [px, py] : {std::pair{5e-6, 5e-6}, {4e-6, 9e-6}}) for (auto [r, b] : {std::pair{0, 1}, {1, 4}, {2, 3}, {3, 16}, {6, 2}}) { if (!mc::thorough() && px != py && fn != 22) continue; qs.push_back({fn, px, py, r, b}); } qs.push_back({16, 5e-6, 5e-6, 16, 4}); if (mc::thorough()) { qs.push_back({64, 3e-6, 3e-6, 24, 8}); qs.push_back({4, 2e-6, 2e-6, 40, 2}); }
    for (auto& q : qs) { if (!mc::mine()) continue; mc::at("Airy f/%g pitch %gx%g radius %d banks %d", q.fn, q.px, q.py, q.r, q.b); double D = 0.02; AiryDisk<TS> a(Meter(D * q.fn), Meter(q.px), Meter(q.py), Meter(D), q.r, q.b); Fn f = [&](double x, double y, std::size_t c) { return airy(PID * std::hypot(x * q.px, y * q.py) / (TS::get_bin(c).center_wavelength * q.fn)); };
        double sharp = 5e-7 * q.fn / std::max(q.px, q.py); kernels<TS>(a, f, q.r, q.b, sharp < 0.3 ? 0.01 : 2e-3, 16, mc::thorough() && q.b < 8);
        for (double x : {-2.0, -0.3, 0.0, 1e-3, 0.7, 3.0}) for (double y : {-1.1, 0.0, 0.4}) { mc::evaluated(true); auto v = a.evaluate(float(x), float(y)); for (std::size_t c = 0; c < 3; ++c) mc::check(std::fabs(v[c] - f(double(float(x)), double(float(y)), c)) < 1e-5, "pattern", "channel %zu at (%g,%g): %.7g, Airy pattern %.7g", c, x, y, double(v[c]), f(x, y, c)); }
        // longer wavelengths spread wider: less of the light in the central pixel of the centred kernel
        const auto& k = a.get_kernel(0, 0); for (std::size_t c = 0; c < 3; ++c) for (std::size_t e = 0; e < 3; ++e) if (TS::get_bin(c).center_wavelength > TS::get_bin(e).center_wavelength) mc::check(k(q.r, q.r)[c] <= k(q.r, q.r)[e] + 1e-3, "spread", "the longer wavelength keeps %.6g in the centre, the shorter %.6g", double(k(q.r, q.r)[c]), double(k(q.r, q.r)[e]));
        if (q.r > 0 && sharp > 0.05) { AiryDisk<TS> b(Meter(D * q.fn * 1.7), Meter(q.px), Meter(q.py), Meter(D), q.r, 1); const auto& l = b.get_kernel(0, 0); for (std::size_t c = 0; c < 3; ++c) mc::check(l(q.r, q.r)[c] <= k(q.r, q.r)[c] + 2e-3, "spread", "a slower aperture narrows the image: %.6g to %.6g", double(k(q.r, q.r)[c]), double(l(q.r, q.r)[c])); CircularAperture<TS> ap{Meter(D)}; auto mp = ap.make_psf(Meter(D * q.fn), Meter(q.px), Meter(q.py), q.r, q.b); mc::check(mp->get_all_kernels().size() == a.get_all_kernels().size() && std::fabs(mp->get_kernel(0.3f, 0.9f)(0, q.r)[1] - a.get_kernel(0.3f, 0.9f)(0, q.r)[1]) < 1e-5, "aperture", "the aperture makes another pattern"); }
    }
}
static void custom()
{
    for (double w : {0.4, 1.0, 2.5}) for (auto [r, b] : {std::pair{0, 2}, {1, 3}, {2, 8}, {4, 4}, {7, 1}}) { if (!mc::mine()) continue; mc::at("comet of width %g radius %d banks %d", w, r, b); Comet<TS> p(w, r, b); kernels<TS>(p, [&](double x, double y, std::size_t c) { return p.val(x, y, c); }, r, b, 3e-3, 16, true); }
    for (auto [r, b] : {std::pair{0, 1}, {1, 4}, {3, 2}}) { if (!mc::mine()) continue; mc::at("flat radius %d banks %d", r, b); Flat<TS> p(r, b); kernels<TS>(p, [](double, double, std::size_t) { return 1.0; }, r, b, 1e-4, 4, true); mc::at("one channel dark, radius %d banks %d", r, b); Dark<TS> d(r, b); kernels<TS>(d, [](double x, double, std::size_t c) { return c == 1 ? (x > 0 ? 1.0 : 0.5) : 0.0; }, r, b, 0.03, 64, true, false); }
    if (!mc::first_shard()) return; Comet<TS> p(1, 2, 4); for (float u : {-1.f, 0.f, 0.9999f, 1.f, 1.0001f, 2.f}) for (float v : {-0.5f, 0.f, 1.f}) { mc::at("phase (%g,%g)", double(u), double(v)); mc::evaluated(true); const auto& k = p.get_kernel(u, v); const auto& l = p.get_kernel(std::clamp(u, 0.f, 0.99f), std::clamp(v, 0.f, 0.99f)); mc::check(&k == &l, "phase", "outside [0,1) is not the nearest bank"); }
    for (auto [r, b] : {std::pair{-1, 4}, {2, 0}, {2, -1}, {-3, -3}}) { mc::at("radius %d banks %d", r, b); mc::evaluated(true); mc::check(mc::throws([&, r = r, b = b] { Comet<TS> q(1, r, b); q.get_kernel(0.5f, 0.5f); }), "refused", "accepted"); Comet<TS> q(1, 2, 2); auto before = q.get_kernel(0.6f, 0.1f)(1, 3)[0]; mc::check(mc::throws([&, r = r, b = b] { q.build_polyphase_cache(r, b); q.get_kernel(0.5f, 0.5f); }), "refused", "accepted"); if (q.get_radius() == 2 && q.get_banks() == 2) mc::check(q.get_kernel(0.6f, 0.1f)(1, 3)[0] == before, "refused", "changed the kernels"); }
}
// every sequence of builds leaves what the last one alone would
static void rebuilds()
{
    const std::vector<std::pair<int, int>> cf{{0, 1}, {1, 2}, {2, 3}, {3, 1}}; std::vector<Comet<TS>> fresh; for (auto [r, b] : cf) fresh.emplace_back(0.8, r, b);
    mc::sequences(4, mc::thorough() ? 3 : 2, [&](const std::vector<int>& q) { Comet<TS> p(0.8, 5, 1); for (int i : q) p.build_polyphase_cache(cf[std::size_t(i)].first, cf[std::size_t(i)].second); mc::at("builds %s", mc::seq_str(q).c_str()); mc::evaluated(true); auto a = p.get_all_kernels(), b = fresh[std::size_t(q.back())].get_all_kernels(); bool same = a.size() == b.size(); for (std::size_t i = 0; same && i < a.size(); ++i) { same = a[i].width() == b[i].width(); for (std::size_t j = 0; same && j < a[i].size(); ++j) same = a[i][j] == b[i][j]; } mc::check(same, "history", "differs from a fresh build"); return true; });
    struct D { double dio, f, px; int b; }; const std::vector<D> ds{{0, 0.1, 5e-6, 4}, {0.05, 0.1, 5e-6, 4}, {-0.05, 0.1, 5e-6, 2}, {0.2, 0.1, 5e-6, 3}, {0.01, 0.1, 5e-6, 3}};
    auto build = [](CircularAperture<TS>& a, const D& d) { a.build_defocus_kernel(Diopter(d.dio), Meter(d.f), Meter(d.px), Meter(d.px), d.b); };
    mc::sequences(int(ds.size()), 3, [&](const std::vector<int>& q) { CircularAperture<TS> a{Meter(0.01)}, g{Meter(0.01)}; for (int i : q) build(a, ds[std::size_t(i)]); build(g, ds[std::size_t(q.back())]); mc::at("defocus builds %s", mc::seq_str(q).c_str()); mc::evaluated(true); mc::check(a.has_defocus() == g.has_defocus() && a.get_defocus_radius() == g.get_defocus_radius() && a.get_defocus_half_extent() == g.get_defocus_half_extent(), "history", "differs from a fresh build"); if (!g.has_defocus()) { mc::check(mc::throws([&] { a.get_defocus_kernel(0, 0); }), "history", "kernels of an earlier focus"); return true; } for (float u : {0.f, 0.6f, 0.99f}) { auto &x = a.get_defocus_kernel(u, 0.4f), &y = g.get_defocus_kernel(u, 0.4f); bool same = x.width() == y.width(); for (std::size_t j = 0; same && j < x.size(); ++j) same = x[j] == y[j]; mc::check(same, "history", "differs from a fresh build"); } return true; });
}
static void defocus()
{
    std::vector<double> blurs{0.1, 0.49, 0.51, 0.6, 0.75, 1.0, 1.2, 1.49, 1.5, 2.0, 2.7, 3.5, 5.0, 8.3}; if (mc::thorough()) for (double b = 0.5; b < 12; b += 0.07) blurs.push_back(b);
    for (double blur : blurs) for (int sign : {1, -1}) for (int banks : {1, 2, 5, 16}) {
        if (!mc::mine()) continue; double D = 0.02, f = 0.1, px = 5e-6, dio = sign * blur * px / (f * D / 2); CircularAperture<TS> a{Meter(D)}; a.build_defocus_kernel(Diopter(dio), Meter(f), Meter(px), Meter(px), banks); mc::at("defocus of %g diopters: blur radius %g px, %d banks", dio, blur, banks); mc::evaluated(blur > 0.5);
        if (blur < 0.5) { mc::check(!a.has_defocus() && a.get_defocus_half_extent() == 0, "focus", "half a pixel of blur is in focus"); continue; } mc::check(a.has_defocus() && std::fabs(a.get_defocus_radius() - blur) < 1e-4 * blur, "blur", "radius %g px", double(a.get_defocus_radius())); int h = a.get_defocus_half_extent(); mc::check(h >= blur - 1e-4 && h <= blur + 3, "size", "half extent %d", h);
        for (int by = 0; by < banks; ++by) for (int bx = 0; bx < banks; ++bx) { float u = (float(bx) + 0.5f) / float(banks), v = (float(by) + 0.5f) / float(banks); mc::at("blur radius %g px, %d banks, phase (%g,%g)", blur, banks, double(u), double(v)); mc::evaluated(true); const auto& k = a.get_defocus_kernel(u, v); basics(k, h, "defocus kernel"); double s = 0, mx = 0, my = 0, m2 = 0; bool ok = true; for (int y = 0; y < k.height(); ++y) for (int x = 0; x < k.width(); ++x) { double q = k(x, y); ok = ok && std::isfinite(q) && q >= 0; s += q; mx += q * (x - h); my += q * (y - h); }
            mc::check(ok && std::fabs(s - 1) < 1e-4, "energy", "sums to %.7g", s); double ox = double(bx) / banks, oy = double(by) / banks; auto disc = refkernel([&](double X, double Y, std::size_t) { return X * X + Y * Y < blur * blur ? 1.0 : 0.0; }, h, ox, oy, 0, 16); double r2 = 0; for (int y = 0; y < k.height(); ++y) for (int x = 0; x < k.width(); ++x) { double w = std::pow(x - h - ox, 2) + std::pow(y - h - oy, 2); m2 += k(x, y) * w; r2 += disc[std::size_t(y * k.width() + x)] * w; } mc::check(std::hypot(mx - ox, my - oy) < 0.06 + 0.06 / blur, "centre", "centred at (%.4g,%.4g), asked for (%.4g,%.4g)", mx, my, ox, oy); mc::check(std::fabs(std::sqrt(m2) - std::sqrt(r2)) < 0.05 + 0.09 / blur, "spread", "rms radius %.4g, a disc of that size has %.4g", std::sqrt(m2), std::sqrt(r2));
            for (int y = 0; y < k.height(); ++y) for (int x = 0; x < k.width(); ++x) { double r = std::hypot(x - h - ox, y - h - oy), full = 1 / (PID * blur * blur); if (r > blur + 0.8) mc::check(k(x, y) == 0, "spread", "light at %.3g px from the centre", r); else if (r < blur - 0.8) mc::check(std::fabs(k(x, y) - full) < 0.25 * full, "uniform", "pixel (%d,%d) has %.5g, a uniform disc %.5g", x, y, double(k(x, y)), full); }
            if (bx == 0) for (int y = 0; y < k.height(); ++y) for (int x = 0; x < k.width(); ++x) mc::check(k(x, y) == k(2 * h - x, y), "symmetry", "the centred blur is lopsided"); if (banks > 1) { const auto& t = a.get_defocus_kernel(v, u); bool same = true; for (int y = 0; y < k.height(); ++y) for (int x = 0; x < k.width(); ++x) same = same && std::fabs(k(x, y) - t(y, x)) < 1e-6; mc::check(same, "symmetry", "the two axes blur differently"); } }
    }
}
// the radius chosen by brightness: monotone, and every pixel of the centred kernel that gets more than the threshold is kept
static void radius()
{
    for (int kind = 0; kind < 4; ++kind) for (int r : {1, 2, 5, 9}) { if (!mc::mine()) continue; std::unique_ptr<PSF<TS>> p; if (kind == 0) p = std::make_unique<AiryDisk<TS>>(Meter(0.16), Meter(5e-6), Meter(5e-6), Meter(0.01), r, 1); else if (kind == 1) p = std::make_unique<Comet<TS>>(0.7, r, 1); else if (kind == 2) p = std::make_unique<Flat<TS>>(r, 1); else p = std::make_unique<Dark<TS>>(r, 1); const auto& k = p->get_kernel(0, 0); TS e = TS::photon_energies();
        for (float area : {1e-4f, 0.3f}) for (float thr : {0.1f, 5.f}) { RadiusLUTConfig c; c.photon_threshold = thr; auto lut = build_radius_lut(k, r, area, e, c); int last = 0; for (int i = -1; i <= 160; ++i) { float E = i < 0 ? 0.f : float(1e-24 * std::pow(10.0, i / 6.0)); int R = lookup_effective_radius(lut, E, c.min_radius); mc::at("kernel %d radius %d, area %g, threshold %g, irradiance %g", kind, r, double(area), double(thr), double(E)); mc::evaluated(E > 0); mc::check(R >= last, "monotone", "a brighter source gets radius %d after %d", R, last); last = R; mc::check(R >= c.min_radius && R <= std::max(r, c.min_radius), "radius", "%d", R); double worst = 0, at = 0; for (int y = 0; y < k.height(); ++y) for (int x = 0; x < k.width(); ++x) { int ring = std::max(std::abs(x - r), std::abs(y - r)); for (std::size_t ch = 0; ch < 3; ++ch) { double n = double(E) * area * k(x, y)[ch] / e[ch]; if (ring > R) worst = std::max(worst, n); if (ring == R) at = std::max(at, n); } } mc::check(worst <= thr * 1.0001, "cut", "cuts off a pixel with %.4g photons", worst); if (R > c.min_radius) mc::check(at >= thr * 0.9999, "cut", "radius %d although its ring gets %.4g photons", R, at); } }
    }
    if (mc::first_shard()) { mc::at("empty table"); mc::evaluated(true); mc::check(lookup_effective_radius({}, 1.f, 1) == 1 && build_radius_lut(Image<TS>(1, 1, TS{1.f}), 0, 1.f, TS::photon_energies()).empty(), "radius", "no table, no radius"); }
}
// a point source in a frame: total power, centre and shape follow the kernel at every sub-pixel position
static void frames()
{
    const int W = 33, H = 29; for (int mode = 0; mode < 4; ++mode) { if (!mc::mine()) continue; sc::Stage<TS> g(W, H, 500, false, Rotation<double>(), {0, 0, 0}, 1); TS E = sc::ramp<TS>(1, 3); auto u = g.s.new_unresolved_object(SpectralWattsPerMeterSquared<TS>{E}); auto inst = g.s.root.new_instance(u); const int banks = 4; if (mode == 1) g.cam.set_psf<Comet<TS>>(1.0, 6, banks); if (mode == 2) { g.cam.enable_depth_of_field(); g.cam.set_focus_distance(Meter(0.2)); } if (mode == 3) g.cam.set_psf<Comet<TS>>(0.6, 1, banks);
        Comet<TS> ref1(1.0, 6, banks), ref3(0.6, 1, banks);
        for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) { double px = 16 + i / 8.0 + 1e-3, py = 14 + j / 8.0 + 1e-3, x = (px - W / 2.0) * 5e-4 / 0.02, y = (py - H / 2.0) * 5e-4 / 0.02; double Z = 1e6; inst.set_position(Meter(x * Z), Meter(y * Z), Meter(Z)); auto v = g.view(); Renderer<TS> r; r.set_samples_per_pixel(1); r.set_max_bounces(0); FrameBuffer<TS> fb = g.cam.make_frame_buffer(); fb.enable_received_power(); r.render(v, fb); mc::at("mode %d, source at (%g,%g)", mode, px, py); mc::evaluated(true); const auto& im = fb.received_power(); double t[3] = {0, 0, 0}, mx = 0, my = 0; for (int b = 0; b < H; ++b) for (int a = 0; a < W; ++a) for (std::size_t c = 0; c < 3; ++c) { t[c] += im(a, b)[c]; if (c == 1) { mx += im(a, b)[c] * (a + 0.5); my += im(a, b)[c] * (b + 0.5); } } double area = PID * 0.02 * 0.02 / 4, cs = 1 / std::sqrt(1 + x * x + y * y); for (std::size_t c = 0; c < 3; ++c) mc::check(std::fabs(t[c] / (E[c] * area * cs) - 1) < 2e-3, "frame-energy", "channel %zu: %.7g W arrive of %.7g", c, t[c], E[c] * area * cs);
            mx /= t[1]; my /= t[1]; if (mode == 0) mc::check(std::fabs(mx - (std::floor(px) + 0.5)) < 1e-6 && std::fabs(my - (std::floor(py) + 0.5)) < 1e-6, "frame-centre", "in pixel (%g,%g)", mx, my); else if (mode == 2) mc::check(std::fabs(mx - px) < 1.0 / 16 + 0.05 && std::fabs(my - py) < 1.0 / 16 + 0.05, "frame-centre", "centred at (%.4f,%.4f)", mx, my);
            else { auto& ref = mode == 1 ? ref1 : ref3; double sx = px - 0.5, sy = py - 0.5; int fx = int(std::floor(sx)), fy = int(std::floor(sy)); const auto& k = ref.get_kernel(float(sx - fx), float(sy - fy)); int rr = mode == 1 ? 6 : 1; double bad = 0; for (int b = 0; b < H; ++b) for (int a = 0; a < W; ++a) { int kx = a - fx + rr, ky = b - fy + rr; double want = kx >= 0 && ky >= 0 && kx <= 2 * rr && ky <= 2 * rr ? k(kx, ky)[2] : 0; bad = std::max(bad, std::fabs(im(a, b)[2] / t[2] - want)); } mc::check(bad < 2e-3, "frame-shape", "differs from the kernel by %.4g", bad); }
        } }
}
// dim sources: the frame keeps every pixel that gets a visible number of photons per second
static void dim()
{
    const int W = 31, H = 31; for (int kind = 0; kind < 2; ++kind) { std::unique_ptr<PSF<TS>> p; if (kind) p = std::make_unique<AiryDisk<TS>>(Meter(0.02), Meter(5e-4), Meter(5e-4), Meter(5e-5), 9, 2); else p = std::make_unique<Comet<TS>>(1.3, 9, 2); const auto& k = p->get_kernel(0, 0); TS e = TS::photon_energies(); double area = PID * 0.02 * 0.02 / 4;
        for (int i = 0; i <= 44; ++i) { if (!mc::mine()) continue; TS E = sc::ramp<TS>(1, 3) * float(std::pow(10.0, -17.0 + i / 4.0)); sc::Stage<TS> q(W, H, 500, false, Rotation<double>(), {0, 0, 0}, 1); if (kind) q.cam.set_psf<AiryDisk<TS>>(Meter(0.02), Meter(5e-4), Meter(5e-4), Meter(5e-5), 9, 2); else q.cam.set_psf<Comet<TS>>(1.3, 9, 2); auto u = q.s.new_unresolved_object(SpectralWattsPerMeterSquared<TS>{E}); auto inst = q.s.root.new_instance(u); inst.set_position(Meter(0), Meter(0), Meter(1e6)); Renderer<TS> r; r.set_samples_per_pixel(1); r.set_max_bounces(0); FrameBuffer<TS> fb = q.cam.make_frame_buffer(); fb.enable_received_power(); auto v = q.view(); r.render(v, fb); mc::at("dim source, kernel %d, irradiance %g", kind, double(E[0])); mc::evaluated(true); const auto& im = fb.received_power(); double bad = 0, lost = 0; for (int y = 0; y < 19; ++y) for (int x = 0; x < 19; ++x) for (std::size_t c = 0; c < 3; ++c) { double want = E[c] * area * k(x, y)[c] / e[c], got = im(x + 6, y + 6)[c] / e[c]; if (got == 0) lost = std::max(lost, want); else bad = std::max(bad, std::fabs(got / std::max(want, 1e-30) - 1)); } mc::check(lost < 0.11, "dim", "a pixel with %.4g photons per second stays dark", lost); mc::check(bad < 0.3, "dim", "a pixel off by %.3g", bad); } }
}
int main(int argc, char** argv) { mc::init(argc, argv); sc::start(); airy_configs(); custom(); rebuilds(); defocus(); radius(); frames(); dim(); return mc::finish(); }
