// C42: every catalogue entry of a lattice of positions, proper motions, epochs, magnitudes and colours against independent spherical motion and photometry; every load history to the bound, by what the images show.
#include "scenes.hpp"
#include <filesystem>
using Vd = Vec3<double>;
static const double MAS = 3.14159265358979323846 / (180.0 * 3600e3);
static Vd at(double ra, double de) { return {std::cos(de) * std::cos(ra), std::cos(de) * std::sin(ra), std::sin(de)}; }
static double sep(const Vd& a, const Vd& b) { return std::atan2(glm::length(glm::cross(a, b)), glm::dot(a, b)); }
static double years(const Time& t) { return t.julian_years_since_j2000(TimeScale::TT); }
static StarData entry(double ra, double de, double pr, double pd, double bt = 5.5, double vt = 5) { StarData s; s.id = 7; s.RA = ra; s.DEC = de; s.pmRA = float(pr); s.pmDEC = float(pd); s.process_magnitude(bt, vt); return s; }
// ---- where
template <class S> static void where()
{
    const double P = 3.14159265358979323846; const double RA[] = {0, 1e-9, 0.7, P / 2, 2.5, P, 4, 3 * P / 2, 2 * P - 1e-9, 2 * P, -1.2}; const double DE[] = {-P / 2, -P / 2 + 1e-7, -P / 2 + 3e-4, -1.5, -0.9, -1e-9, 0, 0.3, 1.2, 1.53, P / 2 - 3e-4, P / 2 - 1e-7, P / 2}; const double PM[] = {0, 3, -3, 250, -801.55, 10358, -10358}; const double Y[] = {0, 1, -1, 8.75, -8.75, 24.45, 100, -100, 1000, 1e-6};
    for (double ra : RA) for (double de : DE) { if (!mc::mine()) continue; for (double pr : PM) for (double pd : PM) { StarData d = entry(ra, de, pr, pd); mc::at("position %.9g,%.9g rad, motion %g,%g mas/yr", ra, de, pr, pd); Vd p0 = at(ra, de), e{-std::sin(ra), std::cos(ra), 0}, n{-std::sin(de) * std::cos(ra), -std::sin(de) * std::sin(ra), std::cos(de)}; Star<S> kept(d, 0.0); auto irr = kept.get_irradiance();
            for (double y : Y) { mc::evaluated(y != 0); double mr = double(float(pr)) * MAS * y, md = double(float(pd)) * MAS * y, th = std::hypot(mr, md), len = std::fabs(mr) + std::fabs(md); Star<S> s(d, y); Vd u = s.get_direction(); mc::check(std::fabs(glm::length(u) - 1) < 1e-12, "unit", "%g years: length %.17g", y, glm::length(u));
                double off = sep(u, p0); mc::check(off <= len * 1.0001 + 1e-12, "distance", "%g years: moved %.9g rad, the motion allows %.9g", y, off, len);
                double tl = std::fabs(std::tan(de)); Vd w = glm::normalize(p0 + mr * e + md * n); double tol = 1e-11 + 2 * th * th * (1 + tl); if (th * (1 + tl) < 0.1) { mc::check(sep(u, w) <= tol, "direction", "%g years: %.6g rad from where the motion leads (%.3g allowed)", y, sep(u, w), tol); mc::count("directions"); }
                kept.update_direction(d, y); mc::check(kept.get_direction() == u, "update", "%g years: an updated star is elsewhere than a new one", y); for (std::size_t k = 0; k < S::size(); ++k) mc::check(kept.get_irradiance()[k] == irr[k], "update", "an update changes the brightness"); } } }
    for (double et : {0.0, 1.0, -3.2e9, 3.2e9, 7.7e8}) { if (!mc::mine()) continue; mc::at("epoch %.9g", et); mc::evaluated(true); StarData d = entry(1, 0.5, 10358, -801.55); Time t = Time::from_et(et); Star<S> a(d, t), b(d, et / (365.25 * 86400)); mc::check(sep(a.get_direction(), b.get_direction()) < 1e-11, "epoch", "a time and its years disagree by %.3g rad", sep(a.get_direction(), b.get_direction())); Star<S> c(d, 0.0); c.update_direction(d, t); mc::check(c.get_direction() == a.get_direction(), "epoch", "an update to a time is elsewhere"); }
    for (int k = 0; k < 27; ++k) { if (!mc::mine()) continue; mc::at("direction %d", k); mc::evaluated(k != 13); Vd d{double(k % 3 - 1), double(k / 3 % 3 - 1), double(k / 9 - 1)}; if (k == 13) continue; Star<S> s(d * (k % 2 ? 1e-9 : 1e12), S{2.5f}); mc::check(std::fabs(glm::length(s.get_direction()) - 1) < 1e-12 && glm::length(s.get_direction() - glm::normalize(d)) < 1e-12, "unit", "not the direction given"); for (std::size_t i = 0; i < S::size(); ++i) mc::check(s.get_irradiance()[i] == 2.5f, "given", "not the brightness given"); }
}
// ---- how bright: Planck's law and Simpson's rule, written down again
static long double planck(long double l, long double t) { const long double h = 6.62607015e-34L, c = 299792458.0L, k = 1.380649e-23L; return 2 * h * c * c / (l * l * l * l * l) / (std::exp(h * c / (l * k * t)) - 1); }
template <class F> static long double simpson(long double a, long double b, int n, F f) { long double s = f(a) + f(b), h = (b - a) / n; for (int i = 1; i < n; ++i) s += (i % 2 ? 4 : 2) * f(a + i * h); return s * h / 3; }
template <class S> static void brightness(const char* name)
{
    const double C[] = {-0.4, -0.1, 0, 0.2, 0.35, 0.8, 1.5, 2.2}; const double NaN = std::numeric_limits<double>::quiet_NaN();
    for (double c : C) for (int only = 0; only < 3; ++only) { if (!mc::mine()) continue; S last{0}; double lastv = 0; for (double v = -2; v <= 14; v += 1) { // 0 both magnitudes, 1 only VT, 2 only BT
            mc::at("%s: VT %g, BT-VT %g, %s", name, v, c, only == 0 ? "both" : only == 1 ? "VT alone" : "BT alone"); mc::evaluated(true); StarData d = entry(0, 0, 0, 0, only == 1 ? NaN : v + c, only == 2 ? NaN : v); Star<S> s(d, 0.0); S e = s.get_irradiance(); double bv = only ? 0.3 : 0.85 * c, vm = only == 0 ? v - 0.09 * c : only == 1 ? v : v + c, T = 4600 * (1 / (0.92 * bv + 1.7) + 1 / (0.92 * bv + 0.62));
            mc::check(std::fabs(d.visual_magnitude - vm) < 1e-5 && std::fabs(d.temperature - T) < 1e-3 * T, "photometry", "magnitude %.6g, temperature %.6g; the colour says %.6g, %.6g", double(d.visual_magnitude), double(d.temperature), vm, T);
            long double flux = simpson(350e-9L, 850e-9L, 4000, [&](long double l) { long double z = (l - 551e-9L) / 38e-9L; return std::exp(-z * z / 2) * planck(l, T) * l / (6.62607015e-34L * 299792458.0L); }); double omega = 8.75e9 * std::pow(10.0, -0.4 * vm) / double(flux); mc::check(std::fabs(d.solid_angle / omega - 1) < 1e-3, "solid-angle", "%.9g sr; the magnitude needs %.9g", d.solid_angle, omega);
            auto bins = S::get_all_bins(); for (std::size_t i = 0; i < S::size(); ++i) { double w = omega * double(simpson(bins[i].min_wavelength, bins[i].max_wavelength, 400, [&](long double l) { return planck(l, T); })); mc::check(std::fabs(double(e[i]) - w) < 2e-3 * w, "brightness", "bin %zu: %.9g W/m2, the catalogue says %.9g", i, double(e[i]), w); if (v >= 3) { mc::check(double(e[i]) < double(last[i]), "order", "bin %zu: not fainter", i); } }
            if (v > -2) for (std::size_t i = 0; i < S::size(); ++i) { double r = double(last[i]) / double(e[i]), w = std::pow(100, (vm - lastv) / 5); mc::check(std::fabs(r / w - 1) < 1e-4, "magnitudes", "bin %zu: one magnitude is a factor of %.9g", i, r); } last = e; lastv = vm; } }
}
// ---- histories
using TS = RGB;
static std::vector<StarData> catalog(int k)
{
    std::vector<StarData> v; if (k == 0) { for (int i = 0; i < 6; ++i) v.push_back(entry(0.12 * i - 0.3, 1.45 - 0.05 * i, 2e6 * (i - 2), 1.5e6 * (i % 2 ? 1 : -1), 3.3 + 2.5 * i, 3 + 2.5 * i)); } else for (int i = 0; i < 3; ++i) v.push_back(entry(2.0 + 0.8 * i, 1.40, -2e6, 1e6, 4.6 + 2 * i, 4 + 2 * i)); return v;
}
static std::vector<float> picture(sc::Stage<TS>& g, SceneView<TS>& v)
{
    Renderer<TS> r; r.set_samples_per_pixel(1); r.set_max_bounces(0); FrameBuffer<TS> fb = g.cam.make_frame_buffer(); fb.enable_received_power(); r.render(v, fb); std::vector<float> o; auto& im = fb.received_power(); for (std::size_t i = 0; i < im.size(); ++i) for (std::size_t c = 0; c < TS::size(); ++c) o.push_back(im[i][c]); return o;
}
static double off(const std::vector<float>& a, const std::vector<float>& b) { double d = 0, m = 0; for (std::size_t i = 0; i < a.size(); ++i) { d = std::max(d, double(std::fabs(a[i] - b[i]))); m = std::max(m, double(std::max(std::fabs(a[i]), std::fabs(b[i])))); if (std::isnan(a[i]) || std::isnan(b[i])) return 1e9; } return m > 0 ? d / m : 0; }
static std::unique_ptr<sc::Stage<TS>> G, H;
static void histories()
{
    auto dir = mc::S().scratch; std::vector<std::vector<StarData>> cat{catalog(0), catalog(1)}; std::vector<std::string> path; for (int k = 0; k < 2; ++k) { path.push_back(dir + mc::fmt("/c%d_%d.hrsc", k, mc::S().shard)); StarCatalog c(cat[std::size_t(k)]); c.write_star_data(path.back()); } std::string bad = dir + mc::fmt("/bad%d.hrsc", mc::S().shard); { std::ofstream o(bad); o << "HRSC and nothing else"; }
    const float LIM[] = {std::numeric_limits<float>::infinity(), 8.f, 1.f}; const double ET[] = {0, 1.2e9, -9e8}; int used = 0;
    struct Op { int kind, a, b, c; }; std::vector<Op> ops; // 0 load, 1 load dynamic, 2 set epoch, 3 set by hand, 4 failing load
    ops = {{0, 0, 0, 0}, {0, 1, 1, 0}, {1, 0, 1, 1}, {1, 1, 0, 0}, {1, 0, 2, 0}, {2, 0, 0, 0}, {2, 1, 0, 0}, {2, 2, 0, 0}, {3, 0, 0, 0}, {3, 1, 0, 0}, {4, 0, 0, 0}, {4, 1, 0, 0}, {0, 0, 2, 1}};
    mc::sequences(int(ops.size()), mc::thorough() ? 4 : 3, [&](const std::vector<int>& q) {
        std::string t; for (int o : q) { auto& p = ops[std::size_t(o)]; t += p.kind == 2 ? mc::fmt("epoch %d; ", p.a) : p.kind == 3 ? (p.a ? "two by hand; " : "none; ") : p.kind == 4 ? (p.a ? "missing dynamic; " : "damaged static; ") : mc::fmt("%s catalogue %d below %g at %d; ", p.kind ? "dynamic" : "static", p.a, double(LIM[p.b]), p.c); } mc::at_s(t); mc::evaluated(q.size() > 1);
        if (!G || ++used % 400 == 0) { Rotation<double> up; G = std::make_unique<sc::Stage<TS>>(40, 40, 500); H = std::make_unique<sc::Stage<TS>>(40, 40, 500); } G->s.set_stars({});
        std::vector<StarData> cur; std::vector<Star<TS>> hand; double ep = 0; bool dyn = false, man = true; for (int o : q) { auto& p = ops[std::size_t(o)]; try { if (p.kind < 2) { Time tm = Time::from_et(ET[p.c]); if (p.kind) G->s.load_dynamic_stars(path[std::size_t(p.a)], tm, LIM[p.b]); else G->s.load_stars(path[std::size_t(p.a)], tm, LIM[p.b]); cur.clear(); for (auto& d : cat[std::size_t(p.a)]) if (d.visual_magnitude <= LIM[p.b]) cur.push_back(d); ep = ET[p.c]; dyn = p.kind; man = false; }
                else if (p.kind == 2) { G->s.update_star_epoch(Time::from_et(ET[p.a])); if (dyn) ep = ET[p.a]; } else if (p.kind == 3) { hand.clear(); if (p.a) { hand.push_back(Star<TS>({0.05, 0.1, 1}, TS{3e-9f})); hand.push_back(Star<TS>({-0.2, 0.03, 1}, TS{1e-8f})); } G->s.set_stars(hand); man = true; dyn = false; }
                else mc::check(mc::throws([&] { if (p.a) G->s.load_dynamic_stars(bad + "none", Time::from_et(5), 9.f); else G->s.load_stars(bad, Time::from_et(5), 9.f); }), "refused", "no exception"); } catch (const std::exception& e) { mc::fail("load", e.what()); return true; } }
        std::vector<Star<TS>> want = man ? hand : std::vector<Star<TS>>{}; if (man && hand.empty()) want.clear(); if (!man) for (auto& d : cur) want.push_back(Star<TS>(d, years(Time::from_et(ep)))); H->s.set_stars(want); auto gv = G->view(), hv = H->view(); auto a = picture(*G, gv), b = picture(*H, hv); double d = off(a, b); mc::check(d < 1e-5, "scene", "the image differs by %.3g of its brightest pixel from that of the %zu stars expected", d, want.size()); double lit = 0; for (float x : b) lit += x; if (!want.empty()) mc::check(lit > 0, "seen", "no star in view"); mc::count(want.empty() ? "dark" : "lit"); return true; });
}
int main(int argc, char** argv) { mc::init(argc, argv); sc::start(); where<RGB>(); if (mc::thorough()) where<Visible8>(); brightness<RGB>("RGB"); brightness<Visible8>("visible"); brightness<SWIR8>("short-wave"); histories(); return mc::finish(); }
