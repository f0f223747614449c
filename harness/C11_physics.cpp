// C11: physical formulae over dense lattices, against long-double evaluations of the published laws.
#include "huira_prelude.hpp"
#include "huira/core/physics.hpp"
#define HUIRA_REF
#include "huira/core/transform.hpp"
#include "refmath.hpp"
using namespace huira; using namespace rf;
static const long double h = 6.62607015e-34L, c = 299792458.0L, kB = 1.380649e-23L;
static long double planck(long double T, long double l) { return 2 * h * c * c / powl(l, 5) / expm1l(h * c / (l * kB * T)); }
template <class S> static void bb(const char* name)
{
    S prev; bool have = false; std::vector<double> T; for (double t = 50; t < 60000; t *= mc::thorough() ? 1.02 : 1.1) T.push_back(t);
    for (double t : T) {
        mc::at("%s black body %.6g K", name, t); mc::evaluated(true); S s = black_body<S>(t); auto bins = S::get_all_bins();
        for (std::size_t i = 0; i < S::size(); ++i) {
            long double a = bins[i].min_wavelength, b = bins[i].max_wavelength, in = 0; const int n = 400; for (int k = 0; k <= n; ++k) { long double w = (k == 0 || k == n) ? 1 : k % 2 ? 4 : 2; in += w * planck(t, a + (b - a) * k / n); } in *= (b - a) / n / 3;
            mc::check(std::isfinite(s[i]) && s[i] >= 0 && (in < 1e-37L || std::fabs(s[i] - in) <= 2e-2L * in), "black-body", "bin %zu is %g expected %Lg", i, double(s[i]), in);
            S fine = t == T[0] ? s : s; (void)fine; if (have) mc::check(s[i] >= prev[i] && (in < 1e-36L || s[i] > prev[i]), "monotone", "bin %zu does not grow with temperature (%g after %g)", i, double(s[i]), double(prev[i]));
            if (in > 1e-30L) { S f = black_body<S>(t, 2000); mc::check(std::fabs(f[i] - in) <= 2e-4L * in, "black-body-fine", "bin %zu with 2000 steps is %g expected %Lg", i, double(f[i]), in); }
        }
        prev = s; have = true;
    }
    for (double m = -26; m <= 12; m += 0.5) {
        mc::at("%s magnitude %g", name, m); mc::evaluated(true); S one{1.f}, half{0.5f}; S a = visual_magnitude_to_irradiance<S>(m, one), b = visual_magnitude_to_irradiance<S>(m + 5, one), d = visual_magnitude_to_irradiance<S>(m, half), br = visual_magnitude_to_irradiance<S>(m - 0.5, one), z = visual_magnitude_to_irradiance<S>(m, S{0.f});
        for (std::size_t i = 0; i < S::size(); ++i) mc::check(std::isfinite(a[i]) && a[i] > 0 && std::fabs(a[i] - 100.0 * b[i]) <= 1e-4 * a[i] && std::fabs(d[i] - 0.5 * a[i]) <= 1e-5 * a[i] && br[i] > a[i] && z[i] == 0, "magnitude", "bin %zu: %g at m, %g at m+5, %g at half albedo", i, double(a[i]), double(b[i]), double(d[i]));
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    if (mc::mine()) bb<RGB>("RGB"); if (mc::mine()) bb<Visible8>("Visible8"); if (mc::mine()) bb<SWIR8>("SWIR8"); if (mc::mine()) bb<UniformSpectralBins<1, 400, 700>>("one bin"); if (mc::mine()) bb<UniformSpectralBins<2, 8000, 14000>>("thermal");
    // photons and spectral radiance
    std::vector<double> lam; for (double l = 1e-8; l < 1e-2; l *= 1.15) lam.push_back(l);
    if (mc::mine()) { double prev = INFINITY; for (double l : lam) { mc::at("photon %g", l); mc::evaluated(true); double e = photon_energy(l); mc::check(std::fabs(e - double(h * c / l)) <= 1e-9 * e && e < prev, "photon", "%.17g J expected %.17Lg", e, h * c / l); prev = e; } }
    if (mc::mine()) for (double T = 1; T < 2e7; T *= 1.3) { auto r = plancks_law(T, lam), r2 = plancks_law(T * 1.3, lam); mc::check(r.size() == lam.size(), "size", "as many radiances as wavelengths"); for (std::size_t i = 0; i < lam.size(); ++i) { mc::at("planck %g K at %g m", T, lam[i]); mc::evaluated(true); long double e = planck(T, lam[i]); double x = double(h * c / (lam[i] * kB * T)); mc::check(std::isfinite(r[i]) && r[i] >= 0 && (e < 1e-290L || x > 600 || std::fabs(r[i] - e) <= (1e-9L + 4e-16L / x + 4e-16L * x) * e) && r2[i] >= r[i], "planck", "%.12g expected %.12Lg", r[i], e); } mc::check(plancks_law(T, {}).empty(), "planck-empty", "no wavelengths"); }
    // even spacing and integration
    for (std::size_t n = 0; n <= 40; ++n) for (double a : {0.0, -3.0, 380e-9}) for (double b : {1.0, 1e-6, -7.0}) {
        mc::at("linspace %zu %g %g", n, a, b); mc::evaluated(n > 1); auto v = linspace(a, b, n); auto f = linspace(float(a), float(b), n); mc::check(v.size() == n && f.size() == n, "linspace-count", "%zu values", v.size());
        for (std::size_t i = 0; i < v.size(); ++i) { double e = n == 1 ? a : a + (b - a) * double(i) / double(n - 1); mc::check(std::fabs(v[i] - e) <= 1e-14 * (std::fabs(a) + std::fabs(b)) && std::fabs(f[i] - e) <= 1e-5 * (std::fabs(a) + std::fabs(b)), "linspace", "value %zu is %.17g expected %.17g", i, v[i], e); }
        if (n) { // exact for linear data on any grid, and independent of where the range is split
            std::vector<double> x, y, q; for (std::size_t i = 0; i < n; ++i) { double u = double(i) + 0.3 * double(i % 3); x.push_back(a + u * 0.5); y.push_back(2 + 3 * x.back()); q.push_back(std::sin(u)); }
            double e = 2 * (x.back() - x[0]) + 1.5 * (x.back() * x.back() - x[0] * x[0]); mc::check(std::fabs(integrate(x, y) - e) <= 1e-11 * (1 + std::fabs(e)), "integrate-linear", "%.17g expected %.17g", integrate(x, y), e);
            for (std::size_t s = 0; s < n; ++s) { std::vector<double> x1(x.begin(), x.begin() + long(s) + 1), q1(q.begin(), q.begin() + long(s) + 1), x2(x.begin() + long(s), x.end()), q2(q.begin() + long(s), q.end()); mc::check(std::fabs(integrate(x1, q1) + integrate(x2, q2) - integrate(x, q)) <= 1e-12 * double(n), "integrate-split", "splitting at %zu changes the integral", s); }
        } else mc::check(integrate({}, {}) == 0, "integrate-empty", "no samples integrate to nothing");
    }
    for (std::size_t n = 0; n <= 30; ++n) { mc::at("V band %zu", n); std::vector<double> l; auto e = johnson_vband_approximation(n, l); mc::check(e.size() == n && l.size() == n, "vband", "%zu values", e.size()); for (std::size_t i = 0; i < n; ++i) mc::check(std::isfinite(l[i]) && l[i] >= 350e-9 - 1e-15 && l[i] <= 850e-9 + 1e-15 && std::fabs(e[i] - std::exp(-(l[i] - 551e-9) * (l[i] - 551e-9) / (2 * 38e-9 * 38e-9))) < 1e-12, "vband", "response %g at %g", e[i], l[i]); mc::evaluated(n > 0); }
    for (double m = -5; m < 10; m += 0.25) { mc::at("V flux %g", m); mc::evaluated(true); double a = v_band_irradiance(m); mc::check(std::isfinite(a) && a > 0 && std::fabs(a - 100 * v_band_irradiance(m + 5)) <= 1e-9 * a && std::fabs(a - 8.75e9 * std::pow(10.0, -0.4 * m)) <= 1e-9 * a, "vflux", "%g", a); }
    // aberration
    std::vector<V> D; for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) for (int z = -2; z <= 2; ++z) if (x || y || z) D.push_back(norm({double(x), double(y), double(z)})); const double BT[] = {0, 1e-9, 1e-5, 1e-4, 0.01, 0.1, 0.5, 0.9, 0.99, 0.9999, 0.9999994};
    for (V u : D) { if (!mc::mine()) continue; for (V k : D) for (double b : BT) {
        mc::at("aberration %s toward %s at %gc", str(u).c_str(), str(k).c_str(), b); mc::evaluated(b > 0); V v = (b * 299792458.0) * k; V a = from(compute_aberrated_direction(Vec3<double>{u.x, u.y, u.z}, Vec3<double>{v.x, v.y, v.z})); double mu = dot(u, k), g = 1 / std::sqrt(1 - b * b), tol = 1e-12 * g * g * 4;
        mc::check(std::fabs(len(a) - 1) <= tol, "unit", "length %.15g", len(a)); if (b == 0) { mc::check(len(a - u) < 1e-15, "rest", "a resting observer sees another direction"); continue; }
        mc::check(std::fabs(dot(a, k) - (mu + b) / (1 + b * mu)) <= tol, "angle", "cosine to the motion %.15g expected %.15g", dot(a, k), (mu + b) / (1 + b * mu)); mc::check(std::fabs(dot(a, cross(u, k))) <= tol, "plane", "leaves the plane of direction and motion"); mc::check(dot(a, k) >= mu - tol, "toward", "tilts away from the motion");
        V perp = u - mu * k; if (len(perp) > 1e-6) mc::check(dot(a, perp) >= -tol, "side", "crosses to the other side of the motion"); if (b < 0.9) { V r = from(compute_aberrated_direction(Vec3<double>{a.x, a.y, a.z}, Vec3<double>{-v.x, -v.y, -v.z})); mc::check(len(r - u) <= 1e-11 * g * g, "undo", "the opposite velocity does not restore the direction (off by %g)", len(r - u)); }
    } }
    for (double b : {1.0, 1.5, double(INFINITY), double(NAN)}) { mc::at("aberration at %gc", b); mc::check(mc::throws([&] { (void)compute_aberrated_direction(Vec3<double>{1, 0, 0}, Vec3<double>{b * 299792458.0, 0, 0}); }), "superluminal", "an observer at %g c is accepted", b); }
    mc::sample("aberration (1,0,0) toward (0,1,0) at 0.5c"); return mc::finish();
}
