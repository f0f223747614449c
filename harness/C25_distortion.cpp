// C25: every coefficient vector of a lattice (singles, pairs, all at once) at every image point of a lattice, for the three lens models, against the published formulae and a Newton inverse in double precision.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/cameras/distortion/brown_distortion.hpp"
#include "huira/cameras/distortion/opencv_distortion.hpp"
#include "huira/cameras/distortion/owen_distortion.hpp"
#include "refdist.hpp"
#include "mc.hpp"
using namespace huira;
template <class S> static std::unique_ptr<Distortion<S>> make(const RD& r)
{
    const auto& k = r.c;
    if (r.kind == 1) return std::make_unique<BrownDistortion<S>>(BrownCoefficients(k[0], k[1], k[2], k[3], k[4]));
    if (r.kind == 2) return std::make_unique<OpenCVDistortion<S>>(OpenCVCoefficients(k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7], k[8], k[9], k[10], k[11]));
    return std::make_unique<OwenDistortion<S>>(OwenCoefficients(k[0], k[1], k[2], k[3], k[4], k[5]));
}
static double scale(const RD& r, double x, double y) { double s = 0, q = 1 + x * x + y * y; for (double c : r.c) s += std::fabs(c); return (1 + s) * q * q * q; }
template <class S> static void one(const RD& r, const std::vector<float>& xs)
{
    auto d = make<S>(r), loose = make<S>(r), deep = make<S>(r); loose->set_tolerance(1e-3f); deep->set_max_iterations(3000); deep->set_tolerance(1e-7f); mc::check(loose->get_tolerance() == 1e-3f && deep->get_max_iterations() == 3000, "settings", "not kept");
    bool zero = true; for (double c : r.c) zero = zero && c == 0; Pixel o = d->distort(Pixel{0.f, 0.f}), u0 = d->undistort(Pixel{0.f, 0.f}); mc::check(o[0] == 0 && o[1] == 0 && u0[0] == 0 && u0[1] == 0, "centre", "centre moves to (%g,%g), back to (%g,%g)", double(o[0]), double(o[1]), double(u0[0]), double(u0[1]));
    const auto* gc = d->get_coefficients(); auto* gm = d->get_coefficients(); mc::check(gc == gm && gc != nullptr, "coefficients", "no coefficients");
    if (r.kind == 1) { auto* b = dynamic_cast<const BrownCoefficients*>(gc); mc::check(b && b->k1 == r.c[0] && b->k2 == r.c[1] && b->k3 == r.c[2] && b->p1 == r.c[3] && b->p2 == r.c[4], "coefficients", "brown"); }
    if (r.kind == 2) { auto* b = dynamic_cast<const OpenCVCoefficients*>(gc); mc::check(b && b->k1 == r.c[0] && b->k2 == r.c[1] && b->k3 == r.c[2] && b->k4 == r.c[3] && b->k5 == r.c[4] && b->k6 == r.c[5] && b->p1 == r.c[6] && b->p2 == r.c[7] && b->s1 == r.c[8] && b->s2 == r.c[9] && b->s3 == r.c[10] && b->s4 == r.c[11], "coefficients", "opencv"); }
    if (r.kind == 3) { auto* b = dynamic_cast<const OwenCoefficients*>(gc); mc::check(b && b->e1 == r.c[0] && b->e2 == r.c[1] && b->e3 == r.c[2] && b->e4 == r.c[3] && b->e5 == r.c[4] && b->e6 == r.c[5], "coefficients", "owen"); }
    for (float x : xs) for (float y : xs) {
        mc::evaluated(!zero); Pixel p{x, y}; double u, v; r.fwd(double(x), double(y), u, v); Pixel q = d->distort(p);
        if (!std::isfinite(u) || !std::isfinite(v)) continue;
        double den = r.kind == 2 ? std::fabs(1 + RD::radial(r.c[3], r.c[4], r.c[5], double(x) * double(x) + double(y) * double(y))) : 1; if (den < 0.05) { mc::check(std::isfinite(q[0]) && std::isfinite(q[1]), "finite", "point (%g,%g) near the pole becomes (%g,%g)", double(x), double(y), double(q[0]), double(q[1])); continue; }
        double t = 4e-7 * scale(r, double(x), double(y)) / (den * den); mc::check(std::fabs(double(q[0]) - u) < t && std::fabs(double(q[1]) - v) < t, "formula", "point (%g,%g) becomes (%.8g,%.8g), expected (%.8g,%.8g)", double(x), double(y), double(q[0]), double(q[1]), u, v);
        if (zero) { Pixel w = d->undistort(p); mc::check(q[0] == x && q[1] == y && w[0] == x && w[1] == y, "identity", "zero coefficients move (%g,%g) to (%g,%g) and (%g,%g)", double(x), double(y), double(q[0]), double(q[1]), double(w[0]), double(w[1])); }
        // invertible range: contraction along the whole radius
        double c = 0; for (int i = 1; i <= 12; ++i) c = std::max(c, r.contraction(double(x) * i / 10, double(y) * i / 10)); if (!(c < 0.9)) { mc::count("beyond-range"); continue; }
        auto inverse = [&](Distortion<S>& D, double tol, const char* key) {
            Pixel b = D.undistort(Pixel{float(u), float(v)}); mc::check(std::fabs(double(b[0] - x)) < tol && std::fabs(double(b[1] - y)) < tol, key, "point (%g,%g), contraction %.2f: comes back as (%.8g,%.8g)", double(x), double(y), c, double(b[0]), double(b[1]));
            double a, e; if (r.inv(double(x), double(y), a, e) && r.contraction(a, e) < c + 1e-9) { Pixel w = D.undistort(p), f = D.distort(w); mc::check(std::fabs(double(w[0]) - a) < tol && std::fabs(double(w[1]) - e) < tol && std::fabs(double(f[0] - x)) < 2 * tol && std::fabs(double(f[1] - y)) < 2 * tol, key, "point (%g,%g) undistorts to (%.8g,%.8g), expected (%.8g,%.8g)", double(x), double(y), double(w[0]), double(w[1]), a, e); }
            mc::count("inverted"); };
        double fl = 3e-7 * scale(r, double(x), double(y)) / (1 - c);
        if (c < 0.5) { inverse(*d, 3e-6 + fl, "inverse"); inverse(*loose, 2e-3 + fl, "inverse-loose"); }
        inverse(*deep, 1e-6 * c / (1 - c) + 1e-6 + 2 * fl, "inverse-deep");
    }
    mc::outcome(d->get_type_name());
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    try {
    std::vector<float> xs = {-1.f, -0.6f, -0.3f, -0.05f, 0.f, 0.1f, 0.4f, 0.8f}; if (mc::thorough()) xs = {-1.3f, -1.f, -0.8f, -0.6f, -0.45f, -0.3f, -0.15f, -0.05f, -1e-4f, 0.f, 0.02f, 0.1f, 0.25f, 0.4f, 0.55f, 0.7f, 0.9f, 1.2f};
    const double vals[] = {0.3, -0.3, 0.08, -0.08, 0.004};
    for (int kind = 1; kind <= 3; ++kind) {
        int n = kind == 1 ? 5 : kind == 2 ? 12 : 6; auto go = [&](const RD& r) { if (!mc::mine()) return; std::string t; for (int i = 0; i < n; ++i) t += mc::fmt("%g ", r.c[std::size_t(i)]); mc::at("%s coefficients %s", kind == 1 ? "Brown" : kind == 2 ? "OpenCV" : "Owen", t.c_str()); one<RGB>(r, xs); };
        RD z; z.kind = kind; go(z);
        for (int i = 0; i < n; ++i) for (double a : vals) { RD r = z; r.c[std::size_t(i)] = a; go(r); for (int j = i + 1; j < n; ++j) for (double b : vals) { RD s = r; s.c[std::size_t(j)] = b; go(s); if (mc::thorough()) for (int k = j + 1; k < n; ++k) for (double e : {0.1, -0.1}) { RD w = s; w.c[std::size_t(k)] = e; go(w); } } }
        // every sign pattern of all coefficients together
        for (unsigned m = 0; m < (1u << n); ++m) { if (!mc::thorough() && kind == 2 && m % 8) continue; RD r = z; for (int i = 0; i < n; ++i) r.c[std::size_t(i)] = (m >> i & 1 ? -1 : 1) * (0.03 + 0.007 * i); go(r); }
    }
    if (mc::mine()) { mc::at("two independent models"); auto a = make<Visible8>([] { RD r; r.kind = 1; r.c[0] = 0.1; return r; }()), b = make<Visible8>([] { RD r; r.kind = 1; r.c[0] = -0.1; return r; }()); Pixel p = a->distort(Pixel{0.5f, 0.f}), q = b->distort(Pixel{0.5f, 0.f}); mc::evaluated(true); mc::check(std::fabs(p[0] - 0.5125f) < 1e-5f && std::fabs(q[0] - 0.4875f) < 1e-5f, "formula", "%g %g", double(p[0]), double(q[0])); }
    } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); }
    return mc::finish();
}
