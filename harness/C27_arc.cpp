// C27: every sample tuple of length 1..6 over a position lattice around several frusta (wide to arc-seconds, near to far): curve values against an independent double-precision polynomial or spline, plane crossings and clipping against a dense scan.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/render/frustum.hpp"
#include "huira/render/trajectory_arc.hpp"
#include "mc.hpp"
using namespace huira;
using Sp = RGB; using D3 = std::array<double, 3>;
struct RefCurve { // per component second derivatives of the natural spline, dense Gaussian elimination
    std::vector<D3> y, M; 
    explicit RefCurve(const std::vector<Vec3<float>>& s)
    {
        for (auto& v : s) y.push_back({double(v.x), double(v.y), double(v.z)}); std::size_t n = y.size(); M.assign(n, D3{}); if (n <= 3) return; double h = 1.0 / double(n - 1); std::size_t m = n - 2;
        for (std::size_t c = 0; c < 3; ++c) { std::vector<std::vector<double>> A(m, std::vector<double>(m + 1, 0)); for (std::size_t i = 0; i < m; ++i) { A[i][i] = 4; if (i) A[i][i - 1] = 1; if (i + 1 < m) A[i][i + 1] = 1; A[i][m] = 6 / (h * h) * (y[i + 2][c] - 2 * y[i + 1][c] + y[i][c]); } for (std::size_t i = 0; i < m; ++i) for (std::size_t k = 0; k < m; ++k) if (k != i) { double f = A[k][i] / A[i][i]; for (std::size_t j = i; j <= m; ++j) A[k][j] -= f * A[i][j]; } for (std::size_t i = 0; i < m; ++i) M[i + 1][c] = A[i][m] / A[i][i]; }
    }
    D3 at(double t) const
    {
        std::size_t n = y.size(); D3 r{}; for (std::size_t c = 0; c < 3; ++c) { if (n == 1) r[c] = y[0][c]; else if (n == 2) r[c] = (1 - t) * y[0][c] + t * y[1][c]; else if (n == 3) r[c] = y[0][c] * (1 - 2 * t) * (1 - t) + y[1][c] * 4 * t * (1 - t) + y[2][c] * t * (2 * t - 1);
            else { double h = 1.0 / double(n - 1); std::size_t i = std::min(n - 2, std::size_t(t / h)); double a = (double(i + 1) * h - t) / h, b = 1 - a; r[c] = a * y[i][c] + b * y[i + 1][c] + ((a * a * a - a) * M[i][c] + (b * b * b - b) * M[i + 1][c]) * h * h / 6; } }
        return r;
    }
};
static double dot(const Vec3<float>& n, const D3& p) { return double(n.x) * p[0] + double(n.y) * p[1] + double(n.z) * p[2]; }
struct Fr { const char* name; double w, dist; bool down; };
static void one(const Frustum<Sp>& F, const std::vector<Vec3<float>>& s, int dense)
{
    TrajectoryArc arc(s); RefCurve R(s); const auto& N = F.plane_normals(); double big = 0; for (auto& v : s) big = std::max(big, double(glm::length(v))); const double tol = (s.size() > 3 ? 3e-6 : 1.5e-6) * big; std::size_t n = s.size();
    mc::check(arc.sample_count() == n, "count", "%zu samples", arc.sample_count());
    for (std::size_t i = 0; i < n; ++i) { float t = n == 1 ? 0.f : float(i) / float(n - 1); Vec3<float> p = arc.evaluate(t); mc::check(double(glm::length(p - s[i])) < tol, "sample", "at t=%g the curve is at (%.8g,%.8g,%.8g), sample (%.8g,%.8g,%.8g)", double(t), double(p.x), double(p.y), double(p.z), double(s[i].x), double(s[i].y), double(s[i].z)); }
    for (int i = 0; i <= 24; ++i) { double t = i / 24.0; D3 e = R.at(t); Vec3<float> p = arc.evaluate(float(t)); double d = std::max({std::fabs(e[0] - double(p.x)), std::fabs(e[1] - double(p.y)), std::fabs(e[2] - double(p.z))}); mc::check(d < 3 * tol, "curve", "at t=%g the curve is off by %g of %g", t, d, big); }
    std::vector<double> g(std::size_t(dense + 1), 1e300); std::vector<D3> pts; for (int i = 0; i <= dense; ++i) pts.push_back(R.at(double(i) / dense)); const double m = 6 * tol;
    for (auto& q : N) {
        auto cr = arc.find_plane_crossings(q); std::vector<double> v; for (int i = 0; i <= dense; ++i) { v.push_back(dot(q, pts[std::size_t(i)])); g[std::size_t(i)] = std::min(g[std::size_t(i)], v.back()); }
        for (std::size_t i = 0; i < cr.size(); ++i) { mc::check(cr[i] >= 0 && cr[i] <= 1 && (i == 0 || cr[i] >= cr[i - 1]), "crossings-sorted", "crossing %zu at %g", i, double(cr[i])); double z = dot(q, R.at(double(cr[i]))); mc::check(std::fabs(z) < m, "crossing-false", "no crossing of plane (%g,%g,%g) at t=%.8g: distance %g", double(q.x), double(q.y), double(q.z), double(cr[i]), z); }
        int last = -1; for (int i = 0; i <= dense; ++i) { if (std::fabs(v[std::size_t(i)]) < m) continue; if (last >= 0 && (v[std::size_t(last)] < 0) != (v[std::size_t(i)] < 0)) { double a = double(last) / dense - 1e-4, b = double(i) / dense + 1e-4; bool f = false; for (float c : cr) f = f || (double(c) >= a && double(c) <= b); mc::check(f, "crossing-lost", "plane (%g,%g,%g) is crossed between t=%g and %g", double(q.x), double(q.y), double(q.z), a, b); mc::count("crossings"); } last = i; }
    }
    auto iv = F.clip_arc(arc); double prev = -1; mc::count("arcs"); for (auto& [a, b] : iv) { mc::check(a >= 0 && b <= 1 && a < b && double(a) >= prev, "intervals", "interval [%g,%g] after %g", double(a), double(b), prev); prev = double(b); }
    bool any = false; for (int i = 0; i <= dense; ++i) { double t = double(i) / dense; if (std::fabs(g[std::size_t(i)]) < m && !N.empty()) continue; bool in = false; for (auto& [a, b] : iv) in = in || (t >= double(a) && t <= double(b)); bool want = N.empty() || g[std::size_t(i)] > 0; any = any || want; mc::check(in == want, want ? "time-lost" : "time-invented", "at t=%g the curve is %s, %zu intervals, plane distance %g", t, want ? "inside" : "outside", iv.size(), g[std::size_t(i)]); }
    mc::evaluated(any && !iv.empty() && !(iv.size() == 1 && iv[0].first == 0 && iv[0].second == 1)); mc::outcome(mc::fmt("%zu samples %zu intervals", n, iv.size()));
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    try {
    const int dense = mc::thorough() ? 600 : 240;
    for (const Fr& f : {Fr{"wide", 1, 1, false}, Fr{"telescope", 0.01, 1, true}, Fr{"arc-seconds", 3e-4, 1, false}, Fr{"far", 0.2, 1e7, false}}) {
        auto nz = [](double x, double y, double z) { return glm::normalize(Vec3<float>{float(x), float(y), float(z)}); }; double z = f.down ? -1 : 1; Frustum<Sp> F({{0, 0, float(z)}, nz(1, 0, f.w * z), nz(-1, 0, f.w * z), nz(0, 1, f.w * 0.6 * z), nz(0, -1, f.w * 0.6 * z)});
        // positions in units of the half width; the last two are behind the camera or far to the side
        auto at = [&](double u, double v, double d) { return Vec3<float>{float(u * f.w * f.dist), float(v * f.w * f.dist * 0.6), float(d * z * f.dist)}; };
        std::vector<Vec3<float>> P = {at(0, 0.1, 1), at(-1.7, 0.2, 1), at(1.4, -0.3, 1), at(0.2, 1.9, 1), at(0.8, -0.9, 1), at(-0.3, -1.3, 1), at(2.5, 2.2, 1), at(0.4, 0.3, -0.8), at(-0.95, 0.5, 1.3)};
        for (std::size_t n = 1; n <= 6; ++n) {
            std::size_t K = n <= 4 ? P.size() : n == 5 ? (mc::thorough() ? 7 : 5) : (mc::thorough() ? 5 : 4); std::size_t total = 1; for (std::size_t i = 0; i < n; ++i) total *= K;
            for (std::size_t c = 0; c < total; ++c) { if (!mc::mine()) continue; std::vector<Vec3<float>> s; std::size_t q = c; std::string t; for (std::size_t i = 0; i < n; ++i) { s.push_back(P[q % K]); t += mc::fmt("%zu ", q % K); q /= K; } if (n == 4 && !mc::thorough() && &f && c % 3 == 2 && f.w == 0.2) continue; mc::at("%s samples %s", f.name, t.c_str()); one(F, s, dense); }
        }
        // almost straight, almost uniform tracks (the common case for a star during an exposure), through and along the border
        for (std::size_t n = 2; n <= 9; ++n) for (double a : {-1.5, -1.001, -0.2, 0.0}) for (double b : {-0.999, 0.3, 1.2, 3.0}) for (double bend : {0.0, 1e-6, 1e-3, 0.2}) for (double v : {0.1, 0.97, 1.0, 1.02}) { if (!mc::mine()) continue; std::vector<Vec3<float>> s; for (std::size_t i = 0; i < n; ++i) { double t = double(i) / double(n - 1); s.push_back(at(a + (b - a) * t, v + bend * t * (1 - t), 1)); } mc::at("%s track of %zu from %g to %g at %g bend %g", f.name, n, a, b, v, bend); one(F, s, dense); }
    }
    if (mc::mine()) { mc::at("no planes, one sample, no sample"); Frustum<Sp> F; one(F, {{1, 2, 3}, {-1, 0, -5}}, 50); mc::check(mc::throws([] { TrajectoryArc a(std::vector<Vec3<float>>{}); }), "empty", "accepted"); }
    } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); }
    return mc::finish();
}
