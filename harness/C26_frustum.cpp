// C26: every point and every triangle over a lattice that spans the faces, edges and corners of several frusta: containment and clipping against double-precision geometry.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/render/frustum.hpp"
#include "mc.hpp"
using namespace huira;
using Sp = RGB; using D3 = std::array<double, 3>;
static D3 d3(const Vec3<float>& v) { return {double(v.x), double(v.y), double(v.z)}; }
static D3 sub(const D3& a, const D3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static D3 mix(const D3& a, const D3& b, double t) { return {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])}; }
static double dot(const D3& a, const D3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static D3 cross(const D3& a, const D3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double len(const D3& a) { return std::sqrt(dot(a, a)); }
// attributes as linear functions of the barycentric coordinates, so that interpolation can be checked
static Triangle<Sp> tri(const std::array<Vec3<float>, 3>& p, bool tan)
{
    Triangle<Sp> t; std::array<Tangent, 3> g;
    for (std::size_t i = 0; i < 3; ++i) { auto& v = t.vertices[i]; float k = float(i); v.position = p[i]; v.albedo = Sp(0.1f + 0.3f * k); v.albedo[1] = i == 0 ? 1.f : 0.f; v.normal = {i == 0 ? 1.f : 0.f, i == 1 ? 1.f : 0.f, i == 2 ? 1.f : 0.f}; v.uv = {i == 1 ? 1.f : 0.f, i == 2 ? 1.f : 0.f}; g[i].tangent = {k, 1 - k, 2 * k}; g[i].bitangent = {3 - k, k * k, -k}; }
    if (tan) t.tangents = g;
    return t;
}
static double refarea(std::vector<D3> p, const std::vector<D3>& ns)
{
    for (auto& n : ns) { std::vector<D3> o; for (std::size_t i = 0; i < p.size(); ++i) { const D3 &a = p[i], &b = p[(i + 1) % p.size()]; double x = dot(n, a), y = dot(n, b); if (x >= 0) o.push_back(a); if ((x >= 0) != (y >= 0)) o.push_back(mix(a, b, x / (x - y))); } p = o; if (p.size() < 3) return 0; }
    D3 s{}; for (std::size_t i = 1; i + 1 < p.size(); ++i) { D3 c = cross(sub(p[i], p[0]), sub(p[i + 1], p[0])); for (int k = 0; k < 3; ++k) s[std::size_t(k)] += c[std::size_t(k)]; } return len(s) / 2;
}
struct Fr { const char* name; std::vector<Vec3<float>> n; };
static std::vector<Fr> frusta()
{
    auto nz = [](float x, float y, float z) { return glm::normalize(Vec3<float>{x, y, z}); }; std::vector<Fr> f;
    f.push_back({"camera 90 deg", {{0, 0, 1}, nz(1, 0, 1), nz(-1, 0, 1), nz(0, 1, 1), nz(0, -1, 1)}}); f.push_back({"asymmetric", {{0, 0, 1}, nz(1, 0, 0.3f), nz(-1, 0, 1.4f), nz(0, 1, 0.05f), nz(0, -1, 0.6f)}}); f.push_back({"looking down", {{0, 0, -1}, nz(1, 0, -0.7f), nz(-1, 0, -0.7f), nz(0, 1, -0.5f), nz(0, -1, -0.5f)}});
    f.push_back({"half space", {nz(0.3f, -0.2f, 1)}}); f.push_back({"wedge", {{1, 0, 0}, nz(-0.2f, 1, 0.1f)}}); f.push_back({"no planes", {}}); f.push_back({"empty", {{0, 0, 1}, nz(0, 0.001f, -1), {0, -1, 0}, nz(1, 0, 0), nz(-1, 0, 0)}}); f.push_back({"oblique 6", {nz(0, 0, 1), nz(1, 0.1f, 0.8f), nz(0.4f, 1, 0.8f), nz(-0.6f, 0.9f, 0.9f), nz(-0.8f, -0.5f, 1), nz(0.3f, -1, 0.9f)}});
    return f;
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    try {
    auto fs_ = frusta(); std::vector<Vec3<float>> P = {{0, 0, 1}, {0.4f, -0.3f, 1}, {2, 0.1f, 1}, {-2, 0.2f, 1.1f}, {0.1f, 2.5f, 1}, {0.3f, -2, 0.9f}, {0, 0.2f, -1}, {3, 3, 0.5f}, {-1, -1, 2}, {0.2f, 0.1f, 8}, {-4, 3, -2}, {0, 0, 0}, {1, 0.5f, 0}};
    if (mc::thorough()) for (auto& q : std::vector<Vec3<float>>{{1, 1, 1}, {-1, 0.5f, 1}, {0.3f, 0, -0.3f}, {5, -1, 3}, {-0.2f, -0.2f, 0.2f}, {0, 6, 2}, {-3, -3, -3}, {0.01f, 0.01f, 0.01f}, {100, -50, 70}}) P.push_back(q);
    for (auto& f : fs_) {
        Frustum<Sp> F(f.n); std::vector<D3> ns; for (auto& n : f.n) ns.push_back(d3(n)); auto g = [&](const D3& p) { double m = 1e300; for (auto& n : ns) m = std::min(m, dot(n, p)); return m; };
        if (mc::mine()) { mc::at("%s planes", f.name); mc::check(F.plane_count() == f.n.size() && F.plane_normals() == f.n, "planes", "%zu planes", F.plane_count()); if (f.n.empty()) { Frustum<Sp> e; mc::check(e.plane_count() == 0 && e.contains({1, 2, -3}), "planes", "default frustum"); }
            for (int x = -6; x <= 6; ++x) for (int y = -6; y <= 6; ++y) for (int z = -5; z <= 5; ++z) for (float s : {1.f, 1e-5f, 1e6f}) { Vec3<float> q{float(x) * 0.37f * s, float(y) * 0.29f * s, float(z) * 0.41f * s}; D3 d = d3(q); double m = g(d); mc::at("%s point (%g,%g,%g)", f.name, d[0], d[1], d[2]); mc::evaluated(!f.n.empty()); if (std::fabs(m) > 1e-6 * len(d) || f.n.empty()) mc::check(F.contains(q) == (m >= 0 || f.n.empty()), "contains", "reported %d, smallest plane distance %g", int(F.contains(q)), m); }
            mc::check(F.contains({0, 0, 0}), "contains", "the apex is outside"); for (auto& n : f.n) { Vec3<float> a = std::fabs(n.x) == 1.f ? Vec3<float>{0, 3, 0} : Vec3<float>{4, 0, 0}; if (n.x == 0 || n.x == 1 || n.x == -1) { double m = g(d3(a)); if (m == 0) mc::check(F.contains(a), "contains-boundary", "a point on the plane is outside"); } } }
        for (std::size_t i = 0; i < P.size(); ++i) for (std::size_t j = 0; j < P.size(); ++j) { if (i == j || !mc::mine()) continue; for (std::size_t k = 0; k < P.size(); ++k) {
            if (k == i || k == j) continue; for (float sc : {1.f, 300.f}) { if (sc != 1.f && (i + j + k) % 5) continue;
            std::array<Vec3<float>, 3> p{P[i] * sc, P[j] * sc, P[k] * sc}; bool tan = (i + j) % 2; auto T = tri(p, tan); std::vector<D3> dp{d3(p[0]), d3(p[1]), d3(p[2])}; D3 N = cross(sub(dp[1], dp[0]), sub(dp[2], dp[0])); double A = len(N) / 2, S = std::max({len(dp[0]), len(dp[1]), len(dp[2])}), tol = 3e-6 * S; if (A < 1e-3 * S * S) continue;
            mc::at("%s triangle %zu,%zu,%zu x%g", f.name, i, j, k, double(sc)); auto out = F.clip_triangle(T); double want = refarea(dp, ns), got = 0; mc::evaluated(want > 0 && want < A * 0.999);
            std::vector<std::array<D3, 3>> bs; // barycentric corners of the pieces
            for (auto& o : out) {
                mc::check(o.tangents.has_value() == tan, "tangents", "tangents %s", o.tangents ? "appear" : "are lost"); std::array<D3, 3> bb; D3 q[3];
                for (std::size_t v = 0; v < 3; ++v) {
                    q[v] = d3(o.vertices[v].position); mc::check(ns.empty() || g(q[v]) > -tol, "inside-frustum", "vertex (%g,%g,%g) is outside by %g", q[v][0], q[v][1], q[v][2], -g(q[v]));
                    D3 r = sub(q[v], dp[0]), e1 = sub(dp[1], dp[0]), e2 = sub(dp[2], dp[0]); double b1 = dot(cross(r, e2), N) / dot(N, N), b2 = dot(cross(e1, r), N) / dot(N, N), b0 = 1 - b1 - b2, off = std::fabs(dot(r, N)) / len(N), bt = tol * S / A; bb[v] = {b0, b1, b2};
                    mc::check(off < tol && b0 > -bt && b1 > -bt && b2 > -bt, "inside-triangle", "vertex (%g,%g,%g) has barycentrics %g %g %g, %g off the plane", q[v][0], q[v][1], q[v][2], b0, b1, b2, off);
                    const auto& w = o.vertices[v]; bt += 1e-5; mc::check(std::fabs(double(w.normal.x) - b0) < bt && std::fabs(double(w.normal.y) - b1) < bt && std::fabs(double(w.normal.z) - b2) < bt && std::fabs(double(w.uv.x) - b1) < bt && std::fabs(double(w.uv.y) - b2) < bt && std::fabs(double(w.albedo[0]) - (0.1 + 0.3 * (b1 + 2 * b2))) < bt && std::fabs(double(w.albedo[1]) - b0) < bt, "attributes", "vertex with barycentrics %g %g %g carries normal (%g,%g,%g) uv (%g,%g) albedo %g", b0, b1, b2, double(w.normal.x), double(w.normal.y), double(w.normal.z), double(w.uv.x), double(w.uv.y), double(w.albedo[0]));
                    if (tan && o.tangents) { const auto& z = (*o.tangents)[v]; double m1 = b1 + 2 * b2, m2 = b1 + 4 * b2; bt *= 4; mc::check(std::fabs(double(z.tangent.x) - m1) < bt && std::fabs(double(z.tangent.y) - (1 - m1)) < bt && std::fabs(double(z.tangent.z) - 2 * m1) < bt && std::fabs(double(z.bitangent.x) - (3 - m1)) < bt && std::fabs(double(z.bitangent.y) - m2) < bt && std::fabs(double(z.bitangent.z) + m1) < bt, "tangents", "barycentrics %g %g %g carry (%g,%g,%g)", b0, b1, b2, double(z.tangent.x), double(z.tangent.y), double(z.tangent.z)); }
                }
                D3 M = cross(sub(q[1], q[0]), sub(q[2], q[0])); got += len(M) / 2; bs.push_back(bb); mc::check(dot(M, N) > -tol * S * len(N), "winding", "a piece is turned over");
            }
            double at = 1e-5 * S * S + 1e-5 * A; mc::check(std::fabs(got - want) < at, "area", "clipped area %.8g, expected %.8g of %.8g", got, want, A);
            if (!ns.empty() && g(dp[0]) > tol && g(dp[1]) > tol && g(dp[2]) > tol) mc::check(out.size() == 1 && std::fabs(got - A) < at, "contained", "a contained triangle becomes %zu", out.size());
            bool all_out = false; for (auto& n : ns) all_out |= dot(n, dp[0]) < -tol && dot(n, dp[1]) < -tol && dot(n, dp[2]) < -tol; if (all_out) mc::check(out.empty(), "outside", "%zu pieces of a triangle behind a plane", out.size());
            const int G = 7; for (int a = 0; a <= G; ++a) for (int b = 0; a + b <= G; ++b) { // coverage
                double b1 = (a + 0.31) / (G + 1.1), b2 = (b + 0.23) / (G + 1.1), b0 = 1 - b1 - b2; if (b0 < 0.002) continue; D3 x{}; for (std::size_t c = 0; c < 3; ++c) x[c] = b0 * dp[0][c] + b1 * dp[1][c] + b2 * dp[2][c]; double m = ns.empty() ? 1e9 : g(x); if (std::fabs(m) < 4 * tol) continue; int strict = 0, loose = 0;
                for (auto& q : bs) { auto cr = [&](const D3& u, const D3& v) { return (u[1] - b1) * (v[2] - b2) - (v[1] - b1) * (u[2] - b2); }; double c0 = cr(q[0], q[1]), c1 = cr(q[1], q[2]), c2 = cr(q[2], q[0]), e = 4 * tol * S / A; strict += c0 > e && c1 > e && c2 > e; loose += c0 > -e && c1 > -e && c2 > -e; }
                mc::check(m > 0 ? (loose >= 1 && strict <= 1) : strict == 0, m > 0 ? "lost" : "extra", "point with barycentrics %.3f %.3f %.3f, plane distance %g, is in %d pieces", b0, b1, b2, m, m > 0 ? loose : strict);
            }
            mc::outcome(mc::fmt("%s %zu", f.name, out.size()));
        } } }
    }
    } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); }
    return mc::finish();
}
