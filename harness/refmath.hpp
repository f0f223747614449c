// Reference arithmetic for states, independent of huira's own rotation and transform code.
#pragma once
#include "mc.hpp"
namespace rf {
struct V { double x = 0, y = 0, z = 0; };
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V operator*(double k, V a) { return {k * a.x, k * a.y, k * a.z}; }
inline double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double len(V a) { return std::sqrt(dot(a, a)); }
inline V norm(V a) { return (1 / len(a)) * a; }
inline V mul(V a, V b) { return {a.x * b.x, a.y * b.y, a.z * b.z}; }
struct M { double m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; }; // row-major
inline V operator*(const M& a, V v) { return {a.m[0][0] * v.x + a.m[0][1] * v.y + a.m[0][2] * v.z, a.m[1][0] * v.x + a.m[1][1] * v.y + a.m[1][2] * v.z, a.m[2][0] * v.x + a.m[2][1] * v.y + a.m[2][2] * v.z}; }
inline M operator*(const M& a, const M& b) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
inline M tr(const M& a) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; return r; }
// active rotation by angle about axis (right-handed)
inline M rot(V ax, double ang)
{
    double l = len(ax); if (l == 0 || ang == 0) return M{}; V k = (1 / l) * ax; double c = std::cos(ang), s = std::sin(ang);
    M r; double t = 1 - c;
    double q[3][3] = {{c + k.x * k.x * t, k.x * k.y * t - k.z * s, k.x * k.z * t + k.y * s}, {k.y * k.x * t + k.z * s, c + k.y * k.y * t, k.y * k.z * t - k.x * s}, {k.z * k.x * t - k.y * s, k.z * k.y * t + k.x * s, c + k.z * k.z * t}};
    std::memcpy(r.m, q, sizeof q); return r;
}
inline double diff(const M& a, const M& b) { double d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d = std::max(d, std::fabs(a.m[i][j] - b.m[i][j])); return d; }
struct State { V p; M R; V s{1, 1, 1}; V v, w; }; // position, local-to-parent rotation, scale, velocity, angular velocity (parent axes)
inline State compose(const State& a, const State& b)
{
    State r; V off = a.R * mul(a.s, b.p); r.p = a.p + off; r.R = a.R * b.R; r.s = mul(a.s, b.s); r.v = a.v + a.R * mul(a.s, b.v) + cross(a.w, off); r.w = a.w + a.R * b.w; return r;
}
inline std::string str(V a) { return mc::fmt("(%.12g,%.12g,%.12g)", a.x, a.y, a.z); }
#ifdef HUIRA_REF
template <class T> V from(const huira::Vec3<T>& a) { return {double(a.x), double(a.y), double(a.z)}; }
template <class T> M from(const huira::Rotation<T>& r) // columns are the images of the local axes
{
    M o; huira::Vec3<T> c[3] = {r * huira::Vec3<T>{1, 0, 0}, r * huira::Vec3<T>{0, 1, 0}, r * huira::Vec3<T>{0, 0, 1}};
    for (int j = 0; j < 3; ++j) { o.m[0][j] = double(c[j].x); o.m[1][j] = double(c[j].y); o.m[2][j] = double(c[j].z); } return o;
}
template <class T> State from(const huira::Transform<T>& t) { return {from(t.position), from(t.rotation), from(t.scale), from(t.velocity), from(t.angular_velocity)}; }
inline bool nearv(V a, V b, double rel, double abs) { double d = len(a - b); return d <= abs + rel * std::max(len(a), len(b)); }
inline std::string compare(const State& got, const State& exp, double rel = 1e-9, double abs = 1e-9)
{
    if (!nearv(got.p, exp.p, rel, abs)) return "position " + str(got.p) + " expected " + str(exp.p);
    if (!(diff(got.R, exp.R) <= 1e-9 + rel)) return mc::fmt("rotation differs by %g", diff(got.R, exp.R));
    if (!nearv(got.s, exp.s, rel, abs)) return "scale " + str(got.s) + " expected " + str(exp.s);
    if (!nearv(got.v, exp.v, rel, abs)) return "velocity " + str(got.v) + " expected " + str(exp.v);
    if (!nearv(got.w, exp.w, rel, abs)) return "angular velocity " + str(got.w) + " expected " + str(exp.w);
    return "";
}
#endif
} // namespace rf
