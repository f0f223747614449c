// C07: every constructor of Rotation over a lattice of inputs, in both precisions, against reference matrices.
#include "huira_prelude.hpp"
#include "huira/core/rotation.hpp"
#define HUIRA_REF
#include "huira/core/transform.hpp"
#include "refmath.hpp"
using namespace huira; using namespace rf; using units::Radian;
static double det(const M& m) { return m.m[0][0] * (m.m[1][1] * m.m[2][2] - m.m[1][2] * m.m[2][1]) - m.m[0][1] * (m.m[1][0] * m.m[2][2] - m.m[1][2] * m.m[2][0]) + m.m[0][2] * (m.m[1][0] * m.m[2][1] - m.m[1][1] * m.m[2][0]); }
template <class T> static Mat3<T> gm(const M& m) { Mat3<T> r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[j][i] = T(m.m[i][j]); return r; }
template <class T> static M mg(const Mat3<T>& g) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = double(g[j][i]); return r; }
static bool proper(const M& m, double tol) { return diff(m * tr(m), M{}) <= tol && std::fabs(det(m) - 1) <= tol; }
struct Q { double w, x, y, z; };
static Q quat(V ax, double an) { double l = len(ax); if (l == 0) return {1, 0, 0, 0}; V k = (1 / l) * ax; double s = std::sin(an / 2); return {std::cos(an / 2), k.x * s, k.y * s, k.z * s}; }
static M qmat(Q q) { M r; double m[3][3] = {{1 - 2 * (q.y * q.y + q.z * q.z), 2 * (q.x * q.y - q.w * q.z), 2 * (q.x * q.z + q.w * q.y)}, {2 * (q.x * q.y + q.w * q.z), 1 - 2 * (q.x * q.x + q.z * q.z), 2 * (q.y * q.z - q.w * q.x)}, {2 * (q.x * q.z - q.w * q.y), 2 * (q.y * q.z + q.w * q.x), 1 - 2 * (q.x * q.x + q.y * q.y)}}; std::memcpy(r.m, m, sizeof m); return r; }
template <class T> struct Tst {
    using R = Rotation<T>; const double tol = sizeof(T) == 4 ? 4e-6 : 1e-12; const double id = sizeof(T) == 4 ? 1e-3 : 1e-3;
    // everything a rotation says about itself must describe the one matrix e
    void same(const R& r, const M& e, const char* key)
    {
        M m = from(r); mc::evaluated(true);
        if (!mc::check(proper(m, tol), "proper", "%s: not a proper rotation (det %.9g)", key, det(m))) return;
        mc::check(diff(m, e) <= tol, key, "rotates vectors by another rotation, off by %g", diff(m, e));
        mc::check(diff(mg(r.local_to_parent_matrix()), e) <= tol, "matrix", "%s: local_to_parent_matrix differs", key);
        mc::check(diff(mg(r.parent_to_local_matrix()), tr(e)) <= tol, "matrix-inverse", "%s: parent_to_local_matrix differs", key);
        auto q = r.local_to_parent_quaternion(); auto p = r.parent_to_local_quaternion(); auto s = r.local_to_parent_shuster_quaternion(), t = r.parent_to_local_shuster_quaternion();
        double n = double(q.w) * q.w + double(q.x) * q.x + double(q.y) * q.y + double(q.z) * q.z;
        mc::check(std::fabs(n - 1) <= tol && diff(qmat({q.w, q.x, q.y, q.z}), e) <= 4 * tol, "quaternion", "%s: local_to_parent_quaternion differs", key);
        mc::check(diff(qmat({p.w, p.x, p.y, p.z}), tr(e)) <= 4 * tol, "quaternion-inverse", "%s: parent_to_local_quaternion differs", key);
        mc::check(s[0] == q.x && s[1] == q.y && s[2] == q.z && s[3] == q.w, "shuster", "%s: Shuster form is not (x,y,z,w) of the quaternion", key);
        mc::check(diff(qmat({t[3], t[0], t[1], t[2]}), tr(e)) <= 4 * tol, "shuster-inverse", "%s: parent_to_local Shuster form differs", key);
        V x = from(r.x_axis()), y = from(r.y_axis()), z = from(r.z_axis());
        mc::check(nearv(x, e * V{1, 0, 0}, 0, tol) && nearv(y, e * V{0, 1, 0}, 0, tol) && nearv(z, e * V{0, 0, 1}, 0, tol), "axes", "%s: axes differ", key);
        R i = r.inverse(); mc::check(diff(from(i), tr(e)) <= tol, "inverse", "%s: inverse is not the transpose", key);
        mc::check(diff(from(r * i), M{}) <= tol && diff(from(i * r), M{}) <= tol, "undo", "%s: inverse does not undo it", key);
        V v{0.3, -1.25, 2}; Vec3<T> g{T(v.x), T(v.y), T(v.z)};
        mc::check(nearv(from(r * g), e * v, 0, 4 * tol) && nearv(from(i * (r * g)), v, 0, 4 * tol), "apply", "%s: vector rotation differs", key);
        // constructing again from each representation
        mc::check(diff(from(R::from_local_to_parent(r.local_to_parent_matrix())), e) <= 4 * tol && diff(from(R::from_parent_to_local(r.parent_to_local_matrix())), e) <= 4 * tol && diff(from(R::from_local_to_parent(q)), e) <= 8 * tol && diff(from(R::from_parent_to_local(p)), e) <= 8 * tol && diff(from(R::from_local_to_parent(s)), e) <= 8 * tol && diff(from(R::from_parent_to_local(t)), e) <= 8 * tol && diff(from(R::from_basis_vectors(r.x_axis(), r.y_axis(), r.z_axis())), e) <= 4 * tol, "roundtrip", "%s: reading a representation back gives another rotation", key);
        Rotation<double> d = static_cast<Rotation<double>>(r); Rotation<float> f = static_cast<Rotation<float>>(r);
        mc::check(diff(from(d), e) <= tol && diff(from(f), e) <= 4e-6, "cast", "%s: precision cast gives another rotation", key);
        for (char c : r.to_string()) if (c == 'n') { mc::check(false, "text", "%s: text form is not a number", key); break; }
    }
    template <class F> void refuse_or_proper(const char* key, F f, const M* e = nullptr) // inputs that are not rotations
    {
        R r; bool t = mc::throws([&] { r = f(); }); mc::evaluated(true); M m = from(r);
        mc::check(t || proper(m, sizeof(T) == 4 ? 2e-3 : 1e-6), key, "accepted and turned into a non-rotation (det %.9g, off by %g)", det(m), diff(m * tr(m), M{}));
        if (!t && e) mc::check(diff(m, *e) < 1e-2, "normalised", "%s: accepted but far from the rotation given", key);
    }
    template <class F> void refuse(const char* key, F f) { R r; mc::evaluated(true); mc::check(mc::throws([&] { r = f(); }), key, "must be refused"); }
    static std::vector<V> axes() { std::vector<V> a; for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) a.push_back({double(x), double(y), double(z)}); a.push_back({1e-3, 5, -2}); a.push_back({0.2, 0.1, 1e3}); a.push_back({-3, 1e-5, 0}); return a; }
    static std::vector<double> angles() { std::vector<double> a; for (int d = -390; d <= 390; d += mc::thorough() ? 5 : 15) a.push_back(d * M_PI / 180); for (double s : {1e-9, -1e-9, 1e-5, M_PI - 1e-7, M_PI + 1e-7, -M_PI + 1e-4, 2 * M_PI - 1e-6, 1.0, 25.0}) a.push_back(s); return a; }
    void run(const char* name)
    {
        for (V a : axes()) for (double an : angles()) {
            if (!mc::mine()) continue; mc::at("%s axis %s angle %.9g", name, str(a).c_str(), an);
            Vec3<T> ax{T(a.x), T(a.y), T(a.z)}; M e = rot(a, an); Q q = quat(a, an);
            same(R::from_local_to_parent(ax, Radian{an}), e, "axis-angle"); same(R::from_parent_to_local(ax, Radian{an}), tr(e), "axis-angle-passive");
            for (int sg : {1, -1}) { // both signs of a quaternion are the same rotation
                Quaternion<T> hq(T(sg * q.w), T(sg * q.x), T(sg * q.y), T(sg * q.z)); ShusterQuaternion<T> sq(T(sg * q.x), T(sg * q.y), T(sg * q.z), T(sg * q.w));
                same(R::from_local_to_parent(hq), e, "from-quaternion"); same(R::from_parent_to_local(hq), tr(e), "from-quaternion-passive");
                same(R::from_local_to_parent(sq), e, "from-shuster"); same(R::from_parent_to_local(sq), tr(e), "from-shuster-passive");
                for (double k : {0.0, 0.5, 2.0, 1.0001}) { Quaternion<T> z(T(k * hq.w), T(k * hq.x), T(k * hq.y), T(k * hq.z)); refuse_or_proper("scaled-quaternion", [&] { return R::from_local_to_parent(z); }); refuse_or_proper("scaled-quaternion", [&] { return R::from_parent_to_local(z); }); }
            }
            same(R::from_local_to_parent(gm<T>(e)), e, "from-matrix"); same(R::from_parent_to_local(gm<T>(e)), tr(e), "from-matrix-passive");
            same(R::from_basis_vectors(Vec3<T>{T(e.m[0][0]), T(e.m[1][0]), T(e.m[2][0])}, Vec3<T>{T(e.m[0][1]), T(e.m[1][1]), T(e.m[2][1])}, Vec3<T>{T(e.m[0][2]), T(e.m[1][2]), T(e.m[2][2])}), e, "from-axes");
            // damage: scaled, reflected, sheared, slightly off, one entry replaced
            for (double k : {0.0, -1.0, 0.9, 1.1, 2.0, 1e20}) { M d = e; for (auto& r : d.m) for (double& x : r) x *= k; refuse("scaled-matrix", [&] { return R::from_local_to_parent(gm<T>(d)); }); }
            for (int c = 0; c < 3; ++c) { M d = e; for (int r = 0; r < 3; ++r) d.m[r][c] *= -1; refuse("reflection", [&] { return R::from_local_to_parent(gm<T>(d)); }); refuse("reflection", [&] { return R::from_parent_to_local(gm<T>(d)); }); }
            M off = e; off.m[0][1] += 1e-4; off.m[2][2] -= 1e-4; refuse_or_proper("slightly-off", [&] { return R::from_local_to_parent(gm<T>(off)); }, &e);
            for (int i = 0; i < 9; ++i) for (double bad : {0.0, 7.0, -1.0, double(NAN), double(INFINITY), -double(INFINITY), 1e30}) {
                M d = e; d.m[i / 3][i % 3] = bad; if (std::isfinite(bad)) refuse_or_proper("damaged-matrix", [&] { return R::from_local_to_parent(gm<T>(d)); }); else { refuse("nonfinite-matrix", [&] { return R::from_local_to_parent(gm<T>(d)); }); refuse("nonfinite-matrix", [&] { return R::from_parent_to_local(gm<T>(d)); }); }
            }
        }
        // elementary matrices and Euler sequences
        const double EA[] = {0, M_PI / 2, -M_PI / 2, 0.5, -2.2, M_PI, 1e-6}; V unit[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; const char* spell[3] = {"xyz", "XYZ", "123"};
        for (double a : EA) { if (!mc::mine()) continue; mc::at("%s elementary %g", name, a); M x = rot(unit[0], a), y = rot(unit[1], a), z = rot(unit[2], a); mc::evaluated(true);
            mc::check(diff(mg(R::local_to_parent_x(Radian{a})), x) <= tol && diff(mg(R::local_to_parent_y(Radian{a})), y) <= tol && diff(mg(R::local_to_parent_z(Radian{a})), z) <= tol, "elementary", "active elementary matrix differs");
            mc::check(diff(mg(R::parent_to_local_x(Radian{a})), tr(x)) <= tol && diff(mg(R::parent_to_local_y(Radian{a})), tr(y)) <= tol && diff(mg(R::parent_to_local_z(Radian{a})), tr(z)) <= tol, "elementary-passive", "passive elementary matrix differs"); }
        for (int sq = 0; sq < 27; ++sq) for (double a : EA) for (double b : EA) for (double c : EA) {
            if (!mc::mine()) continue; int ix[3] = {sq / 9, sq / 3 % 3, sq % 3}; M m0 = rot(unit[ix[0]], a), m1 = rot(unit[ix[1]], b), m2 = rot(unit[ix[2]], c);
            for (auto sp : spell) { std::string s; for (int i : ix) s += sp[i]; mc::at("%s euler %s %g %g %g", name, s.c_str(), a, b, c);
                if (sp != spell[0] && !(a == 0.5 && b == -2.2)) continue;
                same(R::extrinsic_euler_angles(Radian{a}, Radian{b}, Radian{c}, s), m2 * (m1 * m0), "extrinsic"); same(R::intrinsic_euler_angles(Radian{a}, Radian{b}, Radian{c}, s), m0 * (m1 * m2), "intrinsic"); }
        }
        for (const char* s : {"", "X", "XY", "XYZX", "XYW", "X Y", "0YZ", "XY4"}) { mc::at("%s sequence '%s'", name, s); refuse("sequence", [&] { return R::extrinsic_euler_angles(Radian{0.1}, Radian{0.2}, Radian{0.3}, s); }); refuse("sequence", [&] { return R::intrinsic_euler_angles(Radian{0.1}, Radian{0.2}, Radian{0.3}, s); }); }
        // zero, tiny, huge and non-finite axes and angles
        for (V a : {V{0, 0, 0}, V{1e-30, 0, 0}, V{1e30, 1e30, 0}, V{NAN, 0, 1}, V{INFINITY, 0, 0}}) for (double an : {0.0, 1.0, double(NAN), double(INFINITY)}) { mc::at("%s odd axis %s %g", name, str(a).c_str(), an); refuse_or_proper("odd-axis", [&] { return R::from_local_to_parent(Vec3<T>{T(a.x), T(a.y), T(a.z)}, Radian{an}); }); }
        mc::at("%s zero axis", name); same(R::from_local_to_parent(Vec3<T>{0, 0, 0}, Radian{1.0}), M{}, "zero-axis");
        for (int k = 0; k < 4; ++k) for (double bad : {double(NAN), double(INFINITY)}) { double w[4] = {0.5, 0.5, 0.5, 0.5}; w[k] = bad; mc::at("%s quaternion entry %d %g", name, k, bad); refuse("nonfinite-quaternion", [&] { return R::from_local_to_parent(Quaternion<T>(T(w[0]), T(w[1]), T(w[2]), T(w[3]))); }); refuse("nonfinite-quaternion", [&] { return R::from_parent_to_local(Quaternion<T>(T(w[0]), T(w[1]), T(w[2]), T(w[3]))); }); }
        // signed permutations: half are rotations, half reflections
        int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        std::vector<std::pair<R, M>> G;
        for (auto& p : perm) for (int sg = 0; sg < 8; ++sg) {
            M m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.m[i][j] = p[i] == j ? (sg >> i & 1 ? -1 : 1) : 0;
            mc::at("%s signed permutation %d%d%d/%d", name, p[0], p[1], p[2], sg); if (det(m) < 0) { refuse("reflection", [&] { return R::from_local_to_parent(gm<T>(m)); }); continue; }
            R r = R::from_local_to_parent(gm<T>(m)); same(r, m, "from-matrix"); G.push_back({r, m});
        }
        for (V a : axes()) for (double an : {0.7, -2.9}) G.push_back({R::from_local_to_parent(Vec3<T>{T(a.x), T(a.y), T(a.z)}, Radian{an}), rot(a, an)});
        for (std::size_t i = 0; i < G.size(); ++i) for (std::size_t j = 0; j < G.size(); ++j) {
            if (!mc::mine()) continue; mc::at("%s compose %zu %zu", name, i, j); R ab = G[i].first * G[j].first; M e = G[i].second * G[j].second; mc::evaluated(true);
            mc::check(diff(from(ab), e) <= tol && proper(from(ab), tol), "compose", "product differs from the matrix product by %g", diff(from(ab), e));
            R c = G[i].first; c *= G[j].first; mc::check(diff(from(c), e) <= tol, "compose-assign", "*= differs from *");
            mc::check(diff(from(ab.inverse()), from(G[j].first.inverse() * G[i].first.inverse())) <= tol, "inverse-product", "inverse of a product is not the reversed product of inverses");
            std::size_t step = mc::thorough() ? 1 : 5; for (std::size_t k = (i + j) % step; k < G.size(); k += step) mc::check(diff(from(ab * G[k].first), from(G[i].first * (G[j].first * G[k].first))) <= tol, "associative", "(ab)c differs from a(bc) with c=%zu", k);
        }
        // a refused product or damaged value must not change the rotation: long products stay proper
        R acc; M racc; for (int i = 0; i < 20000; ++i) { std::size_t k = std::size_t(i) * 7 % G.size(); acc *= G[k].first; racc = racc * G[k].second; }
        mc::at("%s product of 20000", name); mc::evaluated(true); mc::check(proper(from(acc), tol), "long-product", "a long product is no longer a proper rotation"); mc::check(diff(from(acc), racc) <= 2000 * tol, "long-product", "a long product drifted by %g", diff(from(acc), racc));
        R self = G[40].first; self *= self; mc::check(diff(from(self), G[40].second * G[40].second) <= tol, "self-assign", "r *= r differs from r*r");
    }
};
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    Tst<double>{}.run("double"); Tst<float>{}.run("float");
    mc::sample("double axis (1,2,3) angle 0.7 through every constructor and representation");
    return mc::finish();
}
