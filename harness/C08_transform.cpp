// C08: transforms over a lattice, alone, in pairs and in triples, against reference kinematics and matrices.
#include "huira_prelude.hpp"
#include "huira/core/transform.hpp"
#define HUIRA_REF
#include "refmath.hpp"
using namespace huira; using namespace rf; using units::Radian;
template <class T> struct Tst {
    using Tr = Transform<T>; const double tol = sizeof(T) == 4 ? 2e-5 : 1e-11; std::vector<Tr> L; std::vector<State> E;
    static Vec3<T> g(V a) { return {T(a.x), T(a.y), T(a.z)}; }
    void fill()
    {
        V P[] = {{0, 0, 0}, {1, -2, 3}, {-40, 0.5, 7}}, A[] = {{0, 0, 1}, {1, 0, 0}, {1, 2, -2}, {0, 1, 0}}, S[] = {{1, 1, 1}, {2, 2, 2}, {0.5, 3, 1.5}, {-1, 2, 1}}, W[] = {{0, 0, 0}, {0.2, -0.1, 0.4}}, VV[] = {{0, 0, 0}, {3, 1, -2}}; double an[] = {0, 0.6, -2.1, M_PI / 2};
        for (V p : P) for (int r = 0; r < 4; ++r) for (V s : S) for (V w : W) for (V v : VV) { Tr t; t.position = g(p); t.rotation = Rotation<T>::from_local_to_parent(g(A[r]), Radian{an[r]}); t.scale = g(s); t.velocity = g(v); t.angular_velocity = g(w); L.push_back(t); State e; e.p = p; e.R = rot(A[r], an[r]); e.s = s; e.v = v; e.w = w; E.push_back(e); }
    }
    static V pt(const State& e, V q) { return e.p + e.R * mul(e.s, q); }
    bool nv(Vec3<T> a, V b) { V d = from(a); return len(d - b) <= tol * (1 + len(b)); }
    // the inverse of a scaled rotation is again one only if the scale commutes with the rotation
    static bool invertible(const State& e) { M D; for (int i = 0; i < 3; ++i) { D.m[i][i] = 1 / (i == 0 ? e.s.x : i == 1 ? e.s.y : e.s.z); } M X = e.R * D * tr(e.R); return std::fabs(X.m[0][1]) + std::fabs(X.m[0][2]) + std::fabs(X.m[1][2]) < 1e-9; }
    static bool uniform(const State& e) { return e.s.x == e.s.y && e.s.y == e.s.z; }
    void run(const char* name)
    {
        fill(); V Q[] = {{0, 0, 0}, {1, 2, 3}, {-5, 0.25, 11}};
        for (std::size_t i = 0; i < L.size(); ++i) {
            if (!mc::mine()) continue; const Tr& t = L[i]; const State& e = E[i]; mc::at("%s transform %zu", name, i); mc::evaluated(true);
            auto m = t.to_matrix();
            for (V q : Q) {
                mc::check(nv(t.apply_to_point(g(q)), pt(e, q)), "point", "apply_to_point differs"); mc::check(nv(t.apply_to_direction(g(q)), e.R * mul(e.s, q)), "direction", "apply_to_direction differs");
                Vec4<T> h = m * Vec4<T>{T(q.x), T(q.y), T(q.z), T(1)}; mc::check(nv(Vec3<T>{h.x, h.y, h.z}, pt(e, q)) && h.w == T(1), "matrix", "matrix form moves a point differently"); h = m * Vec4<T>{T(q.x), T(q.y), T(q.z), T(0)}; mc::check(nv(Vec3<T>{h.x, h.y, h.z}, e.R * mul(e.s, q)) && h.w == T(0), "matrix-direction", "matrix form turns a direction differently");
                mc::check(nv(t.apply_to_velocity(g(q)), e.v + e.R * mul(e.s, q)), "velocity", "apply_to_velocity differs"); mc::check(nv(t.apply_to_angular_velocity(g(q)), e.w + e.R * q), "rate", "apply_to_angular_velocity differs");
                mc::check(nv(t.velocity_of_point(g(q)), e.v + cross(e.w, q - e.p)), "velocity-of-point", "velocity_of_point differs"); mc::check(nv(t.velocity_of_local_point(g(q)), e.v + cross(e.w, pt(e, q) - e.p)), "velocity-of-local", "velocity_of_local_point differs");
            }
            auto d = t.to_embree(); double qn = d.quaternion_r * d.quaternion_r + d.quaternion_i * d.quaternion_i + d.quaternion_j * d.quaternion_j + d.quaternion_k * d.quaternion_k;
            double w = d.quaternion_r, x = d.quaternion_i, y = d.quaternion_j, z = d.quaternion_k; M em; double qm[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}}; std::memcpy(em.m, qm, sizeof qm);
            mc::check(std::fabs(qn - 1) < 1e-5 && diff(em, e.R) < 1e-5 && std::fabs(d.scale_x - e.s.x) < 1e-5 && std::fabs(d.scale_y - e.s.y) < 1e-5 && std::fabs(d.scale_z - e.s.z) < 1e-5 && std::fabs(d.translation_x - e.p.x) < 1e-5 && std::fabs(d.translation_y - e.p.y) < 1e-5 && std::fabs(d.translation_z - e.p.z) < 1e-5 && d.skew_xy == 0 && d.skew_xz == 0 && d.skew_yz == 0 && d.shift_x == 0 && d.shift_y == 0 && d.shift_z == 0, "embree", "the ray tracer's decomposition is another transform");
            mc::check(compare(from(static_cast<Transform<double>>(t)), e, tol, tol).empty() && compare(from(static_cast<Transform<float>>(t)), e, 1e-5, 1e-5).empty(), "cast", "precision cast changes the transform");
            if (invertible(e)) {
                Tr inv = t.inverse(); for (V q : Q) { V b = from(inv.apply_to_point(t.apply_to_point(g(q)))); mc::check(len(b - q) <= 20 * tol * (1 + len(q) + len(e.p)), "inverse-point", "inverse does not take %s back (%s)", str(q).c_str(), str(b).c_str()); b = from(t.apply_to_point(inv.apply_to_point(g(q)))); mc::check(len(b - q) <= 20 * tol * (1 + len(q) + len(e.p)), "inverse-point", "the transform does not undo its inverse at %s", str(q).c_str()); b = from(inv.apply_to_direction(t.apply_to_direction(g(q)))); mc::check(len(b - q) <= 20 * tol * (1 + len(q)), "inverse-direction", "inverse does not take the direction back"); }
                if (uniform(e)) { State a = from(inv * t), b = from(t * inv); std::string s = compare(a, State{}, tol, 100 * tol); if (s.empty()) s = compare(b, State{}, tol, 100 * tol); mc::check(s.empty(), "inverse-product", "transform times inverse is not the identity: %s", s.c_str()); State ii = from(inv.inverse()); s = compare(ii, e, 10 * tol, 50 * tol); mc::check(s.empty(), "inverse-inverse", "inverting twice: %s", s.c_str());
                    // the inverse carries velocities: a point at rest in the parent, seen from the moving frame, and back
                    V q{2, -1, 4}; State ip = from(inv); V rel = (1 / e.s.x) * (tr(e.R) * (V{} - e.v - cross(e.w, q - e.p))); V got = from(inv.apply_to_velocity(Vec3<T>{0, 0, 0})) + from(Vec3<T>(glm::cross(inv.angular_velocity, inv.apply_to_point(g(q)) - inv.position))); mc::check(len(got - rel) <= 200 * tol * (1 + len(rel)), "inverse-velocity", "velocity seen from the moving frame %s expected %s", str(got).c_str(), str(rel).c_str()); }
            }
        }
        // pairs: composition against applying one after the other; velocities against the numerical time derivative
        std::size_t n = L.size();
        for (std::size_t i = 0; i < n; ++i) {
            if (!mc::mine()) continue; for (std::size_t j = (mc::thorough() ? 0 : i % 3); j < n; j += mc::thorough() ? 1 : 3) {
                mc::at("%s compose %zu %zu", name, i, j); mc::evaluated(true); Tr c = L[i] * L[j]; State e = compose(E[i], E[j]);
                bool sc = uniform(E[i]) || diff(E[j].R, M{}) == 0; // scale then rotate then scale is a rigid form only then
                State got = from(c); if (!sc) got.s = e.s = {1, 1, 1}; std::string s = compare(got, e, 10 * tol, 100 * tol); mc::check(s.empty(), "compose", "%s", s.c_str());
                if (sc) for (V q : Q) { mc::check(len(from(c.apply_to_point(g(q))) - pt(E[i], pt(E[j], q))) <= 50 * tol * (1 + 300), "compose-point", "applying the composition differs from applying one after the other"); }
                if (sizeof(T) == 8) { // positions over a short time step give the velocity
                    double h = 1e-4; auto at = [&](const State& a, double t) { State r = a; r.p = a.p + t * a.v; r.R = rot(a.w, len(a.w) * t) * a.R; return r; };
                    V q0 = pt(at(E[i], -h), at(E[j], -h).p), q1 = pt(at(E[i], h), at(E[j], h).p); V nd = (1 / (2 * h)) * (q1 - q0); mc::check(len(nd - from(c.velocity)) <= 1e-5 * (1 + len(nd)), "derivative", "velocity %s but positions move at %s", str(from(c.velocity)).c_str(), str(nd).c_str());
                }
                if (i % 5 == 0 && j % 7 == 0) for (std::size_t k = 0; k < n; k += 11) { if (!(uniform(E[i]) && uniform(E[j]))) continue; State a = from((L[i] * L[j]) * L[k]), b = from(L[i] * (L[j] * L[k])); std::string z = compare(a, b, 20 * tol, 1000 * tol); mc::check(z.empty(), "associative", "k=%zu: %s", k, z.c_str()); }
            }
        }
        Tr id; for (std::size_t i = 0; i < n; ++i) { mc::at("%s identity %zu", name, i); mc::check(compare(from(id * L[i]), E[i], tol, tol).empty() && compare(from(L[i] * id), E[i], tol, tol).empty(), "identity", "composing with the identity changes the transform"); }
    }
};
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    Tst<double>{}.run("double"); Tst<float>{}.run("float");
    mc::sample("double compose 13 40"); return mc::finish();
}
