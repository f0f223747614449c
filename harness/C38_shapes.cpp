// C38: every small mesh over a vertex lattice, closed meshes and ellipsoids of every proportion, under several placements, queried with complete ray lattices and compared with exact double-precision intersection.
#include "scenes.hpp"
using TS = RGB; using Rd = Rotation<double>; using Vd = Vec3<double>; using Vf = Vec3<float>; using sc::Meter;
#ifdef __SANITIZE_ADDRESS__
constexpr int SAN = 1;
#else
constexpr int SAN = 0;
#endif
constexpr double EPS = 1.2e-7;
static Rd aa(double x, double y, double z, double a) { return Rd::from_local_to_parent(glm::normalize(Vd{x, y, z}), units::Radian(a)); }
struct Place { const char* name; Vd p; Rd r; Vd s; };
static const std::vector<Place>& places() { static const std::vector<Place> v{{"as is", {0, 0, 0}, Rd(), {1, 1, 1}}, {"turned and moved", {1, -2, 3}, aa(1, 2, -1, 0.9), {1, 1, 1}}, {"stretched", {0.5, 0, -1}, aa(0, 1, 1, 2.2), {2, 0.5, 1}}, {"mirrored", {-1, 1, 0}, aa(1, 0, 0, 0.4), {1, -1, 1.5}}, {"enlarged far away", {3e4, 1e4, -2e4}, aa(1, 1, 1, 1.1), {1000, 1000, 1000}}}; return v; }
static Vd fwd(const Place& p, Vd x) { return p.p + p.r * (p.s * x); }
static Vd dirf(const Place& p, Vd x) { return p.r * (p.s * x); }
static Vd nrm(const Place& p, Vd n) { return glm::normalize(p.r * (n / p.s)); }
static Vd bwd(const Place& p, Vd x) { return (p.r.inverse() * (x - p.p)) / p.s; }
static Vd bdir(const Place& p, Vd x) { return (p.r.inverse() * x) / p.s; }
static Vf f3(Vd v) { return {float(v.x), float(v.y), float(v.z)}; }
static std::string v3(Vd v) { return mc::fmt("(%.9g,%.9g,%.9g)", v.x, v.y, v.z); }

struct World {
    Scene<TS> s; CameraModelHandle<TS> cam; InstanceHandle<TS> eye;
    World() : cam(s.new_camera_model()), eye(s.root.new_instance(cam)) { cam.use_blender_convention(false); }
    template <class G, class F> void with(const GeometryHandle<TS>& g, const Place& p, G&& made, F&& body)
    {
        auto prim = s.add_primitive(g); auto i = s.root.new_instance(prim); i.set_position(Meter(p.p.x), Meter(p.p.y), Meter(p.p.z)); i.set_rotation(p.r); i.set_scale(p.s.x, p.s.y, p.s.z);
        { SceneView<TS> v(s, Interval{Time::from_et(10), Time::from_et(10)}, eye, ObservationMode::TRUE_STATE, 1); made(); body(v); }
        s.root.delete_instance(i); s.delete_primitive(prim);
    }
};
using VB = VertexBuffer<TS>;
static Vertex<TS> vert(Vd p, int k, bool normals) { Vertex<TS> v; v.position = f3(p); v.uv = {float(0.11 * k + 0.05), float(0.9 - 0.07 * k * k * 0.1)}; v.albedo = TS{0}; for (std::size_t c = 0; c < TS::size(); ++c) v.albedo[c] = float(0.1 + 0.1 * k + 0.05 * double(c)); if (normals) v.normal = glm::normalize(Vf{float(0.3 * (k % 3) - 0.2), float(0.25 * (k % 2) + 0.1), float(1 + 0.2 * k)}); return v; }

static void triangles(World& w, SceneView<TS>& v, const IndexBuffer& ix, const VB& vb, const Place& pl, const std::vector<std::pair<Vd, Vd>>& rays, bool must_hit, bool normals, const Mesh<TS>& mesh)
{
    std::size_t n = ix.size() / 3; std::vector<std::array<Vd, 3>> tr(n); double size = 0; for (std::size_t t = 0; t < n; ++t) for (std::size_t k = 0; k < 3; ++k) { tr[t][k] = fwd(pl, Vd(vb[ix[3 * t + k]].position)); size = std::max(size, glm::length(tr[t][k])); }
    for (auto& rd : rays) {
        Ray<TS> ray(f3(rd.first), f3(rd.second)); Vd o(ray.origin()), d(ray.direction()); double dl = glm::length(d); mc::at_s(mc::fmt("%s; ray from %s along %s", pl.name, v3(o).c_str(), v3(d).c_str())); mc::evaluated(true);
        double tol0 = 24 * EPS * (size + glm::length(o)); struct Cand { std::size_t i; double t, u, v; bool sure; double tol, h; }; std::vector<Cand> cs;
        for (std::size_t i = 0; i < n; ++i) {
            auto& T = tr[i]; Vd e1 = T[1] - T[0], e2 = T[2] - T[0], N = glm::cross(e1, e2); double nl = glm::length(N), le = std::max({glm::length(e1), glm::length(e2), glm::length(T[2] - T[1])}); if (nl < 1e-9 * le * le || nl == 0) continue; // no area: cannot be met
            double c = glm::dot(d, N) / nl / dl, h = nl / le; Vd p = glm::cross(d, e2); double det = glm::dot(e1, p); if (det == 0) { Vd q = o - T[0]; if (std::fabs(glm::dot(q, N)) / nl < tol0) cs.push_back({i, -1, 0, 0, false, 1e30, h}); continue; }
            Vd s = o - T[0]; double u = glm::dot(s, p) / det; Vd q = glm::cross(s, e1); double vv = glm::dot(d, q) / det, t = glm::dot(e2, q) / det; double tol = tol0 / std::max(std::fabs(c), 1e-12), m = std::min({u, vv, 1 - u - vv}) * h;
            if (m < -tol || t * dl < -tol) continue; cs.push_back({i, t, u, vv, m > tol && t * dl > tol && std::fabs(c) > 1e-3, tol / dl, h});
        }
        double first = 1e300, ftol = 0; bool sure = false; for (auto& c : cs) if (c.sure && c.t + c.tol < first) { first = c.t + c.tol; ftol = c.tol; sure = true; } (void)ftol;
        HitRecord r = v.intersect(ray, 0.5f);
        if (!r.hit()) { mc::check(!sure && !(must_hit && !cs.empty()), must_hit ? "leak" : "missed", "no hit where triangle lies at distance %g", first); mc::count("misses"); continue; }
        const Cand* c = nullptr; for (auto& x : cs) if (x.i == r.prim_id) c = &x;
        if (!c) { mc::fail("phantom", mc::fmt("hit on triangle %u at %g, which the ray does not meet", r.prim_id, double(r.t))); continue; }
        mc::count("hits"); mc::check(c->t - c->tol <= first, "not-nearest", "triangle %u at %g, another at %g", r.prim_id, c->t, first); mc::check(r.inst_id == 0 && r.geom_id == 0, "identifier", "instance %u geometry %u", r.inst_id, r.geom_id);
        if (!c->sure) { mc::count("edge_hits"); continue; }
        mc::check(std::fabs(r.t - c->t) <= c->tol, "distance", "%.9g, exactly %.9g", double(r.t), c->t);
        auto& V0 = vb[ix[3 * c->i]]; auto& V1 = vb[ix[3 * c->i + 1]]; auto& V2 = vb[ix[3 * c->i + 2]]; double a = 1 - c->u - c->v, bt = c->tol * dl / c->h + 1e-6;
        Vd ln = glm::cross(Vd(V1.position) - Vd(V0.position), Vd(V2.position) - Vd(V0.position)); mc::check(glm::dot(glm::normalize(Vd(r.Ng)), glm::normalize(ln)) > 1 - 1e-5, "winding", "normal %s for winding %s", v3(Vd(r.Ng)).c_str(), v3(ln).c_str());
        auto q = v.resolve_hit(ray, r, 0.5f); mc::check(glm::length(Vd(q.position) - (o + d * c->t)) <= 2 * c->tol * dl, "position", "%s, exactly %s", v3(Vd(q.position)).c_str(), v3(o + d * c->t).c_str());
        auto lerp = [&](double x, double y, double z) { return a * x + c->u * y + c->v * z; };
        double eu = lerp(V0.uv.x, V1.uv.x, V2.uv.x), ev = lerp(V0.uv.y, V1.uv.y, V2.uv.y); mc::check(std::fabs(q.uv.x - eu) <= 2 * bt && std::fabs(q.uv.y - ev) <= 2 * bt, "texture-coordinate", "(%g,%g), exactly (%g,%g)", double(q.uv.x), double(q.uv.y), eu, ev);
        auto cu = mesh.compute_uv(r); mc::check(cu == q.uv, "texture-coordinate", "compute_uv differs from the resolved hit");
        for (std::size_t k = 0; k < TS::size(); ++k) mc::check(std::fabs(q.vertex_albedo[k] - lerp(V0.albedo[k], V1.albedo[k], V2.albedo[k])) <= 2 * bt, "colour", "channel %zu: %g", k, double(q.vertex_albedo[k]));
        Vd g = nrm(pl, ln); if (glm::dot(g, d) > 0) g = -g; mc::check(glm::length(Vd(q.normal_g) - g) < 1e-5, "normal", "geometric %s, exactly %s", v3(Vd(q.normal_g)).c_str(), v3(g).c_str());
        if (normals) { Vd sn = a * Vd(V0.normal) + c->u * Vd(V1.normal) + c->v * Vd(V2.normal); Vd e = nrm(pl, sn); if (glm::dot(e, g) < 0) e = -e; double amb = std::fabs(glm::dot(e, g)); if (amb > 1e-4) mc::check(glm::length(Vd(q.normal_s) - e) < 1e-4 + 4 * bt, "shading-normal", "%s, exactly %s", v3(Vd(q.normal_s)).c_str(), v3(e).c_str()); }
        else mc::check(glm::length(Vd(q.normal_s) - g) < 1e-5, "shading-normal", "flat surface shaded with %s", v3(Vd(q.normal_s)).c_str());
        mc::check(glm::length(Vd(q.wo) + d) < 1e-6, "outgoing", "outgoing direction not back along the ray");
    }
}
static std::vector<std::pair<Vd, Vd>> lattice_rays(const Place& pl, int G, double far)
{
    std::vector<std::pair<Vd, Vd>> v; std::vector<Vd> from{{0.37, 0.41, 3.2}, {-2.3, 0.6, 0.45}, {0.52, 0.35, 0.43}, {1.8, 2.1, -1.7}}; if (far > 0) for (auto& f : from) f = (f - Vd{0.5}) * far + Vd{0.5};
    std::vector<Vd> to; for (int a = 0; a < G; ++a) for (int b = 0; b < G; ++b) for (int c = 0; c < G; ++c) to.push_back(G == 1 ? Vd{0.5} : Vd{double(a) / (G - 1) * 1.2 - 0.1, double(b) / (G - 1) * 1.2 - 0.1, double(c) / (G - 1) * 1.2 - 0.1});
    for (auto& f : from) for (auto& t : to) { Vd o = fwd(pl, f), d = fwd(pl, t) - o; if (glm::length(d) < 1e-9) continue; v.push_back({o, glm::normalize(d)}); if (far == 0) v.push_back({o, -glm::normalize(d)}); } return v;
}
static void small_meshes()
{
    World w; std::vector<Vd> P; for (int k = 0; k < 8; ++k) P.push_back(Vd{double(k & 1), double(k >> 1 & 1), double(k >> 2)}); 
    auto go = [&](const IndexBuffer& ix, bool normals, std::size_t pl, double far, int G) {
        VB vb; for (int k = 0; k < 8; ++k) vb.push_back(vert(P[std::size_t(k)], k, normals)); auto h = w.s.add_mesh(ix, vb); auto m = std::static_pointer_cast<Mesh<TS>>(h.get()); mc::count("meshes");
        w.with(h, places()[pl], [] {}, [&](SceneView<TS>& v) { triangles(w, v, ix, vb, places()[pl], lattice_rays(places()[pl], G, far), false, normals, *m); }); m.reset(); w.s.delete_geometry(h);
    };
    int G = mc::thorough() ? 4 : 3; std::vector<IndexBuffer> one; for (unsigned a = 0; a < 8; ++a) for (unsigned b = 0; b < 8; ++b) for (unsigned c = 0; c < 8; ++c) one.push_back({a, b, c});
    std::size_t q = 0; for (auto& t : one) { ++q; if (!mc::mine()) continue; if (!mc::thorough() && q % (SAN ? 13 : 1) != SAN) continue; for (std::size_t pl = 0; pl < places().size(); ++pl) { if (!mc::thorough() && (q + pl) % 2 && pl) continue; go(t, (q + pl) % 3 == 0, pl, 0, G); } go(t, true, q % 5, 300, 2); }
    std::vector<IndexBuffer> some; for (std::size_t i = 0; i < one.size(); i += mc::thorough() ? 13 : SAN ? 61 : 19) some.push_back(one[i]);
    for (std::size_t i = 0; i < some.size(); ++i) for (std::size_t j = 0; j < some.size(); ++j) { if (!mc::mine()) continue; IndexBuffer x = some[i]; x.insert(x.end(), some[j].begin(), some[j].end()); go(x, false, (i + j) % places().size(), 0, G); if (mc::thorough()) go(x, true, (i + 2 * j) % places().size(), 0, G); }
}
// a closed surface never lets a ray out, however exactly it is aimed at an edge or a corner
static void closed_meshes()
{
    for (int shape = 0; shape < 4; ++shape) for (std::size_t pl = 0; pl < places().size(); ++pl) {
        if (!mc::mine()) continue; VB vb; IndexBuffer ix; std::map<std::array<long, 3>, unsigned> at; auto add = [&](Vd p) { if (shape >= 2) p = glm::normalize(p); std::array<long, 3> k{std::lround(p.x * 1e6), std::lround(p.y * 1e6), std::lround(p.z * 1e6)}; auto it = at.find(k); if (it != at.end()) return it->second; unsigned n = unsigned(vb.size()); vb.push_back(vert(p, int(n % 8), shape == 3)); at[k] = n; return n; };
        int N = shape == 0 ? 1 : shape == 1 ? 3 : SAN ? 2 : 5; for (int f = 0; f < 6; ++f) for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { auto pt = [&](int i, int j) { double x = 2.0 * i / N - 1, y = 2.0 * j / N - 1; int ax = f / 2; double s = f % 2 ? 1 : -1; Vd p; p[ax] = s; p[(ax + 1) % 3] = s * x; p[(ax + 2) % 3] = y; return add(p); }; unsigned i0 = pt(a, b), i1 = pt(a + 1, b), i2 = pt(a + 1, b + 1), i3 = pt(a, b + 1); ix.insert(ix.end(), {i0, i1, i2}); ix.insert(ix.end(), {i0, i2, i3}); }
        World w; auto h = w.s.add_mesh(ix, vb); auto m = std::static_pointer_cast<Mesh<TS>>(h.get()); auto& P = places()[pl];
        w.with(h, P, [] {}, [&](SceneView<TS>& v) {
            for (Vd from : {Vd{0, 0, 0}, Vd{0.125, -0.25, 0.5}, Vd{-0.3, 0.2, 0.1}}) {
                Vd o = Vd(f3(fwd(P, from))); std::vector<std::pair<Vd, Vd>> rs; auto aim = [&](Vd t) { Vd d = fwd(P, t) - o; if (glm::length(d) > 1e-9) rs.push_back({o, glm::normalize(d)}); };
                for (auto& x : vb) aim(Vd(x.position)); for (std::size_t t = 0; t + 2 < ix.size(); t += 3) for (int k = 0; k < 3; ++k) { Vd a(vb[ix[t + std::size_t(k)]].position), b(vb[ix[t + std::size_t(k + 1) % 3]].position), c(vb[ix[t + std::size_t(k + 2) % 3]].position); for (double s : {0.5, 0.25, 0.1, 1.0 / 3}) aim(a * (1 - s) + b * s); aim((a + b + c) / 3.0); aim(a * 0.6 + b * 0.3 + c * 0.1); }
                triangles(w, v, ix, vb, P, rs, true, shape == 3, *m);
                // leaving a face of a cube outwards: nothing is met; leaving any face inwards: the far wall
                for (auto& r : rs) { Ray<TS> ray(f3(r.first), f3(r.second)); auto hit = v.intersect(ray, 0.5f); if (!hit.hit() || pl == 4 || std::min({hit.u, hit.v, 1 - hit.u - hit.v}) < 0.03f) continue; auto q = v.resolve_hit(ray, hit, 0.5f); Vf out = -q.normal_g; mc::at_s(mc::fmt("%s; leaving the surface hit from %s along %s", P.name, v3(r.first).c_str(), v3(r.second).c_str())); Vf t1, t2; build_default_tangent_frame(out, t1, t2);
                    for (double el : {0.05, 0.4, 1.0}) for (int az = 0; az < 4; ++az) { Vf d = glm::normalize(out * float(el) + t1 * float(std::cos(az * 1.5708)) + t2 * float(std::sin(az * 1.5708))); mc::evaluated(true); mc::count("departures"); auto again = v.intersect(Ray<TS>(offset_intersection_(q.position, out), d), 0.5f); mc::check(shape >= 2 || !again.hit(), "self-hit", "from %s along %s meets the convex body it left at %g (elevation %g)", v3(Vd(offset_intersection_(q.position, out))).c_str(), v3(Vd(d)).c_str(), double(again.t), el); mc::check(v.intersect(Ray<TS>(offset_intersection_(q.position, -out), -d), 0.5f).hit(), "inside-leak", "inside the closed body but meets nothing"); } }
            }
        });
    }
}
static void ellipsoid_one(World& w, SceneView<TS>& v, Vd R, const Place& P, Vd o0, Vd d0, bool departures)
{
    Ray<TS> ray(f3(o0), f3(d0)); Vd o(ray.origin()), d(ray.direction()); double dl = glm::length(d); mc::at_s(mc::fmt("ellipsoid %s %s; ray from %s along %s", v3(R).c_str(), P.name, v3(o).c_str(), v3(d).c_str())); mc::evaluated(true);
    R = Vd(f3(R)); Vd O = bwd(P, o) / R, D = bdir(P, d) / R; double L = glm::length(D), rs = std::min({R.x * std::fabs(P.s.x), R.y * std::fabs(P.s.y), R.z * std::fabs(P.s.z)}); D /= L; double b = glm::dot(O, D); Vd f = O - b * D; double fl = glm::length(f);
    double del = 40 * EPS * (1 + glm::length(O)) + (&P == &places()[0] ? 0 : 24 * EPS * (glm::length(o) + glm::length(P.p)) / rs + 24 * EPS * (1 + glm::length(O)) * std::max({R.x * std::fabs(P.s.x), R.y * std::fabs(P.s.y), R.z * std::fabs(P.s.z)}) / rs * 2);
    HitRecord r = v.intersect(ray, 0.5f); if (std::fabs(1 - fl) < del) { mc::count("grazing"); return; }
    double h = 1 - fl * fl; if (h <= 0) { mc::check(!r.hit(), "phantom", "hit at %g where the ray passes at %g radii", double(r.t), fl); mc::count("misses"); return; }
    double sq = std::sqrt(h), t0 = -b - sq, t1 = -b + sq, dt = del * (1 + fl / sq) * 2; if (dt > 0.3) { mc::count("grazing"); return; }
    if (std::fabs(t0) < 2 * dt || std::fabs(t1) < 2 * dt) { mc::count("on_surface"); if (t1 > 2 * dt) mc::check(r.hit(), "missed", "started on the surface going in but meets nothing"); if (r.hit()) mc::check(std::fabs(double(r.t) * L - t0) < 4 * dt || std::fabs(double(r.t) * L - t1) < 4 * dt, "distance", "%g is neither crossing", double(r.t)); return; }
    double t = t0 > 0 ? t0 : t1; if (t < 0) { mc::check(!r.hit(), "phantom", "hit at %g on an ellipsoid behind the ray", double(r.t)); mc::count("misses"); return; }
    if (!r.hit()) { mc::fail("missed", mc::fmt("no hit where the ray passes at %g radii", fl)); return; }
    mc::count("hits"); mc::check(r.inst_id == 0 && r.geom_id == 0 && r.prim_id == 0, "identifier", "%u %u %u", r.inst_id, r.geom_id, r.prim_id); mc::check(std::fabs(double(r.t) * L - t) <= dt, "distance", "%.9g, exactly %.9g", double(r.t), t / L);
    (void)dl; Vd p = glm::normalize(O + t * D), X = p * R, N = glm::normalize(p / R); double rr = std::max({R.x, R.y, R.z}) / std::min({R.x, R.y, R.z}), nt = dt * rr * 2 + 2e-6 * rr;
    auto q = v.resolve_hit(ray, r, 0.5f); Vd lp = bwd(P, Vd(q.position)) / R; double pt = dt * 2 + 4e-6; mc::check(glm::length(lp - p) <= pt, "position", "%s, exactly %s (unit sphere)", v3(lp).c_str(), v3(p).c_str());
    Vd g = nrm(P, N); if (glm::dot(g, d) > 0) g = -g; double ps = std::max({std::fabs(P.s.x), std::fabs(P.s.y), std::fabs(P.s.z)}) / std::min({std::fabs(P.s.x), std::fabs(P.s.y), std::fabs(P.s.z)}); nt *= ps * ps; if (nt < 0.2) { mc::check(glm::length(Vd(q.normal_g) - g) <= nt, "normal", "geometric %s, exactly %s", v3(Vd(q.normal_g)).c_str(), v3(g).c_str()); mc::check(glm::length(Vd(q.normal_s) - g) <= nt, "shading-normal", "%s, exactly %s", v3(Vd(q.normal_s)).c_str(), v3(g).c_str()); }
    double sp = std::hypot(p.x, p.y), u = (std::atan2(p.y, p.x) + 3.14159265358979) / 6.28318530717959, vv = std::atan2(sp, p.z) / 3.14159265358979; double du = std::fabs(q.uv.x - u); du = std::min(du, 1 - du); mc::check(q.uv.x >= 0 && q.uv.x <= 1 && q.uv.y >= 0 && q.uv.y <= 1, "texture-coordinate", "(%g,%g)", double(q.uv.x), double(q.uv.y)); mc::check(du * 6.28 * sp <= pt && std::fabs(q.uv.y - vv) * 3.14159 <= pt, "texture-coordinate", "(%.9g,%.9g), exactly (%.9g,%.9g)", double(q.uv.x), double(q.uv.y), u, vv);
    Vd tg(q.tangent), bg(q.bitangent); mc::check(std::fabs(glm::length(tg) - 1) < 1e-4 && std::fabs(glm::length(bg) - 1) < 1e-4, "tangent", "lengths %g %g", glm::length(tg), glm::length(bg));
    if (nt < 0.1) { mc::check(std::fabs(glm::dot(tg, Vd(q.normal_s))) <= 2 * nt + 1e-5, "tangent", "tangent leaves the surface by %g", glm::dot(tg, Vd(q.normal_s))); if (sp > 100 * pt) { Vd e = glm::normalize(dirf(P, Vd{-R.x * p.y, R.y * p.x, 0})); mc::check(glm::length(e - tg) < 4 * pt * rr / sp + 1e-4, "tangent", "%s, along increasing u %s", v3(tg).c_str(), v3(e).c_str()); } }
    if (departures) { Vf out = t0 > 0 ? q.normal_g : -q.normal_g, t1v, t2v; build_default_tangent_frame(out, t1v, t2v); for (double el : {0.05, 0.4, 1.0}) for (int az = 0; az < 4; ++az) { Vf dd = glm::normalize(out * float(el) + t1v * float(std::cos(az * 1.5708)) + t2v * float(std::sin(az * 1.5708))); mc::evaluated(true); mc::count("departures"); mc::check(!v.intersect(Ray<TS>(offset_intersection_(q.position, out), dd), 0.5f).hit(), "self-hit", "meets the ellipsoid it left (elevation %g)", el); mc::check(v.intersect(Ray<TS>(offset_intersection_(q.position, -out), -dd), 0.5f).hit(), "inside-leak", "inside the ellipsoid but meets nothing"); } }
}
static void ellipsoids()
{
    std::vector<Vd> shapes; for (double a : {1.0, 0.3, 2.5}) for (double b : {1.0, 0.3, 2.5}) for (double c : {1.0, 0.3, 2.5}) shapes.push_back({a, b, c}); for (double k : {5e-5, 1e-3, 1737400.0, 7e8}) { shapes.push_back(Vd{k}); shapes.push_back(Vd{k, k, k * 0.9}); } shapes.push_back({1000, 1, 30}); shapes.push_back({1, 1, 0.01});
    World w; int G = mc::thorough() ? 7 : SAN ? 3 : 5;
    for (auto& R : shapes) for (std::size_t pl = 0; pl < places().size(); ++pl) {
        double big = std::max({R.x, R.y, R.z}); if (pl && (big > 1e3 || big < 1e-2)) continue; if (!mc::mine()) continue; auto& P = places()[pl]; auto h = w.s.add_ellipsoid(Meter(R.x), Meter(R.y), Meter(R.z)); mc::count("ellipsoids");
        w.with(h, P, [] {}, [&](SceneView<TS>& v) {
            std::vector<Vd> from; for (double x : {-3.0, -1.0, -0.5, 0.0, 0.3, 1.0, 2.0}) for (double y : {-2.0, -0.4, 0.0, 1.0, 3.0}) for (double z : {-1.5, -1.0, 0.0, 0.7, 2.5}) from.push_back({x, y, z});
            std::size_t k = 0; for (auto& f : from) { ++k; if (!mc::thorough() && k % (SAN ? 11 : 2)) continue; Vd o = fwd(P, f * R);
                for (int a = 0; a < G; ++a) for (int b = 0; b < G; ++b) for (int c = 0; c < G; ++c) { if (!(a == 0 || a == G - 1 || b == 0 || b == G - 1 || c == 0 || c == G - 1)) continue; Vd d{2.0 * a / (G - 1) - 1, 2.0 * b / (G - 1) - 1, 2.0 * c / (G - 1) - 1}; Vd wd = dirf(P, d * R); if (glm::length(wd) > 0) { ellipsoid_one(w, v, R, P, o, glm::normalize(wd), pl != 4 && (a + b + c + int(k)) % 4 == 0 && big / std::min({R.x, R.y, R.z}) < 20); ellipsoid_one(w, v, R, P, o, glm::normalize(d), false); } } }
            // aimed at points over the surface and just past the limb, from near and from very far
            for (double far : {4.0, 60.0, 1e3, 3e4}) { if (pl == 4 && far > 100) continue; for (Vd q : {Vd{1, 0, 0}, Vd{0, -1, 0}, Vd{0, 0, 1}, Vd{0, 0, -1}, Vd{0.6, 0.64, -0.48}, Vd{-0.36, 0.48, 0.8}}) { Vd O = q * far, t1, t2; t1 = glm::normalize(glm::cross(q, std::fabs(q.x) < 0.7 ? Vd{1, 0, 0} : Vd{0, 1, 0})); t2 = glm::cross(q, t1); for (double ry : {0.0, 1e-4, 0.01, 0.3, 0.7, 0.95, 1.05, 1.5}) for (int az = 0; az < 8; ++az) { Vd tgt = (t1 * std::cos(az * 0.785398 + 0.1) + t2 * std::sin(az * 0.785398 + 0.1)) * ry; Vd o = Vd(f3(fwd(P, O * R))), d = fwd(P, tgt * R) - o; ellipsoid_one(w, v, R, P, o, glm::normalize(d), far < 10 && az == 0 && pl != 4 && big / std::min({R.x, R.y, R.z}) < 20); } } }
        });
    }
}
static void refusals()
{
    // every index list up to length 6 over a few values, every vertex and tangent count
    World w; auto inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    for (unsigned nv = 0; nv <= 4; ++nv) for (unsigned len = 0; len <= 7; ++len) for (unsigned pat = 0; pat < 243; ++pat) for (int tang = -1; tang <= int(nv) + 1; ++tang) {
        IndexBuffer ix; unsigned p = pat; bool in = true; for (unsigned i = 0; i < len; ++i) { unsigned vals[] = {0, nv ? nv - 1 : 0, nv}; unsigned v = i < 5 ? vals[p % 3] : 0; p /= 3; ix.push_back(v); in &= v < nv; } if (len < 5) { unsigned lim = 1; for (unsigned i = 0; i < len; ++i) lim *= 3; if (pat >= lim) break; }
        if (!mc::mine()) continue; mc::at("%u vertices, indices %u of pattern %u, %d tangents", nv, len, pat, tang); mc::evaluated(true); VB vb(nv); for (unsigned i = 0; i < nv; ++i) vb[i].position = {float(i), float(i * i), 1}; bool ok = in && len % 3 == 0 && (tang <= 0 || unsigned(tang) == nv);
        bool threw = mc::throws([&] { if (tang < 0) Mesh<TS> m(ix, vb); else Mesh<TS> m(ix, vb, TangentBuffer(std::size_t(tang))); }); mc::check(threw == !ok, ok ? "refused" : "accepted", ok ? "a sound mesh is refused" : "a malformed mesh is accepted");
        if (ok && !threw && (pat % 17 == 0 || len < 3)) { auto h = w.s.add_mesh(ix, vb); auto m = std::static_pointer_cast<Mesh<TS>>(h.get()); mc::check(m->index_count() == len && m->vertex_count() == nv && m->triangle_count() == len / 3 && m->index_buffer() == ix && !m->has_tangents(), "contents", "counts differ"); w.with(h, places()[0], [] {}, [&](SceneView<TS>& v) { auto r = v.intersect(Ray<TS>({0, 0, 5}, {0, 0, -1}), 0.f); (void)r; }); m.reset(); w.s.delete_geometry(h); }
    }
    std::vector<double> rad{1, 0, -1, inf, nan, 1e-3}; for (double a : rad) for (double b : rad) for (double c : rad) { if (!mc::mine()) continue; mc::at("ellipsoid (%g,%g,%g)", a, b, c); mc::evaluated(true); bool ok = a > 0 && b > 0 && c > 0 && a < inf && b < inf && c < inf; bool threw = mc::throws([&] { w.s.add_ellipsoid(Meter(a), Meter(b), Meter(c)); }); mc::check(threw == !ok, ok ? "refused" : "accepted", ok ? "refused" : "an ellipsoid without a shape is accepted"); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); sc::start(); refusals(); small_meshes(); closed_meshes(); ellipsoids(); return mc::finish();
}
