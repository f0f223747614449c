// C37: every short scene-building history observed by every camera set-up, the view compared with reference transforms; ray queries compared with brute force; views must not follow later edits.
#include "scenes.hpp"
using TS = RGB; using Rd = Rotation<double>; using Vd = Vec3<double>; using Vf = Vec3<float>; using sc::Meter; using MPS = units::MetersPerSecond; using RPS = units::RadiansPerSecond;
#ifdef __SANITIZE_ADDRESS__
constexpr int SAN = 1;
#else
constexpr int SAN = 0;
#endif
struct Peek : Renderer<TS> { auto prims(SceneView<TS>& v) { return this->get_primitives(v); } auto lights(SceneView<TS>& v) { return this->get_lights(v); } auto camera(SceneView<TS>& v) { return this->get_camera(v); } };
static Rd aa(double x, double y, double z, double a) { return Rd::from_local_to_parent(glm::normalize(Vd{x, y, z}), units::Radian(a)); }
struct T { Rd r; Vd p{0}, s{1}; }; // p + r (s * x)
static T mul(const T& a, const T& b) { T o; o.r = a.r * b.r; o.s = a.s * b.s; o.p = a.p + a.r * (a.s * b.p); return o; }
static Vd mp(const T& t, Vd x) { return t.p + t.r * (t.s * x); }
static std::string gltf(const std::string& dir)
{
    // root node A (turned, moved, doubled) with mesh 0, child B (turned, moved) with meshes 1, sibling C with mesh 0 again
    float v[] = {0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 0, 1, 0, 2, 1}; unsigned short ix[] = {0, 1, 2, 0}; std::string raw(reinterpret_cast<char*>(v), sizeof v); raw.append(reinterpret_cast<char*>(ix), sizeof ix); { FILE* f = std::fopen((dir + "/m.bin").c_str(), "wb"); std::fwrite(raw.data(), 1, raw.size(), f); std::fclose(f); }
    std::string j = R"({"asset":{"version":"2.0"},"scene":0,"scenes":[{"nodes":[0,2]}],"nodes":[{"name":"A","mesh":0,"children":[1],"translation":[1,2,3],"rotation":[0,0,0.70710678,0.70710678],"scale":[2,2,2]},{"name":"B","mesh":1,"translation":[0.5,0,-1],"rotation":[0.6,0,0,0.8]},{"name":"C","mesh":0,"translation":[-4,0,0]}],"meshes":[{"primitives":[{"attributes":{"POSITION":0},"indices":2}]},{"primitives":[{"attributes":{"POSITION":1},"indices":2}]}],"buffers":[{"uri":"m.bin","byteLength":80}],"bufferViews":[{"buffer":0,"byteOffset":0,"byteLength":36},{"buffer":0,"byteOffset":36,"byteLength":36},{"buffer":0,"byteOffset":72,"byteLength":6}],"accessors":[{"bufferView":0,"componentType":5126,"count":3,"type":"VEC3","min":[0,0,0],"max":[1,1,0]},{"bufferView":1,"componentType":5126,"count":3,"type":"VEC3","min":[0,0,1],"max":[1,2,1]},{"bufferView":2,"componentType":5123,"count":3,"type":"SCALAR"}]})";
    std::string f = dir + "/m.gltf"; FILE* o = std::fopen(f.c_str(), "wb"); std::fwrite(j.data(), 1, j.size(), o); std::fclose(o); return f;
}
static std::vector<std::pair<int, T>> model_parts() // mesh index, transform in the model
{
    T a, b, c; a.p = {1, 2, 3}; a.r = aa(0, 0, 1, 1.5707963267948966); a.s = Vd{2}; b.p = {0.5, 0, -1}; b.r = aa(1, 0, 0, 2 * std::atan2(0.6, 0.8)); c.p = {-4, 0, 0}; return {{0, a}, {1, mul(a, b)}, {0, c}};
}
enum Kind { PA, PB, LA, UN, MO, CAMERA };
struct Item { Kind k; std::shared_ptr<Node<TS>> n; };
struct World {
    std::vector<Vf> va, vb; std::vector<unsigned> ia, ib; Scene<TS> s; CameraModelHandle<TS> cam; PrimitiveHandle<TS> A, B; LightHandle<TS> L; UnresolvedObjectHandle<TS> U; std::optional<ModelHandle<TS>> M;
    static PrimitiveHandle<TS> mk(World& w, bool b)
    {
        auto& V = b ? w.vb : w.va; auto& I = b ? w.ib : w.ia; if (b) { V = {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0.2f}, {-1, 1, 0.2f}}; I = {0, 1, 2, 0, 2, 3}; } else { V = {{0, 0, 1}, {1, 0, -0.5f}, {-0.6f, 0.8f, -0.5f}, {-0.6f, -0.9f, -0.4f}}; I = {0, 1, 2, 0, 2, 3, 0, 3, 1, 1, 3, 2}; }
        VertexBuffer<TS> vb; for (auto& p : V) { Vertex<TS> x; x.position = p; vb.push_back(x); } auto mat = w.s.new_material(w.s.new_bsdf_lambertian("")); mat.set_albedo_factor(TS{b ? 0.3f : 0.7f}); return w.s.add_primitive(GeometryHandle<TS>{w.s.add_mesh(IndexBuffer(I.begin(), I.end()), vb, "").get()}, mat);
    }
    World() : cam(s.new_camera_model("c")), A(mk(*this, false)), B(mk(*this, true)), L(s.new_sphere_light(Meter(0.5), units::SpectralWattsPerMeterSquaredSteradian<TS>{TS{4}})), U(s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{TS{2}}))
    { cam.set_focal_length(units::Millimeter{20}); cam.set_fstop(4); cam.configure_sensor_from_pitch(Resolution{40, 40}, units::Micrometer{1000}); cam.set_sensor_simulate_noise(false); M = s.load_model(gltf(mc::S().scratch)); }
    template <class H> InstanceHandle<TS> inst(const H& parent, Kind k) { switch (k) { case PA: return parent.new_instance(A); case PB: return parent.new_instance(B); case LA: return parent.new_instance(L); case UN: return parent.new_instance(U); case CAMERA: return parent.new_instance(cam); default: return parent.new_instance(*M); } }
};
static double bad(const T& e, const Transform<float>& g) // worst deviation relative to the size of the transform
{
    double d = 0, sc = 1e-30; for (std::size_t i = 0; i < 3; ++i) { sc = std::max(sc, std::fabs(e.p[int(i)])); d = std::max(d, std::fabs(e.p[int(i)] - g.position[int(i)])); } d /= std::max(sc, 1e-3);
    for (int i = 0; i < 3; ++i) { Vd x{0}; x[i] = 1; Vd a = e.r * x; Vf b = g.rotation * Vf{float(x.x), float(x.y), float(x.z)}; d = std::max({d, std::fabs(a.x - b.x), std::fabs(a.y - b.y), std::fabs(a.z - b.z), std::fabs(e.s[i] - g.scale[i]) / e.s[i]}); }
    return d;
}
static Rd turn(const Node<TS>& n, ObservationMode m, Time e, Time t, const Transform<double>& o) { return n.get_apparent_transform(m, e, t, o).rotation; }
struct Eye { int id; std::size_t n; ObservationMode mode; double dt; };
static std::vector<Eye> eyes() { std::vector<Eye> v; int k = 0; for (int id = 0; id < 3; ++id) for (std::size_t n : {1u, 2u, 3u}) for (auto m : {ObservationMode::TRUE_STATE, ObservationMode::GEOMETRIC_STATE, ObservationMode::ABERRATED_STATE}) { if (mc::thorough() || k % (SAN ? 9 : 4) == 0) v.push_back({id, n, m, n == 1 ? (id == 1 ? 3.0 : 0.0) : 4.0}); ++k; } return v; }
static std::vector<std::vector<T>> expected(const Node<TS>& cn, const Rd& sensor, const Node<TS>& n, const Eye& e, const std::vector<Time>& ts)
{
    std::vector<std::vector<T>> o(1);
    for (auto& t : ts) { Transform<double> c = cn.get_apparent_transform(ObservationMode::TRUE_STATE, ts[0], t, Transform<double>{}); auto q = n.get_apparent_transform(e.mode, ts[0], t, c); Rd cr = (c.rotation * sensor).inverse(); T x; x.p = cr * (q.position - c.position); x.r = cr * turn(n, e.mode, ts[0], t, c); x.s = q.scale; o[0].push_back(x); }
    return o;
}
static std::vector<Time> stamps(double t0, double dt, std::size_t n) { std::vector<Time> v; if (n <= 1) v.push_back(Time::from_et(t0 + dt / 2)); else for (std::size_t i = 0; i < n; ++i) v.push_back(Time::from_et(t0 + dt * double(i) / double(n - 1))); return v; }
template <class G> static void match(const char* key, const std::vector<std::vector<T>>& want, const G& got)
{
    mc::check(want.size() == got.size(), key, "%zu instances in the view, %zu in the scene", got.size(), want.size()); std::vector<char> used(got.size(), 0);
    for (auto& w : want) { bool ok = false; double best = 1e9; for (std::size_t i = 0; i < got.size() && !ok; ++i) { if (used[i] || got[i].size() != w.size()) continue; double d = 0; for (std::size_t j = 0; j < w.size(); ++j) d = std::max(d, bad(w[j], got[i][j])); best = std::min(best, d); if (d < 3e-6) { used[i] = 1; ok = true; } } mc::check(ok, key, "no instance with the expected transforms (%zu samples); the closest differs by %.3g", w.size(), best); }
}
struct Seen { std::vector<std::vector<T>> a, b, l; std::vector<std::vector<T>> m[2]; };
static void compare(World& w, SceneView<TS>& v, const std::vector<Item>& items, const Node<TS>& cn, const Rd& sensor, const Eye& e)
{
    auto ts = stamps(100, e.dt, e.n); Seen q; int un = 0; auto parts = model_parts();
    for (auto& i : items) { auto x = expected(cn, sensor, *i.n, e, ts); auto add = [&](auto& d) { d.push_back(x[0]); }; if (i.k == PA) add(q.a); else if (i.k == PB) add(q.b); else if (i.k == LA) add(q.l); else if (i.k == UN) ++un; else if (i.k == MO) for (auto& p : parts) { std::vector<T> y; for (auto& t : x[0]) y.push_back(mul(t, p.second)); q.m[p.first].push_back(y); } }
    Peek pk; auto P = pk.prims(v); auto L = pk.lights(v); std::map<const void*, int> seen; std::vector<std::vector<std::vector<Transform<float>>>> extra;
    mc::check(pk.camera(v).get() == w.cam.get().get(), "camera", "the view has another camera model");
    bool ga = false, gb = false;
    for (auto& b : P) { mc::check(++seen[b.primitive.get()] == 1, "batch", "a primitive appears in two batches"); mc::check(!b.instances.empty(), "batch", "an empty batch"); if (b.primitive.get() == w.A.get().get()) { ga = true; match("instance", q.a, b.instances); } else if (b.primitive.get() == w.B.get().get()) { gb = true; match("instance", q.b, b.instances); } else extra.push_back(b.instances); }
    mc::check(ga == !q.a.empty() && gb == !q.b.empty(), "instance", "primitive present %d %d, instanced %zu %zu times", int(ga), int(gb), q.a.size(), q.b.size());
    mc::check(extra.size() == (q.m[0].empty() ? 0u : 2u), "model", "%zu model primitives in the view", extra.size());
    if (extra.size() == 2 && !q.m[0].empty()) { bool sw = extra[0].size() != q.m[0].size(); match("model", q.m[0], extra[sw ? 1 : 0]); match("model", q.m[1], extra[sw ? 0 : 1]); }
    std::vector<std::vector<Transform<float>>> lt; for (auto& l : L) { mc::check(l.light.get() == w.L.get().get(), "light", "another light"); lt.push_back(l.transforms); } match("light", q.l, lt);
}
static void pose(auto& h, int k) { switch (k) { case 0: h.set_position(Meter(3), Meter(-2), Meter(8)); h.set_rotation(aa(1, 2, -0.5, 0.8)); break; case 1: h.set_velocity(MPS(0.5), MPS(-0.25), MPS(1)); break; case 2: h.set_scale(0.5); break; case 3: h.set_rotation(aa(0, 1, 0, 2.1)); h.set_angular_velocity(RPS(0.1), RPS(0), RPS(0.3)); break; case 4: h.set_velocity(MPS(2e7), MPS(-1e7), MPS(3e7)); h.set_position(Meter(1e9), Meter(2e9), Meter(-5e8)); break; default: h.set_scale(2, 1, 0.5); } }

static void histories()
{
    World w; const int K = 12, D = (mc::thorough() ? 5 : 4) - SAN; auto E = eyes();
    mc::sequences(K, D, [&](const std::vector<int>& s) -> bool {
        // 0 subframe, 1 up, 2..6 instance, 7.. settings of the last node, 11 delete last instance
        if (s.empty()) return true;
        bool made = false; for (std::size_t i = 0; i < s.size(); ++i) { if (s[i] <= 6 && s[i] != 1) made = true; if (s[i] >= 7 && !made) return false; if (s[i] == 1 && (i == 0 || s[i - 1] == 1)) return false; }
        bool inst = false; for (int x : s) inst |= x >= 2 && x <= 6; if (!inst || !mc::mine()) return true;
        std::vector<FrameHandle<TS>> path, tops; std::vector<Item> items; struct Made { std::optional<FrameHandle<TS>> f; std::optional<InstanceHandle<TS>> i; std::optional<FrameHandle<TS>> parent; }; std::vector<Made> made_; std::optional<std::size_t> last;
        mc::at_s(mc::seq_str(s));
        for (int op : s) {
            if (op == 0) { auto f = path.empty() ? w.s.root.new_subframe() : path.back().new_subframe(); f.set_position(Meter(0.5 * double(path.size()) + 1), Meter(2), Meter(-1)); f.set_rotation(aa(1, 0, double(path.size()), 0.7)); if (path.empty()) tops.push_back(f); path.push_back(f); made_.push_back({f, {}, {}}); last = made_.size() - 1; }
            else if (op == 1) { if (!path.empty()) path.pop_back(); }
            else if (op <= 6) { static const Kind ks[] = {PA, PB, LA, UN, MO}; Kind k = ks[op - 2]; auto i = path.empty() ? w.inst(w.s.root, k) : w.inst(path.back(), k); Made m; m.i = i; if (!path.empty()) m.parent = path.back(); made_.push_back(m); last = made_.size() - 1; items.push_back({k, std::static_pointer_cast<Node<TS>>(i.get())}); }
            else if (op <= 10) { auto& m = made_[*last]; static const int what[] = {0, 1, 2, 3}; int q = what[op - 7]; if (m.f) pose(*m.f, q); else if (m.i) pose(*m.i, q); }
            else { for (std::size_t j = made_.size(); j-- > 0;) if (made_[j].i) { auto i = *made_[j].i; auto n = std::static_pointer_cast<Node<TS>>(i.get()); for (std::size_t q = 0; q < items.size(); ++q) if (items[q].n == n) { items.erase(items.begin() + std::ptrdiff_t(q)); break; } n.reset(); if (made_[j].parent) made_[j].parent->delete_instance(i); else w.s.root.delete_instance(i); made_.erase(made_.begin() + std::ptrdiff_t(j)); if (made_.empty()) last.reset(); else last = made_.size() - 1; break; } if (!last) break; }
        }
        for (auto& e : E) {
            mc::at_s(mc::seq_str(s) + mc::fmt(" eye %d, %zu samples, mode %d", e.id, e.n, int(e.mode))); mc::evaluated(!items.empty());
            w.cam.use_blender_convention(e.id == 1); w.cam.set_sensor_rotation(units::Radian(e.id == 2 ? 0.35 : 0)); auto f = w.s.root.new_subframe(); auto c = e.id ? f.new_instance(w.cam) : w.s.root.new_instance(w.cam); if (e.id == 1) { pose(f, 0); pose(c, 3); c.set_position(Meter(1), Meter(1), Meter(1)); } if (e.id == 2) { f.set_position(Meter(-40), Meter(3), Meter(1)); f.set_velocity(MPS(3), MPS(-1), MPS(7)); pose(c, 0); pose(c, 1); }
            { SceneView<TS> v(w.s, Interval{Time::from_et(100), Time::from_et(100 + e.dt)}, c, e.mode, e.n); Node<TS>& cn = *c.get(); compare(w, v, items, cn, w.cam.get()->sensor_rotation(), e); mc::count("views"); mc::check(v.get_start_time().et() == 100 && v.get_end_time().et() == 100 + e.dt, "interval", "the view reports another interval"); }
            w.s.root.delete_subframe(f); if (!e.id) w.s.root.delete_instance(c);
        }
        mc::outcome(mc::fmt("%zu items", items.size()));
        std::vector<InstanceHandle<TS>> rest; for (auto& m : made_) if (m.i && !m.parent) rest.push_back(*m.i); items.clear(); made_.clear(); path.clear(); for (auto& i : rest) w.s.root.delete_instance(i); for (auto& f : tops) w.s.root.delete_subframe(f);
        return true;
    });
}
static void fast()
{
    // bodies moving at a tenth of the speed of light, all modes and sample counts
    World w; std::vector<Item> items; for (int k = 0; k < 5; ++k) { auto f = w.s.root.new_subframe(); if (k & 1) pose(f, 4); auto i = w.inst(f, Kind(k)); pose(i, k < 3 ? 4 : 1); items.push_back({Kind(k), std::static_pointer_cast<Node<TS>>(i.get())}); } auto c = w.s.root.new_instance(w.cam); c.set_velocity(MPS(-3e7), MPS(1e7), MPS(2e7)); c.set_rotation(aa(1, 1, 0, 0.4));
    for (auto m : {ObservationMode::TRUE_STATE, ObservationMode::GEOMETRIC_STATE, ObservationMode::ABERRATED_STATE}) for (std::size_t n : {0u, 1u, 2u, 3u, 5u}) for (double dt : {0.0, 1.0, 60.0}) { mc::at("fast bodies mode %d, %zu samples over %g s", int(m), n, dt); mc::evaluated(true); SceneView<TS> v(w.s, Interval{Time::from_et(100), Time::from_et(100 + dt)}, c, m, n); compare(w, v, items, *c.get(), w.cam.get()->sensor_rotation(), {0, n ? n : 1, m, dt}); mc::count("views"); }
    mc::at("a view from an instance that is no camera"); mc::evaluated(true); auto p = w.s.root.new_instance(w.A); mc::check(mc::throws([&] { SceneView<TS> v(w.s, Interval{Time::from_et(1), Time::from_et(2)}, p, ObservationMode::TRUE_STATE, 1); }), "no-camera", "accepted");
}

// ---- ray queries ----
struct Tri { Vd a, b, c; int inst; };
struct Ball { Vd c; double r; };
struct Near { double t = 1e300; int inst = -1; Vd n{0}; };
static Near brute(const std::vector<Tri>& ts, const std::vector<Ball>& bs, Vd o, Vd d, unsigned mask)
{
    Near h; if (mask & 1) for (auto& x : ts) { Vd e1 = x.b - x.a, e2 = x.c - x.a, p = glm::cross(d, e2); double det = glm::dot(e1, p); if (std::fabs(det) < 1e-14) continue; Vd s = o - x.a; double u = glm::dot(s, p) / det; Vd q = glm::cross(s, e1); double v = glm::dot(d, q) / det, t = glm::dot(e2, q) / det; if (u < 0 || v < 0 || u + v > 1 || t <= 0 || t >= h.t) continue; h.t = t; h.inst = x.inst; h.n = glm::normalize(glm::cross(e1, e2)); }
    if (mask & 2) for (std::size_t i = 0; i < bs.size(); ++i) { Vd l = bs[i].c - o; double b = glm::dot(l, d), q = b * b - glm::dot(l, l) + bs[i].r * bs[i].r; if (q <= 0) continue; double t = b - std::sqrt(q); if (t <= 0) t = b + std::sqrt(q); if (t <= 0 || t >= h.t) continue; h.t = t; h.inst = 1000 + int(i); h.n = glm::normalize(o + d * t - bs[i].c); }
    return h;
}
static void rays()
{
    for (int cfg = 0; cfg < 8; cfg += SAN ? 3 : 1) for (std::size_t n : {1u, 2u, 3u}) {
        if (!mc::mine()) continue;
        World w; auto c = w.s.root.new_instance(w.cam); if (cfg & 1) pose(c, 0); if (cfg & 2) { pose(c, 1); } std::vector<Item> it; Rd R = cfg & 1 ? aa(1, 2, -0.5, 0.8) : Rd(); Vd P = cfg & 1 ? Vd{3, -2, 8} : Vd{0};
        auto put = [&](Kind k, Vd p, int style) { auto i = w.inst(w.s.root, k); Vd q = P + R * p; i.set_position(Meter(q.x), Meter(q.y), Meter(q.z)); i.set_rotation(R * aa(1, double(style), 0.5, 0.6 * style)); if (style == 2) i.set_scale(1.5, 0.6, 1); if (style == 3) i.set_velocity(MPS(0.4), MPS(0.2), MPS(-0.3)); it.push_back({k, std::static_pointer_cast<Node<TS>>(i.get())}); };
        put(PA, {0, 0, 6}, 0); put(PA, {1.2, 0.4, 8}, 1); put(PB, {-1, 0, 7}, 2); put(PB, {0, 0, 10}, 3); put(LA, {-1.5, 1, 5}, 0); put(LA, {1, -1, 9}, cfg & 4 ? 3 : 2); if (cfg & 4) { put(PA, {0, 0, -5}, 2); put(PB, {0.2, -0.1, 6.2}, 1); }
        Eye e{0, n, ObservationMode::TRUE_STATE, n == 1 ? 0.0 : 2.0}; SceneView<TS> v(w.s, Interval{Time::from_et(100), Time::from_et(100 + e.dt)}, c, e.mode, n); auto ts = stamps(100, e.dt, n);
        std::vector<float> times{0.5f}; if (n > 1) times = {0.f, 0.25f, 0.5f, 0.8f, 1.f};
        std::vector<std::vector<T>> tr; for (auto& i : it) tr.push_back(expected(*c.get(), w.cam.get()->sensor_rotation(), *i.n, e, ts)[0]);
        for (float tm : times) {
            std::vector<Tri> tri; std::vector<Ball> ball; std::vector<int> kinds;
            for (std::size_t i = 0; i < it.size(); ++i) { T t = tr[i][0]; if (n > 1) { double x = double(tm) * double(n - 1); std::size_t j = std::min(std::size_t(x), n - 2); double f = x - double(j); t.p = tr[i][j].p * (1 - f) + tr[i][j + 1].p * f; } if (it[i].k == LA) ball.push_back({t.p, 0.5}); /* a light's radius is physical */ else { auto& V = it[i].k == PA ? w.va : w.vb; auto& I = it[i].k == PA ? w.ia : w.ib; for (std::size_t q = 0; q < I.size(); q += 3) { auto g = [&](std::size_t z) { return mp(t, Vd(V[I[q + z]])); }; tri.push_back({g(0), g(1), g(2), int(i)}); } } }
            std::vector<Ray<TS>> rs; std::vector<Near> want; int G = mc::thorough() ? 41 : SAN ? 9 : 25;
            for (auto& o : {Vd{0, 0, 0}, Vd{0.3, 0.2, 12}, Vd{-1.4, 1.1, 5.1}}) for (int a = 0; a < G; ++a) for (int b = 0; b < G; ++b) { Vd d = glm::normalize(Vd{(a - G / 2) * 12.0 / (10 * G) + 0.0031, (b - G / 2) * 12.0 / (10 * G) + 0.0017, o.z > 10 ? -1 : a % 7 == 3 && b % 5 == 2 ? -1 : 1}); Vf of{float(o.x), float(o.y), float(o.z)}, df{float(d.x), float(d.y), float(d.z)}; rs.push_back(Ray<TS>(of, df)); }
            auto batch = v.intersect(rs, tm); auto res = v.resolve_hits(rs, batch, tm); mc::check(batch.size() == rs.size() && res.size() == rs.size(), "batch-size", "%zu hits for %zu rays", batch.size(), rs.size());
            for (std::size_t i = 0; i < rs.size(); ++i) {
                Vd o(rs[i].origin()), d(rs[i].direction()); mc::at("view %d, %zu samples, time %g, ray %zu from (%g,%g,%g) along (%g,%g,%g)", cfg, n, double(tm), i, o.x, o.y, o.z, d.x, d.y, d.z); mc::evaluated(true);
                auto s = v.intersect(rs[i], tm); auto& q = batch[i]; mc::check(s.hit() == q.hit() && (!s.hit() || (s.t == q.t && s.inst_id == q.inst_id && s.geom_id == q.geom_id && s.prim_id == q.prim_id && s.u == q.u && s.v == q.v && s.Ng == q.Ng)), "batched", "single and batched queries differ");
                for (unsigned mask : {3u, 1u, 2u, 0u}) {
                    auto g = v.intersect(rs[i], tm, mask == 3 ? 0xFFFFFFFFu : mask); Near e0 = brute(tri, ball, o, d, mask); bool sure = true; // not near an edge, nor a tie
                    for (int k = 0; k < 4 && sure; ++k) { Vd off{k == 0 ? 2e-4 : k == 1 ? -2e-4 : 0, k == 2 ? 2e-4 : k == 3 ? -2e-4 : 0, 0}; Near e1 = brute(tri, ball, o, glm::normalize(d + off), mask); sure = (e1.inst == e0.inst) && (e0.inst < 0 || std::fabs(e1.t - e0.t) < 2e-2); }
                    if (!sure) { mc::count("edge_rays_skipped"); continue; }
                    mc::check(g.hit() == (e0.inst >= 0), "hit", "mask %u: hit %d, the geometry says %d (t=%g, item %d)", mask, int(g.hit()), int(e0.inst >= 0), e0.t, e0.inst); if (!g.hit() || e0.inst < 0) continue;
                    mc::check(mc::near(double(g.t), e0.t, 2e-5, 2e-5), "distance", "mask %u: distance %.8g, exact %.8g", mask, double(g.t), e0.t); kinds.push_back(e0.inst);
                    auto r = v.resolve_hit(rs[i], g, tm); Vd p = o + d * e0.t, rp(r.position), rn(r.normal_g); mc::check(glm::length(rp - p) < 1e-4, "position", "mask %u: hit point off by %g", mask, glm::length(rp - p)); Vd nn = glm::dot(e0.n, d) > 0 ? -e0.n : e0.n; mc::check(glm::length(rn - nn) < 2e-3, "normal", "mask %u: normal (%g,%g,%g), exact (%g,%g,%g)", mask, rn.x, rn.y, rn.z, nn.x, nn.y, nn.z); mc::check(glm::length(Vd(r.wo) + d) < 1e-6, "outgoing", "outgoing direction is not back along the ray");
                    if (mask == 3) { auto& b = res[i]; mc::check(b.position == r.position && b.normal_g == r.normal_g && b.normal_s == r.normal_s && b.uv == r.uv && b.tangent == r.tangent && b.bitangent == r.bitangent && b.wo == r.wo, "batched", "single and batched hit resolution differ"); }
                }
            }
            std::set<int> ks(kinds.begin(), kinds.end()); mc::outcome(mc::fmt("%zu targets hit", ks.size())); mc::count("queries", rs.size() * 6);
        }
    }
}
// ---- snapshots ----
static std::string look(SceneView<TS>& v, bool image)
{
    Peek pk; std::string o; auto put = [&](auto& x) { o.append(reinterpret_cast<const char*>(&x), sizeof x); }; auto tf = [&](const Transform<float>& t) { put(t.position); put(t.scale); Vf x = t.rotation * Vf{1, 2, 3}; put(x); };
    for (auto& b : pk.prims(v)) { auto id = b.primitive->id(); put(id); for (auto& i : b.instances) for (auto& t : i) tf(t); } for (auto& l : pk.lights(v)) for (auto& t : l.transforms) tf(t); double a = v.get_start_time().et(), z = v.get_end_time().et(); put(a); put(z);
    for (int x = -8; x <= 8; ++x) for (int y = -8; y <= 8; ++y) { Vf d = glm::normalize(Vf{x * 0.1f, y * 0.1f, 1}); Ray<TS> r(Vf{0}, d); auto h = v.intersect(r, 0.3f); put(h.t); put(h.inst_id); if (h.hit()) { auto q = v.resolve_hit(r, h, 0.3f); put(q.position); put(q.normal_s); } }
    if (image) { pk.set_samples_per_pixel(1); pk.set_max_bounces(2); FrameBuffer<TS> fb = CameraModelHandle<TS>(pk.camera(v)).make_frame_buffer(); fb.enable_received_power(); pk.render(v, fb); auto& im = fb.received_power(); for (int y = 0; y < im.height(); ++y) for (int x = 0; x < im.width(); ++x) put(im(x, y)); }
    return o;
}
static void snapshots()
{
    const int NE = 17, STEP = SAN ? 40 : 5;
    auto run = [&](int e1, int e2, std::size_t n) {
        World w; auto f = w.s.root.new_subframe(); f.set_position(Meter(0), Meter(0), Meter(9)); auto g = f.new_subframe(); auto c = w.s.root.new_instance(w.cam); std::vector<InstanceHandle<TS>> in; for (int k = 0; k < 5; ++k) { auto i = w.inst(k & 1 ? g : f, Kind(k)); i.set_position(Meter(k - 2.), Meter(0.3 * k), Meter(0.2 * k)); in.push_back(i); }
        std::vector<Star<TS>> st{Star<TS>(glm::normalize(Vd{0.1, -0.2, 1}), TS{3}), Star<TS>(glm::normalize(Vd{-0.3, 0.25, 1}), TS{5})}; w.s.set_stars(st); w.s.set_background_radiance(TS{0.01f});
        Interval iv{Time::from_et(100), Time::from_et(n > 1 ? 102 : 100)}; auto v = std::make_unique<SceneView<TS>>(w.s, iv, c, ObservationMode::TRUE_STATE, n); auto v2 = std::make_unique<SceneView<TS>>(w.s, iv, c, ObservationMode::TRUE_STATE, n); std::string a = look(*v, true); mc::check(a == look(*v2, true), "same-inputs", "two views of the same scene differ");
        auto edit = [&](int e) { try { switch (e) {
            case 0: case 1: case 2: case 3: case 4: in[std::size_t(e)].set_position(Meter(1), Meter(-1), Meter(2)); break; case 5: f.set_position(Meter(5), Meter(0), Meter(20)); break; case 6: g.set_rotation(aa(1, 0, 0, 1)); break; case 7: g.set_scale(3); break; case 8: c.set_position(Meter(1), Meter(2), Meter(3)); break; case 9: c.set_rotation(aa(0, 1, 0, 0.3)); break;
            case 10: w.s.root.delete_subframe(f); break; case 11: w.s.set_stars({}); break; case 12: w.s.set_background_radiance(TS{0.5f}); break; case 13: w.s.delete_primitive(w.A); break; case 14: w.s.delete_light(w.L); break; case 15: w.inst(w.s.root, PB).set_position(Meter(0), Meter(0), Meter(4)); break; case 16: w.s.delete_model(*w.M); break; } } catch (const std::exception&) { mc::count("edits_refused"); } };
        mc::at("snapshot, %zu samples, edits %d %d", n, e1, e2); mc::evaluated(true); edit(e1); if (e2 >= 0) edit(e2); mc::check(a == look(*v, true), "snapshot", "the view changed with the scene"); mc::count("edits");
        bool unseen = false; if (e2 < 0) { if (e1 <= 9) { SceneView<TS> u(w.s, iv, c, ObservationMode::TRUE_STATE, n); unseen = look(u, true) == a; } else if (e1 != 13 && e1 != 14 && e1 != 16) { SceneView<TS> u(w.s, iv, c, ObservationMode::TRUE_STATE, n); unseen = look(u, true) == a; } } mc::check(!unseen, "stale", "a new view does not show the edit");
        v.reset(); mc::check(look(*v2, true) == a, "snapshot", "a view changed when another was destroyed");
    };
    for (std::size_t n : {1u, 3u}) for (int a = 0; a < NE; ++a) for (int b = -1; b < NE; ++b) if (mc::thorough() || b < 0 || (a + b) % STEP == 0) if (mc::mine()) run(a, b, n);
}
// ---- point sources ----
static void points()
{
    const double fl = 0.02, pitch = 1e-3; const int N = 40;
    for (int eye = 0; eye < 3; ++eye) for (auto m : {ObservationMode::TRUE_STATE, ObservationMode::GEOMETRIC_STATE, ObservationMode::ABERRATED_STATE}) for (int count = 0; count < 6; count += SAN ? 4 : 1) for (int style = 0; style < 2; ++style) {
        if (!mc::mine()) continue; World w; w.cam.use_blender_convention(eye == 1); w.cam.set_sensor_rotation(units::Radian(eye == 2 ? -0.8 : 0)); auto f = w.s.root.new_subframe(); auto c = f.new_instance(w.cam); if (eye) { pose(f, 0); c.set_rotation(aa(0, 0, 1, 0.3)); } Vd vel{0}; if (eye == 2) { vel = Vd{2e6, -3e6, 1e7}; f.set_velocity(MPS(vel.x), MPS(vel.y), MPS(vel.z)); }
        Node<TS>& cn = *c.get(); Time t = Time::from_et(100); auto ct = cn.get_apparent_transform(ObservationMode::TRUE_STATE, t, t, Transform<double>{}); Rd cr = ct.rotation * w.cam.get()->sensor_rotation(); double F = eye == 1 ? -1 : 1; std::vector<Star<TS>> st; std::vector<std::pair<Vd, double>> want; std::vector<std::shared_ptr<Node<TS>>> nodes;
        for (int i = 0; i < count; ++i) { Vd d{-0.6 + 0.25 * i, 0.35 - 0.17 * i, F}; if (i == 4) d = {0.1, 0.1, -F}; if (style == 0) { auto u = w.s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{TS{float(i + 1)}}); auto fr = w.s.root.new_subframe(); auto q = fr.new_instance(u); Vd p = ct.position + cr * (d * (1e3 + 1e9 * i)); q.set_position(Meter(p.x), Meter(p.y), Meter(p.z)); if (i & 1) q.set_velocity(MPS(4e6), MPS(0), MPS(-2e6)); nodes.push_back(std::static_pointer_cast<Node<TS>>(q.get())); want.push_back({Vd{0}, i + 1.}); } else { st.push_back(Star<TS>(glm::normalize(cr * d), TS{float(i + 1)})); want.push_back({glm::normalize(cr * d), i + 1.}); } }
        if (style) w.s.set_stars(st); mc::at("%d %s, eye %d, mode %d", count, style ? "stars" : "unresolved objects", eye, int(m)); mc::evaluated(count > 0);
        for (int i = 0; i < count; ++i) { auto& x = want[std::size_t(i)].first; if (style == 0) { auto q = nodes[std::size_t(i)]->get_apparent_transform(m, t, t, ct); x = glm::normalize(q.position - ct.position); } else { Vd b = vel / SPEED_OF_LIGHT<double>(); double g = 1 / std::sqrt(1 - glm::dot(b, b)), mu = glm::dot(b, x); x = glm::normalize((x + g * b + (g - 1) * mu / std::max(glm::dot(b, b), 1e-300) * b)); } x = cr.inverse() * x; }
        SceneView<TS> v(w.s, Interval{t, t}, c, m, 1); Renderer<TS> r; r.set_samples_per_pixel(1); r.set_max_bounces(1); FrameBuffer<TS> fb = w.cam.make_frame_buffer(); fb.enable_received_power(); r.render(v, fb); auto& im = fb.received_power();
        std::vector<std::array<double, 3>> exp; for (auto& q : want) { Vd d = q.first; if (d.z * F <= 0) continue; double x = d.x / std::fabs(d.z) * fl / pitch + N / 2., y = (F < 0 ? -d.y : d.y) / std::fabs(d.z) * fl / pitch + N / 2.; if (x < 0 || y < 0 || x >= N || y >= N) continue; exp.push_back({x, y, q.second}); }
        double scale = 0; int lit = 0; for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) if (double(im(x, y)[0]) > 0) ++lit; mc::check(lit == int(exp.size()), "sources", "%d pixels lit by %zu visible sources", lit, exp.size());
        for (auto& q : exp) { double best = 0; for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) if (std::fabs(x + .5 - q[0]) < 0.505 && std::fabs(y + .5 - q[1]) < 0.505) best = std::max(best, double(im(x, y)[0])); mc::check(best > 0, "sources", "no light at (%.3f,%.3f)", q[0], q[1]); double ca = 1 / std::sqrt(1 + std::pow((q[0] - N / 2.) * pitch / fl, 2) + std::pow((q[1] - N / 2.) * pitch / fl, 2)), k = best / q[2] / ca; if (scale == 0) scale = k; mc::check(std::fabs(k / scale - 1) < 3e-2, "sources", "source of strength %g: %g per unit, the first gives %g", q[2], k, scale); }
        mc::count("point_views"); mc::outcome(mc::fmt("%d points", lit));
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); sc::start(); Logger::set_level(LogLevel::Error);
    histories(); if (mc::mine()) fast(); rays(); snapshots(); points();
    return mc::finish();
}
