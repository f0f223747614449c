// C35: every sequence of frame-buffer operations to the bound against a reference buffer; every subset of channels of every small scene against the render with all channels; geometric channels against exact geometry.
#include "scenes.hpp"
#ifdef USE8
using TS = Visible8;
#else
using TS = RGB;
#endif
using FB = FrameBuffer<TS>; using Sen = typename FB::SensorT;
enum Ch { DEPTH, ALBEDO, IDS, CAMN, WORLDN, DIRECT, INDIRECT, POWER, SENSOR, NCH };
static const char* NAME[NCH] = {"depth", "albedo", "ids", "camera-normals", "world-normals", "direct", "indirect", "power", "sensor"};
static const char* key(const char* p, int c) { static std::map<std::pair<std::string, int>, std::string> m; auto& s = m[{p, c}]; if (s.empty()) s = std::string(p) + NAME[c]; return s.c_str(); }
using sc::Meter;
template <class F> static void with(FB& b, int c, F f)
{
    switch (c) { case DEPTH: f(b.depth()); break; case ALBEDO: f(b.albedo()); break; case IDS: f(b.geometry_ids()); break; case CAMN: f(b.camera_normals()); break; case WORLDN: f(b.world_normals()); break; case DIRECT: f(b.received_direct_power()); break; case INDIRECT: f(b.received_indirect_power()); break; case POWER: f(b.received_power()); break; default: f(b.sensor_response()); }
}
static bool has(FB& b, int c) { switch (c) { case DEPTH: return b.has_depth(); case ALBEDO: return b.has_albedo(); case IDS: return b.has_geometry_ids(); case CAMN: return b.has_camera_normals(); case WORLDN: return b.has_world_normals(); case DIRECT: return b.has_received_direct_power(); case INDIRECT: return b.has_received_indirect_power(); case POWER: return b.has_received_power(); default: return b.has_sensor_response(); } }
static void enable(FB& b, int c, bool on) { switch (c) { case DEPTH: b.enable_depth(on); break; case ALBEDO: b.enable_albedo(on); break; case IDS: b.enable_geometry_ids(on); break; case CAMN: b.enable_camera_normals(on); break; case WORLDN: b.enable_world_normals(on); break; case DIRECT: b.enable_received_direct_power(on); break; case INDIRECT: b.enable_received_indirect_power(on); break; case POWER: b.enable_received_power(on); break; default: b.enable_sensor_response(on); } }
template <class P> static P val(double v) { if constexpr (std::is_arithmetic_v<P>) return P(v); else if constexpr (std::is_same_v<P, Vec3<float>>) return P{float(v), float(v + 1), float(v + 2)}; else { P p{0}; for (std::size_t i = 0; i < P::size(); ++i) p[i] = float(v + double(i)); return p; } }
static std::vector<std::uint32_t> bits(FB& b, int c)
{
    std::vector<std::uint32_t> o; if (!has(b, c)) return o;
    with(b, c, [&](auto& im) { using P = std::decay_t<decltype(im(0, 0))>; for (int y = 0; y < im.height(); ++y) for (int x = 0; x < im.width(); ++x) { auto put = [&](auto v) { if constexpr (sizeof(v) == 8) { std::uint64_t u; std::memcpy(&u, &v, 8); o.push_back(std::uint32_t(u)); o.push_back(std::uint32_t(u >> 32)); } else { if (v == decltype(v)(0)) v = 0; std::uint32_t u; std::memcpy(&u, &v, 4); o.push_back(u); } };
        const P& p = im(x, y); if constexpr (std::is_arithmetic_v<P>) put(p); else if constexpr (std::is_same_v<P, Vec3<float>>) { put(p.x); put(p.y); put(p.z); } else for (std::size_t i = 0; i < P::size(); ++i) put(p[i]); } });
    return o;
}
struct Mod { bool on[NCH] = {}; std::vector<std::vector<double>> v = std::vector<std::vector<double>>(NCH); };
static constexpr int W = 3, H = 2; static double BASE(int c) { return c == DEPTH ? std::numeric_limits<double>::infinity() : 0; }
template <class P> static bool eqv(const P& p, double v, bool base) { if constexpr (std::is_arithmetic_v<P>) return p == P(v); else if constexpr (std::is_same_v<P, Vec3<float>>) { return base ? p == Vec3<float>{0, 0, 0} : p == val<P>(v); } else { P q = base ? P{0} : val<P>(v); for (std::size_t i = 0; i < P::size(); ++i) if (p[i] != q[i]) return false; return true; } }
static void histories(CameraModelHandle<TS>& cam)
{
    const int NOP = NCH * 3 + 1; FB fresh = cam.make_frame_buffer();
    mc::sequences(NOP, mc::thorough() ? 4 : 3, [&](const std::vector<int>& h) {
        FB b = fresh; Mod m; auto on = [&](int c) { if (!m.on[c]) { m.on[c] = true; m.v[std::size_t(c)].assign(W * H, BASE(c)); } };
        double stamp = 10; std::string name; bool legal = true;
        for (int op : h) {
            if (op == NOP - 1) { b.clear(); for (int c = 0; c < NCH; ++c) if (m.on[c]) m.v[std::size_t(c)].assign(W * H, BASE(c)); continue; }
            int c = op / 3; switch (op % 3) {
            case 0: enable(b, c, true); on(c); if (c == SENSOR) on(POWER); break;
            case 1: enable(b, c, false); m.on[c] = false; break;
            default: if (!m.on[c]) { legal = false; break; } stamp += 7; with(b, c, [&](auto& im) { using P = std::decay_t<decltype(im(0, 0))>; im(1, 0) = val<P>(stamp); im(2, 1) = val<P>(stamp + 3); }); m.v[std::size_t(c)][1] = stamp; m.v[std::size_t(c)][5] = stamp + 3;
            }
            if (!legal) break;
        }
        if (!legal) return false;
        mc::at_s("operations " + mc::seq_str(h)); mc::evaluated(h.size() > 1); std::string st;
        for (int c = 0; c < NCH; ++c) {
            bool e = has(b, c); mc::check(e == m.on[c], key("enabled-", c), "channel %s is %s, expected %s", NAME[c], e ? "on" : "off", m.on[c] ? "on" : "off"); st += e ? '1' : '0'; if (!e || !m.on[c]) continue;
            with(b, c, [&](auto& im) { mc::check(im.width() == W && im.height() == H, key("size-", c), "channel %s is %dx%d", NAME[c], im.width(), im.height()); if (im.width() != W || im.height() != H) return; for (int k = 0; k < W * H; ++k) { double v = m.v[std::size_t(c)][std::size_t(k)]; mc::check(eqv(im(k % W, k / W), v, v == BASE(c)), key("content-", c), "channel %s pixel %d is not %g", NAME[c], k, v); } });
        }
        mc::outcome(st); return true;
    });
}
struct Setup { int scene, n, bounces; bool glare, dynamic; };
static void subsets()
{
    std::vector<Setup> L; for (int k = 0; k < sc::NSCENES; ++k) { L.push_back({k, k == 9 ? 2 : 1, 3, false, false}); if (k == 8 || k == 13) L.push_back({k, 2, 3, true, false}); if (k == 4 || k == 12) L.push_back({k, 1, 3, false, true}); }
    for (auto& u : L) {
        if (!mc::mine()) continue;
        sc::Stage<TS> g(20, 6); sc::fill(g, u.scene); if (u.glare) g.cam.set_veiling_glare(0.1f);
        auto v = g.view(std::size_t(u.n), u.n > 1 ? 0.4 : 0); Renderer<TS> r; r.set_samples_per_pixel(u.dynamic ? 12 : 3); r.set_max_bounces(u.bounces); if (u.dynamic) { r.set_dynamic_sampling(); r.set_min_samples(2); r.set_variance_threshold(0.05f); }
        FB all = g.cam.make_frame_buffer(), none = all; for (int c = 0; c < NCH; ++c) enable(all, c, true); r.render(v, all); std::vector<std::vector<std::uint32_t>> ref; for (int c = 0; c < NCH; ++c) ref.push_back(bits(all, c));
        if (!u.glare && u.scene != 8 && u.scene != 13) for (int bounces : {1, u.bounces}) { // direct and indirect light are the parts of the whole
            mc::at("scene %d, %d bounces: direct and indirect power", u.scene, bounces); mc::evaluated(true); Renderer<TS> q = r; q.set_max_bounces(bounces); FB w = none; for (int c : {DIRECT, INDIRECT, POWER}) enable(w, c, true); q.render(v, w);
            for (int y = 0; y < 6; ++y) for (int x = 0; x < 20; ++x) for (std::size_t i = 0; i < TS::size(); ++i) { double d = w.received_direct_power()(x, y)[i], n = w.received_indirect_power()(x, y)[i], t = w.received_power()(x, y)[i]; mc::check(mc::near(d + n, t, 4e-6), "parts", "pixel (%d,%d): direct %.9g plus indirect %.9g is not the received %.9g", x, y, d, n, t); if (bounces == 1) mc::check(n == 0, "one-bounce", "pixel (%d,%d): indirect power %g with one bounce", x, y, n); else if (n > 0) mc::outcome("indirect"); }
        }
        FB dirty = all; bool any = false;
        for (int m = 0; m < (1 << NCH); ++m) for (int reuse = 0; reuse < 2; ++reuse) {
            if (reuse && !mc::thorough() && m % 7 != 0 && m != (1 << NCH) - 1) continue;
            mc::at("scene %d samples %d glare %d dynamic %d channels %x %s", u.scene, u.n, u.glare, u.dynamic, m, reuse ? "reused buffer" : "fresh buffer"); mc::evaluated(m != 0); FB b = reuse ? dirty : none; for (int c = 0; c < NCH; ++c) enable(b, c, m >> c & 1); if (!(m >> POWER & 1)) enable(b, POWER, false);
            if (reuse) for (int c = 0; c < NCH; ++c) if (has(b, c)) with(b, c, [&](auto& im) { using P = std::decay_t<decltype(im(0, 0))>; im.fill(val<P>(0.625)); });
            r.render(v, b);
            for (int c = 0; c < NCH; ++c) {
                bool want = m >> c & 1; mc::check(has(b, c) == want, key("render-enabled-", c), "after the render channel %s is %s", NAME[c], has(b, c) ? "on" : "off"); if (!want || !has(b, c)) continue;
                if (c == SENSOR && !(m >> POWER & 1)) { continue; } // nothing was received
                mc::check(bits(b, c) == ref[std::size_t(c)], key("render-", c), "channel %s differs from the render with every channel", NAME[c]); any = true;
            }
            mc::count("renders");
        }
        mc::outcome(mc::fmt("scene %d %d", u.scene, any));
    }
}
// exact geometry: planar bodies and a sphere seen by cameras in several poses
static void geometry()
{
    struct Cam { Rotation<double> R; Vec3<double> P; bool blend; double roll; };
    auto aa = [](double x, double y, double z, double a) { return Rotation<double>::from_local_to_parent(glm::normalize(Vec3<double>{x, y, z}), units::Radian(a)); };
    std::vector<Cam> cams; int i = 0; for (auto& R : {Rotation<double>(), aa(1, 0, 0, 1.1), aa(0.3, -0.8, 0.5, 2.2), aa(0, 1, 0, 3.14159)}) for (auto& P : {Vec3<double>{0, 0, 0}, Vec3<double>{1000, -50, 20}}) for (bool bl : {false, true}) for (double roll : {0.0, 0.7}) { ++i; if (mc::thorough() || i % 3 == 1) cams.push_back({R, P, bl, roll}); }
    const int w = 20, h = 8; const double pitch = 500e-6;
    for (auto& c : cams) for (int body = 0; body < 6; ++body) for (int extra = 0; extra < 3; ++extra) {
        if (!mc::mine()) continue;
        sc::Stage<TS> g(w, h, 500, c.blend, c.R, c.P); if (c.roll != 0) g.cam.set_sensor_rotation(units::Radian(c.roll)); auto& s = g.s;
        auto prim = [&](auto geo, auto mat) { return s.add_primitive(GeometryHandle<TS>{geo.get()}, mat); };
        // body: 0 square ahead, 1 tilted square (flat normals from the mesh), 2 tilted, no vertex normals, 3 sphere, 4 square moved off centre, 5 tilted square without vertex normals, scaled
        double tilt = body == 1 || body == 2 || body == 5 ? 0.5 : 0, x0 = body == 4 ? 1.3 : 0.2, y0 = 0.1, d0 = 10, r = 1.6; Vec3<double> sc3 = body == 5 ? Vec3<double>{1.2, 0.8, 2} : Vec3<double>{1, 1, 1};
        auto mat = g.matte(0.65); auto p = body == 3 ? prim(s.add_ellipsoid(Meter(r), Meter(r), Meter(r)), mat) : prim(g.quad(r, body != 2 && body != 5, body == 1, tilt), mat); auto inst = g.put(p, x0, y0, d0); if (body == 5) inst.set_scale(sc3.x, sc3.y, sc3.z);
        if (extra == 1) g.put(prim(g.quad(3), g.matte(0.2)), 0, 0, 14); // a background plane
        if (extra == 2) g.put(prim(g.quad(3), g.matte(0.2, 0.0)), 0, 0, 5); // an invisible plane in front
        auto v = g.view(); Renderer<TS> rr; rr.set_samples_per_pixel(6); FB b = g.cam.make_frame_buffer(); for (int k = 0; k < POWER; ++k) enable(b, k, true); rr.render(v, b);
        mc::at("camera %s roll %g pose (%g,%g,%g) body %d extra %d", c.blend ? "blender" : "default", c.roll, c.P.x, c.P.y, c.P.z, body, extra); mc::evaluated(true);
        // reference: rays in instance axes (x, y as the camera, z forward is +fwd); sensor roll rotates the ray
        double F = g.fwd(); auto ray = [&](double px, double py) { double ux = (px - w / 2.0) * pitch / sc::Stage<TS>::f, uy = (py - h / 2.0) * pitch / sc::Stage<TS>::f; Vec3<double> d = c.blend ? Vec3<double>{ux, -uy, -1} : Vec3<double>{ux, uy, 1}; d = Rotation<double>::from_local_to_parent(Vec3<double>{0, 0, 1}, units::Radian(c.roll)) * d; return glm::normalize(d); };
        auto hit = [&](const Vec3<double>& d, double& t, Vec3<double>& n) { // in camera axes (instance axes)
            Vec3<double> C{x0, y0, F * d0};
            if (body == 3) { double bq = glm::dot(d, C), disc = bq * bq - glm::dot(C, C) + r * r; if (disc <= 0) return false; t = bq - std::sqrt(disc); n = (d * t - C) / r; return true; }
            Vec3<double> e1{sc3.x, 0, tilt * sc3.z}, e2{0, sc3.y, 0}; n = glm::normalize(glm::cross(e1, e2)); if (glm::dot(n, d) > 0) n = -n; t = glm::dot(C, n) / glm::dot(d, n); if (t <= 0) return false; Vec3<double> q = d * t - C; double a = q.x / sc3.x, bb = q.y / sc3.y; return std::fabs(a) <= r && std::fabs(bb) <= r; };
        int full = 0, empty = 0;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            int in = 0; double lo = 1e30, hi = 0; Vec3<double> nlo{2}, nhi{-2}; const int K = 4;
            for (int a = 0; a <= K; ++a) for (int bq = 0; bq <= K; ++bq) { double t; Vec3<double> n; Vec3<double> d = ray(x + double(a) / K, y + double(bq) / K); if (hit(d, t, n)) { ++in; lo = std::min(lo, t); hi = std::max(hi, t); nlo = glm::min(nlo, n); nhi = glm::max(nhi, n); } }
            double slack = body == 3 ? 0.25 * (hi - lo) + 1e-3 : 2e-3; float D = b.depth()(x, y); auto wn = b.world_normals()(x, y); auto cn = b.camera_normals()(x, y); double al = b.albedo()(x, y)[0];
            if (in == (K + 1) * (K + 1)) {
                if (body == 3 && hi - lo > 0.5) continue;
                ++full; mc::check(double(D) >= lo - slack && double(D) <= hi + slack, "depth", "pixel (%d,%d): depth %.6g, the body is %.6g to %.6g away", x, y, double(D), lo, hi);
                mc::check(mc::near(al, 0.65, 1e-4), "albedo", "pixel (%d,%d): albedo %.6g, expected 0.65", x, y, al);
                // camera axes of the sensor: undo the roll
                auto un = [&](Vec3<double> n) { return Rotation<double>::from_local_to_parent(Vec3<double>{0, 0, 1}, units::Radian(-c.roll)) * n; };
                double nt = body == 3 ? 0.12 : 2e-5; Vec3<double> mid = (nlo + nhi) * 0.5; Vec3<double> ec = un(mid), ew = c.R * mid; 
                for (int q = 0; q < 3; ++q) { double half = body == 3 ? nt : nt; mc::check(std::fabs(double(cn[q]) - ec[q]) <= half, "camera-normal", "pixel (%d,%d): camera normal (%.5f,%.5f,%.5f), expected (%.5f,%.5f,%.5f)", x, y, double(cn.x), double(cn.y), double(cn.z), ec.x, ec.y, ec.z); mc::check(std::fabs(double(wn[q]) - ew[q]) <= half, "world-normal", "pixel (%d,%d): world normal (%.5f,%.5f,%.5f), expected (%.5f,%.5f,%.5f)", x, y, double(wn.x), double(wn.y), double(wn.z), ew.x, ew.y, ew.z); }
                mc::check(std::fabs(double(glm::length(cn)) - 1) < 1e-4, "unit-normal", "pixel (%d,%d): normal of length %g", x, y, double(glm::length(cn)));
                mc::check(b.geometry_ids()(x, y) != std::numeric_limits<std::uint64_t>::max(), "id", "pixel (%d,%d) shows a body but has no geometry id", x, y);
            } else if (in == 0 && extra != 1) {
                bool nb = false; for (int a = -1; a <= K + 1; ++a) for (int bq = -1; bq <= K + 1; ++bq) { double t; Vec3<double> n; if (hit(ray(x + double(a) / K, y + double(bq) / K), t, n)) nb = true; } if (nb) continue;
                ++empty; mc::check(std::isinf(D), "depth-none", "pixel (%d,%d) shows nothing but has depth %g", x, y, double(D)); mc::check(al == 0 && cn == Vec3<float>{0, 0, 0} && wn == Vec3<float>{0, 0, 0}, "none", "pixel (%d,%d) shows nothing but has albedo or normals", x, y);
                if (extra == 0) mc::check(b.geometry_ids()(x, y) == std::numeric_limits<std::uint64_t>::max(), "id-none", "pixel (%d,%d) shows nothing but has a geometry id", x, y);
            } else if (extra == 1 && in == 0) { mc::check(double(D) > 13.9, "depth-back", "pixel (%d,%d) shows the plane behind but has depth %g", x, y, double(D)); }
        }
        mc::check(full > 5 && (empty > 5 || extra == 1), "vacuous", "only %d covered and %d empty pixels", full, empty); mc::outcome(mc::fmt("%d %d %d", body, full, empty)); mc::count("images");
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); sc::start();
    try {
        { Scene<TS> s; auto cam = s.new_camera_model("c"); cam.configure_sensor_from_pitch(Resolution{W, H}, units::Micrometer{5}); histories(cam); }
        subsets(); geometry();
    } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); }
    return mc::finish();
}
