// C45: every sequence of scene edits to the bound - materials, textures, backgrounds, stars, lights, unresolved objects, primitives, instances and frames, with names, refusals and renders in between - rendered and compared with a scene built directly in its final state.
#include "scenes.hpp"
#include <optional>
using TS = RGB; using namespace sc;
static CameraModelHandle<TS>* CAM; // one camera for all scenes
struct Look { int albedo = 0, image = 0, alpha = 0, aimage = 0, eimage = 0, emit = 0, trans = 0, bsdf = 0, rough = 0, metal = 0; };
struct Spec { // what the scene should be
    int bg = 1, stars = 1; bool sun = true, lamp = false; double irr = 3; bool point = true, quad = true, twin = false, ball = true, frame = true; Look m; int place = 0, scale = 0, fplace = 0, ballmat = 0; int turn = 0, speed = 0, spin = 0, fspin = 0, eye = 0; bool cloud = false, sunlast = false; int spp = 8, bounces = 2; bool dynamic = false, clamp = false;
};
struct W {
    Scene<TS> s; InstanceHandle<TS> eye; std::optional<MaterialHandle<TS>> m, n; std::optional<MeshHandle<TS>> geo; std::optional<PrimitiveHandle<TS>> quad, ball; std::optional<LightHandle<TS>> sun, lamp; std::optional<UnresolvedObjectHandle<TS>> point;
    std::optional<InstanceHandle<TS>> iq, it, ib, ip, is, il; std::optional<FrameHandle<TS>> frame; std::map<int, BSDFHandle<TS>> b; std::map<int, TextureHandle<TS>> tex; std::map<int, TextureHandle<float>> ftex;
    Renderer<TS> r; FrameBuffer<TS> fb; std::optional<PrimitiveHandle<TS>> cloud;
    W() : eye(s.root.new_instance(*CAM)), fb(CAM->make_frame_buffer()) { r.set_samples_per_pixel(8); r.set_max_bounces(2); fb.enable_received_power(); fb.enable_depth(); }
    static Image<TS> chess(float a, float b) { Image<TS> t(2, 2, TS{a}); t(0, 0) = ramp<TS>(b, a); t(1, 1) = TS{b}; return t; }
    TextureHandle<TS> texture(int k) { auto i = tex.find(k); if (i == tex.end()) i = tex.emplace(k, s.add_texture(chess(0.2f * float(k), 0.9f))).first; return i->second; }
    TextureHandle<float> ftexture(int k) { auto i = ftex.find(k); if (i == ftex.end()) { Image<float> t(2, 2, 0.25f * float(k)); t(0, 0) = 0.9f; i = ftex.emplace(k, s.add_texture(std::move(t))).first; } return i->second; }
    BSDFHandle<TS> bsdf(int k) { auto i = b.find(k); if (i == b.end()) i = b.emplace(k, k == 0 ? s.new_bsdf_lambertian("") : k == 1 ? s.new_bsdf_lommel_seeliger("") : k == 2 ? s.new_bsdf_cook_torrance("") : s.new_bsdf_null("")).first; return i->second; }
    void background(int k) { if (k == 0) s.set_background_radiance(0.f); if (k == 1) s.set_background_radiance(0.6f); if (k == 2) s.set_background_radiance(ramp<TS>(0.5, 0.1)); if (k == 3) { Image<TS> b(8, 4, TS{0}); for (int y = 0; y < 4; ++y) for (int x = 0; x < 8; ++x) b(x, y) = ramp<TS>(0.1 * x, 0.3 * y); s.set_background_radiance(std::move(b)); } }
    void stars(int k) { std::vector<Star<TS>> v; for (int i = 0; i < k; ++i) v.push_back(Star<TS>(glm::normalize(Vec3<double>{-0.12 + 0.2 * i, 0.1 - 0.02 * k, 1}), TS{1e-4f * (2.f + float(k))})); s.set_stars(v); }
    void setMat(const Look& a) { if (a.bsdf) m->set_bsdf(bsdf(a.bsdf).get()); if (a.albedo == 1) m->set_albedo_factor(TS{0.3f}); if (a.image) m->set_albedo_image(texture(1)); if (a.aimage) m->set_alpha_image(ftexture(1)); if (a.eimage) m->set_emissive_image(texture(2)); if (a.alpha == 1) m->set_alpha_factor(0.f); if (a.alpha == 2) m->set_alpha_factor(0.4f); if (a.emit == 1) m->set_emissive_factor(ramp<TS>(0.3, 0.1)); if (a.trans == 1) m->set_transmission_factor(TS{1.f}); if (a.rough == 1) m->set_roughness_factor(0.3f); if (a.metal == 1) m->set_metallic_factor(1.f); }
    void addSun() { sun = s.new_sphere_light(Meter(0.02), units::SpectralWattsPerMeterSquaredSteradian<TS>{ramp<TS>(5e4, 9e4)}, "sun"); is = s.root.new_instance(*sun); is->set_position(Meter(3), Meter(4), Meter(2)); }
    void addLamp() { lamp = s.new_sphere_light(Meter(0.02), units::SpectralWattsPerMeterSquaredSteradian<TS>{TS{6e4f}}, "lamp"); il = s.root.new_instance(*lamp); il->set_position(Meter(-4), Meter(-2), Meter(3)); }
    void addBall() { ball = s.add_primitive(GeometryHandle<TS>{s.add_ellipsoid(Meter(0.5), Meter(0.7), Meter(0.6)).get()}, *n, "ball"); ib = frame->new_instance(*ball); ib->set_position(Meter(0.9), Meter(0.6), Meter(0)); }
    void addPoint(double irr) { point = s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{TS{1e-4f * float(irr)}}, "point"); ip = s.root.new_instance(*point); ip->set_position(Meter(1.3), Meter(-0.9), Meter(9)); }
    void addQuad() { quad = s.add_primitive(GeometryHandle<TS>{geo->get()}, *m, "quad"); iq = s.root.new_instance(*quad); }
    void place(int k) { iq->set_position(Meter(k == 1 ? -1.1 : -0.5), Meter(k == 2 ? 0.8 : 0), Meter(9)); }
    void scale(int k) { k == 2 ? iq->set_scale(0.6) : iq->set_scale(k ? 1.5 : 1, 1, 1); }
    void fplace(int k) { frame->set_position(Meter(k ? -0.4 : 0.2), Meter(0), Meter(10)); }
    void addTwin() { it = s.root.new_instance(*quad); it->set_position(Meter(0.4), Meter(-1.2), Meter(8)); }
    void turn(int k) { if (k) iq->set_rotation(Rotation<double>::from_local_to_parent(Vec3<double>{0.3, 1, 0.2}, units::Radian(0.5))); else iq->set_rotation(Rotation<double>()); }
    void speed(int k) { iq->set_velocity(units::MetersPerSecond(k ? 0.9 : 0), units::MetersPerSecond(0), units::MetersPerSecond(k ? -0.5 : 0)); }
    void spin(int k) { auto q = [](double v) { return units::RadiansPerSecond(v); }; if (k == 2) iq->set_body_angular_velocity(q(0.9), q(0), q(0.4)); else iq->set_angular_velocity(q(0), q(k ? 0.8 : 0), q(k ? 0.3 : 0)); }
    void look(int k) { eye.set_position(Meter(k == 1 ? 0.4 : 0), Meter(0), Meter(k == 1 ? -0.5 : 0)); eye.set_rotation(k == 2 ? Rotation<double>::from_local_to_parent(Vec3<double>{0, 1, 0}, units::Radian(0.1)) : Rotation<double>()); eye.set_velocity(units::MetersPerSecond(k == 2 ? 0.3 : 0), units::MetersPerSecond(0), units::MetersPerSecond(0)); }
    void addCloud() { cloud = s.add_primitive(GeometryHandle<TS>{s.add_ellipsoid(Meter(0.6), Meter(0.6), Meter(0.6)).get()}, s.new_material(bsdf(3)), s.new_medium(s.new_constant_density_field(ramp<TS>(0.5, 1), ramp<TS>(0.2, 0.1)), s.new_isotropic_phase_function())); auto i = s.root.new_instance(*cloud); i.set_position(Meter(0.1), Meter(0.3), Meter(7)); }
    // the scene at once
    void build(const Spec& p)
    {
        m = s.new_material(bsdf(0), "m"); n = s.new_material(bsdf(0), "n"); VertexBuffer<TS> v; for (int i = 0; i < 4; ++i) { Vertex<TS> q; float x = (i == 1 || i == 2) ? 0.8f : -0.8f, y = i >= 2 ? 0.6f : -0.6f; q.position = {x, y, 0}; q.normal = {0, 0, -1}; q.uv = {x > 0, y > 0}; v.push_back(q); } geo = s.add_mesh(IndexBuffer{0, 1, 2, 0, 2, 3}, v, "geo");
        background(p.bg); stars(p.stars); m->set_albedo_factor(TS{0.8f}); n->set_albedo_factor(TS{p.ballmat ? 0.2f : 0.5f}); setMat(p.m); if (p.quad) { addQuad(); place(p.place); scale(p.scale); if (p.turn) turn(1); if (p.speed) speed(1); if (p.spin) spin(p.spin); if (p.twin) addTwin(); } if (p.frame) { frame = s.root.new_subframe(); fplace(p.fplace); if (p.fspin) frame->set_angular_velocity(units::RadiansPerSecond(0), units::RadiansPerSecond(0), units::RadiansPerSecond(1.2)); if (p.ball) addBall(); } if (p.point) addPoint(p.irr); if (p.sun && !p.sunlast) addSun(); if (p.lamp) addLamp(); if (p.sun && p.sunlast) addSun(); if (p.cloud) addCloud(); if (p.eye) look(p.eye); r.set_samples_per_pixel(p.spp); r.set_max_bounces(p.bounces); if (p.dynamic) { r.set_dynamic_sampling(); r.set_min_samples(4); r.set_variance_threshold(1e9f); } if (p.clamp) r.set_indirect_clamp(1e-3f);
    }
    std::vector<float> shoot()
    {
        SceneView<TS> view(s, Interval{Time::from_et(100), Time::from_et(101)}, eye, ObservationMode::TRUE_STATE, 2); r.render(view, fb); std::vector<float> o;
        for (std::size_t i = 0; i < fb.received_power().size(); ++i) for (std::size_t k = 0; k < 3; ++k) o.push_back(fb.received_power()[i][k]); for (std::size_t i = 0; i < fb.depth().size(); ++i) o.push_back(fb.depth()[i]); return o;
    }
};
struct Op { const char* name; std::function<bool(const Spec&)> can; std::function<void(W&)> run; std::function<void(Spec&)> spec; bool refused = false; };
static std::vector<Op> ops()
{
    std::vector<Op> o; auto any = [](const Spec&) { return true; }; auto quad = [](const Spec& s) { return s.quad; }; auto none = [](Spec&) {};
    o.push_back({"albedo 0.3", any, [](W& w) { w.m->set_albedo_factor(TS{0.3f}); }, [](Spec& s) { s.m.albedo = 1; }});
    o.push_back({"albedo image 1", any, [](W& w) { w.m->set_albedo_image(w.texture(1)); }, [](Spec& s) { s.m.image = 1; }});
    o.push_back({"albedo reset", any, [](W& w) { w.m->reset_albedo(); w.m->set_albedo_factor(TS{0.8f}); }, [](Spec& s) { s.m.albedo = s.m.image = 0; }});
    o.push_back({"alpha 0", any, [](W& w) { w.m->set_alpha_factor(0.f); }, [](Spec& s) { s.m.alpha = 1; }});
    o.push_back({"alpha 0.4", any, [](W& w) { w.m->set_alpha_factor(0.4f); }, [](Spec& s) { s.m.alpha = 2; }});
    o.push_back({"alpha reset", any, [](W& w) { w.m->reset_alpha(); }, [](Spec& s) { s.m.alpha = s.m.aimage = 0; }});
    o.push_back({"emissive", any, [](W& w) { w.m->set_emissive_factor(ramp<TS>(0.3, 0.1)); }, [](Spec& s) { s.m.emit = 1; }});
    o.push_back({"emissive 0", any, [](W& w) { w.m->set_emissive_factor(TS{0.f}); }, [](Spec& s) { s.m.emit = 0; }});
    o.push_back({"emissive reset", any, [](W& w) { w.m->reset_emissive(); }, [](Spec& s) { s.m.emit = s.m.eimage = 0; }});
    o.push_back({"transmission", any, [](W& w) { w.m->set_transmission_factor(TS{1.f}); }, [](Spec& s) { s.m.trans = 1; }});
    o.push_back({"transmission reset", any, [](W& w) { w.m->reset_transmission(); }, [](Spec& s) { s.m.trans = 0; }});
    o.push_back({"Lommel-Seeliger", any, [](W& w) { w.m->set_bsdf(w.bsdf(1).get()); }, [](Spec& s) { s.m.bsdf = 1; }});
    o.push_back({"Cook-Torrance", any, [](W& w) { w.m->set_bsdf(w.bsdf(2).get()); }, [](Spec& s) { s.m.bsdf = 2; }});
    o.push_back({"Lambert", any, [](W& w) { w.m->set_bsdf(w.bsdf(0).get()); }, [](Spec& s) { s.m.bsdf = 0; }});
    o.push_back({"roughness 0.3", any, [](W& w) { w.m->set_roughness_factor(0.3f); }, [](Spec& s) { s.m.rough = 1; }});
    o.push_back({"roughness reset", any, [](W& w) { w.m->reset_roughness(); }, [](Spec& s) { s.m.rough = 0; }});
    o.push_back({"metallic 1", any, [](W& w) { w.m->set_metallic_factor(1.f); }, [](Spec& s) { s.m.metal = 1; }});
    o.push_back({"metallic reset", any, [](W& w) { w.m->reset_metallic(); }, [](Spec& s) { s.m.metal = 0; }});
    o.push_back({"ball darker", any, [](W& w) { w.n->set_albedo_factor(TS{0.2f}); }, [](Spec& s) { s.ballmat = 1; }});
    for (int k : {0, 1, 2, 3}) { static const char* N[] = {"no sky", "grey sky", "coloured sky", "painted sky"}; o.push_back({N[k], any, [k](W& w) { w.background(k); }, [k](Spec& s) { s.bg = k; }}); }
    for (int k : {0, 1, 2}) { static const char* N[] = {"no stars", "one star", "two stars"}; o.push_back({N[k], any, [k](W& w) { w.stars(k); }, [k](Spec& s) { s.stars = k; }}); }
    o.push_back({"sun deleted", [](const Spec& s) { return s.sun; }, [](W& w) { w.s.delete_light(*w.sun); }, [](Spec& s) { s.sun = s.sunlast = false; }});
    o.push_back({"sun's instance deleted", [](const Spec& s) { return s.sun; }, [](W& w) { w.s.root.delete_instance(*w.is); w.s.delete_light(*w.sun); }, [](Spec& s) { s.sun = s.sunlast = false; }});
    o.push_back({"sun added", [](const Spec& s) { return !s.sun; }, [](W& w) { w.addSun(); }, [](Spec& s) { s.sun = true; s.sunlast = s.lamp; }});
    o.push_back({"lamp added", [](const Spec& s) { return !s.lamp; }, [](W& w) { w.addLamp(); }, [](Spec& s) { s.lamp = true; s.sunlast = false; }});
    o.push_back({"lamp deleted", [](const Spec& s) { return s.lamp; }, [](W& w) { w.s.delete_light(*w.lamp); }, [](Spec& s) { s.lamp = s.sunlast = false; }});
    o.push_back({"point 9", [](const Spec& s) { return s.point; }, [](W& w) { w.point->set_irradiance(units::SpectralWattsPerMeterSquared<TS>{TS{9e-4f}}); }, [](Spec& s) { s.irr = 9; }});
    o.push_back({"point 0", [](const Spec& s) { return s.point; }, [](W& w) { w.point->set_irradiance(units::SpectralWattsPerMeterSquared<TS>{TS{0.f}}); }, [](Spec& s) { s.irr = 0; }});
    o.push_back({"point deleted", [](const Spec& s) { return s.point; }, [](W& w) { w.s.delete_unresolved_object(*w.point); }, [](Spec& s) { s.point = false; }});
    o.push_back({"point added", [](const Spec& s) { return !s.point; }, [](W& w) { w.addPoint(3); }, [](Spec& s) { s.point = true; s.irr = 3; }});
    for (int k : {1, 2}) o.push_back({k == 1 ? "quad left" : "quad up", quad, [k](W& w) { w.place(k); }, [k](Spec& s) { s.place = k; }});
    for (int k : {1, 2, 0}) { static const char* N[] = {"quad plain", "quad wide", "quad small"}; o.push_back({N[k], quad, [k](W& w) { w.scale(k); }, [k](Spec& s) { s.scale = k; }}); }
    o.push_back({"twin added", [](const Spec& s) { return s.quad && !s.twin; }, [](W& w) { w.addTwin(); }, [](Spec& s) { s.twin = true; }});
    o.push_back({"twin deleted", [](const Spec& s) { return s.twin; }, [](W& w) { w.s.root.delete_instance(*w.it); }, [](Spec& s) { s.twin = false; }});
    o.push_back({"quad deleted", quad, [](W& w) { w.s.delete_primitive(*w.quad); }, [](Spec& s) { s.quad = s.twin = false; }});
    o.push_back({"mesh deleted", quad, [](W& w) { w.s.delete_geometry(GeometryHandle<TS>{w.geo->get()}); VertexBuffer<TS> v; for (int i = 0; i < 4; ++i) { Vertex<TS> q; float x = (i == 1 || i == 2) ? 0.8f : -0.8f, y = i >= 2 ? 0.6f : -0.6f; q.position = {x, y, 0}; q.normal = {0, 0, -1}; q.uv = {x > 0, y > 0}; v.push_back(q); } w.geo = w.s.add_mesh(IndexBuffer{0, 1, 2, 0, 2, 3}, v, "geo"); }, [](Spec& s) { s.quad = s.twin = false; }});
    o.push_back({"quad added", [](const Spec& s) { return !s.quad; }, [](W& w) { w.addQuad(); w.place(0); }, [](Spec& s) { s.quad = true; s.place = s.scale = s.turn = s.speed = s.spin = 0; }});
    o.push_back({"frame moved", [](const Spec& s) { return s.frame; }, [](W& w) { w.fplace(1); }, [](Spec& s) { s.fplace = 1; }});
    o.push_back({"frame deleted", [](const Spec& s) { return s.frame; }, [](W& w) { w.s.root.delete_subframe(*w.frame); if (w.ball) w.s.delete_primitive(*w.ball); w.ball.reset(); }, [](Spec& s) { s.frame = s.ball = false; }});
    o.push_back({"frame added", [](const Spec& s) { return !s.frame; }, [](W& w) { w.frame = w.s.root.new_subframe(); w.fplace(0); w.addBall(); }, [](Spec& s) { s.frame = s.ball = true; s.fplace = s.fspin = 0; }});
    o.push_back({"ball deleted", [](const Spec& s) { return s.ball; }, [](W& w) { w.s.delete_primitive(*w.ball); w.ball.reset(); }, [](Spec& s) { s.ball = false; }});
    o.push_back({"render", any, [](W& w) { w.shoot(); }, none});
    o.push_back({"prune", any, [](W& w) { w.s.prune_unreferenced_assets(); }, none});
    o.push_back({"quad renamed", quad, [](W& w) { w.s.set_name(*w.quad, "other"); w.s.set_name(*w.quad, "quad"); }, none});
    o.push_back({"sun takes the lamp's name", [](const Spec& s) { return s.sun && s.lamp; }, [](W& w) { w.s.set_name(*w.sun, "lamp"); }, none});
    o.push_back({"another light of the same name, not placed", [](const Spec& s) { return s.sun; }, [](W& w) { w.s.new_sphere_light(Meter(1), units::SpectralWattsPerMeterSquaredSteradian<TS>{TS{9e4f}}, "sun"); }, none});
    o.push_back({"the sun added twice", [](const Spec& s) { return s.sun; }, [](W& w) { w.s.add_light(w.sun->get(), "again"); }, none, true});
    o.push_back({"quad turned", quad, [](W& w) { w.turn(1); }, [](Spec& s) { s.turn = 1; }});
    o.push_back({"quad not turned", quad, [](W& w) { w.turn(0); }, [](Spec& s) { s.turn = 0; }});
    o.push_back({"quad moves", quad, [](W& w) { w.speed(1); }, [](Spec& s) { s.speed = 1; }});
    o.push_back({"quad rests", quad, [](W& w) { w.speed(0); }, [](Spec& s) { s.speed = 0; }});
    o.push_back({"quad spins", quad, [](W& w) { w.spin(1); }, [](Spec& s) { s.spin = 1; }});
    o.push_back({"quad spins about its own axis", quad, [](W& w) { w.spin(2); }, [](Spec& s) { s.spin = 2; }});
    o.push_back({"quad does not spin", quad, [](W& w) { w.spin(0); }, [](Spec& s) { s.spin = 0; }});
    o.push_back({"frame spins", [](const Spec& s) { return s.frame; }, [](W& w) { w.frame->set_angular_velocity(units::RadiansPerSecond(0), units::RadiansPerSecond(0), units::RadiansPerSecond(1.2)); }, [](Spec& s) { s.fspin = 1; }});
    for (int k : {0, 1, 2}) { static const char* N[] = {"eye at rest", "eye moved", "eye turned and moving"}; o.push_back({N[k], any, [k](W& w) { w.look(k); }, [k](Spec& s) { s.eye = k; }}); }
    o.push_back({"cloud added", [](const Spec& s) { return !s.cloud; }, [](W& w) { w.addCloud(); }, [](Spec& s) { s.cloud = true; }});
    o.push_back({"cloud deleted", [](const Spec& s) { return s.cloud; }, [](W& w) { w.s.delete_primitive(*w.cloud); }, [](Spec& s) { s.cloud = false; }});
    o.push_back({"alpha image", any, [](W& w) { w.m->set_alpha_image(w.ftexture(1)); }, [](Spec& s) { s.m.aimage = 1; if (s.m.alpha) {} }});
    o.push_back({"emissive image", any, [](W& w) { w.m->set_emissive_image(w.texture(2)); }, [](Spec& s) { s.m.eimage = 1; }});
    o.push_back({"4 samples", any, [](W& w) { w.r.set_samples_per_pixel(4); }, [](Spec& s) { s.spp = 4; }});
    o.push_back({"8 samples", any, [](W& w) { w.r.set_samples_per_pixel(8); }, [](Spec& s) { s.spp = 8; }});
    o.push_back({"no bounces", any, [](W& w) { w.r.set_max_bounces(0); }, [](Spec& s) { s.bounces = 0; }});
    o.push_back({"two bounces", any, [](W& w) { w.r.set_max_bounces(2); }, [](Spec& s) { s.bounces = 2; }});
    o.push_back({"dynamic sampling", any, [](W& w) { w.r.set_dynamic_sampling(); w.r.set_min_samples(4); w.r.set_variance_threshold(1e9f); }, [](Spec& s) { s.dynamic = true; }});
    o.push_back({"fixed sampling", any, [](W& w) { w.r.set_dynamic_sampling(false); }, [](Spec& s) { s.dynamic = false; }});
    o.push_back({"clamp", any, [](W& w) { w.r.set_indirect_clamp(1e-3f); }, [](Spec& s) { s.clamp = true; }});
    o.push_back({"buffer cleared", any, [](W& w) { w.fb.clear(); }, none});
    o.push_back({"more channels", any, [](W& w) { w.fb.enable_albedo(); w.fb.enable_world_normals(); w.fb.enable_received_direct_power(); }, none});
    o.push_back({"fewer channels", any, [](W& w) { w.fb.enable_albedo(false); w.fb.enable_world_normals(false); w.fb.enable_received_direct_power(false); }, none});
    o.push_back({"frame deletes what it does not hold", [](const Spec& s) { return s.frame && s.quad; }, [](W& w) { w.frame->delete_instance(*w.iq); }, none, true});
    return o;
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); start(); Scene<TS> cs; auto cam = cs.new_camera_model("c"); CAM = &cam; cam.configure_sensor_from_pitch(Resolution{14, 12}, units::Micrometer(500)); cam.set_focal_length(units::Millimeter(20)); cam.set_fstop(4.f);
    auto o = ops(); std::map<std::string, std::vector<float>> memo;
    auto key = [](const Spec& s) { return mc::fmt("%d%d%d%d %g %d%d%d%d%d m%d,%d,%d,%d,%d,%d,%d,%d,%d,%d %d%d%d%d %d%d%d%d%d %d %d %d %d %d%d", s.bg, s.stars, s.sun, s.lamp, s.irr, s.point, s.quad, s.twin, s.ball, s.frame, s.m.albedo, s.m.image, s.m.alpha, s.m.aimage, s.m.eimage, s.m.emit, s.m.trans, s.m.bsdf, s.m.rough, s.m.metal, s.place, s.scale, s.fplace, s.ballmat, s.turn, s.speed, s.spin, s.fspin, s.eye, s.cloud, s.spp, s.bounces, s.dynamic, s.clamp, s.sunlast && s.sun && s.lamp); };
    auto history = [&](const std::vector<int>& q) {
        Spec s; std::string t; for (int i : q) { auto& p = o[std::size_t(i)]; if (!p.can(s)) return; p.spec(s); t += std::string(p.name) + "; "; } (void)key;
        if (!mc::mine()) return; mc::at_s(t); mc::evaluated(!q.empty()); mc::count("transitions", q.size());
        W w; w.build(Spec{}); for (int i : q) { auto& p = o[std::size_t(i)]; std::string err; bool th = false; try { p.run(w); } catch (const std::exception& e) { th = true; err = e.what(); } if (th != p.refused) { mc::fail("refusal", mc::fmt("%s is %s %s", p.name, th ? "refused" : "accepted", err.c_str())); return; } }
        auto g = w.shoot(); std::string k = key(s); auto e = memo.find(k); if (e == memo.end()) { mc::count("states"); W f; f.build(s); e = memo.emplace(k, f.shoot()).first; mc::at_s(t); }
        double top = 0, bad = 0; std::size_t at = 0, np = g.size() * 3 / 4; for (std::size_t i = 0; i < np; ++i) top = std::max(top, std::fabs(double(e->second[i]))); for (std::size_t i = 0; i < np; ++i) { double d = std::fabs(double(g[i]) - e->second[i]); if (!(d <= bad)) { bad = d; at = i; } }
        mc::check(bad <= 1e-5 * top + 1e-30, "picture", "pixel %zu,%zu channel %zu is %.6g, a scene built this way gives %.6g (brightest %.3g)", at / 3 % 14, at / 42, at % 3, double(g[at]), double(e->second[at]), top); std::size_t far = 0; for (std::size_t i = np; i < g.size(); ++i) if (!(g[i] == e->second[i] || std::fabs(g[i] - e->second[i]) < 1e-4f)) far = i; mc::check(!far, "depth", "depth %.6g, %.6g in a scene built this way", double(g[far]), double(e->second[far])); mc::outcome(k);
    };
    const int K = int(o.size()); history({}); for (int a = 0; a < K; ++a) { history({a}); for (int b = 0; b < K; ++b) { history({a, b}); } }
    // groups of edits that act on the same thing: every triple, plainly and on a glossy material
    auto pick = [&](std::vector<const char*> words) { std::vector<int> v; for (int i = 0; i < K; ++i) for (auto w : words) if (std::string(o[std::size_t(i)].name).find(w) != std::string::npos) { v.push_back(i); break; } return v; };
    auto mat = pick({"albedo", "alpha", "emissive", "transmission", "Lommel", "Cook", "Lambert", "roughness", "metallic"}); int glossy = pick({"Cook"})[0]; for (int a : mat) for (int b : mat) for (int c : mat) { history({a, b, c}); history({glossy, a, b, c}); }
    for (auto& g : {pick({"sun", "lamp", "point"}), pick({"quad", "twin", "mesh", "render"}), pick({"frame", "ball"}), pick({"sky", "star", "cloud", "eye", "render"}), pick({"samples", "bounces", "sampling", "clamp", "buffer", "channels", "render"})}) for (int a : g) for (int b : g) for (int c : g) history({a, b, c});
    std::vector<int> core; for (int i = 0; i < K; ++i) if (mc::thorough() || i % 3 == 0 || std::string(o[std::size_t(i)].name) == "render") core.push_back(i); for (int a : core) for (int b : core) for (int c : core) history({a, b, c});
    if (mc::thorough()) { std::vector<int> few; for (int i = 0; i < K; i += 4) few.push_back(i); for (int a : few) for (int b : few) for (int c : few) for (int d : few) history({a, b, c, d}); }
    return mc::finish();
}
