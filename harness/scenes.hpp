#pragma once
// Small scenes for the rendering checks.
#include "huira_prelude.hpp"
#include "huira/huira.hpp"
#include "mc.hpp"
using namespace huira;
namespace sc {
using units::Meter; using units::Second; using units::Watt;
struct Pose { double axis[3] = {0, 0, 1}; double deg = 0; double pos[3] = {0, 0, 0}; };
template <class S> struct Stage {
    Scene<S> s; CameraModelHandle<S> cam; InstanceHandle<S> eye; Rotation<double> R; Vec3<double> P{0}; bool blender;
    static constexpr double f = 0.02;
    Stage(int w, int h, double pitch_um = 500, bool blend = false, const Rotation<double>& rot = Rotation<double>(), Vec3<double> pos = {0, 0, 0}, double fstop = 4) : cam(s.new_camera_model("c")), eye(s.root.new_instance(cam)), R(rot), P(pos), blender(blend)
    {
        cam.set_focal_length(units::Millimeter{f * 1000}); cam.set_fstop(float(fstop)); cam.configure_sensor_from_pitch(Resolution{w, h}, units::Micrometer{pitch_um}); cam.use_blender_convention(blend); cam.set_sensor_simulate_noise(false);
        eye.set_rotation(R); eye.set_position(Meter(P.x), Meter(P.y), Meter(P.z));
    }
    double fwd() const { return blender ? -1.0 : 1.0; }
    // a point given in camera axes, distance positive in front
    Vec3<double> at(double x, double y, double d) const { return P + R * Vec3<double>{x, y, fwd() * d}; }
    template <class H> InstanceHandle<S> put(const H& a, double x, double y, double d) { auto i = s.root.new_instance(a); auto p = at(x, y, d); i.set_position(Meter(p.x), Meter(p.y), Meter(p.z)); i.set_rotation(R); return i; }
    // square of half size r in the xy plane
    MeshHandle<S> quad(double r, bool normals = true, bool tangents = false, double tilt = 0)
    {
        VertexBuffer<S> v; float t = float(tilt), k = std::sqrt(1 + t * t); for (int i = 0; i < 4; ++i) { Vertex<S> q; float x = float((i == 1 || i == 2) ? r : -r), y = float(i >= 2 ? r : -r); q.position = {x, y, t * x}; if (normals) q.normal = {t / k, 0, -1 / k}; q.uv = {(i == 1 || i == 2) ? 1.f : 0.f, i >= 2 ? 1.f : 0.f}; v.push_back(q); }
        IndexBuffer ix{0, 1, 2, 0, 2, 3}; if (!tangents) return s.add_mesh(ix, v, ""); TangentBuffer tb(4, Tangent{{1 / k, 0, t / k}, {0, 1, 0}}); return s.add_mesh(ix, v, tb, "");
    }
    MaterialHandle<S> matte(double albedo, double alpha = 1) { auto m = s.new_material(s.new_bsdf_lambertian("")); m.set_albedo_factor(S{float(albedo)}); if (alpha != 1) m.set_alpha_factor(float(alpha)); return m; }
    SceneView<S> view(std::size_t n = 1, double dt = 0, double t0 = 100) { return SceneView<S>(s, Interval{Time::from_et(t0), Time::from_et(t0 + dt)}, eye, ObservationMode::TRUE_STATE, n); }
};
template <class S> static S ramp(double a, double b) { S v{0}; for (std::size_t i = 0; i < S::size(); ++i) v[i] = float(a + (b - a) * double(i) / double(S::size() - 1)); return v; }
constexpr int NSCENES = 14;
// fills a stage with scene k; everything lies within about 3 m of distance 10 in front of the camera
template <class S> static void fill(Stage<S>& g, int k)
{
    auto& s = g.s; auto sun = [&](double x, double y, double d, double r = 0.5) { g.put(s.new_sphere_light(Meter(r), units::SpectralWattsPerMeterSquaredSteradian<S>{ramp<S>(5, 9)}), x, y, d); };
    auto prim = [&](auto geo, auto mat) { return s.add_primitive(GeometryHandle<S>{geo.get()}, mat); };
    auto sky = [&] { Image<S> b(8, 4, S{0}); for (int y = 0; y < 4; ++y) for (int x = 0; x < 8; ++x) b(x, y) = ramp<S>(0.1 + 0.2 * x, 0.3 + 0.4 * y); s.set_background_radiance(std::move(b)); };
    switch (k) {
    case 0: break;
    case 1: s.set_background_radiance(ramp<S>(1, 2)); break;
    case 2: sky(); break;
    case 3: g.put(prim(g.quad(2), g.matte(0.6)), 0.7, 0.3, 10); sun(3, 4, 2); break;
    case 4: g.put(prim(s.add_ellipsoid(Meter(2), Meter(1), Meter(1.5)), g.matte(0.8)), -1, 0.2, 10); sun(-5, 4, 3); sky(); break;
    case 5: g.put(prim(g.quad(2), g.matte(0.6, 0.5)), 0.7, 0.3, 9); g.put(prim(g.quad(2), g.matte(0.9)), -0.7, 0, 11); sun(3, 4, 2); sky(); break;
    case 6: { auto m = g.matte(0.3, 0.0); g.put(prim(g.quad(1.5), m), 0, 0, 8); g.put(prim(g.quad(2), g.matte(0.9)), 0.5, 0, 11); sun(-3, 4, 4); break; }
    case 7: { auto m = s.new_material(s.new_bsdf_null("")); auto med = s.new_medium(s.new_constant_density_field(ramp<S>(0.05, 0.1), ramp<S>(0.2, 0.1)), s.new_isotropic_phase_function()); g.put(s.add_primitive(GeometryHandle<S>{s.add_ellipsoid(Meter(1.5), Meter(1.5), Meter(1.5)).get()}, m, med), 0, 0, 10); sun(4, 4, 6); sky(); break; }
    case 8: { g.put(prim(g.quad(1.2), g.matte(0.6)), 0.7, 0.3, 10); sun(3, 4, 2); for (int i = 0; i < 3; ++i) g.put(s.new_unresolved_object(units::SpectralWattsPerMeterSquared<S>{ramp<S>(1, 3)}), -1.0 + i * 0.9, 0.1 * i, 7.0 + 4 * i); std::vector<Star<S>> st; for (int i = 0; i < 6; ++i) { auto d = g.R * Vec3<double>{-0.2 + 0.08 * i, 0.07 * (i % 3) - 0.05, g.fwd()}; st.push_back(Star<S>(glm::normalize(d), ramp<S>(0.5, 0.1 * i))); } s.set_stars(st); break; }
    case 9: { auto i = g.put(prim(s.add_ellipsoid(Meter(1), Meter(1), Meter(1)), g.matte(0.7)), -1, 0, 10); auto v = g.R * Vec3<double>{2, 0.5, 0}; i.set_velocity(units::MetersPerSecond(v.x), units::MetersPerSecond(v.y), units::MetersPerSecond(v.z)); sun(3, 4, 2); sky(); break; }
    case 10: { auto m = s.new_material(s.new_bsdf_cook_torrance("")); m.set_metallic_factor(1); m.set_roughness_factor(0.2f); m.set_albedo_factor(S{0.9f}); g.put(prim(s.add_ellipsoid(Meter(2), Meter(2), Meter(2)), m), 0, 0, 10); g.put(prim(g.quad(1, false), g.matte(0.5)), 2, 0, 8); sun(0, 4, 4); sky(); break; }
    case 11: sun(0, 0, 10, 1); g.put(prim(g.quad(1, true, true, 0.4), g.matte(0.7)), 1.3, 0, 8); break;
    case 12: { auto m = g.matte(0.5); m.set_transmission_factor(S{0.5f}); g.put(prim(g.quad(1.6), m), -0.5, 0, 8); g.put(prim(g.quad(2), g.matte(0.9)), 0.5, 0, 11); sun(-3, 4, 4); s.set_background_radiance(0.2f); break; }
    case 13: { auto p = prim(g.quad(0.8), g.matte(0.6)); g.put(p, -1, 0, 10); auto i = g.put(p, 1, 0, 9); i.set_scale(1.2, 0.7, 1); sun(3, 4, 2); g.put(s.new_unresolved_emitter(Watt(500)), 0, 0, 9.5); break; }
    }
}
inline void start() { mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1); }
}
