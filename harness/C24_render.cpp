// C24 (rendered): every sequence of the settings that only an image shows - glare, point spread, convolution, depth of field, iris, sensor turn, lens, efficiency - rendered and compared with a fresh camera given only the final settings.
#include "scenes.hpp"
using TS = RGB; using H = CameraModelHandle<TS>; using namespace units;
template <IsSpectral T> struct Box : PSF<T> { explicit Box(int r) { this->cache_.radius = r; this->cache_.banks = 1; this->cache_.dim = 2 * r + 1; Image<T> k(2 * r + 1, 2 * r + 1); k.fill(T(1.f / float((2 * r + 1) * (2 * r + 1)))); this->cache_.kernels.assign(1, k); } T evaluate(float, float) override { return T(1.f); } };
struct Spec { double glare = 0, fstop = 4, foc = INFINITY, rot = 0, qe = 1, f = 20; int psf = 0, r = 0, dist = 0; bool conv = false, dof = false, bl = false; };
struct Op { const char* name; bool refused; std::function<void(const H&)> run; std::function<void(Spec&)> spec; };
static void lens(const H& c, int d) { if (d == 1) c.set_brown_conrady_distortion(BrownCoefficients(-0.3, 0.05, 0, 0.002, -0.001)); if (d == 2) c.set_owen_distortion(OwenCoefficients(0.05, -0.2, 0, 0.02, 0.01, 0)); }
static std::vector<Op> ops()
{
    std::vector<Op> o; auto add = [&](const char* n, std::function<void(const H&)> r, std::function<void(Spec&)> s) { o.push_back({n, !s, r, s}); };
    add("glare 0.3", [](const H& c) { c.set_veiling_glare(0.3f); }, [](Spec& s) { s.glare = 0.3f; });
    add("glare 0.05", [](const H& c) { c.set_veiling_glare(0.05f); }, [](Spec& s) { s.glare = 0.05f; });
    add("glare 0", [](const H& c) { c.set_veiling_glare(0.f); }, [](Spec& s) { s.glare = 0; });
    add("glare off", [](const H& c) { c.disable_veiling_glare(); }, [](Spec& s) { s.glare = 0; });
    add("box psf 1", [](const H& c) { c.set_psf<Box<TS>>(1); }, [](Spec& s) { s.psf = 1; s.r = 1; });
    add("box psf 2", [](const H& c) { c.set_psf<Box<TS>>(2); }, [](Spec& s) { s.psf = 1; s.r = 2; });
    add("no psf", [](const H& c) { c.delete_psf(); }, [](Spec& s) { s.psf = 0; });
    add("aperture psf off", [](const H& c) { c.use_aperture_psf(false); }, [](Spec& s) { s.psf = 0; });
    add("convolve", [](const H& c) { c.enable_psf_convolution(); }, [](Spec& s) { s.conv = true; });
    add("do not convolve", [](const H& c) { c.enable_psf_convolution(false); }, [](Spec& s) { s.conv = false; });
    add("focus 0.05", [](const H& c) { c.set_focus_distance(Meter(0.05)); }, [](Spec& s) { s.foc = 0.05; });
    add("diopters 0", [](const H& c) { c.set_diopters(Diopter(0.)); }, [](Spec& s) { s.foc = INFINITY; });
    add("dof", [](const H& c) { c.enable_depth_of_field(); }, [](Spec& s) { s.dof = true; });
    add("no dof", [](const H& c) { c.enable_depth_of_field(false); }, [](Spec& s) { s.dof = false; });
    add("f/2", [](const H& c) { c.set_fstop(2.f); }, [](Spec& s) { s.fstop = s.f / 20 * 2; });
    add("turned", [](const H& c) { c.set_sensor_rotation(Radian(0.6)); }, [](Spec& s) { s.rot = 0.6; });
    add("not turned", [](const H& c) { c.set_sensor_rotation(Radian(0.)); }, [](Spec& s) { s.rot = 0; });
    add("brown", [](const H& c) { lens(c, 1); }, [](Spec& s) { s.dist = 1; });
    add("owen", [](const H& c) { lens(c, 2); }, [](Spec& s) { s.dist = 2; });
    add("no lens", [](const H& c) { c.delete_distortion(); }, [](Spec& s) { s.dist = 0; });
    add("efficiency 0.4", [](const H& c) { c.set_sensor_quantum_efficiency(0.4); }, [](Spec& s) { s.qe = 0.4; });
    add("blender", [](const H& c) { c.use_blender_convention(); }, [](Spec& s) { s.bl = true; });
    add("cv", [](const H& c) { c.use_blender_convention(false); }, [](Spec& s) { s.bl = false; });
    add("same pitch", [](const H& c) { const_cast<H&>(c).configure_sensor_from_pitch(Resolution{14, 11}, Micrometer(500)); }, [](Spec&) {});
    add("glare 2", [](const H& c) { c.set_veiling_glare(2.f); }, {}); add("glare -0.1", [](const H& c) { c.set_veiling_glare(-0.1f); }, {}); add("glare nan", [](const H& c) { c.set_veiling_glare(std::numeric_limits<float>::quiet_NaN()); }, {});
    return o;
}
// one world for all cameras: bright stars, a lit disc and a sky
struct World {
    Scene<TS> s; H proto; InstanceHandle<TS> lampi;
    World() : proto(s.new_camera_model("")), lampi(s.root.new_instance(s.new_sphere_light(Meter(0.3), SpectralWattsPerMeterSquaredSteradian<TS>{TS{60.f}})))
    {
        s.delete_camera_model(proto); lampi.set_position(Meter(4), Meter(3), Meter(2)); for (double z : {9.0, -9.0}) { auto m = s.new_material(s.new_bsdf_lambertian("")); m.set_albedo_factor(TS{0.7f}); auto i = s.root.new_instance(s.add_primitive(GeometryHandle<TS>{s.add_ellipsoid(Meter(0.8), Meter(0.5), Meter(0.7)).get()}, m)); i.set_position(Meter(0.7), Meter(-0.4), Meter(z)); }
        std::vector<Star<TS>> st; for (double z : {1.0, -1.0}) { st.push_back(Star<TS>(glm::normalize(Vec3<double>{-0.06, 0.05, z}), TS{3.f})); st.push_back(Star<TS>(glm::normalize(Vec3<double>{0.09, 0.07, z}), TS{1.f})); } s.set_stars(st); s.set_background_radiance(0.02f);
    }
    std::vector<double> shoot(const std::function<std::string(const H&)>& set, std::string& why)
    {
        auto c = s.new_camera_model(""); c.configure_sensor_from_pitch(Resolution{14, 11}, Micrometer(500)); c.set_focal_length(Millimeter(20)); c.set_fstop(4.f); c.set_sensor_simulate_noise(false); c.set_sensor_full_well_capacity(1e30f); c.set_sensor_quantum_efficiency(1.0); why = set(c); std::vector<double> v;
        if (why.empty()) { auto eye = s.root.new_instance(c); { SceneView<TS> view(s, huira::Interval{huira::Time::from_et(100), huira::Time::from_et(100)}, eye, ObservationMode::TRUE_STATE, 1); Renderer<TS> r; r.set_samples_per_pixel(4); r.set_max_bounces(1); auto fb = c.make_frame_buffer(); fb.enable_received_power(); fb.enable_sensor_response(); r.render(view, fb); c.get()->readout(fb, Second(1e-3)); for (std::size_t i = 0; i < fb.received_power().size(); ++i) v.push_back(double(fb.received_power()[i][1])); for (std::size_t i = 0; i < fb.sensor_response().size(); ++i) v.push_back(double(fb.sensor_response()[i][1])); } }
        s.delete_camera_model(c); return v;
    }
};
static std::unique_ptr<World> W; static std::size_t used = 0;
static World& world() { if (!W || ++used % 400 == 0) W = std::make_unique<World>(); return *W; }
static const std::vector<double>& expected(const Spec& s)
{
    static std::map<std::string, std::vector<double>> memo; std::string k = mc::fmt("%g %g %g %g %g %d %d %d %d %d %d", s.glare, s.fstop, s.foc, s.rot, s.qe, s.psf, s.r, s.dist, s.conv, s.dof, s.bl); auto i = memo.find(k); if (i != memo.end()) return i->second; mc::count("states"); std::string why;
    return memo[k] = world().shoot([&](const H& c) { if (s.rot != 0) c.set_sensor_rotation(Radian(s.rot)); c.set_fstop(float(s.fstop)); lens(c, s.dist); c.use_blender_convention(s.bl); c.set_sensor_quantum_efficiency(s.qe); if (s.psf) c.set_psf<Box<TS>>(s.r); if (s.conv) c.enable_psf_convolution(); if (s.dof) c.enable_depth_of_field(); if (!std::isinf(s.foc)) c.set_focus_distance(Meter(s.foc)); if (s.glare > 0) c.set_veiling_glare(float(s.glare)); return std::string(); }, why);
}
static void history(const std::vector<Op>& o, const std::vector<int>& q)
{
    std::string t; Spec s; for (int i : q) { auto& p = o[std::size_t(i)]; t += std::string(p.name) + "; "; if (p.spec) p.spec(s); mc::count("transitions"); } mc::at_s(t); mc::evaluated(q.size() > 1); std::string why;
    auto g = world().shoot([&](const H& c) { for (int i : q) { auto& p = o[std::size_t(i)]; bool th = mc::throws([&] { p.run(c); }); if (th != p.refused) return std::string(p.name) + (th ? " is refused" : " is accepted"); } return std::string(); }, why); if (!why.empty()) { mc::fail("refusal", why); return; }
    auto& e = expected(s); mc::at_s(t); double top[2] = {0, 0}; std::size_t n = g.size() / 2; for (std::size_t i = 0; i < e.size(); ++i) top[i >= n] = std::max(top[i >= n], std::fabs(e[i])); if (!mc::check(g.size() == e.size() && top[0] > 0 && top[1] > 0, "shape", "no image")) return;
    for (std::size_t i = 0; i < g.size(); ++i) if (!(std::fabs(g[i] - e[i]) <= 2e-4 * top[i >= n])) { mc::fail("stale", mc::fmt("%s (%zu,%zu) is %.6g, a fresh camera with the same settings gives %.6g", i >= n ? "response" : "power", i % n % 14, i % n / 14, g[i], e[i])); return; }
    mc::outcome(mc::fmt("%d %d%d%d%d%d%d", s.glare > 0, s.psf, s.conv, s.dof, s.dist, s.bl, s.rot != 0));
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); sc::start(); auto o = ops(); const int K = int(o.size());
    for (int a = 0; a < K; ++a) { if (mc::mine()) history(o, {a}); for (int b = 0; b < K; ++b) if (mc::mine()) history(o, {a, b}); }
    std::vector<int> core = {0, 2, 4, 6, 8, 10, 11, 12, 14, 17}; if (mc::thorough()) { core.clear(); for (int i = 0; i < K; ++i) core.push_back(i); } for (int a : core) for (int b : core) for (int d : core) if (mc::mine()) history(o, {a, b, d});
    // everything set, then two more
    for (int a = 0; a < K; ++a) for (int b : core) if (mc::mine()) history(o, {0, 4, 8, 10, 12, 14, 15, 17, 20, a, b});
    return mc::finish();
}
