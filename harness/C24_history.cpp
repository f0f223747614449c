// C24: every sequence of camera settings up to a depth, including refused, overwritten and removed ones, compared with a fresh camera that is given only the final settings.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/cameras/camera_model.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include "mc.hpp"
using namespace huira;
using Sp = RGB;
// A cheap aperture and PSF that record what they were built from
template <IsSpectral T> struct RecPSF : PSF<T> { double tag; RecPSF(double t, int r, int b) : tag(t) { this->cache_.radius = r; this->cache_.banks = b; this->cache_.dim = 2 * r + 1; Image<T> k(2 * r + 1, 2 * r + 1); k.fill(T(float(t))); this->cache_.kernels.assign(std::size_t(b * b), k); } T evaluate(float, float) override { return T(1.f); } };
template <IsSpectral T> struct RecAperture : CircularAperture<T> { explicit RecAperture(units::Meter d) : CircularAperture<T>(d) {} std::unique_ptr<PSF<T>> make_psf(units::Meter f, units::Meter px, units::Meter py, int r, int b) override { if (r < 0 || b < 1) throw std::runtime_error("no such kernel"); return std::make_unique<RecPSF<T>>(f.to_si() / this->get_diameter().to_si() + 1e5 * px.to_si() + 3e5 * py.to_si(), r, b); } };
struct Cam : CameraModel<Sp> { const Aperture<Sp>& ap() const { return *aperture_; } const SensorModel<Sp>& sen() const { return *sensor_; } };
// What the calls so far mean
struct Spec {
    double f = .05, D = .05 / 2.8, px = 8.5e-6, py = 8.5e-6, cx = 512, cy = 512, fx = 0, fy = 0; int rx = 1024, ry = 1024; bool expl = false; // explicit matrix
    int dist = 0, psf = 0, r = 0, b = 0; bool bl = false, dof = false; double foc = INFINITY, rot = 0;
};
struct Op { const char* name; bool refused; std::function<void(Cam&)> run; std::function<void(Spec&)> spec; };
static void sized(Spec& s, int rx, int ry, double px, double py, double cx, double cy) { s.rx = rx; s.ry = ry; s.px = px; s.py = py; s.cx = cx; s.cy = cy; s.expl = false; }
static void distort(CameraModel<Sp>& c, int d)
{
    if (d == 1) c.set_brown_conrady_distortion(BrownCoefficients(-0.1, 0.01, 0, 0.002, -0.001));
    if (d == 2) c.set_opencv_distortion(OpenCVCoefficients(0.08, 0, 0, -0.02, 0, 0, 0.001, 0, 0.001, 0, 0, 0.002));
    if (d == 3) c.set_owen_distortion(OwenCoefficients(0.01, -0.07, 0, 0.01, 0.004, 0));
}
static std::vector<Op> ops()
{
    using namespace units; std::vector<Op> o; auto add = [&](const char* n, std::function<void(Cam&)> r, std::function<void(Spec&)> s) { o.push_back({n, !s, r, s}); };
    const float nanf_ = std::numeric_limits<float>::quiet_NaN();
    add("pitch 6x4", [](Cam& c) { c.configure_sensor_from_pitch(Resolution{6, 4}, Micrometer(9000.)); }, [](Spec& s) { sized(s, 6, 4, 9e-3, 9e-3, 3, 2); });
    add("pitch 4x5 off-centre", [](Cam& c) { c.configure_sensor_from_pitch(Resolution{4, 5}, Micrometer(8000.), Micrometer(6000.), 0.5f, 3.f); }, [](Spec& s) { sized(s, 4, 5, 8e-3, 6e-3, 0.5, 3); });
    add("size 5x5", [](Cam& c) { c.configure_sensor_from_size(Resolution{5, 5}, Millimeter(40.)); }, [](Spec& s) { sized(s, 5, 5, 8e-3, 8e-3, 2.5, 2.5); });
    add("size 3x4 both", [](Cam& c) { c.configure_sensor_from_size(Resolution{3, 4}, Millimeter(30.), Millimeter(28.), 1.f, std::nullopt); }, [](Spec& s) { sized(s, 3, 4, 1e-2, 7e-3, 1, 2); });
    add("intrinsics 6x4", [](Cam& c) { c.set_intrinsics(5.f, 7.f, 2.f, 2.5f, Resolution{6, 4}, Millimeter(35.)); }, [](Spec& s) { s.rx = 6; s.ry = 4; s.fx = 5; s.fy = 7; s.cx = 2; s.cy = 2.5; s.f = .035; s.px = .035 / 5; s.py = .035 / 7; s.expl = true; });
    add("f 50", [](Cam& c) { c.set_focal_length(Millimeter(50.)); }, [](Spec& s) { s.f = .05; s.expl = false; });
    add("f 80", [](Cam& c) { c.set_focal_length(Millimeter(80.)); }, [](Spec& s) { s.f = .08; s.expl = false; });
    add("f/2", [](Cam& c) { c.set_fstop(2.f); }, [](Spec& s) { s.D = s.f / 2; });
    add("f/0.7", [](Cam& c) { c.set_fstop(0.7f); }, [](Spec& s) { s.D = s.f / 0.7; });
    add("brown", [](Cam& c) { distort(c, 1); }, [](Spec& s) { s.dist = 1; });
    add("opencv", [](Cam& c) { distort(c, 2); }, [](Spec& s) { s.dist = 2; });
    add("undistort", [](Cam& c) { c.delete_distortion(); }, [](Spec& s) { s.dist = 0; });
    add("blender", [](Cam& c) { c.use_blender_convention(); }, [](Spec& s) { s.bl = true; });
    add("cv", [](Cam& c) { c.use_blender_convention(false); }, [](Spec& s) { s.bl = false; });
    add("focus 0.01", [](Cam& c) { c.set_focus_distance(Meter(0.01)); }, [](Spec& s) { s.foc = .01; });
    add("diopters 0", [](Cam& c) { c.set_diopters(Diopter(0.)); }, [](Spec& s) { s.foc = INFINITY; });
    add("diopters 40", [](Cam& c) { c.set_diopters(Diopter(40.)); }, [](Spec& s) { s.foc = 1 / 40.; });
    add("dof", [](Cam& c) { c.enable_depth_of_field(); }, [](Spec& s) { s.dof = true; });
    add("no dof", [](Cam& c) { c.enable_depth_of_field(false); }, [](Spec& s) { s.dof = false; });
    add("aperture psf", [](Cam& c) { c.use_aperture_psf(2, 2); }, [](Spec& s) { s.psf = 1; s.r = 2; s.b = 2; });
    add("own psf", [](Cam& c) { c.set_psf<RecPSF<Sp>>(7.0, 1, 3); }, [](Spec& s) { s.psf = 2; s.r = 1; s.b = 3; });
    add("no psf", [](Cam& c) { c.delete_psf(); }, [](Spec& s) { s.psf = 0; });
    add("aperture 30mm", [](Cam& c) { c.set_aperture<RecAperture<Sp>>(Meter(0.03)); }, [](Spec& s) { s.D = 0.03; });
    add("sensor 4x4", [](Cam& c) { SimpleSensorConfig<Sp> s; s.resolution = Resolution{4, 4}; s.pitch_x = s.pitch_y = Micrometer(7000.); s.rotation = Radian(0.3); c.set_sensor<SimpleSensor<Sp>>(s); }, [](Spec& s) { sized(s, 4, 4, 7e-3, 7e-3, 2, 2); s.rot = 0.3; });
    add("owen", [](Cam& c) { distort(c, 3); }, [](Spec& s) { s.dist = 3; });
    // refused
    add("f -1", [](Cam& c) { c.set_focal_length(Millimeter(-1.)); }, {}); add("f nan", [=](Cam& c) { c.set_focal_length(Millimeter(double(nanf_))); }, {}); add("f 0", [](Cam& c) { c.set_focal_length(Millimeter(0.)); }, {});
    add("f/0", [](Cam& c) { c.set_fstop(0.f); }, {}); add("f/nan", [=](Cam& c) { c.set_fstop(nanf_); }, {}); add("f/-2", [=](Cam& c) { c.set_fstop(-2.f); }, {});
    add("pitch negative", [](Cam& c) { c.configure_sensor_from_pitch(Resolution{3, 3}, Micrometer(-1.)); }, {}); add("pitch nan centre", [=](Cam& c) { c.configure_sensor_from_pitch(Resolution{3, 3}, Micrometer(100.), std::nullopt, nanf_, 1.f); }, {}); add("pitch y 0", [](Cam& c) { c.configure_sensor_from_pitch(Resolution{3, 2}, Micrometer(100.), Micrometer(0.)); }, {}); add("negative resolution", [](Cam& c) { c.configure_sensor_from_pitch(Resolution{3, -2}, Micrometer(100.)); }, {});
    add("size 0", [](Cam& c) { c.configure_sensor_from_size(Resolution{2, 2}, Millimeter(0.)); }, {}); add("size inf centre", [](Cam& c) { c.configure_sensor_from_size(Resolution{2, 2}, Millimeter(3.), Millimeter(3.), 1.f, INFINITY); }, {}); add("size negative height", [](Cam& c) { c.configure_sensor_from_size(Resolution{2, 2}, Millimeter(3.), Millimeter(-3.)); }, {});
    add("intrinsics fx -1", [](Cam& c) { c.set_intrinsics(-1.f, 4.f, 1.f, 1.f, Resolution{2, 2}, Millimeter(20.)); }, {}); add("intrinsics fy 0", [](Cam& c) { c.set_intrinsics(3.f, 0.f, 1.f, 1.f, Resolution{2, 2}, Millimeter(20.)); }, {}); add("intrinsics f 0", [](Cam& c) { c.set_intrinsics(3.f, 3.f, 1.f, 1.f, Resolution{2, 2}, Millimeter(0.)); }, {});
    add("focus nan", [=](Cam& c) { c.set_focus_distance(Meter(double(nanf_))); }, {}); add("focus 0", [](Cam& c) { c.set_focus_distance(Meter(0.)); }, {}); add("glare 2", [](Cam& c) { c.set_veiling_glare(2.f); }, {}); add("aperture psf refused", [](Cam& c) { c.use_aperture_psf(-1, 2); }, {});
    return o;
}
static std::vector<double> observe(Cam& c, bool all)
{
    std::vector<double> v; auto p = [&](double x) { v.push_back(x); }; Resolution r = c.resolution(); p(r.x); p(r.y); p(c.focal_length().to_si()); p(double(c.fstop())); p(c.is_blender_convention()); p(c.has_psf()); p(c.get_focus_distance().to_si()); p(c.get_diopters().to_si()); p(double(c.sen().pixel_pitch().x) * 1e3); p(double(c.sen().pixel_pitch().y) * 1e3); p(double(c.sen().sensor_size().x) * 1e2); auto fb = c.make_frame_buffer(); p(fb.width()); p(fb.height());
    { Vec3<double> e = c.sensor_rotation() * Vec3<double>{1, 0, 0}; p(e.x); p(e.y); }
    for (auto& n : c.view_frustum().plane_normals()) for (int k = 0; k < 3; ++k) p(double(n[k]));
    DeterministicSampler<float> s(0.3f, Vec2<float>{0.9f, 0.35f});
    if (all) for (int y = 0; y < r.y; ++y) for (int x = 0; x < r.x; ++x) { auto a = c.cast_ray(Pixel{float(x) + 0.5f, float(y) + 0.25f}), b = c.cast_ray(x, y); auto d = c.cast_ray(Pixel{float(x), float(y) + 0.75f}, s); for (int k = 0; k < 3; ++k) { p(double(a.direction()[k])); p(double(b.direction()[k])); p(double(d.direction()[k])); p(double(d.origin()[k]) * 30); } p(double(c.pixel_radiance_to_power(x, y)) * 1e3); }
    for (float z : {-1.f, 1.f, 9.f}) for (float x : {-0.45f, 0.f, 0.21f, 0.77f}) for (float y : {-0.6f, -0.1f, 0.33f}) { Vec3<float> q{x * z, y * z, z}; p(c.in_fov(q)); Pixel w = c.project_point(q), t = c.try_project_point(q); if (std::isfinite(w[0])) { p(double(w[0])); p(double(w[1])); p(std::isnan(t[0])); } p(double(c.get_projected_aperture_area(q)) * 1e3); }
    const auto& a = c.ap(); p(a.has_defocus()); p(double(a.get_defocus_radius())); p(a.get_defocus_half_extent()); p(a.get_area().to_si() * 1e3); if (a.has_defocus()) for (float u : {0.f, 0.5f}) { const auto& k = a.get_defocus_kernel(u, 0.3f); p(k.width()); for (int i = 0; i < k.width(); ++i) p(double(k(i, k.height() / 2)) * 10); }
    if (c.has_psf()) { p(c.get_psf_radius()); for (float u : {0.f, 0.6f}) { const auto& k = c.get_psf_kernel(u, 0.f); p(k.width()); p(double(k(0, 0)[0])); } }
    return v;
}
static void build(Cam& c, const Spec& s)
{
    using namespace units;
    if (s.rot != 0) { SimpleSensorConfig<Sp> q; q.resolution = Resolution{2, 2}; q.pitch_x = q.pitch_y = Micrometer(5000.); q.rotation = Radian(s.rot); c.set_sensor<SimpleSensor<Sp>>(q); }
    if (s.expl) c.set_intrinsics(float(s.fx), float(s.fy), float(s.cx), float(s.cy), Resolution{s.rx, s.ry}, Millimeter(s.f * 1e3)); else { c.configure_sensor_from_pitch(Resolution{s.rx, s.ry}, Micrometer(s.px * 1e6), Micrometer(s.py * 1e6), float(s.cx), float(s.cy)); c.set_focal_length(Millimeter(s.f * 1e3)); }
    c.set_aperture<RecAperture<Sp>>(Meter(s.D)); c.use_blender_convention(s.bl);
    distort(c, s.dist); c.set_focus_distance(Meter(s.foc)); c.enable_depth_of_field(s.dof); if (s.psf == 1) c.use_aperture_psf(s.r, s.b); if (s.psf == 2) c.set_psf<RecPSF<Sp>>(7.0, s.r, s.b);
}
static bool near_(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 2e-4 + 4e-4 * std::max(std::fabs(a), std::fabs(b)); }
// Every history and every reference runs in a forked child that starts from the same untouched camera (constructing one is slow).
static Cam* pristine; 
static std::vector<double> child(const std::function<std::vector<double>(Cam&)>& f)
{
    int fd[2]; if (pipe(fd)) abort(); pid_t pid = fork(); if (pid == 0) { close(fd[0]); std::vector<double> v; try { v = f(*pristine); } catch (const std::exception&) { v = {-77}; } const char* b = reinterpret_cast<const char*>(v.data()); std::size_t n = v.size() * sizeof(double), o = 0; while (o < n) { ssize_t k = write(fd[1], b + o, n - o); if (k <= 0) break; o += std::size_t(k); } _exit(0); }
    close(fd[1]); std::string t; char buf[65536]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) t.append(buf, std::size_t(k)); close(fd[0]); int st = 0; waitpid(pid, &st, 0);
    std::vector<double> v(t.size() / sizeof(double)); std::memcpy(v.data(), t.data(), v.size() * sizeof(double)); if (!WIFEXITED(st)) v = {-78}; return v;
}
static const std::vector<double>& expected(const Spec& s)
{
    static std::map<std::string, std::vector<double>> memo; std::string k = mc::fmt("%.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %d %d %d %d %d %d %d %d %d %.9g %g", s.f, s.D, s.px, s.py, s.cx, s.cy, s.fx, s.fy, s.rx, s.ry, s.expl, s.dist, s.psf, s.r, s.b, s.bl, s.dof, s.foc, s.rot);
    auto i = memo.find(k); if (i != memo.end()) return i->second; mc::count("states"); return memo[k] = child([&](Cam& c) { build(c, s); return observe(c, true); });
}
static void history(const std::vector<Op>& o, const std::vector<int>& seq)
{
    std::string t; for (int i : seq) { t += o[std::size_t(i)].name; t += "; "; } mc::at_s(t); mc::evaluated(seq.size() > 1); Spec s;
    for (int i : seq) { const Op& q = o[std::size_t(i)]; if (!q.refused) { q.spec(s); if (s.expl == false) { s.fx = 0; s.fy = 0; } } mc::count("transitions"); }
    auto g = child([&](Cam& c) { c.set_aperture<RecAperture<Sp>>(units::Meter(.05 / 2.8)); for (int i : seq) { const Op& q = o[std::size_t(i)]; bool thrown = mc::throws([&] { q.run(c); }); if (thrown != q.refused) return std::vector<double>{-79, double(i)}; } return observe(c, true); });
    if (g.size() == 2 && g[0] == -79) { mc::fail("refusal", mc::fmt("%s is %s", o[std::size_t(g[1])].name, o[std::size_t(g[1])].refused ? "accepted" : "refused")); return; } if (g.size() == 1) { mc::fail("broken", g[0] == -78 ? "crash" : "exception while using the camera"); return; }
    const auto& e = expected(s); if (!mc::check(g.size() == e.size(), "shape", "%zu observations instead of %zu", g.size(), e.size())) return;
    for (std::size_t i = 0; i < g.size(); ++i) if (!near_(g[i], e[i])) { mc::fail("stale", mc::fmt("observation %zu is %.7g, a fresh camera with the same settings gives %.7g", i, g[i], e[i])); return; }
    mc::outcome(mc::fmt("%d%d%d%d%d", s.dist, s.psf, s.bl, s.dof, s.expl));
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    try {
        Cam cam; pristine = &cam; auto o = ops(); const int K = int(o.size()), SET = 25;
        // each history starts by choosing a small sensor (the default 1024 x 1024 one is slow)
        const int starts[] = {0, 4, 23}; int nstart = mc::thorough() ? 3 : 2;
        for (int st = 0; st < nstart; ++st) for (int a = 0; a < K; ++a) { if (mc::mine()) history(o, {starts[st], a}); for (int b = 0; b < K; ++b) if (mc::mine()) history(o, {starts[st], a, b}); }
        // three more calls among those that change derived data
        std::vector<int> core = {1, 2, 4, 6, 8, 9, 11, 12, 14, 19, 23}; if (mc::thorough()) { core.clear(); for (int i = 0; i < SET; ++i) core.push_back(i); }
        for (int a : core) for (int b : core) for (int d : core) if (mc::mine()) history(o, {0, a, b, d});
        // everything set, then two more calls, refused ones included
        for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) if (mc::mine()) history(o, {0, 6, 8, 9, 12, 16, 17, 19, a, b});
        if (mc::thorough()) for (int a = 0; a < SET; ++a) for (int b = 0; b < SET; ++b) for (int d = 0; d < SET; ++d) if (mc::mine()) history(o, {4, 8, 10, 12, 14, 17, 19, a, b, d});
    } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); }
    return mc::finish();
}
