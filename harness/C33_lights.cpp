// C33: sphere lights, unresolved sources and their setters over a lattice of distances, radii, phases, orientations and sample points, against double-precision radiometry.
#include "huira_prelude.hpp"
#include "huira/huira.hpp"
#include "mc.hpp"
#include "refmath.hpp"
using namespace huira; using units::Meter; using units::Watt;
#ifdef USE8
using TS = Visible8;
#else
using TS = RGB;
#endif
static const double PI_ = 3.14159265358979323846;
struct Seq : Sampler<float> { std::vector<float> v; std::size_t i = 0; explicit Seq(std::vector<float> x) : v(std::move(x)) {} float get_1d() override { return v[i++ % v.size()]; } Vec2<float> get_2d() override { float a = get_1d(); return {a, get_1d()}; } };
static TS ramp(double a, double b) { TS v{0}; for (std::size_t i = 0; i < TS::size(); ++i) v[i] = float(a + (b - a) * double(i) / double(TS::size() - 1)); return v; }
static bool near(const TS& got, const TS& want, double k, double rel, std::string* why = nullptr)
{
    for (std::size_t i = 0; i < TS::size(); ++i) if (!(std::fabs(double(got[i]) - k * double(want[i])) <= rel * std::fabs(k * double(want[i])) + 1e-38)) { if (why) *why = mc::fmt("bin %zu is %.8g, expected %.8g", i, double(got[i]), k * double(want[i])); return false; }
    return true;
}
static Vec3<float> F(rf::V v) { return {float(v.x), float(v.y), float(v.z)}; }
static rf::V D(Vec3<float> v) { return {double(v.x), double(v.y), double(v.z)}; }
static Transform<float> at(rf::V p) { Transform<float> t; t.position = F(p); return t; }
static std::vector<rf::V> dirs() { std::vector<rf::V> d; for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) d.push_back(rf::norm({double(x), double(y), double(z)})); d.push_back(rf::norm({0.03, 0.02, 1})); d.push_back(rf::norm({0.03, 0.02, -1})); d.push_back(rf::norm({0.3, -0.2, 1})); return d; }
static double total(const TS& v) { double t = 0; for (std::size_t i = 0; i < TS::size(); ++i) t += double(v[i]); return t; }
static double planck(double l, double T) { const double h = 6.62607015e-34, c = 299792458.0, k = 1.380649e-23; return 2 * h * c * c / std::pow(l, 5) / std::expm1(h * c / (l * k * T)); }

static void sphere(Scene<TS>& s)
{
    const bool deep = mc::thorough(); std::vector<double> R{0.01, 1, 37, 6.957e8}, X{1.0005, 1.01, 1.5, 2, 10, 300, 3e4, 1e6, 1e9};
    auto DI = dirs(); std::vector<rf::V> SH{{0, 0, 0}, {0.25, -0.5, 2}};
    for (double r : R) for (int how = 0; how < 4; ++how) {
        TS pw = ramp(3, 11), rad{0}; double P = 250; std::shared_ptr<Light<TS>> light;
        if (how == 0) { rad = ramp(0.5, 4); light = s.new_sphere_light(Meter(r), units::SpectralWattsPerMeterSquaredSteradian<TS>{rad}).get(); }
        else if (how == 1) { light = s.new_sphere_light(Meter(r), units::SpectralWatts<TS>{pw}).get(); }
        else if (how == 2) light = s.new_sphere_light(Meter(r), Watt(P)).get();
        else light = std::make_shared<SphereLight<TS>>(Meter(r), units::Kelvin(5772));
        for (double x : X) {
            double d = r * x; if (d > 1e18) continue; if (!mc::mine()) continue;
            double st2 = 1 / (x * x), ct = std::sqrt(1 - st2), solid = 2 * PI_ * st2 / (1 + ct);
            for (auto& dir : DI) for (auto& sh : SH) {
                if (d < 50 * rf::len(sh) || x < 1.4) if (rf::len(sh) > 0) continue;   // float cancellation of a shifted origin near the surface
                rf::V c = sh + d * dir; auto tr = at(c); Interaction<TS> is{}; is.position = F(sh);
                mc::at("light %d radius %g distance %g radii direction (%.3f,%.3f,%.3f) seen from (%g,%g,%g)", how, r, x, dir.x, dir.y, dir.z, sh.x, sh.y, sh.z); mc::evaluated(true);
                double tol = x < 1.4 ? 1e-5 / (1 - ct * 0) : 2e-5; TS E = light->irradiance_at(F(sh), tr); std::string why;
                if (how == 0) mc::check(near(E, rad, PI_ * st2, tol, &why), "radiance-irradiance", "%s", why.c_str());
                if (how == 1) mc::check(near(E, pw, 1 / (4 * PI_ * d * d), tol, &why), "power-irradiance", "%s", why.c_str());
                if (how == 2) { double t = total(E), w = P / (4 * PI_ * d * d); mc::check(std::fabs(t - w) <= tol * w + 1e-38, "total-power-irradiance", "all bins sum to %.8g, expected %.8g", t, w); for (std::size_t i = 0; i < TS::size(); ++i) { auto b = TS::get_bin(i); double span = 0; for (std::size_t k = 0; k < TS::size(); ++k) span += TS::get_bin(k).max_wavelength - TS::get_bin(k).min_wavelength; double wi = w * (b.max_wavelength - b.min_wavelength) / span; mc::check(std::fabs(double(E[i]) - wi) <= tol * wi + 1e-38, "total-power-split", "bin %zu gets %.8g, expected %.8g", i, double(E[i]), wi); } }
                if (how == 3) for (std::size_t i = 0; i < TS::size(); ++i) { auto b = TS::get_bin(i); static std::map<std::size_t, double> memo; double& L = memo[i]; if (L == 0) { int n = 4000; for (int k = 0; k < n; ++k) L += planck(b.min_wavelength + (k + .5) / n * (b.max_wavelength - b.min_wavelength), 5772) / n * (b.max_wavelength - b.min_wavelength); } mc::check(std::fabs(double(E[i]) - L * PI_ * st2) <= 1e-4 * L * PI_ * st2 + 1e-38, "blackbody-irradiance", "bin %zu has %.8g, expected %.8g", i, double(E[i]), L * PI_ * st2); }
                // sampled directions: inside the cone, at the surface, with density 1/solid angle
                std::vector<double> offs; int N = deep ? 16 : 6; double sum = 0; rf::V mean{0, 0, 0}; TS Ls = light->radiance(tr.position, Vec3<float>{0, 0, 1}); std::vector<float> edge{0.f, 0.25f, 0.5f, std::nextafter(1.f, 0.f)}; int n = N * N + 16;
                rf::V cc = D(tr.position) - D(is.position); double dd = rf::len(cc); cc = rf::norm(cc); double s2 = (double(float(r)) / dd) * (double(float(r)) / dd);
                for (int k = 0; k < n; ++k) {
                    bool mid = k < N * N; float u1 = mid ? float((k / N + .5) / N) : edge[std::size_t(k - N * N) / 4], u2 = mid ? float((k % N + .5) / N) : edge[std::size_t(k - N * N) % 4];
                    Seq q({u1, u2}); auto o = light->sample_li(is, tr, q); if (!mc::check(o.has_value(), "no-sample", "no sample drawn outside the light")) break;
                    rf::V w = D(o->wi); double off = rf::len(rf::cross(w, cc)), fw = rf::dot(w, cc); mc::check(std::fabs(rf::len(w) - 1) < 3e-6, "unit", "|wi| = %.9g for u=(%g,%g)", rf::len(w), double(u1), double(u2));
                    mc::check(fw > -1e-6 && off <= std::sqrt(s2) * (1 + 1e-4) + 4e-7, "outside-extent", "direction for u=(%g,%g) is %.8g off axis, the light extends to %.8g", double(u1), double(u2), off, std::sqrt(s2));
                    mc::check(mc::near(double(o->pdf), 1 / solid, 1e-3 * (x < 1.4) + 1e-4), "density", "density %.8g, solid angle gives %.8g", double(o->pdf), 1 / solid);
                    if (mid) offs.push_back(off);
                    double b = rf::dot({cc.x * dd, cc.y * dd, cc.z * dd}, w), disc = std::max(0., s2 * dd * dd - (dd * off) * (dd * off)), hit = dd * fw - std::sqrt(disc); (void)b;
                    if (off < 0.9 * std::sqrt(s2) && x < 1e3) mc::check(std::fabs(double(o->distance) - hit) <= (2e-3 + x * x * 2e-6) * r + 4e-7 * dd * x, "distance", "distance %.9g, the surface is at %.9g (u=(%g,%g))", double(o->distance), hit, double(u1), double(u2));
                    mc::check(std::isfinite(o->distance) && double(o->distance) > 0 && double(o->distance) <= dd * (1 + 1e-6), "distance-range", "distance %.9g for centre at %.9g", double(o->distance), dd);
                    mc::check(near(o->Li, Ls, 1, 1e-6), "sample-radiance", "a sample's radiance differs from the light's");
                    float pd = light->pdf_li(is, tr, o->wi); if (off < 0.99 * std::sqrt(s2) - 1e-6) mc::check(mc::near(double(pd), double(o->pdf), 1e-4), "density-agrees", "pdf_li %.8g, sample %.8g for u=(%g,%g)", double(pd), double(o->pdf), double(u1), double(u2));
                    if (mid) { sum += double(o->Li[0]) * fw / double(o->pdf); mean = mean + w; }
                }
                sum /= N * N; mc::check(std::fabs(sum - double(E[0])) <= (x < 1.4 ? 1e-2 : 3e-4) * double(E[0]), "estimate", "the samples estimate an irradiance of %.8g, irradiance_at gives %.8g", sum, double(E[0]));
                // uniform over the cone: the sorted samples reach the radii of equal solid angles
                std::sort(offs.begin(), offs.end()); for (std::size_t k = 0; k < offs.size(); ++k) { double q = (double(k / std::size_t(N)) + .5) / N * s2 / (1 + std::sqrt(std::max(0., 1 - s2))), want = std::sqrt(q * (2 - q)); mc::check(std::fabs(offs[k] - want) <= 1e-4 * want + 6e-7, "cone-spread", "sorted sample %zu lands %.8g off axis, expected %.8g", k, offs[k], want); }
                rf::V ms = (1.0 / (N * N)) * mean; mc::check(rf::len(rf::cross(ms, cc)) <= 2e-3 * std::sqrt(s2) + 1e-6, "azimuth", "sampled directions are not centred on the light: off by %.3g", rf::len(rf::cross(ms, cc)));
                // directions past the rim, behind and at right angles have density zero
                rf::V side = std::fabs(cc.z) < .9 ? rf::norm(rf::cross(cc, {0, 0, 1})) : rf::norm(rf::cross(cc, {1, 0, 0}));
                double smax = std::sqrt(s2); for (double m : {1.02, 1.5, 3.0}) { double sn = std::min(0.9999, smax * m + 2e-6); if (sn <= smax * 1.005) continue; rf::V w = std::sqrt(1 - sn * sn) * cc + sn * side; mc::check(light->pdf_li(is, tr, F(w)) == 0, "density-outside", "density %g for a direction %.6g off axis, the light extends to %.6g", double(light->pdf_li(is, tr, F(w))), sn, smax); }
                mc::check(light->pdf_li(is, tr, F(-1.0 * cc)) == 0, "density-behind", "density %g for the opposite direction", double(light->pdf_li(is, tr, F(-1.0 * cc))));
                if (x <= 1e6) for (double m : {0.0, 0.5, 0.9}) { double sn = smax * m; if (m > 0 && smax - sn < 1e-6) continue; rf::V w = std::sqrt(1 - sn * sn) * cc + sn * side; mc::check(light->pdf_li(is, tr, F(w)) > 0, "density-inside", "density 0 for a direction %.6g off axis, the light extends to %.6g", sn, smax); }
            }
            mc::outcome(mc::fmt("%g/%g", r, x));
        }
        // inside: no direct light
        if (mc::mine()) for (double x : {0.0, 0.3, 0.9}) for (auto& dir : DI) { mc::at("light %d radius %g seen from inside at %g radii", how, r, x); mc::evaluated(false); Interaction<TS> is{}; is.position = {0, 0, 0}; auto tr = at((r * x) * dir); Seq q({.3f, .6f}); mc::check(!light->sample_li(is, tr, q), "inside-sample", "sampled from inside"); mc::check(light->pdf_li(is, tr, F(dir)) == 0, "inside-density", "density inside"); mc::check(total(light->irradiance_at(is.position, tr)) == 0, "inside-irradiance", "irradiance inside"); }
    }
}
static void invalid(Scene<TS>& s)
{
    float nan = std::numeric_limits<float>::quiet_NaN(), inf = std::numeric_limits<float>::infinity(); auto eye = s.root.new_instance(s.new_sphere_light(Meter(1), Watt(1)));
    for (float b : {-1.f, nan, inf, -inf}) {
        mc::at("invalid value %g", double(b)); mc::evaluated(false); TS bad = ramp(1, 2); bad[TS::size() - 1] = b; std::size_t n = 0; auto T = [&](const char* k, auto f) { ++n; mc::check(mc::throws(f), k, "accepted %g", double(b)); };
        T("light-watt", [&] { s.new_sphere_light(Meter(1), Watt(double(b))); }); T("light-spectral", [&] { s.new_sphere_light(Meter(1), units::SpectralWatts<TS>{bad}); });
        T("emitter-watt", [&] { s.new_unresolved_emitter(Watt(double(b))); }); T("emitter-spectral", [&] { s.new_unresolved_emitter(units::SpectralWatts<TS>{bad}); });
        T("object-total", [&] { s.new_unresolved_object(units::WattsPerMeterSquared(double(b))); }); T("object-spectral", [&] { s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{bad}); });
        T("sphere-radius", [&] { s.new_unresolved_sphere(Meter(double(b)), eye); }); T("sphere-albedo", [&] { s.new_unresolved_sphere(Meter(1), eye, b); }); T("sphere-spectral-albedo", [&] { s.new_unresolved_sphere(Meter(1), eye, bad); });
        if (!(b == -1.f)) { T("asteroid-H", [&] { s.new_unresolved_asteroid(double(b), 0.15, eye); }); T("asteroid-G", [&] { s.new_unresolved_asteroid(15, double(b), eye); }); } T("asteroid-albedo", [&] { s.new_unresolved_asteroid(15, 0.15, eye, b); });
    }
    for (float b : {1.5f}) { mc::at("albedo 1.5"); mc::check(mc::throws([&] { s.new_unresolved_sphere(Meter(1), eye, b); }), "sphere-albedo-above-one", "accepted"); mc::check(mc::throws([&] { s.new_unresolved_asteroid(1, .15, eye, b); }), "asteroid-albedo-above-one", "accepted"); }
    auto q = s.root.new_instance(s.new_unresolved_emitter(Watt(1))); mc::at("light handle that is no light"); mc::check(mc::throws([&] { s.new_unresolved_sphere(Meter(1), q); }), "sphere-not-a-light", "accepted"); mc::check(mc::throws([&] { s.new_unresolved_asteroid(1, .15, q); }), "asteroid-not-a-light", "accepted");
}
static TS irr(const UnresolvedObjectHandle<TS>& h) { return h.get()->get_irradiance(Time::from_et(0)); }
static void unresolved(Scene<TS>& s)
{
    auto DI = dirs(); std::vector<double> dist{0.5, 1, 3, 100, 1e4, 1.5e9, 1.496e11, 4e12}; std::string why; std::vector<LightInstance<TS>> none;
    TS pw = ramp(3, 11); auto e1 = s.new_unresolved_emitter(units::SpectralWatts<TS>{pw}); auto e2 = s.new_unresolved_emitter(Watt(60)); TS ir = ramp(0.1, 0.7); auto o1 = s.new_unresolved_object(units::SpectralWattsPerMeterSquared<TS>{ir}); auto o2 = s.new_unresolved_object(units::WattsPerMeterSquared(3));
    for (double d : dist) for (auto& dir : DI) {
        if (!mc::mine()) continue; mc::at("emitters at %g m direction (%.3f,%.3f,%.3f)", d, dir.x, dir.y, dir.z); mc::evaluated(true); auto tr = at(d * dir);
        for (auto* h : {&e1, &e2, &o1, &o2}) h->get()->resolve_irradiance(tr, none);
        mc::check(near(irr(e1), pw, 1 / (4 * PI_ * d * d), 1e-5, &why), "emitter-spectral-irradiance", "%s", why.c_str()); double t = total(irr(e2)), w = 60 / (4 * PI_ * d * d); mc::check(std::fabs(t - w) <= 1e-5 * w, "emitter-total-irradiance", "%.8g, expected %.8g", t, w);
        mc::check(near(irr(o1), ir, 1, 0, &why), "object-spectral-irradiance", "%s", why.c_str()); t = total(irr(o2)); mc::check(std::fabs(t - 3) < 3e-6, "object-total-irradiance", "%.8g, expected 3", t);
    }
    // reflecting spheres: phase lattice x distances x orientation
    const int NP = mc::thorough() ? 180 : 36; auto l1 = s.new_sphere_light(Meter(2), units::SpectralWatts<TS>{pw}); auto l2 = s.new_sphere_light(Meter(1), units::SpectralWatts<TS>{ramp(50, 70)}); auto i1 = s.root.new_instance(l1), i2 = s.root.new_instance(l2);
    struct G { double r, D, d; }; std::vector<G> gs{{0.5, 40, 90}, {0.5, 80, 90}, {0.5, 40, 180}, {1737e3, 1.5e11, 3.8e8}, {1e-3, 10, 10}}; TS alb = ramp(0.2, 0.9);
    for (auto& g : gs) for (int how = 0; how < 3; ++how) {
        auto h = how == 0 ? s.new_unresolved_sphere(Meter(g.r), i1) : how == 1 ? s.new_unresolved_sphere(Meter(g.r), i1, alb) : s.new_unresolved_sphere(Meter(g.r), i1, 0.35f); TS a = how == 0 ? TS{1.f} : how == 1 ? alb : TS{0.35f};
        for (std::size_t di = 0; di < DI.size(); ++di) {
            if (!mc::mine()) continue; double energy = 0; rf::V dir = DI[di], side = rf::norm(std::fabs(dir.z) < .9 ? rf::cross(dir, {0, 0, 1}) : rf::cross(dir, {1, 0, 0}));
            for (int k = 0; k <= NP; ++k) {
                double al = PI_ * k / NP; if (g.d > g.D && k == 0 && false) continue; rf::V p = g.d * dir, to = std::cos(al) * (-1.0 * dir) + std::sin(al) * side, l = p + g.D * to;
                mc::at("sphere radius %g albedo form %d at %g m, light at %g m, phase %d/%d of pi, direction %zu", g.r, how, g.d, g.D, k, NP, di); mc::evaluated(k > 0 && k < NP);
                std::vector<LightInstance<TS>> L{{l2.get(), {at(l + rf::V{0, 0, 5})}}, {l1.get(), {at(l), at(p)}}}; try { h.get()->resolve_irradiance(at(p), L); } catch (const std::exception& e) { mc::fail("sphere-throws", e.what()); continue; } TS got = irr(h);
                rf::V pf = D(F(p)), lf = D(F(l)), tl = lf - pf; double ca = rf::dot(rf::norm(tl), rf::norm(-1.0 * pf)), ph = std::acos(std::max(-1., std::min(1., ca))), phi = (std::sin(ph) + (PI_ - ph) * std::cos(ph)) / PI_, D2 = rf::dot(tl, tl), d2 = rf::dot(pf, pf);
                for (std::size_t i = 0; i < TS::size(); ++i) { double w = double(a[i]) * (2. / 3) * double(pw[i]) / (4 * PI_ * D2) * g.r * g.r / d2; mc::check(got[i] >= 0 && std::fabs(double(got[i]) - w * phi) <= 1e-5 * w * phi + 3e-6 * w * 1, "sphere-irradiance", "bin %zu %.8g, expected %.8g", i, double(got[i]), w * phi); }
                double base = double(a[0]) * double(pw[0]) / (4 * PI_ * D2) * PI_ * g.r * g.r; energy += double(got[0]) * d2 / base * 2 * PI_ * std::sin(al) * (PI_ / NP);
            }
            mc::check(std::fabs(energy - 1) < 4e-3, "sphere-energy", "a white sphere scatters %.6g of the light it receives (radius %g direction %zu)", energy, g.r, di);
        }
        mc::outcome(mc::fmt("sphere %g %d", g.r, how));
    }
    auto lost = s.new_unresolved_sphere(Meter(1), i2); auto lostA = s.new_unresolved_asteroid(10, .1, i2); std::vector<LightInstance<TS>> only1{{l1.get(), {at({1, 2, 3})}}}; mc::at("illuminating light missing from the view"); mc::check(mc::throws([&] { lost.get()->resolve_irradiance(at({5, 5, 5}), only1); }), "sphere-light-missing", "no error"); mc::check(mc::throws([&] { lostA.get()->resolve_irradiance(at({5, 5, 5}), only1); }), "asteroid-light-missing", "no error");
    // asteroids: the H-G law, reference in double; H is the magnitude at 1 au from both at zero phase
    const double AUm = 149597870700.0; auto phi = [](double A, double B, double al) { return std::exp(-A * std::pow(std::tan(al / 2), B)); };
    for (double H : {-1.5, 3.3, 16.0}) for (double Gp : {0.0, 0.15, 0.6, 1.0}) for (int how = 0; how < 2; ++how) {
        auto h = how ? s.new_unresolved_asteroid(H, Gp, i1, alb) : s.new_unresolved_asteroid(H, Gp, i1); TS one = visual_magnitude_to_irradiance<TS>(H, how ? alb : TS{1.f});
        for (std::size_t di = 0; di < DI.size(); di += mc::thorough() ? 1 : 5) for (double D_ : {0.9, 1.0, 2.7, 30.0}) for (double d : {0.002, 1.0, 3.1}) {
            if (!mc::mine()) continue; rf::V dir = DI[di], side = rf::norm(std::fabs(dir.z) < .9 ? rf::cross(dir, {0, 0, 1}) : rf::cross(dir, {1, 0, 0})); double last = 1e300;
            for (int k = 0; k <= 16; ++k) {
                double al = PI_ * k / 18; rf::V p = (d * AUm) * dir, l = p + (D_ * AUm) * (std::cos(al) * (-1.0 * dir) + std::sin(al) * side); mc::at("asteroid H %g G %g form %d at %g au, light at %g au, phase %d/18 of pi, direction %zu", H, Gp, how, d, D_, k, di); mc::evaluated(true);
                std::vector<LightInstance<TS>> L{{l2.get(), {at(p + rf::V{0, 0, 7})}}, {l1.get(), {at(l), at(p)}}}; h.get()->resolve_irradiance(at(p), L); TS got = irr(h); rf::V pf = D(F(p)), tl = D(F(l)) - pf; double ph = std::acos(std::max(-1., std::min(1., rf::dot(rf::norm(tl), rf::norm(-1.0 * pf))))), f = (1 - Gp) * phi(3.33, .63, ph) + Gp * phi(1.87, 1.22, ph), f64 = (1 - Gp) * phi(3.33, .64, ph) + Gp * phi(1.87, 1.22, ph), k2 = f / (D_ * D_ * d * d), k3 = f64 / (D_ * D_ * d * d);
                bool ok = k == 0 ? near(got, one, k2, 2e-2, &why) && near(got, one, 1 / (D_ * D_ * d * d), 2e-2, &why) : near(got, one, k2, 3e-3, &why) || near(got, one, k3, 1e-4, &why); mc::check(ok, "asteroid-irradiance", "%s", why.c_str()); mc::check(double(got[0]) <= last * (1 + 1e-6), "asteroid-phase", "brighter at a larger phase"); last = double(got[0]);
            }
        }
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1); stub_spice::reset_all();
    Scene<TS> s; if (mc::first_shard()) invalid(s); sphere(s); unresolved(s); return mc::finish();
}
