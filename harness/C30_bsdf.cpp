// C30: every reflection model over complete lattices of directions, parameters, frames and sample coordinates against independent double-precision formulas.
#include "scenes.hpp"
using TS = RGB; using Vd = Vec3<double>; using Vf = Vec3<float>;
constexpr double PID = 3.14159265358979323846;
struct Refl { std::string name; std::shared_ptr<BSDF<TS>> b; int kind; double h = 0, B0 = 0, hb = 0, hc = 0; };
enum { LAM, LOM, ORE, MCE, HAP, COO, NUL };
static std::vector<Refl> models()
{
    std::vector<Refl> v; v.push_back({"lambertian", std::make_shared<LambertianBSDF<TS>>(), LAM}); v.push_back({"lommel-seeliger", std::make_shared<LommelSeeligerBSDF<TS>>(), LOM}); v.push_back({"oren-nayar", std::make_shared<OrenNayarBSDF<TS>>(), ORE}); v.push_back({"mcewen", std::make_shared<McEwenBSDF<TS>>(), MCE}); v.push_back({"cook-torrance", std::make_shared<CookTorranceBSDF<TS>>(), COO}); v.push_back({"null", std::make_shared<NullBSDF<TS>>(), NUL});
    for (double h : {0.0, 0.05, 0.5}) for (double B0 : {0.0, 1.0}) for (double b : {0.0, 0.3, 0.6}) for (double c : {0.0, 0.4, 1.0}) { if (!mc::thorough() && (h == 0.5) != (b == 0.6)) continue; Refl m{mc::fmt("hapke h %g, B0 %g, b %g, c %g", h, B0, b, c), std::make_shared<HapkeBSDF<TS>>(float(h), float(B0), float(b), float(c)), HAP}; m.h = h; m.B0 = B0; m.hb = b; m.hc = c; v.push_back(m); } return v;
}
static double exact(const Refl& m, double al, double rough, double metal, double ci, double co, double cosa, double coh, double nh)
{
    if (m.kind == NUL) return 0; if (ci <= 0) return 0; if (m.kind == LAM) return al / PID; if (co <= 0) return 0; double ls = 1 / (4 * PID * (ci + co)), a = std::acos(std::clamp(cosa, -1.0, 1.0));
    switch (m.kind) {
    case LOM: return al * ls;
    case ORE: { double s = rough * PID / 2, s2 = s * s, A = 1 - 0.5 * s2 / (s2 + 0.33), B = 0.45 * s2 / (s2 + 0.09), d = cosa - ci * co; return al / PID * (A + B * (d > 0 ? d / std::max(ci, co) : 0)); }
    case MCE: { double be = std::exp(-a / (PID / 3)); return al * ((1 - be) / PID + be * ls); }
    case HAP: { auto hg = [&](double g) { return (1 - g * g) / std::pow(1 + g * g - 2 * g * cosa, 1.5); }; double P = (1 - m.hc) * hg(-m.hb) + m.hc * hg(m.hb), B = m.h > 0 ? m.B0 / (1 + std::tan(a / 2) / m.h) : 0, g = std::sqrt(1 - al); auto H = [&](double u) { return (1 + 2 * u) / (1 + 2 * u * g); }; return al * ls * ((1 + B) * P + H(ci) * H(co) - 1); }
    default: { double r = std::clamp(rough, 0.01, 1.0), a2 = r * r * r * r, f0 = al * metal + 0.04 * (1 - metal), q = nh * nh * (a2 - 1) + 1, D = a2 / (PID * q * q); auto L = [&](double c) { return (std::sqrt(1 + a2 * (1 - c * c) / (c * c)) - 1) / 2; }; double G1 = 1 / (1 + L(ci)) / (1 + L(co)), G2 = 1 / (1 + L(ci) + L(co)); (void)G1; double F = f0 + (1 - f0) * std::pow(1 - coh, 5.0); return al * (1 - metal) / PID + D * F * G2 / (4 * ci * co); }
    }
}
struct Frame { Vf n, t, b; }; 
static Frame frame(Vd n, double twist) { Frame f; n = glm::normalize(n); f.n = {float(n.x), float(n.y), float(n.z)}; Vf t, b; build_default_tangent_frame(f.n, t, b); f.t = t * float(std::cos(twist)) + b * float(std::sin(twist)); f.b = glm::cross(f.n, f.t); return f; }
static Interaction<TS> at(const Frame& f) { Interaction<TS> i{}; i.normal_g = i.normal_s = f.n; i.tangent = f.t; i.bitangent = f.b; i.position = {1, 2, 3}; return i; }
static Vf world(const Frame& f, Vd l) { Vd w = Vd(f.t) * l.x + Vd(f.b) * l.y + Vd(f.n) * l.z; w = glm::normalize(w); return {float(w.x), float(w.y), float(w.z)}; }
static Vd dir(double z, double phi) { double r = std::sqrt(std::max(0.0, 1 - z * z)); return {r * std::cos(phi), r * std::sin(phi), z}; }
static std::vector<ShadingParams<TS>> params(const Refl& m)
{
    std::vector<ShadingParams<TS>> v; std::vector<float> rs{0.5f}, ms{0.f}; if (m.kind == ORE || m.kind == COO) rs = {0.f, 0.01f, 0.05f, 0.2f, 0.35f, 0.5f, 0.8f, 1.f}; if (m.kind == COO) ms = {0.f, 0.5f, 1.f};
    for (auto al : {std::array<float, 3>{1, 1, 1}, std::array<float, 3>{0, 0.18f, 0.9f}}) for (float r : rs) for (float me : ms) { ShadingParams<TS> p; p.albedo = TS{0}; for (std::size_t i = 0; i < 3; ++i) p.albedo[i] = al[i]; p.roughness = r; p.metallic = me; v.push_back(p); } return v;
}
static void values(const Refl& m)
{
    std::vector<Vd> ds; std::vector<double> zs{1, 0.97, 0.8, 0.5, 0.2, 0.05, 1e-3}; int A = mc::thorough() ? 12 : 6; for (double z : zs) for (int k = 0; k < (z == 1 ? 1 : A); ++k) ds.push_back(dir(z, 2 * PID * k / A + 0.03)); for (double z : {-1e-3, -0.4, -1.0}) ds.push_back(dir(z, 0.7));
    std::vector<Frame> fs{frame({0, 0, 1}, 0), frame({1, -2, 0.5}, 1), frame({0, 0, -1}, 2.2), frame({-0.3, 0.1, 0.9}, 4)}; auto req = m.b->requirements();
    for (auto& p : params(m)) for (std::size_t fi = 0; fi < fs.size(); ++fi) { if (!mc::mine()) continue; auto is = at(fs[fi]);
        for (auto& lo : ds) for (auto& li : ds) {
            Vf wo = world(fs[fi], lo), wi = world(fs[fi], li); mc::at("%s, albedo (%g,%g,%g) roughness %g metallic %g, normal %zu, view (%g,%g,%g) light (%g,%g,%g)", m.name.c_str(), double(p.albedo[0]), double(p.albedo[1]), double(p.albedo[2]), double(p.roughness), double(p.metallic), fi, lo.x, lo.y, lo.z, li.x, li.y, li.z); mc::evaluated(lo.z > 0 && li.z > 0);
            TS f = m.b->eval(wo, wi, is, p); float q = m.b->pdf(wo, wi, is, p); mc::check(std::isfinite(q) && q >= 0, "density", "%g", double(q)); if (m.kind == NUL) mc::check(q == 0, "density", "%g for a surface that only passes light straight on", double(q)); else if (li.z < 0) mc::check(q == 0, "below", "density %g below the surface", double(q));
            Vd No(fs[fi].n), WO(wo), WI(wi), H = glm::normalize(WO + WI); double ci = glm::dot(No, WI), co = glm::dot(No, WO), nh = glm::dot(No, H); double sin2 = glm::dot(glm::cross(No, H), glm::cross(No, H)); nh = std::sqrt(std::max(0.0, 1 - sin2)); nh = nh > 0 ? nh : 0; // direction cosines of the rounded vectors
            for (std::size_t c = 0; c < 3; ++c) {
                double v = f[c]; mc::check(std::isfinite(v) && v >= 0, "value", "channel %zu: %g", c, v); if (li.z < 0) { mc::check(v == 0, "below", "%g below the surface", v); continue; } if (lo.z < 0 && m.kind != LAM) { mc::check(v == 0, "below", "%g seen from below the surface", v); continue; } if (lo.z < 0) continue;
                // single precision of grazing cosines and, for smooth surfaces, of the half vector
                double rel = 1e-5 + 4e-7 / ci + 4e-7 / co; double e; if (m.kind == COO) { double r = std::clamp(double(p.roughness), 0.01, 1.0), a2 = r * r * r * r; auto ev = [&](double s2) { double n2 = std::sqrt(std::max(0.0, 1 - s2)); return exact(m, p.albedo[c], p.roughness, p.metallic, ci, co, glm::dot(WO, WI), std::max(0.0, glm::dot(WO, H)), n2); }; double s = std::sqrt(sin2), d = 3e-7; double lo_ = ev(std::pow(s + d, 2)), hi_ = ev(std::pow(std::max(0.0, s - d), 2)); if (lo_ > hi_) std::swap(lo_, hi_); rel += 1e-4; (void)a2; mc::check(v >= lo_ * (1 - rel) - 1e-7 && v <= hi_ * (1 + rel) + 1e-7, "formula", "channel %zu: %.9g, the model gives %.9g", c, v, ev(sin2)); continue; }
                e = exact(m, p.albedo[c], p.roughness, p.metallic, ci, co, glm::dot(WO, WI), 0, nh); if (m.kind == MCE || m.kind == HAP) rel += 2e-3 * (m.kind == HAP && m.h > 0 && m.h < 0.1 && glm::dot(WO, WI) > 0.99 ? 10 : 1); mc::check(std::fabs(v - e) <= rel * e + 1e-7, "formula", "channel %zu: %.9g, the model gives %.9g", c, v, e);
            }
            if (lo.z > 0 && li.z > 0) { TS g = m.b->eval(wi, wo, is, p); for (std::size_t c = 0; c < 3; ++c) mc::check(std::fabs(f[c] - g[c]) <= (1e-4 + 1e-6 / glm::length(WO + WI)) * std::max(f[c], g[c]) + 1e-7, "reciprocity", "%.9g one way, %.9g the other", double(f[c]), double(g[c])); }
            if (fi == 1) { auto is2 = at(frame(Vd(fs[fi].n), 2.9)); TS g = m.b->eval(wo, wi, is2, p); for (std::size_t c = 0; c < 3; ++c) mc::check(std::fabs(f[c] - g[c]) <= 1e-5 * f[c], "isotropy", "depends on the tangent"); }
            ShadingParams<TS> o = p; if (!req.needs_albedo) o.albedo = TS{0.3f}; if (!req.needs_metallic) o.metallic = 1 - o.metallic; if (!req.needs_roughness) o.roughness = 0.9f; o.opacity = 0.5f; TS g = m.b->eval(wo, wi, is, o); for (std::size_t c = 0; c < 3; ++c) mc::check(f[c] == g[c], "requirement", "depends on a parameter it says it does not need");
            for (std::size_t c = 0; c < 3; ++c) { ShadingParams<TS> x = p; x.albedo[c] = 0.5f; TS y = m.b->eval(wo, wi, is, x); for (std::size_t k = 0; k < 3; ++k) if (k != c) mc::check(y[k] == f[k], "channels", "the albedo of channel %zu changes channel %zu", c, k); }
        } }
}
static void samples(const Refl& m)
{
    const int N = mc::thorough() ? 192 : 96; std::vector<float> ends{0.f, 1e-20f, 2.3e-10f, 0.25f, 0.4999999f, 0.5f, 0.75f, 0.99999f, std::nextafter(1.f, 0.f)};
    for (auto& p : params(m)) for (double z : {1.0, 0.9, 0.5, 0.1, 1e-3}) for (int fi = 0; fi < 2; ++fi) {
        if (!mc::mine()) continue; Frame f = fi ? frame({1, -2, 0.5}, 1) : frame({0, 0, 1}, 0); auto is = at(f); Vf wo = world(f, dir(z, 0.4)); std::string nm = mc::fmt("%s, albedo (%g,%g,%g) roughness %g metallic %g, frame %d, seen at cosine %g", m.name.c_str(), double(p.albedo[0]), double(p.albedo[1]), double(p.albedo[2]), double(p.roughness), double(p.metallic), fi, z);
        std::vector<std::pair<float, float>> us; for (float a : ends) for (float b : ends) us.push_back({a, b}); std::size_t special = us.size(); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) us.push_back({float((i + 0.5) / N), float((j + 0.5) / N)});
        const int Z = 6, A = 6; std::vector<double> got(Z * A, 0), want(Z * A, 0); double mean[3] = {0, 0, 0}, kept = 0;
        for (std::size_t k = 0; k < us.size(); ++k) {
            mc::at_s(nm + mc::fmt(", sample (%.9g,%.9g)", double(us[k].first), double(us[k].second))); mc::evaluated(true); auto s = m.b->sample(wo, is, p, us[k].first, us[k].second);
            if (m.kind == NUL) { mc::check(s.is_delta && s.is_valid() && glm::length(Vd(s.wi) + Vd(wo)) < 1e-6 && s.value[0] == 1 && s.value[1] == 1 && s.value[2] == 1, "straight", "not passed straight on"); continue; }
            mc::check(!s.is_delta, "delta", "claims to be a mirror"); mc::check(std::isfinite(s.pdf) && s.pdf >= 0, "sample-density", "%g", double(s.pdf)); for (std::size_t c = 0; c < 3; ++c) mc::check(std::isfinite(s.value[c]) && s.value[c] >= 0, "sample-value", "channel %zu: %g", c, double(s.value[c]));
            if (!s.is_valid()) { mc::check(s.value[0] == 0 && s.value[1] == 0 && s.value[2] == 0, "sample-value", "an impossible sample carries light"); mc::count("impossible_samples"); continue; }
            Vd wi(s.wi); double ci = glm::dot(wi, Vd(f.n)); mc::check(std::fabs(glm::length(wi) - 1) < 1e-5, "sample-length", "%.9g", glm::length(wi)); mc::check(ci > 0, "sample-below", "sampled below the surface"); double q = m.b->pdf(wo, s.wi, is, p); TS v = m.b->eval(wo, s.wi, is, p); bool graze = ci < 1e-3; double tol = graze ? 0.05 : 1e-3; if (ci > 1e-4) mc::check(std::fabs(q - s.pdf) <= tol * q, "sample-density", "reports %.9g, density there is %.9g", double(s.pdf), q);
            for (std::size_t c = 0; c < 3; ++c) { double e = v[c] * ci / q; if (ci > 1e-4) mc::check(std::fabs(s.value[c] - e) <= tol * e + 1e-6, "sample-weight", "channel %zu: %.9g, value x cosine / density is %.9g", c, double(s.value[c]), e); if (k >= special) mean[c] += s.value[c] / N / N; }
            if (k >= special) { kept += 1.0 / N / N; double x = glm::dot(wi, Vd(f.t)), y = glm::dot(wi, Vd(f.b)); got[std::size_t(std::clamp(int(ci * Z), 0, Z - 1) * A + std::clamp(int((std::atan2(y, x) / (2 * PID) + 0.5) * A), 0, A - 1))] += 1.0 / N / N; }
        }
        if (m.kind == NUL) continue; bool smooth = m.kind == COO && p.roughness < 0.3f; if (smooth || z < 0.05) { mc::count("too_peaked_for_quadrature"); continue; }
        const int Q = 48; double refl[3] = {0, 0, 0}, total = 0; for (int i = 0; i < Z * Q; ++i) for (int j = 0; j < A * Q; ++j) { double c = (i + 0.5) / (Z * Q), t = (2 * j + 1.0) / (A * Q) - 1, ph = 0.4 + PID + PID * t * t * t, w = 2 * PID * 3 * t * t / (Z * Q) / (A * Q); /* dense near the mirror direction */ ph -= 2 * PID * std::floor((ph + PID) / (2 * PID)); int sector = std::clamp(int((ph / (2 * PID) + 0.5) * A), 0, A - 1); Vf wi = world(f, dir(c, ph)); double q = m.b->pdf(wo, wi, is, p); want[std::size_t(i / Q * A + sector)] += q * w; total += q * w; TS v = m.b->eval(wo, wi, is, p); for (std::size_t k = 0; k < 3; ++k) refl[k] += v[k] * c * w; }
        mc::at_s(nm); mc::evaluated(true); mc::check(std::fabs(total - kept) < 0.01, "normalised", "density integrates to %.5g, %.5g of the samples are possible", total, kept); if (m.kind != COO) mc::check(std::fabs(total - 1) < 2e-3, "normalised", "density integrates to %.5g", total);
        for (int b = 0; b < Z * A; ++b) mc::check(std::fabs(got[std::size_t(b)] - want[std::size_t(b)]) < 0.006 + 1.0 / N, "distribution", "%.5g of the samples between cosines %g and %g, sector %d; the density gives %.5g", got[std::size_t(b)], double(b / A) / Z, double(b / A + 1) / Z, b % A, want[std::size_t(b)]);
        for (std::size_t k = 0; k < 3; ++k) { mc::check(std::fabs(mean[k] - refl[k]) < 0.01 + 0.02 * refl[k], "estimate", "samples average %.5g in channel %zu, the model reflects %.5g", mean[k], k, refl[k]); double lim = m.kind == COO ? p.albedo[k] * (1 - p.metallic) + 1 : m.kind == HAP ? (m.hb == 0 ? (m.B0 > 0 && m.h > 0 ? 1.05 + m.B0 : 1.05) /* Hapke's H function is an approximation */ : 1e9) : 1; mc::check(refl[k] <= lim + 0.01, "energy", "reflects %.5g of the light in channel %zu", refl[k], k); }
        mc::outcome(mc::fmt("%.2f", refl[0]));
    }
}
int main(int argc, char** argv) { mc::init(argc, argv); sc::start(); for (auto& m : models()) { values(m); samples(m); } return mc::finish(); }
