// C31: materials under every sequence of edits against an explicit-state model; shading frames over a complete lattice; textured hits on the real scene.
#include "scenes.hpp"
using TS = RGB; using Vd = Vec3<double>; using Vf = Vec3<float>;
static std::array<double, 3> d3(const TS& t) { return {t[0], t[1], t[2]}; }
static std::array<double, 3> d3(float t) { return {t, t, t}; }
static std::array<double, 3> d3(const Vf& t) { return {t.x, t.y, t.z}; }
// independent bilinear lookup: (0,0) top-left, repeating
template <class P> static std::array<double, 3> look(const Image<P>& im, double u, double v)
{
    u -= std::floor(u); v -= std::floor(v); double px = u * (im.width() - 1), py = v * (im.height() - 1); int x = int(px), y = int(py), x1 = std::min(x + 1, im.width() - 1), y1 = std::min(y + 1, im.height() - 1); double fx = px - x, fy = py - y; std::array<double, 3> r; auto a = d3(im(x, y)), b = d3(im(x1, y)), c = d3(im(x, y1)), e = d3(im(x1, y1)); for (std::size_t k = 0; k < 3; ++k) r[k] = a[k] * (1 - fx) * (1 - fy) + b[k] * fx * (1 - fy) + c[k] * (1 - fx) * fy + e[k] * fx * fy; return r;
}
static TS rgb(float a, float b, float c) { TS t{0}; t[0] = a; t[1] = b; t[2] = c; return t; }
static Image<TS> spectral_tex(int k) { int w = k ? 2 : 3, h = k ? 2 : 4; Image<TS> im(w, h, TS{0}); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im(x, y) = rgb(0.1f + 0.2f * float((x * 3 + y + k) % 4), 0.9f - 0.15f * float((x + 2 * y) % 5), k ? 0.05f : 0.5f + 0.1f * float(y)); return im; }
static Image<float> mono_tex(int k) { int w = k ? 1 : 3, h = k ? 3 : 2; Image<float> im(w, h, 0.f); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im(x, y) = 0.15f + 0.13f * float((x * 2 + y * 3 + k) % 6); return im; }
static Image<Vf> normal_tex(int k) { Image<Vf> im(k ? 2 : 3, 2, Vf{0, 0, 1}); for (int y = 0; y < 2; ++y) for (int x = 0; x < im.width(); ++x) im(x, y) = glm::normalize(Vf{0.3f * float(x) - 0.2f, 0.25f * float(y) - (k ? 0.4f : 0.1f), 1.f}); return im; }
// ---- the model: what each channel currently holds
struct Chan { int tex = -1; double fac; };
static const char* CH[] = {"albedo", "alpha", "metallic", "roughness", "normal", "transmission", "emission"};
enum { AL, AP, ME, RO, NO, TR, EM, NCH };
static const double DEF[] = {1, 1, 0, 1, 1, 0, 0};
static const double FAC[] = {0, 0.5, 1};
constexpr int OPS = 6; // texture 0, texture 1, factor 0, factor 0.5, factor 1, reset
constexpr int NB = 7; // reflection models
constexpr int KINDS = NCH * OPS + NB;
struct World {
    Scene<TS> s; std::array<std::optional<TextureHandle<TS>>, 2> st; std::array<std::optional<TextureHandle<float>>, 2> mt; std::array<std::optional<TextureHandle<Vf>>, 2> nt; std::vector<std::shared_ptr<BSDF<TS>>> bs;
    World() { for (int k = 0; k < 2; ++k) { st[std::size_t(k)].emplace(s.add_texture(spectral_tex(k))); mt[std::size_t(k)].emplace(s.add_texture(mono_tex(k))); nt[std::size_t(k)].emplace(s.add_texture(normal_tex(k))); } bs = {s.new_bsdf_lambertian().get(), s.new_bsdf_cook_torrance().get(), s.new_bsdf_oren_nayar().get(), s.new_bsdf_hapke(0.06f, 1.5f, 0.3f, 0.4f).get(), s.new_bsdf_lommel_seeliger().get(), s.new_bsdf_mcewen().get(), s.new_bsdf_null().get()}; }
};
struct State { Chan c[NCH]; int bsdf = 0; State() { for (int i = 0; i < NCH; ++i) c[i].fac = DEF[i]; } };
static void apply(World& w, MaterialHandle<TS>& m, State& s, int op)
{
    if (op >= NCH * OPS) { s.bsdf = op - NCH * OPS; m.set_bsdf(w.bs[std::size_t(s.bsdf)]); return; }
    int ch = op / OPS, o = op % OPS; Chan& c = s.c[ch];
    if (o < 2) { c.tex = o; if ((ch == ME || ch == TR || ch == EM) && c.fac == 0) c.fac = 1; /* a texture switches a channel on that is off */ auto k = std::size_t(o); switch (ch) { case AL: m.set_albedo_image(*w.st[k]); break; case AP: m.set_alpha_image(*w.mt[k]); break; case ME: m.set_metallic_image(*w.mt[k]); break; case RO: m.set_roughness_image(*w.mt[k]); break; case NO: m.set_normal_image(*w.nt[k]); break; case TR: m.set_transmission_image(*w.st[k]); break; default: m.set_emissive_image(*w.st[k]); } }
    else if (o < 5) { c.fac = FAC[o - 2]; float f = float(c.fac); switch (ch) { case AL: m.set_albedo_factor(TS{f}); break; case AP: m.set_alpha_factor(f); break; case ME: m.set_metallic_factor(f); break; case RO: m.set_roughness_factor(f); break; case NO: m.set_normal_factor(f); break; case TR: m.set_transmission_factor(TS{f}); break; default: m.set_emissive_factor(TS{f}); } }
    else { c = Chan{-1, DEF[ch]}; switch (ch) { case AL: m.reset_albedo(); break; case AP: m.reset_alpha(); break; case ME: m.reset_metallic(); break; case RO: m.reset_roughness(); break; case NO: m.reset_normal(); break; case TR: m.reset_transmission(); break; default: m.reset_emissive(); } }
}
static std::array<double, 3> value(const State& s, int ch, double u, double v)
{
    static const Image<TS> S[2] = {spectral_tex(0), spectral_tex(1)}; static const Image<float> M[2] = {mono_tex(0), mono_tex(1)}; std::array<double, 3> r{1, 1, 1}; int t = s.c[ch].tex; if (t >= 0) r = (ch == AL || ch == TR || ch == EM) ? look(S[t], u, v) : look(M[t], u, v); for (auto& x : r) x *= s.c[ch].fac; return r;
}
static bool close(double a, double b) { return std::fabs(a - b) <= 2e-6 + 1e-5 * std::fabs(b); }
static void orthonormal(const Interaction<TS>& i)
{
    Vd n(i.normal_s), t(i.tangent), b(i.bitangent); bool fin = true; for (int k = 0; k < 3; ++k) fin = fin && std::isfinite(n[k]) && std::isfinite(t[k]) && std::isfinite(b[k]); mc::check(fin, "finite", "normal (%g,%g,%g) tangent (%g,%g,%g)", n.x, n.y, n.z, t.x, t.y, t.z); if (!fin) return;
    mc::check(std::fabs(glm::length(n) - 1) < 1e-5 && std::fabs(glm::length(t) - 1) < 1e-5 && std::fabs(glm::length(b) - 1) < 1e-5, "unit", "lengths %.8g %.8g %.8g", glm::length(n), glm::length(t), glm::length(b)); mc::check(std::fabs(glm::dot(n, t)) < 1e-4 && std::fabs(glm::dot(n, b)) < 1e-4 && std::fabs(glm::dot(t, b)) < 1e-4, "orthogonal", "n.t %.3g n.b %.3g t.b %.3g", glm::dot(n, t), glm::dot(n, b), glm::dot(t, b)); mc::check(glm::length(glm::cross(n, t) - b) < 2e-4, "handed", "n x t is not the bitangent");
}
// the normal a map gives: the frame's combination; no value if the map has none there
static std::optional<Vd> mapped(const Interaction<TS>& i, const std::array<double, 3>& tx, double f)
{
    if (Vd(i.tangent) == Vd(0)) return Vd(i.normal_s); Vd t{tx[0], tx[1], tx[2]}; if (glm::length(t) < 1e-12) return Vd(i.normal_s); t = glm::normalize(t); t.x *= f; t.y *= f; if (glm::length(t) < 1e-12) return Vd(i.normal_s); t = glm::normalize(t); Vd p = Vd(i.tangent) * t.x + Vd(i.bitangent) * t.y + Vd(i.normal_s) * t.z; if (glm::length(p) < 1e-6) return std::nullopt; return glm::normalize(p);
}
static void histories()
{
    static const std::vector<std::pair<float, float>> uvs{{0.f, 0.f}, {0.3f, 0.8f}, {0.77f, 0.45f}, {-1.2f, 3.6f}};
    std::unique_ptr<World> w; std::size_t used = 0; Interaction<TS> base{}; base.normal_g = base.normal_s = glm::normalize(Vf{0.2f, -0.5f, 0.7f}); build_default_tangent_frame(base.normal_s, base.tangent, base.bitangent); base.vertex_albedo = rgb(0.5f, 1.f, 0.25f); static const Image<Vf> N[2] = {normal_tex(0), normal_tex(1)};
    mc::sequences(KINDS, mc::thorough() ? 4 : 3, [&](const std::vector<int>& q) {
        if (!w || ++used % 100 == 0) w = std::make_unique<World>(); auto m = w->s.new_material(w->s.new_bsdf_lambertian("")); State s; for (int o : q) apply(*w, m, s, o);
        std::string nm; for (int o : q) nm += o >= NCH * OPS ? mc::fmt("bsdf %d; ", o - NCH * OPS) : mc::fmt("%s %s; ", CH[o / OPS], (const char*[]){"texture A", "texture B", "factor 0", "factor 0.5", "factor 1", "reset"}[o % OPS]);
        auto mat = m.get(); auto& b = w->bs[std::size_t(s.bsdf)]; auto req = b->requirements(); bool changed = false; for (int c = 0; c < NCH; ++c) changed = changed || s.c[c].tex >= 0 || s.c[c].fac != DEF[c];
        for (auto [u, v] : uvs) {
            mc::at_s(nm + mc::fmt("at (%g,%g)", double(u), double(v))); mc::evaluated(changed); Interaction<TS> i = base; i.uv = {u, v}; auto [p, sh] = mat->evaluate(i); ShadingParams<TS> e; auto fill = [&](TS& t, int ch) { auto x = value(s, ch, double(u), double(v)); for (std::size_t k = 0; k < 3; ++k) t[k] = float(x[k] * (ch == AL ? double(base.vertex_albedo[k]) : 1)); }; fill(e.albedo, AL); fill(e.transmission, TR); fill(e.emission, EM); e.opacity = float(value(s, AP, double(u), double(v))[0]); e.metallic = float(value(s, ME, double(u), double(v))[0]); e.roughness = float(value(s, RO, double(u), double(v))[0]);
            auto same = [&](const TS& a, const TS& x, const char* what) { for (std::size_t k = 0; k < 3; ++k) mc::check(close(a[k], x[k]), what, "channel %zu: %.7g, the settings say %.7g", k, double(a[k]), double(x[k])); };
            if (req.needs_albedo) same(p.albedo, e.albedo, "albedo"); same(p.transmission, e.transmission, "transmission"); same(p.emission, e.emission, "emission"); mc::check(close(p.opacity, e.opacity), "alpha", "%.7g, the settings say %.7g", double(p.opacity), double(e.opacity)); if (req.needs_metallic) mc::check(close(p.metallic, e.metallic), "metallic", "%.7g, the settings say %.7g", double(p.metallic), double(e.metallic)); if (req.needs_roughness) mc::check(close(p.roughness, e.roughness), "roughness", "%.7g, the settings say %.7g", double(p.roughness), double(e.roughness));
            orthonormal(sh); int t = s.c[NO].tex; auto n = mapped(i, t < 0 ? std::array<double, 3>{0, 0, 1} : look(N[t], double(u), double(v)), s.c[NO].fac); mc::check(!n || glm::length(*n - Vd(sh.normal_s)) < 2e-5 || !req.needs_normal, "normal", "(%.6g,%.6g,%.6g), the map gives (%.6g,%.6g,%.6g)", double(sh.normal_s.x), double(sh.normal_s.y), double(sh.normal_s.z), n->x, n->y, n->z); mc::check(sh.normal_g == i.normal_g && sh.position == i.position && sh.uv == i.uv, "kept", "the hit itself changed");
            // the reflection in force is that of the model set last, with these parameters
            if (u == 0.3f) { Interaction<TS> k = sh; Vf wo = glm::normalize(base.normal_s + base.tangent * 0.4f), wi = glm::normalize(base.normal_s - base.tangent * 0.7f + base.bitangent * 0.3f); MaterialEval<TS> me; me.params = p; me.isect = k; TS a = mat->bsdf_eval(wo, wi, me), x = b->eval(wo, wi, k, e); for (std::size_t c = 0; c < 3; ++c) mc::check(std::fabs(a[c] - x[c]) <= 1e-3 * x[c] + 1e-6, "reflection", "channel %zu: %.7g, the model set gives %.7g", c, double(a[c]), double(x[c])); mc::check(mat->bsdf_pdf(wo, wi, me) == b->pdf(wo, wi, k, p), "reflection", "another density"); auto z = mat->bsdf_sample(wo, me, 0.3f, 0.7f), y = b->sample(wo, k, p, 0.3f, 0.7f); mc::check(z.wi == y.wi && z.pdf == y.pdf, "reflection", "another sample"); }
        }
        mc::check(close(mat->alpha_factor(), s.c[AP].fac) && (mat->has_alpha() || (s.c[AP].tex < 0 && s.c[AP].fac >= 1)) && mat->has_alpha_texture() == (s.c[AP].tex >= 0), "alpha", "transparency not announced"); return true; });
}
// every frame, normal-map texel and factor
static void frames()
{
    World w; std::vector<Vd> ns{{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {0, -1, 0}, {0.3, -0.4, 0.866}, {-0.6, 0.64, -0.48}, {1e-4, 0, -1}, {0.577, 0.577, 0.577}}; std::vector<Vd> tex{{0, 0, 1}, {0.6, 0, 0.8}, {-0.48, 0.64, 0.6}, {1, 0, 0}, {0, -1, 0}, {0, 0, 0}, {0, 0, -1}, {0.99, 0.1, 0.01}, {0, 0, 3}, {1e-30, 0, 0}};
    for (std::size_t ti = 0; ti < tex.size(); ++ti) { auto m = w.s.new_material(w.s.new_bsdf_lambertian("")); Image<Vf> im(1, 1, Vf(float(tex[ti].x), float(tex[ti].y), float(tex[ti].z))); m.set_normal_image(w.s.add_texture(std::move(im))); auto mat = m.get();
        for (double f : {1.0, 0.0, 0.5, 3.0, -1.0}) { m.set_normal_factor(float(f)); for (std::size_t ni = 0; ni < ns.size(); ++ni) for (int tw = 0; tw < 5; ++tw) for (int kind = 0; kind < 9; ++kind) { if (kind == 7) continue;
            if (!mc::mine()) continue; Interaction<TS> i{}; Vd n = glm::normalize(ns[ni]); i.normal_s = Vf(float(n.x), float(n.y), float(n.z)); i.normal_g = i.normal_s; Vf t0, b0; build_default_tangent_frame(i.normal_s, t0, b0); double a = tw * 1.3; Vf t = t0 * float(std::cos(a)) + b0 * float(std::sin(a)), b = glm::cross(i.normal_s, t);
            switch (kind) { case 0: break; case 1: t = b = Vf{0}; break; case 2: t = glm::normalize(t + i.normal_s * 0.5f); b = glm::cross(i.normal_s, t); break; case 3: t = i.normal_s; break; case 4: t = -i.normal_s; b = Vf{0}; break; case 5: b = -b; break; case 6: t *= 1e-20f; break; case 8: b = Vf{0}; break; }
            i.tangent = t; i.bitangent = b; mc::at("texel (%g,%g,%g) factor %g, normal %zu, tangent kind %d turned %d", tex[ti].x, tex[ti].y, tex[ti].z, f, ni, kind, tw); mc::evaluated(true); auto [p, sh] = mat->evaluate(i); orthonormal(sh); auto e = mapped(i, {tex[ti].x, tex[ti].y, tex[ti].z}, f); if (e) { mc::check(glm::length(*e - Vd(sh.normal_s)) < 1e-4 || glm::length(*e) == 0, "normal", "(%.6g,%.6g,%.6g), the map gives (%.6g,%.6g,%.6g)", double(sh.normal_s.x), double(sh.normal_s.y), double(sh.normal_s.z), e->x, e->y, e->z); } if (kind <= 1 && tex[ti].z > 0 && f != 0) mc::check(glm::dot(Vd(sh.normal_s), n) > 0, "below", "the shading normal points into the surface"); if (kind == 0) { Vd want = Vd(t) - glm::dot(Vd(t), Vd(sh.normal_s)) * Vd(sh.normal_s); if (glm::length(want) > 1e-3) mc::check(glm::length(glm::normalize(want) - Vd(sh.tangent)) < 1e-3, "tangent", "turned"); }
        } } }
    // decoding of normal maps from colours
    if (mc::first_shard()) for (int form = 0; form < 2; ++form) { std::vector<Vd> cs{{0.5, 0.5, 1}, {1, 0.5, 0.5}, {0.5, 0, 0.5}, {0.8, 0.2, 0.9}, {0.25, 0.75, 0.6}, {0.5, 0.5, 0.5}, {0, 0, 0}, {1, 1, 1}}; auto h = [&] { if (form) { Image<RGB> im(4, 2, RGB{0}); for (int k = 0; k < 8; ++k) im(k % 4, k / 4) = rgb(float(cs[std::size_t(k)].x), float(cs[std::size_t(k)].y), float(cs[std::size_t(k)].z)); return w.s.add_normal_texture(std::move(im)); } Image<Vf> im(4, 2, Vf{0}); for (int k = 0; k < 8; ++k) im(k % 4, k / 4) = Vf(float(cs[std::size_t(k)].x), float(cs[std::size_t(k)].y), float(cs[std::size_t(k)].z)); return w.s.add_normal_texture(std::move(im)); }(); auto im = h.get()->shared_image(); for (int k = 0; k < 8; ++k) { mc::at("normal colour (%g,%g,%g) form %d", cs[std::size_t(k)].x, cs[std::size_t(k)].y, cs[std::size_t(k)].z, form); mc::evaluated(true); Vf g = (*im)(k % 4, k / 4); Vd e = cs[std::size_t(k)] * 2.0 - 1.0; bool none = glm::length(e) < 1e-6; if (!none) mc::check(glm::length(Vd(g) - glm::normalize(e)) < 1e-5, "decode", "(%g,%g,%g)", double(g.x), double(g.y), double(g.z)); else mc::check(std::isfinite(g.x) && std::isfinite(g.y) && std::isfinite(g.z), "decode", "a colour without a direction becomes (%g,%g,%g)", double(g.x), double(g.y), double(g.z)); } }
}
// hits on textured meshes with every set of attributes, under transforms, from both sides
static void hits()
{
    std::vector<std::array<double, 3>> scales{{1, 1, 1}, {2, 0.5, 1.5}, {-1, 1, 1}, {0.01, 0.01, 0.01}, {1, 2, -3}}; int R = mc::thorough() ? 4 : 2;
    for (int attr = 0; attr < 32; ++attr) {
        if (!mc::mine()) continue; bool nrm = attr & 1, uv = attr & 2, tan = attr & 4, col = attr & 8, map = attr & 16; sc::Stage<TS> g(4, 4); auto& s = g.s; VertexBuffer<TS> v(4); Vd P[4] = {{-1, -1, 0}, {1, -1, 0.3}, {1.2, 1, 0.1}, {-1, 0.9, -0.2}}; Vd N[4] = {{0.1, 0.2, -1}, {-0.2, 0, -1}, {0.2, -0.3, -1}, {0, 0, -1}}; Vd U[4] = {{0, 0, 0}, {0.9, 0.1, 0}, {0.8, 0.95, 0}, {0.05, 0.7, 0}}; std::vector<Tangent> tb(4);
        for (std::size_t k = 0; k < 4; ++k) { v[k].position = Vf(float(P[k].x), float(P[k].y), float(P[k].z)); if (nrm) { Vd n = glm::normalize(N[k]); v[k].normal = Vf(float(n.x), float(n.y), float(n.z)); } if (uv) v[k].uv = {float(U[k].x), float(U[k].y)}; if (col) v[k].albedo = rgb(0.2f + 0.2f * float(k), 1.f - 0.2f * float(k), 0.5f); tb[k] = {glm::normalize(Vf{1, 0, 0.15f}), {0, 1, 0}}; }
        IndexBuffer ix{0, 1, 2, 0, 2, 3}; auto mesh = tan ? s.add_mesh(ix, v, tb, "") : s.add_mesh(ix, v, ""); auto m = s.new_material(s.new_bsdf_cook_torrance("")); m.set_albedo_image(s.add_texture(spectral_tex(0))); m.set_alpha_image(s.add_texture(mono_tex(0))); m.set_metallic_image(s.add_texture(mono_tex(1))); m.set_roughness_image(s.add_texture(mono_tex(0))); m.set_transmission_image(s.add_texture(spectral_tex(1))); if (map) m.set_normal_image(s.add_texture(normal_tex(0)));
        auto inst = s.root.new_instance(s.add_primitive(GeometryHandle<TS>{mesh.get()}, m));
        for (std::size_t si = 0; si < scales.size(); ++si) for (int ri = 0; ri < R; ++ri) { Rotation<double> rot = ri == 0 ? Rotation<double>() : Rotation<double>::from_local_to_parent(Vd(ri, 1, -0.5), units::Degree(40.0 * ri)); inst.set_rotation(rot); Vd pos{0.5, -0.3, 7}; inst.set_position(sc::Meter(pos.x), sc::Meter(pos.y), sc::Meter(pos.z)); inst.set_scale(scales[si][0], scales[si][1], scales[si][2]); auto view = g.view(); Vd S{scales[si][0], scales[si][1], scales[si][2]}; auto to = [&](Vd p) { return pos + rot * (S * p); }; static const auto AL_ = spectral_tex(0), TR_ = spectral_tex(1); static const auto M0 = mono_tex(0), M1 = mono_tex(1); static const auto NT = normal_tex(0);
        for (int tri = 0; tri < 2; ++tri) for (int bi = 1; bi < 6; ++bi) for (int bj = 1; bi + bj < 7; ++bj) for (int side = 0; side < 2; ++side) {
            std::size_t id[3] = {0, std::size_t(tri ? 2 : 1), std::size_t(tri ? 3 : 2)}; double b1 = bi / 7.0, b2 = bj / 7.0, b0 = 1 - b1 - b2; auto mix = [&](auto* a) { return b0 * a[id[0]] + b1 * a[id[1]] + b2 * a[id[2]]; }; Vd e1 = to(P[id[1]]) - to(P[id[0]]), e2 = to(P[id[2]]) - to(P[id[0]]), ng = glm::normalize(glm::cross(e1, e2)), hit = to(mix(P)); double size = glm::length(e1); Vd from = hit + (ng * (side ? 1.0 : -1.0) + glm::normalize(e1) * 0.3) * size, dir = glm::normalize(hit - from);
            mc::at("attributes %s%s%s%s%s, scale (%g,%g,%g) turned %d, triangle %d at (%d,%d)/7 from side %d", nrm ? "normals " : "", uv ? "uv " : "", tan ? "tangents " : "", col ? "colours " : "", map ? "normal map " : "", S.x, S.y, S.z, ri, tri, bi, bj, side); mc::evaluated(true); auto f3 = [](Vd a) { return Vf(float(a.x), float(a.y), float(a.z)); }; Ray<TS> ray(f3(from), f3(dir)); auto h = view.intersect(ray, 0.f); mc::check(h.hit(), "hit", "missed"); if (!h.hit()) continue; auto i = view.resolve_hit(ray, h, 0.f); auto [p, sh] = m.get()->evaluate(i); orthonormal(sh);
            Vd u = uv ? mix(U) : Vd(0); mc::check(std::fabs(i.uv.x - u.x) < 3e-5 && std::fabs(i.uv.y - u.y) < 3e-5, "uv", "(%.6g,%.6g), interpolated (%.6g,%.6g)", double(i.uv.x), double(i.uv.y), u.x, u.y); auto al = look(AL_, u.x, u.y), tr = look(TR_, u.x, u.y); for (std::size_t k = 0; k < 3; ++k) { double vc = 1; if (col) { double c[4]; for (std::size_t z = 0; z < 4; ++z) c[z] = v[z].albedo[k]; vc = mix(c); } mc::check(std::fabs(p.albedo[k] - al[k] * vc) < 2e-4, "albedo", "channel %zu: %.6g, texture and vertex colour give %.6g", k, double(p.albedo[k]), al[k] * vc); mc::check(std::fabs(p.transmission[k] - tr[k]) < 2e-4, "transmission", "channel %zu: %.6g, not %.6g", k, double(p.transmission[k]), tr[k]); }
            mc::check(std::fabs(p.opacity - look(M0, u.x, u.y)[0]) < 2e-4, "alpha", "%.6g", double(p.opacity)); mc::check(std::fabs(p.metallic - look(M1, u.x, u.y)[0]) < 2e-4, "metallic", "%.6g", double(p.metallic)); mc::check(std::fabs(p.roughness - look(M0, u.x, u.y)[0]) < 2e-4, "roughness", "%.6g", double(p.roughness));
            Vd g2 = glm::dot(ng, dir) < 0 ? ng : -ng, n = g2; if (nrm) { Vd q[4]; for (std::size_t z = 0; z < 4; ++z) q[z] = glm::normalize(N[z]); Vd o = mix(q); n = glm::normalize(rot * (o / S)); if (glm::dot(n, g2) < 0) n = -n; } mc::check(glm::length(Vd(i.normal_s) - n) < 3e-4, "normal", "shading normal (%.5g,%.5g,%.5g), expected (%.5g,%.5g,%.5g)", double(i.normal_s.x), double(i.normal_s.y), double(i.normal_s.z), n.x, n.y, n.z); mc::check(glm::dot(Vd(i.normal_s), Vd(i.normal_g)) >= 0 && glm::dot(Vd(i.normal_g), dir) < 0, "facing", "the normals face away");
            if (tan) { Vd t = glm::normalize(rot * (S * glm::normalize(Vd{1, 0, 0.15}))); mc::check(glm::length(Vd(i.tangent) - t) < 3e-4, "tangent", "(%.5g,%.5g,%.5g), expected (%.5g,%.5g,%.5g)", double(i.tangent.x), double(i.tangent.y), double(i.tangent.z), t.x, t.y, t.z); }
            if (!tan || !map) mc::check(glm::length(Vd(sh.normal_s) - Vd(i.normal_s)) < 1e-4, "normal", "changed without a map"); else { auto e = mapped(i, look(NT, u.x, u.y), 1); mc::check(glm::length(*e - Vd(sh.normal_s)) < 3e-4, "normal", "the map's normal is (%.5g,%.5g,%.5g), got (%.5g,%.5g,%.5g)", e->x, e->y, e->z, double(sh.normal_s.x), double(sh.normal_s.y), double(sh.normal_s.z)); }
        } }
    }
}
int main(int argc, char** argv) { mc::init(argc, argv); sc::start(); histories(); frames(); hits(); return mc::finish(); }
