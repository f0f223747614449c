// C39: every small model over an alphabet of node trees, transforms, attributes and materials, written as glTF, GLB, OBJ, PLY and STL, loaded by the real loader and compared with what the file states; every truncation and a set of damages of the files.
#include "scenes.hpp"
#include <filesystem>
#include <fstream>
#include <png.h>
#include <sstream>
using TS = RGB; using Vf = Vec3<float>; using V2 = Vec2<float>; using M4 = glm::dmat4; using sc::Meter;
struct Peek : Renderer<TS> { auto prims(SceneView<TS>& v) { return this->get_primitives(v); } };
static std::string dir() { return mc::S().scratch; }
static void put(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o.write(s.data(), std::streamsize(s.size())); }
static std::string get(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
// ---- abstract model
struct Prim { std::vector<Vf> p, n; std::vector<V2> uv; std::vector<glm::vec4> col; std::vector<unsigned> ix; int bits = 16, mat = -1, mode = 4; };
struct Tr { std::string js; M4 m{1}; };
struct NodeS { std::string name; int mesh = -1; std::vector<int> kids; Tr t; };
struct Spec { std::vector<std::vector<Prim>> meshes; std::vector<NodeS> nodes; std::vector<int> roots; std::string mats, tex; std::vector<std::pair<std::string, std::string>> files; std::vector<std::string> images; /* embedded */ };
static void pad(std::string& s, char c = 0) { while (s.size() % 4) s += c; }
template <class T> static void app(std::string& s, const T& v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); }
static std::string b64(const std::string& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; for (std::size_t i = 0; i < s.size(); i += 3) { unsigned v = 0; for (std::size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < s.size() ? (unsigned char)s[i + k] : 0u); for (int k = 0; k < 4; ++k) o += i + std::size_t(k) > s.size() ? '=' : A[v >> (18 - 6 * k) & 63]; } return o; }
// store: 0 .gltf with .bin, 1 .glb, 2 .gltf with a data URI
static std::string gltf(const Spec& q, int store, const std::string& name = "model")
{
    std::string bin, views, acc, meshes; int nv = 0, na = 0;
    auto view = [&](const std::string& d) { pad(bin); views += mc::fmt("%s{\"buffer\":0,\"byteOffset\":%zu,\"byteLength\":%zu}", nv ? "," : "", bin.size(), d.size()); bin += d; return nv++; };
    auto accessor = [&](const std::string& d, int type, std::size_t n, const char* k, const std::string& extra = "") { int v = view(d); acc += mc::fmt("%s{\"bufferView\":%d,\"componentType\":%d,\"count\":%zu,\"type\":\"%s\"%s}", na ? "," : "", v, type, n, k, extra.c_str()); return na++; };
    for (auto& m : q.meshes) { std::string ps; for (auto& p : m) { std::string d; Vf lo(1e30f), hi(-1e30f); for (auto& v : p.p) { app(d, v); lo = glm::min(lo, v); hi = glm::max(hi, v); } std::string at = mc::fmt("\"POSITION\":%d", accessor(d, 5126, p.p.size(), "VEC3", mc::fmt(",\"min\":[%.9g,%.9g,%.9g],\"max\":[%.9g,%.9g,%.9g]", double(lo.x), double(lo.y), double(lo.z), double(hi.x), double(hi.y), double(hi.z))));
            if (!p.n.empty()) { d = ""; for (auto& v : p.n) app(d, v); at += mc::fmt(",\"NORMAL\":%d", accessor(d, 5126, p.n.size(), "VEC3")); } if (!p.uv.empty()) { d = ""; for (auto& v : p.uv) app(d, v); at += mc::fmt(",\"TEXCOORD_0\":%d", accessor(d, 5126, p.uv.size(), "VEC2")); } if (!p.col.empty()) { d = ""; for (auto& v : p.col) app(d, v); at += mc::fmt(",\"COLOR_0\":%d", accessor(d, 5126, p.col.size(), "VEC4")); }
            std::string e; if (p.bits) { d = ""; for (unsigned i : p.ix) { if (p.bits == 8) app(d, (unsigned char)i); else if (p.bits == 16) app(d, (unsigned short)i); else app(d, i); } e += mc::fmt(",\"indices\":%d", accessor(d, p.bits == 8 ? 5121 : p.bits == 16 ? 5123 : 5125, p.ix.size(), "SCALAR")); } if (p.mat >= 0) e += mc::fmt(",\"material\":%d", p.mat); if (p.mode != 4) e += mc::fmt(",\"mode\":%d", p.mode); ps += mc::fmt("%s{\"attributes\":{%s}%s}", ps.empty() ? "" : ",", at.c_str(), e.c_str()); }
        meshes += (meshes.empty() ? "" : ",") + ("{\"name\":\"mesh\",\"primitives\":[" + ps + "]}"); }
    std::string nodes; for (auto& n : q.nodes) { std::string s = "\"name\":\"" + n.name + "\""; if (n.mesh >= 0) s += mc::fmt(",\"mesh\":%d", n.mesh); if (!n.kids.empty()) { s += ",\"children\":["; for (std::size_t i = 0; i < n.kids.size(); ++i) s += (i ? "," : "") + std::to_string(n.kids[i]); s += "]"; } s += n.t.js; nodes += (nodes.empty() ? "{" : ",{") + s + "}"; }
    std::string roots; for (int r : q.roots) roots += (roots.empty() ? "" : ",") + std::to_string(r); std::string tex = q.tex; for (std::size_t i = 0; i < q.images.size(); ++i) { int v = view(q.images[i]); tex += mc::fmt("%s{\"bufferView\":%d,\"mimeType\":\"image/png\"}", i ? "," : "", v); } if (!q.images.empty()) { tex += "]"; }
    pad(bin); std::string uri = store == 0 ? "\"uri\":\"" + name + ".bin\"," : store == 2 ? "\"uri\":\"data:application/octet-stream;base64," + b64(bin) + "\"," : "";
    std::string j = "{\"asset\":{\"version\":\"2.0\"},\"scene\":0,\"scenes\":[{\"nodes\":[" + roots + "]}],\"nodes\":[" + nodes + "]"; if (!meshes.empty()) j += ",\"meshes\":[" + meshes + "],\"buffers\":[{" + uri + mc::fmt("\"byteLength\":%zu}],\"bufferViews\":[", bin.size()) + views + "],\"accessors\":[" + acc + "]"; if (!q.mats.empty()) j += ",\"materials\":[" + q.mats + "]"; j += tex + "}";
    for (auto& f : q.files) put(dir() + "/" + f.first, f.second); std::string f = dir() + "/" + name + (store == 1 ? ".glb" : ".gltf");
    if (store == 1) { pad(j, ' '); std::string g; app(g, 0x46546C67u); app(g, 2u); app(g, unsigned(12 + 8 + j.size() + 8 + bin.size())); app(g, unsigned(j.size())); app(g, 0x4E4F534Au); g += j; app(g, unsigned(bin.size())); app(g, 0x004E4942u); g += bin; put(f, g); } else { if (store == 0) put(dir() + "/" + name + ".bin", bin); put(f, j); }
    return f;
}
// ---- transforms
static Tr tr(int k)
{
    auto T = [](double x, double y, double z) { M4 m{1}; m[3] = {x, y, z, 1}; return m; }; auto S = [](double x, double y, double z) { M4 m{1}; m[0][0] = x; m[1][1] = y; m[2][2] = z; return m; }; glm::dquat r(0.8, 0.6 * 2 / 7, -0.6 * 3 / 7, 0.6 * 6 / 7); M4 R = glm::mat4_cast(r); std::string rq = mc::fmt("\"rotation\":[%.9g,%.9g,%.9g,%.9g]", r.x, r.y, r.z, r.w);
    auto mat = [](const M4& m) { std::string s = ",\"matrix\":["; for (int i = 0; i < 16; ++i) s += mc::fmt("%s%.9g", i ? "," : "", m[i / 4][i % 4]); return s + "]"; }; M4 m{1};
    switch (k) { case 0: return {"", m}; case 1: return {",\"translation\":[3,-2,7.5]", T(3, -2, 7.5)}; case 2: return {"," + rq, R}; case 3: return {",\"scale\":[2,2,2]", S(2, 2, 2)}; case 4: return {",\"translation\":[-1,0.5,4]," + rq + ",\"scale\":[0.5,0.5,0.5]", T(-1, 0.5, 4) * R * S(0.5, 0.5, 0.5)}; case 5: return {",\"scale\":[-1.5,-1.5,-1.5]", S(-1.5, -1.5, -1.5)};
    case 6: return {",\"scale\":[1,3,0.25]", S(1, 3, 0.25)}; case 7: m = T(1, 2, 3) * R * S(2, 1, 3); return {mat(m), m}; case 8: return {",\"scale\":[-1,1,1]", S(-1, 1, 1)}; case 9: m = T(0, 1, 0) * R * S(1, 2, -2); return {mat(m), m}; case 10: return {"," + rq + ",\"scale\":[1,1,0]", R * S(1, 1, 0)}; default: return {",\"scale\":[0,0,0]", S(0, 0, 0)}; }
}
constexpr int NPAR = 6, NTR = 12;
static bool flat(int k) { return k >= 10; }
// ---- meshes
static Prim shape(int k)
{
    Prim q; if (k % 3 == 0) { q.p = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}; q.ix = {0, 1, 2}; } else if (k % 3 == 1) { q.p = {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0.5f}, {-1, 1, 0.5f}}; q.ix = {0, 1, 2, 0, 2, 3}; } else { q.p = {{0, 0, 1}, {1, 0, -0.5f}, {-0.6f, 0.8f, -0.5f}, {-0.6f, -0.9f, -0.4f}}; q.ix = {0, 1, 2, 0, 2, 3, 0, 3, 1, 1, 3, 2}; } return q;
}
static void attrs(Prim& q, int a) // bit 0 normals, 1 texture coordinates, 2 colours
{
    for (std::size_t i = 0; i < q.p.size(); ++i) { double f = double(i); if (a & 1) q.n.push_back(glm::normalize(Vf(float(0.3 * f), 0.2f, float(1 - 0.2 * f)))); if (a & 2) q.uv.push_back(V2(q.p[i].x * 0.4f + 0.5f, q.p[i].y * 0.3f + 0.4f)); if (a & 4) q.col.push_back({float(0.25 * f), float(1 - 0.25 * f), 0.5f, 1.f}); }
}
static Prim deindexed(const Prim& q) { Prim r; r.bits = 0; r.mat = q.mat; for (unsigned i : q.ix) { r.p.push_back(q.p[i]); if (!q.n.empty()) r.n.push_back(q.n[i]); if (!q.uv.empty()) r.uv.push_back(q.uv[i]); if (!q.col.empty()) r.col.push_back(q.col[i]); } return r; }
// ---- what the scene shows
struct Corner { glm::dvec3 p; Vf n{0}; V2 uv{0}; TS col{1}; Vf t{0}, b{0}; };
struct Tri { Corner c[3]; bool bump = false; };
struct World { Scene<TS> s; CameraModelHandle<TS> cam; std::optional<InstanceHandle<TS>> eye; World() : cam(s.new_camera_model("c")) { cam.set_focal_length(units::Millimeter{20}); cam.set_fstop(4); cam.configure_sensor_from_pitch(Resolution{8, 8}, units::Micrometer{1000}); eye.emplace(s.root.new_instance(cam)); } };
static std::vector<std::pair<Tri, std::shared_ptr<Material<TS>>>> seen(World& w, const ModelHandle<TS>& m, std::size_t* instances = nullptr)
{
    auto in = w.s.root.new_instance(m); std::vector<std::pair<Tri, std::shared_ptr<Material<TS>>>> o; { SceneView<TS> v(w.s, Interval{Time::from_et(0), Time::from_et(0)}, *w.eye, ObservationMode::TRUE_STATE, 1); auto sr = w.cam.get()->sensor_rotation(); Peek pk; for (auto& b : pk.prims(v)) { auto g = std::dynamic_pointer_cast<Mesh<TS>>(b.primitive->geometry); mc::check(bool(g), "mesh", "not a mesh"); if (!g) continue; auto& ib = g->index_buffer(); auto& vb = g->vertex_buffer(); auto& tb = g->tangent_buffer();
        for (auto& inst : b.instances) { if (instances) ++*instances; auto& t = inst.at(0); for (std::size_t i = 0; i + 2 < ib.size(); i += 3) { Tri q; for (std::size_t k = 0; k < 3; ++k) { auto& x = vb[ib[i + k]]; Vf p = t.position + t.rotation * (t.scale * x.position); Vec3<double> d = sr * Vec3<double>(p); q.c[k].p = {d.x, d.y, d.z}; q.c[k].n = x.normal; q.c[k].uv = x.uv; q.c[k].col = x.albedo; if (!tb.empty()) { q.c[k].t = tb[ib[i + k]].tangent; q.c[k].b = tb[ib[i + k]].bitangent; } } q.bump = !tb.empty(); o.push_back({q, b.primitive->material}); } } } }
    w.s.root.delete_instance(in); return o;
}
static double dist(const Tri& a, const Tri& b, int k, bool uv) { double d = 0; for (int i = 0; i < 3; ++i) { auto &x = a.c[i], &y = b.c[(i + k) % 3]; d = std::max(d, glm::length(x.p - y.p)); if (uv) d = std::max(d, double(glm::length(x.uv - y.uv))); for (std::size_t c = 0; c < 3; ++c) d = std::max(d, double(std::fabs(x.col[c] - y.col[c]))); } return d; }
static bool xy_tangents = false;
struct Want { Tri t; int mat; bool shared = false; /* flat normals wanted on shared vertices */ };
static void compare(const std::vector<Want>& want, const std::vector<std::pair<Tri, std::shared_ptr<Material<TS>>>>& got, bool uv, double tol = 3e-5)
{
    mc::check(want.size() == got.size(), "triangles", "%zu triangles in the view, %zu in the file", got.size(), want.size()); std::vector<char> used(got.size(), 0); std::map<int, std::set<const void*>> mats;
    for (auto& w : want) { double best = 1e9; std::size_t at = 0; int rot = 0; for (std::size_t i = 0; i < got.size(); ++i) if (!used[i]) for (int k = 0; k < 3; ++k) { double d = dist(w.t, got[i].first, k, uv); if (d < best) { best = d; at = i; rot = k; } } double size = 1; for (auto& c : w.t.c) size = std::max(size, glm::length(c.p)); if (!mc::check(best < tol * size, "triangle", "the triangle at (%.4g,%.4g,%.4g) (%.4g,%.4g,%.4g) is %.4g from the nearest one in the view", w.t.c[0].p.x, w.t.c[0].p.y, w.t.c[0].p.z, w.t.c[1].p.x, w.t.c[1].p.y, w.t.c[1].p.z, best)) continue; used[at] = 1; for (int k = 0; k < 3; ++k) { auto &x = w.t.c[k], &y = got[at].first.c[(k + rot) % 3]; mc::check(glm::length(x.n - y.n) < 1e-4f, w.shared ? "flat-normal" : "normal", "normal (%.5g,%.5g,%.5g), the file says (%.5g,%.5g,%.5g)", double(y.n.x), double(y.n.y), double(y.n.z), double(x.n.x), double(x.n.y), double(x.n.z)); } mats[w.mat].insert(got[at].second.get());
        if (uv && got[at].first.bump) { auto& g = got[at].first; if (xy_tangents) for (auto& c : g.c) mc::check(c.t.x > 0.5f && c.b.y < -0.5f, "tangent", "tangent (%.3f,%.3f,%.3f), bitangent (%.3f,%.3f,%.3f); u grows along x, v falls along y", double(c.t.x), double(c.t.y), double(c.t.z), double(c.b.x), double(c.b.y), double(c.b.z)); for (auto& c : g.c) mc::check(std::isfinite(c.t.x + c.t.y + c.t.z + c.b.x + c.b.y + c.b.z) && glm::length(c.t) < 1.001f && glm::length(c.b) < 1.001f, "tangent", "not a unit vector"); } }
    std::set<const void*> all; for (auto& m : mats) { mc::check(m.second.size() == 1, "material", "material %d became %zu", m.first, m.second.size()); for (auto* p : m.second) mc::check(all.insert(p).second, "material", "two materials of the file became one"); }
}
static void collect(const Spec& q, int n, const M4& parent, std::vector<Want>& o)
{
    auto& nd = q.nodes[std::size_t(n)]; M4 m = parent * nd.t.m; if (nd.mesh >= 0) for (auto& p : q.meshes[std::size_t(nd.mesh)]) { std::vector<unsigned> ix = p.ix; if (!p.bits) { ix.clear(); for (unsigned i = 0; i < p.p.size(); ++i) ix.push_back(i); } if (p.mode == 5) { std::vector<unsigned> t; for (std::size_t i = 0; i + 2 < ix.size(); ++i) { if (i % 2) t.insert(t.end(), {ix[i + 1], ix[i], ix[i + 2]}); else t.insert(t.end(), {ix[i], ix[i + 1], ix[i + 2]}); } ix = t; } else if (p.mode == 6) { std::vector<unsigned> t; for (std::size_t i = 1; i + 1 < ix.size(); ++i) t.insert(t.end(), {ix[0], ix[i], ix[i + 1]}); ix = t; } else if (p.mode != 4) continue;
        bool shared = std::set<unsigned>(ix.begin(), ix.end()).size() < ix.size(); for (std::size_t i = 0; i + 2 < ix.size(); i += 3) { Want w; w.mat = p.mat; w.shared = p.n.empty() && shared; Vf fn = glm::cross(p.p[ix[i + 1]] - p.p[ix[i]], p.p[ix[i + 2]] - p.p[ix[i]]); fn = glm::normalize(fn); for (std::size_t k = 0; k < 3; ++k) { unsigned v = ix[i + k]; auto& c = w.t.c[k]; c.p = glm::dvec3(m * glm::dvec4(p.p[v], 1)); c.n = p.n.empty() ? fn : p.n[v]; if (!p.uv.empty()) c.uv = p.uv[v]; if (!p.col.empty()) c.col = convert_rgb_to_spectral<TS>(RGB{p.col[v].x, p.col[v].y, p.col[v].z}); } o.push_back(w); } }
    for (int k : nd.kids) collect(q, k, m, o);
}
static std::vector<Want> wanted(const Spec& q) { std::vector<Want> o; for (int r : q.roots) collect(q, r, M4{1}, o); return o; }
static std::unique_ptr<World> W; static int uses = 0;
static World& world() { if (!W || ++uses % 60 == 0) W = std::make_unique<World>(); return *W; }
static std::string listing(World& w) { std::stringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); w.s.print_contents(); std::cout.rdbuf(old); return o.str(); }
static void roundtrip(const Spec& q, int store, bool uv)
{
    mc::evaluated(true); auto& w = world(); std::string f = gltf(q, store); try { auto m = w.s.load_model(f); compare(wanted(q), seen(w, m), uv); } catch (const std::exception& e) { mc::fail("load", e.what()); W.reset(); } mc::count("models");
}
// ---- families
static Spec tree(int k, const Tr& a, const Tr& b)
{
    Spec q; q.meshes = {{shape(0)}, {shape(1), shape(2)}}; switch (k) { case 0: q.nodes = {{"n", 1, {}, b}}; q.roots = {0}; break; case 1: q.nodes = {{"p", -1, {1}, a}, {"c", 0, {}, b}}; q.roots = {0}; break; case 2: q.nodes = {{"p", 0, {1}, a}, {"c", 0, {}, b}}; q.roots = {0}; break; case 3: q.nodes = {{"l", 0, {}, a}, {"r", 1, {}, b}}; q.roots = {0, 1}; break; case 4: q.nodes = {{"c", 1, {}, b}, {"top", 0, {2}, a}, {"mid", -1, {0}, a}}; q.roots = {1}; break; case 5: q.nodes = {{"n", -1, {1, 2, 3}, a}, {"n", 0, {}, b}, {"n", 1, {}, {}}, {"", 0, {}, a}}; q.roots = {0}; break; default: q.nodes = {{"e", -1, {}, a}, {"x", 1, {2}, a}, {"y", -1, {3}, {}}, {"z", 0, {}, b}}; q.roots = {0, 1}; } return q;
}
static void refused(const Spec& q, int store)
{
    mc::evaluated(true); auto& w = world(); auto before = listing(w); std::string f = gltf(q, store); bool threw = mc::throws([&] { (void)w.s.load_model(f, "flat"); }); if (!threw) W.reset(); // a node that flattens its meshes has no rotation: refused as a whole, or loaded
    else { mc::check(listing(w) == before, "unchanged", "a failed load changed the scene from\n%s to\n%s", before.c_str(), listing(w).c_str()); mc::count("failed_loads"); }
}
static void trees() { for (int k = 0; k < 7; ++k) for (int a = 0; a < NPAR; ++a) for (int b = 0; b < NTR; ++b) for (int st = 0; st < 3; ++st) { if (st && !mc::thorough() && (a + b + k) % 3) continue; if (k == 0 && a) continue; if (!mc::mine()) continue; mc::at("tree %d, transforms %d and %d, container %d", k, a, b, st); if (flat(b)) refused(tree(k, tr(a), tr(b)), st); else roundtrip(tree(k, tr(a), tr(b)), st, false); } }
static void attributes()
{
    for (int sh = 0; sh < 3; ++sh) for (int a = 0; a < 8; ++a) for (int bits : {0, 8, 16, 32}) for (int st = 0; st < 3; ++st) { if (!mc::mine()) continue; mc::at("shape %d, attributes %d, %d-bit indices, container %d", sh, a, bits, st); Spec q; Prim p = shape(sh); attrs(p, a); if (!bits) p = deindexed(p); p.bits = bits; q.meshes = {{p}}; q.nodes = {{"n", 0, {}, tr(4)}}; q.roots = {0}; xy_tangents = sh == 0 && (a & 2); roundtrip(q, st, a & 2); xy_tangents = false; if (a == 3 && sh == 0) mc::count("tangent_models"); }
    for (int mode : {5, 6, 0, 1, 2, 3}) for (int with = 0; with < 2; ++with) for (int bits : {0, 16}) { if (!mc::mine()) continue; mc::at("primitive mode %d, %s a triangle, %d-bit indices", mode, with ? "beside" : "without", bits); if (mode < 4 && !with) continue; Spec q; Prim p; p.p = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0.2f}, {0, 1, 0.3f}, {-1, 1, 1}}; p.mode = mode; p.bits = bits; p.ix = {0, 1, 2, 3, 4}; if (mode == 1) { p.ix = {0, 1, 2, 3}; p.p.resize(4); } q.meshes = {{p}}; if (with) q.meshes[0].push_back(shape(0)); q.nodes = {{"n", 0, {}, {}}}; q.roots = {0}; roundtrip(q, 0, false); }
}
// ---- materials
static std::string png(int w, int h, const std::function<std::array<int, 4>(int, int)>& f, bool alpha)
{
    std::vector<unsigned char> d; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { auto c = f(x, y); for (int k = 0; k < (alpha ? 4 : 3); ++k) d.push_back((unsigned char)c[std::size_t(k)]); } png_image im{}; im.version = PNG_IMAGE_VERSION; im.width = unsigned(w); im.height = unsigned(h); im.format = alpha ? PNG_FORMAT_RGBA : PNG_FORMAT_RGB; png_alloc_size_t n = 0; png_image_write_to_memory(&im, nullptr, &n, 0, d.data(), 0, nullptr); std::string o(n, 0); png_image_write_to_memory(&im, o.data(), &n, 0, d.data(), 0, nullptr); o.resize(n); return o;
}
static double lin(double v) { v /= 255; return v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); }
static std::array<int, 4> texel(int k, int x, int y) { return {(20 + 60 * x + 17 * k) % 256, (200 - 30 * x + 50 * y) % 256, (40 + 90 * y + 31 * k) % 256, 255 - 60 * x - 20 * y}; }
static void materials()
{
    const int TW = 3, TH = 2; struct C { int base, orm, nor, emi, alpha, fac; }; std::vector<C> cs; for (int m = 0; m < 16; ++m) for (int al = 0; al < 3; ++al) for (int fac = 0; fac < 2; ++fac) cs.push_back({m & 1, m >> 1 & 1, m >> 2 & 1, m >> 3 & 1, al, fac});
    for (auto& c : cs) for (int st = 0; st < 4; ++st) { // 0 files beside, 1 inside the GLB, 2 data URIs, 3 files in a folder with a blank in its name
        if (!mc::mine()) continue; mc::at("textures base %d packed %d normal %d emissive %d, alpha mode %d, factors %d, images %d", c.base, c.orm, c.nor, c.emi, c.alpha, c.fac, st); mc::evaluated(true); Spec q; Prim p = shape(1); attrs(p, 3); p.mat = 0; q.meshes = {{p}}; q.nodes = {{"n", 0, {}, {}}}; q.roots = {0}; std::vector<std::string> im; std::vector<std::string> pn; std::filesystem::create_directories(dir() + "/a b"); auto add = [&](int k, bool alpha) { std::string d = png(TW, TH, [&](int x, int y) { return texel(k, x, y); }, alpha); int id = int(im.size()); im.push_back(d); pn.push_back(mc::fmt("t%d.png", k)); return id; };
        std::string pbr, rest; auto ref = [&](const char* n, int id, const char* x = "") { return mc::fmt("\"%s\":{\"index\":%d%s}", n, id, x); }; auto join = [](std::string& s, const std::string& t) { s += (s.empty() ? "" : ",") + t; };
        if (c.base) join(pbr, ref("baseColorTexture", add(0, true))); if (c.orm) join(pbr, ref("metallicRoughnessTexture", add(1, false))); if (c.nor) join(rest, ref("normalTexture", add(2, false), c.fac ? ",\"scale\":0.5" : "")); if (c.emi) join(rest, ref("emissiveTexture", add(3, false))); if (c.fac) { join(pbr, "\"baseColorFactor\":[0.5,0.25,1,0.75],\"metallicFactor\":0.5,\"roughnessFactor\":0.25"); join(rest, "\"emissiveFactor\":[0.25,0.5,1]"); } else if (c.emi) join(rest, "\"emissiveFactor\":[1,1,1]"); if (c.alpha) join(rest, c.alpha == 1 ? "\"alphaMode\":\"BLEND\"" : "\"alphaMode\":\"OPAQUE\"");
        q.mats = "{\"name\":\"mat\",\"pbrMetallicRoughness\":{" + pbr + "}" + (rest.empty() ? "" : "," + rest) + "}"; if (!im.empty()) { q.tex = ",\"textures\":["; for (std::size_t i = 0; i < im.size(); ++i) q.tex += mc::fmt("%s{\"source\":%zu}", i ? "," : "", i); q.tex += "],\"images\":["; if (st == 1) q.images = im; else { for (std::size_t i = 0; i < im.size(); ++i) { std::string u = st == 2 ? "data:image/png;base64," + b64(im[i]) : (st == 3 ? "a%20b/" : "") + pn[i]; q.tex += (i ? ",{\"uri\":\"" : "{\"uri\":\"") + u + "\"}"; if (st != 2) q.files.push_back({(st == 3 ? "a b/" : "") + pn[i], im[i]}); } q.tex += "]"; } }
        auto& w = world(); try { auto m = w.s.load_model(gltf(q, st == 1)); auto got = seen(w, m); compare(wanted(q), got, true); if (got.empty()) continue; auto mat = got[0].second; mc::count("materials");
            for (int y = 0; y < TH; ++y) for (int x = 0; x < TW; ++x) { Interaction<TS> it{}; it.uv = {std::min(0.99999f, float(x) / (TW - 1)), std::min(0.99999f, float(y) / (TH - 1))}; it.vertex_albedo = TS{1}; it.normal_s = it.normal_g = {0, 0, 1}; it.tangent = {1, 0, 0}; it.bitangent = {0, 1, 0}; auto e = mat->evaluate(it); double bf[4] = {1, 1, 1, 1}, mf = 1, rf = 1, ef[3] = {0, 0, 0}, nf = 1; if (c.fac) { bf[0] = 0.5; bf[1] = 0.25; bf[3] = 0.75; mf = 0.5; rf = 0.25; ef[0] = 0.25; ef[1] = 0.5; ef[2] = 1; nf = 0.5; } else if (c.emi) ef[0] = ef[1] = ef[2] = 1;
                auto t0 = texel(0, x, y), t1 = texel(1, x, y), t2 = texel(2, x, y), t3 = texel(3, x, y); for (std::size_t k = 0; k < 3; ++k) { double want = bf[k] * (c.base ? lin(t0[k]) : 1); mc::check(std::fabs(e.params.albedo[k] - want) < 2e-3, "albedo", "texel (%d,%d) channel %zu: %.5g, the file says %.5g", x, y, k, double(e.params.albedo[k]), want); want = ef[k] * (c.emi ? lin(t3[k]) : 1); mc::check(std::fabs(e.params.emission[k] - want) < 2e-3, "emission", "texel (%d,%d) channel %zu: %.5g, the file says %.5g", x, y, k, double(e.params.emission[k]), want); }
                double a = c.alpha == 1 ? bf[3] * (c.base ? t0[3] / 255.0 : 1) : 1; mc::check(std::fabs(e.params.opacity - a) < 2e-3, "opacity", "texel (%d,%d): %.5g, the file says %.5g", x, y, double(e.params.opacity), a); a = rf * (c.orm ? t1[1] / 255.0 : 1); mc::check(std::fabs(e.params.roughness - a) < 2e-3, "roughness", "texel (%d,%d): %.5g, the file says %.5g", x, y, double(e.params.roughness), a); a = mf * (c.orm ? t1[2] / 255.0 : 1); mc::check(std::fabs(e.params.metallic - a) < 2e-3, "metallic", "texel (%d,%d): %.5g, the file says %.5g", x, y, double(e.params.metallic), a);
                if (c.nor) { glm::dvec3 n(t2[0] / 127.5 - 1, t2[1] / 127.5 - 1, t2[2] / 127.5 - 1); n = glm::normalize(n); n.x *= nf; n.y *= nf; n = glm::normalize(n); mc::check(glm::length(n - glm::dvec3(e.isect.normal_s)) < 0.02, "normal", "texel (%d,%d): (%.4f,%.4f,%.4f), the file says (%.4f,%.4f,%.4f)", x, y, double(e.isect.normal_s.x), double(e.isect.normal_s.y), double(e.isect.normal_s.z), n.x, n.y, n.z); } }
        } catch (const std::exception& ex) { mc::fail("load", ex.what()); W.reset(); }
    }
    // which primitive has which material; shared images; two loads side by side
    for (int n = 1; n <= 3; ++n) for (int assign = 0; assign < 27; ++assign) { if (!mc::mine()) continue; mc::at("%d materials, assignment %d", n, assign); Spec q; std::vector<Prim> ps; int a = assign; bool ok = true; for (int i = 0; i < 3; ++i) { Prim p = shape(i); p.mat = a % 3; a /= 3; ok = ok && p.mat < n; ps.push_back(p); } if (!ok) continue; q.meshes = {ps, {ps[0]}}; q.nodes = {{"n", 0, {}, {}}, {"m", 1, {}, tr(1)}}; q.roots = {0, 1}; for (int i = 0; i < n; ++i) q.mats += mc::fmt("%s{\"name\":\"same\",\"pbrMetallicRoughness\":{\"roughnessFactor\":%g}}", i ? "," : "", 0.25 * (i + 1)); mc::evaluated(true); auto& w = world(); try { auto m = w.s.load_model(gltf(q, 0)); auto got = seen(w, m); compare(wanted(q), got, false); } catch (const std::exception& e) { mc::fail("load", e.what()); W.reset(); } }
}
// ---- plain formats
static void plain()
{
    for (int sh = 0; sh < 3; ++sh) for (int a = 0; a < 4; ++a) for (int kind = 0; kind < 4; ++kind) { // OBJ, PLY ascii, STL ascii, STL binary
        if (kind && a > (kind == 1 ? 1 : 0)) continue; if (!mc::mine()) continue; mc::at("format %d shape %d attributes %d", kind, sh, a); mc::evaluated(true); Prim p = shape(sh); attrs(p, a); std::string s, f; if (kind == 0) { s = "o thing\n"; for (auto& v : p.p) s += mc::fmt("v %.9g %.9g %.9g\n", double(v.x), double(v.y), double(v.z)); for (auto& v : p.uv) s += mc::fmt("vt %.9g %.9g\n", double(v.x), 1 - double(v.y)); for (auto& v : p.n) s += mc::fmt("vn %.9g %.9g %.9g\n", double(v.x), double(v.y), double(v.z)); for (std::size_t i = 0; i < p.ix.size(); i += 3) { s += "f"; for (std::size_t k = 0; k < 3; ++k) { unsigned v = p.ix[i + k] + 1; s += a == 0 ? mc::fmt(" %u", v) : a == 1 ? mc::fmt(" %u//%u", v, v) : a == 2 ? mc::fmt(" %u/%u", v, v) : mc::fmt(" %u/%u/%u", v, v, v); } s += "\n"; } f = "/m.obj"; }
        else if (kind == 1) { s = mc::fmt("ply\nformat ascii 1.0\nelement vertex %zu\nproperty float x\nproperty float y\nproperty float z\n%selement face %zu\nproperty list uchar int vertex_indices\nend_header\n", p.p.size(), a ? "property float nx\nproperty float ny\nproperty float nz\n" : "", p.ix.size() / 3); for (std::size_t i = 0; i < p.p.size(); ++i) { s += mc::fmt("%.9g %.9g %.9g", double(p.p[i].x), double(p.p[i].y), double(p.p[i].z)); if (a) s += mc::fmt(" %.9g %.9g %.9g", double(p.n[i].x), double(p.n[i].y), double(p.n[i].z)); s += "\n"; } for (std::size_t i = 0; i < p.ix.size(); i += 3) s += mc::fmt("3 %u %u %u\n", p.ix[i], p.ix[i + 1], p.ix[i + 2]); f = "/m.ply"; }
        else { f = "/m.stl"; if (kind == 2) s = "solid x\n"; else { s = std::string(80, ' '); app(s, unsigned(p.ix.size() / 3)); } for (std::size_t i = 0; i < p.ix.size(); i += 3) { Vf v[3] = {p.p[p.ix[i]], p.p[p.ix[i + 1]], p.p[p.ix[i + 2]]}; Vf n = glm::normalize(glm::cross(v[1] - v[0], v[2] - v[0])); if (kind == 2) { s += mc::fmt("facet normal %.9g %.9g %.9g\nouter loop\n", double(n.x), double(n.y), double(n.z)); for (auto& x : v) s += mc::fmt("vertex %.9g %.9g %.9g\n", double(x.x), double(x.y), double(x.z)); s += "endloop\nendfacet\n"; } else { app(s, n); for (auto& x : v) app(s, x); app(s, (unsigned short)0); } } if (kind == 2) s += "endsolid x\n"; }
        put(dir() + f, s); Spec q; q.meshes = {{p}}; q.nodes = {{"", 0, {}, {}}}; q.roots = {0}; auto& w = world(); try { auto m = w.s.load_model(dir() + f); auto want = wanted(q); if (kind != 1) for (auto& x : want) x.shared = false; compare(want, seen(w, m), a & 2); } catch (const std::exception& e) { mc::fail("load", e.what()); W.reset(); } mc::count("models");
    }
}
// ---- histories: load and place, in any order; what was there stays
static void histories()
{
    Spec A = tree(2, tr(1), tr(2)), B = tree(3, tr(4), tr(0)); std::string fa, fb; auto files = [&] { fa = gltf(A, 0, "same"); std::filesystem::create_directories(dir() + "/sub"); fb = gltf(B, 1, "sub/same"); };
    mc::sequences(5, mc::thorough() ? 5 : 4, [&](const std::vector<int>& q) { // load A, load B, load A as "x", a load that fails, delete the oldest
        mc::at("history %s", mc::seq_str(q).c_str()); mc::evaluated(true); files(); World w; struct L { ModelHandle<TS> m; const Spec* s; std::string name; }; std::vector<L> ls; std::set<std::string> names; for (int o : q) { try { if (o < 3) { const Spec& s = o == 1 ? B : A; auto m = w.s.load_model(o == 1 ? fb : fa, o == 2 ? "x" : ""); std::string n = m.get()->name(); mc::check(names.insert(n).second, "name", "two models are called %s", n.c_str()); mc::check(w.s.get_model(n).get() == m.get(), "name", "%s finds another model", n.c_str()); mc::check(m.get()->source_path() == std::filesystem::path(o == 1 ? fb : fa), "source", "source %s", m.get()->source_path().c_str()); ls.push_back({m, &s, n}); } else if (o == 3) { auto before = listing(w); mc::check(mc::throws([&] { (void)w.s.load_model(dir() + "/none.glb"); }), "refused", "a missing file loads"); mc::check(listing(w) == before, "refused", "changed the scene"); } else { if (ls.empty()) continue; w.s.delete_model(ls[0].m); names.erase(ls[0].name); mc::check(mc::throws([&] { (void)w.s.get_model(ls[0].name); }), "delete", "still found"); ls.erase(ls.begin()); } } catch (const std::exception& e) { mc::fail("load", e.what()); return true; } }
        for (auto& l : ls) { compare(wanted(*l.s), seen(w, l.m), false); mc::check(w.s.get_model(l.name).get() == l.m.get(), "name", "%s finds another model", l.name.c_str()); } return true; });
}
// ---- damaged files
static std::string state(World& w) { return listing(w); }
static void attempt(World& w, const std::string& f, bool must)
{
    auto before = state(w); bool threw = false; std::size_t n = 0; try { auto m = w.s.load_model(f, "damaged"); seen(w, m); n = 1; } catch (const std::exception& e) { threw = true; mc::outcome(std::string(e.what()).substr(0, 60)); } if (must) mc::check(threw, "refused", "loads without a word"); if (threw) { mc::check(state(w) == before, "unchanged", "a failed load changed the scene from\n%s to\n%s", before.c_str(), state(w).c_str()); mc::check(mc::throws([&] { (void)w.s.get_model("damaged"); }), "unchanged", "the failed model is in the scene"); mc::count("failed_loads"); } else { mc::count("survived_loads"); if (n) W.reset(); }
}
static void damage()
{
    Spec q = tree(5, tr(4), tr(7)); attrs(q.meshes[1][0], 3); q.meshes[1][0].mat = 0; q.mats = "{\"name\":\"m\",\"pbrMetallicRoughness\":{\"baseColorFactor\":[0.5,0.5,0.5,1]}}";
    if (mc::first_shard()) { for (const char* f : {"/none.glb", "/none", "/a b", ""}) { auto& w = world(); std::filesystem::create_directories(dir() + "/a b"); mc::at("path '%s'", f); mc::evaluated(true); attempt(w, *f ? dir() + f : "", true); } for (const char* x : {"gltf", "glb", "obj", "ply", "stl", "fbx", "3ds", "dae", "txt", ""}) for (const char* body : {"", " ", "{}", "hello", "\n\n\n"}) { auto& w = world(); std::string f = dir() + "/bad." + x; put(f, body); mc::at("a .%s file holding '%s'", x, body); mc::evaluated(true); attempt(w, f, true); } }
    for (int st = 0; st < 3; ++st) { std::string f = gltf(q, st), full = get(f), bin = st == 0 ? get(dir() + "/model.bin") : ""; std::size_t step = mc::thorough() ? 1 : 5; for (std::size_t n = 0; n < full.size(); n += step) { if (!mc::mine()) continue; mc::at("container %d cut to %zu of %zu bytes", st, n, full.size()); mc::evaluated(true); put(dir() + "/cut" + (st == 1 ? ".glb" : ".gltf"), full.substr(0, n)); attempt(world(), dir() + "/cut" + (st == 1 ? ".glb" : ".gltf"), true); }
        if (st == 0) for (std::size_t n = 0; n < bin.size(); n += step) { if (!mc::mine()) continue; mc::at("buffer cut to %zu of %zu bytes", n, bin.size()); mc::evaluated(true); gltf(q, 0, "cutb"); put(dir() + "/cutb.bin", bin.substr(0, n)); attempt(world(), dir() + "/cutb.gltf", true); } }
    // faults inside well-formed files
    struct F { const char* from; const char* to; bool must; }; const F fs[] = {{"\"mesh\":1", "\"mesh\":7", true}, {"\"children\":[1,2,3]", "\"children\":[1,2,9]", true}, {"\"scene\":0", "\"scene\":3", false}, {"\"nodes\":[0]", "\"nodes\":[8]", true}, {"\"count\":4", "\"count\":4000", true}, {"\"bufferView\":1,", "\"bufferView\":99,", true}, {"\"material\":0", "\"material\":5", false}, {"\"POSITION\":0", "\"POSITION\":77", true}, {"\"componentType\":5123", "\"componentType\":5124", false}, {"\"byteOffset\":0", "\"byteOffset\":100000", true}, {"\"version\":\"2.0\"", "\"version\":\"9.0\"", true}, {"\"rotation\":[", "\"rotation\":[1e39,", false}, {"\"matrix\":[", "\"matrix\":[1,", false}, {"\"indices\":1", "\"indices\":0", false}, {"\"children\":[1,2,3]", "\"children\":[0]", false}};
    for (auto& x : fs) { if (!mc::mine()) continue; mc::at("%s replaced by %s", x.from, x.to); std::string f = gltf(q, 0), s = get(f); auto i = s.find(x.from); if (i == std::string::npos) { mc::fail("harness", "pattern not in the file"); continue; } s.replace(i, std::strlen(x.from), x.to); put(f, s); mc::evaluated(true); attempt(world(), f, x.must); }
    // shear cannot be held by a node; indices beyond the vertices
    for (int k = 0; k < 3; ++k) { if (!mc::mine()) continue; Spec z = tree(5, tr(4), tr(7)); mc::at("impossible content %d", k); if (k == 0) z.nodes[2].t.js = ",\"matrix\":[1,0,0,0,0.8,1,0,0,0,0,1,0,0,0,0,1]"; if (k == 1) z.meshes[1][1].ix[2] = 200; if (k == 2) z.nodes[1].t.js = ",\"matrix\":[1,0,0,0,1,1,0,0,1,1,0,0,0,0,0,1]"; mc::evaluated(true); attempt(world(), gltf(z, 0), false); }
    // missing or damaged images leave the geometry
    for (int k = 0; k < 3; ++k) { if (!mc::mine()) continue; Spec z = tree(1, tr(1), tr(2)); z.meshes[0][0].mat = 0; z.mats = "{\"pbrMetallicRoughness\":{\"baseColorTexture\":{\"index\":0},\"metallicRoughnessTexture\":{\"index\":0}},\"normalTexture\":{\"index\":0}}"; std::filesystem::remove(dir() + "/gone.png"); z.tex = ",\"textures\":[{\"source\":0}],\"images\":[{\"uri\":\"gone.png\"}]"; if (k) z.files = {{"gone.png", k == 1 ? "" : "not an image"}}; mc::at("image %s", k == 0 ? "missing" : k == 1 ? "empty" : "damaged"); roundtrip(z, 0, false); }
}
int main(int argc, char** argv) { mc::init(argc, argv); sc::start(); trees(); attributes(); materials(); plain(); histories(); damage(); return mc::finish(); }
