// C03: explicit-state exploration of naming histories on NameRegistry and on every named kind of a Scene.
#include "huira_prelude.hpp"
#include "huira/huira.hpp"
#include "mc.hpp"
using namespace huira;
using TS = RGB;
static const char* NAMES[] = {"", "a", "b", "a_1", "a_1_1", "a_2"};

// ---- adapters: one per kind of object
struct Obj : SceneObject<Obj> { std::string type() const override { return "Obj"; } };
struct RegAdapter {
    NameRegistry<Obj> r; std::vector<std::shared_ptr<Obj>> o;
    static constexpr bool ownership = true;
    void add(const std::string& n) { auto p = std::make_shared<Obj>(); r.add(p, n); o.push_back(p); }
    void rename(int i, const std::string& n) { r.set_name(o[std::size_t(i)], n); }
    void remove(int i) { r.remove(o[std::size_t(i)]); }
    std::string name(int i) { return o[std::size_t(i)]->name(); }
    bool valid(int i) { return o[std::size_t(i)]->is_scene_owned(); }
    bool found_is(const std::string& n, int i) { return r.lookup(n) == o[std::size_t(i)]; }
    long size() { return long(r.size()); }
};
template <int K> struct SceneAdapter {
    Scene<TS> s; 
    using H = std::conditional_t<K == 0, GeometryHandle<TS>, std::conditional_t<K == 1, PrimitiveHandle<TS>, std::conditional_t<K == 2, LightHandle<TS>, std::conditional_t<K == 3, UnresolvedObjectHandle<TS>, std::conditional_t<K == 4, CameraModelHandle<TS>, ModelHandle<TS>>>>>>;
    std::vector<H> o; std::vector<std::uint64_t> ids; std::vector<EllipsoidHandle<TS>> g;
    H get(const std::string& n) {
        if constexpr (K == 0) return s.get_geometry(n); else if constexpr (K == 1) return s.get_primitive(n); else if constexpr (K == 2) return s.get_light(n);
        else if constexpr (K == 3) return s.get_unresolved_object(n); else if constexpr (K == 4) return s.get_camera_model(n); else return s.get_model(n); }
    void add(const std::string& n) {
        using units::Meter; int k = int(o.size());
        if constexpr (K == 0) {
            if (k % 2) { IndexBuffer ib{0, 1, 2}; VertexBuffer<TS> vb(3); vb[1].position = {1, 0, 0}; vb[2].position = {0, 1, 0}; o.push_back(H{s.add_mesh(ib, vb, n).get()}); }
            else o.push_back(H{s.add_ellipsoid(Meter(1), Meter(1), Meter(1), n).get()});
        } else if constexpr (K == 1) { if (g.empty()) g.push_back(s.add_ellipsoid(Meter(1), Meter(1), Meter(1), "a")); o.push_back(s.add_primitive(g[0], n)); }
        else if constexpr (K == 2) o.push_back(s.new_sphere_light(Meter(1), units::Watt(1), n));
        else if constexpr (K == 3) { if (k % 2) o.push_back(s.new_unresolved_emitter(units::Watt(1), n)); else o.push_back(s.new_unresolved_object_from_magnitude(1.0, n)); }
        else if constexpr (K == 4) o.push_back(s.new_camera_model(n));
        else { std::string p = mc::S().scratch + "/m.obj"; static bool once = [&] { std::ofstream f(p); f << "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"; return true; }(); (void)once; o.push_back(s.load_model(p, n)); }
        ids.push_back(o.back().id());
    }
    void rename(int i, const std::string& n) { s.set_name(o[std::size_t(i)], n); }
    void remove(int i) {
        auto& h = o[std::size_t(i)];
        if constexpr (K == 0) s.delete_geometry(h); else if constexpr (K == 1) s.delete_primitive(h); else if constexpr (K == 2) s.delete_light(h);
        else if constexpr (K == 3) s.delete_unresolved_object(h); else if constexpr (K == 4) s.delete_camera_model(h); else s.delete_model(h); }
    std::string name(int i) { return o[std::size_t(i)].name(); }
    bool valid(int i) { return o[std::size_t(i)].valid(); }
    bool found_is(const std::string& n, int i) { return get(n).id() == ids[std::size_t(i)]; }
    long size() { return -1; }
};

template <class A> static std::string history(const char* kind, const std::vector<int>& h, int max_obj, int nn)
{
    // ops: add(n): nn; rename(i,n): max_obj*nn; remove(i): max_obj
    mc::at_s(std::string(kind) + " " + mc::seq_str(h));
    auto A_ = std::make_unique<A>(); A& a = *A_;
    std::vector<std::string> ref; std::vector<bool> live; // reference
    auto verify = [&](const char* when) {
        long n = 0;
        for (std::size_t i = 0; i < ref.size(); ++i) {
            mc::check(a.valid(int(i)) == live[i], "validity", "%s: object %zu valid=%d, expected %d", when, i, int(a.valid(int(i))), int(live[i]));
            if (!live[i]) continue;
            ++n;
            std::string nm = a.name(int(i));
            if (!mc::check(nm == ref[i], "name", "%s: object %zu is called '%s', expected '%s'", when, i, nm.c_str(), ref[i].c_str())) continue;
            bool found = false;
            if (mc::throws([&] { found = a.found_is(nm, int(i)); })) mc::check(false, "lookup-missing", "%s: '%s' is not found", when, nm.c_str());
            else mc::check(found, "lookup-wrong", "%s: '%s' finds another object", when, nm.c_str());
        }
        if (a.size() >= 0) mc::check(a.size() == n, "size", "%s: size %ld expected %ld", when, a.size(), n);
        std::set<std::string> gone{"", "a", "b", "c", "a_1", "b_1", "a_2", "a_3", "a_1_1", "a_1_2"};
        for (std::size_t i = 0; i < ref.size(); ++i) if (!live[i]) gone.insert(ref[i]);
        for (auto& g : gone) {
            bool used = false; for (std::size_t i = 0; i < ref.size(); ++i) used |= live[i] && ref[i] == g;
            if (!used) mc::check(mc::throws([&] { a.found_is(g, 0); }), "lookup-ghost", "%s: '%s' is found although no object bears it", when, g.c_str());
        }
    };
    std::set<std::string> ever;
    for (std::size_t step = 0; step < h.size(); ++step) {
        int op = h[step];
        auto used = [&](const std::string& n, int except) { for (std::size_t i = 0; i < ref.size(); ++i) if (live[i] && int(i) != except && ref[i] == n) return true; return false; };
        auto grant = [&](const std::string& want, const std::string& got, int self) {
            if (!want.empty() && !used(want, self)) mc::check(got == want, "granted", "step %zu: free name '%s' was granted as '%s'", step, want.c_str(), got.c_str());
            else {
                mc::check(!got.empty() && !used(got, self), "unique", "step %zu: asked for '%s', got '%s' which is empty or taken", step, want.c_str(), got.c_str());
                if (!want.empty()) mc::check(got.size() > want.size() && got.compare(0, want.size(), want) == 0, "suffix", "step %zu: asked for '%s', got unrelated '%s'", step, want.c_str(), got.c_str());
            }
        };
        bool last = step + 1 == h.size();
        if (op < nn) {
            int cnt = 0; for (bool l : live) cnt += l;
            if (cnt >= max_obj || int(ref.size()) >= max_obj + 1) return last ? "" : "";
            a.add(NAMES[op]); int i = int(ref.size()); live.push_back(true); ref.push_back("?"); std::string got = a.name(i); ref[std::size_t(i)] = "?"; grant(NAMES[op], got, i); ref[std::size_t(i)] = got;
        } else if (op < nn + (max_obj + 1) * nn) {
            int i = (op - nn) / nn, n = (op - nn) % nn; if (i >= int(ref.size())) return "";
            bool threw = mc::throws([&] { a.rename(i, NAMES[n]); });
            mc::check(threw == !live[std::size_t(i)], "rename-refusal", "step %zu: renaming object %d threw=%d live=%d", step, i, threw, int(live[std::size_t(i)]));
            if (live[std::size_t(i)]) { std::string got = a.name(i); if (ref[std::size_t(i)] == NAMES[n]) mc::check(got == ref[std::size_t(i)], "rename-own", "step %zu: renaming '%s' to its own name made it '%s'", step, NAMES[n], got.c_str()); else grant(NAMES[n], got, i); ref[std::size_t(i)] = got; }
        } else {
            int i = op - nn - (max_obj + 1) * nn; if (i >= int(ref.size())) return "";
            bool threw = mc::throws([&] { a.remove(i); });
            mc::check(threw == !live[std::size_t(i)], "remove-refusal", "step %zu: removing object %d threw=%d live=%d", step, i, threw, int(live[std::size_t(i)]));
            live[std::size_t(i)] = false;
        }
        if (last) verify("after the history");
    }
    mc::evaluated(h.size() > 1); mc::count("traces_validated_against_impl");
    std::string c; for (std::size_t i = 0; i < ref.size(); ++i) { std::string r = ref[i]; auto dot = r.find('.'); if (dot != std::string::npos) { std::string t; for (char ch : r.substr(dot + 1)) if (!std::isdigit((unsigned char)ch)) t += ch; r = "<auto" + std::to_string(i) + ">" + t; } c += (live[i] ? "+" : "-") + r + ";"; }
    return c.empty() ? "<empty>" : c;
}
template <class A> static void explore(const char* kind, int max_obj, int nn, int depth)
{
    if (!mc::mine()) return;
    int K = nn + (max_obj + 1) * nn + max_obj + 1;
    mc::bfs(K, depth, 2000000, [&](const std::vector<int>& h) { return history<A>(kind, h, max_obj, nn); });
    mc::count("kinds");
}
static void other_kinds()
{
    // kinds without a rename or lookup interface: names granted on creation stay unique
    mc::sequences(4, 3, [&](const std::vector<int>& h) {
        mc::at_s("other kinds " + mc::seq_str(h));
        Scene<TS> s; std::map<std::string, std::set<std::string>> used; std::vector<std::string> got_all;
        auto see = [&](const char* kind, const std::string& want, const std::string& got) {
            bool fresh = used[kind].insert(got).second;
            mc::check(fresh && !got.empty(), "kind-unique", "%s: asked '%s' got '%s' (taken or empty)", kind, want.c_str(), got.c_str());
            if (!want.empty()) mc::check(got.compare(0, want.size(), want) == 0, "kind-suffix", "%s: asked '%s' got '%s'", kind, want.c_str(), got.c_str());
        };
        for (int x : h) {
            std::string n = NAMES[x];
            auto b = s.new_bsdf_lambertian(n); see("bsdf", n, b.name()); see("bsdf", n, s.new_bsdf_oren_nayar(n).name()); see("bsdf", n, s.new_bsdf_hapke(0.1f, 1, 0.1f, 0.1f, n).name());
            see("material", n, s.new_material(b, n).name());
            auto d = s.new_constant_density_field(TS{0}, TS{0}, n); see("density", n, d.name());
            auto p = s.new_isotropic_phase_function(n); see("phase", n, p.name()); see("medium", n, s.new_medium(d, p, n).name());
            see("texture", n, s.add_texture(Image<TS>(1, 1), n).name()); see("mono", n, s.add_texture(Image<float>(1, 1), n).name()); see("vec3", n, s.add_texture(Image<Vec3<float>>(1, 1), n).name());
        }
        mc::evaluated(); mc::count("traces_validated_against_impl");
        return true;
    });
}
static void foreign()
{
    if (!mc::mine()) return;
    mc::at("objects of another scene and double registration");
    Scene<TS> a, b; auto la = a.new_sphere_light(units::Meter(1), units::Watt(1), "L"); 
    mc::check(mc::throws([&] { b.set_name(la, "M"); }), "foreign-rename", "renaming another scene's light is accepted");
    mc::check(mc::throws([&] { b.get_light("M"); }) && la.name() == "L" && a.get_light("L").id() == la.id(), "foreign-rename", "renaming another scene's light changed something");
    mc::check(mc::throws([&] { b.delete_light(la); }) && la.valid() && a.get_light("L").id() == la.id(), "foreign-delete", "deleting through another scene is not refused cleanly");
    auto p = la.get(); bool t = mc::throws([&] { a.add_light(p, "N"); });
    if (t) mc::check(la.name() == "L" && mc::throws([&] { a.get_light("N"); }), "double-add", "a refused second registration changed something");
    int holders = 0; for (const char* n : {"L", "N"}) if (!mc::throws([&] { a.get_light(n); })) { ++holders; mc::check(a.get_light(n).name() == n, "double-add", "lookup of '%s' returns an object called '%s'", n, a.get_light(n).name().c_str()); }
    mc::check(holders == 1, "double-add", "the light is found under %d names", holders);
    a.delete_light(la); mc::check(!la.valid(), "validity", "deleted light valid");
    auto again = a.add_light(p, "L"); mc::check(again.valid() && a.get_light("L").id() == again.id(), "re-add", "an object removed and added again is not usable");
    mc::evaluated(); mc::count("traces_validated_against_impl");
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet();
    Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    int t = mc::thorough();
    explore<RegAdapter>("registry", 3, 5, t ? 8 : 6);
    explore<SceneAdapter<1>>("primitive", 2, 4, t ? 5 : 4);
    explore<SceneAdapter<2>>("light", 2, 4, t ? 5 : 4);
    explore<SceneAdapter<3>>("unresolved", 2, 4, t ? 5 : 4);
    explore<SceneAdapter<4>>("camera", 2, t ? 3 : 2, t ? 4 : 3);
    explore<SceneAdapter<0>>("geometry", 2, 4, t ? 5 : 4);
    explore<SceneAdapter<5>>("model", 2, 3, t ? 4 : 3);
    other_kinds();
    foreign();
    mc::sample("op encoding: add(name), rename(object,name), remove(object) over names '',a,b,a_1,a_1_1; last: " + std::string(mc::S().cur));
    return mc::finish();
}
