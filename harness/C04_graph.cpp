// C04: explicit-state exploration of scene-graph edit histories against a reference tree (real scene, address-sanitised).
#include "huira_prelude.hpp"
#include "huira/huira.hpp"
#include "mc.hpp"
using namespace huira;
using TS = RGB;
using FH = FrameHandle<TS>; using IH = InstanceHandle<TS>;

struct N { bool frame; int parent; int asset; bool alive; std::uint64_t id; };
struct World {
    int cfg; std::unique_ptr<Scene<TS>> s = std::make_unique<Scene<TS>>();
    std::vector<FH> fh; std::vector<IH> ih; // parallel to nodes through slot
    std::vector<N> n; std::vector<int> slot; std::vector<std::shared_ptr<Node<TS>>> pins; bool pin;
    // assets 0..2 of the configuration
    std::vector<PrimitiveHandle<TS>> prim; std::vector<LightHandle<TS>> light; std::vector<UnresolvedObjectHandle<TS>> unres; std::vector<CameraModelHandle<TS>> cam; std::vector<ModelHandle<TS>> model; std::vector<GeometryHandle<TS>> geo;
    bool alive[4] = {true, true, true, true}; // asset 3 = geometry of both primitives / inner primitive of the model
    std::vector<const void*> raw;
    World(int c, bool p) : cfg(c), pin(p)
    {
        using units::Meter;
        if (cfg == 0) {
            geo.push_back(GeometryHandle<TS>{s->add_ellipsoid(Meter(1), Meter(1), Meter(1), "g").get()});
            prim.push_back(s->add_primitive(geo[0], "p0")); prim.push_back(s->add_primitive(geo[0], "p1"));
            light.push_back(s->new_sphere_light(Meter(1), units::Watt(1), "l"));
            raw = {prim[0].get().get(), prim[1].get().get(), light[0].get().get()};
        } else if (cfg == 1) {
            light.push_back(s->new_sphere_light(Meter(1), units::Watt(1), "l")); light.push_back(s->new_sphere_light(Meter(1), units::Watt(1), "l2"));
            unres.push_back(s->new_unresolved_object_from_magnitude(1.0, "u"));
            raw = {light[0].get().get(), light[1].get().get(), unres[0].get().get()}; alive[3] = false;
        } else if (cfg == 2) {
            std::string f = mc::S().scratch + "/m.obj"; static bool once = [&] { std::ofstream o(f); o << "o thing\nv 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"; return true; }(); (void)once;
            model.push_back(s->load_model(f, "m"));
            // the model's own primitive
            prim_of_model = find_prim(); raw = {model[0].get().get(), prim_of_model ? (const void*)prim_of_model->get().get() : nullptr};
            light.push_back(s->new_sphere_light(Meter(1), units::Watt(1), "l")); raw.push_back(light[0].get().get()); alive[3] = false;
        } else {
            cam.push_back(s->new_camera_model("c")); light.push_back(s->new_sphere_light(Meter(1), units::Watt(1), "l")); unres.push_back(s->new_unresolved_emitter(units::Watt(1), "u"));
            raw = {cam[0].get().get(), light[0].get().get(), unres[0].get().get()}; alive[3] = false;
        }
        n.push_back({true, -1, -1, true, s->root.id()}); slot.push_back(-1);
    }
    std::optional<PrimitiveHandle<TS>> prim_of_model;
    std::optional<PrimitiveHandle<TS>> find_prim() { for (const char* c : {"thing", "m", "", "defaultobject"}) { try { return s->get_primitive(c); } catch (...) {} } return std::nullopt; }
    const FH& frame(int i) { return i == 0 ? static_cast<const FH&>(s->root) : fh[std::size_t(slot[std::size_t(i)])]; }
    void kill(int i) { n[std::size_t(i)].alive = false; for (std::size_t j = 0; j < n.size(); ++j) if (n[j].alive && n[j].parent == i) kill(int(j)); }
    void kill_asset(int k) { alive[k] = false; for (std::size_t j = 0; j < n.size(); ++j) if (n[j].alive && !n[j].frame && n[j].asset == k) n[j].alive = false; }
};
static int FR, IN; // bounds on frames (excluding the root) and instances ever created
// op space: new frame (FR+1), new instance (FR+1)*3, delete node i via frame f: (FR+IN)*(FR+1), delete asset 4
static int nops() { return (FR + 1) + (FR + 1) * 3 + (FR + IN) * (FR + 1) + 4; }

static std::string run(int cfg, const std::vector<int>& h, bool pin)
{
    World w(cfg, pin); auto& s = *w.s;
    auto node_by = [&](int kind_frame, int k) { int c = -1; for (std::size_t i = 1; i < w.n.size(); ++i) if (w.n[i].frame == (kind_frame != 0)) if (++c == k) return int(i); return -1; };
    auto count = [&](bool frame) { int c = 0; for (std::size_t i = 1; i < w.n.size(); ++i) c += w.n[i].frame == frame; return c; };
    for (std::size_t st = 0; st < h.size(); ++st) {
        int op = h[st];
        if (op < FR + 1) {
            int f = op == 0 ? 0 : node_by(1, op - 1); if (f < 0 || count(true) >= FR) return "";
            bool threw = mc::throws([&] { FH c = w.frame(f).new_subframe(); w.fh.push_back(c); w.n.push_back({true, f, -1, true, c.id()}); w.slot.push_back(int(w.fh.size()) - 1); if (pin) w.pins.push_back(c.get()); });
            mc::check(threw == !w.n[std::size_t(f)].alive, "new-frame", "step %zu: new_subframe threw=%d on a frame that is alive=%d", st, threw, int(w.n[std::size_t(f)].alive));
            if (threw) return ""; continue;
        }
        op -= FR + 1;
        if (op < (FR + 1) * 3) {
            int fi = op / 3, k = op % 3; int f = fi == 0 ? 0 : node_by(1, fi - 1); if (f < 0 || count(false) >= IN || (cfg == 2 && k == 1)) return "";
            bool ok_expected = w.n[std::size_t(f)].alive && w.alive[k];
            bool threw = mc::throws([&] {
                auto mk = [&](const auto& a) { IH c = w.frame(f).new_instance(a); w.ih.push_back(c); w.n.push_back({false, f, k, true, c.id()}); w.slot.push_back(int(w.ih.size()) - 1); if (pin) w.pins.push_back(c.get()); };
                if (cfg == 0) { if (k < 2) mk(w.prim[std::size_t(k)]); else mk(w.light[0]); }
                else if (cfg == 1) { if (k < 2) mk(w.light[std::size_t(k)]); else mk(w.unres[0]); }
                else if (cfg == 2) { if (k == 0) mk(w.model[0]); else mk(w.light[0]); }
                else { if (k == 0) mk(w.cam[0]); else if (k == 1) mk(w.light[0]); else mk(w.unres[0]); } });
            mc::check(threw == !ok_expected, "new-instance", "step %zu: new_instance threw=%d, expected %d", st, threw, !ok_expected);
            if (threw) return ""; continue;
        }
        op -= (FR + 1) * 3;
        if (op < (FR + IN) * (FR + 1)) {
            int x = op / (FR + 1), fi = op % (FR + 1); int f = fi == 0 ? 0 : node_by(1, fi - 1); int c = x < FR ? node_by(1, x) : node_by(0, x - FR); if (f < 0 || c < 0) return "";
            bool ok_expected = w.n[std::size_t(f)].alive && w.n[std::size_t(c)].alive && w.n[std::size_t(c)].parent == f;
            bool threw = mc::throws([&] { if (w.n[std::size_t(c)].frame) w.frame(f).delete_subframe(w.fh[std::size_t(w.slot[std::size_t(c)])]); else w.frame(f).delete_instance(w.ih[std::size_t(w.slot[std::size_t(c)])]); });
            mc::check(threw == !ok_expected, "delete-node", "step %zu: deleting node %d of frame %d threw=%d, expected %d", st, c, f, threw, !ok_expected);
            if (ok_expected) w.kill(c); continue;
        }
        op -= (FR + IN) * (FR + 1);
        if (op == 3 && cfg != 0) return "";
        bool was = w.alive[op];
        bool threw = mc::throws([&] {
            if (cfg == 0) { if (op < 2) s.delete_primitive(w.prim[std::size_t(op)]); else if (op == 2) s.delete_light(w.light[0]); else s.delete_geometry(w.geo[0]); }
            else if (cfg == 1) { if (op < 2) s.delete_light(w.light[std::size_t(op)]); else s.delete_unresolved_object(w.unres[0]); }
            else if (cfg == 2) { if (op == 0) s.delete_model(w.model[0]); else if (op == 1) { if (w.prim_of_model) s.delete_primitive(*w.prim_of_model); } else s.delete_light(w.light[0]); }
            else { if (op == 0) s.delete_camera_model(w.cam[0]); else if (op == 1) s.delete_light(w.light[0]); else s.delete_unresolved_object(w.unres[0]); } });
        mc::check(threw == !was, "delete-asset", "step %zu: deleting asset %d threw=%d although it existed=%d", st, op, threw, was);
        if (was) { w.kill_asset(op); if (cfg == 0 && op == 3) { w.kill_asset(0); w.kill_asset(1); } }
    }
    // ---- compare with the reference
    std::map<std::uint64_t, std::pair<std::uint64_t, const Node<TS>*>> seen; bool dup = false;
    std::function<void(const Node<TS>*)> walk = [&](const Node<TS>* p) { for (auto& c : p->get_children()) { if (!c) { mc::check(false, "null-child", "null child in the graph"); continue; } if (!seen.insert({c->id(), {p->id(), c.get()}}).second) dup = true; else walk(c.get()); } };
    auto rootp = s.root.get(); walk(rootp.get());
    mc::check(!dup, "duplicate", "a node is reachable twice");
    std::size_t alive = 0;
    for (std::size_t i = 1; i < w.n.size(); ++i) {
        auto& x = w.n[i]; bool v = x.frame ? w.fh[std::size_t(w.slot[i])].valid() : w.ih[std::size_t(w.slot[i])].valid();
        mc::check(v == x.alive, "validity", "node %zu (%s) valid=%d, expected %d", i, x.frame ? "frame" : "instance", v, int(x.alive));
        if (x.alive) {
            ++alive; auto it = seen.find(x.id);
            if (!mc::check(it != seen.end(), "unreachable", "live node %zu is not in the graph", i)) continue;
            mc::check(it->second.first == w.n[std::size_t(x.parent)].id, "parent", "node %zu hangs below another parent", i);
            auto use = [&](auto& hd) { bool ok = false; bool t = mc::throws([&] { ok = hd.id() == x.id && hd.get_parent().id() == w.n[std::size_t(x.parent)].id; }); mc::check(!t && ok, "handle-use", "live node %zu: handle throws=%d or names another node", i, t); };
            if (x.frame) use(w.fh[std::size_t(w.slot[i])]); else { use(w.ih[std::size_t(w.slot[i])]); const auto* in = dynamic_cast<const Instance<TS>*>(it->second.second);
                if (mc::check(in, "kind", "node %zu is not an instance", i)) std::visit([&](auto* q) { mc::check((const void*)q == w.raw[std::size_t(x.asset)], "asset", "node %zu refers to another asset", i); }, in->asset()); }
        } else {
            auto use = [&](auto& hd) {
                mc::check(mc::throws([&] { (void)hd.get(); }) && mc::throws([&] { (void)hd.name(); }) && mc::throws([&] { (void)hd.id(); }) && mc::throws([&] { (void)hd.get_parent(); }) && mc::throws([&] { hd.set_scale(2.0); }), "dead-use", "a handle to deleted node %zu can still be used", i); };
            if (x.frame) use(w.fh[std::size_t(w.slot[i])]); else use(w.ih[std::size_t(w.slot[i])]);
        }
    }
    mc::check(seen.size() == alive, "extra", "the graph holds %zu nodes, expected %zu", seen.size(), alive);
    auto chk_asset = [&](auto& hd, int k) { bool v = hd.valid(); mc::check(v == w.alive[k], "asset-validity", "asset %d valid=%d, expected %d", k, v, int(w.alive[k])); if (!w.alive[k]) mc::check(mc::throws([&] { (void)hd.get(); }), "asset-dead-use", "a handle to deleted asset %d can be used", k); };
    if (cfg == 0) { chk_asset(w.prim[0], 0); chk_asset(w.prim[1], 1); chk_asset(w.light[0], 2); chk_asset(w.geo[0], 3); }
    else if (cfg == 1) { chk_asset(w.light[0], 0); chk_asset(w.light[1], 1); chk_asset(w.unres[0], 2); }
    else if (cfg == 2) { chk_asset(w.model[0], 0); if (w.prim_of_model) chk_asset(*w.prim_of_model, 1); chk_asset(w.light[0], 2); }
    else { chk_asset(w.cam[0], 0); chk_asset(w.light[0], 1); chk_asset(w.unres[0], 2); }
    s.print_graph(); s.print_contents(); if (cfg == 2 && w.alive[0]) w.model[0].print_graph();
    if (cfg == 2 && !pin && (h.size() == 2 || (mc::thorough() && h.size() == 3)) && (!w.alive[1] || !w.alive[0] || count(false))) { // walking the graph of a view touches every asset pointer
        auto c = s.new_camera_model("vc"); auto ci = s.root.new_instance(c); Time t = Time::from_et(0);
        SceneView<TS> v(s, Interval{t, t}, ci, ObservationMode::TRUE_STATE, 1); (void)v; s.root.delete_instance(ci);
    }
    // a scene that goes away leaves only invalid handles behind
    if (!pin) {
        rootp.reset();
        w.s.reset();
        for (auto& f : w.fh) mc::check(!f.valid() && mc::throws([&] { (void)f.get(); }), "after-scene", "frame handle valid after its scene is gone");
        for (auto& f : w.ih) mc::check(!f.valid() && mc::throws([&] { (void)f.get(); }), "after-scene", "instance handle valid after its scene is gone");
    }
    mc::evaluated(h.size() > 1); mc::count("traces_validated_against_impl");
    std::string c; for (std::size_t i = 1; i < w.n.size(); ++i) { auto& x = w.n[i]; c += x.frame ? 'F' : char('0' + x.asset); c += x.alive ? '+' : '-'; c += std::to_string(x.parent) + ";"; }
    c += "|"; for (int k = 0; k < 4; ++k) c += w.alive[k] ? '1' : '0';
    return c;
}
static void explore(int cfg, int fr, int in, int depth)
{
    FR = fr; IN = in;
    // one shard per first operation group
    for (int first = 0; first < 2; ++first) for (int pin = 0; pin < 2; ++pin) {
        if ((cfg == 3 && pin) || !mc::mine()) continue;
        // first==0: histories starting with a new frame; first==1: the others
        mc::bfs(nops(), depth, 4000000, [&](const std::vector<int>& h) -> std::string {
            if (!h.empty() && (h[0] == 0) != (first == 0)) return "";
            mc::at_s("cfg " + std::to_string(cfg) + (pin ? " pinned " : " ") + mc::seq_str(h));
            return run(cfg, h, pin != 0);
        });
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet();
    Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    int t = mc::thorough();
    explore(0, 2, 2, t ? 7 : 4);
    explore(1, 2, 1, t ? 7 : 5);
    explore(2, 1, 1, t ? 5 : 3);
    explore(3, t ? 1 : 0, 1, t ? 3 : 2);
    explore(0, 1, 2, t ? 7 : 5);
    explore(1, 3, 1, t ? 8 : 4);
    mc::sample("ops: new frame, new instance, delete node through a frame (right, wrong, stale), delete asset; last case: " + std::string(mc::S().cur));
    return mc::finish();
}
