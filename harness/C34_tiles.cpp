// C34: every parallel stage of small renders under all listed partitions, orders and assignments of its pieces to threads (bitwise against the serial render), with happens-before race detection between pieces under the controlled scheduler (RACE), and every short history of renders.
#include "scenes.hpp"
#ifdef RACE
#include "sched/sched.hpp"
#endif
#include <condition_variable>
#include <mutex>
#include <thread>
#ifdef USE8
using TS = Visible8;
#else
using TS = RGB;
#endif
using FB = FrameBuffer<TS>;
// ---- persistent workers; pieces run one at a time, on the thread chosen for them
struct Worker { std::mutex m; std::condition_variable cv; std::function<void()> f; bool busy = false; std::exception_ptr ex; std::thread t; Worker() : t([this] { for (;;) { std::unique_lock l(m); cv.wait(l, [&] { return busy; }); try { f(); } catch (...) { ex = std::current_exception(); } busy = false; cv.notify_all(); } }) { t.detach(); }
    void run(std::function<void()> g) { std::unique_lock l(m); f = std::move(g); busy = true; cv.notify_all(); cv.wait(l, [&] { return !busy; }); if (ex) { auto e = ex; ex = nullptr; std::rethrow_exception(e); } } };
static Worker& worker(int k) { static Worker* w[3]; if (!w[k]) w[k] = new Worker; return *w[k]; }
// ---- a plan: for one stage, the pieces in the order they run and the thread of each (0 = the caller)
struct Plan { std::vector<std::pair<std::size_t, std::size_t>> piece; std::vector<int> thread; std::string name; };
static std::vector<Plan> plans(std::size_t n)
{
    std::vector<Plan> out; bool T = mc::thorough();
    auto add = [&](std::vector<std::pair<std::size_t, std::size_t>> p, const char* nm) {
        std::size_t k = p.size(); std::vector<std::vector<std::size_t>> orders; std::vector<std::size_t> id(k); for (std::size_t i = 0; i < k; ++i) id[i] = i;
        if (k <= 4) { auto o = id; do orders.push_back(o); while (std::next_permutation(o.begin(), o.end())); }
        else { orders.push_back(id); orders.push_back({id.rbegin(), id.rend()}); std::vector<std::size_t> il; for (std::size_t i = 1; i < k; i += 2) il.push_back(i); for (std::size_t i = 0; i < k; i += 2) il.push_back(i); orders.push_back(il); auto r = id; std::rotate(r.begin(), r.begin() + long(k / 2), r.end()); orders.push_back(r); std::vector<std::size_t> st; for (std::size_t i = 0; i < k; ++i) st.push_back(i * 7 % k); if (std::set<std::size_t>(st.begin(), st.end()).size() == k) orders.push_back(st); }
        std::vector<std::vector<int>> as; if (k <= 4) { int base = T ? 3 : 2, tot = 1; for (std::size_t i = 0; i < k; ++i) tot *= base; for (int a = 0; a < tot; ++a) { std::vector<int> v; for (int b = a, i = 0; i < int(k); ++i, b /= base) v.push_back(b % base); as.push_back(v); } } else for (int md : {1, 2, 3}) { std::vector<int> v; for (std::size_t i = 0; i < k; ++i) v.push_back(int(i) % md); as.push_back(v); }
        for (auto& o : orders) for (auto& a : as) { Plan q; for (auto i : o) q.piece.push_back(p[i]); q.thread = a; q.name = mc::fmt("%s of %zu, order", nm, n); for (auto i : o) if (o.size() < 13) q.name += mc::fmt(" %zu", i); else break; if (o.size() >= 13) q.name += mc::fmt(" starting %zu %zu", o[0], o[1]); q.name += ", threads"; for (std::size_t i = 0; i < std::min<std::size_t>(a.size(), 6); ++i) q.name += mc::fmt(" %d", a[i]); out.push_back(q); }
    };
    std::vector<std::pair<std::size_t, std::size_t>> single; for (std::size_t i = 0; i < n; ++i) single.push_back({i, i + 1});
    if (n > 1) add(single, "singles"); add({{0, n}}, "whole");
    for (std::size_t c = 1; c < n; ++c) if (n <= 8 || T || c == 1 || c == n / 2 || c == n - 1) { if (n > 2) add({{0, c}, {c, n}}, "two parts"); }
    if (n >= 12) add({{0, n / 4}, {n / 4, n / 2}, {n / 2, 3 * n / 4}, {3 * n / 4, n}}, "quarters");
    return out;
}
static std::vector<std::uint32_t> bits(FB& b)
{
    std::vector<std::uint32_t> o; auto add = [&](auto& im) { using P = std::decay_t<decltype(im(0, 0))>; const std::size_t k = sizeof(P) / 4, m = std::size_t(im.width()) * std::size_t(im.height()), at = o.size(); o.resize(at + k * m); for (int y = 0; y < im.height(); ++y) for (int x = 0; x < im.width(); ++x) std::memcpy(&o[at + k * std::size_t(y * im.width() + x)], &im(x, y), sizeof(P)); };
    if (b.has_depth()) add(b.depth()); if (b.has_albedo()) add(b.albedo()); if (b.has_geometry_ids()) add(b.geometry_ids()); if (b.has_camera_normals()) add(b.camera_normals()); if (b.has_world_normals()) add(b.world_normals()); if (b.has_received_direct_power()) add(b.received_direct_power()); if (b.has_received_indirect_power()) add(b.received_indirect_power()); if (b.has_received_power()) add(b.received_power()); if (b.has_sensor_response()) add(b.sensor_response());
    for (auto& v : o) if (v == 0x80000000u) v = 0; return o;
}
static void all_channels(FB& b) { b.enable_depth(); b.enable_albedo(); b.enable_geometry_ids(); b.enable_camera_normals(); b.enable_world_normals(); b.enable_received_direct_power(); b.enable_received_indirect_power(); b.enable_sensor_response(); }
struct Setup { int scene, n, w, h, psf; bool dynamic; };
static std::vector<Setup> setups()
{
    std::vector<Setup> L; for (int k : {3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}) L.push_back({k, k == 9 ? 2 : 1, 20, 20, 0, false}); L.push_back({8, 2, 20, 20, 0, false}); L.push_back({4, 1, 20, 20, 0, true}); L.push_back({8, 1, 100, 100, 1, false}); L.push_back({13, 2, 100, 100, 2, false}); return L;
}
struct Made { std::unique_ptr<sc::Stage<TS>> g; std::unique_ptr<SceneView<TS>> v; Renderer<TS> r; FB fb; };
static Made make(const Setup& u)
{
    auto g = std::make_unique<sc::Stage<TS>>(u.w, u.h, u.w > 30 ? 100 : 500); sc::fill(*g, u.scene);
    if (u.scene == 8) { std::vector<Star<TS>> st; for (int i = 0; i < 25; ++i) { Vec3<double> d{-0.22 + 0.018 * i, 0.2 * std::sin(1.3 * i), 1}; st.push_back(Star<TS>(glm::normalize(d), sc::ramp<TS>(0.5, 0.01 * i))); } g->s.set_stars(st); }
    if (u.psf == 1) g->cam.use_aperture_psf(2, 2); if (u.psf == 2) { g->cam.enable_depth_of_field(); g->cam.set_focus_distance(units::Meter(2)); }
    auto v = std::make_unique<SceneView<TS>>(g->s, Interval{Time::from_et(100), Time::from_et(100 + (u.n > 1 ? 0.4 : 0))}, g->eye, ObservationMode::TRUE_STATE, std::size_t(u.n));
    Renderer<TS> r; r.set_samples_per_pixel(u.dynamic ? 8 : u.w > 30 ? 1 : 2); if (u.dynamic) { r.set_dynamic_sampling(); r.set_min_samples(2); r.set_variance_threshold(0.05f); } FB fb = g->cam.make_frame_buffer(); all_channels(fb); return {std::move(g), std::move(v), r, fb};
}
static std::vector<std::size_t> stage_sizes; static int stage_now;
#ifndef RACE
static void orders()
{
    auto L = setups(); std::map<std::string, long> seen;
    for (std::size_t si = 0; si < L.size(); ++si) {
        auto& u = L[si]; Made m = make(u); FB base = m.fb;
        stage_sizes.clear(); partbb::hook() = [&](const partbb::Stage& s) { stage_sizes.push_back(s.n); s.run(0, s.n); }; m.r.render(*m.v, base); auto ref = bits(base); auto sizes = stage_sizes;
        for (std::size_t st = 0; st < sizes.size(); ++st) { auto P = plans(sizes[st]); for (std::size_t pi = 0; pi < P.size(); ++pi) {
            if (!mc::mine()) continue; if (u.w > 30 && !mc::thorough() && pi % 5) continue;
            auto& p = P[pi]; mc::at("scene %d %dx%d samples %d psf %d dynamic %d: stage %zu as %s", u.scene, u.w, u.h, u.n, u.psf, u.dynamic, st, p.name.c_str()); mc::evaluated(p.piece.size() > 1);
            stage_now = 0; partbb::hook() = [&](const partbb::Stage& s) { if (stage_now++ != int(st)) { s.run(0, s.n); return; } for (std::size_t i = 0; i < p.piece.size(); ++i) { auto f = [&] { s.run(p.piece[i].first, p.piece[i].second); }; if (p.thread[i] == 0) f(); else worker(p.thread[i]).run(f); } };
            FB b = m.fb; m.r.render(*m.v, b); auto got = bits(b); std::size_t bad = 0; for (std::size_t i = 0; i < ref.size() && i < got.size(); ++i) bad += ref[i] != got[i];
            mc::check(got.size() == ref.size() && bad == 0, "order", "%zu words of the frame buffer differ from the serial render", bad); mc::count("renders"); mc::outcome(mc::fmt("%d %zu", u.scene, st));
        } }
        partbb::hook() = nullptr;
    }
}
// the other parallel stages: batches of rays, star epochs, kernels
static void others()
{
    sc::Stage<TS> g(20, 20); sc::fill(g, 5); auto v = g.view(); std::vector<Ray<TS>> rays; for (int y = 0; y < 3; ++y) for (int x = 0; x < 8; ++x) rays.push_back(g.cam.get()->cast_ray(Pixel{2.3f * x, 6.0f * y + 1}));
    auto batch = [&] { std::vector<std::uint32_t> o; auto h = v.intersect(rays); auto is = v.resolve_hits(rays, h); for (auto& q : h) { std::uint32_t t; std::memcpy(&t, &q.t, 4); o.push_back(t); o.push_back(q.inst_id); o.push_back(q.prim_id); } for (std::size_t i = 0; i < is.size(); ++i) if (h[i].hit()) { std::uint32_t t[3]; std::memcpy(t, &is[i].position, 12); o.insert(o.end(), t, t + 3); std::memcpy(t, &is[i].normal_s, 12); o.insert(o.end(), t, t + 3); } return o; };
    auto one = [&](const char* what, int nstages, auto f) {
        for (bool cols : {false, true}) { partbb::split_columns() = cols; stage_sizes.clear(); partbb::hook() = [&](const partbb::Stage& s) { stage_sizes.push_back(s.n); s.run(0, s.n); }; auto ref = f(); auto sizes = stage_sizes; mc::at("%s", what); mc::check(int(sizes.size()) >= nstages, "stages", "only %zu parallel stages ran", sizes.size());
            for (std::size_t st = 0; st < sizes.size(); ++st) { auto P = plans(sizes[st]); std::size_t step = std::string(what) == "kernels" ? (mc::thorough() ? 7 : 29) : 1; for (std::size_t pi = 0; pi < P.size(); pi += step) { if (!mc::mine()) continue; auto& p = P[pi]; mc::at("%s, stage %zu as %s", what, st, p.name.c_str()); mc::evaluated(p.piece.size() > 1); stage_now = 0;
                partbb::hook() = [&](const partbb::Stage& s) { if (stage_now++ != int(st)) { s.run(0, s.n); return; } for (std::size_t i = 0; i < p.piece.size(); ++i) { auto q = [&] { s.run(p.piece[i].first, p.piece[i].second); }; if (p.thread[i] == 0) q(); else worker(p.thread[i]).run(q); } };
                mc::check(f() == ref, "order-other", "%s differ from their serial computation", what); mc::count("stages"); mc::outcome(mc::fmt("%s %zu", what, st)); } }
            partbb::hook() = nullptr; }
        partbb::split_columns() = false; };
    one("ray batches", 2, batch);
    one("kernels", 2, [&] { CameraModel<TS> c; c.configure_sensor_from_pitch(Resolution{4, 4}, units::Micrometer{5}); c.use_aperture_psf(1, 2); std::vector<std::uint32_t> o; for (float x : {0.f, 0.5f}) for (float y : {0.f, 0.5f}) { auto& k = c.get_psf_kernel(x, y); for (std::size_t i = 0; i < k.size(); ++i) for (std::size_t q = 0; q < TS::size(); ++q) { std::uint32_t t; float fl = k[int(i)][q]; std::memcpy(&t, &fl, 4); o.push_back(t); } } return o; });
}
// histories: the last render of every sequence equals the same render on its own
static void histories()
{
    struct Item { Made* m; int spp, bounces; };
    std::vector<Setup> S{{5, 1, 20, 20, 0, false}, {8, 2, 20, 20, 0, false}, {9, 2, 20, 20, 0, false}, {7, 1, 20, 20, 0, false}}; std::vector<Made> M; for (auto& u : S) M.push_back(make(u));
    auto fresh = [&](int k) { Renderer<TS> r; r.set_samples_per_pixel(k % 2 ? 1 : 2); r.set_max_bounces(k % 3 + 1); FB b = M[std::size_t(k)].fb; r.render(*M[std::size_t(k)].v, b); return bits(b); }; std::vector<std::vector<std::uint32_t>> want; for (int k = 0; k < 4; ++k) want.push_back(fresh(k));
    mc::sequences(4, mc::thorough() ? 5 : 4, [&](const std::vector<int>& h) { mc::at_s("renders " + mc::seq_str(h)); mc::evaluated(h.size() > 1); Renderer<TS> r; FB shared = M[0].fb; for (std::size_t i = 0; i < h.size(); ++i) { int k = h[i]; r.set_samples_per_pixel(k % 2 ? 1 : 2); r.set_max_bounces(k % 3 + 1); r.render(*M[std::size_t(k)].v, shared); } mc::check(bits(shared) == want[std::size_t(h.back())], "history", "the last render differs from the same render alone"); mc::count("histories"); return true; });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); sc::start();
    try { orders(); others(); histories(); } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); }
    int rc = mc::finish(); std::fflush(nullptr); _exit(rc);
}
#else
static void raced(const std::string& what, const std::function<void()>& f, std::size_t limit = ~std::size_t(0))
{
    // count stages first
    stage_sizes.clear(); partbb::hook() = [&](const partbb::Stage& s) { stage_sizes.push_back(s.n); s.run(0, s.n); }; f(); auto sizes = stage_sizes;
    for (std::size_t st = 0; st < sizes.size(); ++st) for (int shift = 0; shift < 2; ++shift) for (int rev = 0; rev < 2; ++rev) {
        if (sizes[st] < 2 || !mc::mine()) continue; std::size_t n = std::min(sizes[st], limit); std::size_t K = std::min<std::size_t>(n, sched::MAXT); if (shift && n <= sched::MAXT) continue;
        // K contiguous pieces, the second time with the cuts moved by half a piece
        std::vector<std::pair<std::size_t, std::size_t>> pc; std::size_t b = 0; for (std::size_t i = 0; i < K; ++i) { std::size_t e = i + 1 == K ? n : std::min(n, (n * (i + 1) - (shift ? n / 2 : 0)) / K); if (e > b) { pc.push_back({b, e}); b = e; } } if (b < n) pc.back().second = n;
        mc::at("%s: stage %zu of %zu in %zu pieces%s%s", what.c_str(), st, sizes[st], pc.size(), shift ? ", shifted" : "", rev ? ", last first" : ""); mc::evaluated(true); stage_now = 0;
        partbb::hook() = [&](const partbb::Stage& s) {
            if (stage_now++ != int(st)) { s.run(0, s.n); return; }
            std::vector<std::function<void()>> bodies; for (auto& p : pc) bodies.push_back([&s, p] { s.run(p.first, p.second); });
            std::vector<int> prefix; if (rev) for (std::size_t k = bodies.size(); k-- > 1;) prefix.push_back(int(k));
            auto ex = sched::run(bodies, prefix); for (auto& r : ex.races) mc::fail("race", r); mc::check(!ex.deadlock && !ex.livelock && !ex.threw, "stuck", "deadlock %d livelock %d exception %d", ex.deadlock, ex.livelock, ex.threw); mc::count("accesses", long(ex.accesses)); mc::count("schedules"); mc::count("decisions", long(ex.points.size()));
            if (s.n > n) s.run(n, s.n);
        };
        f(); mc::outcome(mc::fmt("%s %zu", what.c_str(), st));
    }
    partbb::hook() = nullptr;
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); sc::start();
    try {
        for (auto& u : setups()) { if (u.w > 30 && u.psf == 2 && !mc::thorough()) continue; Made m = make(u); if (!mc::thorough()) m.r.set_samples_per_pixel(1); raced(mc::fmt("scene %d %dx%d samples %d psf %d", u.scene, u.w, u.h, u.n, u.psf), [&] { FB b = m.fb; m.r.render(*m.v, b); }, u.w > 30 ? 24 : ~std::size_t(0)); }
        { sc::Stage<TS> g(20, 20); sc::fill(g, 5); auto v = g.view(); std::vector<Ray<TS>> rays; for (int y = 0; y < 3; ++y) for (int x = 0; x < 8; ++x) rays.push_back(g.cam.get()->cast_ray(Pixel{2.3f * x, 6.0f * y + 1})); raced("ray batches", [&] { auto h = v.intersect(rays); (void)v.resolve_hits(rays, h); }); }
        raced("kernels", [&] { CameraModel<TS> c; c.configure_sensor_from_pitch(Resolution{4, 4}, units::Micrometer{5}); c.use_aperture_psf(1, 3); }, 3);
    } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); }
    return mc::finish();
}
#endif
