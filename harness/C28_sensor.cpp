// C28: every sensor configuration of a lattice at powers from nothing to far beyond saturation, and every setter sequence to the bound, against a double-precision readout chain.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/cameras/camera_model.hpp"
#include "huira/cameras/sensors/simple_sensor.hpp"
#include "mc.hpp"
using namespace huira;
template <class S> struct Expo : SimpleSensor<S> { using SimpleSensor<S>::SimpleSensor; SensorConfig<S>& cfg() { return this->config_; } };
template <class T> static double ch(const T& v, std::size_t i) { if constexpr (std::is_floating_point_v<T>) return double(v); else return double(v[i]); }
struct Chain { double fwc, gain, bias, dark; int bits; std::vector<double> qe; };
// reference: one value per output channel
template <class S> static std::vector<double> expect(const Chain& c, const S& power, double dt)
{
    S pe = S::photon_energies(); std::vector<double> e; double sum = 0; double mx = std::pow(2.0, c.bits) - 1;
    for (std::size_t i = 0; i < S::size(); ++i) { double v = double(power[i]) * dt / double(pe[i]) * c.qe[i]; e.push_back(v); sum += v; }
    if (!std::is_same_v<S, RGB>) e.assign(1, sum);
    for (auto& v : e) v = std::clamp(std::min(v, c.fwc) / c.gain, 0.0, mx) / mx;
    return e;
}
static const std::vector<double> LEVEL{0, 1e-6, 0.3, 1, 2.5, 77, 1000};                 // electrons
static const std::vector<double> FRAC{0.25, 0.5, 0.999, 1, 1.001, 2, 1e3, 1e9};         // of the full well
template <class S> static void readouts(CameraModel<S>& cam)
{
    cam.configure_sensor_from_pitch(Resolution{16, 5}, units::Micrometer{5}); FrameBuffer<S> fb0 = cam.make_frame_buffer(); fb0.enable_sensor_response();
    const std::vector<float> FWC{1, 100, 20000, 1e6f}, GAIN{0.01f, 1.22f, 300}, BIAS{0, 10, 1e5f}, DARK{0, 1, 3e5f}, RN{0, 10, 1e5f}, DT{0, 1e-3f, 1, 100}; const std::vector<int> BITS = mc::thorough() ? std::vector<int>{1, 2, 8, 10, 12, 14, 16, 24, 31} : std::vector<int>{1, 8, 12, 16, 31};
    std::vector<std::vector<float>> QE{{}, {1}, {0}, {0.1f, 0.9f, 0.5f, 0, 1, 0.3f, 0.7f, 0.2f}}; S pe = S::photon_energies();
    for (std::size_t qi = 0; qi < QE.size(); ++qi) for (float fwc : FWC) for (float gain : GAIN) {
        if (!mc::mine()) continue;
        for (int bits : BITS) for (float bias : BIAS) for (float dark : DARK) for (float rn : RN) for (float dt : DT) {
            if (!mc::thorough() && rn != 10 && (bias == 10 || dark == 1)) continue;
            SimpleSensorConfig<S> c; if (qi) for (std::size_t i = 0; i < S::size(); ++i) c.quantum_efficiency[i] = QE[qi][i % QE[qi].size()]; c.full_well_capacity = fwc; c.gain = gain; c.bit_depth = bits; c.bias_level_dn = bias; c.dark_current = dark; c.read_noise = rn; c.simulate_noise = false;
            Chain k{double(fwc), double(gain), double(bias), double(dark), bits, {}}; for (std::size_t i = 0; i < S::size(); ++i) k.qe.push_back(double(c.quantum_efficiency[i]));
            mc::at("%zu channels, qe %zu well %g gain %g bits %d bias %g dark %g read %g exposure %g", S::size(), qi, double(fwc), double(gain), bits, double(bias), double(dark), double(rn), double(dt)); mc::evaluated(dt > 0 && qi != 2);
            SimpleSensor<S> s(c); FrameBuffer<S> fb = fb0; auto& P = fb.received_power(); auto& O = fb.sensor_response(); std::vector<double> lv = LEVEL; for (double f : FRAC) lv.push_back(f * double(fwc)); std::sort(lv.begin(), lv.end());
            // row 0: all channels together, rows 1..3: one channel alone, row 4: rising and falling mixture; the power makes the level at unit efficiency
            for (int y = 0; y < 5; ++y) for (int x = 0; x < 16; ++x) { S p{0}; double e = lv[std::size_t(std::min(x, 14))]; double d = dt > 0 ? double(dt) : 1; for (std::size_t i = 0; i < S::size(); ++i) { double w = y == 0 ? 1 : y < 4 ? (i % 3 == std::size_t(y - 1) ? 1 : 0) : (i % 2 ? 0.5 : 0.01); p[i] = float(e * w * double(pe[i]) / d); } P(x, y) = p; O(x, y) = typename FrameBuffer<S>::SensorT{0.77f}; }
            s.readout(fb, units::Second{double(dt)}); auto in = P; double mx = std::pow(2.0, bits) - 1;
            mc::check(O.sensor_bit_depth() == bits, "bit-depth", "output says %d bits", O.sensor_bit_depth());
            for (int y = 0; y < 5; ++y) for (int x = 0; x < 16; ++x) { auto e = expect<S>(k, P(x, y), double(dt)); for (std::size_t i = 0; i < e.size(); ++i) { double v = ch(O(x, y), i); bool ok = std::isfinite(v) && v >= 0 && v <= 1 && std::fabs(v - e[i]) <= 4e-6 * e[i] + 1e-12;
                mc::check(ok, "chain", "level %d row %d channel %zu reads %.9g (%.6g counts), expected %.9g (%.6g)", x, y, i, v, v * mx, e[i], e[i] * mx);
                if (x && x < 15 && y < 4) mc::check(v >= ch(O(x - 1, y), i), "monotone", "more light (level %d after %d) reads less", x, x - 1); } }
            FrameBuffer<S> again = fb0; again.received_power() = in; s.readout(again, units::Second{double(dt)}); for (int y = 0; y < 5; ++y) for (int x = 0; x < 16; ++x) for (std::size_t i = 0; i < (std::is_same_v<S, RGB> ? 3 : 1); ++i) mc::check(ch(again.sensor_response()(x, y), i) == ch(O(x, y), i), "deterministic", "a second readout differs at (%d,%d)", x, y);
            for (int y = 0; y < 5; ++y) for (int x = 0; x < 16; ++x) for (std::size_t i = 0; i < S::size(); ++i) mc::check(fb.received_power()(x, y)[i] == in(x, y)[i], "input", "the readout changed its input");
            // noise: finite and in range, also for the rounding errors of a convolution around zero; dark signal and bias are present
            for (int x = 0; x < 16; ++x) for (std::size_t i = 0; i < S::size(); ++i) P(x, 4)[i] = float(-1e-7 * double(x) * double(pe[i]));
            s.set_simulate_noise(true); s.readout(fb, units::Second{double(dt)}); double dk = double(dark) * double(dt);
            for (int y = 0; y < 5; ++y) for (int x = 0; x < 16; ++x) for (std::size_t i = 0; i < (std::is_same_v<S, RGB> ? 3 : 1); ++i) {
                double v = ch(O(x, y), i); mc::check(std::isfinite(v) && v >= 0 && v <= 1, "noisy-range", "noisy value %g at level %d row %d", v, x, y);
                if (y == 0 && x == 0) { double sg = std::sqrt(dk + double(rn) * double(rn)), lo = std::clamp((std::min(dk - 9 * sg, double(fwc))) / double(gain) + double(bias), 0.0, mx) / mx, hi = std::clamp((std::min(dk + 9 * sg, double(fwc))) / double(gain) + double(bias), 0.0, mx) / mx; mc::check(v >= lo * (1 - 1e-5) - 1e-9 && v <= hi * (1 + 1e-5) + 1e-9, "noisy-dark", "dark pixel reads %g counts, expected %g to %g", v * mx, lo * mx, hi * mx); mc::outcome(mc::fmt("%d %d", int(10 * v), bits)); }
            }
            mc::count("readouts", 3);
        }
    }
    // frame buffers without one of the two channels: nothing to read or nowhere to write
    if (mc::first_shard()) for (int m = 0; m < 4; ++m) { mc::at("channels %d", m); mc::evaluated(true); FrameBuffer<S> fb = cam.make_frame_buffer(); fb.enable_received_power(m & 1); if (m & 2) { fb.enable_sensor_response(); if (!(m & 1)) fb.enable_received_power(false); } if (m & 1) fb.received_power().fill(S{1e-12f}); SimpleSensor<S> s; s.readout(fb, units::Second{1}); mc::check(fb.has_sensor_response() == bool(m & 2) && fb.has_received_power() == bool(m & 1), "channels", "the readout changed which channels exist"); }
}
struct M { double fwc = double(20000.f), rn = 10, dark = 1, bias = 10, gain = double(1.22f), unity = 0, px = double(8.5e-6), py = double(8.5e-6), rot = 0; int bits = 12, w = 1024, h = 1024; bool noise = true; int qe = 0; bool operator==(const M&) const = default; };
static void setters()
{
    using S = RGB; const double nan = std::nan(""), inf = HUGE_VAL; struct Op { std::string name; std::function<void(SensorModel<S>&)> f; std::function<bool(M&)> m; }; std::vector<Op> ops;
    auto num = [&](const char* n, auto set, double M::*p, std::vector<double> good, std::vector<double> bad) { for (double v : good) ops.push_back({mc::fmt("%s(%g)", n, v), [=](SensorModel<S>& s) { set(s, float(v)); }, [=](M& m) { m.*p = double(float(v)); return true; }}); for (double v : bad) ops.push_back({mc::fmt("%s(%g)", n, v), [=](SensorModel<S>& s) { set(s, float(v)); }, [](M&) { return false; }}); };
    num("full_well", [](auto& s, float v) { s.set_full_well_capacity(v); }, &M::fwc, {500, 1e7}, {0, -1, nan, inf});
    num("read_noise", [](auto& s, float v) { s.set_read_noise(v); }, &M::rn, {0, 3}, {-1, nan, inf});
    num("dark", [](auto& s, float v) { s.set_dark_current(v); }, &M::dark, {0, 7}, {-1e-6, nan, -inf});
    num("bias", [](auto& s, float v) { s.set_bias_level_dn(v); }, &M::bias, {0, 64}, {-1, nan, inf});
    num("gain", [](auto& s, float v) { s.set_gain_adu(v); }, &M::gain, {0.5, 20}, {0, -2, nan, inf});
    num("unity", [](auto& s, float v) { s.set_unity_db(v); }, &M::unity, {0, 20}, {nan, -inf});
    for (double v : {0.0, 12.0, -6.0, 5000.0, -5000.0, nan, inf}) ops.push_back({mc::fmt("gain_db(%g)", v), [=](SensorModel<S>& s) { s.set_gain_db(float(v)); }, [=](M& m) { double g = std::pow(10.0, (m.unity - v) / 20); if (!(g > 1e-45) || !(g < 3.4e38)) return false; m.gain = g; return true; }});
    for (int v : {8, 16, 0, -3}) ops.push_back({mc::fmt("bits(%d)", v), [=](SensorModel<S>& s) { s.set_bit_depth(v); }, [=](M& m) { if (v <= 0) return false; m.bits = v; return true; }});
    for (bool v : {true, false}) ops.push_back({mc::fmt("noise(%d)", v), [=](SensorModel<S>& s) { s.set_simulate_noise(v); }, [=](M& m) { m.noise = v; return true; }});
    for (int q : {1, 2, 3, 4, 5}) ops.push_back({mc::fmt("qe(%d)", q), [=](SensorModel<S>& s) { S v = q == 1 ? S{0.2f, 0.4f, 0.8f} : q == 2 ? S{0, 1, 0} : q == 3 ? S{0.5f, 1.5f, 0.5f} : q == 4 ? S{0.5f, 0.5f, -0.1f} : S{float(nan), 0.5f, 0.5f}; s.set_quantum_efficiency(v); }, [=](M& m) { if (q > 2) return false; m.qe = q; return true; }});
    struct R { int w, h; }; for (R r : {R{64, 32}, R{7, 1}, R{-1, 5}, R{5, -2}}) ops.push_back({mc::fmt("resolution(%d,%d)", r.w, r.h), [=](SensorModel<S>& s) { s.set_resolution(Resolution{r.w, r.h}); }, [=](M& m) { if (r.w < 0 || r.h < 0) return false; m.w = r.w; m.h = r.h; return true; }});
    struct P2 { double x, y; }; for (P2 r : {P2{5, 5}, P2{3, 12}, P2{0, 5}, P2{5, -1}, P2{nan, 5}, P2{5, inf}}) ops.push_back({mc::fmt("pitch(%g,%g)", r.x, r.y), [=](SensorModel<S>& s) { s.set_pixel_pitch(units::Micrometer{r.x}, units::Micrometer{r.y}); }, [=](M& m) { if (!(r.x > 0 && r.y > 0 && r.x < 1e30 && r.y < 1e30)) return false; m.px = r.x * 1e-6; m.py = r.y * 1e-6; return true; }});
    for (P2 r : {P2{10, 20}, P2{0, 5}, P2{5, nan}}) ops.push_back({mc::fmt("size(%g,%g)", r.x, r.y), [=](SensorModel<S>& s) { s.set_sensor_size(units::Millimeter{r.x}, units::Millimeter{r.y}); }, [=](M& m) { if (!(r.x > 0 && r.y > 0)) return false; m.px = r.x * 1e-3 / m.w; m.py = r.y * 1e-3 / m.h; return true; }});
    ops.push_back({"rotation(0.5)", [](SensorModel<S>& s) { s.set_rotation(units::Radian{0.5}); }, [](M& m) { m.rot = 0.5; return true; }});
    auto judge = [&](SensorModel<S>& s, const M& m) {
        auto eq = [](double a, double b) { return std::fabs(a - b) <= 2e-6 * std::max(std::fabs(a), std::fabs(b)); }; Resolution r = s.resolution(); Vec2<float> p = s.pixel_pitch(), z = s.sensor_size(); S q = s.quantum_efficiency(), d = SensorConfig<S>{}.default_qe();
        mc::check(eq(double(s.full_well_capacity()), m.fwc) && eq(double(s.read_noise()), m.rn) && eq(double(s.dark_current()), m.dark) && eq(double(s.bias_level_dn()), m.bias) && eq(double(s.gain_adu()), m.gain) && eq(double(s.unity_db()), m.unity) && s.bit_depth() == m.bits && s.simulate_noise() == m.noise, "state", "well %g read %g dark %g bias %g gain %g unity %g bits %d noise %d; expected %g %g %g %g %g %g %d %d", double(s.full_well_capacity()), double(s.read_noise()), double(s.dark_current()), double(s.bias_level_dn()), double(s.gain_adu()), double(s.unity_db()), s.bit_depth(), s.simulate_noise(), m.fwc, m.rn, m.dark, m.bias, m.gain, m.unity, m.bits, m.noise);
        mc::check(std::fabs(double(s.gain_db()) - (m.unity - 20 * std::log10(m.gain))) < 1e-3, "gain-db", "gain %g at unity %g reported as %g dB", m.gain, m.unity, double(s.gain_db()));
        mc::check(r.width == m.w && r.height == m.h && eq(double(p.x), m.px) && eq(double(p.y), m.py) && eq(double(z.x), m.px * m.w) && eq(double(z.y), m.py * m.h) && eq(s.rotation().to_si(), m.rot), "geometry", "resolution %dx%d pitch %g %g size %g %g", r.width, r.height, double(p.x), double(p.y), double(z.x), double(z.y));
        S e = m.qe == 1 ? S{0.2f, 0.4f, 0.8f} : m.qe == 2 ? S{0, 1, 0} : d; mc::check(q[0] == e[0] && q[1] == e[1] && q[2] == e[2], "qe", "quantum efficiency %g %g %g", double(q[0]), double(q[1]), double(q[2]));
    };
    mc::sequences(ops.size(), mc::thorough() ? 3 : 2, [&](const std::vector<int>& q) {
        std::string n; for (int i : q) n += ops[std::size_t(i)].name + " "; mc::at_s(n); mc::evaluated(q.size() > 1); SimpleSensor<S> s; M m; mc::outcome("x");
        for (std::size_t i = 0; i < q.size(); ++i) { auto& o = ops[std::size_t(q[i])]; M k = m; bool ok = o.m(k), th = mc::throws([&] { o.f(s); }); mc::check(ok != th, "accepted", "%s is %s", o.name.c_str(), th ? "refused" : "accepted"); if (ok) m = k; if (i + 1 == q.size()) judge(s, m); }
        return true;
    });
    // the constructor refuses impossible sensors
    if (mc::first_shard()) for (int i = 0; i < 5; ++i) { mc::at("constructor %d", i); mc::evaluated(true); SimpleSensorConfig<S> c; if (i == 1) c.resolution = Resolution{-1, 4}; if (i == 2) c.resolution = Resolution{4, -1}; if (i == 3) c.pitch_x = units::Micrometer{0}; if (i == 4) c.pitch_y = units::Micrometer{-2}; mc::check(mc::throws([&] { SimpleSensor<S> s(c); }) == (i > 0), "constructor", "configuration %d", i); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    try { setters(); { CameraModel<RGB> c; readouts<RGB>(c); } { CameraModel<Visible8> c; readouts<Visible8>(c); } } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); }
    return mc::finish();
}
