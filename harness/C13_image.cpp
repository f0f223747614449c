// C13: every image size to the bound, every coordinate in and around the image, every wrap mode and filter on a sub-pixel lattice, every small kernel.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/images/image.hpp"
#include "mc.hpp"
using namespace huira;
template <class T> struct Px { static constexpr int ch = 1; static T make(double v, int) { return T(v); } static double get(const T& p, int) { return double(p); } };
template <class F> struct Px<Vec3<F>> { static constexpr int ch = 3; static Vec3<F> make(double v, int) { return {F(v), F(v * 2 + 1), F(100 - v)}; } static double get(const Vec3<F>& p, int c) { return double(p[c]); } };
template <std::size_t N, auto... A> struct Px<SpectralBins<N, A...>> { static constexpr int ch = int(N); static SpectralBins<N, A...> make(double v, int) { SpectralBins<N, A...> s(0.f); for (std::size_t i = 0; i < N; ++i) s[i] = float(v * double(i + 1) + double(i)); return s; } static double get(const SpectralBins<N, A...>& p, int c) { return double(p[std::size_t(c)]); } };
template <class T> static double val(int x, int y) { return double((x * 7 + y * 13 + 3) % 97); } // distinct in the small sizes used
template <class T> static Image<T> pattern(int w, int h) { Image<T> im(w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im(x, y) = Px<T>::make(val<T>(x, y), 0); return im; }
template <class T> static bool same(const T& a, const T& b) { for (int c = 0; c < Px<T>::ch; ++c) if (Px<T>::get(a, c) != Px<T>::get(b, c)) return false; return true; }
template <class T> static void access(const char* tn)
{
    const int M = mc::thorough() ? 9 : 6;
    for (int w = 0; w <= M; ++w) for (int h = 0; h <= M; ++h) {
        if (!mc::mine()) continue;
        mc::at("%s image %dx%d", tn, w, h); mc::evaluated(w * h > 1); T f = Px<T>::make(5, 0);
        Image<T> im(w, h), filled(w, h, f), res(Resolution{w, h}), rf(Resolution{w, h}, f); const Image<T>& ci = im; std::size_t n = std::size_t(w) * std::size_t(h);
        mc::check(im.size() == n && im.width() == w && im.height() == h && im.resolution() == Resolution(w, h) && im.empty() == (n == 0) && bool(im) == (n != 0) && res.size() == n && res.width() == w && rf.height() == h, "size", "size %zu", im.size());
        for (std::size_t i = 0; i < n; ++i) mc::check(same(im[i], T{}) && same(res[i], T{}) && same(filled[i], f) && same(rf[i], f), "initial", "pixel %zu", i);
        std::set<const T*> seen; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { im(x, y) = Px<T>::make(val<T>(x, y), 0); seen.insert(&im(x, y)); } mc::check(seen.size() == n, "distinct", "%zu distinct pixels", seen.size());
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            std::size_t i = std::size_t(y) * std::size_t(w) + std::size_t(x); T e = Px<T>::make(val<T>(x, y), 0); bool ok = same(im[i], e) && same(ci[i], e) && same(ci(x, y), e) && same(im.at(x, y), e) && same(ci.at(x, y), e) && same(im.at(i), e) && same(ci.at(i), e) && same(im.data()[i], e) && same(ci.data()[i], e);
            for (float dx : {0.f, 0.25f, 0.75f}) for (float dy : {0.f, 0.5f, 0.9f}) { Pixel p{float(x) + dx, float(y) + dy}; ok = ok && same(im(p), e) && same(ci(p), e) && same(im.at(p), e) && same(ci.at(p), e); }
            mc::check(ok, "pixel", "pixel (%d,%d) is not where it was stored", x, y);
        }
        std::vector<int> cs = {INT_MIN, INT_MIN + 1, -65536, -2, -1}; for (int k = 0; k <= M + 2; ++k) cs.push_back(k); cs.push_back(65536); cs.push_back(INT_MAX);
        for (int x : cs) for (int y : cs) { bool in = x >= 0 && y >= 0 && x < w && y < h; bool t = mc::throws([&] { (void)im.at(x, y); }), t2 = mc::throws([&] { (void)ci.at(x, y); }); mc::check(t == !in && t2 == !in, "checked", "at(%d,%d) %s", x, y, t ? "throws" : "is accepted"); }
        for (std::size_t i : {n, n + 1, std::size_t(-1)}) mc::check(mc::throws([&] { (void)im.at(i); }) && mc::throws([&] { (void)ci.at(i); }), "checked", "at(index %zu) is accepted", i); if (n) mc::check(!mc::throws([&] { (void)im.at(n - 1); }), "checked", "the last index is refused");
        std::vector<float> fs_ = {NAN, -INFINITY, INFINITY, -1e20f, 1e20f, -1.f, -0.5f, -1e-3f, 0.f, 0.5f, float(w) - 0.5f, float(h) - 0.5f, float(w), float(h), float(w) + 0.5f, float(h) + 3.f, 3e9f};
        for (float x : fs_) for (float y : fs_) { bool in = x >= 0 && y >= 0 && x < float(w) && y < float(h); bool t = mc::throws([&] { (void)im.at(Pixel{x, y}); }), t2 = mc::throws([&] { (void)ci.at(Pixel{x, y}); }); mc::check(t == !in && t2 == !in, "checked", "at(pixel %g,%g) %s", double(x), double(y), t ? "throws" : "is accepted"); if (in && !t) mc::check(same(im.at(Pixel{x, y}), im(int(x), int(y))), "pixel", "pixel %g,%g", double(x), double(y)); }
        // copies are independent, fills and sums touch every pixel
        im.set_sensor_bit_depth(12); Image<T> c = im, a; a = im; mc::check(c.sensor_bit_depth() == 12 && a.sensor_bit_depth() == 12, "copy", "bit depth lost"); c.fill(f); for (std::size_t i = 0; i < n; ++i) mc::check(same(c[i], f) && same(a[i], im[i]), "copy", "pixel %zu shared or not filled", i);
        if constexpr (requires { im + im; }) { Image<T> s = im + c; mc::check(s.resolution() == im.resolution() && s.size() == n, "sum", "size"); for (std::size_t i = 0; i < n; ++i) for (int k = 0; k < Px<T>::ch; ++k) mc::check(Px<T>::get(s[i], k) == double(typename Image<T>::Scalar(Px<T>::get(im[i], k) + Px<T>::get(c[i], k))), "sum", "pixel %zu", i); Image<T> o(w + 1, h), o2(w, h + 1); mc::check(mc::throws([&] { (void)(im + o); }) && mc::throws([&] { (void)(im + o2); }), "sum-size", "different sizes added"); if (w != h) { Image<T> o3(h, w); mc::check(mc::throws([&] { (void)(im + o3); }), "sum-size", "different shapes added"); } }
        for (int k = 0; k < Px<T>::ch; ++k) { Image<float> g = im.get_channel(std::size_t(k)); mc::check(g.width() == w && g.height() == h, "channel", "size"); for (std::size_t i = 0; i < n; ++i) mc::check(g[i] == float(Px<T>::get(im[i], k)), "channel", "channel %d pixel %zu", k, i); } mc::check(mc::throws([&] { (void)im.get_channel(std::size_t(Px<T>::ch)); }), "channel", "channel %d accepted", Px<T>::ch);
        c.reset(f); c.reset(); for (std::size_t i = 0; i < n; ++i) mc::check(same(c[i], T{}), "reset", "pixel %zu", i); Image<T> m = std::move(a); mc::check(m.size() == n && m.width() == w && m.height() == h, "move", "size"); for (std::size_t i = 0; i < n; ++i) mc::check(same(m[i], im[i]), "move", "pixel %zu", i);
        c.clear(); mc::check(c.empty() && c.size() == 0 && c.width() == 0 && c.height() == 0 && !c && mc::throws([&] { (void)c.at(0, 0); }), "clear", "not empty after clear"); c = im; mc::check(c.size() == n, "assign", "size after assignment");
    }
    if (mc::mine()) for (int w : {-3, -1, 0, 2}) for (int h : {-3, -1, 0, 2}) if (w < 0 || h < 0) { mc::at("%s image %dx%d", tn, w, h); mc::evaluated(true); mc::check(mc::throws([&] { Image<T> i(w, h); }) && mc::throws([&] { Image<T> i(Resolution{w, h}, T{}); }), "negative-size", "accepted"); }
}
// ---- sampling: position along one axis after wrapping, by definition
static long double wrapped(WrapMode m, double u)
{
    if (m == WrapMode::Clamp) return std::min(1.0, std::max(0.0, u));
    if (m == WrapMode::Repeat) { long double f = u - std::floor((long double)u); return f; }
    long double f = std::fabs((long double)u); f = f - 2 * std::floor(f / 2); return f > 1 ? 2 - f : f;
}
template <class T, WrapMode W> static void sampling(const char* tn, const char* wn)
{
    std::vector<float> us; for (int k = -40; k <= 56; ++k) us.push_back(float(k) / 16); for (float u : {-1000.25f, -3.0f, 1000.75f, 65536.5f, 3.0e9f, -3.0e9f, 1e20f, 0.3f, 0.7f, -0.1f, 1e-7f, -1e-9f, 0.99999994f}) us.push_back(u);
    const float vs[] = {-1.25f, -0.0625f, 0.f, 0.1875f, 0.5f, 0.8125f, 1.f, 1.5f, 2.f, 7.75f};
    for (int w = 1; w <= 4; ++w) for (int h = 1; h <= 4; ++h) {
        if (!mc::mine()) continue; Image<T> im = pattern<T>(w, h); double lo[16], hi[16]; for (int c = 0; c < Px<T>::ch; ++c) { lo[c] = 1e300; hi[c] = -1e300; for (std::size_t i = 0; i < im.size(); ++i) { lo[c] = std::min(lo[c], Px<T>::get(im[i], c)); hi[c] = std::max(hi[c], Px<T>::get(im[i], c)); } }
        auto one = [&](float u, float v) {
            mc::at("%s %s %dx%d at (%.9g,%.9g)", tn, wn, w, h, double(u), double(v)); mc::evaluated(w * h > 1); T nn = im.template sample_nearest_neighbor<W>(u, v), bl = im.template sample_bilinear<W>(u, v);
            bool finite = std::isfinite(u) && std::isfinite(v);
            if (!finite) { bool found = false; for (std::size_t i = 0; i < im.size(); ++i) found |= same(nn, im[i]); mc::check(found, "nearest-nonfinite", "not a pixel of the image"); for (int c = 0; c < Px<T>::ch; ++c) mc::check(Px<T>::get(bl, c) >= lo[c] && Px<T>::get(bl, c) <= hi[c], "bilinear-nonfinite", "outside the image's range"); return; }
            long double px = wrapped(W, u) * (w - 1), py = wrapped(W, v) * (h - 1); const long double e = 2e-6L;
            bool found = false; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (std::fabs(px - x) <= 0.5L + e && std::fabs(py - y) <= 0.5L + e) found |= same(nn, im(x, y));
            // just below an integer, single precision may wrap to the next period's start
            bool edge = W == WrapMode::Repeat && (wrapped(W, u) > 1 - 1e-7L || wrapped(W, v) > 1 - 1e-7L); if (edge) return;
            mc::check(found, "nearest", "not the nearest pixel to (%.6Lf,%.6Lf)", px, py);
            int x0 = int(std::floor(px)), y0 = int(std::floor(py)); x0 = std::min(x0, w - 1); y0 = std::min(y0, h - 1); int x1 = std::min(x0 + 1, w - 1), y1 = std::min(y0 + 1, h - 1); long double fx = px - x0, fy = py - y0;
            for (int c = 0; c < Px<T>::ch; ++c) { auto g = [&](int x, int y) { return (long double)Px<T>::get(im(x, y), c); }; long double ex = g(x0, y0) * (1 - fx) * (1 - fy) + g(x1, y0) * fx * (1 - fy) + g(x0, y1) * (1 - fx) * fy + g(x1, y1) * fx * fy, tol = 2e-3L + (std::is_integral_v<T> ? 0.5L : 0); double got = Px<T>::get(bl, c); mc::check(std::fabs(got - ex) <= tol, "bilinear", "channel %d is %g expected %.6Lf", c, got, ex); if (std::fabs(fx - std::round(fx)) == 0 && std::fabs(fy - std::round(fy)) == 0) mc::check(std::fabs(got - ex) <= 1e-5L * (1 + std::fabs(ex)), "bilinear-node", "channel %d is %g on a pixel of %.6Lf", c, got, ex); }
        };
        for (float u : us) for (float v : vs) one(u, v);
        for (float u : us) { one(0.375f, u); for (float b : {NAN, INFINITY, -INFINITY, 3e38f}) { one(u, b); one(b, u); } } for (float a : {NAN, INFINITY, -INFINITY}) for (float b : {NAN, INFINITY, -INFINITY}) one(a, b);
        Image<T> k(w, h, Px<T>::make(97, 0)); for (float u : us) for (float v : vs) { mc::at("%s %s constant %dx%d at (%.9g,%.9g)", tn, wn, w, h, double(u), double(v)); T b = k.template sample_bilinear<W>(u, v); bool ok = true; for (int c = 0; c < Px<T>::ch; ++c) ok &= std::fabs(Px<T>::get(b, c) - Px<T>::get(k[0], c)) <= 1e-4 * (std::is_integral_v<T> ? 0 : 1) * (1 + std::fabs(Px<T>::get(k[0], c))); mc::check(ok, "constant", "a constant image is sampled as something else (%g)", Px<T>::get(b, 0)); }
    }
    Image<T> e; for (float u : us) mc::check(same(e.template sample_bilinear<W>(u, 0.f), T{}) && same(e.template sample_nearest_neighbor<W>(0.f, u), T{}), "empty", "an empty image samples as nothing");
}
template <class T> static void all_sampling(const char* n) { sampling<T, WrapMode::Clamp>(n, "clamp"); sampling<T, WrapMode::Repeat>(n, "repeat"); sampling<T, WrapMode::Mirror>(n, "mirror"); }
template <class T> static void convolution(const char* tn)
{
    const int K[][2] = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {3, 3}, {4, 2}, {2, 5}, {5, 5}, {5, 6}, {6, 5}, {6, 6}, {7, 7}, {9, 3}, {3, 9}, {1, 26}, {27, 1}, {11, 11}}; const int I[][2] = {{1, 1}, {1, 4}, {4, 1}, {2, 3}, {3, 3}, {5, 4}, {8, 6}};
    for (auto& k : K) for (auto& d : I) {
        if (!mc::mine()) continue; int kw = k[0], kh = k[1], w = d[0], h = d[1]; Image<T> src = pattern<T>(w, h); src.set_sensor_bit_depth(14);
        auto run = [&](const Image<T>& im, const Image<T>& ke, const char* what, int at) {
            mc::at("%s %dx%d convolved with %dx%d %s %d", tn, w, h, kw, kh, what, at); mc::evaluated(w * h > 1); Image<T> g = im; g.convolve(ke);
            mc::check(g.width() == w && g.height() == h && g.size() == im.size() && g.sensor_bit_depth() == im.sensor_bit_depth(), "convolve-shape", "size or bit depth changed");
            for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < Px<T>::ch; ++c) {
                long double e = 0, m = 0; for (int ky = 0; ky < kh; ++ky) for (int kx = 0; kx < kw; ++kx) { int sx = x - (kx - kw / 2), sy = y - (ky - kh / 2); if (sx < 0 || sy < 0 || sx >= w || sy >= h) continue; long double t = (long double)Px<T>::get(im(sx, sy), c) * Px<T>::get(ke(kx, ky), c); e += t; }
                for (std::size_t i = 0; i < im.size(); ++i) m = std::max(m, (long double)std::fabs(Px<T>::get(im[i], c))); long double s = 0; for (std::size_t i = 0; i < ke.size(); ++i) s += std::fabs(Px<T>::get(ke[i], c));
                mc::check(std::fabs(Px<T>::get(g(x, y), c) - e) <= 2e-6L * m * s + 1e-12L, "convolve", "pixel (%d,%d) channel %d is %g expected %.6Lf", x, y, c, Px<T>::get(g(x, y), c), e); }
        };
        for (int i = 0; i < kw * kh; ++i) { Image<T> ke(kw, kh); ke[std::size_t(i)] = Px<T>::make(3, 0); run(src, ke, "impulse", i); }
        Image<T> dense = pattern<T>(kw, kh); run(src, dense, "dense", 0); for (int i = 0; i < w * h; ++i) { Image<T> im(w, h); im[std::size_t(i)] = Px<T>::make(2, 0); run(im, dense, "dense on impulse", i); }
        if (kw == w && kh == h) { Image<T> g = src; mc::at("%s %dx%d with itself", tn, w, h); Image<T> copy = src; g.convolve(g); copy.convolve(src); bool ok = true; for (std::size_t i = 0; i < g.size(); ++i) ok &= same(g[i], copy[i]); mc::check(ok, "convolve-self", "convolution with itself differs from convolution with a copy"); }
    }
    Image<T> e; Image<T> k3 = pattern<T>(3, 3), k9 = pattern<T>(9, 9); mc::at("%s empty image", tn); mc::check(!mc::throws([&] { e.convolve(k3); }) && e.empty(), "convolve-empty", "empty image");
}
// resolutions and pixel coordinates compare and combine component by component
template <class F> static void planar()
{
    static const double D[] = {0.25, 1, 2, -3, 0.5, 7}; const double E = sizeof(F) == 8 ? 1e-14 : 1e-6; auto eq = [&](auto v, double x, double y, const char* what) { mc::check(std::fabs(double(v.x) - x) <= E * (1 + std::fabs(x)) && std::fabs(double(v.y) - y) <= E * (1 + std::fabs(y)), "resolution", "%s is (%.10g, %.10g), expected (%.10g, %.10g)", what, double(v.x), double(v.y), x, y); };
    for (int w : {1, 2, 3, 640, 1921, 65536}) for (int h : {1, 2, 3, 480, 1080, 70001}) { if (!mc::mine()) continue; Resolution r(w, h); for (int w2 : {1, 2, 3, 640, w, h}) for (int h2 : {1, 2, 3, 480, h, w}) { mc::at("resolutions %dx%d and %dx%d", w, h, w2, h2); mc::evaluated(true); Resolution o(w2, h2); mc::check((r == o) == (w == w2 && h == h2) && (o == r) == (r == o), "resolution-equal", "compare %s", r == o ? "equal" : "different"); Resolution c(o), d(1, 1); d = o; d = d; mc::check(c.width == w2 && c.height == h2 && c.x == w2 && c.y == h2 && d.x == w2 && d.y == h2 && d.width == w2 && d.height == h2, "resolution-copy", "a copy is %dx%d", d.x, d.y); c.x = 5; c.y = 6; d.width = 8; d.height = 9; mc::check(o.width == w2 && o.height == h2 && c.width == 5 && c.height == 6 && d.x == 8 && d.y == 9, "resolution-copy", "copies share their members"); }
        for (double a : D) for (double b : D) { mc::at("resolution %dx%d with (%g, %g)", w, h, a, b); mc::evaluated(true); Vec2<F> v{F(a), F(b)}; eq(r * v, w * a, h * b, "resolution * vector"); eq(v * r, w * a, h * b, "vector * resolution"); eq(r / v, w / a, h / b, "resolution / vector"); eq(v / r, a / w, b / h, "vector / resolution"); eq(r * F(a), w * a, h * a, "resolution * number"); eq(F(a) * r, w * a, h * a, "number * resolution"); eq(r / F(a), w / a, h / a, "resolution / number"); eq(F(a) / r, a / w, a / h, "number / resolution"); static_assert(std::is_same_v<decltype(v / r), Vec2<F>> && std::is_same_v<decltype(r * v), Vec2<F>>); } }
    for (double a : D) for (double b : D) for (double c : D) for (double d : D) { if (!mc::mine()) continue; mc::at("pixel coordinates (%g, %g) and (%g, %g)", a, b, c, d); mc::evaluated(true); BasePixel<F> p{F(a), F(b)}, q{F(c), F(d)}; eq(p + q, a + c, b + d, "sum"); eq(p - q, a - c, b - d, "difference"); eq(p * F(c), a * c, b * c, "multiple"); eq(F(c) * p, a * c, b * c, "multiple"); p[0] = F(d); p[1] = F(c); const BasePixel<F>& k = p; mc::check(double(k[0]) == d && double(k[1]) == c && double(p.x) == d && double(p.y) == c && BasePixel<F>{}.x == 0 && BasePixel<F>{}.y == 0, "pixel-index", "components by index"); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    access<float>("float"); access<std::uint8_t>("uint8"); access<Vec3<float>>("vec3"); access<RGB>("RGB");
    if (mc::thorough()) { access<double>("double"); access<std::int32_t>("int32"); access<Visible8>("Visible8"); }
    all_sampling<float>("float"); all_sampling<std::uint8_t>("uint8"); all_sampling<Vec3<float>>("vec3"); all_sampling<RGB>("RGB"); all_sampling<std::uint16_t>("uint16");
    convolution<float>("float"); convolution<RGB>("RGB"); if (mc::thorough()) { convolution<Vec3<float>>("vec3"); convolution<Visible8>("Visible8"); convolution<double>("double"); }
    planar<float>(); planar<double>(); if (mc::mine()) { Image<std::uint8_t> i(3, 3); mc::at("integer convolution"); mc::check(mc::throws([&] { i.convolve(i); }), "convolve-integer", "accepted"); }
    return mc::finish();
}
