// C14: every 8- and 16-bit pixel value, boundary lattices of the wider types, a dense float lattice and non-finite values.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/images/image.hpp"
#include "huira/images/io/convert_pixel.hpp"
#include "huira/images/io/color_space.hpp"
#include "huira/images/color_map.hpp"
#include "mc.hpp"
using namespace huira;
static const std::vector<std::pair<float, float>> ranges = {{0, 1}, {-1, 1}, {0, 255}, {10, 20}, {1, 0}, {-5, -4}, {0, 1e6f}, {1e-3f, 2e-3f}};
template <class T> static std::vector<T> values()
{
    using L = std::numeric_limits<T>; std::vector<T> v;
    if constexpr (sizeof(T) <= 2) { for (long long k = (long long)L::min(); k <= (long long)L::max(); ++k) v.push_back(T(k)); return v; }
    std::set<T> s = {L::min(), L::max(), T(0), T(1)}; for (int b = 0; b < L::digits; ++b) for (int d : {-1, 0, 1}) { T p = T(T(1) << b); s.insert(T(p + T(d))); if (L::is_signed) s.insert(T(T(0) - p + T(d))); }
    for (int d = 0; d < 4; ++d) { s.insert(T(L::max() - T(d))); s.insert(T(L::min() + T(d))); } v.assign(s.begin(), s.end()); return v;
}
static std::vector<float> floats()
{
    std::vector<float> f; const int N = mc::thorough() ? 70000 : 9000; for (int k = -N / 3; k <= N + N / 3; ++k) f.push_back(float(k) / float(N));
    for (float x : {0.f, 1.f, 0.5f, -0.f, 1e-45f, 1e-38f, 1e-10f, -1e-10f, -1e-45f, 1e10f, -1e10f, 3e38f, -3e38f, 2147483648.f, 4294967296.f, 1.8446744e19f}) { f.push_back(x); f.push_back(std::nextafter(x, 1e30f)); f.push_back(std::nextafter(x, -1e30f)); }
    std::sort(f.begin(), f.end()); return f;
}
template <class T> static void integer(const char* tn)
{
    using L = std::numeric_limits<T>; using LD = long double; const LD lo = LD(L::min()), hi = LD(L::max()), w = hi - lo; auto vs = values<T>();
    for (auto [a, b] : ranges) {
        if (!mc::mine()) continue;
        float prev = 0; bool first = true;
        for (T v : vs) {
            mc::at("%s %lld -> [%g,%g]", tn, (long long)v, double(a), double(b)); mc::evaluated(v != L::min() && v != L::max());
            float f = integer_to_float<T>(v, a, b); LD e = LD(a) + (LD(v) - lo) / w * (LD(b) - LD(a)); LD mag = std::max(std::fabs(LD(a)), std::fabs(LD(b)));
            mc::check(std::fabs(LD(f) - e) <= 3e-7L * mag, "to-float", "gives %.9g, expected %.9Lg", double(f), e);
            mc::check(first || (b > a ? f >= prev : f <= prev), "monotone", "not monotone at %lld", (long long)v); prev = f; first = false;
            T back = float_to_integer<T>(f, a, b); LD step = w / std::fabs(LD(b) - LD(a)) * mag * 4e-7L; // how far a float's rounding may move the value
            LD tol = sizeof(T) == 1 ? 0.6L * (step >= 0.5L) : std::ceil(step); if (sizeof(T) == 2 && step < 0.45L) tol = 0;
            mc::check(std::fabs(LD(back) - LD(v)) <= tol, "round-trip", "%lld comes back as %lld", (long long)v, (long long)back);
            if (v == L::min() || v == L::max()) mc::check(back == v && f == (v == L::min() ? a : b), "ends", "the end %lld maps to %g and back to %lld", (long long)v, double(f), (long long)back);
        }
        for (float u : floats()) {
            float x = a + u * (b - a); if (!std::isfinite(x)) continue; mc::at("%s from %.9g in [%g,%g]", tn, double(x), double(a), double(b)); mc::evaluated(u > 0 && u < 1);
            T g = float_to_integer<T>(x, a, b); LD n = (LD(x) - LD(a)) / (LD(b) - LD(a)), e = std::clamp(n, 0.L, 1.L) * w + lo; LD tol = 0.5L + w * 4e-7L * std::max(1.L, std::max(std::fabs(LD(a)), std::fabs(LD(b))) / std::fabs(LD(b) - LD(a))) + 1e-3L;
            mc::check(std::fabs(LD(g) - e) <= tol, "to-integer", "gives %lld, expected %.3Lf", (long long)g, e); if (n <= -1e-6L) mc::check(g == L::min(), "saturate", "below the range gives %lld", (long long)g); if (n >= 1 + 1e-6L) mc::check(g == L::max(), "saturate", "above the range gives %lld", (long long)g);
        }
        { T p{}; bool fi = true; for (float u : floats()) { float x = a + u * (b - a); if (!std::isfinite(x)) continue; T g = float_to_integer<T>(x, a, b); mc::at("%s from %.9g in [%g,%g]", tn, double(x), double(a), double(b)); mc::check(fi || g >= p, "monotone", "falls from %lld to %lld", (long long)p, (long long)g); p = g; fi = false; } }
        mc::at("%s from non-finite in [%g,%g]", tn, double(a), double(b)); float s = b > a ? 1.f : -1.f; mc::check(float_to_integer<T>(s * INFINITY, a, b) == L::max() && float_to_integer<T>(-s * INFINITY, a, b) == L::min(), "saturate", "infinity"); T q = float_to_integer<T>(NAN, a, b); mc::check(q == float_to_integer<T>(NAN, a, b), "nan", "not repeatable");
    }
    if (mc::mine()) for (T v : vs) { mc::at("%s %lld as a pixel", tn, (long long)v); mc::evaluated(true); float f = integer_to_float<T>(v, 0.f, 1.f); mc::check(convert_pixel_to_float<T>(v) == f && integer_to_float<T>(v) == f, "pixel", "default range"); Vec3<float> c = convert_pixel_to_vec3<T>(v); mc::check(c.x == f && c.y == f && c.z == f, "pixel-vec", "(%g,%g,%g)", double(c.x), double(c.y), double(c.z)); T back = convert_float_to_pixel<T>(f); mc::check(back == float_to_integer<T>(f), "pixel", "%lld", (long long)back); T g = convert_vec3_to_pixel<T>(c); LD tol = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : w * 4e-7L; mc::check(std::fabs(LD(g) - LD(v)) <= tol, "gray", "gray %lld comes back as %lld", (long long)v, (long long)g); }
}
static const float lum[3] = {0.2126f, 0.7152f, 0.0722f};
template <class F> static void floating(const char* tn)
{
    for (float r : {0.f, 0.25f, 1.f, 3.f, -1.f}) for (float g : {0.f, 0.5f, 1.f, 2.f, -2.f}) for (float b : {0.f, 0.75f, 1.f, 4.f, -3.f}) {
        mc::at("%s pixel from (%g,%g,%g)", tn, double(r), double(g), double(b)); mc::evaluated(r != g || g != b); float y = lum[0] * r + lum[1] * g + lum[2] * b; Vec3<float> c{r, g, b};
        mc::check(std::fabs(double(convert_vec3_to_pixel<F>(c)) - double(y)) <= 1e-6 * (1 + std::fabs(y)), "gray", "luminance %g, expected %g", double(convert_vec3_to_pixel<F>(c)), double(y));
        auto d = convert_vec3_to_pixel<Vec3<F>>(c); mc::check(d.x == F(r) && d.y == F(g) && d.z == F(b), "colour", "channels moved"); auto bk = convert_pixel_to_vec3<Vec3<F>>(d); mc::check(bk == c, "colour", "channels moved on the way back");
        mc::check(std::fabs(double(convert_pixel_to_float<Vec3<F>>(d)) - double(y)) <= 1e-6 * (1 + std::fabs(y)), "gray", "luminance of a colour pixel"); auto v = convert_float_to_pixel<Vec3<F>>(r); mc::check(v.x == F(r) && v.y == F(r) && v.z == F(r), "spread", "gray to colour"); mc::check(convert_float_to_pixel<F>(r) == F(r) && convert_pixel_to_float<F>(F(r)) == r, "float", "value changed"); auto w = convert_pixel_to_vec3<F>(F(g)); mc::check(w.x == g && w.y == g && w.z == g, "spread", "float to colour");
    }
}
static long double ref_s2l(long double s) { return s <= 0.04045L ? s / 12.92L : std::pow((s + 0.055L) / 1.055L, 2.4L); }
static long double ref_l2s(long double l) { return l <= 0.0031308L ? l * 12.92L : 1.055L * std::pow(l, 1 / 2.4L) - 0.055L; }
static void transfer()
{
    const int N = mc::thorough() ? 2000000 : 200000; float p = -1, q = -1;
    for (int k = 0; k <= N; ++k) { float x = float(k) / float(N); mc::at("transfer of %.9g", double(x)); mc::evaluated(k > 0); float a = srgb_to_linear(x), b = linear_to_srgb(x); mc::check(std::fabs(a - float(ref_s2l(x))) <= 2e-6f && std::fabs(b - float(ref_l2s(x))) <= 2e-6f, "transfer", "srgb_to_linear %g linear_to_srgb %g", double(a), double(b)); mc::check(std::fabs(linear_to_srgb(a) - x) <= 4e-6f && std::fabs(srgb_to_linear(b) - x) <= 4e-6f, "inverse", "%.9g and %.9g come back", double(linear_to_srgb(a)), double(srgb_to_linear(b))); mc::check(a >= p - 2e-7f && b >= q - 2e-7f && a >= 0 && b >= 0 && a <= 1.000001f && b <= 1.000001f, "monotone", "falls"); p = a; q = b;
        if (k % 50 == 0) for (float g : {1.f, 1.8f, 2.2f, 2.4f, 0.5f}) mc::check(std::fabs(gamma_to_linear(x, g) - float(std::pow((long double)x, (long double)g))) <= 1e-6f, "gamma", "gamma %g gives %g", double(g), double(gamma_to_linear(x, g))); }
    for (int v = 0; v < 65536; ++v) { mc::at("16-bit sRGB value %d", v); mc::evaluated(true); float f = integer_to_float<std::uint16_t>(std::uint16_t(v)); int r = float_to_integer<std::uint16_t>(linear_to_srgb(srgb_to_linear(f))); mc::check(std::abs(r - v) <= 1, "inverse16", "comes back as %d", r); if (v < 256) { float e = integer_to_float<std::uint8_t>(std::uint8_t(v)); mc::check(float_to_integer<std::uint8_t>(linear_to_srgb(srgb_to_linear(e))) == v, "inverse8", "8-bit %d changed", v); } }
}
template <class P> static P px(int k);
template <> float px<float>(int k) { return float(k % 11) / 10.f; }
template <> RGB px<RGB>(int k) { return RGB{float(k % 11) / 10.f, float(k * 3 % 11) / 10.f, float(k * 7 % 11) / 10.f}; }
static float comp(float p, int) { return p; }
static float comp(const RGB& p, int c) { return p[std::size_t(c)]; }
template <class P> static void bundles(const char* tn)
{
    const int CH = std::is_same_v<P, float> ? 1 : 3;
    for (int w = 0; w <= 4; ++w) for (int h = 0; h <= 4; ++h) for (int al = 0; al < 2; ++al) for (int dir = 0; dir < 2; ++dir) {
        if (!mc::mine()) continue;
        mc::at("%s bundle %dx%d%s to %s", tn, w, h, al ? " with alpha" : "", dir ? "linear" : "sRGB"); mc::evaluated(w * h > 1); Image<P> im(w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im(x, y) = px<P>(y * w + x); Image<float> a; if (al) { a = Image<float>(w, h); for (std::size_t i = 0; i < a.size(); ++i) a[i] = float(i % 7) / 7.f; }
        ImageBundle<P> b(im, a); b.color_space = dir ? ColorSpaceHint::sRGB : ColorSpaceHint::Linear; ImageBundle<P> o = dir ? srgb_to_linear(b) : linear_to_srgb(b); mc::check(o.color_space == (dir ? ColorSpaceHint::Linear : ColorSpaceHint::sRGB), "hint", "colour space hint"); mc::check(o.image.width() == w && o.image.height() == h && o.image.size() == im.size() && o.alpha.size() == a.size(), "size", "size");
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { for (int c = 0; c < CH; ++c) { float s = comp(im(x, y), c), e = dir ? srgb_to_linear(s) : linear_to_srgb(s); mc::check(std::fabs(comp(o.image(x, y), c) - e) <= 1e-6f, "pixel", "(%d,%d) channel %d is %g, expected %g", x, y, c, double(comp(o.image(x, y), c)), double(e)); mc::check(comp(b.image(x, y), c) == s, "input", "input changed"); } if (al) mc::check(o.alpha(x, y) == a(x, y), "alpha", "alpha (%d,%d) changed", x, y); }
        ImageBundle<P> r = dir ? linear_to_srgb(o) : srgb_to_linear(o); for (std::size_t i = 0; i < im.size(); ++i) for (int c = 0; c < CH; ++c) mc::check(std::fabs(comp(r.image[i], c) - comp(im[i], c)) <= 4e-6f, "inverse", "pixel %zu", i);
    }
}
static void maps()
{
    std::vector<float> alpha = {0.f, 0.5f, 1.f, 2.f, 10.f, 1e6f, INFINITY}; const int W = 2, H = 2; const int A = int(alpha.size());
    for (int code = 0; code < A * A * A * A; ++code) {
        if (!mc::mine()) continue;
        float d[4]; int c = code; for (float& x : d) { x = alpha[std::size_t(c % A)]; c /= A; } mc::at("depth map of %g %g %g %g", double(d[0]), double(d[1]), double(d[2]), double(d[3])); Image<float> im(W, H); for (std::size_t i = 0; i < 4; ++i) im[i] = d[i]; Image<RGB> o = depth_map(im); mc::check(o.width() == W && o.height() == H, "size", "size"); float lo = INFINITY, hi = 0; for (float x : d) if (std::isfinite(x)) { lo = std::min(lo, x); hi = std::max(hi, x); } mc::evaluated(hi > lo);
        for (std::size_t i = 0; i < 4; ++i) { for (std::size_t k = 0; k < 3; ++k) mc::check(std::isfinite(o[i][k]) && o[i][k] >= 0 && o[i][k] <= 1 && o[i][k] == o[i][0], "depth-range", "pixel %zu is %g", i, double(o[i][k])); if (std::isinf(d[i])) mc::check(o[i][0] == 1, "depth-background", "pixel %zu is %g", i, double(o[i][0])); for (std::size_t j = 0; j < 4; ++j) mc::check(!(d[i] < d[j]) || o[i][0] <= o[j][0], "depth-order", "depth %g is brighter than %g", double(d[i]), double(d[j])); for (std::size_t j = 0; j < 4; ++j) mc::check(!(std::isinf(d[j]) && std::isfinite(d[i])) || o[i][0] < o[j][0], "depth-background", "an object is as bright as the background"); if (hi > lo && std::isfinite(d[i])) mc::check(std::fabs(o[i][0] - 0.8f * (d[i] - lo) / (hi - lo)) < 1e-5f, "depth-value", "pixel %zu is %g", i, double(o[i][0])); }
    }
    if (!mc::mine()) return;
    for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) for (int z = -2; z <= 2; ++z) { mc::at("normal (%d,%d,%d)/2", x, y, z); mc::evaluated(true); Image<Vec3<float>> n(2, 1); n[1] = Vec3<float>{float(x) / 2, float(y) / 2, float(z) / 2}; Image<RGB> o = normal_map(n); mc::check(o.width() == 2 && o.height() == 1, "size", "size"); for (int c = 0; c < 3; ++c) mc::check(std::fabs(o[1][std::size_t(c)] - (n[1][c] * 0.5f + 0.5f)) < 1e-6f && o[0][std::size_t(c)] == 0.5f, "normal", "channel %d is %g", c, double(o[1][std::size_t(c)])); }
    for (int w = 0; w < 4; ++w) for (int h = 0; h < 4; ++h) { mc::at("spectral image %dx%d", w, h); mc::evaluated(w * h > 1); Image<RGB> im(w, h); for (std::size_t i = 0; i < im.size(); ++i) im[i] = px<RGB>(int(i)); Image<RGB> same = rgb_to_spectral<RGB>(im); Image<Visible8> s = rgb_to_spectral<Visible8>(im); mc::check(s.width() == w && s.height() == h && same.width() == w && same.height() == h, "size", "size"); for (std::size_t i = 0; i < im.size(); ++i) { Visible8 e = convert_rgb_to_spectral<Visible8>(im[i]); bool ok = true; for (std::size_t k = 0; k < 3; ++k) ok = ok && same[i][k] == im[i][k]; for (std::size_t k = 0; k < Visible8::size(); ++k) ok = ok && s[i][k] == e[k]; mc::check(ok, "spectral", "pixel %zu", i); }
        Image<Visible8> u = rgb_to_spectral<Visible8>(im, [](RGB p) { return Visible8(p[1]); }); for (std::size_t i = 0; i < im.size(); ++i) mc::check(u[i][0] == im[i][1], "spectral", "own conversion not used"); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    integer<std::uint8_t>("uint8"); integer<std::int8_t>("int8"); integer<std::uint16_t>("uint16"); integer<std::int16_t>("int16"); integer<std::uint32_t>("uint32"); integer<std::int32_t>("int32"); integer<std::uint64_t>("uint64"); integer<std::int64_t>("int64");
    if (mc::mine()) floating<float>("float"); if (mc::mine()) floating<double>("double"); if (mc::mine()) transfer(); bundles<float>("float"); bundles<RGB>("rgb"); maps();
    return mc::finish();
}
