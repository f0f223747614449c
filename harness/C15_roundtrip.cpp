// C15: every small size x format x depth x layout over a value lattice, all 65536 levels, colour-space tags, mismatched alpha, read order, and every point at which a write can fail.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/images/image.hpp"
#include "huira/images/io/png_io.hpp"
#include "huira/images/io/jpeg_io.hpp"
#include "huira/images/io/tiff_io.hpp"
#include "huira/images/io/read_image.hpp"
#include <sys/resource.h>
#include <csignal>
#include "mc.hpp"
using namespace huira;
enum Fmt { PNG, TIFF_, JPEG }; static const char* fname[] = {"png", "tiff", "jpg"};
static void write(Fmt f, const fs::path& p, const ImageBundle<RGB>& b, int q = 95) { if (f == PNG) write_image_png(p, b); else if (f == TIFF_) write_image_tiff(p, b); else write_image_jpeg(p, b, q); }
static void write(Fmt f, const fs::path& p, const ImageBundle<float>& b, int q = 95) { if (f == PNG) write_image_png(p, b); else if (f == TIFF_) write_image_tiff(p, b); else write_image_jpeg(p, b, q); }
static ImageBundle<RGB> rd(Fmt f, const fs::path& p, bool a = true) { return f == PNG ? read_image_png(p, a) : f == TIFF_ ? read_image_tiff_rgb(p, a) : read_image_jpeg(p); }
static ImageBundle<float> rdm(Fmt f, const fs::path& p, bool a = true) { return f == PNG ? read_image_png_mono(p, a) : f == TIFF_ ? read_image_tiff_mono(p, a) : read_image_jpeg_mono(p); }
static const float lat[] = {0.f, 1.f, 0.5f, 0.25f, 1.f / 255, 254.f / 255, 0.1f, 0.9999f, 1e-6f, 0.499f / 255, 0.501f / 255, 100.49f / 255, 100.51f / 255, -0.5f, 1.5f, 1e9f, -1e9f, INFINITY, -INFINITY, 1.f / 65535, 32767.49f / 65535, 0.33333f};
static const int NL = int(sizeof(lat) / sizeof(*lat));
// a value may be stored as the nearest level (either one at a tie)
static bool stored(float v, float got, int depth) { double mx = depth == 16 ? 65535 : 255, x = std::clamp(double(v), 0.0, 1.0) * mx, g = double(got) * mx; return std::fabs(g - std::round(g)) < 1e-2 && std::fabs(std::round(g) - x) <= 0.5 + 1e-3 * (depth == 16 ? 10 : 1); }
static std::string tmp(const char* ext, int k = 0) { return mc::S().scratch + mc::fmt("/s%d_%d.", mc::S().shard, k) + ext; }
template <class A, class B> static bool same(const A& a, const B& b) { if (a.image.width() != b.image.width() || a.image.height() != b.image.height() || a.alpha.size() != b.alpha.size()) return false; for (std::size_t i = 0; i < a.image.size(); ++i) if (std::memcmp(&a.image[i], &b.image[i], sizeof(a.image[i]))) return false; for (std::size_t i = 0; i < a.alpha.size(); ++i) if (a.alpha[i] != b.alpha[i]) return false; return a.color_space == b.color_space; }
static void lossless(int M)
{
    for (Fmt f : {PNG, TIFF_}) for (int depth : {8, 16}) for (int w = 1; w <= M; ++w) for (int h = 1; h <= M; ++h) for (int al = 0; al < (f == PNG ? 2 : 1); ++al) for (int ph = 0; ph < 3; ++ph) {
        if (!mc::mine()) continue; std::string p = tmp(fname[f]); auto v = [&](int i, int c) { return lat[(i * 3 + c * 5 + ph * 7) % NL]; };
        mc::at("%s %d bits %dx%d%s values %d", fname[f], depth, w, h, al ? " with alpha" : "", ph); mc::evaluated(w * h > 1);
        ImageBundle<RGB> b{Image<RGB>(w, h)}; b.bit_depth = depth; for (std::size_t i = 0; i < b.image.size(); ++i) b.image[i] = RGB{v(int(i), 0), v(int(i), 1), v(int(i), 2)}; if (al) { b.alpha = Image<float>(w, h); for (std::size_t i = 0; i < b.alpha.size(); ++i) b.alpha[i] = v(int(i), 3); }
        write(f, p, b); auto r = rd(f, p), r0 = rd(f, p, false), g = read_image(fs::path(p)); auto m = rdm(f, p), gm = read_image_mono(fs::path(p));
        mc::check(r.image.width() == w && r.image.height() == h && m.image.width() == w && m.image.height() == h, "size", "comes back as %dx%d", r.image.width(), r.image.height()); if (r.image.size() != b.image.size() || m.image.size() != b.image.size()) continue;
        for (std::size_t i = 0; i < b.image.size(); ++i) { for (std::size_t c = 0; c < 3; ++c) mc::check(stored(b.image[i][c], r.image[i][c], depth), "pixel", "pixel %zu channel %zu: %.7g comes back as %.7g", i, c, double(b.image[i][c]), double(r.image[i][c])); mc::check(std::fabs(m.image[i] - (r.image[i][0] + r.image[i][1] + r.image[i][2]) / 3) < 1e-6f, "mono", "pixel %zu is %g", i, double(m.image[i])); }
        mc::check((r.alpha.size() != 0) == (al != 0) && r0.alpha.size() == 0 && (m.alpha.size() != 0) == (al != 0), "alpha", "alpha %s", r.alpha.size() ? "appears" : "is lost"); if (al && r.alpha.size() == b.alpha.size() && m.alpha.size() == b.alpha.size()) for (std::size_t i = 0; i < b.alpha.size(); ++i) mc::check(stored(b.alpha[i], r.alpha[i], depth) && m.alpha[i] == r.alpha[i], "alpha", "alpha %zu: %g comes back as %g", i, double(b.alpha[i]), double(r.alpha[i]));
        r0.alpha = r.alpha; mc::check(same(r, r0) && same(g, r) && same(gm, m), "generic", "the generic reader or the reader without alpha gives other pixels");
        // again: what was read is stored unchanged
        r.bit_depth = depth; write(f, p, r); mc::check(same(rd(f, p), r), "idempotent", "a second round trip changes the image");
        // gray
        ImageBundle<float> gb{Image<float>(w, h)}; gb.bit_depth = depth; for (std::size_t i = 0; i < gb.image.size(); ++i) gb.image[i] = v(int(i), 1); if (al) gb.alpha = b.alpha; write(f, p, gb); auto q = rdm(f, p); auto qc = rd(f, p); mc::check(q.image.size() == gb.image.size() && qc.image.size() == gb.image.size() && q.image.width() == w, "size", "gray size"); for (std::size_t i = 0; i < gb.image.size() && i < q.image.size(); ++i) mc::check(stored(gb.image[i], q.image[i], depth) && stored(gb.image[i], qc.image[i][0], depth) && qc.image[i][0] == qc.image[i][2], "gray", "pixel %zu: %g comes back as %g", i, double(gb.image[i]), double(q.image[i])); mc::check((q.alpha.size() != 0) == (al != 0), "alpha", "gray alpha");
        // the file may hold anything before
        { std::ofstream o(p, std::ios::binary); for (int k = 0; k < 4000; ++k) o.put('x'); } write(f, p, b); mc::check(same(rd(f, p), [&] { auto z = r; return z; }()), "overwrite", "an existing file shows through");
    }
}
static void levels()
{
    for (Fmt f : {PNG, TIFF_}) for (int depth : {8, 16}) for (int mono = 0; mono < 2; ++mono) { if (!mc::mine()) continue; std::string p = tmp(fname[f]); int n = depth == 16 ? 256 : 16; double mx = depth == 16 ? 65535 : 255;
        for (int off = -1; off <= 1; ++off) { Image<float> g(n, n); for (int i = 0; i < n * n; ++i) g[std::size_t(i)] = float((i + 0.3 * off) / mx); ImageBundle<float> b{g}; b.bit_depth = depth; ImageBundle<RGB> c{Image<RGB>(n, n)}; c.bit_depth = depth; for (int i = 0; i < n * n; ++i) { std::size_t k = std::size_t(i); c.image[k] = RGB{g[k], g[std::size_t(n * n - 1 - i)], g[(k * 7) % std::size_t(n * n)]}; } if (mono) write(f, p, b); else write(f, p, c); auto r = rd(f, p); for (int i = 0; i < n * n; ++i) { mc::at("%s %d bits level %d%+.1f", fname[f], depth, i, 0.3 * off); mc::evaluated(true); std::size_t k = std::size_t(i); auto lv = [&](float x) { return int(std::lround(double(x) * mx)); }; if (mono) mc::check(lv(r.image[k][0]) == i && lv(r.image[k][1]) == i, "level", "comes back as %d", lv(r.image[k][0])); else mc::check(lv(r.image[k][0]) == i && lv(r.image[k][1]) == n * n - 1 - i && lv(r.image[k][2]) == int((k * 7) % std::size_t(n * n)), "level", "comes back as %d %d %d", lv(r.image[k][0]), lv(r.image[k][1]), lv(r.image[k][2])); } } }
    // wide and tall
    for (Fmt f : {PNG, TIFF_}) for (auto [w, h] : std::vector<std::pair<int, int>>{{1000, 1}, {1, 1000}, {257, 3}, {8193, 2}, {64, 64}, {63, 65}}) { if (!mc::mine()) continue; for (int depth : {8, 16}) { mc::at("%s %dx%d", fname[f], w, h); mc::evaluated(true); std::string p = tmp(fname[f]); ImageBundle<RGB> b{Image<RGB>(w, h)}; b.bit_depth = depth; for (std::size_t i = 0; i < b.image.size(); ++i) b.image[i] = RGB{float(i * 37 % 256) / 255, float(i * 91 % 256) / 255, float(i * 11 % 256) / 255}; write(f, p, b); auto r = rd(f, p); bool ok = r.image.width() == w && r.image.height() == h; for (std::size_t i = 0; ok && i < b.image.size(); ++i) for (std::size_t c = 0; c < 3; ++c) ok = ok && std::fabs(r.image[i][c] - b.image[i][c]) < 1e-5f; mc::check(ok, "pixel", "changed"); } }
}
static void tags()
{
    std::string p = tmp("png"); for (auto cs : {ColorSpaceHint::sRGB, ColorSpaceHint::Linear, ColorSpaceHint::Gamma, ColorSpaceHint::Unknown}) for (float g : {1.8f, 2.2f, 2.6f, 1.4f, 3.f}) for (int depth : {8, 16}) for (int kind = 0; kind < 2; ++kind) { if (cs != ColorSpaceHint::Gamma && g != 1.8f) continue; mc::at("png colour space %d gamma %g", int(cs), double(g)); mc::evaluated(true); ImageBundle<RGB> b{Image<RGB>(2, 2, RGB{0.2f, 0.4f, 0.6f})}; b.bit_depth = depth; b.color_space = cs; b.gamma_value = g; ImageBundle<float> m{Image<float>(2, 2, 0.4f)}; m.bit_depth = depth; m.color_space = cs; m.gamma_value = g; if (kind) write_image_png(p, m); else write_image_png(p, b); auto r = read_image_png(fs::path(p)); auto rm = read_image_png_mono(fs::path(p)); if (cs == ColorSpaceHint::sRGB || cs == ColorSpaceHint::Linear) mc::check(r.color_space == cs && rm.color_space == cs, "tag", "comes back as %d", int(r.color_space)); if (cs == ColorSpaceHint::Gamma) mc::check(g == 2.2f ? r.color_space == ColorSpaceHint::sRGB || std::fabs(r.gamma_value - g) < 0.01f : r.color_space == cs && std::fabs(r.gamma_value - g) < 0.01f && rm.color_space == cs && std::fabs(rm.gamma_value - g) < 0.01f, "gamma", "comes back as %d %g", int(r.color_space), double(r.gamma_value)); mc::check(stored(0.4f, r.image[0][1], depth) && stored(kind ? 0.4f : 0.2f, r.image[0][0], depth), "tag-pixel", "the tag changes the stored values"); }
    // refusals: empty images, depths, and an alpha of another size is left out
    for (Fmt f : {PNG, TIFF_, JPEG}) for (int w : {0, 3}) for (int h : {0, 2}) { if (w && h) continue; mc::at("empty %s %dx%d", fname[f], w, h); mc::evaluated(true); ImageBundle<RGB> b{Image<RGB>(w, h)}; ImageBundle<float> m{Image<float>(w, h)}; std::string q = tmp(fname[f], 9); mc::check(mc::throws([&] { write(f, q, b); (void)rd(f, q); }) && mc::throws([&] { write(f, q, m); (void)rdm(f, q); }), "empty", "accepted"); }
    for (Fmt f : {PNG, TIFF_}) for (int d : {-1, 0, 1, 4, 7, 9, 12, 15, 17, 24, 32}) { mc::at("%s bit depth %d", fname[f], d); mc::evaluated(true); ImageBundle<RGB> b{Image<RGB>(2, 2)}; b.bit_depth = d; mc::check(mc::throws([&] { write(f, tmp(fname[f], 9), b); }), "depth", "accepted"); }
    for (int q : {-1, 0, 101, 1000}) { mc::at("jpeg quality %d", q); mc::evaluated(true); ImageBundle<RGB> b{Image<RGB>(2, 2)}; ImageBundle<float> m{Image<float>(2, 2)}; mc::check(mc::throws([&] { write(JPEG, tmp("jpg", 9), b, q); }) && mc::throws([&] { write(JPEG, tmp("jpg", 9), m, q); }), "quality", "accepted"); }
    for (auto [w, h] : std::vector<std::pair<int, int>>{{1, 2}, {2, 1}, {3, 3}}) { mc::at("alpha of another size"); mc::evaluated(true); ImageBundle<RGB> b{Image<RGB>(2, 2, RGB{1, 0, 0})}; b.alpha = Image<float>(w, h); write_image_png(tmp("png"), b); auto r = read_image_png(fs::path(tmp("png"))); mc::check(r.alpha.size() == 0 && r.image.size() == 4 && r.image[3][0] == 1, "alpha-size", "stored"); }
    // directories are made, and a place that cannot be written is refused
    for (Fmt f : {PNG, TIFF_, JPEG}) { ImageBundle<RGB> b{Image<RGB>(2, 2, RGB{1, 0.5f, 0})}; std::string q = mc::S().scratch + mc::fmt("/d%d/e/%s/x.", mc::S().shard, fname[f]) + fname[f]; mc::at("%s into new directories", fname[f]); mc::evaluated(true); mc::check(!mc::throws([&] { write(f, q, b); }) && fs::exists(q) && rd(f, q).image.size() == 4, "directory", "not written"); mc::check(mc::throws([&] { write(f, q + "/y." + fname[f], b); }), "directory", "a path below a file is accepted"); }
    // spectral images become the mean of their bins
    for (int w = 1; w <= 3; ++w) for (int h = 1; h <= 3; ++h) { mc::at("spectral tiff %dx%d", w, h); mc::evaluated(true); ImageBundle<Visible8> b{Image<Visible8>(w, h)}; b.bit_depth = 16; for (std::size_t i = 0; i < b.image.size(); ++i) for (std::size_t k = 0; k < 8; ++k) b.image[i][k] = float(i + 1) * float(k) / 100; write_image_tiff(tmp("tiff"), b, "d", "a"); auto r = read_image_tiff_mono(fs::path(tmp("tiff"))); for (std::size_t i = 0; i < b.image.size(); ++i) mc::check(std::fabs(r.image[i] - float(i + 1) * 0.035f) < 2e-5f, "spectral", "pixel %zu is %g", i, double(r.image[i])); }
}
static void lossy()
{
    const int M = mc::thorough() ? 20 : 9; for (int w = 1; w <= M; ++w) for (int h = 1; h <= M; ++h) { if (!mc::mine()) continue; std::string p = tmp("jpg"); for (int q : {100, 95, 50}) for (int pat = 0; pat < 3; ++pat) { mc::at("jpeg %dx%d quality %d pattern %d", w, h, q, pat); mc::evaluated(w * h > 1); ImageBundle<RGB> b{Image<RGB>(w, h)}; ImageBundle<float> g{Image<float>(w, h)}; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { float a = pat == 0 ? 0.6f : pat == 1 ? 0.2f + 0.6f * float(x + 2 * y) / float(w + 2 * h) : float((x * 7 + y * 13) % 11) / 10; b.image(x, y) = pat == 2 ? RGB{a, 1 - a, 0.5f} : RGB{a, a * 0.5f, 1 - a}; g.image(x, y) = a; } float tol = q == 100 ? 0.02f : q == 95 ? (pat == 2 ? 0.12f : 0.04f) : pat == 2 ? 1.f : 0.15f; write(JPEG, p, b, q); auto r = read_image_jpeg(fs::path(p)); auto gr = read_image(fs::path(p)); mc::check(r.image.width() == w && r.image.height() == h && r.alpha.size() == 0 && same(r, gr), "size", "%dx%d", r.image.width(), r.image.height()); double worst = 0; for (std::size_t i = 0; i < b.image.size() && i < r.image.size(); ++i) for (std::size_t c = 0; c < 3; ++c) worst = std::max(worst, double(std::fabs(r.image[i][c] - b.image[i][c]))); mc::check(worst <= tol, "lossy", "off by %g", worst);
            write(JPEG, p, g, q); auto m = read_image_jpeg_mono(fs::path(p)); auto gm = read_image_mono(fs::path(p)); mc::check(m.image.width() == w && m.image.height() == h && same(m, gm), "size", "mono"); worst = 0; for (std::size_t i = 0; i < g.image.size() && i < m.image.size(); ++i) worst = std::max(worst, double(std::fabs(m.image[i] - g.image[i]))); mc::check(worst <= tol, "lossy", "gray off by %g", worst); } }
    for (int r = 0; r < 6; ++r) for (int g = 0; g < 6; ++g) for (int b = 0; b < 6; ++b) { if (!mc::mine()) continue; mc::at("jpeg constant %d %d %d", r, g, b); mc::evaluated(true); RGB c{float(r) / 5, float(g) / 5, float(b) / 5}; ImageBundle<RGB> im{Image<RGB>(9, 8, c)}; write(JPEG, tmp("jpg"), im, 100); auto o = read_image_jpeg(fs::path(tmp("jpg"))); bool ok = o.image.size() == 72; for (std::size_t i = 0; ok && i < 72; ++i) for (std::size_t k = 0; k < 3; ++k) ok = ok && std::fabs(o.image[i][k] - c[k]) < 0.013f; mc::check(ok, "colour", "comes back as %g %g %g", double(o.image[0][0]), double(o.image[0][1]), double(o.image[0][2])); }
}
static void order()
{ // a read does not depend on earlier reads: every pair and triple of reads over 9 files (three of them damaged)
    std::vector<std::pair<std::string, int>> files; int k = 20; for (Fmt f : {PNG, TIFF_, JPEG}) for (int d : {8, 16}) { if (f == JPEG && d == 16) continue; ImageBundle<RGB> b{Image<RGB>(3, 2)}; b.bit_depth = d; for (std::size_t i = 0; i < 6; ++i) b.image[i] = RGB{float(i) / 6, 0.3f, 1 - float(i) / 6}; if (f == PNG) b.alpha = Image<float>(3, 2, 0.5f); if (d == 16) b.color_space = ColorSpaceHint::Linear; std::string p = tmp(fname[f], k++); write(f, p, b); files.push_back({p, int(f)}); std::string q = tmp(fname[f], k++); fs::copy_file(p, q, fs::copy_options::overwrite_existing); if (d == 8) { fs::resize_file(q, fs::file_size(q) * 2 / 3); files.push_back({q, int(f)}); } }
    using R = std::pair<bool, ImageBundle<RGB>>; auto one = [&](const std::string& p) { R r{true, {}}; try { r.second = read_image(fs::path(p)); } catch (const std::exception&) { r.first = false; } return r; }; std::vector<R> ref; for (auto& f : files) ref.push_back(one(f.first)); int n = int(files.size()); int T = n * n * n; for (int c = 0; c < T; ++c) { if (!mc::mine()) continue; int q = c; std::string s; for (int i = 0; i < 3; ++i) { s += std::to_string(q % n) + " "; q /= n; } mc::at("reads %s", s.c_str()); mc::evaluated(true); q = c; for (int i = 0; i < 3; ++i) { R r = one(files[std::size_t(q % n)].first); mc::check(r.first == ref[std::size_t(q % n)].first && (!r.first || same(r.second, ref[std::size_t(q % n)].second)), "order", "read %d differs", i); q /= n; } }
}
static void failures()
{
    std::signal(SIGXFSZ, SIG_IGN); rlimit old; getrlimit(RLIMIT_FSIZE, &old);
    for (Fmt f : {PNG, TIFF_, JPEG}) for (int depth : {8, 16}) for (int mono = 0; mono < 2; ++mono) for (int big = 0; big < 2; ++big) { if (f == JPEG && depth == 16) continue; if (!mc::mine()) continue; int w = big ? 90 : 4, h = big ? 40 : 3; ImageBundle<RGB> b{Image<RGB>(w, h)}; ImageBundle<float> m{Image<float>(w, h)}; b.bit_depth = m.bit_depth = depth; for (std::size_t i = 0; i < b.image.size(); ++i) { m.image[i] = float(i * 7919 % 251) / 250; b.image[i] = RGB{m.image[i], float(i * 31 % 17) / 16, 0.5f}; } std::string p = tmp(fname[f], 40); auto wr = [&] { if (mono) write(f, p, m); else write(f, p, b); }; fs::remove(p); wr(); std::uintmax_t full = fs::file_size(p); std::uintmax_t step = full > 4000 ? (mc::thorough() ? 7 : 211) : 1;
        for (std::uintmax_t k = 0; k < full; k = (full - k <= 2 * step ? k + 1 : k + step)) { mc::at("%s %d bits %s %dx%d: no space after %zu of %zu bytes", fname[f], depth, mono ? "gray" : "colour", w, h, std::size_t(k), std::size_t(full)); mc::evaluated(k > 0); fs::remove(p); rlimit l = old; l.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &l); bool t = mc::throws(wr); setrlimit(RLIMIT_FSIZE, &old); mc::check(t, "write-failure", "the failed write is not reported"); }
        mc::at("%s after failed writes", fname[f]); mc::check(!mc::throws(wr) && fs::file_size(p) == full, "after-failure", "a later write fails"); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    lossless(mc::thorough() ? 9 : 5); levels(); if (mc::mine()) tags(); lossy(); order(); failures();
    return mc::finish();
}
