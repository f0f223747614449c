// Shared by C19 and C44: PNG, TIFF and JPEG files written with the codecs' own libraries, with the pixels they stand for.
#pragma once
#include "imgbad.hpp"
#include "huira/images/io/png_io.hpp"
#include "huira/images/io/jpeg_io.hpp"
#include "huira/images/io/tiff_io.hpp"
#include "huira/images/io/read_image.hpp"
#include <zlib.h>
using Rgb = std::function<ImageBundle<RGB>(const unsigned char*, std::size_t, bool)>; using Mono = std::function<ImageBundle<float>(const unsigned char*, std::size_t, bool)>;
struct Base { bool deep = true; std::string name; Bytes f; Ref ref; ImageFormat fmt; float tol = 1e-6f; ColorSpaceHint cs = ColorSpaceHint::sRGB; };
static std::vector<Base> all;
static std::string tmp(const char* e) { return mc::S().scratch + mc::fmt("/c%d.", mc::S().shard) + e; }
static Bytes slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(i), {}); }
static unsigned raw(int i, int c, unsigned mx) { return unsigned(i * 2654435761u + unsigned(c) * 40503u + 977u) % (mx + 1); }
static void png(int type, int depth, int w, int h, bool inter, bool trns, int gamma = 0)
{
    std::string p = tmp("png"); FILE* fp = fopen(p.c_str(), "wb"); png_structp s = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr); png_infop in = png_create_info_struct(s); png_init_io(s, fp); png_set_IHDR(s, in, unsigned(w), unsigned(h), depth, type, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    unsigned mx = (1u << depth) - 1; int ch = type == PNG_COLOR_TYPE_GRAY || type == PNG_COLOR_TYPE_PALETTE ? 1 : type == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : type == PNG_COLOR_TYPE_RGB ? 3 : 4; int np = int(std::min(mx + 1, 7u)); png_color pal[7]; png_byte tr[7]; for (int i = 0; i < 7; ++i) { pal[i] = {(png_byte)(i * 40 + 3), (png_byte)(255 - i * 30), (png_byte)(i * 17)}; tr[i] = (png_byte)(i * 36); }
    png_color_16 key{}; key.gray = (png_uint_16)raw(1, 0, mx); key.red = (png_uint_16)raw(1, 0, mx); key.green = (png_uint_16)raw(1, 1, mx); key.blue = (png_uint_16)raw(1, 2, mx); if (type == PNG_COLOR_TYPE_PALETTE) png_set_PLTE(s, in, pal, np); if (trns) png_set_tRNS(s, in, tr, type == PNG_COLOR_TYPE_PALETTE ? np - 1 : 0, &key); if (gamma == 1) png_set_gAMA(s, in, 1.0); if (gamma == 2) png_set_sRGB(s, in, 0); if (gamma == 3) png_set_gAMA(s, in, 0.6); png_write_info(s, in); if (depth == 16) png_set_swap(s);
    Base b; b.ref.w = w; b.ref.h = h; b.ref.kind = Ref::OK; b.ref.alpha = trns || ch == 2 || ch == 4; std::vector<Bytes> rows; for (int y = 0; y < h; ++y) { Bytes r((std::size_t(w) * std::size_t(ch) * std::size_t(depth) + 7) / 8 + 8); for (int x = 0; x < w; ++x) { unsigned v[4]; for (int c = 0; c < ch; ++c) { v[c] = raw(y * w + x, c, mx); if (type == PNG_COLOR_TYPE_PALETTE) v[0] %= unsigned(np); std::size_t i = std::size_t(x * ch + c); if (depth == 16) std::memcpy(&r[i * 2], &(const std::uint16_t&)(std::uint16_t)v[c], 2); else if (depth == 8) r[i] = (unsigned char)v[c]; else { std::size_t bit = i * std::size_t(depth); r[bit / 8] |= (unsigned char)(v[c] << (8 - depth - int(bit % 8))); } } std::array<float, 4> q; if (type == PNG_COLOR_TYPE_PALETTE) q = {pal[v[0]].red / 255.f, pal[v[0]].green / 255.f, pal[v[0]].blue / 255.f, trns && int(v[0]) < np - 1 ? tr[v[0]] / 255.f : 1.f}; else { float m = float(mx); q = {float(v[0]) / m, float(v[ch >= 3 ? 1 : 0]) / m, float(v[ch >= 3 ? 2 : 0]) / m, 1}; if (ch == 2 || ch == 4) q[3] = float(v[ch - 1]) / m; else if (trns && (ch == 1 ? v[0] == key.gray : v[0] == key.red && v[1] == key.green && v[2] == key.blue)) q[3] = 0; } b.ref.px.push_back(q); } rows.push_back(r); }
    std::vector<png_bytep> rp; for (auto& r : rows) rp.push_back(r.data()); png_write_image(s, rp.data()); png_write_end(s, nullptr); png_destroy_write_struct(&s, &in); fclose(fp); b.f = slurp(p); b.fmt = IMAGE_FORMAT_PNG; b.cs = gamma == 1 ? ColorSpaceHint::Linear : gamma == 3 ? ColorSpaceHint::Gamma : ColorSpaceHint::sRGB; b.name = mc::fmt("PNG type %d depth %d %dx%d%s%s gamma %d", type, depth, w, h, inter ? " interlaced" : "", trns ? " tRNS" : "", gamma); all.push_back(b);
}
static void tiff(int photo, int depth, bool flt, int ch, int extra, bool planar, bool tiled, int comp, int w, int h, int rps, const char* mode = "w")
{
    std::string p = tmp("tif"); TIFF* t = TIFFOpen(p.c_str(), mode); if (!t) { mc::check(false, "setup", "cannot write"); return; } TIFFSetField(t, TIFFTAG_IMAGEWIDTH, unsigned(w)); TIFFSetField(t, TIFFTAG_IMAGELENGTH, unsigned(h)); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, ch); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, depth); TIFFSetField(t, TIFFTAG_PLANARCONFIG, planar ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG); TIFFSetField(t, TIFFTAG_PHOTOMETRIC, photo); TIFFSetField(t, TIFFTAG_SAMPLEFORMAT, flt ? SAMPLEFORMAT_IEEEFP : SAMPLEFORMAT_UINT); TIFFSetField(t, TIFFTAG_COMPRESSION, comp); if (extra) { std::uint16_t e = (std::uint16_t)extra; TIFFSetField(t, TIFFTAG_EXTRASAMPLES, 1, &e); }
    std::uint16_t pal[3][256]; if (photo == PHOTOMETRIC_PALETTE) { for (int i = 0; i < 256; ++i) { pal[0][i] = (std::uint16_t)(i * 257); pal[1][i] = (std::uint16_t)((255 - i) * 257); pal[2][i] = (std::uint16_t)((i * 7 % 256) * 257); } TIFFSetField(t, TIFFTAG_COLORMAP, pal[0], pal[1], pal[2]); }
    if (tiled) { TIFFSetField(t, TIFFTAG_TILEWIDTH, 16); TIFFSetField(t, TIFFTAG_TILELENGTH, 16); } else TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, rps);
    std::size_t bs = std::size_t(depth / 8); auto sample = [&](int x, int y, int c, unsigned char* o) -> float { int i = y * w + x; if (flt) { float v = float(raw(i, c, 1000)) / 400 - 0.5f; std::memcpy(o, &v, 4); return v; } if (depth == 8) { unsigned v = raw(i, c, 255); *o = (unsigned char)v; return float(v) / 255; } if (depth == 16) { std::uint16_t v = (std::uint16_t)raw(i, c, 65535); std::memcpy(o, &v, 2); return float(v) / 65535; } std::uint32_t v = raw(i, c, 0xffffffffu - 1); std::memcpy(o, &v, 4); return float(double(v) / 4294967295.0); };
    int TW = tiled ? 16 : w, TH = tiled ? 16 : 1; bool ok = true; for (int s = 0; s < (planar ? ch : 1); ++s) for (int ty = 0; ty < h; ty += TH) for (int tx = 0; tx < w; tx += TW) { int n = planar ? 1 : ch; Bytes buf(std::size_t(TW * TH * n) * bs); for (int y = 0; y < TH; ++y) for (int x = 0; x < TW; ++x) for (int c = 0; c < n; ++c) if (tx + x < w && ty + y < h) sample(tx + x, ty + y, planar ? s : c, &buf[std::size_t((y * TW + x) * n + c) * bs]); ok = ok && (tiled ? TIFFWriteTile(t, buf.data(), unsigned(tx), unsigned(ty), 0, (std::uint16_t)s) >= 0 : TIFFWriteScanline(t, buf.data(), unsigned(ty), (std::uint16_t)s) >= 0); } TIFFClose(t); if (!ok) { mc::check(false, "setup", "cannot write"); return; }
    Base b; b.ref.w = w; b.ref.h = h; bool al = extra == EXTRASAMPLE_ASSOCALPHA || extra == EXTRASAMPLE_UNASSALPHA; b.ref.alpha = al || photo == PHOTOMETRIC_PALETTE; int col = al ? ch - 1 : ch; b.ref.kind = col == 1 || col == 3 ? Ref::OK : Ref::EITHER; b.ref.why = "channels"; // samples beyond the colours may be left out or refused (C44)
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { unsigned char o[4]; std::array<float, 4> q{0, 0, 0, 1}; if (photo == PHOTOMETRIC_PALETTE) { sample(x, y, 0, o); q = {float(pal[0][o[0]] / 257) / 255, float(pal[1][o[0]] / 257) / 255, float(pal[2][o[0]] / 257) / 255, 1}; } else { for (int c = 0; c < 3; ++c) { q[std::size_t(c)] = sample(x, y, col >= 3 ? c : 0, o); if (photo == PHOTOMETRIC_MINISWHITE) q[std::size_t(c)] = 1 - q[std::size_t(c)]; } if (al) q[3] = sample(x, y, ch - 1, o); } b.ref.px.push_back(q); }
    b.f = slurp(p); b.deep = comp == COMPRESSION_NONE || depth == 8; b.fmt = IMAGE_FORMAT_TIFF; b.name = mc::fmt("TIFF photometric %d %s%d x%d extra %d%s%s compression %d %dx%d rows %d mode %s", photo, flt ? "float" : "uint", depth, ch, extra, planar ? " planar" : "", tiled ? " tiled" : "", comp, w, h, rps, mode); all.push_back(b);
}
static void jpeg(int w, int h, int sub, int flags, int q)
{
    tjhandle c = tjInitCompress(); Bytes px(std::size_t(w * h) * 3); Base b; b.ref.w = w; b.ref.h = h; b.ref.kind = Ref::OK; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { std::size_t i = std::size_t(y * w + x); float u = float(x) / float(w), v = float(y) / float(h); std::array<float, 4> k = {0.3f + 0.4f * u, 0.3f + 0.4f * v, 0.5f, 1}; if (sub == TJSAMP_GRAY) k = {0.2f + 0.5f * u, 0.2f + 0.5f * u, 0.2f + 0.5f * u, 1}; for (std::size_t n = 0; n < 3; ++n) px[i * 3 + n] = (unsigned char)std::lround(k[n] * 255); b.ref.px.push_back(k); } unsigned char* o = nullptr; unsigned long n = 0; mc::check(tjCompress2(c, px.data(), w, 0, h, TJPF_RGB, &o, &n, sub, q, flags) == 0, "setup", "cannot compress"); b.f = Bytes(o, o + n); tjFree(o); tjDestroy(c); b.fmt = IMAGE_FORMAT_JPEG; b.tol = 0.05f; b.name = mc::fmt("JPEG %dx%d sampling %d flags %d quality %d", w, h, sub, flags, q); all.push_back(b);
}
static ImageBundle<RGB> rgb(ImageFormat f, const unsigned char* p, std::size_t n, bool a) { return f == IMAGE_FORMAT_PNG ? read_image_png(p, n, a) : f == IMAGE_FORMAT_TIFF ? read_image_tiff_rgb(p, n, a) : read_image_jpeg(p, n); }
static ImageBundle<float> mono(ImageFormat f, const unsigned char* p, std::size_t n, bool a) { return f == IMAGE_FORMAT_PNG ? read_image_png_mono(p, n, a) : f == IMAGE_FORMAT_TIFF ? read_image_tiff_mono(p, n, a) : read_image_jpeg_mono(p, n); }
static bool same(const ImageBundle<RGB>& a, const ImageBundle<RGB>& b) { if (a.image.width() != b.image.width() || a.image.height() != b.image.height() || a.alpha.size() != b.alpha.size() || a.color_space != b.color_space) return false; for (std::size_t i = 0; i < a.image.size(); ++i) for (std::size_t c = 0; c < 3; ++c) if (std::memcmp(&a.image[i][c], &b.image[i][c], 4)) return false; for (std::size_t i = 0; i < a.alpha.size(); ++i) if (std::memcmp(&a.alpha[i], &b.alpha[i], 4)) return false; return true; }
