// C44: pictures written by other programs (every layout the codec libraries can write here) decode to the values their format gives them, through every reader; kinds of colour the readers do not know are refused.
#include "foreign.hpp"
#include <jpeglib.h>
// what every reader makes of one file: from memory and from disk, colour and gray, with and without alpha, by format, by extension and by default
static bool samem(const ImageBundle<float>& a, const ImageBundle<float>& b) { if (a.image.width() != b.image.width() || a.image.height() != b.image.height() || a.alpha.size() != b.alpha.size() || a.color_space != b.color_space) return false; for (std::size_t i = 0; i < a.image.size(); ++i) if (std::memcmp(&a.image[i], &b.image[i], 4)) return false; for (std::size_t i = 0; i < a.alpha.size(); ++i) if (std::memcmp(&a.alpha[i], &b.alpha[i], 4)) return false; return true; }
static void ways(const Base& b)
{
    const unsigned char* p = b.f.data(); std::size_t n = b.f.size(); const char* e = b.fmt == IMAGE_FORMAT_PNG ? "png" : b.fmt == IMAGE_FORMAT_TIFF ? "tif" : "jpg"; fs::path q = tmp(e); { std::ofstream o(q, std::ios::binary); o.write((const char*)p, std::streamsize(n)); }
    std::vector<std::pair<const char*, std::function<ImageBundle<RGB>(bool)>>> C; std::vector<std::pair<const char*, std::function<ImageBundle<float>(bool)>>> M; using R = ImageBundle<RGB>; using G = ImageBundle<float>; ImageFormat f = b.fmt;
    C.push_back({"by format, from memory", [=](bool a) { return read_image(f, p, n, a); }}); C.push_back({"by extension", [=](bool a) { return read_image(q, a); }}); C.push_back({"by extension, by default", [=](bool a) { if (!a) return read_image(q, false); return read_image(q); }}); C.push_back({"by format, by default", [=](bool a) { return a ? read_image(f, p, n) : read_image(f, p, n, false); }});
    M.push_back({"gray by format, from memory", [=](bool a) { return read_image_mono(f, p, n, a); }}); M.push_back({"gray by extension", [=](bool a) { return read_image_mono(q, a); }}); M.push_back({"gray by extension, by default", [=](bool a) { return a ? read_image_mono(q) : read_image_mono(q, false); }}); M.push_back({"gray by format, by default", [=](bool a) { return a ? read_image_mono(f, p, n) : read_image_mono(f, p, n, false); }});
    if (f == IMAGE_FORMAT_PNG) { C.push_back({"from disk", [=](bool a) { return read_image_png(q, a); }}); C.push_back({"from disk, by default", [=](bool a) { return a ? read_image_png(q) : read_image_png(q, false); }}); C.push_back({"from memory, by default", [=](bool a) { return a ? read_image_png(p, n) : read_image_png(p, n, false); }}); M.push_back({"gray from disk", [=](bool a) { return read_image_png_mono(q, a); }}); M.push_back({"gray from disk, by default", [=](bool a) { return a ? read_image_png_mono(q) : read_image_png_mono(q, false); }}); M.push_back({"gray from memory, by default", [=](bool a) { return a ? read_image_png_mono(p, n) : read_image_png_mono(p, n, false); }}); }
    if (f == IMAGE_FORMAT_TIFF) { C.push_back({"from disk", [=](bool a) { return read_image_tiff_rgb(q, a); }}); C.push_back({"from disk, by default", [=](bool a) { return a ? read_image_tiff_rgb(q) : read_image_tiff_rgb(q, false); }}); C.push_back({"from memory, by default", [=](bool a) { return a ? read_image_tiff_rgb(p, n) : read_image_tiff_rgb(p, n, false); }}); M.push_back({"gray from disk", [=](bool a) { return read_image_tiff_mono(q, a); }}); M.push_back({"gray from disk, by default", [=](bool a) { return a ? read_image_tiff_mono(q) : read_image_tiff_mono(q, false); }}); M.push_back({"gray from memory, by default", [=](bool a) { return a ? read_image_tiff_mono(p, n) : read_image_tiff_mono(p, n, false); }}); }
    if (f == IMAGE_FORMAT_JPEG) { C.push_back({"from disk", [=](bool) { return read_image_jpeg(q); }}); M.push_back({"gray from disk", [=](bool) { return read_image_jpeg_mono(q); }}); }
    for (int a = 0; a < 2; ++a) { bool t0 = false, t1 = false; R r; G m; try { r = rgb(f, p, n, a); } catch (const std::exception&) { t0 = true; } try { m = mono(f, p, n, a); } catch (const std::exception&) { t1 = true; } for (auto& c : C) { bool t = false; R z; try { z = c.second(a); } catch (const std::exception&) { t = true; } mc::check(t == t0 && (t || same(z, r)), "ways", "read %s%s: %s", c.first, a ? "" : " without alpha", t ? "refused" : "other pixels"); } for (auto& c : M) { bool t = false; G z; try { z = c.second(a); } catch (const std::exception&) { t = true; } mc::check(t == t1 && (t || samem(z, m)), "ways", "read %s%s: %s", c.first, a ? "" : " without alpha", t ? "refused" : "other pixels"); } }
}
static void run(const Base& b)
{
    mc::at_s(b.name); mc::evaluated(b.ref.px.size() > 1); ImageFormat f = b.fmt; compare(b.f, b.ref, [f](const unsigned char* p, std::size_t n, bool a) { return rgb(f, p, n, a); }, [f](const unsigned char* p, std::size_t n, bool a) { return mono(f, p, n, a); }, [](float x, float y, float z) { return (x + y + z) / 3; }, f == IMAGE_FORMAT_JPEG ? 0.1f : b.tol);
    if (b.ref.kind == Ref::OK) { Exact e(b.f); try { auto r = rgb(f, e.p, e.n, true); mc::check(r.color_space == b.cs, "colour-space", "colour space %d", int(r.color_space)); auto m = mono(f, e.p, e.n, true); mc::check(m.color_space == b.cs, "colour-space", "gray: colour space %d", int(m.color_space)); } catch (const std::exception&) {} }
    ways(b);
}
static void take() { for (auto& b : all) run(b); all.clear(); }
// --- PNG: an image that holds every value of its depth, and every combination of colour chunks
static void png_values(int type, int depth, bool inter, int rowf)
{
    int ch = type == PNG_COLOR_TYPE_GRAY ? 1 : type == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : type == PNG_COLOR_TYPE_RGB ? 3 : 4; unsigned mx = (1u << depth) - 1; int w = depth == 16 ? 256 : depth == 8 ? 16 : int(mx + 1), h = depth == 16 ? 256 : depth == 8 ? 16 : 3; std::string p = tmp("png"); FILE* fp = fopen(p.c_str(), "wb"); png_structp s = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr); png_infop in = png_create_info_struct(s); png_init_io(s, fp); png_set_IHDR(s, in, unsigned(w), unsigned(h), depth, type, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT); if (rowf) png_set_filter(s, 0, rowf); png_write_info(s, in); if (depth == 16) png_set_swap(s);
    Base b; b.ref.w = w; b.ref.h = h; b.ref.kind = Ref::OK; b.ref.alpha = ch == 2 || ch == 4; std::vector<Bytes> rows; for (int y = 0; y < h; ++y) { Bytes r(std::size_t(w * ch * depth + 7) / 8 + 8); for (int x = 0; x < w; ++x) { float q[4]; for (int c = 0; c < ch; ++c) { unsigned i = unsigned(y * w + x), v = c == 0 ? i & mx : c == 1 ? mx - (i & mx) : c == 2 ? (i * 7 + 3) & mx : (i * 13 + 1) & mx; q[c] = float(double(v) / mx); std::size_t k = std::size_t(x * ch + c); if (depth == 16) { std::uint16_t u = (std::uint16_t)v; std::memcpy(&r[k * 2], &u, 2); } else if (depth == 8) r[k] = (unsigned char)v; else { std::size_t bit = k * std::size_t(depth); r[bit / 8] |= (unsigned char)(v << (8 - depth - int(bit % 8))); } } b.ref.px.push_back({q[0], ch >= 3 ? q[1] : q[0], ch >= 3 ? q[2] : q[0], ch == 2 ? q[1] : ch == 4 ? q[3] : 1.f}); } rows.push_back(r); }
    std::vector<png_bytep> rp; for (auto& r : rows) rp.push_back(r.data()); png_write_image(s, rp.data()); png_write_end(s, nullptr); png_destroy_write_struct(&s, &in); fclose(fp); b.f = slurp(p); b.fmt = IMAGE_FORMAT_PNG; b.name = mc::fmt("PNG with every value, type %d depth %d%s filters %d", type, depth, inter ? " interlaced" : "", rowf); all.push_back(b);
}
static void png_chunks(int icc, int srgb, int gama, int type, int place)
{
    static const double GA[] = {0, 1.0, 0.45455, 0.6, 0.5, 0.35, 2.2, 0.99, 1.02}; std::string p = tmp("png"); FILE* fp = fopen(p.c_str(), "wb"); png_structp s = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, [](png_structp q, png_const_charp) { longjmp(png_jmpbuf(q), 1); }, [](png_structp, png_const_charp) {}); png_infop in = png_create_info_struct(s); if (setjmp(png_jmpbuf(s))) { png_destroy_write_struct(&s, &in); fclose(fp); mc::count("combinations libpng will not write"); return; } png_init_io(s, fp); png_set_IHDR(s, in, 3, 2, 8, type, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT); int ch = type == PNG_COLOR_TYPE_GRAY ? 1 : 3; Bytes prof;
    if (icc) { Bytes z(164, 0); auto be = [&](std::size_t o, std::uint32_t v) { for (int k = 0; k < 4; ++k) z[o + std::size_t(k)] = (unsigned char)(v >> (24 - 8 * k)); }; be(0, 164); be(8, 0x02100000); std::memcpy(&z[12], "mntr", 4); std::memcpy(&z[16], ch == 1 ? "GRAY" : "RGB ", 4); std::memcpy(&z[20], "XYZ ", 4); std::memcpy(&z[36], "acsp", 4); be(68, 0xf6d6); be(72, 0x10000); be(76, 0xd32d); be(128, 1); std::memcpy(&z[132], "cprt", 4); be(136, 144); be(140, 20); std::memcpy(&z[144], "text", 4); std::memcpy(&z[152], "elsewhere", 9); prof = z; png_set_iCCP(s, in, "some profile", 0, prof.data(), unsigned(prof.size())); }
    if (srgb) png_set_sRGB(s, in, srgb - 1); if (gama) png_set_gAMA(s, in, GA[gama]); if (place & 1) { png_set_cHRM(s, in, 0.3127, 0.329, 0.64, 0.33, 0.30, 0.60, 0.15, 0.06); } if (place & 2) { png_set_pHYs(s, in, 100, 200, 1); png_text t{}; t.compression = -1; t.key = (char*)"Comment"; t.text = (char*)"made elsewhere"; t.text_length = 14; png_set_text(s, in, &t, 1); png_color_16 bk{}; bk.gray = 5; bk.red = 9; png_set_bKGD(s, in, &bk); } png_write_info(s, in);
    Base b; b.ref.w = 3; b.ref.h = 2; b.ref.kind = Ref::OK; b.ref.alpha = false; Bytes row(9); for (int y = 0; y < 2; ++y) { for (int x = 0; x < 3; ++x) { float q[3]; for (int c = 0; c < ch; ++c) { unsigned v = raw(y * 3 + x, c, 255); row[std::size_t(x * ch + c)] = (unsigned char)v; q[c] = float(v) / 255; } b.ref.px.push_back({q[0], ch == 3 ? q[1] : q[0], ch == 3 ? q[2] : q[0], 1}); } png_write_row(s, row.data()); } png_write_end(s, in); png_destroy_write_struct(&s, &in); fclose(fp);
    b.f = slurp(p); b.fmt = IMAGE_FORMAT_PNG; auto has = [&](const char* n) { return std::search(b.f.begin(), b.f.end(), n, n + 4) != b.f.end(); }; // libpng writes what is consistent: the file decides
    bool I = has("iCCP"), S = has("sRGB"), A = has("gAMA"); double g = A ? GA[gama ? gama : 2] : 0; if (!gama && A) g = 0.45455; b.cs = I ? ColorSpaceHint::Unknown : S ? ColorSpaceHint::sRGB : !A ? ColorSpaceHint::sRGB : std::fabs(g - 1) < 0.0099 ? ColorSpaceHint::Linear : std::fabs(g - 0.45455) < 0.0099 ? ColorSpaceHint::sRGB : ColorSpaceHint::Gamma; if (std::fabs(std::fabs(g - 1) - 0.01) < 2e-3 && !I && !S) { mc::count("gamma at the edge of linear"); return; } mc::outcome(mc::fmt("chunks %d%d%d", I, S, A)); b.name = mc::fmt("PNG with%s%s%s gamma %g type %d other chunks %d", I ? " iCCP" : "", S ? " sRGB" : "", A ? " gAMA" : "", g, type, place);
    if (b.cs == ColorSpaceHint::Gamma) { mc::at_s(b.name); Exact e(b.f); try { auto r = read_image_png(e.p, e.n, true); auto m = read_image_png_mono(e.p, e.n, true); mc::check(std::fabs(double(r.gamma_value) - 1 / g) < 1e-3 / g && std::fabs(double(m.gamma_value) - 1 / g) < 1e-3 / g, "gamma", "decoding exponent %g, the file says %g", double(r.gamma_value), 1 / g); } catch (const std::exception&) { mc::check(false, "refused", "refused"); } } all.push_back(b);
}
// --- TIFF: samples written by hand, so that any tags can be given
struct T4 { int photo = PHOTOMETRIC_RGB, depth = 8, fmt = SAMPLEFORMAT_UINT, ch = 3; std::vector<int> extra; bool planar = false, tiled = false; int comp = COMPRESSION_NONE, w = 5, h = 3, rps = 2, tw = 16, th = 16, pred = 1, orient = 1, pages = 1; const char* mode = "w"; bool nophoto = false; };
static Bytes tiff_file(const T4& q, std::function<void(int, int, int, unsigned char*)> sample)
{
    std::string p = tmp("tif"); TIFF* t = TIFFOpen(p.c_str(), q.mode); if (!t) return {}; bool ok = true;
    for (int pg = 0; pg < q.pages; ++pg) { TIFFSetField(t, TIFFTAG_IMAGEWIDTH, unsigned(q.w)); TIFFSetField(t, TIFFTAG_IMAGELENGTH, unsigned(q.h)); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, q.ch); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, q.depth); TIFFSetField(t, TIFFTAG_COMPRESSION, q.comp); TIFFSetField(t, TIFFTAG_PLANARCONFIG, q.planar ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG); if (!q.nophoto) TIFFSetField(t, TIFFTAG_PHOTOMETRIC, q.photo); if (q.fmt) TIFFSetField(t, TIFFTAG_SAMPLEFORMAT, q.fmt); if (q.orient != 1) TIFFSetField(t, TIFFTAG_ORIENTATION, q.orient); if (q.pred != 1) TIFFSetField(t, TIFFTAG_PREDICTOR, q.pred); if (!q.extra.empty()) { std::vector<std::uint16_t> e(q.extra.begin(), q.extra.end()); TIFFSetField(t, TIFFTAG_EXTRASAMPLES, int(e.size()), e.data()); } if (q.tiled) { TIFFSetField(t, TIFFTAG_TILEWIDTH, q.tw); TIFFSetField(t, TIFFTAG_TILELENGTH, q.th); } else TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, q.rps);
        std::size_t bs = std::size_t(q.depth / 8); int TW = q.tiled ? q.tw : q.w, TH = q.tiled ? q.th : 1; for (int s = 0; s < (q.planar ? q.ch : 1); ++s) for (int ty = 0; ty < q.h; ty += TH) for (int tx = 0; tx < q.w; tx += TW) { int n = q.planar ? 1 : q.ch; Bytes buf(std::size_t(TW * TH * n) * bs); for (int y = 0; y < TH; ++y) for (int x = 0; x < TW; ++x) for (int c = 0; c < n; ++c) if (tx + x < q.w && ty + y < q.h) sample((ty + y) * q.w + tx + x + 1000 * pg, q.planar ? s : c, 0, &buf[std::size_t((y * TW + x) * n + c) * bs]); ok = ok && (q.tiled ? TIFFWriteTile(t, buf.data(), unsigned(tx), unsigned(ty), 0, (std::uint16_t)s) >= 0 : TIFFWriteScanline(t, buf.data(), unsigned(ty), (std::uint16_t)s) >= 0); } if (q.pages > 1) TIFFWriteDirectory(t); }
    TIFFClose(t); return ok ? slurp(p) : Bytes{};
}
static float put(const T4& q, int i, int c, unsigned char* o) { if (q.fmt == SAMPLEFORMAT_IEEEFP) { float v = float(raw(i, c, 1000)) / 1000; std::memcpy(o, &v, 4); return v; } if (q.depth == 8) { *o = (unsigned char)raw(i, c, 255); return float(*o) / 255; } if (q.depth == 16) { auto v = (std::uint16_t)raw(i, c, 65535); std::memcpy(o, &v, 2); return float(v) / 65535; } std::uint32_t v = raw(i, c, 0xfffffffeu); std::memcpy(o, &v, 4); return float(double(v) / 4294967295.0); }
static std::string tname(const T4& q) { std::string e; for (int x : q.extra) e += mc::fmt(" %d", x); return mc::fmt("TIFF photometric %d %s%d x%d extra [%s ]%s%s compression %d predictor %d %dx%d rows %d tile %dx%d pages %d mode %s", q.nophoto ? -1 : q.photo, q.fmt == SAMPLEFORMAT_IEEEFP ? "float" : "uint", q.depth, q.ch, e.c_str(), q.planar ? " planar" : "", q.tiled ? " tiled" : "", q.comp, q.pred, q.w, q.h, q.rps, q.tiled ? q.tw : 0, q.tiled ? q.th : 0, q.pages, q.mode); }
static void tiff_one(const T4& q)
{
    Bytes f = tiff_file(q, [&](int i, int c, int, unsigned char* o) { put(q, i, c, o); }); if (f.empty()) { mc::count("layouts libtiff will not write"); return; } Base b; b.f = f; b.fmt = IMAGE_FORMAT_TIFF; b.name = tname(q); b.ref.w = q.w; b.ref.h = q.h; const int col = q.ch - int(q.extra.size()), want = q.photo == PHOTOMETRIC_RGB ? 3 : 1; int al = -1; for (std::size_t k = 0; k < q.extra.size(); ++k) if (al < 0 && q.extra[k] != EXTRASAMPLE_UNSPECIFIED) al = col + int(k); bool plain = q.extra.empty() || (q.extra.size() == 1 && al >= 0); bool known = q.photo == PHOTOMETRIC_RGB || q.photo == PHOTOMETRIC_MINISBLACK || q.photo == PHOTOMETRIC_MINISWHITE;
    b.ref.kind = !known ? Ref::REJECT : plain && col == want ? Ref::OK : Ref::EITHER; b.ref.why = "kind of colour"; b.ref.alpha = al >= 0; b.tol = 2e-6f; for (int i = 0; i < q.w * q.h; ++i) { unsigned char o[4]; std::array<float, 4> v{0, 0, 0, 1}; for (int c = 0; c < 3; ++c) { v[std::size_t(c)] = put(q, i, want == 3 ? c : 0, o); if (q.photo == PHOTOMETRIC_MINISWHITE) v[std::size_t(c)] = 1 - v[std::size_t(c)]; } if (al >= 0) v[3] = put(q, i, al, o); b.ref.px.push_back(v); }
    if (b.ref.kind == Ref::EITHER && known && col == want) { // several extra samples: refused, or the colours and the declared alpha
        mc::at_s(b.name); mc::evaluated(true); for (int a = 0; a < 2; ++a) for (int mo = 0; mo < 2; ++mo) { Exact e(f); try { std::vector<std::array<float, 3>> px; Image<float> A; if (mo) { auto m = read_image_tiff_mono(e.p, e.n, a); for (std::size_t i = 0; i < m.image.size(); ++i) px.push_back({m.image[i], m.image[i], m.image[i]}); A = m.alpha; } else { auto r = read_image_tiff_rgb(e.p, e.n, a); for (std::size_t i = 0; i < r.image.size(); ++i) px.push_back({r.image[i][0], r.image[i][1], r.image[i][2]}); A = r.alpha; } bool ok = px.size() == b.ref.px.size(), ok2 = A.size() == 0 || (a && al >= 0); for (std::size_t i = 0; ok && i < px.size(); ++i) { auto& v = b.ref.px[i]; float mm = (v[0] + v[1] + v[2]) / 3; for (std::size_t c = 0; c < 3; ++c) ok = ok && std::fabs(px[i][c] - (mo ? mm : v[c])) < 1e-5f; if (A.size() && ok2) ok2 = std::fabs(A[i] - v[3]) < 1e-5f; } mc::check(ok, "extra", "several extra samples: other colours (%s)", mo ? "gray" : "colour"); mc::check(ok2, "extra-alpha", "several extra samples: another one is taken for alpha"); mc::outcome("several extra samples decoded"); } catch (const std::exception&) { mc::outcome("several extra samples refused"); } } return; }
    run(b);
}
static void tiffs(bool T)
{
    struct S { int w, h; }; for (int photo : {PHOTOMETRIC_MINISWHITE, PHOTOMETRIC_MINISBLACK, PHOTOMETRIC_RGB}) for (auto [d, f] : std::vector<std::pair<int, int>>{{8, 1}, {16, 1}, {32, 1}, {32, 3}}) for (std::vector<int> ex : std::vector<std::vector<int>>{{}, {2}, {0}, {0, 0}, {2, 0}, {0, 2}, {0, 2, 0}, {2, 2}}) for (int pl = 0; pl < 2; ++pl) for (int ti = 0; ti < 2; ++ti) for (int comp : {COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_ADOBE_DEFLATE, COMPRESSION_PACKBITS, COMPRESSION_LZMA, COMPRESSION_ZSTD}) for (int pr : {1, 2, 3}) for (int sz = 0; sz < (T ? 6 : 2); ++sz) { if (pr != 1 && comp != COMPRESSION_LZW && comp != COMPRESSION_ADOBE_DEFLATE && comp != COMPRESSION_ZSTD) continue; if ((pr == 3) != (f == 3) && pr != 1) continue; if (!mc::mine()) continue; static const S Z[] = {{5, 3}, {17, 33}, {1, 1}, {16, 16}, {40, 1}, {1, 40}}; T4 q; q.photo = photo; q.depth = d; q.fmt = f; q.ch = (photo == PHOTOMETRIC_RGB ? 3 : 1) + int(ex.size()); q.extra = ex; q.planar = pl; q.tiled = ti; q.comp = comp; q.pred = pr; q.w = Z[sz].w; q.h = Z[sz].h; for (int r : ti ? std::vector<int>{16, 32} : std::vector<int>{1, 2, 1000}) { q.rps = r; q.tw = ti ? r : 16; tiff_one(q); } }
    for (const char* m : {"wl", "wb", "wl8", "wb8"}) for (int photo : {PHOTOMETRIC_MINISWHITE, PHOTOMETRIC_MINISBLACK, PHOTOMETRIC_RGB}) for (auto [d, f] : std::vector<std::pair<int, int>>{{8, 1}, {16, 1}, {32, 1}, {32, 3}}) for (int k = 0; k < 8; ++k) for (int comp : {COMPRESSION_NONE, COMPRESSION_LZW}) for (int al = 0; al < 2; ++al) { if (!mc::mine()) continue; T4 q; q.mode = m; q.photo = photo; q.depth = d; q.fmt = f; q.planar = k & 1; q.tiled = k & 2; q.pages = k & 4 ? 3 : 1; q.comp = comp; if (al) q.extra = {2}; q.ch = (photo == PHOTOMETRIC_RGB ? 3 : 1) + al; tiff_one(q); }
    for (int photo : {PHOTOMETRIC_SEPARATED, PHOTOMETRIC_YCBCR, PHOTOMETRIC_CIELAB, PHOTOMETRIC_ICCLAB, PHOTOMETRIC_ITULAB, PHOTOMETRIC_LOGLUV, PHOTOMETRIC_CFA, 34892 /* linear raw */, 51177, 9}) for (int ch : {1, 3, 4}) for (int d : {8, 16}) for (int pl = 0; pl < 2; ++pl) for (int ti = 0; ti < 2; ++ti) for (int comp : {COMPRESSION_NONE, COMPRESSION_LZW}) { if (photo == PHOTOMETRIC_YCBCR && (ch != 3 || d != 8)) continue; if (!mc::mine()) continue; T4 q; q.photo = photo; q.ch = ch; q.depth = d; q.planar = pl; q.tiled = ti; q.comp = comp; tiff_one(q); }
    // the range of a sample format
    for (int fmt : {SAMPLEFORMAT_INT, SAMPLEFORMAT_VOID, SAMPLEFORMAT_COMPLEXINT}) for (int d : {8, 16, 32}) { if (!mc::mine()) continue; T4 q; q.fmt = fmt; q.depth = d; Bytes f = tiff_file(q, [&](int i, int c, int, unsigned char* o) { T4 u = q; u.fmt = 1; put(u, i, c, o); }); if (f.empty()) continue; Base b; b.f = f; b.fmt = IMAGE_FORMAT_TIFF; b.name = mc::fmt("TIFF sample format %d depth %d", fmt, d); b.ref.kind = Ref::REJECT; b.ref.why = "sample format"; run(b); }
    // JPEG inside TIFF: the colours come out as they went in, however they are stored
    for (int photo : {PHOTOMETRIC_YCBCR, PHOTOMETRIC_RGB, PHOTOMETRIC_MINISBLACK}) for (int sub : {1, 2}) for (int ti = 0; ti < 2; ++ti) for (int pl = 0; pl < (photo == PHOTOMETRIC_RGB ? 2 : 1); ++pl) for (S z : std::vector<S>{{16, 16}, {37, 21}, {64, 48}}) {
        if (photo != PHOTOMETRIC_YCBCR && sub != 1) continue; if (!mc::mine()) continue; std::string p = tmp("tif"); TIFF* t = TIFFOpen(p.c_str(), "w"); int ch = photo == PHOTOMETRIC_MINISBLACK ? 1 : 3; TIFFSetField(t, TIFFTAG_IMAGEWIDTH, unsigned(z.w)); TIFFSetField(t, TIFFTAG_IMAGELENGTH, unsigned(z.h)); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, ch); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, 8); TIFFSetField(t, TIFFTAG_COMPRESSION, COMPRESSION_JPEG); TIFFSetField(t, TIFFTAG_PHOTOMETRIC, photo); TIFFSetField(t, TIFFTAG_PLANARCONFIG, pl ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG); TIFFSetField(t, TIFFTAG_JPEGQUALITY, 95); if (photo == PHOTOMETRIC_YCBCR) { TIFFSetField(t, TIFFTAG_JPEGCOLORMODE, JPEGCOLORMODE_RGB); TIFFSetField(t, TIFFTAG_YCBCRSUBSAMPLING, sub, sub); } if (ti) { TIFFSetField(t, TIFFTAG_TILEWIDTH, 32); TIFFSetField(t, TIFFTAG_TILELENGTH, 32); } else TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, 16);
        auto v = [&](int x, int y, int c) { return c == 0 ? 60 + x * 120 / z.w : c == 1 ? 200 - y * 150 / z.h : 90; }; bool ok = true; int TW = ti ? 32 : z.w, TH = ti ? 32 : 1; for (int s = 0; s < (pl ? ch : 1); ++s) for (int ty = 0; ty < z.h; ty += TH) for (int tx = 0; tx < z.w; tx += TW) { int n = pl ? 1 : ch; Bytes buf(std::size_t(TW * TH * n)); for (int y = 0; y < TH; ++y) for (int x = 0; x < TW; ++x) for (int c = 0; c < n; ++c) buf[std::size_t((y * TW + x) * n + c)] = (unsigned char)v(std::min(tx + x, z.w - 1), std::min(ty + y, z.h - 1), pl ? s : c); ok = ok && (ti ? TIFFWriteTile(t, buf.data(), unsigned(tx), unsigned(ty), 0, (std::uint16_t)s) >= 0 : TIFFWriteScanline(t, buf.data(), unsigned(ty), (std::uint16_t)s) >= 0); } TIFFClose(t); mc::check(ok, "setup", "cannot write");
        Base b; b.f = slurp(p); b.fmt = IMAGE_FORMAT_TIFF; b.name = mc::fmt("TIFF holding JPEG, photometric %d subsampling %d%s%s %dx%d", photo, sub, ti ? " tiled" : "", pl ? " planar" : "", z.w, z.h); b.tol = 0.03f; b.ref.w = z.w; b.ref.h = z.h; b.ref.kind = Ref::OK; for (int y = 0; y < z.h; ++y) for (int x = 0; x < z.w; ++x) { std::array<float, 4> q{0, 0, 0, 1}; for (int c = 0; c < 3; ++c) q[std::size_t(c)] = float(v(x, y, ch == 1 ? 0 : c)) / 255; b.ref.px.push_back(q); } run(b); }
}
// --- JPEG: stored by libjpeg with any colour space, restart markers and scans
static void jpegs()
{
    struct S { int w, h; }; for (int cs = 0; cs < 5; ++cs) for (int prog = 0; prog < 2; ++prog) for (int rst : {0, 1, 3}) for (int sub : {1, 2}) for (int arith = 0; arith < 2; ++arith) for (S z : std::vector<S>{{1, 1}, {16, 8}, {33, 17}, {64, 64}}) {
        if (sub == 2 && cs != 0) continue; if (!mc::mine()) continue; jpeg_compress_struct c; jpeg_error_mgr er; c.err = jpeg_std_error(&er); er.output_message = [](j_common_ptr) {}; jpeg_create_compress(&c); unsigned char* out = nullptr; unsigned long n = 0; jpeg_mem_dest(&c, &out, &n); c.image_width = unsigned(z.w); c.image_height = unsigned(z.h); static const J_COLOR_SPACE IN[] = {JCS_RGB, JCS_GRAYSCALE, JCS_RGB, JCS_CMYK, JCS_CMYK}; c.in_color_space = IN[cs]; c.input_components = cs == 1 ? 1 : cs >= 3 ? 4 : 3; jpeg_set_defaults(&c); jpeg_set_quality(&c, 96, TRUE); if (cs == 2) jpeg_set_colorspace(&c, JCS_RGB); if (cs == 4) jpeg_set_colorspace(&c, JCS_YCCK); if (cs == 0 && sub == 1) for (int k = 0; k < 3; ++k) c.comp_info[k].h_samp_factor = c.comp_info[k].v_samp_factor = 1; if (prog) jpeg_simple_progression(&c); c.restart_interval = unsigned(rst); if (arith) c.arith_code = TRUE;
        int C = c.input_components; auto v = [&](int x, int y, int k) { return k == 0 ? 50 + x * 150 / z.w : k == 1 ? 210 - y * 150 / z.h : k == 2 ? 80 : 255; }; jpeg_start_compress(&c, TRUE); jpeg_write_marker(&c, JPEG_COM, (const JOCTET*)"elsewhere", 9); for (int y = 0; y < z.h; ++y) { Bytes r(std::size_t(z.w * C)); for (int x = 0; x < z.w; ++x) for (int k = 0; k < C; ++k) r[std::size_t(x * C + k)] = (unsigned char)v(x, y, k); JSAMPROW rp = r.data(); jpeg_write_scanlines(&c, &rp, 1); } jpeg_finish_compress(&c); jpeg_destroy_compress(&c);
        Base b; b.f = Bytes(out, out + n); free(out); b.fmt = IMAGE_FORMAT_JPEG; static const char* N[] = {"YCbCr", "gray", "RGB", "CMYK", "YCCK"}; b.name = mc::fmt("JPEG %s%s%s restart %d sampling %d %dx%d", N[cs], prog ? " progressive" : "", arith ? " arithmetic" : "", rst, sub, z.w, z.h); b.ref.w = z.w; b.ref.h = z.h; b.ref.kind = cs >= 3 || arith ? Ref::EITHER : Ref::OK; for (int y = 0; y < z.h; ++y) for (int x = 0; x < z.w; ++x) { std::array<float, 4> q{0, 0, 0, 1}; for (int k = 0; k < 3; ++k) q[std::size_t(k)] = float(v(x, y, cs == 1 ? 0 : k)) / 255; b.ref.px.push_back(q); }
        mc::at_s(b.name); mc::evaluated(z.w > 1); if (b.ref.kind == Ref::EITHER) { bool t = mc::throws([&] { (void)rgb(b.fmt, b.f.data(), b.f.size(), true); }); mc::outcome(t ? "uncommon JPEG refused" : "uncommon JPEG decoded"); if (!arith || t) { ways(b); continue; } b.ref.kind = Ref::OK; }
        // colours to within the loss of the codec; gray is the luma, which for a gray picture is its value
        for (int a = 0; a < 2; ++a) { Exact e(b.f); try { auto r = read_image_jpeg(e.p, e.n); bool ok = r.image.width() == z.w && r.image.height() == z.h && r.alpha.size() == 0 && r.color_space == ColorSpaceHint::sRGB; float worst = 0; for (std::size_t i = 0; ok && i < b.ref.px.size(); ++i) for (std::size_t k = 0; k < 3; ++k) worst = std::max(worst, std::fabs(r.image[i][k] - b.ref.px[i][k])); mc::check(ok && worst < 0.05f, "pixel", "a colour is off by %.3f", double(worst)); auto m = read_image_jpeg_mono(e.p, e.n); bool mk = m.image.width() == z.w && m.image.height() == z.h; for (std::size_t i = 0; mk && i < b.ref.px.size(); ++i) { auto& q = b.ref.px[i]; mk = std::fabs(m.image[i] - (0.299f * q[0] + 0.587f * q[1] + 0.114f * q[2])) < 0.05f || std::fabs(m.image[i] - (q[0] + q[1] + q[2]) / 3) < 0.05f; } mc::check(mk, "mono", "the gray reader gives something else"); } catch (const std::exception& x) { mc::check(false, "refused", "a valid file is refused: %s", x.what()); } } ways(b); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1); const bool T = mc::thorough(); TIFFSetWarningHandler(nullptr); TIFFSetErrorHandler(nullptr);
    struct S { int w, h; }; std::vector<S> sizes; for (int w = 1; w <= (T ? 17 : 9); ++w) for (int h = 1; h <= (T ? 17 : 9); ++h) sizes.push_back({w, h});
    for (S s : sizes) for (int in = 0; in < 2; ++in) for (int d : {1, 2, 4, 8, 16}) { if (!mc::mine()) continue; for (int tr = 0; tr < 2; ++tr) { png(PNG_COLOR_TYPE_GRAY, d, s.w, s.h, in, tr); if (d <= 8) png(PNG_COLOR_TYPE_PALETTE, d, s.w, s.h, in, tr); if (d >= 8) png(PNG_COLOR_TYPE_RGB, d, s.w, s.h, in, tr); if (d >= 8 && !tr) { png(PNG_COLOR_TYPE_GRAY_ALPHA, d, s.w, s.h, in, false); png(PNG_COLOR_TYPE_RGB_ALPHA, d, s.w, s.h, in, false); } } take(); }
    for (int type : {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA}) for (int d : {1, 2, 4, 8, 16}) for (int in = 0; in < 2; ++in) for (int fl : {0, PNG_FILTER_NONE, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH}) { if (d < 8 && type != PNG_COLOR_TYPE_GRAY) continue; if (d == 16 && fl && fl != PNG_FILTER_PAETH && !T) continue; if (!mc::mine()) continue; png_values(type, d, in, fl); take(); }
    for (int icc = 0; icc < 2; ++icc) for (int sr = 0; sr < 5; ++sr) for (int g = 0; g < 9; ++g) for (int type : {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB}) for (int pl = 0; pl < 4; ++pl) { if (!mc::mine()) continue; png_chunks(icc, sr, g, type, pl); take(); }
    tiffs(T); jpegs(); return mc::finish();
}
