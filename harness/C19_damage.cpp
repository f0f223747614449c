// C19: PNG, JPEG and TIFF files of every layout, written with the codecs' own libraries: each is decoded and compared, then cut at every byte and damaged at every byte; clean files are read again in between.
#include "foreign.hpp"
static std::vector<ImageBundle<RGB>> clean;
static void damaged(const Base& b, std::size_t bi, const Bytes& g, bool cut)
{
    Exact e(g); bool threw = false, mthrew = false; ImageBundle<RGB> r; ImageBundle<float> m;
    try { r = rgb(b.fmt, e.p, e.n, true); } catch (const std::bad_alloc&) { mc::check(false, "memory", "runs out of memory"); return; } catch (const std::exception&) { threw = true; }
    try { m = mono(b.fmt, e.p, e.n, true); } catch (const std::bad_alloc&) { mc::check(false, "memory", "runs out of memory"); return; } catch (const std::exception&) { mthrew = true; }
    auto whole = [&](auto& im) { return im.image.width() > 0 && im.image.height() > 0 && im.image.size() == std::size_t(im.image.width()) * std::size_t(im.image.height()) && (im.alpha.size() == 0 || (im.alpha.width() == im.image.width() && im.alpha.height() == im.image.height())); };
    if (!threw) { mc::check(whole(r), "size", "an image of inconsistent size"); if (b.fmt == IMAGE_FORMAT_PNG && g.size() > 24) { auto be = [&](std::size_t o) { return int(g[o] << 24 | g[o + 1] << 16 | g[o + 2] << 8 | g[o + 3]); }; mc::check(r.image.width() == be(16) && r.image.height() == be(20), "declared", "%dx%d, declared %dx%d", r.image.width(), r.image.height(), be(16), be(20)); } }
    if (!mthrew) mc::check(whole(m), "size", "a mono image of inconsistent size"); if (!threw && !mthrew) mc::check(r.image.width() == m.image.width() && r.image.height() == m.image.height(), "size", "colour and mono sizes differ");
    if (cut && b.fmt == IMAGE_FORMAT_PNG && g.size() + 12 < b.f.size()) mc::check(threw && mthrew, "cut", "a file cut off before its end is accepted");
    if (cut && !threw && r.image.size() == clean[bi].image.size() && b.fmt == IMAGE_FORMAT_TIFF && b.name.find("photometric 3") == std::string::npos /* libtiff takes a palette image without its colour map for a grey one */) mc::check(same(r, clean[bi]), "cut", "a cut file gives other pixels"); mc::outcome(threw ? "refused" : "decoded");
    Exact c(b.f); try { ImageBundle<RGB> again = rgb(b.fmt, c.p, c.n, true); mc::check(!clean[bi].image.empty() && same(again, clean[bi]), "after", "the undamaged file reads differently afterwards"); } catch (const std::exception&) { mc::check(clean[bi].image.empty(), "after", "the undamaged file is refused afterwards"); }
}
static void crcs(Bytes& g) { std::size_t o = 8; while (o + 12 <= g.size()) { std::size_t n = std::size_t(g[o]) << 24 | std::size_t(g[o + 1]) << 16 | std::size_t(g[o + 2]) << 8 | g[o + 3]; if (n > g.size() - o - 12) return; unsigned long c = crc32(0, &g[o + 4], unsigned(n + 4)); for (int k = 0; k < 4; ++k) g[o + 8 + n + std::size_t(k)] = (unsigned char)(c >> (24 - 8 * k)); o += 12 + n; } }
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1); const bool T = mc::thorough(); TIFFSetWarningHandler(nullptr);
    struct S { int w, h; }; for (S s : std::vector<S>{{1, 1}, {5, 3}, {9, 10}}) for (int in = 0; in < 2; ++in) { for (int d : {1, 2, 4, 8, 16}) for (int tr = 0; tr < 2; ++tr) { png(PNG_COLOR_TYPE_GRAY, d, s.w, s.h, in, tr); if (d <= 8) png(PNG_COLOR_TYPE_PALETTE, d, s.w, s.h, in, tr); if (d >= 8) png(PNG_COLOR_TYPE_RGB, d, s.w, s.h, in, tr); if (d >= 8 && !tr) { png(PNG_COLOR_TYPE_GRAY_ALPHA, d, s.w, s.h, in, false); png(PNG_COLOR_TYPE_RGB_ALPHA, d, s.w, s.h, in, false); } } } for (int g = 1; g <= 3; ++g) png(PNG_COLOR_TYPE_RGB, 8, 4, 2, false, false, g);
    std::size_t npng = all.size(); for (S s : std::vector<S>{{5, 3}, {20, 18}}) for (int ti = 0; ti < 2; ++ti) for (int pl = 0; pl < 2; ++pl) for (int comp : {COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_ADOBE_DEFLATE, COMPRESSION_PACKBITS}) for (auto [d, fl] : std::vector<std::pair<int, bool>>{{8, false}, {16, false}, {32, false}, {32, true}}) { if (s.w == 20 && comp != COMPRESSION_NONE && d != 16) continue; tiff(PHOTOMETRIC_RGB, d, fl, 3, 0, pl, ti, comp, s.w, s.h, 2); tiff(PHOTOMETRIC_MINISBLACK, d, fl, 1, 0, pl, ti, comp, s.w, s.h, 1); if (comp == COMPRESSION_NONE || d == 8) { tiff(PHOTOMETRIC_RGB, d, fl, 4, EXTRASAMPLE_UNASSALPHA, pl, ti, comp, s.w, s.h, 3); tiff(PHOTOMETRIC_MINISBLACK, d, fl, 2, EXTRASAMPLE_ASSOCALPHA, pl, ti, comp, s.w, s.h, 100); tiff(PHOTOMETRIC_MINISWHITE, d, fl, 1, 0, pl, ti, comp, s.w, s.h, 2); tiff(PHOTOMETRIC_MINISBLACK, d, fl, 2, EXTRASAMPLE_UNSPECIFIED, pl, ti, comp, s.w, s.h, 2); } }
    tiff(PHOTOMETRIC_PALETTE, 8, false, 1, 0, false, false, COMPRESSION_NONE, 5, 3, 2); tiff(PHOTOMETRIC_PALETTE, 8, false, 1, 0, false, true, COMPRESSION_LZW, 5, 3, 2); for (const char* m : {"wb", "w8", "wb8"}) { tiff(PHOTOMETRIC_RGB, 16, false, 3, 0, false, false, COMPRESSION_NONE, 5, 3, 2, m); tiff(PHOTOMETRIC_RGB, 32, true, 4, EXTRASAMPLE_UNASSALPHA, true, false, COMPRESSION_LZW, 5, 3, 2, m); }
    std::size_t ntiff = all.size(); for (S s : std::vector<S>{{1, 1}, {5, 3}, {17, 9}}) for (int sub : {TJSAMP_444, TJSAMP_420, TJSAMP_422, TJSAMP_GRAY}) for (int fl : {0, TJFLAG_PROGRESSIVE}) jpeg(s.w, s.h, sub, fl, 95);
    clean.resize(all.size()); for (std::size_t i = 0; i < all.size(); ++i) { auto& b = all[i]; mc::at_s(b.name); { try { clean[i] = rgb(b.fmt, b.f.data(), b.f.size(), true); mc::check(clean[i].color_space == b.cs, "colour-space", "colour space %d", int(clean[i].color_space)); } catch (const std::exception& e) { mc::check(b.ref.kind != Ref::OK, "refused", "a valid file is refused: %s", e.what()); } } }
    // valid files
    for (std::size_t i = 0; i < all.size(); ++i) { auto& b = all[i]; if (!mc::mine()) continue; mc::at_s(b.name); mc::evaluated(b.ref.px.size() > 1); ImageFormat f = b.fmt; compare(b.f, b.ref, [f](const unsigned char* p, std::size_t n, bool a) { return rgb(f, p, n, a); }, [f](const unsigned char* p, std::size_t n, bool a) { return mono(f, p, n, a); }, [](float x, float y, float z) { return (x + y + z) / 3; }, f == IMAGE_FORMAT_JPEG ? 0.1f : b.tol); if (f == IMAGE_FORMAT_JPEG || b.ref.kind != Ref::OK) continue; auto g = read_image(f, b.f.data(), b.f.size(), true); mc::check(same(g, clean[i]), "generic", "the generic reader gives other pixels"); auto g0 = read_image(f, b.f.data(), b.f.size(), false); mc::check(g0.alpha.size() == 0, "generic", "alpha not asked for"); auto gm = read_image_mono(f, b.f.data(), b.f.size(), true), mm = mono(f, b.f.data(), b.f.size(), true); bool ok = gm.image.size() == mm.image.size() && gm.alpha.size() == mm.alpha.size(); for (std::size_t k = 0; ok && k < mm.image.size(); ++k) ok = gm.image[k] == mm.image[k]; mc::check(ok, "generic", "the generic mono reader gives other pixels"); }
    // damage
    static const unsigned char D[] = {0x00, 0xff, 0x01, 0x80, 0x7f, 0x10}; (void)npng; (void)ntiff;
    for (std::size_t i = 0; i < all.size(); ++i) {
        auto& b = all[i]; if ((!b.deep || (b.ref.w > 9 && b.fmt != IMAGE_FORMAT_JPEG)) && !T) continue; const std::size_t N = b.f.size(), step = T ? 1 : N > 900 ? 5 : N > 400 ? 2 : 1;
        for (std::size_t n = 0; n < N; n += step) { if (!mc::mine()) continue; mc::at("%s cut to %zu of %zu bytes", b.name.c_str(), n, N); mc::evaluated(n > 0); damaged(b, i, Bytes(b.f.begin(), b.f.begin() + std::ptrdiff_t(n)), true); }
        for (std::size_t o = 0; o < N; o += step) { if (!mc::mine()) continue; std::set<unsigned> vs; for (unsigned char d : D) { vs.insert(d); vs.insert(b.f[o] ^ d); vs.insert((unsigned char)(b.f[o] + d)); } if (T && b.fmt != IMAGE_FORMAT_TIFF) for (unsigned v = 0; v < 256; ++v) vs.insert(v); vs.erase(b.f[o]); if (!T && b.fmt == IMAGE_FORMAT_TIFF) { vs = {0u, 0xffu, unsigned(b.f[o] ^ 1), unsigned(b.f[o] ^ 0x80), unsigned((unsigned char)(b.f[o] + 1))}; vs.erase(b.f[o]); } for (unsigned v : vs) { Bytes g = b.f; g[o] = (unsigned char)v; mc::at("%s byte %zu = %u", b.name.c_str(), o, v); mc::evaluated(true); damaged(b, i, g, false); if (b.fmt == IMAGE_FORMAT_PNG) { crcs(g); mc::at("%s byte %zu = %u, checksums corrected", b.name.c_str(), o, v); mc::evaluated(true); damaged(b, i, g, false); } } }
    }
    // TIFF tags at every boundary value, PNG and JPEG sizes
    static const std::uint32_t V[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 33, 64, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff};
    for (std::size_t i = npng; i < ntiff; ++i) { auto& b = all[i]; if (b.f[0] != 'I' || get16(b.f, 2) != 42) continue; if ((!b.deep || b.ref.w > 9) && !T) continue; std::size_t d = get32(b.f, 4), n = get16(b.f, d); for (std::size_t k = 0; k < n; ++k) { if (!mc::mine()) continue; std::size_t e = d + 2 + 12 * k; for (std::uint32_t v : V) { Bytes g = b.f; put32(g, e + 8, v); mc::at("%s tag %u = %u", b.name.c_str(), get16(g, e), v); mc::evaluated(true); damaged(b, i, g, false); g = b.f; put32(g, e + 4, v); mc::at("%s tag %u count %u", b.name.c_str(), get16(g, e), v); mc::evaluated(true); damaged(b, i, g, false); } for (unsigned tag : {254u, 258u, 259u, 262u, 277u, 284u, 322u, 323u, 338u, 339u, 530u}) { Bytes g = b.f; put16(g, e, tag); mc::at("%s tag %u becomes %u", b.name.c_str(), get16(b.f, e), tag); mc::evaluated(true); damaged(b, i, g, false); } } }
    for (std::size_t i = 0; i < all.size(); ++i) { auto& b = all[i]; if (b.fmt == IMAGE_FORMAT_TIFF) continue; if (!mc::mine()) continue; std::size_t o = 16; if (b.fmt == IMAGE_FORMAT_JPEG) { o = 0; for (std::size_t k = 0; k + 9 < b.f.size(); ++k) if (b.f[k] == 0xff && (b.f[k + 1] == 0xc0 || b.f[k + 1] == 0xc2)) { o = k + 5; break; } } for (std::uint32_t a : V) for (std::uint32_t c : V) { Bytes g = b.f; if (b.fmt == IMAGE_FORMAT_PNG) { for (int k = 0; k < 4; ++k) { g[o + std::size_t(k)] = (unsigned char)(a >> (24 - 8 * k)); g[o + 4 + std::size_t(k)] = (unsigned char)(c >> (24 - 8 * k)); } crcs(g); } else { g[o] = (unsigned char)(a >> 8); g[o + 1] = (unsigned char)a; g[o + 2] = (unsigned char)(c >> 8); g[o + 3] = (unsigned char)c; } mc::at("%s size %u x %u", b.name.c_str(), a, c); mc::evaluated(true); damaged(b, i, g, false); } }
    // the generic reader goes by the extension
    if (mc::mine()) {
        struct X { const char* e; ImageFormat f; }; for (X x : std::vector<X>{{"bmp", IMAGE_FORMAT_BMP}, {"BMP", IMAGE_FORMAT_BMP}, {"fits", IMAGE_FORMAT_FITS}, {"FITS", IMAGE_FORMAT_FITS}, {"hdr", IMAGE_FORMAT_HDR}, {"HDR", IMAGE_FORMAT_HDR}, {"jpg", IMAGE_FORMAT_JPEG}, {"jpeg", IMAGE_FORMAT_JPEG}, {"JPG", IMAGE_FORMAT_JPEG}, {"JPEG", IMAGE_FORMAT_JPEG}, {"png", IMAGE_FORMAT_PNG}, {"PNG", IMAGE_FORMAT_PNG}, {"tga", IMAGE_FORMAT_TGA}, {"TGA", IMAGE_FORMAT_TGA}, {"tif", IMAGE_FORMAT_TIFF}, {"tiff", IMAGE_FORMAT_TIFF}, {"TIF", IMAGE_FORMAT_TIFF}, {"TIFF", IMAGE_FORMAT_TIFF}, {"txt", IMAGE_FORMAT_UNKNOWN}, {"", IMAGE_FORMAT_UNKNOWN}, {"pngx", IMAGE_FORMAT_UNKNOWN}}) for (const char* stem : {"a", "a.png", "dir.tif/a"}) { std::string p = mc::S().scratch + "/" + stem + (*x.e ? "." : "") + x.e; if (!*x.e && std::string(stem) == "a.png") continue; fs::create_directories(fs::path(p).parent_path()); mc::at("extension of %s.%s", stem, x.e); mc::evaluated(true); mc::check(detect_image_format(p) == x.f, "detect", "format %d", int(detect_image_format(p))); mc::check(mc::throws([&] { (void)read_image(fs::path(p)); }) && mc::throws([&] { (void)read_image_mono(fs::path(p)); }), "missing", "a missing file is accepted"); for (std::size_t i : {std::size_t(3), npng + 1, ntiff + 8}) { { std::ofstream o(p, std::ios::binary); o.write((const char*)all[i].f.data(), std::streamsize(all[i].f.size())); } bool t = true; ImageBundle<RGB> r; try { r = read_image(fs::path(p)); t = false; } catch (const std::exception&) {} mc::check(t == (all[i].fmt != x.f), "dispatch", "%s %s", all[i].name.c_str(), t ? "is refused" : "is accepted"); if (!t) mc::check(same(r, clean[i]), "dispatch", "%s reads differently", all[i].name.c_str()); } fs::remove(p); }
        for (auto f : {IMAGE_FORMAT_UNKNOWN, IMAGE_FORMAT_FITS}) { mc::at("format %d", int(f)); mc::evaluated(true); mc::check(mc::throws([&] { (void)read_image(f, all[0].f.data(), all[0].f.size()); }) && mc::throws([&] { (void)read_image_mono(f, all[0].f.data(), all[0].f.size()); }), "unknown", "accepted"); }
    }
    return mc::finish();
}
