// C16: every small BMP layout, every truncation, every header byte value and every pair of boundary values of the header fields, against a reference decoder.
#include "imgbad.hpp"
#include "huira/images/io/bmp_io.hpp"
static Ref decode(const Bytes& f)
{
    Ref r; auto rej = [&](const char* w) { r.why = w; return r; }; auto either = [&] { r.kind = Ref::EITHER; return r; };
    if (f.size() < 54 || f[0] != 'B' || f[1] != 'M') return rej("no header");
    std::uint64_t off = get32(f, 10), dib = get32(f, 14); if (dib < 40) return rej("old header"); if (dib > f.size() - 14) return rej("header longer than the file");
    std::int64_t w = std::int32_t(get32(f, 18)), h = std::int32_t(get32(f, 22)); unsigned bpp = get16(f, 28); std::uint32_t comp = get32(f, 30);
    if (comp != 0 && comp != 3) return rej("compression"); if (bpp != 24 && bpp != 32) return rej("bit depth"); if (w <= 0 || h == 0 || h == INT32_MIN) return rej("size");
    std::size_t rb = 2, gb = 1, bb = 0, ab = 3; bool odd = false;
    if (comp == 3) { if (bpp != 32) return rej("bit fields in 24 bits"); if (f.size() < 66) return rej("no masks"); auto mb = [&](std::size_t o) -> std::size_t { for (std::size_t k = 0; k < 4; ++k) if (get32(f, o) == 0xffu << (8 * k)) return k; odd = true; return 0; }; rb = mb(54); gb = mb(58); bb = mb(62); if (odd || rb == gb || gb == bb || bb == rb) return either(); ab = 6 - rb - gb - bb; }
    unsigned __int128 stride = (unsigned __int128)(((unsigned __int128)w * (bpp / 8) + 3) / 4 * 4); bool down = h < 0; if (down) h = -h; if (off + stride * (unsigned __int128)h > f.size()) return rej("not enough data"); if (off < 14 + dib || get16(f, 26) != 1) return either();
    r.kind = Ref::OK; r.w = int(w); r.h = int(h); r.alpha = bpp == 32; r.px.resize(std::size_t(w * h)); for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) { const unsigned char* p = &f[std::size_t(off) + std::size_t(stride) * std::size_t(down ? y : r.h - 1 - y) + std::size_t(x) * (bpp / 8)]; r.px[std::size_t(y * r.w + x)] = {float(p[rb]) / 255, float(p[gb]) / 255, float(p[bb]) / 255, bpp == 32 ? float(p[ab]) / 255 : 1}; }
    return r;
}
static void one(const Bytes& f, bool nt = true) { mc::evaluated(nt); Ref r = decode(f); mc::outcome(r.kind == Ref::OK ? "valid" : r.kind == Ref::REJECT ? "malformed: " + r.why : "unspecified"); compare(f, r, [](const unsigned char* p, std::size_t n, bool a) { return read_image_bmp(p, n, a); }, [](const unsigned char* p, std::size_t n, bool a) { return read_image_bmp_mono(p, n, a); }, [](float a, float b, float c) { return (a + b + c) / 3; }, 1e-6f); }
static Bytes make(int w, int h, bool down, int bpp, unsigned dib, unsigned gap, int comp, unsigned tail = 0, const std::array<std::uint32_t, 3>& masks = {0xff0000, 0xff00, 0xff})
{
    unsigned extra = comp == 3 && dib < 52 ? 12 : 0; std::size_t stride = (std::size_t(w) * std::size_t(bpp / 8) + 3) / 4 * 4, off = 14 + dib + extra + gap; Bytes f(off + stride * std::size_t(h) + tail, 0xEE); for (std::size_t i = 0; i < 14 + dib + extra; ++i) f[i] = 0; f[0] = 'B'; f[1] = 'M'; put32(f, 2, std::uint32_t(f.size())); put32(f, 10, std::uint32_t(off)); put32(f, 14, dib); put32(f, 18, std::uint32_t(w)); put32(f, 22, std::uint32_t(down ? -h : h)); put16(f, 26, 1); put16(f, 28, unsigned(bpp)); put32(f, 30, std::uint32_t(comp)); if (comp == 3) for (std::size_t k = 0; k < 3; ++k) put32(f, 54 + 4 * k, masks[k]);
    for (std::size_t i = off; i < off + stride * std::size_t(h); ++i) f[i] = (unsigned char)((i - off) * 37 + 11); return f;
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1); const int M = mc::thorough() ? 9 : 5;
    // every small layout
    for (int w = 1; w <= M; ++w) for (int h = 1; h <= M; ++h) for (int down = 0; down < 2; ++down) for (int bpp : {24, 32}) for (unsigned dib : {40u, 52u, 56u, 108u, 124u}) for (unsigned gap : {0u, 1u, 2u, 7u}) for (int comp : {0, 3}) for (unsigned tail : {0u, 5u}) { if (comp == 3 && bpp != 32) continue; if (!mc::mine()) continue; mc::at("%dx%d %s %d bits, header %u, gap %u, compression %d, %u bytes after", w, h, down ? "top down" : "bottom up", bpp, dib, gap, comp, tail); one(make(w, h, down, bpp, dib, gap, comp, tail), w * h > 1); }
    // every order of byte masks
    for (std::uint32_t r : {0xffu, 0xff00u, 0xff0000u, 0xff000000u, 0x7c00u, 0u}) for (std::uint32_t g : {0xffu, 0xff00u, 0xff0000u, 0xff000000u, 0x3e0u}) for (std::uint32_t b : {0xffu, 0xff00u, 0xff0000u, 0xff000000u, 0x1fu}) for (unsigned dib : {40u, 56u}) { if (!mc::mine()) continue; mc::at("masks %x %x %x, header %u", r, g, b, dib); one(make(3, 2, false, 32, dib, 0, 3, 0, {r, g, b})); }
    // damage
    std::vector<std::pair<std::string, Bytes>> base; for (int bpp : {24, 32}) for (int down = 0; down < 2; ++down) for (int comp : {0, 3}) for (unsigned dib : {40u, 56u}) if (comp == 0 || bpp == 32) base.push_back({mc::fmt("3x2 %d bits%s, compression %d, header %u", bpp, down ? " top down" : "", comp, dib), make(3, 2, down, bpp, dib, 0, comp)}); base.push_back({"1x1 24 bits", make(1, 1, false, 24, 40, 0, 0)}); base.push_back({"5x1 24 bits", make(5, 1, false, 24, 40, 0, 0)});
    static const std::uint32_t B32[] = {0, 1, 2, 3, 4, 5, 6, 39, 40, 41, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 70, 72, 78, 100, 0x7f, 0xff, 0x7fff, 0xffff, 0x10000, 0x55555556, 0x3fffffff, 0x40000000, 0x40000001, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xaaaaaaab, 0xc0000000, 0xfffffff2, 0xfffffff3, 0xfffffffd, 0xfffffffe, 0xffffffff}; static const unsigned F32[] = {2, 10, 14, 18, 22, 30, 34}; static const unsigned V16[] = {0, 1, 4, 8, 16, 24, 32, 48, 64, 0x7fff, 0xffff};
    for (auto& [name, f] : base) {
        for (std::size_t n = 0; n < f.size(); ++n) { if (!mc::mine()) continue; mc::at("%s cut to %zu bytes", name.c_str(), n); one(Bytes(f.begin(), f.begin() + std::ptrdiff_t(n))); }
        for (std::size_t o = 0; o < std::min<std::size_t>(f.size(), 80); ++o) { if (!mc::mine()) continue; for (unsigned v = 0; v < 256; ++v) { Bytes g = f; g[o] = (unsigned char)v; mc::at("%s byte %zu = %u", name.c_str(), o, v); one(g, f[o] != v); } }
        for (unsigned o1 : F32) for (unsigned o2 : F32) { if (o2 <= o1) continue; if (!mc::mine()) continue; for (std::uint32_t a : B32) for (std::uint32_t b : B32) { Bytes g = f; put32(g, o1, a); put32(g, o2, b); mc::at("%s field %u = %u field %u = %u", name.c_str(), o1, a, o2, b); one(g); } }
        for (unsigned o : F32) { if (!mc::mine()) continue; for (std::uint32_t a : B32) for (unsigned bits : V16) { Bytes g = f; put32(g, o, a); put16(g, 28, bits); mc::at("%s field %u = %u bits %u", name.c_str(), o, a, bits); one(g); } }
        if (mc::thorough()) for (std::uint32_t a : B32) for (std::uint32_t b : B32) { if (!mc::mine()) continue; for (std::uint32_t c : B32) for (std::uint32_t d : {14u, 40u, 54u, 66u, 0x7fffffffu, 0xffffffffu}) { Bytes g = f; put32(g, 18, a); put32(g, 22, b); put32(g, 10, c); put32(g, 14, d); mc::at("%s width %u height %u offset %u header %u", name.c_str(), a, b, c, d); one(g); } }
    }
    if (mc::mine()) { // files: the same bytes through a path; missing and empty files are refused
        Bytes f = make(3, 2, false, 32, 40, 0, 0); std::string p = mc::S().scratch + "/a.bmp"; { std::ofstream o(p, std::ios::binary); o.write((const char*)f.data(), std::streamsize(f.size())); } mc::at("file"); mc::evaluated(true); auto a = read_image_bmp(fs::path(p), true), b = read_image_bmp(f.data(), f.size(), true); bool same = a.image.size() == b.image.size() && a.alpha.size() == b.alpha.size(); for (std::size_t i = 0; same && i < a.image.size(); ++i) same = a.image[i][0] == b.image[i][0] && a.image[i][2] == b.image[i][2] && a.alpha[i] == b.alpha[i]; mc::check(same, "file", "file and memory differ"); auto m = read_image_bmp_mono(fs::path(p), true), m2 = read_image_bmp_mono(f.data(), f.size(), true); same = m.image.size() == m2.image.size(); for (std::size_t i = 0; same && i < m.image.size(); ++i) same = m.image[i] == m2.image[i]; mc::check(same, "file", "mono file and memory differ"); mc::check(mc::throws([&] { (void)read_image_bmp(fs::path(p + "x"), true); }), "missing", "a missing file is accepted"); { std::ofstream o(p + "e"); } mc::check(mc::throws([&] { (void)read_image_bmp(fs::path(p + "e"), true); }), "missing", "an empty file is accepted");
    }
    return mc::finish();
}
