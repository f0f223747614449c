// C17: every small TGA layout and orientation, every packet structure of small run-length images, every truncation, every header byte value, field pairs, and every short packet stream, against a reference decoder.
#include "imgbad.hpp"
#include "huira/images/io/tga_io.hpp"
static Ref decode(const Bytes& f)
{
    Ref r; auto rej = [&](const char* w) { r.kind = Ref::REJECT; r.why = w; return r; }; auto either = [&](const char* w) { r.kind = Ref::EITHER; r.why = w; return r; };
    if (f.size() < 18) return rej("no header"); unsigned type = f[2], first = get16(f, 3), len = get16(f, 5), es = f[7], depth = f[16]; int w = int(get16(f, 12)), h = int(get16(f, 14)); bool mapped = type == 1 || type == 9, gray = type == 3 || type == 11, rle = type >= 9; if (type == 0 || (type > 3 && type < 9) || type > 11) return rej("type"); if (!w || !h) return rej("no pixels");
    if (f[1] > 1) return either("colour map type"); std::size_t pos = 18 + f[0]; if (pos > f.size()) return rej("id cut off"); std::size_t map = pos, mb = (es + 7) / 8; if (f[1] == 1) pos += mb * len; if (pos > f.size()) return rej("map cut off");
    if (mapped) { if (f[1] != 1) return rej("no map"); if (depth != 8 && depth != 16) return rej("index depth"); if (es != 24 && es != 32) return es == 15 || es == 16 ? either("16-bit map") : rej("map depth"); } else if (gray) { if (depth != 8) return depth == 16 ? either("gray with alpha") : rej("gray depth"); } else if (depth != 24 && depth != 32) return depth == 15 || depth == 16 ? either("16-bit colour") : rej("depth");
    if (f[17] & 0xc0) r.why = "interleaved"; std::size_t bp = depth / 8, n = std::size_t(w) * std::size_t(h); bool over = false; Bytes px; if (!rle) { if (n * bp > f.size() - pos) return rej("data cut off"); px.assign(f.begin() + std::ptrdiff_t(pos), f.begin() + std::ptrdiff_t(pos + n * bp)); }
    else { std::size_t got = 0; while (got < n) { if (pos >= f.size()) return rej("stream cut off"); unsigned k = f[pos] & 0x7f, run = f[pos] & 0x80; ++pos; for (unsigned i = 0; i <= k; ++i) { if (got == n) { over = true; break; } if (pos + bp > f.size()) return rej("stream cut off"); px.insert(px.end(), f.begin() + std::ptrdiff_t(pos), f.begin() + std::ptrdiff_t(pos + bp)); ++got; if (!run) pos += bp; } if (run) pos += bp; } }
    bool al = mapped ? es == 32 : !gray && depth == 32; r.w = w; r.h = h; r.alpha = al; r.px.resize(n); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { std::size_t sy = std::size_t(f[17] & 0x20 ? y : h - 1 - y), sx = std::size_t(f[17] & 0x10 ? w - 1 - x : x); const unsigned char* p = &px[(sy * std::size_t(w) + sx) * bp]; unsigned char c[4] = {0, 0, 0, 255}; if (mapped) { std::size_t id = p[0] | (bp == 2 ? std::size_t(p[1]) << 8 : 0); if (id < first || id - first >= len) return rej("index outside the map"); const unsigned char* m = &f[map + (id - first) * mb]; c[0] = m[2]; c[1] = m[1]; c[2] = m[0]; if (mb == 4) c[3] = m[3]; } else if (gray) c[0] = c[1] = c[2] = p[0]; else { c[0] = p[2]; c[1] = p[1]; c[2] = p[0]; if (bp == 4) c[3] = p[3]; } r.px[std::size_t(y * w + x)] = {float(c[0]) / 255, float(c[1]) / 255, float(c[2]) / 255, float(c[3]) / 255}; }
    if (f[17] & 0xc0) return either("interleaved"); if (over) return either("packet past the end"); r.kind = Ref::OK; return r;
}
static void one(const Bytes& f, bool nt = true) { mc::evaluated(nt); Ref r = decode(f); mc::outcome(r.kind == Ref::OK ? "valid" : r.kind == Ref::REJECT ? "malformed: " + r.why : "unspecified"); compare(f, r, [](const unsigned char* p, std::size_t n, bool a) { return read_image_tga(p, n, a); }, [](const unsigned char* p, std::size_t n, bool a) { return read_image_tga_mono(p, n, a); }, [](float a, float b, float c) { return (a + b + c) / 3; }, 1e-6f); }
struct Lay { int type, w, h; unsigned depth, es, first, len, id, desc; };
static Bytes head(const Lay& l) { Bytes f(18, 0); f[0] = (unsigned char)l.id; f[1] = l.len ? 1 : 0; f[2] = (unsigned char)l.type; put16(f, 3, l.first); put16(f, 5, l.len); f[7] = (unsigned char)l.es; put16(f, 12, unsigned(l.w)); put16(f, 14, unsigned(l.h)); f[16] = (unsigned char)l.depth; f[17] = (unsigned char)l.desc; for (unsigned i = 0; i < l.id; ++i) f.push_back((unsigned char)(200 + i)); for (unsigned i = 0; i < l.len * ((l.es + 7) / 8); ++i) f.push_back((unsigned char)(i * 29 + 3)); return f; }
static void pixel(Bytes& f, const Lay& l, unsigned k) { if (l.type == 1 || l.type == 9) { unsigned id = l.first + k % l.len; f.push_back((unsigned char)id); if (l.depth == 16) f.push_back((unsigned char)(id >> 8)); } else for (unsigned b = 0; b < l.depth / 8; ++b) f.push_back((unsigned char)(k * 53 + b * 17 + 5)); }
static Bytes flat(const Lay& l) { Bytes f = head(l); unsigned n = unsigned(l.w * l.h), k = 0; if (l.type < 9) { for (; k < n; ++k) pixel(f, l, k); return f; } while (k < n) { unsigned c = std::min(n - k, 2u + k % 2); if (k % 3 == 1) { f.push_back((unsigned char)(0x80 | (c - 1))); pixel(f, l, k); } else { f.push_back((unsigned char)(c - 1)); for (unsigned i = 0; i < c; ++i) pixel(f, l, k + i); } k += c; } return f; }
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1); const int M = mc::thorough() ? 7 : 4;
    struct Kind { int type; unsigned depth, es, first, len; }; std::vector<Kind> kinds; for (int t : {2, 10}) for (unsigned d : {24u, 32u}) { kinds.push_back({t, d, 0, 0, 0}); kinds.push_back({t, d, 24, 0, 3}); } for (int t : {3, 11}) kinds.push_back({t, 8, 0, 0, 0}); for (int t : {1, 9}) for (unsigned d : {8u, 16u}) for (unsigned es : {24u, 32u}) { kinds.push_back({t, d, es, 0, 5}); kinds.push_back({t, d, es, 2, 3}); if (d == 16) kinds.push_back({t, d, es, 300, 4}); }
    auto name = [](const Lay& l) { return mc::fmt("type %d %dx%d depth %u map %ux%u from %u, id %u, descriptor %u", l.type, l.w, l.h, l.depth, l.len, l.es, l.first, l.id, l.desc); };
    for (auto& k : kinds) for (int w = 1; w <= M; ++w) for (int h = 1; h <= M; ++h) { if (!mc::mine()) continue; for (unsigned id : {0u, 1u, 7u, 255u}) for (unsigned desc : {0u, 0x10u, 0x20u, 0x30u, 8u, 0x28u}) for (unsigned tail : {0u, 26u}) { Lay l{k.type, w, h, k.depth, k.es, k.first, k.len, id, desc}; Bytes f = flat(l); f.resize(f.size() + tail, 0xEE); mc::at_s(name(l)); one(f, w * h > 1); } }
    // every packet structure of a small image, the last packet reaching up to two pixels too far
    for (auto& k : kinds) { if (k.type < 9 || (k.type == 10 && k.len)) continue; const int N = mc::thorough() ? 7 : 4; for (int w = 1; w <= N; ++w) for (int h = 1; w * h <= N; ++h) { Lay l{k.type, w, h, k.depth, k.es, k.first, k.len, 0, 0x20}; if (!mc::mine()) continue; std::vector<int> pk; std::function<void(int)> rec = [&](int left) { if (left <= 0) { for (int cut = 0; cut <= 6; ++cut) { Bytes f = head(l); unsigned q = 0; for (int p : pk) { if (p < 0) { f.push_back((unsigned char)(0x80 | (-p - 1))); pixel(f, l, q); q += unsigned(-p); } else { f.push_back((unsigned char)(p - 1)); for (int i = 0; i < p; ++i) pixel(f, l, q + unsigned(i)); q += unsigned(p); } } if (cut && f.size() < 18 + std::size_t(cut)) break; f.resize(f.size() - std::size_t(cut)); mc::at_s(name(l) + mc::fmt(" packets %s, cut %d", [&] { std::string s; for (int p : pk) s += std::to_string(p) + " "; return s; }().c_str(), cut)); one(f, pk.size() > 1 || cut); } return; } for (int c = 1; c <= left + 2; ++c) for (int s : {1, -1}) { pk.push_back(c * s); rec(left - c); pk.pop_back(); } }; rec(w * h); } }
    // every length a packet can have, first or last, also across rows
    for (auto& k : kinds) { if (k.type < 9 || (k.type == 10 && k.len)) continue; for (int w : {1, 64, 127, 128, 129, 130, 256, 257}) for (int h : {1, 2, 300}) for (int run = 0; run < 2; ++run) for (int end = 0; end < 2; ++end) { if ((w > 1) == (h == 300)) continue; if (!mc::mine()) continue; Lay l{k.type, w, h, k.depth, k.es, k.first, k.len, 0, 0x20}; for (int n = 1; n <= std::min(w * h, 128); ++n) { Bytes f = head(l); unsigned q = 0, all = unsigned(w * h); auto piece = [&](bool r, unsigned c) { f.push_back((unsigned char)((r ? 0x80 : 0) | (c - 1))); for (unsigned i = 0; i < (r ? 1 : c); ++i) pixel(f, l, q + i); q += c; }; auto rest = [&](unsigned upto) { for (bool r = !run; q < upto; r = !r) piece(r, std::min(upto - q, 97u)); }; if (end) rest(all - unsigned(n)); piece(run, unsigned(n)); if (!end) rest(all); mc::at_s(name(l) + mc::fmt(" a %s of %d at the %s", run ? "run" : "literal", n, end ? "end" : "start")); one(f, n > 1); } } }
    // sizes and colour maps whose fields need both bytes
    for (auto& k : kinds) for (int w : {255, 256, 257, 511, 1000}) for (int t = 0; t < 2; ++t) { if (!mc::mine()) continue; Lay l{k.type, t ? 1 : w, t ? w : 1, k.depth, k.es, k.first, k.len, 0, 0x20}; mc::at_s(name(l)); one(flat(l)); }
    for (int t : {1, 9}) for (unsigned d : {8u, 16u}) for (unsigned es : {24u, 32u}) for (unsigned len : {2u, 16u, 17u, 255u, 256u, 257u, 1000u, 4096u}) for (unsigned first : {0u, 1u, 255u, 256u, 700u}) { if (d == 8 && first + len > 256) continue; if (!mc::mine()) continue; Lay l{t, 64, 70, d, es, first, len, 3, 0x20}; mc::at_s(name(l)); one(flat(l)); }
    // every short packet stream
    for (auto& k : kinds) { if (k.type < 9 || (k.type == 10 && k.len)) continue; if (!mc::mine()) continue; static const unsigned char A[] = {0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0x81, 0x82, 0xff}; const int D = mc::thorough() ? 6 : 4; for (int n = 0; n <= D; ++n) { long T = 1; for (int i = 0; i < n; ++i) T *= 9; for (long c = 0; c < T; ++c) { Lay l{k.type, 2, 2, k.depth, k.es, k.first, k.len, 0, 0}; Bytes f = head(l); long q = c; std::string s; for (int i = 0; i < n; ++i) { f.push_back(A[q % 9]); s += mc::fmt("%02x ", A[q % 9]); q /= 9; } mc::at_s(name(l) + " stream " + s); one(f, n > 0); } } }
    // damage
    static const unsigned F16[] = {3, 5, 12, 14}; static const unsigned B16[] = {0, 1, 2, 3, 4, 5, 6, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x103, 0x7fff, 0x8000, 0xfffd, 0xffff}; static const unsigned F8[] = {0, 1, 2, 7, 16, 17};
    for (auto& k : kinds) { Lay l{k.type, 3, 2, k.depth, k.es, k.first, k.len, 2, 0x20}; Bytes f = flat(l); std::string nm = name(l);
        for (std::size_t n = 0; n < f.size(); ++n) { if (!mc::mine()) continue; mc::at("%s cut to %zu bytes", nm.c_str(), n); one(Bytes(f.begin(), f.begin() + std::ptrdiff_t(n))); }
        for (std::size_t o = 0; o < f.size(); ++o) { if (!mc::mine()) continue; for (unsigned v = 0; v < 256; ++v) { Bytes g = f; g[o] = (unsigned char)v; mc::at("%s byte %zu = %u", nm.c_str(), o, v); one(g, f[o] != v); } }
        if (!mc::mine()) continue;
        for (unsigned o1 : F16) for (unsigned o2 : F16) if (o1 < o2) for (unsigned a : B16) for (unsigned b : B16) { Bytes g = f; put16(g, o1, a); put16(g, o2, b); mc::at("%s field %u = %u field %u = %u", nm.c_str(), o1, a, o2, b); one(g); }
        static const unsigned B8[] = {0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 23, 24, 25, 32, 33, 48, 64, 128, 255};
        for (unsigned o1 : F8) for (unsigned o2 : F8) if (o1 < o2) for (unsigned a : B8) for (unsigned b : B8) { Bytes g = f; g[o1] = (unsigned char)a; g[o2] = (unsigned char)b; mc::at("%s byte %u = %u byte %u = %u", nm.c_str(), o1, a, o2, b); one(g); }
        if (mc::thorough()) for (unsigned o1 : F8) for (unsigned o2 : F8) if (o1 < o2) for (unsigned a : B8) for (unsigned b : B8) for (unsigned o3 : F16) for (unsigned c : B16) { Bytes g = f; g[o1] = (unsigned char)a; g[o2] = (unsigned char)b; put16(g, o3, c); mc::at("%s byte %u = %u byte %u = %u field %u = %u", nm.c_str(), o1, a, o2, b, o3, c); one(g); }
    }
    if (mc::mine()) { Bytes f = flat({10, 3, 2, 32, 0, 0, 0, 0, 0}); std::string p = mc::S().scratch + "/a.tga"; { std::ofstream o(p, std::ios::binary); o.write((const char*)f.data(), std::streamsize(f.size())); } mc::at("file"); mc::evaluated(true); auto a = read_image_tga(fs::path(p), true), b = read_image_tga(f.data(), f.size(), true); bool same = a.image.size() == b.image.size() && a.alpha.size() == b.alpha.size(); for (std::size_t i = 0; same && i < a.image.size(); ++i) same = a.image[i][0] == b.image[i][0] && a.image[i][2] == b.image[i][2] && a.alpha[i] == b.alpha[i]; mc::check(same, "file", "file and memory differ"); auto m = read_image_tga_mono(fs::path(p), true), m2 = read_image_tga_mono(f.data(), f.size(), true); same = m.image.size() == m2.image.size(); for (std::size_t i = 0; same && i < m.image.size(); ++i) same = m.image[i] == m2.image[i]; mc::check(same, "file", "mono file and memory differ"); mc::check(mc::throws([&] { (void)read_image_tga(fs::path(p + "x"), true); }), "missing", "a missing file is accepted"); }
    return mc::finish();
}
