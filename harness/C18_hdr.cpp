// C18: every exponent and mantissa, every orientation, every run structure of a channel, every truncation and byte value of small files, dimension lattices, against a reference decoder.
#include "imgbad.hpp"
#include "huira/images/io/hdr_io.hpp"
static Ref decode(const Bytes& f)
{
    Ref r; auto rej = [&](const char* w) { r.kind = Ref::REJECT; r.why = w; return r; }; auto either = [&](const char* w) { r.kind = Ref::EITHER; r.why = w; return r; };
    std::size_t pos = 0; bool cr = false; auto line = [&](std::string& s) { s.clear(); while (pos < f.size()) { unsigned char c = f[pos++]; if (c == '\n') return true; if (c == '\r') cr = true; s += char(c); } return false; };
    std::string s; bool whole = line(s); if (s.substr(0, 2) != "#?") return rej("magic"); if (!whole) return rej("header cut off"); bool empty = false; int fmt = 0; while (line(s)) { if (s.empty()) { empty = true; break; } if (s == "FORMAT=32-bit_rle_rgbe") fmt |= 1; else fmt |= s.find("FORMAT") != std::string::npos ? 4 : 0; } if (!empty) return cr ? either("carriage returns") : rej("header cut off");
    whole = line(s); if (cr) return either("carriage returns"); char sy = 0, sx = 0, tail = 0; long long h = 0, w = 0; std::size_t k = 0; auto num = [&](long long& v) { std::size_t b = k; while (k < s.size() && isdigit((unsigned char)s[k]) && k - b < 18) v = v * 10 + (s[k++] - '0'); return k > b; };
    bool strict = s.size() > 3 && (s[0] == '-' || s[0] == '+') && s.substr(1, 2) == "Y "; if (strict) { sy = s[0]; k = 3; strict = num(h) && s.substr(k, 1) == " " && (s.substr(k + 1, 3) == "+X " || s.substr(k + 1, 3) == "-X "); if (strict) { sx = s[k + 1]; k += 4; strict = num(w) && k == s.size(); } } (void)tail;
    if (!strict) { bool digits = false; for (char c : s) digits = digits || isdigit((unsigned char)c); return digits && s.find('X') != std::string::npos && s.find('Y') != std::string::npos ? either("odd resolution line") : rej("no resolution"); }
    if (w <= 0 || h <= 0 || w > INT_MAX || h > INT_MAX) return rej("size"); bool odd = false;
    Bytes px; for (long long y = 0; y < h; ++y) {
        if (pos + 4 > f.size()) return rej("data cut off"); bool rle = w >= 8 && w <= 32767 && f[pos] == 2 && f[pos + 1] == 2 && (unsigned(f[pos + 2]) << 8 | f[pos + 3]) == unsigned(w);
        if (!rle) { if ((std::size_t)w * 4 > f.size() - pos) return odd ? either("odd") : rej("data cut off"); for (long long x = 0; x < w; ++x) if (f[pos + std::size_t(x) * 4] == 1 && f[pos + std::size_t(x) * 4 + 1] == 1 && f[pos + std::size_t(x) * 4 + 2] == 1) return either("old run"); if (w >= 8 && f[pos] == 2 && f[pos + 1] == 2 && f[pos + 2] < 128) return either("run of another width"); px.insert(px.end(), f.begin() + std::ptrdiff_t(pos), f.begin() + std::ptrdiff_t(pos) + std::ptrdiff_t(w * 4)); pos += std::size_t(w) * 4; continue; }
        pos += 4; std::size_t base = px.size(); px.resize(base + std::size_t(w) * 4); for (std::size_t c = 0; c < 4; ++c) { long long x = 0; while (x < w) { if (pos >= f.size()) return odd ? either("odd") : rej("data cut off"); unsigned n = f[pos++]; bool run = n > 128; if (run) n -= 128; if (n == 0 || x + n > w) odd = true; if (run) { if (pos >= f.size()) return odd ? either("odd") : rej("data cut off"); unsigned char v = f[pos++]; for (unsigned i = 0; i < n && x < w; ++i) px[base + std::size_t(x++) * 4 + c] = v; } else for (unsigned i = 0; i < n && x < w; ++i) { if (pos >= f.size()) return odd ? either("odd") : rej("data cut off"); px[base + std::size_t(x++) * 4 + c] = f[pos++]; } } }
        if (odd) return either("run past the scanline");
    }
    r.w = int(w); r.h = int(h); r.px.resize(std::size_t(w * h)); for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) { int ty = sy == '-' ? y : r.h - 1 - y, tx = sx == '+' ? x : r.w - 1 - x; const unsigned char* p = &px[std::size_t(y * r.w + x) * 4]; float s2 = p[3] ? std::ldexp(1.f, int(p[3]) - 136) : 0; r.px[std::size_t(ty * r.w + tx)] = {float(p[0]) * s2, float(p[1]) * s2, float(p[2]) * s2, 1}; }
    if (fmt & 4) return either("another format"); r.kind = Ref::OK; return r;
}
static void one(const Bytes& f, bool nt = true) { mc::evaluated(nt); Ref r = decode(f); mc::outcome(r.kind == Ref::OK ? "valid" : r.kind == Ref::REJECT ? "malformed: " + r.why : "unspecified: " + r.why); compare(f, r, [](const unsigned char* p, std::size_t n, bool) { return read_image_hdr(p, n); }, [](const unsigned char* p, std::size_t n, bool) { return read_image_hdr_mono(p, n); }, [](float a, float b, float c) { return (a + b + c) / 3; }, 2e-6f); }
static void str(Bytes& f, const std::string& s) { f.insert(f.end(), s.begin(), s.end()); }
static Bytes head(const std::string& res, const std::string& pre = "#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n") { Bytes f; str(f, pre); str(f, res + "\n"); return f; }
static unsigned char val(int i, int c) { return c == 3 ? (unsigned char)(120 + i % 17) : (unsigned char)(i * 41 + c * 77 + 9); }
static Bytes flat(const std::string& res, int n, const char* pre = "#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n") { Bytes f = head(res, pre); for (int i = 0; i < n; ++i) for (int c = 0; c < 4; ++c) f.push_back(val(i, c)); return f; }
static Bytes rle(const std::string& res, int w, int h) { Bytes f = head(res); for (int y = 0; y < h; ++y) { f.push_back(2); f.push_back(2); f.push_back((unsigned char)(w >> 8)); f.push_back((unsigned char)w); for (int c = 0; c < 4; ++c) { int x = 0; bool run = (y + c) & 1; while (x < w) { int n = std::min(w - x, 1 + (x * 5 + c + y) % 127); f.push_back((unsigned char)(run ? 128 + n : n)); if (run) f.push_back(val(x + y * 3, c)); else for (int i = 0; i < n; ++i) f.push_back(val(x + i + y, c)); x += n; run = !run; } } } return f; }
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1); const bool T = mc::thorough(); const char* ors[4][2] = {{"-Y", "+X"}, {"+Y", "+X"}, {"-Y", "-X"}, {"+Y", "-X"}};
    auto res = [&](int o, int w, int h) { return mc::fmt("%s %d %s %d", ors[o][0], h, ors[o][1], w); };
    // every exponent and mantissa
    for (int e = 0; e < 256; ++e) { if (!mc::mine()) continue; for (int m = 0; m < 256; ++m) { Bytes f = head("-Y 1 +X 1"); f.push_back((unsigned char)m); f.push_back((unsigned char)(255 - m)); f.push_back((unsigned char)(m * 7)); f.push_back((unsigned char)e); if (f[f.size() - 4] == 1 && f[f.size() - 3] == 1) continue; mc::at("pixel %d %d %d exponent %d", m, 255 - m, (m * 7) & 255, e); mc::evaluated(e > 0); auto b = read_image_hdr(f.data(), f.size()); double s = e ? std::ldexp(1.0, e - 136) : 0; double x[3] = {m * s, (255 - m) * s, ((m * 7) & 255) * s}; for (std::size_t c = 0; c < 3; ++c) mc::check(std::fabs(double(b.image(0, 0)[c]) - x[c]) <= 1e-6 * x[c], "value", "channel %zu is %.9g, expected %.9g", c, double(b.image(0, 0)[c]), x[c]); if (e < 250) mc::check(std::fabs(double(read_image_hdr_mono(f.data(), f.size()).image(0, 0)) - (x[0] + x[1] + x[2]) / 3) <= 1e-6 * (x[0] + x[1] + x[2]), "mono-value", "mono"); } }
    // every size and orientation, flat and run-length encoded, several headers
    const int M = T ? 12 : 6; static const char* pres[] = {"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n", "#?RGBE\n\n", "#?RADIANCE\n# a comment\nEXPOSURE=1\nFORMAT=32-bit_rle_rgbe\nPIXASPECT=1\n\n"};
    for (int w = 1; w <= M; ++w) for (int h = 1; h <= M; ++h) for (int o = 0; o < 4; ++o) for (const char* p : pres) { if (!mc::mine()) continue; mc::at("flat %s", res(o, w, h).c_str()); Bytes f = flat(res(o, w, h), w * h, p); one(f, w * h > 1); f.push_back(0); one(f, w * h > 1); }
    for (int w : {8, 9, 10, 15, 16, 17, 126, 127, 128, 129, 130, 255, 256, 257, 300, 1000, 32767}) for (int h = 1; h <= (w > 1000 ? 1 : 4); ++h) for (int o = 0; o < 4; ++o) { if (!mc::mine()) continue; mc::at("runs %s", res(o, w, h).c_str()); one(rle(res(o, w, h), w, h)); }
    // every length a run or a literal piece can have, at the start and at the end of a scanline
    for (int w : {8, 127, 128, 129, 130, 131, 255, 256, 257, 300}) for (int lit = 0; lit < 2; ++lit) for (int n = 1; n <= std::min(w, lit ? 128 : 127); ++n) { if (!mc::mine()) continue; for (int end = 0; end < 2; ++end) { Bytes f = head(res(0, w, 1)); f.push_back(2); f.push_back(2); f.push_back((unsigned char)(w >> 8)); f.push_back((unsigned char)w); for (int c = 0; c < 4; ++c) { int x = 0; auto piece = [&](bool l, int k) { f.push_back((unsigned char)(l ? k : 128 + k)); if (l) for (int i = 0; i < k; ++i) f.push_back(val(x + i, c)); else f.push_back(val(x, c)); x += k; }; auto rest = [&](int upto) { for (bool l = !lit; x < upto; l = !l) piece(l, std::min(upto - x, 97)); }; if (end) rest(w - n); piece(lit, n); if (!end) rest(w); } mc::at("width %d, a %s of %d at the %s", w, lit ? "literal" : "run", n, end ? "end" : "start"); one(f, n > 1); } }
    // narrow images whose first pixel looks like a run marker
    for (int w = 1; w < 8; ++w) for (int h = 1; h <= 2; ++h) { if (!mc::mine()) continue; Bytes f = flat(res(0, w, h), w * h); std::size_t d = f.size() - std::size_t(w * h) * 4; f[d] = 2; f[d + 1] = 2; f[d + 2] = 0; f[d + 3] = (unsigned char)w; mc::at("marker-like pixel, %dx%d", w, h); one(f); }
    // every run structure of one channel, one piece possibly reaching too far or empty
    for (int w : {8, 9}) for (int c = 0; c < 4; ++c) { if (w == 9 && !T) continue; std::vector<int> pk; std::function<void(int)> rec = [&](int left) { if (left <= 0) { if (!mc::mine()) return; Bytes f = head(res(0, w, 1)); f.push_back(2); f.push_back(2); f.push_back(0); f.push_back((unsigned char)w); for (int k = 0; k < 4; ++k) { if (k != c) { f.push_back((unsigned char)(128 + w)); f.push_back(val(k, k)); continue; } int q = 0; for (int p : pk) { if (p <= 0) { f.push_back((unsigned char)(128 - p)); f.push_back(val(q, c)); q -= p; } else { f.push_back((unsigned char)p); for (int i = 0; i < p; ++i) f.push_back(val(q + i, c)); q += p; } } } std::string s; for (int p : pk) s += std::to_string(p) + " "; mc::at("width %d channel %d pieces %s", w, c, s.c_str()); one(f, pk.size() > 1); f.pop_back(); mc::at("width %d channel %d pieces %s, last byte missing", w, c, s.c_str()); one(f); return; } for (int n = 1; n <= left + (left == w ? 2 : 0); ++n) for (int sg : {1, -1}) { pk.push_back(n * sg); rec(left - n); pk.pop_back(); } }; rec(w); }
    // every short piece stream after a run marker
    if (true) { static const unsigned char A[] = {0, 1, 2, 4, 8, 127, 128, 129, 132, 136, 255}; const int D = T ? 6 : 5; for (int n = 0; n <= D; ++n) { long N = 1; for (int i = 0; i < n; ++i) N *= 11; for (long k = 0; k < N; ++k) { if (!mc::mine()) continue; Bytes f = head("-Y 1 +X 8"); f.push_back(2); f.push_back(2); f.push_back(0); f.push_back(8); long q = k; std::string s; for (int i = 0; i < n; ++i) { f.push_back(A[q % 11]); s += mc::fmt("%02x ", A[q % 11]); q /= 11; } for (int t = 0; t < 2; ++t) { mc::at("stream %s%s", s.c_str(), t ? "and four full runs" : ""); one(f); for (int c = 0; c < 4; ++c) { f.push_back(136); f.push_back((unsigned char)(c + 130)); } } } } }
    // damage
    std::vector<std::pair<std::string, Bytes>> base = {{"flat 3x2", flat(res(0, 3, 2), 6)}, {"flat 9x1 flipped", flat(res(3, 9, 1), 9)}, {"runs 9x2", rle(res(0, 9, 2), 9, 2)}, {"runs 130x1", rle(res(2, 130, 1), 130, 1)}};
    for (auto& [nm, f] : base) { for (std::size_t n = 0; n < f.size(); ++n) { if (!mc::mine()) continue; mc::at("%s cut to %zu bytes", nm.c_str(), n); one(Bytes(f.begin(), f.begin() + std::ptrdiff_t(n))); } for (std::size_t o = 0; o < std::min<std::size_t>(f.size(), T ? 400 : 130); ++o) { if (!mc::mine()) continue; for (unsigned v = 0; v < 256; ++v) { Bytes g = f; g[o] = (unsigned char)v; mc::at("%s byte %zu = %u", nm.c_str(), o, v); one(g, f[o] != v); } for (unsigned v : {0u, 10u, 13u, 255u}) { Bytes g = f; g.insert(g.begin() + std::ptrdiff_t(o), (unsigned char)v); mc::at("%s byte %u inserted at %zu", nm.c_str(), v, o); one(g); } Bytes g = f; g.erase(g.begin() + std::ptrdiff_t(o)); mc::at("%s byte %zu removed", nm.c_str(), o); one(g); } }
    // dimensions the data cannot fill, and unreadable ones
    static const char* ds[] = {"-1", "0", "1", "2", "7", "8", "127", "128", "32767", "32768", "65535", "1000000", "715827883", "1431655766", "2147483647", "2147483648", "4294967296", "4294967297", "99999999999999999999", "x", "", "+3"}; for (auto a : ds) for (auto b : ds) { if (!mc::mine()) continue; for (int o = 0; o < 4; ++o) for (int n : {0, 1, 2, 8, 100}) { Bytes f = head(std::string(ors[o][0]) + " " + a + " " + ors[o][1] + " " + b); for (int i = 0; i < n; ++i) for (int c = 0; c < 4; ++c) f.push_back(val(i, c)); mc::at("%s %s %s %s with %d pixels", ors[o][0], a, ors[o][1], b, n); one(f); } }
    for (const char* l : {"+X 2 -Y 1", "-X 2 +Y 1", "Y 1 X 2", "-Y 1", "2 1", "", "-Y 1 +X", "-Z 1 +X 2", "+X 1 -X 2", "-Y1+X2"}) { if (!mc::mine()) continue; mc::at("resolution line '%s'", l); one(flat(l, 2)); }
    if (mc::mine()) { Bytes f = rle(res(0, 9, 2), 9, 2); std::string p = mc::S().scratch + "/a.hdr"; { std::ofstream o(p, std::ios::binary); o.write((const char*)f.data(), std::streamsize(f.size())); } mc::at("file"); mc::evaluated(true); auto a = read_image_hdr(fs::path(p)), b = read_image_hdr(f.data(), f.size()); bool same = a.image.size() == b.image.size(); for (std::size_t i = 0; same && i < a.image.size(); ++i) same = a.image[i][0] == b.image[i][0] && a.image[i][2] == b.image[i][2]; mc::check(same, "file", "file and memory differ"); auto m = read_image_hdr_mono(fs::path(p)), m2 = read_image_hdr_mono(f.data(), f.size()); same = m.image.size() == m2.image.size(); for (std::size_t i = 0; same && i < m.image.size(); ++i) same = m.image[i] == m2.image[i]; mc::check(same, "file", "mono file and memory differ"); mc::check(mc::throws([&] { (void)read_image_hdr(fs::path(p + "x")); }), "missing", "a missing file is accepted"); }
    return mc::finish();
}
