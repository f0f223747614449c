// C20: FITS files of every small size, depth and sensor range, checked by an independent parser and read back; every keyword field alone, in pairs and together; every point at which a write can fail; foreign and damaged files.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/image.hpp"
#include "huira/images/io/fits_io.hpp"
#include <sys/resource.h>
#include <csignal>
#include "mc.hpp"
using namespace huira;
using Bytes = std::string;
static std::string tmp(int k = 0) { return mc::S().scratch + mc::fmt("/f%d_%d.fits", mc::S().shard, k); }
static Bytes slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(i), {}); }
static void spit(const std::string& p, const Bytes& b) { std::ofstream o(p, std::ios::binary); o.write(b.data(), std::streamsize(b.size())); }
static std::string trim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }

// ---- independent reader -------------------------------------------------------------
struct Card { std::string key, value, comment, text; };
struct Fits {
    std::string bad; std::vector<Card> cards; int bitpix = 0; long w = 0, h = 0; double bscale = 1, bzero = 0; std::optional<long> blank; std::vector<double> raw;   // file order
    const Card* find(const std::string& k) const { for (auto& c : cards) if (c.key == k) return &c; return nullptr; }
    std::optional<double> num(const std::string& k) const { auto c = find(k); if (!c || c->value.empty()) return std::nullopt; return std::strtod(c->value.c_str(), nullptr); }
    std::size_t count(const std::string& k) const { std::size_t n = 0; for (auto& c : cards) n += c.key == k; return n; }
};
static std::string unquote(const std::string& v) { std::string o; if (v.size() < 2 || v[0] != '\'') return v; for (std::size_t i = 1; i < v.size(); ++i) { if (v[i] == '\'') { if (i + 1 < v.size() && v[i + 1] == '\'') { o += '\''; ++i; } else break; } else o += v[i]; } return trim(o); }
static Fits parse(const Bytes& b)
{
    Fits f; if (b.size() % 2880 || b.empty()) { f.bad = mc::fmt("the file is %zu bytes long", b.size()); return f; }
    std::size_t o = 0; bool end = false;
    for (; o + 80 <= b.size() && !end; o += 80) {
        Card c; c.text = b.substr(o, 80); for (char ch : c.text) if (ch < 32 || ch > 126) { f.bad = "the header is not ASCII"; return f; }
        c.key = trim(c.text.substr(0, 8)); if (c.key == "END") { if (trim(c.text) != "END") f.bad = "END card"; end = true; continue; }
        if (c.text.substr(8, 2) == "= ") { std::string v = c.text.substr(10); std::size_t i = 0; while (i < v.size() && v[i] == ' ') ++i; std::size_t e; if (i < v.size() && v[i] == '\'') { e = i + 1; for (;;) { if (e >= v.size()) { f.bad = "open string in " + c.text; return f; } if (v[e] == '\'') { if (e + 1 < v.size() && v[e + 1] == '\'') { e += 2; continue; } ++e; break; } ++e; } } else e = v.find('/', i); c.value = trim(v.substr(i, e == std::string::npos ? e : e - i)); if (e != std::string::npos) { std::size_t s = v.find('/', e); if (s != std::string::npos) { c.comment = trim(v.substr(s + 1)); if (!c.comment.empty() && c.comment[0] == ' ') c.comment.erase(0, 1); } } }
        f.cards.push_back(c);
    }
    if (!end) { f.bad = "no END card"; return f; } while (o % 2880) if (b[o++] != ' ') { f.bad = "header padding"; return f; }
    static const char* first[] = {"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2"}; for (std::size_t i = 0; i < 5; ++i) if (f.cards.size() <= i || f.cards[i].key != first[i] || f.count(first[i]) != 1) { f.bad = std::string("mandatory keyword ") + first[i]; return f; }
    if (f.cards[0].value != "T" || f.num("NAXIS") != 2.0) { f.bad = "SIMPLE or NAXIS"; return f; } for (const char* k : {"BITPIX", "NAXIS1", "NAXIS2", "BLANK"}) { auto c = f.find(k); if (c && (c->value.empty() || c->value.size() > 11 || c->value.find_first_not_of("-0123456789") != std::string::npos)) { f.bad = std::string("value of ") + k; return f; } } if (f.num("NAXIS1") < 0 || f.num("NAXIS2") < 0) { f.bad = "negative size"; return f; } f.bitpix = int(*f.num("BITPIX")); f.w = long(*f.num("NAXIS1")); f.h = long(*f.num("NAXIS2")); f.bscale = f.num("BSCALE").value_or(1); f.bzero = f.num("BZERO").value_or(0); if (f.find("BLANK")) { f.blank = long(*f.num("BLANK")); if (f.bitpix < 0) { f.bad = "BLANK in a floating-point image"; return f; } }
    std::size_t bs = std::size_t(std::abs(f.bitpix) / 8), need = bs * std::size_t(f.w * f.h); if (b.size() - o != (need + 2879) / 2880 * 2880) { f.bad = mc::fmt("%zu bytes of data for %zu", b.size() - o, need); return f; }
    for (std::size_t i = 0; i < std::size_t(f.w * f.h); ++i) { std::uint64_t u = 0; for (std::size_t k = 0; k < bs; ++k) u = u << 8 | (unsigned char)b[o + i * bs + k]; double v; if (f.bitpix == 8) v = double(u); else if (f.bitpix == 16) v = double((std::int16_t)u); else if (f.bitpix == 32) v = double((std::int32_t)u); else if (f.bitpix == -32) { std::uint32_t q = (std::uint32_t)u; float x; std::memcpy(&x, &q, 4); v = double(x); } else std::memcpy(&v, &u, 8); f.raw.push_back(v); }
    for (std::size_t i = o + need; i < b.size(); ++i) if (b[i]) { f.bad = "data padding"; return f; }
    return f;
}
// ---- images ---------------------------------------------------------------------------
static const float lat[] = {0.f, 1.f, 0.5f, 0.25f, 1.f / 255, 254.f / 255, 0.1f, 0.9999f, 1e-6f, 0.4f / 255, 0.6f / 255, 100.4f / 255, 100.6f / 255, 0.5001f, 0.75f, 3000.4f / 4095, 3000.6f / 4095, 40000.3f / 65535, -0.5f, 1.5f, 1e9f, -1e9f, 1e-30f, 3e38f};
static const int NL = int(sizeof(lat) / sizeof(*lat));
static void verify(const std::string& p, const Image<float>& im, int depth, double saturate = 0)
{
    Fits f = parse(slurp(p)); if (!mc::check(f.bad.empty(), "structure", "%s", f.bad.c_str())) return; int w = im.width(), h = im.height(), sb = im.sensor_bit_depth();
    if (!mc::check(f.bitpix == depth && f.w == w && f.h == h, "header", "BITPIX %d, %ldx%ld", f.bitpix, f.w, f.h)) return;
    const bool in = depth > 0; const double full = depth == 8 ? 255.0 : depth == 16 ? 65535.0 : 4294967295.0, adc = sb > 0 ? std::pow(2.0, sb) - 1 : full; bool undef = false; double lo = INFINITY, hi = -INFINITY;
    for (std::size_t i = 0; i < im.size(); ++i) undef |= !std::isfinite(im[i]);
    mc::check(f.blank.has_value() == (in && undef), "blank", "BLANK is %s", f.blank ? "written" : "missing");
    auto back = read_image_fits(p); if (!mc::check(back.first.width() == w && back.first.height() == h, "read-size", "reads as %dx%d", back.first.width(), back.first.height())) return;
    double sat = saturate > 0 ? saturate : adc;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        double raw = f.raw[std::size_t((h - 1 - y) * w + x)], v = raw * f.bscale + f.bzero, got = double(back.first(x, y)); float px = im(x, y);
        if (!in) { if (std::isfinite(px)) { mc::check(v == double(px), "pixel", "(%d,%d): %.9g is stored as %.9g", x, y, double(px), v); mc::check(float(got) == px, "read", "(%d,%d): %.9g reads back as %.9g", x, y, double(px), got); } else mc::check(!std::isfinite(v) && !std::isfinite(got), "pixel", "(%d,%d): an undefined pixel is stored as %.9g", x, y, v); }
        else if (!std::isfinite(px)) { mc::check(f.blank && raw == double(*f.blank), "pixel", "(%d,%d): an undefined pixel is stored as %.9g", x, y, v); mc::check(std::isnan(got), "read", "(%d,%d): an undefined pixel reads as %.9g", x, y, got); }
        else { double q = std::clamp(double(px) * adc, 0.0, full), tol = 0.5 + q * 2e-7; bool reserved = undef && q < 0.5 + 1e-6; mc::check(std::fabs(v - q) <= tol || (reserved && v == 1), "pixel", "(%d,%d): %.9g x %.0f is stored as %.10g", x, y, double(px), adc, v); mc::check(!f.blank || raw != double(*f.blank), "pixel", "(%d,%d): %.9g is stored as undefined", x, y, double(px)); mc::check(std::fabs(got - v / sat) <= 2e-7 * std::fabs(v / sat), "read", "(%d,%d): %.10g counts of %.0f read as %.9g", x, y, v, sat, got); }
        if (std::isfinite(px)) { lo = std::min(lo, v); hi = std::max(hi, v); }
    }
    if (in) { auto s = f.num("SATURATE"); mc::check(s && std::fabs(*s - sat) <= 1e-9 * sat, "saturate", "SATURATE is %.10g", s.value_or(-1)); mc::check(back.first.sensor_bit_depth() == int(std::lround(std::log2(sat + 1))), "sensor-bits", "reads %d sensor bits", back.first.sensor_bit_depth()); }
    if (lo <= hi) { auto a = f.num("DATAMIN"), b = f.num("DATAMAX"); mc::check(a && b && std::fabs(*a - lo) <= 1e-9 * std::fabs(lo) && std::fabs(*b - hi) <= 1e-9 * std::fabs(hi), "range", "DATAMIN %.10g DATAMAX %.10g for %.10g to %.10g", a.value_or(-1), b.value_or(-1), lo, hi); }
    else mc::check(!f.find("DATAMIN") || *f.num("DATAMIN") <= f.num("DATAMAX").value_or(0), "range", "an image of undefined pixels has a range");
}
static void images(int M)
{
    for (int depth : {8, 16, 32, -32, -64}) for (int w = 1; w <= M + 2; ++w) for (int h = 1; h <= M + 2; ++h) for (int sb : {0, 1, 8, 10, 12, 14, 16, 24, 32}) for (int und = 0; und < 4; ++und) {
        if (depth < 0 && sb > 1) continue; if (!mc::mine()) continue; int W = w <= M ? w : w == M + 1 ? 37 : 1500, H = h <= M ? h : h == M + 1 ? 41 : 2; if (W == 1500 && h < M) continue;
        Image<float> im(W, H); im.set_sensor_bit_depth(sb); for (std::size_t i = 0; i < im.size(); ++i) im[i] = lat[(i * 5 + std::size_t(sb * 3 + und)) % NL]; if (und == 1) im[im.size() / 2] = std::numeric_limits<float>::quiet_NaN(); if (und == 2) im[0] = std::numeric_limits<float>::infinity(); if (und == 3) for (std::size_t i = 0; i < im.size(); ++i) im[i] = -std::numeric_limits<float>::infinity();
        mc::at("BITPIX %d, %dx%d, %d sensor bits, undefined %d", depth, W, H, sb, und); mc::evaluated(W * H > 1); std::string p = tmp();
        if (und & 1) spit(p, std::string(6000, 'x'));   // the file may exist
        else fs::remove(p);
        try { write_image_fits(p, im, depth); verify(p, im, depth); FitsMetadata m; m.saturate = 1000; m.object = "M 31"; write_image_fits(p, im, depth, m); verify(p, im, depth, 1000); } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); }
    }
    // every level of the small ranges
    for (auto [depth, sb] : std::vector<std::pair<int, int>>{{8, 0}, {8, 4}, {16, 8}, {16, 12}, {16, 16}, {16, 0}, {32, 12}, {32, 16}}) { if (!mc::mine()) continue; int n = depth == 8 ? (sb ? 16 : 256) : sb == 8 ? 256 : sb == 12 ? 4096 : 65536; Image<float> im(256, (n + 255) / 256); im.set_sensor_bit_depth(sb); for (std::size_t i = 0; i < im.size(); ++i) im[i] = float(double(std::min(int(i), n - 1)) / (n - 1)); mc::at("every level, BITPIX %d, %d sensor bits", depth, sb); mc::evaluated(true); std::string p = tmp(); write_image_fits(p, im, depth); verify(p, im, depth); Fits f = parse(slurp(p)); if (f.raw.size() == im.size()) for (int i = 0; i < n; ++i) { int y = i / 256, x = i % 256; double v = f.raw[std::size_t((im.height() - 1 - y) * 256 + x)] + f.bzero; mc::check(v == i, "level", "level %d is stored as %.1f", i, v); }
        auto r = read_image_fits(p); write_image_fits(tmp(1), r.first, depth); Fits g = parse(slurp(tmp(1))); mc::check(g.raw == f.raw, "idempotent", "a second round trip changes the pixels"); }
    if (mc::mine()) { mc::at("refusals"); mc::evaluated(true); std::string p = tmp(); spit(p, "keep"); mc::check(mc::throws([&] { write_image_fits(p, Image<float>()); }), "empty", "an empty image is accepted"); for (int d : {0, 1, 7, 9, 12, 24, 64, -8, -16, -1, 20, 40}) mc::check(mc::throws([&] { write_image_fits(p, Image<float>(2, 2), d); }), "depth", "depth %d is accepted", d); mc::check(slurp(p) == "keep", "refused", "a refused write changes the file"); mc::check(mc::throws([&] { (void)read_image_fits(mc::S().scratch + "/none.fits"); }), "missing", "a missing file is accepted"); mc::check(mc::throws([&] { (void)read_image_fits(p); }), "foreign", "a file that is not FITS is accepted");
        for (const char* n : {"a b.fits", "a(1).fits", "b[2].fits", "c+1.fits", "e.fit", "f[1:2,1:2].fits", "g/h/i.fits"}) { std::string q = mc::S().scratch + "/" + n; mc::at("file name %s", n); Image<float> im(3, 2); for (std::size_t i = 0; i < 6; ++i) im[i] = float(i); try { write_image_fits(q, im); bool ok = fs::exists(q); mc::check(ok, "name", "no such file is written"); if (ok) { auto r = read_image_fits(q); mc::check(r.first.width() == 3 && r.first(2, 1) == 5.f, "name", "reads differently"); } } catch (const std::exception& e) { mc::check(false, "name", "refused: %s", e.what()); } } }
}
// ---- keywords ---------------------------------------------------------------------------
struct Field { std::string name; std::function<void(FitsMetadata&, int)> set; std::function<void(const Fits&, const FitsMetadata&, const FitsMetadata&)> look; };
static bool nearly(double a, double b, double r) { return a == b || std::fabs(a - b) <= r * std::max(std::fabs(a), std::fabs(b)); }
static const std::string STR[] = {"M31", "it's a 'quoted' name", "a / slash, = sign & more", std::string(68, 'x'), "  leading blanks", "T", "12.5"};
static const double NUM[] = {1.5, -0.1234567891, 359.99999999, 1e-300, -2e300, 0.0, 1e10 / 3};
static std::vector<Field> fields()
{
    std::vector<Field> v;
    auto str = [&](const char* k, std::string FitsMetadata::* m) { v.push_back({k, [m](FitsMetadata& x, int n) { x.*m = STR[n % 7]; }, [k, m](const Fits& f, const FitsMetadata& want, const FitsMetadata& got) { auto c = f.find(k); mc::check(c && unquote(c->value) == want.*m && f.count(k) == 1, "keyword", "%s = '%s' is written as %s", k, (want.*m).c_str(), c ? c->value.c_str() : "nothing"); mc::check(got.*m == want.*m, "keyword-read", "%s = '%s' reads as '%s'", k, (want.*m).c_str(), (got.*m).c_str()); }}); };
    auto dbl = [&](const char* k, std::optional<double> FitsMetadata::* m) { v.push_back({k, [m](FitsMetadata& x, int n) { x.*m = NUM[n % 7]; }, [k, m](const Fits& f, const FitsMetadata& want, const FitsMetadata& got) { auto c = f.num(k); mc::check(c && nearly(*c, *(want.*m), 1e-10) && f.count(k) == 1, "keyword", "%s = %.17g is written as %.17g", k, *(want.*m), c.value_or(NAN)); mc::check((got.*m).has_value() && nearly(*(got.*m), *(want.*m), 1e-10), "keyword-read", "%s = %.17g reads as %.17g", k, *(want.*m), (got.*m).value_or(NAN)); }}); };
    str("OBJECT", &FitsMetadata::object); str("TELESCOP", &FitsMetadata::telescop); str("INSTRUME", &FitsMetadata::instrume); str("OBSERVER", &FitsMetadata::observer); str("DATE-OBS", &FitsMetadata::date_obs); str("ORIGIN", &FitsMetadata::origin); str("FILTER", &FitsMetadata::filter); str("BUNIT", &FitsMetadata::bunit); str("CTYPE1", &FitsMetadata::ctype1); str("CTYPE2", &FitsMetadata::ctype2);
    dbl("DATAMIN", &FitsMetadata::datamin); dbl("DATAMAX", &FitsMetadata::datamax); dbl("SATURATE", &FitsMetadata::saturate); dbl("CRPIX1", &FitsMetadata::crpix1); dbl("CRPIX2", &FitsMetadata::crpix2); dbl("CRVAL1", &FitsMetadata::crval1); dbl("CRVAL2", &FitsMetadata::crval2); dbl("CDELT1", &FitsMetadata::cdelt1); dbl("CDELT2", &FitsMetadata::cdelt2);
    v.push_back({"EXPTIME", [](FitsMetadata& x, int n) { static const float e[] = {0.1f, 1e-6f, 3600.f, 1e30f, 0.3333333f, 1.f, 2.f}; x.exptime = e[n % 7]; }, [](const Fits& f, const FitsMetadata& want, const FitsMetadata& got) { auto c = f.num("EXPTIME"); mc::check(c && nearly(*c, double(want.exptime), 1e-6) && nearly(double(got.exptime), double(want.exptime), 1e-6), "keyword", "EXPTIME = %.9g is written as %.9g", double(want.exptime), c.value_or(NAN)); }});
    // positions without a stated equinox are those of J2000
    v.push_back({"CRVAL1 J2000", [](FitsMetadata& x, int n) { if (!x.crval1) x.crval1 = 10 + n; }, [](const Fits& f, const FitsMetadata& want, const FitsMetadata& got) { if (want.equinox != FitsMetadata{}.equinox) return; mc::check(f.num("EQUINOX") == 2000.0 && got.equinox == 2000.0, "equinox", "positions without an equinox are written for %g", f.num("EQUINOX").value_or(NAN)); }});
    v.push_back({"EQUINOX", [](FitsMetadata& x, int n) { x.equinox = 1950 + n; x.radesys = n & 1 ? "FK5" : "FK4"; if (!x.has_wcs()) x.crval1 = 10; }, [](const Fits& f, const FitsMetadata& want, const FitsMetadata& got) { mc::check(f.num("EQUINOX") == want.equinox && got.equinox == want.equinox && f.find("RADESYS") && unquote(f.find("RADESYS")->value) == want.radesys && got.radesys == want.radesys, "keyword", "EQUINOX or RADESYS is lost"); }});
    auto text = [&](const char* k, std::vector<std::string> FitsMetadata::* m) { v.push_back({k, [m](FitsMetadata& x, int n) { for (int i = 0; i <= n; ++i) (x.*m).push_back(i == 1 ? std::string(72, 'y') : mc::fmt("line %d of it's text = 1 / 2", i)); }, [k, m](const Fits& f, const FitsMetadata& want, const FitsMetadata& got) { std::vector<std::string> a, b; for (auto& c : f.cards) if (c.key == k) a.push_back(trim(c.text.substr(8))); for (auto& s : got.*m) b.push_back(trim(s)); auto& w = want.*m; auto tail = [&](const std::vector<std::string>& l) { return l.size() >= w.size() && std::equal(w.begin(), w.end(), l.end() - std::ptrdiff_t(w.size())); }; mc::check(tail(a), "text", "%s lines are lost or out of order", k); mc::check(tail(b), "text-read", "%s lines read differently", k); }}); };
    text("COMMENT", &FitsMetadata::comments); text("HISTORY", &FitsMetadata::history);
    using V = std::variant<std::string, double, int, bool>;
    auto cust = [&](const char* k, std::vector<V> vals) { v.push_back({std::string("custom ") + k, [k, vals](FitsMetadata& x, int n) { x.custom_keywords.push_back({k, vals[std::size_t(n) % vals.size()], n & 1 ? "a note / more" : ""}); }, [k](const Fits& f, const FitsMetadata& want, const FitsMetadata& got) { const FitsKeyword *a = nullptr, *b = nullptr; int nb = 0; for (auto& c : want.custom_keywords) if (c.key == k) a = &c; for (auto& c : got.custom_keywords) if (c.key == k) { b = &c; ++nb; } auto c = f.find(k); if (!mc::check(c && b && nb == 1 && f.count(k) == 1, "custom", "%s is lost", k)) return; mc::check(b->comment == a->comment && c->comment == a->comment, "custom-comment", "%s note '%s' reads as '%s'", k, a->comment.c_str(), b->comment.c_str()); bool ok = a->value.index() == b->value.index(); if (ok) { if (auto d = std::get_if<double>(&a->value)) ok = nearly(*d, std::get<double>(b->value), 1e-10) && nearly(*d, *f.num(k), 1e-10); else ok = a->value == b->value; } mc::check(ok, "custom-read", "%s is written as %s and read as another value or type", k, c->value.c_str()); }}); };
    cust("XINT", {V(0), V(-1), V(std::numeric_limits<int>::max()), V(std::numeric_limits<int>::min()), V(12345)}); cust("X-DBL", {V(0.5), V(-1e-200), V(1.0), V(123456.789012), V(1e200)}); cust("XBOOL", {V(true), V(false)}); cust("XSTR_1", {V(std::string("abc")), V(std::string("it's")), V(std::string("  x / y")), V(std::string("42")), V(std::string("T")), V(std::string(40, 'z'))});
    return v;
}
static void keywords()
{
    auto F = fields(); const std::size_t n = F.size(); std::vector<std::vector<std::size_t>> sets; for (std::size_t a = 0; a < n; ++a) { sets.push_back({a}); for (std::size_t b = a + 1; b < n; ++b) { sets.push_back({a, b}); if (mc::thorough()) for (std::size_t c = b + 1; c < n; ++c) sets.push_back({a, b, c}); } } std::vector<std::size_t> full; for (std::size_t a = 0; a < n; ++a) full.push_back(a); sets.push_back(full); for (std::size_t a = 0; a < n; ++a) { auto s = full; s.erase(s.begin() + std::ptrdiff_t(a)); sets.push_back(s); }
    Image<float> im(3, 2); for (std::size_t i = 0; i < 6; ++i) im[i] = float(i) / 5;
    for (auto& s : sets) for (int k = 0; k < 7; ++k) for (int depth : {-32, 16}) { if (s.size() >= 2 && s.size() < 10 && (k + depth) % 3) continue; if (!mc::mine()) continue; std::string t; FitsMetadata m; for (std::size_t a : s) { F[a].set(m, k); t += F[a].name + " "; } mc::at("BITPIX %d, value %d of %s", depth, k, t.substr(0, 300).c_str()); mc::evaluated(s.size() > 1); std::string p = tmp(); FitsMetadata before = m;
        try { write_image_fits(p, im, depth, m); } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); continue; } Fits f = parse(slurp(p)); if (!mc::check(f.bad.empty(), "structure", "%s", f.bad.c_str())) continue; auto r = read_image_fits(p); for (std::size_t a : s) F[a].look(f, m, r.second);
        for (std::size_t a = 0; a < n; ++a) if (F[a].name.find(' ') == std::string::npos && std::find(s.begin(), s.end(), a) == s.end()) { auto& nm = F[a].name; if (nm == "DATAMIN" || nm == "DATAMAX" || nm == "SATURATE" || nm == "COMMENT" || nm == "BUNIT" || nm == "EQUINOX" || (nm == "CRVAL1" && std::find_if(s.begin(), s.end(), [&](std::size_t q) { return F[q].name == "EQUINOX" || F[q].name == "CRVAL1 J2000"; }) != s.end())) continue; mc::check(!f.find(nm), "invented", "%s is written though not supplied", nm.c_str()); }
        // what was read is written again unchanged
        write_image_fits(tmp(1), r.first, depth, r.second); auto r2 = read_image_fits(tmp(1)); for (std::size_t a : s) F[a].look(parse(slurp(tmp(1))), m, r2.second); }
    if (mc::mine()) for (double bad : {double(NAN), double(INFINITY)}) { mc::at("keyword value %g", bad); mc::evaluated(true); FitsMetadata m; m.crval1 = bad; mc::check(mc::throws([&] { write_image_fits(tmp(), im, -32, m); }), "not-a-number", "accepted"); }
}
// ---- failing writes -----------------------------------------------------------------------
static void failures()
{
    std::signal(SIGXFSZ, SIG_IGN); rlimit old; getrlimit(RLIMIT_FSIZE, &old);
    for (int depth : {8, 16, 32, -32, -64}) for (int big = 0; big < 3; ++big) { if (!mc::mine()) continue; int w = big == 2 ? 300 : big ? 60 : 4, h = big == 2 ? 100 : big ? 40 : 3; Image<float> im(w, h); for (std::size_t i = 0; i < im.size(); ++i) im[i] = float(i % 251) / 250; std::string p = tmp(40); fs::remove(p); write_image_fits(p, im, depth); std::uintmax_t full = fs::file_size(p), step = mc::thorough() ? 1 : big == 2 ? 719 : 37;
        for (std::uintmax_t k = 0; k < full; k = (k % 2880 > 2 && k % 2880 < 2878 ? std::min(k + step, (k / 2880 + 1) * 2880 - 2) : k + 1)) { mc::at("BITPIX %d %dx%d: no space after %zu of %zu bytes", depth, w, h, std::size_t(k), std::size_t(full)); mc::evaluated(k > 0); fs::remove(p); rlimit l = old; l.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &l); bool t = mc::throws([&] { write_image_fits(p, im, depth); }); setrlimit(RLIMIT_FSIZE, &old); mc::check(t, "write-failure", "the failed write is not reported"); }
        mc::at("BITPIX %d %dx%d after failed writes", depth, w, h); fs::remove(p); write_image_fits(p, im, depth); verify(p, im, depth); }
    if (mc::mine()) { mc::at("unwritable"); mc::evaluated(true); fs::create_directories(mc::S().scratch + "/dir.fits"); mc::check(mc::throws([&] { write_image_fits(mc::S().scratch + "/dir.fits", Image<float>(2, 2)); }), "write-failure", "writing to a directory is not reported"); spit(mc::S().scratch + "/plain", "x"); mc::check(mc::throws([&] { write_image_fits(mc::S().scratch + "/plain/x.fits", Image<float>(2, 2)); }), "write-failure", "writing below a file is not reported"); }
}
// ---- foreign files -------------------------------------------------------------------------
static Bytes foreign(int bitpix, long w, long h, double bscale, double bzero, bool scale, double sat, const std::vector<double>& raw, const std::string& extra = "")
{
    Bytes b; auto card = [&](const std::string& s) { std::string t = s; t.resize(80, ' '); b += t; }; card("SIMPLE  =                    T"); card(mc::fmt("BITPIX  = %20d", bitpix)); card("NAXIS   =                    2"); card(mc::fmt("NAXIS1  = %20ld", w)); card(mc::fmt("NAXIS2  = %20ld", h)); if (scale) { card(mc::fmt("BSCALE  = %20.6f", bscale)); card(mc::fmt("BZERO   = %20.1f", bzero)); } if (sat > 0) card(mc::fmt("SATURATE= %20.1f", sat)); if (!extra.empty()) card(extra); card("END"); b.resize((b.size() + 2879) / 2880 * 2880, ' ');
    for (double v : raw) { std::uint64_t u = 0; int bs = std::abs(bitpix) / 8; if (bitpix > 0) u = std::uint64_t(std::int64_t(v)); else if (bitpix == -32) { float x = float(v); std::uint32_t q; std::memcpy(&q, &x, 4); u = q; } else std::memcpy(&u, &v, 8); for (int k = bs - 1; k >= 0; --k) b += char(u >> (8 * k) & 255); } b.resize((b.size() + 2879) / 2880 * 2880, '\0'); return b;
}
static void readers()
{
    std::string p = tmp(7);
    for (int bitpix : {8, 16, 32, -32, -64}) for (auto [bs, bz, sc] : std::vector<std::tuple<double, double, bool>>{{1, 0, false}, {1, 0, true}, {1, 32768, true}, {1, 2147483648.0, true}, {0.5, 10, true}, {2, -3, true}}) for (double sat : {0.0, 1.0, 200.0, 4095.0, 65535.0}) for (int w = 1; w <= 3; ++w) for (int h = 1; h <= 3; ++h) { if (!mc::mine()) continue; std::vector<double> raw; for (int i = 0; i < w * h; ++i) raw.push_back(bitpix == 8 ? i * 29 % 256 : bitpix == 16 ? i * 7001 - 30000 : bitpix == 32 ? i * 400000001.0 - 2e9 : i * 1.25 - 3); mc::at("foreign BITPIX %d BSCALE %g BZERO %g SATURATE %g %dx%d", bitpix, bs, bz, sat, w, h); mc::evaluated(w * h > 1); spit(p, foreign(bitpix, w, h, bs, bz, sc, sat, raw)); try { auto r = read_image_fits(p); mc::check(r.first.width() == w && r.first.height() == h, "foreign-size", "%dx%d", r.first.width(), r.first.height()); { int want = bitpix > 0 && sat > 0 ? int(std::lround(std::log2(sat + 1))) : Image<float>(1, 1).sensor_bit_depth(); mc::check(r.first.sensor_bit_depth() == want, "foreign-bits", "reads %d sensor bits, expected %d", r.first.sensor_bit_depth(), want); } double div = bitpix < 0 ? 1 : sat > 0 ? sat : 0; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double v = raw[std::size_t((h - 1 - y) * w + x)] * bs + bz, got = double(r.first(x, y)); if (div > 0) mc::check(std::fabs(got - v / div) <= 3e-7 * std::fabs(v / div) + 1e-30, "foreign", "(%d,%d): %.9g reads as %.9g", x, y, v / div, got); else { double full = bitpix == 8 ? 255 : bitpix == 16 ? (bz == 32768 && bs == 1 ? 65535 : 32767) : (bz > 1e9 && bs == 1 ? 4294967295.0 : 2147483647.0); if (bs == 1 && (bz == 0 || bz == (bitpix == 16 ? 32768 : bitpix == 32 ? 2147483648.0 : 0))) mc::check(std::fabs(got - v / full) <= 3e-7 * std::fabs(v / full), "foreign-full", "(%d,%d): %.9g of %.0f reads as %.9g", x, y, v, full, got); } } } catch (const std::exception& e) { mc::check(false, "foreign", "refused: %s", e.what()); } }
    // damage
    for (int bitpix : {8, 16, -32}) { Bytes b = foreign(bitpix, 3, 2, 1, 0, true, 200, {1, 2, 3, 4, 5, 6}); auto safe = [&](const Bytes& g) { spit(p, g); try { auto r = read_image_fits(p); mc::outcome("decoded"); mc::check(r.first.width() > 0 && r.first.height() > 0 && r.first.size() == std::size_t(r.first.width()) * std::size_t(r.first.height()), "damage", "an image of inconsistent size"); auto f = parse(g); if (f.bad.empty()) mc::check(r.first.width() == f.w && r.first.height() == f.h, "damage", "%dx%d, declared %ldx%ld", r.first.width(), r.first.height(), f.w, f.h); } catch (const std::bad_alloc&) { mc::check(false, "memory", "runs out of memory"); } catch (const std::exception&) { mc::outcome("refused"); } };
        for (std::size_t k = 0; k < b.size(); k += (k < 800 || k > b.size() - 2900 ? 7 : 101)) { if (!mc::mine()) continue; mc::at("BITPIX %d cut to %zu of %zu bytes", bitpix, k, b.size()); mc::evaluated(k > 0); spit(p, b.substr(0, k)); bool t = mc::throws([&] { (void)read_image_fits(p); }); mc::check(t || k >= 2880 + 6 * std::size_t(std::abs(bitpix) / 8), "cut", "a file cut off before its last pixel is accepted"); safe(b.substr(0, k)); }
        for (std::size_t k = 0; k < 80 * 9 + 12; ++k) { if (!mc::mine()) continue; for (char c : {'0', '9', '-', ' ', '\'', '=', 'T', '/', '\0', '\xff', char(b[k] ^ 1), char(b[k] ^ 0x80)}) { Bytes g = b; g[k] = c; mc::at("BITPIX %d byte %zu = %d", bitpix, k, c); mc::evaluated(true); safe(g); } }
        for (const char* v : {"0", "1", "-1", "2", "7", "65536", "2147483647", "2147483648", "-2147483648", "4294967296", "4294967297", "9223372036854775807", "99999999999999999999", "1.5", "1E9", "T", ""}) for (int row : {1, 2, 3, 4, 5, 6, 7}) for (const char* v2 : {"", "2", "65536", "2147483647", "4294967297"}) { if (!mc::mine()) continue; Bytes g = b; auto put = [&](int r, const char* s) { std::string t = mc::fmt("%20s", s); g.replace(std::size_t(r) * 80 + 10, 20, t); }; put(row, v); if (*v2) put(row == 4 ? 3 : 4, v2); mc::at("BITPIX %d card %d = %s%s%s", bitpix, row, v, *v2 ? ", size " : "", v2); mc::evaluated(true); safe(g); } }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    auto part = [](auto f) { try { f(); } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); } }; part([] { images(mc::thorough() ? 6 : 3); }); part(keywords); part(failures); part(readers);
    return mc::finish();
}
