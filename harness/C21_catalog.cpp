// C21: every small catalogue over a lattice of magnitudes, in every order, read back with every limit; every truncation, header damage and write-failure point of the file.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/util/paths.hpp"
#include "huira/stars/io/tycho2_id.hpp"
#include "huira/stars/io/star_catalog.hpp"
#include <sys/resource.h>
#include <csignal>
#include "mc.hpp"
using namespace huira;
using Bytes = std::string;
static Bytes slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(i), {}); }
static void spit(const std::string& p, const Bytes& b) { std::ofstream o(p, std::ios::binary); o.write(b.data(), std::streamsize(b.size())); }
static std::string tmp(int k = 0) { return mc::S().scratch + mc::fmt("/k%d_%d.hrsc", mc::S().shard, k); }
static const float INF = std::numeric_limits<float>::infinity(), QNAN = std::numeric_limits<float>::quiet_NaN();
static const float MAG[] = {-1.46f, 0.f, 5.f, 5.0000005f, 12.25f, INF, -INF, QNAN};
static StarData star(int n, float mag) { StarData s; s.id = pack_tycho2_id(std::uint16_t(1 + n * 37 % 9537), std::uint16_t(n * 977 % 12121), std::uint8_t(1 + n % 3)); s.RA = 0.1 * n; s.DEC = n % 2 ? -0.7 / (n + 1) : 1.1; s.pmRA = float(n) * 10.5f; s.pmDEC = n == 3 ? QNAN : -float(n); s.solid_angle = n == 2 ? std::numeric_limits<double>::quiet_NaN() : 1e-17 * (n + 1); s.temperature = n == 4 ? QNAN : 3000.f + float(n); s.visual_magnitude = mag; return s; }
static bool same(const StarData& a, const StarData& b) { auto bits = [](auto x, auto y) { return !std::memcmp(&x, &y, sizeof x) || (std::isnan(x) && std::isnan(y)); }; return a.id == b.id && bits(a.RA, b.RA) && bits(a.DEC, b.DEC) && bits(a.pmRA, b.pmRA) && bits(a.pmDEC, b.pmDEC) && bits(a.solid_angle, b.solid_angle) && bits(a.temperature, b.temperature) && bits(a.visual_magnitude, b.visual_magnitude); }
static std::vector<StarData> within(const std::vector<StarData>& v, float lim) { std::vector<StarData> o; for (auto& s : v) if (!std::isnan(s.visual_magnitude) && s.visual_magnitude <= lim) o.push_back(s); return o; }
// the same stars, in magnitude order
static bool equal(const std::vector<StarData>& got, std::vector<StarData> want) { if (got.size() != want.size()) return false; for (std::size_t i = 0; i + 1 < got.size(); ++i) if (got[i].visual_magnitude > got[i + 1].visual_magnitude) return false; for (auto& g : got) { auto it = std::find_if(want.begin(), want.end(), [&](const StarData& w) { return same(g, w); }); if (it == want.end()) return false; want.erase(it); } return true; }
static void check_catalog(const std::vector<StarData>& v, CatalogType type, const std::string& p)
{
    StarCatalog c(v); c.set_catalog_type(type); c.write_star_data(p); mc::check(c.get_star_data().size() == v.size() && std::equal(v.begin(), v.end(), c.get_star_data().begin(), same), "source", "writing changes the catalogue");
    StarCatalog full = StarCatalog::read_star_data(p); mc::check(equal(full.get_star_data(), within(v, INF)), "full", "%zu stars come back for %zu, or others, or out of order", full.size(), within(v, INF).size());
    std::vector<float> lims = {-INF, INF, -2.f, 4.9999995f, 6.f, 1e30f}; for (float m : MAG) if (std::isfinite(m)) { lims.push_back(m); lims.push_back(std::nextafterf(m, INF)); lims.push_back(std::nextafterf(m, -INF)); }
    for (float l : lims) { StarCatalog r = StarCatalog::read_star_data(p, l); mc::check(equal(r.get_star_data(), within(v, l)), "limit", "limit %.9g: %zu stars for %zu", double(l), r.size(), within(v, l).size()); StarCatalog k(v); k.clip_by_magnitude(l); auto w = within(v, l); mc::check(k.size() == w.size() && std::equal(w.begin(), w.end(), k.begin(), same), "clip", "clipping at %.9g leaves %zu stars for %zu", double(l), k.size(), w.size());
        for (std::size_t i = 0; i < r.size(); ++i) { std::uint16_t a, b; std::uint8_t d; unpack_tycho2_id(r[i].id, a, b, d); std::string want = type == CatalogType::Tycho2 ? mc::fmt("TYC %u-%u-%u", a, b, d) : std::to_string(r[i].id); mc::check(r.get_star_id(i) == want, "identifier", "star %zu is called %s, not %s", i, r.get_star_id(i).c_str(), want.c_str()); } mc::check(mc::throws([&] { (void)r.get_star_id(r.size()); }), "identifier", "a star past the end has an identifier"); }
    StarCatalog s(v); s.sort(); auto& sd = s.get_star_data(); auto fin = within(v, INF); mc::check(sd.size() == v.size() && equal(std::vector<StarData>(sd.begin(), sd.begin() + std::ptrdiff_t(fin.size())), fin), "sort", "sorting leaves the stars out of order");
    StarCatalog a; for (auto& x : v) a.add_star(x); mc::check(a.size() == v.size() && a.empty() == v.empty() && std::equal(v.begin(), v.end(), a.cbegin(), same), "add", "added stars differ");
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1); const bool T = mc::thorough();
    auto guard = [](auto f) { try { f(); } catch (const std::exception& e) { mc::check(false, "refused", "%s", e.what()); } };
    mc::sequences(8, T ? 5 : 4, [&](const std::vector<int>& q) { std::vector<StarData> v; std::string t; for (std::size_t i = 0; i < q.size(); ++i) { v.push_back(star(int(i), MAG[q[i]])); t += mc::fmt("%g ", double(MAG[q[i]])); } mc::at("magnitudes %s", t.c_str()); mc::evaluated(q.size() > 1); guard([&] { check_catalog(v, q.size() % 2 ? CatalogType::Tycho2 : CatalogType::Unknown, tmp()); }); return true; });
    for (int n : {6, 7, 8, 9, 15, 16, 17, 31, 33, 100, 1000}) for (int pat = 0; pat < 5; ++pat) { if (!mc::mine()) continue; std::vector<StarData> v; for (int i = 0; i < n; ++i) v.push_back(star(i, pat == 0 ? float(i) * 0.01f : pat == 1 ? float(n - i) * 0.01f : pat == 2 ? float(i * 7919 % 97) * 0.15f - 1 : pat == 3 ? 5.f : i % 3 ? MAG[i % 8] : 5.f)); mc::at("%d stars, pattern %d", n, pat); mc::evaluated(true); guard([&] { check_catalog(v, CatalogType::Tycho2, tmp()); for (int i = 0; i < n; i += (n > 50 ? 7 : 1)) { float l = v[std::size_t(i)].visual_magnitude; if (!std::isnan(l)) mc::check(equal(StarCatalog::read_star_data(tmp(), l).get_star_data(), within(v, l)), "limit", "limit %.9g", double(l)); } }); }
    // every identifier part
    for (int a : {0, 1, 2, 255, 256, 4095, 4096, 9537, 16383}) for (int b : {0, 1, 255, 4096, 12121, 65535}) for (int d = 0; d < 16; ++d) { if (!mc::mine()) continue; mc::at("identifier %d-%d-%d", a, b, d); mc::evaluated(true); std::uint16_t x, y; std::uint8_t z; auto id = pack_tycho2_id(std::uint16_t(a), std::uint16_t(b), std::uint8_t(d)); unpack_tycho2_id(id, x, y, z); mc::check(x == a && y == b && z == d && format_tycho2_id(id) == mc::fmt("TYC %d-%d-%d", a, b, d), "identifier", "comes back as %s", format_tycho2_id(id).c_str()); }
    // damage
    for (int n : {0, 1, 2, 5, 40}) {
        std::vector<StarData> v; for (int i = 0; i < n; ++i) v.push_back(star(i, float(i % 7))); std::string p = tmp(1); StarCatalog c(v); c.set_catalog_type(CatalogType::Tycho2); c.write_star_data(p); Bytes good = slurp(p); mc::check(good.size() == sizeof(HrscHeader) + std::size_t(n) * sizeof(StarData), "size", "%zu bytes for %d stars", good.size(), n);
        static const float L[] = {INF, 3.f, -INF}; auto intact = [&](const Bytes& g, bool may, const char* key) { spit(p, g); for (float l : L) { try { auto r = StarCatalog::read_star_data(p, l); mc::check(may && equal(r.get_star_data(), within(v, l)), key, "limit %g: %zu stars are returned", double(l), r.size()); mc::outcome("read"); } catch (const std::bad_alloc&) { mc::check(false, key, "runs out of memory"); } catch (const std::length_error&) { mc::check(false, key, "asks for an impossible size"); } catch (const std::exception&) { mc::outcome("refused"); mc::check(true, key, ""); } } };
        for (std::size_t k = 0; k < good.size(); k += n > 10 && !T ? 5 : 1) { if (!mc::mine()) continue; mc::at("%d stars cut to %zu of %zu bytes", n, k, good.size()); mc::evaluated(k > 0); intact(good.substr(0, k), false, "truncated"); }
        for (std::size_t o = 0; o < sizeof(HrscHeader); ++o) for (int b = 0; b < 256; ++b) { if (!mc::mine()) continue; if ((unsigned char)good[o] == b) continue; Bytes g = good; g[o] = char(b); mc::at("%d stars, header byte %zu = %d", n, o, b); mc::evaluated(true); bool counts = o >= offsetof(HrscHeader, star_count); intact(g, !(o < 5 || counts), "header"); }
        for (std::size_t x : {1u, 20u, 47u, 48u, 49u, 96u}) { if (!mc::mine()) continue; mc::at("%d stars and %zu more bytes", n, x); mc::evaluated(true); intact(good + Bytes(x, 'x'), x % 48 == 0 ? false : true, "longer"); }
        if (mc::mine()) { mc::at("after damage, %d stars", n); guard([&] { spit(p, good); mc::check(equal(StarCatalog::read_star_data(p).get_star_data(), within(v, INF)), "after", "the intact file reads differently"); }); }
    }
    // writes that fail
    std::signal(SIGXFSZ, SIG_IGN); rlimit old; getrlimit(RLIMIT_FSIZE, &old);
    for (int n : {0, 1, 3, 200, 2000}) { std::vector<StarData> v; for (int i = 0; i < n; ++i) v.push_back(star(i, float(i % 7))); std::string p = tmp(2); StarCatalog c(v); c.write_star_data(p); std::uintmax_t full = fs::file_size(p), step = full < 300 || T ? 1 : 97; if (T && n == 2000) step = 11; for (std::uintmax_t k = 0; k < full; k = full - k <= 2 * step ? k + 1 : k + step) { if (!mc::mine()) continue; mc::at("%d stars, no space after %zu of %zu bytes", n, std::size_t(k), std::size_t(full)); mc::evaluated(k > 0); fs::remove(p); rlimit l = old; l.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &l); bool t = mc::throws([&] { c.write_star_data(p); }); setrlimit(RLIMIT_FSIZE, &old); mc::check(t, "write-failure", "the failed write is not reported"); if (t && fs::exists(p)) mc::check(mc::throws([&] { (void)StarCatalog::read_star_data(p); }), "partial", "the partial file is read"); } fs::remove(p); guard([&] { c.write_star_data(p); mc::check(fs::file_size(p) == full, "after", "a later write fails"); }); }
    if (mc::mine()) { mc::at("no such file"); mc::evaluated(true); mc::check(mc::throws([&] { (void)StarCatalog::read_star_data(mc::S().scratch + "/none.hrsc"); }), "missing", "a missing file is read"); StarCatalog c; mc::check(mc::throws([&] { c.write_star_data(mc::S().scratch + "/no/such/dir.hrsc"); }), "unwritable", "writing into a missing directory is not reported"); fs::create_directories(mc::S().scratch + "/d.hrsc"); mc::check(mc::throws([&] { c.write_star_data(mc::S().scratch + "/d.hrsc"); }) && mc::throws([&] { (void)StarCatalog::read_star_data(mc::S().scratch + "/d.hrsc"); }), "unwritable", "a directory is read or written"); }
    return mc::finish();
}
