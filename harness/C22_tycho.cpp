// C22: Tycho-2 records built field by field from the catalogue's published column layout: every combination of blank and present fields alone, all ordered pairs, every line ending, truncation and byte damage between intact neighbours.
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/util/paths.hpp"
#include "huira/stars/io/tycho2_id.hpp"
#include "huira/stars/io/star_catalog.hpp"
#include "huira/stars/io/load_tycho2.hpp"
#include "mc.hpp"
using namespace huira;
static std::string tmp() { return mc::S().scratch + mc::fmt("/t%d.dat", mc::S().shard); }
static void spit(const std::string& p, const std::string& b) { std::ofstream o(p, std::ios::binary); o.write(b.data(), std::streamsize(b.size())); }
struct Want { bool star = false; std::string id; double ra = 0, dec = 0; float pmra = 0, pmdec = 0; double vmag = 0, temp = 0; };
struct Rec { std::string line, name; Want w; };
// place text in bytes a..b (counted from 1, as the catalogue's ReadMe does), right-aligned
static void put(std::string& l, std::size_t a, std::size_t b, const std::string& t) { std::size_t n = b - a + 1; std::string s = t; if (s.size() < n) s = std::string(n - s.size(), ' ') + s; l.replace(a - 1, n, s); }
struct Pos { const char *ra, *dec; }; static const Pos MEAN[] = {{"2.31750494", "2.23184345"}, {"359.99912345", "-89.12345678"}, {"", "12.00000000"}, {"123.45678901", ""}, {"", ""}, {"0.00000000", "-0.00000100"}};
static const Pos OBS[] = {{"2.31754222", "2.23186444"}, {"271.60102003", "-61.23456789"}, {"", ""}, {"7.10000000", ""}};
struct Pm { const char *ra, *dec; }; static const Pm PM[] = {{"-16.3", "-9.0"}, {"", ""}, {"1034.2", ""}, {"", "-7058.7"}};
struct Mag { const char *bt, *vt; }; static const Mag MAGS[] = {{"12.146", "12.146"}, {"8.670", "7.500"}, {"", "11.200"}, {"13.100", ""}, {"", ""}, {"-0.500", "1.250"}};
static Want finish(Want w, const Mag& m, const Pm& p, double yra, double ydec)
{
    const double mas = M_PI / 180 / 3600 / 1000; if (*p.ra) w.pmra = float(std::atof(p.ra)); if (*p.dec) w.pmdec = float(std::atof(p.dec)); double d0 = w.dec; w.dec += double(w.pmdec) * mas * ydec; w.ra += double(w.pmra) * mas * yra / std::cos((d0 + w.dec) / 2);
    if (!*m.bt && !*m.vt) { w.star = false; return w; } double bt = std::atof(m.bt), vt = std::atof(m.vt), bv = 0.3; if (*m.bt && *m.vt) { w.vmag = vt - 0.09 * (bt - vt); bv = 0.85 * (bt - vt); } else w.vmag = *m.vt ? vt : bt; w.temp = 4600 * (1 / (0.92 * bv + 1.7) + 1 / (0.92 * bv + 0.62)); return w;
}
static std::vector<Rec> mains()
{
    std::vector<Rec> v; int n = 0; auto rad = [](const char* s) { return std::atof(s) * M_PI / 180; };
    for (char flag : {' ', 'P', 'X'}) for (auto& me : MEAN) for (auto& ob : OBS) for (int ep = 0; ep < 4; ++ep) for (auto& pm : PM) for (auto& mg : MAGS) {
        if (flag == 'P' && (ep || &ob != OBS)) continue; if (flag == ' ' && ep > 0 && &ob != OBS + 1) continue; if (flag == 'X' && *pm.ra && *pm.dec && &me > MEAN + 1) continue; if (flag == 'X' && &me > MEAN + 1 && &me < MEAN + 4) continue;
        Rec r; r.line = std::string(206, ' '); for (std::size_t b : {13u, 15u, 28u, 41u, 49u, 57u, 61u, 65u, 70u, 75u, 83u, 91u, 94u, 98u, 102u, 106u, 110u, 117u, 123u, 130u, 136u, 140u, 142u, 152u, 165u, 178u, 183u, 188u, 194u, 200u, 202u}) r.line[b - 1] = '|'; ++n; int t1 = 1 + n * 13 % 9537, t2 = 1 + n * 101 % 12121, t3 = 1 + n % 3; put(r.line, 1, 4, mc::fmt("%04d", t1)); put(r.line, 6, 10, mc::fmt("%05d", t2)); put(r.line, 12, 12, std::to_string(t3)); put(r.line, 14, 14, std::string(1, flag)); put(r.line, 16, 27, me.ra); put(r.line, 29, 40, me.dec); put(r.line, 42, 48, pm.ra); put(r.line, 50, 56, pm.dec); put(r.line, 58, 60, "68"); put(r.line, 62, 64, "73"); put(r.line, 76, 82, "1958.89"); put(r.line, 84, 90, "1951.94"); put(r.line, 111, 116, mg.bt); put(r.line, 118, 122, "0.158"); put(r.line, 124, 129, mg.vt); put(r.line, 131, 135, "0.223"); put(r.line, 137, 139, "999"); put(r.line, 143, 148, "66"); put(r.line, 153, 164, ob.ra); put(r.line, 166, 177, ob.dec); const char* e1 = ep & 1 ? "" : "1.67"; const char* e2 = ep & 2 ? "" : "0.54"; put(r.line, 179, 182, e1); put(r.line, 184, 187, e2); put(r.line, 189, 193, "88.0"); put(r.line, 195, 199, "100.8"); put(r.line, 203, 206, "-0.2");
        Want w; w.id = mc::fmt("TYC %d-%d-%d", t1, t2, t3); double y1 = 0, y2 = 0; if (flag != 'X') { w.star = *me.ra && *me.dec; w.ra = rad(me.ra); w.dec = rad(me.dec); } else { w.star = *ob.ra && *ob.dec && !ep; w.ra = rad(ob.ra); w.dec = rad(ob.dec); y1 = 2000 - 1991.67; y2 = 2000 - 1990.54; } bool s = w.star; w = finish(w, mg, pm, y1, y2); w.star = s && (*mg.bt || *mg.vt); r.w = w; r.name = mc::fmt("flag '%c' mean %s,%s observed %s,%s epochs %s,%s motion %s,%s BT %s VT %s", flag, me.ra, me.dec, ob.ra, ob.dec, e1, e2, pm.ra, pm.dec, mg.bt, mg.vt); v.push_back(r);
    }
    return v;
}
static std::vector<Rec> suppls()
{
    std::vector<Rec> v; int n = 0; auto rad = [](const char* s) { return std::atof(s) * M_PI / 180; };
    for (char flag : {'H', 'T'}) for (auto& me : MEAN) for (auto& pm : PM) for (auto& mg : MAGS) { Rec r; r.line = std::string(122, ' '); for (std::size_t b : {13u, 15u, 28u, 41u, 49u, 57u, 63u, 69u, 75u, 81u, 83u, 90u, 96u, 103u, 109u, 113u, 115u}) r.line[b - 1] = '|'; ++n; int t1 = 2 + n * 17 % 9530, t2 = 1 + n * 103 % 12121, t3 = 1 + n % 3; put(r.line, 1, 4, mc::fmt("%04d", t1)); put(r.line, 6, 10, mc::fmt("%05d", t2)); put(r.line, 12, 12, std::to_string(t3)); r.line[13] = flag; put(r.line, 16, 27, me.ra); put(r.line, 29, 40, me.dec); put(r.line, 42, 48, pm.ra); put(r.line, 50, 56, pm.dec); put(r.line, 58, 62, "1.2"); put(r.line, 64, 68, "0.8"); put(r.line, 70, 74, "1.1"); put(r.line, 76, 80, "0.9"); put(r.line, 84, 89, mg.bt); put(r.line, 91, 95, "0.158"); put(r.line, 97, 102, mg.vt); put(r.line, 104, 108, "0.223"); put(r.line, 110, 112, "999"); put(r.line, 116, 121, "66");
        Want w; w.id = mc::fmt("TYC %d-%d-%d", t1, t2, t3); bool s = *me.ra && *me.dec; w.ra = rad(me.ra); w.dec = rad(me.dec); w = finish(w, mg, pm, 2000 - 1991.25, 2000 - 1991.25); w.star = s && (*mg.bt || *mg.vt); r.w = w; r.name = mc::fmt("supplement '%c' position %s,%s motion %s,%s BT %s VT %s", flag, me.ra, me.dec, pm.ra, pm.dec, mg.bt, mg.vt); v.push_back(r); }
    return v;
}
// the calibration of the solid angle from the library's own public functions, checked elsewhere
static double solid(double vmag, double temp) { static std::map<std::pair<double, double>, double> memo; auto [it, fresh] = memo.try_emplace({vmag, temp}, 0.0); if (fresh) { std::vector<double> l; auto e = johnson_vband_approximation(1000, l); auto r = plancks_law(temp, l); std::vector<double> c(1000); for (std::size_t i = 0; i < 1000; ++i) c[i] = e[i] * r[i] / photon_energy(l[i]); it->second = v_band_irradiance(vmag) / integrate(l, c); } return it->second; }
using Reader = std::vector<StarData> (*)(const fs::path&);
static bool star_is(const StarData& s, const Want& w, std::string& why)
{
    auto n = [&](double a, double b, double r, double t, const char* f) { if (std::fabs(a - b) <= r * std::fabs(b) + t) return true; why = mc::fmt("%s is %.15g, not %.15g", f, a, b); return false; };
    if (format_tycho2_id(s.id) != w.id) { why = format_tycho2_id(s.id) + " for " + w.id; return false; }
    const double ep = 4e-4 * M_PI / 180 / 3600 / 1000;  /* epochs are kept in single precision */ return n(s.RA, w.ra, 1e-13, 1e-12 + ep * std::fabs(double(w.pmra)) / std::cos(w.dec), "RA") && n(s.DEC, w.dec, 1e-13, 1e-13 + ep * std::fabs(double(w.pmdec)), "DEC") && n(double(s.pmRA), double(w.pmra), 0, 0, "pmRA") && n(double(s.pmDEC), double(w.pmdec), 0, 0, "pmDEC") && n(double(s.visual_magnitude), w.vmag, 1e-6, 1e-6, "magnitude") && n(double(s.temperature), w.temp, 1e-6, 0, "temperature") && n(s.solid_angle, solid(w.vmag, w.temp), 1e-9, 0, "solid angle");
}
static void expect(Reader rd, const std::string& text, const std::vector<const Rec*>& recs, const char* key)
{
    spit(tmp(), text); std::vector<StarData> got; try { got = rd(tmp()); } catch (const std::exception& e) { mc::check(false, key, "refused: %s", e.what()); return; } std::vector<const Rec*> want; for (auto r : recs) if (r->w.star) want.push_back(r);
    if (!mc::check(got.size() == want.size(), key, "%zu stars for %zu", got.size(), want.size())) return; for (std::size_t i = 0; i < got.size(); ++i) { std::string why; bool ok = star_is(got[i], want[i]->w, why); mc::check(ok, key, "star %zu (%s): %s", i, want[i]->name.c_str(), why.c_str()); }
}
// a damaged line between two intact ones: whatever it gives, the others are as they were
static void neighbours(Reader rd, const Rec& a, const std::string& mid, const Rec& b)
{
    spit(tmp(), a.line + "\n" + mid + "\n" + b.line + "\n"); std::vector<StarData> got; try { got = rd(tmp()); } catch (const std::exception&) { mc::outcome("refused"); return; } mc::outcome(got.size() == 2 ? "skipped" : "read"); std::string why; if (!mc::check(got.size() >= 2 && got.size() <= 2 + 1 + std::size_t(std::count(mid.begin(), mid.end(), '\n')), "neighbour", "%zu stars", got.size())) return; bool ok = star_is(got.front(), a.w, why); mc::check(ok, "neighbour", "the record before: %s", why.c_str()); ok = star_is(got.back(), b.w, why); mc::check(ok, "neighbour", "the record after: %s", why.c_str());
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1); const bool T = mc::thorough();
    for (int kind = 0; kind < 2; ++kind) {
        auto R = kind ? suppls() : mains(); Reader rd = kind ? read_tycho2_suppl : read_tycho2_dat;
        for (auto& r : R) { if (!mc::mine()) continue; mc::at_s(r.name); mc::evaluated(r.w.star); expect(rd, r.line + "\n", {&r}, "record"); expect(rd, r.line, {&r}, "no-newline"); expect(rd, r.line + "\r\n", {&r}, "line-ending"); expect(rd, r.line + "\r\n" + r.line, {&r, &r}, "line-ending"); }
        // ordered pairs and triples
        std::vector<const Rec*> P; std::size_t step = T ? 7 : 23; for (std::size_t i = 0; i < R.size(); i += step) P.push_back(&R[i]); std::size_t alive = 0; for (auto& r : R) if (r.w.star && alive < 6) { P.push_back(&r); ++alive; }
        for (auto a : P) { for (auto b : P) { if (!mc::mine()) continue; mc::at("%s, then %s", a->name.c_str(), b->name.c_str()); mc::evaluated(a->w.star || b->w.star); expect(rd, a->line + "\n" + b->line + "\n", {a, b}, "pair"); expect(rd, a->line + "\n" + b->line, {a, b}, "pair-no-newline"); static const char* junk[] = {"", "#comment", " 0001 leading blank", "\r", "short"}; for (const char* j : junk) expect(rd, std::string(j) + "\n" + a->line + "\n" + j + "\n" + b->line + "\n" + j, {a, b}, "junk"); } }
        // the last record's leftovers must not reach the next one
        std::vector<const Rec*> all; std::string text; for (auto& r : R) { all.push_back(&r); text += r.line + "\n"; } if (mc::mine()) { mc::at("all records, kind %d", kind); mc::evaluated(true); expect(rd, text, all, "all"); std::reverse(all.begin(), all.end()); text.clear(); for (auto r : all) text += r->line + "\r\n"; text.resize(text.size() - 2); mc::at("all records backwards, kind %d", kind); expect(rd, text, all, "all"); }
        const Rec *A = nullptr, *B = nullptr; for (auto& r : R) if (r.w.star && !*PM[1].ra && r.w.pmra == 0 && r.w.pmdec == 0) { if (!A) A = &r; B = &r; } std::vector<const Rec*> mid; for (auto& r : R) if (r.w.star && r.w.pmra != 0) { mid.push_back(&r); break; } for (auto& r : R) if (r.w.star && r.name.find("'X'") != std::string::npos) { mid.push_back(&r); break; }
        for (auto m : mid) { for (std::size_t k = 0; k <= m->line.size(); ++k) { if (!mc::mine()) continue; mc::at("%s cut to %zu characters", m->name.c_str(), k); mc::evaluated(true); neighbours(rd, *A, m->line.substr(0, k), *B); spit(tmp(), m->line.substr(0, k)); (void)mc::throws([&] { (void)rd(tmp()); }); }
            for (std::size_t k = 0; k < m->line.size(); ++k) { if (!mc::mine()) continue; for (char c : {' ', '0', '9', '-', '.', '|', 'e', 'X', '\0', '\xff', '\t', 'n', '\n'}) { std::string g = m->line; g[k] = c; mc::at("%s character %zu = %d", m->name.c_str(), k, c); mc::evaluated(true); neighbours(rd, *A, g, *B); } }
            for (auto [a, b] : std::vector<std::pair<std::size_t, std::size_t>>{{1, 4}, {6, 10}, {12, 12}, {16, 27}, {29, 40}, {42, 48}, {50, 56}, {84, 89}, {97, 102}, {111, 116}, {124, 129}, {153, 164}, {166, 177}, {179, 182}, {184, 187}}) for (const char* t : {"nan", "inf", "-inf", "1e999", "-1e9", "1e40", "0x1p9", "--1", "+", "1e", "99999", "-1"}) { if (b > m->line.size() || !mc::mine()) continue; std::string g = m->line; std::string x = std::string(t).substr(0, b - a + 1); x.resize(b - a + 1, ' '); g.replace(a - 1, b - a + 1, x); mc::at("%s columns %zu-%zu '%s'", m->name.c_str(), a, b, x.c_str()); mc::evaluated(true); neighbours(rd, *A, g, *B); } }
        if (mc::mine()) { mc::at("files, kind %d", kind); mc::evaluated(true); mc::check(mc::throws([&] { (void)rd(mc::S().scratch + "/none.dat"); }), "missing", "a missing file is read"); expect(rd, "", {}, "empty"); expect(rd, "\n", {}, "empty"); expect(rd, "\n\n\r\n", {}, "empty"); }
    }
    return mc::finish();
}
