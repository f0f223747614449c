// Executable model of the part of the CSPICE interface that huira calls.  CSPICE itself is not available offline.
// Times follow NAIF's documented formulae (DELTET, UNITIM) with the leap-second kernel given to furnsh_c; bodies and
// frames are closed-form.  stub_spice::* lets a harness read call counts and decide which call fails.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>
typedef double SpiceDouble;
typedef char SpiceChar;
typedef int SpiceInt;
typedef int SpiceBoolean;
typedef const char ConstSpiceChar;
typedef const double ConstSpiceDouble;
#ifndef SPICETRUE
#define SPICETRUE 1
#define SPICEFALSE 0
#endif

namespace stub_spice {
struct Leap { double dat; double utc; }; // utc: seconds past 2000-01-01T12:00:00 UTC, ignoring leap seconds
struct State {
    bool failed = false;
    std::string shortm, longm, action = "ABORT", errprt;
    std::vector<Leap> leaps;
    double dta = 0, K = 0, EB = 0, M0 = 0, M1 = 0;
    std::vector<std::string> furnished;
    long calls = 0;       // data calls (furnsh, str2et, spkezr, ...)
    long fail_at = -1;    // the call with this index fails
    long aborts = 0;      // errors signalled while the error action was ABORT (the real library would end the process)
    long after_failed = 0;// data calls made while an error was still pending
    bool furnsh_anything = true; // accept kernels other than leap-second ones without reading them
    bool sxform_rates = true;
};
inline State& st() { static State* s = new State; return *s; }
inline void (*hook)() = nullptr; // scheduling hook, called on entry to every function
inline void enter() { if (hook) hook(); }
inline void signal_error(const char* sm, const std::string& lm) { if (st().action == "ABORT") ++st().aborts; st().failed = true; st().shortm = sm; st().longm = lm; }
inline bool data_call(const char* name)
{
    enter();
    auto& s = st();
    long k = s.calls++;
    if (s.failed) { ++s.after_failed; return false; } // CSPICE routines return at once while an error is pending
    if (k == s.fail_at) { signal_error("SPICE(INJECTED)", std::string("injected into ") + name); return false; }
    return true;
}
inline void reset_all() { st() = State{}; }
inline long days_from_civil(long y, long m, long d)
{
    y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; long yoe = y - era * 400;
    long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
inline void civil_from_days(long z, long& y, long& m, long& d)
{
    z += 719468; long era = (z >= 0 ? z : z - 146096) / 146097; long doe = z - era * 146097;
    long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400;
    long doy = doe - (365 * yoe + yoe / 4 - yoe / 100); long mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1;
    m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2;
}
inline long j2000_day() { return days_from_civil(2000, 1, 1); }
inline double utc_seconds(long day, double sec_of_day) { return double(day - j2000_day()) * 86400.0 + sec_of_day - 43200.0; }
inline bool have_lsk() { return !st().leaps.empty(); }
inline double tdb_minus_tt(double t) { auto& s = st(); double M = s.M0 + s.M1 * t; double E = M + s.EB * std::sin(M); return s.K * std::sin(E); }
inline double dat_at_utc(double u) { double d = st().leaps.front().dat - 1; for (auto& l : st().leaps) if (u >= l.utc) d = l.dat; return d; }
inline double utc_to_et(double u) { double tt = u + dat_at_utc(u) + st().dta; return tt + tdb_minus_tt(tt); }
inline double et_to_tt(double et) { double tt = et; for (int i = 0; i < 4; ++i) tt = et - tdb_minus_tt(tt); return tt; }
// UTC seconds (leap seconds ignored); inside a leap second, `leap` is set and the value is that of the next midnight.
inline double et_to_utc(double et, double* within_leap = nullptr)
{
    double tai = et_to_tt(et) - st().dta; if (within_leap) *within_leap = -1;
    double d = st().leaps.front().dat - 1, u = tai - d;
    for (auto& l : st().leaps) {
        if (tai - l.dat >= l.utc) { d = l.dat; u = tai - d; }
        else if (tai - (l.dat - 1) >= l.utc && d == l.dat - 1) { if (within_leap) *within_leap = tai - (l.dat - 1) - l.utc; u = l.utc; break; }
    }
    return u;
}
inline int month(const std::string& m) { static const char* n = "JANFEBMARAPRMAYJUNJULAUGSEPOCTNOVDEC"; auto p = std::string(n).find(m.substr(0, 3)); return p == std::string::npos ? 0 : int(p / 3 + 1); }
inline void load_lsk(const std::string& path)
{
    std::ifstream f(path); std::string all((std::istreambuf_iterator<char>(f)), {}); auto& s = st();
    auto b = all.find("\\begindata"); if (b == std::string::npos) { signal_error("SPICE(BADKERNEL)", "no data in " + path); return; }
    all = all.substr(b + 10); for (auto& c : all) if (c == 'D' && &c != &all[0] && (std::isdigit((unsigned char)(&c)[-1]) && ((&c)[1] == '-' || std::isdigit((unsigned char)(&c)[1])))) c = 'E';
    auto val = [&](const char* k, int idx) { auto p = all.find(k); if (p == std::string::npos) return 0.0; p = all.find('=', p) + 1; while (all[p] == ' ' || all[p] == '(') ++p; char* e = nullptr; double v = std::strtod(&all[p], &e); while (idx--) { v = std::strtod(e, &e); } return v; };
    s.dta = val("DELTET/DELTA_T_A", 0); s.K = val("DELTET/K", 0); s.EB = val("DELTET/EB", 0); s.M0 = val("DELTET/M ", 0); s.M1 = val("DELTET/M ", 1);
    s.leaps.clear(); auto p = all.find("DELTET/DELTA_AT"); p = all.find('(', p) + 1; auto end = all.find(')', p);
    std::istringstream is(all.substr(p, end - p)); std::string tok; double dat = 0; bool have = false;
    while (is >> tok) {
        if (tok[0] == '@') { long y = std::atol(tok.c_str() + 1); auto d1 = tok.find('-'); int mo = month(tok.substr(d1 + 1)); long dd = std::atol(tok.c_str() + d1 + 5); if (have) s.leaps.push_back({dat, utc_seconds(days_from_civil(y, mo, dd), 0)}); have = false; }
        else { dat = std::atof(tok.c_str()); have = true; }
    }
}
// Bodies: position p0 + v t (km, km/s) relative to the solar system barycentre in J2000.
struct Body { const char* name; double p[3], v[3]; };
inline const std::vector<Body>& bodies()
{
    static const std::vector<Body> b = {{"SOLAR SYSTEM BARYCENTER", {0, 0, 0}, {0, 0, 0}}, {"SUN", {1000, -500, 200}, {0.01, 0, 0}}, {"EARTH", {1.5e8, 2e6, -3e5}, {-1, 29, 0.5}}, {"MOON", {1.5e8 + 3e5, 2.2e6, -2e5}, {-1.5, 29.5, 1}}, {"MARS", {-2e8, 1e8, 1e7}, {-10, -20, 0.25}}};
    return b;
}
inline const Body* body(const std::string& n) { if (n == "SSB" || n == "0") return &bodies()[0]; for (auto& b : bodies()) if (n == b.name) return &b; return nullptr; }
// Frames: rotation from J2000 to the frame (row-major) and its angular rate about z.
inline bool frame(const std::string& n, double et, double R[3][3], double& rate)
{
    auto rz = [&](double a) { double c = std::cos(a), s = std::sin(a); double M[3][3] = {{c, s, 0}, {-s, c, 0}, {0, 0, 1}}; std::memcpy(R, M, sizeof M); };
    rate = 0;
    if (n == "J2000") { rz(0); return true; }
    if (n == "IAU_EARTH") { rate = 7.292115e-5; rz(0.3 + rate * et); return true; }
    if (n == "IAU_MARS") { rate = 7.088e-5; rz(-0.7 + rate * et); return true; }
    if (n == "ECLIPJ2000") { double a = 0.409092804, c = std::cos(a), s = std::sin(a); double M[3][3] = {{1, 0, 0}, {0, c, s}, {0, -s, c}}; std::memcpy(R, M, sizeof M); return true; }
    if (n == "SWAP") { double M[3][3] = {{0, 1, 0}, {0, 0, 1}, {1, 0, 0}}; std::memcpy(R, M, sizeof M); return true; }
    return false;
}
inline bool relative(const std::string& from, const std::string& to, double et, double R[3][3], double& rate)
{
    double A[3][3], B[3][3], ra, rb;
    if (!frame(from, et, A, ra) || !frame(to, et, B, rb)) return false;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { R[i][j] = 0; for (int k = 0; k < 3; ++k) R[i][j] += B[i][k] * A[j][k]; }
    rate = rb - ra; return true;
}
} // namespace stub_spice

inline SpiceBoolean failed_c() { stub_spice::enter(); return stub_spice::st().failed; }
inline void reset_c() { stub_spice::enter(); auto& s = stub_spice::st(); s.failed = false; s.shortm.clear(); s.longm.clear(); }
inline void getmsg_c(ConstSpiceChar* option, SpiceInt lenout, SpiceChar* msg)
{
    auto& s = stub_spice::st(); const std::string& m = std::string(option) == "SHORT" ? s.shortm : s.longm;
    std::snprintf(msg, std::size_t(lenout), "%s", m.c_str());
}
inline void erract_c(ConstSpiceChar* op, SpiceInt lenout, SpiceChar* action)
{
    stub_spice::enter(); auto& s = stub_spice::st();
    if (std::string(op) == "SET") s.action = action; else std::snprintf(action, std::size_t(lenout), "%s", s.action.c_str());
}
inline void errprt_c(ConstSpiceChar* op, SpiceInt lenout, SpiceChar* list)
{
    stub_spice::enter(); auto& s = stub_spice::st();
    if (std::string(op) == "SET") s.errprt = list; else std::snprintf(list, std::size_t(lenout), "%s", s.errprt.c_str());
}
inline void furnsh_c(ConstSpiceChar* file)
{
    using namespace stub_spice; if (!data_call("furnsh")) return;
    std::string p = file; std::ifstream f(p);
    if (!f) { signal_error("SPICE(NOSUCHFILE)", "The attempt to load \"" + p + "\" failed. The file could not be located."); return; }
    if (p.size() > 4 && p.substr(p.size() - 4) == ".tls") load_lsk(p);
    if (!st().failed) st().furnished.push_back(p);
}
inline void str2et_c(ConstSpiceChar* str, SpiceDouble* et)
{
    using namespace stub_spice; if (!data_call("str2et")) return;
    if (!have_lsk()) { signal_error("SPICE(NOLEAPSECONDS)", "leap seconds kernel not loaded"); return; }
    long y, mo = 1, d = 1, h = 0, mi = 0; double sec = 0; char sep = 0; int n = 0; std::string s = str;
    long doy;
    if (std::sscanf(s.c_str(), "%4ld-%3ld%c%n", &y, &doy, &sep, &n) == 3 && sep == 'T' && n == 9) { mo = 1; d = doy; }
    else if (std::sscanf(s.c_str(), "%4ld-%2ld-%2ld%n", &y, &mo, &d, &n) == 3) { if (n < int(s.size()) && (s[std::size_t(n)] == 'T' || s[std::size_t(n)] == ' ')) ++n; }
    else { signal_error("SPICE(INVALIDTIMESTRING)", "cannot parse " + s); return; }
    int m2 = 0; std::string rest = s.substr(std::min(s.size(), std::size_t(n)));
    if (!rest.empty()) {
        if (std::sscanf(rest.c_str(), "%2ld:%2ld:%lf%n", &h, &mi, &sec, &m2) == 3) {}
        else if (std::sscanf(rest.c_str(), "%2ld:%2ld%n", &h, &mi, &m2) == 2) { sec = 0; }
        else { signal_error("SPICE(INVALIDTIMESTRING)", "cannot parse " + s); return; }
        std::string tail = rest.substr(std::size_t(m2)); if (!(tail.empty() || tail == "Z" || tail == " UTC")) { signal_error("SPICE(INVALIDTIMESTRING)", "cannot parse " + s); return; }
    }
    if (mo < 1 || mo > 12 || d < 1 || d > 366 || h > 23 || mi > 59 || sec >= 61) { signal_error("SPICE(BADTIMESTRING)", "bad component in " + s); return; }
    long day = days_from_civil(y, mo, 1) + d - 1;
    double base = utc_seconds(day, double(h) * 3600 + double(mi) * 60); // start of the minute
    *et = utc_to_et(base) + sec;
    if (true) { double tt = base + dat_at_utc(base) + st().dta + sec; *et = tt + tdb_minus_tt(tt); }
}
inline void deltet_c(SpiceDouble epoch, ConstSpiceChar* type, SpiceDouble* delta)
{
    using namespace stub_spice; if (!data_call("deltet")) return;
    if (!have_lsk()) { signal_error("SPICE(NOLEAPSECONDS)", "leap seconds kernel not loaded"); return; }
    std::string t = type;
    if (t == "UTC") *delta = utc_to_et(epoch) - epoch;
    else if (t == "ET") { double tai = et_to_tt(epoch) - st().dta; double d = st().leaps.front().dat - 1; for (auto& l : st().leaps) if (tai - l.dat >= l.utc) d = l.dat; *delta = st().dta + d + tdb_minus_tt(et_to_tt(epoch)); }
    else signal_error("SPICE(INVALIDEPOCH)", "bad epoch type " + t);
}
inline SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar* insys, ConstSpiceChar* outsys)
{
    using namespace stub_spice; if (!data_call("unitim")) return 0.0;
    if (!have_lsk()) { signal_error("SPICE(MISSINGTIMEINFO)", "leap seconds kernel not loaded"); return 0.0; }
    std::string i = insys, o = outsys; double tt;
    if (i == "TDB" || i == "ET") tt = et_to_tt(epoch); else if (i == "TT" || i == "TDT") tt = epoch; else if (i == "TAI") tt = epoch + st().dta; else { signal_error("SPICE(BADTIMETYPE)", i); return 0.0; }
    if (o == "TDB" || o == "ET") return tt + tdb_minus_tt(tt); if (o == "TT" || o == "TDT") return tt; if (o == "TAI") return tt - st().dta;
    signal_error("SPICE(BADTIMETYPE)", o); return 0.0;
}
inline void timout_c(SpiceDouble et, ConstSpiceChar* pictur, SpiceInt lenout, SpiceChar* output)
{
    using namespace stub_spice; if (!data_call("timout")) return;
    if (!have_lsk()) { signal_error("SPICE(NOLEAPSECONDS)", "leap seconds kernel not loaded"); return; }
    std::string p = pictur; bool rnd = p.find("::RND") != std::string::npos; bool tdb = p.find("::TDB") != std::string::npos;
    for (const char* k : {"::RND", "::UTC", "::TDB"}) { auto q = p.find(k); if (q != std::string::npos) p.erase(q, std::strlen(k)); }
    while (!p.empty() && p.back() == ' ') p.pop_back();
    int digits = 0; { auto q = p.find("SC."); if (q != std::string::npos) { q += 3; while (q < p.size() && p[q] == '#') { ++digits; ++q; } } }
    double leap = -1; if (rnd) et += 0.5 * std::pow(10.0, -digits);
    double u = tdb ? et : et_to_utc(et, &leap); double sh = u + 43200.0; long dd = long(std::floor(sh / 86400.0)); double sod = sh - double(dd) * 86400.0;
    if (leap >= 0) { dd -= 1; sod = 86400.0 + leap; }
    long Y, M, D; civil_from_days(dd + j2000_day(), Y, M, D); long h = std::min(23L, long(sod / 3600)); long mi = std::min(59L, long((sod - double(h) * 3600) / 60)); double sc = sod - double(h) * 3600 - double(mi) * 60;
    long doy = dd + j2000_day() - days_from_civil(Y, 1, 1) + 1;
    auto rep = [&](const char* k, const std::string& v) { auto q = p.find(k); if (q != std::string::npos) p.replace(q, std::strlen(k), v); };
    char b[64]; double scale = std::pow(10.0, digits); double tsc = std::floor(sc * scale) / scale;
    std::snprintf(b, sizeof b, "%0*.*f", digits ? digits + 3 : 2, digits, tsc); rep(digits ? ("SC." + std::string(std::size_t(digits), '#')).c_str() : "SC", b);
    std::snprintf(b, sizeof b, "%04ld", Y); rep("YYYY", b); std::snprintf(b, sizeof b, "%02ld", M); rep("MM", b); std::snprintf(b, sizeof b, "%03ld", doy); rep("DOY", b);
    std::snprintf(b, sizeof b, "%02ld", D); rep("DD", b); std::snprintf(b, sizeof b, "%02ld", h); rep("HR", b); std::snprintf(b, sizeof b, "%02ld", mi); rep("MN", b);
    std::snprintf(output, std::size_t(lenout), "%s", p.c_str());
}
inline void spkezr_c(ConstSpiceChar* targ, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar* abcorr, ConstSpiceChar* obs, SpiceDouble starg[6], SpiceDouble* lt)
{
    using namespace stub_spice; if (!data_call("spkezr")) return;
    const Body *t = body(targ), *o = body(obs); double R[3][3], rate; std::string ab = abcorr;
    if (!t || !o) { signal_error("SPICE(IDCODENOTFOUND)", std::string("unknown body ") + (t ? obs : targ)); return; }
    if (!frame(ref, et, R, rate)) { signal_error("SPICE(UNKNOWNFRAME)", std::string("unknown frame ") + ref); return; }
    if (ab != "NONE") { signal_error("SPICE(NOTMODELLED)", "aberration flag " + ab); return; }
    if (std::fabs(et) > 1e10) { signal_error("SPICE(SPKINSUFFDATA)", "insufficient ephemeris data"); return; }
    double p[3], v[3]; for (int i = 0; i < 3; ++i) { v[i] = t->v[i] - o->v[i]; p[i] = t->p[i] + t->v[i] * et - o->p[i] - o->v[i] * et; }
    double w[3] = {0, 0, rate}; double pr[3], vr[3];
    for (int i = 0; i < 3; ++i) { pr[i] = vr[i] = 0; for (int k = 0; k < 3; ++k) { pr[i] += R[i][k] * p[k]; vr[i] += R[i][k] * v[k]; } }
    double c[3] = {w[1] * pr[2] - w[2] * pr[1], w[2] * pr[0] - w[0] * pr[2], w[0] * pr[1] - w[1] * pr[0]};
    for (int i = 0; i < 3; ++i) { starg[i] = pr[i]; starg[i + 3] = vr[i] - c[i]; }
    *lt = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) / 299792.458;
}
inline void pxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble rotate[3][3])
{
    using namespace stub_spice; if (!data_call("pxform")) return; double rate;
    if (!relative(from, to, et, rotate, rate)) signal_error("SPICE(UNKNOWNFRAME)", std::string("unknown frame ") + from + " or " + to);
}
inline void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble x[6][6])
{
    using namespace stub_spice; if (!data_call("sxform")) return; double R[3][3], rate;
    if (!relative(from, to, et, R, rate)) { signal_error("SPICE(UNKNOWNFRAME)", std::string("unknown frame ") + from + " or " + to); return; }
    // dR/dt = -skew(w_to) R with w_to = (0,0,rate) expressed in the destination frame
    double W[3][3] = {{0, rate, 0}, {-rate, 0, 0}, {0, 0, 0}};
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) x[i][j] = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { x[i][j] = x[i + 3][j + 3] = R[i][j]; for (int k = 0; k < 3; ++k) x[i + 3][j] += W[i][k] * R[k][j]; }
}
inline void xf2rav_c(ConstSpiceDouble x[6][6], SpiceDouble rot[3][3], SpiceDouble av[3])
{
    // NAIF: OMEGA = transpose(dR/dt) * R; av is expressed in the base ("from") frame.
    double om[3][3];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) rot[i][j] = x[i][j];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { om[i][j] = 0; for (int k = 0; k < 3; ++k) om[i][j] += x[k + 3][i] * x[k][j]; }
    av[0] = om[2][1]; av[1] = om[0][2]; av[2] = om[1][0];
}
inline void conics_c(ConstSpiceDouble el[8], SpiceDouble et, SpiceDouble state[6])
{
    using namespace stub_spice; if (!data_call("conics")) return;
    double rp = el[0], e = el[1], inc = el[2], om = el[3], w = el[4], m0 = el[5], t0 = el[6], mu = el[7];
    if (rp <= 0 || mu <= 0 || e < 0 || e >= 1) { signal_error("SPICE(BADORBIT)", "only elliptic orbits are modelled"); return; }
    double a = rp / (1 - e), n = std::sqrt(mu / (a * a * a)), M = std::remainder(m0 + n * (et - t0), 2 * M_PI), E = M;
    for (int i = 0; i < 60; ++i) E -= (E - e * std::sin(E) - M) / (1 - e * std::cos(E));
    double cx = a * (std::cos(E) - e), cy = a * std::sqrt(1 - e * e) * std::sin(E), Ed = n / (1 - e * std::cos(E));
    double vx = -a * std::sin(E) * Ed, vy = a * std::sqrt(1 - e * e) * std::cos(E) * Ed;
    double co = std::cos(om), so = std::sin(om), ci = std::cos(inc), si = std::sin(inc), cw = std::cos(w), sw = std::sin(w);
    double P[3] = {co * cw - so * sw * ci, so * cw + co * sw * ci, sw * si}, Q[3] = {-co * sw - so * cw * ci, -so * sw + co * cw * ci, cw * si};
    for (int i = 0; i < 3; ++i) { state[i] = P[i] * cx + Q[i] * cy; state[i + 3] = P[i] * vx + Q[i] * vy; }
}
