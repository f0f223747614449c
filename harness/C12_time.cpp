// C12: every instant near every leap second through every scale and text form; every small sample count; every placement of an ephemeris error.
#include "huira_prelude.hpp"
#include "huira/core/time.hpp"
#include "huira/core/interval.hpp"
#include "mc.hpp"
using namespace huira;
using units::Second;
static const long double DTA = 32.184L;
// independent copy of the published table (IERS): first day of each TAI-UTC value
static const struct { int y, m, dat; } LEAP[] = {{1972,1,10},{1972,7,11},{1973,1,12},{1974,1,13},{1975,1,14},{1976,1,15},{1977,1,16},{1978,1,17},{1979,1,18},{1980,1,19},{1981,7,20},{1982,7,21},{1983,7,22},{1985,7,23},{1988,1,24},{1990,1,25},{1991,1,26},{1992,7,27},{1993,7,28},{1994,7,29},{1996,1,30},{1997,7,31},{1999,1,32},{2006,1,33},{2009,1,34},{2012,7,35},{2015,7,36},{2017,1,37}};
static long jdn(int y, int m, int d) { int a = (14 - m) / 12; long yy = y + 4800 - a, mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; } // of noon
static long double utc_day(int y, int m, int d) { return (long double)(jdn(y, m, d) - 2451545L) * 86400.0L - 43200.0L; } // midnight, seconds past 2000-01-01T12
static long double tdbtt(long double t) { long double M = 6.239996L + 1.99096871e-7L * t, E = M + 1.671e-2L * sinl(M); return 1.657e-3L * sinl(E); }
static int dat(long double u) { int d = 9; for (auto& l : LEAP) if (u >= utc_day(l.y, l.m, 1)) d = l.dat; return d; }
static long double from_utc(long double u) { long double tt = u + dat(u) + DTA; return tt + tdbtt(tt); }
static long double to_tt(long double et) { long double tt = et; for (int i = 0; i < 5; ++i) tt = et - tdbtt(tt); return tt; }
static const char* SN[] = {"UTC", "TAI", "TT", "TDB"}; static const TimeScale SC[] = {TimeScale::UTC, TimeScale::TAI, TimeScale::TT, TimeScale::TDB};
// the instant given in UTC, expressed in every scale as seconds past J2000
struct Inst { long double s[4]; };
static Inst inst(long double u) { Inst r; r.s[0] = u; r.s[1] = u + dat(u); r.s[2] = r.s[1] + DTA; r.s[3] = r.s[2] + tdbtt(r.s[2]); return r; }
static void one(long double u, const char* what)
{
    Inst I = inst(u); const double tol = 1.2e-4; // a Julian date in double precision resolves 40 us
    for (int a = 0; a < 4; ++a) {
        double jd = double(2451545.0L + I.s[a] / 86400.0L), mjd = double(51544.5L + I.s[a] / 86400.0L);
        long double q = ((long double)jd - 2451545.0L) * 86400.0L, ql = ((long double)mjd - 51544.5L) * 86400.0L;
        for (int m = 0; m < 2; ++m) {
            mc::at("%s %s %s %.10f", what, m ? "MJD" : "JD", SN[a], m ? mjd : jd); mc::evaluated(true);
            Time t = m ? Time::from_modified_julian_date(mjd, SC[a]) : Time::from_julian_date(jd, SC[a]); (void)q; (void)ql;
            mc::check(std::fabs(t.et() - double(I.s[3])) <= tol, "from", "gives ET %.6f expected %.6Lf", t.et(), I.s[3]);
            mc::check(t.ephemeris_time() == t.et(), "et", "the two names of ET differ");
            for (int b = 0; b < 4; ++b) {
                double e = double(2451545.0L + I.s[b] / 86400.0L), g = t.to_julian_date(SC[b]), gm = t.to_modified_julian_date(SC[b]), gy = t.julian_years_since_j2000(SC[b]);
                mc::check(std::fabs(g - e) * 86400 <= 2 * tol && std::fabs(gm - (e - 2400000.5)) * 86400 <= 2 * tol && std::fabs(gy - double(I.s[b] / 31557600.0L)) * 31557600 <= tol, "to", "in %s JD %.10f (expected %.10f) MJD %.10f years %.14f (expected %.14Lf)", SN[b], g, e, gm, gy, I.s[b] / 31557600.0L);
            }
            mc::check(t.to_julian_date() == t.to_julian_date(TimeScale::TDB) && t.to_modified_julian_date() == t.to_modified_julian_date(TimeScale::TDB) && t.julian_years_since_j2000() == t.julian_years_since_j2000(TimeScale::TT), "default-scale", "documented default scale");
        }
    }
    Time t = Time::from_et(double(I.s[3])); mc::check(t == Time::from_ephemeris_time(double(I.s[3])) && t.et() == double(I.s[3]), "from-et", "from_et keeps the value");
    for (int b = 1; b < 4; ++b) { double g = t.julian_years_since_j2000(SC[b]) * 31557600; mc::check(std::fabs(g - double(I.s[b])) <= 1e-6, "offset", "%s seconds %.9f expected %.9Lf", SN[b], g, I.s[b]); }
    { double g = t.julian_years_since_j2000(TimeScale::UTC) * 31557600; mc::check(std::fabs(g - double(I.s[0])) <= 1e-6, "offset", "UTC seconds %.9f expected %.9Lf", g, I.s[0]); }
}
static void text(int y, int m, int d, int h, int mi, int ms, const char* what) // ms: milliseconds in the minute, up to 60999 in a leap second
{
    int s = ms / 1000; ms %= 1000; std::string day = mc::fmt("%04d-%02d-%02d", y, m, d), tod = mc::fmt("%02d:%02d:%02d.%03d", h, mi, s, ms);
    long double base = utc_day(y, m, d) + h * 3600 + mi * 60; long double tt = base + dat(base) + DTA + s + ms / 1000.0L, et = tt + tdbtt(tt);
    for (const std::string& in : {day + "T" + tod, day + " " + tod, day + "T" + tod + "Z"}) {
        mc::at("%s text %s", what, in.c_str()); mc::evaluated(true); Time t(in); mc::check(std::fabs(t.et() - double(et)) <= 1e-6, "text", "gives ET %.6f expected %.6Lf", t.et(), et);
        mc::check(t.to_iso_8601() == day + "T" + tod + "Z", "iso", "printed as %s", t.to_iso_8601().c_str()); std::string u = t.to_utc_string("YYYY-MM-DD HR:MN:SC.### ::RND"); mc::check(u == day + " " + tod, "utc-string", "printed as '%s'", u.c_str());
        Time back(t.to_iso_8601()); mc::check(std::fabs((back - t).to_si()) <= 1e-5, "text-round", "reads back %g s away", (back - t).to_si());
        std::string w = t.to_utc_string("YYYY-MM-DD HR:MN ::UTC"); mc::check(w == mc::fmt("%s %02d:%02d", day.c_str(), h, mi), "utc-explicit", "printed as '%s'", w.c_str()); mc::check(t.to_utc_string() .substr(0, 11) == day + " ", "utc-default", "printed as '%s'", t.to_utc_string().c_str());
    }
}
static void intervals()
{
    std::vector<std::size_t> ns; for (std::size_t n = 1; n <= (mc::thorough() ? 400 : 70); ++n) ns.push_back(n); ns.push_back(1000); ns.push_back(65537);
    for (double t0 : {0.0, -3.5e8, 7.1e8 + 0.125}) for (double d : {0.0, 1e-3, 1.0, 60.0, 86400.5, 3e7}) {
        if (!mc::mine()) continue;
        for (int how = 0; how < 4; ++how) {
            Time T = Time::from_et(t0); Interval I = how == 0 ? Interval::from_start(T, Second(d)) : how == 1 ? Interval::from_centered(Time::from_et(t0 + d / 2), Second(d)) : how == 2 ? Interval::from_bounds(T, Time::from_et(t0 + d)) : Interval(T, Time::from_et(t0 + d)); double e = 4e-16 * (std::fabs(t0) + d) + 1e-300;
            mc::at("interval %d from %g for %g", how, t0, d); mc::evaluated(d > 0);
            mc::check(std::fabs(I.start.et() - t0) <= 2 * e && std::fabs(I.end.et() - (t0 + d)) <= 2 * e && std::fabs(I.duration().to_si() - d) <= 4 * e && std::fabs(I.center().et() - (t0 + d / 2)) <= 4 * e, "bounds", "start %.9f end %.9f centre %.9f duration %.9g", I.start.et(), I.end.et(), I.center().et(), I.duration().to_si());
            for (std::size_t n : ns) {
                mc::at("interval %d from %g for %g, %zu samples", how, t0, d, n); mc::evaluated(n > 1 && d > 0); auto v = I.samples(n); mc::check(v.size() == n, "count", "%zu samples", v.size()); if (v.size() != n) continue;
                if (n == 1) mc::check(v[0].et() == I.center().et(), "single", "a single sample is at %.9f, not the centre", v[0].et());
                else { bool ok = std::fabs(v[0].et() - I.start.et()) <= e && std::fabs(v[n - 1].et() - I.end.et()) <= 8 * e; mc::check(ok, "ends", "first %.9f last %.9f", v[0].et(), v[n - 1].et());
                    for (std::size_t i = 0; i < n; ++i) if (std::fabs(v[i].et() - (I.start.et() + (I.end.et() - I.start.et()) * double(i) / double(n - 1))) > 8 * e) { mc::fail("spacing", mc::fmt("sample %zu at %.12f", i, v[i].et())); break; } }
            }
            mc::check(mc::throws([&] { (void)I.samples(0); }), "zero-samples", "no samples is accepted");
        }
    }
    if (mc::mine()) for (std::size_t n : {std::size_t(16777217), std::size_t(16777218), std::size_t(16777220)}) { mc::at("interval with %zu samples", n); mc::evaluated(true); Interval I(Time::from_et(0), Time::from_et(double(n - 1))); auto v = I.samples(n); mc::check(std::fabs(v[n - 1].et() - double(n - 1)) <= 1e-6 && std::fabs(v[n / 2].et() - double(n / 2)) <= 1e-6, "ends", "last sample at %.6f expected %.6f", v[n - 1].et(), double(n - 1)); }
    // centred duration in other units
    if (mc::mine()) { mc::at("interval units"); mc::evaluated(true); Time c = Time::from_et(100); Interval a = Interval::from_centered(c, units::Minute(2)), b = Interval::from_start(c, units::Hour(1)); mc::check(std::fabs(a.start.et() - 40) < 1e-9 && std::fabs(a.end.et() - 160) < 1e-9 && std::fabs(b.end.et() - 3700) < 1e-9, "unit-duration", "minutes and hours"); }
    // ordering and arithmetic agree with seconds
    std::vector<double> E = {-1e9, -1, -0.0, 0, 1e-9, 1, 64.184, 1e9, std::nextafter(1.0, 2.0)};
    if (mc::mine()) for (double a : E) for (double b : E) {
        mc::at("order %.17g %.17g", a, b); mc::evaluated(true); Time A = Time::from_et(a), B = Time::from_et(b);
        mc::check((A == B) == (a == b) && (A != B) == (a != b) && (A < B) == (a < b) && (A <= B) == (a <= b) && (A > B) == (a > b) && (A >= B) == (a >= b), "order", "comparisons disagree with the seconds");
        mc::check((A - B).to_si() == a - b && (A + Second(b)).et() == a + b && (A + units::Minute(b)).et() - (a + 60 * b) == 0, "arith", "addition or subtraction"); mc::check(std::fabs(((A + (B - A)) - B).to_si()) <= 1e-6, "arith", "a + (b - a) is not b"); }
}
static void faults()
{
    struct Op { const char* n; std::function<double()> f; };
    std::vector<Op> ops = {{"text", [] { return Time("2016-12-31T23:59:60.5").et(); }}, {"fromUTC", [] { return Time::from_julian_date(2457754.5, TimeScale::UTC).et(); }}, {"fromTAI", [] { return Time::from_julian_date(2457754.5, TimeScale::TAI).et(); }}, {"fromTT", [] { return Time::from_modified_julian_date(57754, TimeScale::TT).et(); }}, {"toUTC", [] { return Time::from_et(5.4e8).to_julian_date(TimeScale::UTC); }}, {"toTAI", [] { return Time::from_et(5.4e8).to_modified_julian_date(TimeScale::TAI); }}, {"yearsTT", [] { return Time::from_et(5.4e8).julian_years_since_j2000(TimeScale::TT); }}, {"yearsUTC", [] { return Time::from_et(5.4e8).julian_years_since_j2000(TimeScale::UTC); }}, {"iso", [] { return double(std::hash<std::string>()(Time::from_et(5.4e8).to_iso_8601())); }}, {"utcstring", [] { return double(std::hash<std::string>()(Time::from_et(5.4e8).to_utc_string())); }}};
    auto& sp = stub_spice::st(); std::vector<double> want; for (auto& o : ops) want.push_back(o.f());
    for (std::size_t a = 0; a < ops.size(); ++a) for (std::size_t b = 0; b < ops.size(); ++b) for (int pend = 0; pend < 2; ++pend) {
        mc::at("error in %s%s then %s", ops[a].n, pend ? " (with an older error pending)" : "", ops[b].n); mc::evaluated(true);
        if (pend) stub_spice::signal_error("SPICE(OLD)", "left by other code");
        sp.fail_at = sp.calls; bool t = mc::throws([&] { (void)ops[a].f(); }); sp.fail_at = -1; mc::check(t, "swallowed", "the error did not surface"); mc::check(!sp.failed, "lingers", "the error is still pending");
        double g = NAN; bool t2 = mc::throws([&] { g = ops[b].f(); }); mc::check(!t2 && g == want[b], "later-call", "the next call %s", t2 ? "fails too" : "answers differently");
        if (pend) { stub_spice::signal_error("SPICE(OLD)", "left by other code"); bool t3 = mc::throws([&] { g = ops[b].f(); }); mc::check(!t3 && g == want[b], "older-error", "an error left by other code breaks a good call"); stub_spice::st().failed = false; }
    }
    for (const char* bad : {"", "not a time", "2020-13-01T00:00:00", "2020-01-01T25:00:00", "2020-01-01T00:61:00"}) { mc::at("bad text '%s'", bad); mc::evaluated(true); mc::check(mc::throws([&] { Time t{std::string(bad)}; }), "bad-text", "accepted"); mc::check(Time("2000-01-01T12:00:00").et() > 64.18, "later-call", "a good text fails afterwards"); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    for (auto& l : LEAP) {
        if (!mc::mine()) continue;
        for (long double o : {-86400.0L * 200, -86400.0L, -43200.0L, -100.0L, -60.0L, -2.0L, -1.0L, -0.5L, -0.001L, 0.001L, 0.5L, 1.0L, 1.5L, 2.0L, 30.0L, 60.0L, 3600.0L, 43200.0L, 86400.0L, 86400.0L * 90.5L}) if (utc_day(l.y, l.m, 1) + o > utc_day(1972, 1, 1)) one(utc_day(l.y, l.m, 1) + o, mc::fmt("leap %d-%02d %+.3Lf", l.y, l.m, o).c_str());
        int py = l.m == 1 ? l.y - 1 : l.y, pm = l.m == 1 ? 12 : 6, pd = l.m == 1 ? 31 : 30; bool first = l.y == 1972 && l.m == 1;
        for (int ms : {0, 1, 500, 999, 30000, 59000, 59499, 59999}) { text(l.y, l.m, 1, 0, 0, ms, "after"); text(l.y, l.m, 2, 12, 34, ms, "day after"); if (!first) text(py, pm, pd, 23, 59, ms, "before"); }
        if (!first) for (int ms : {60000, 60001, 60250, 60500, 60998}) text(py, pm, pd, 23, 59, ms, "inside");
    }
    if (mc::mine()) for (int y = 1973; y < 2060; y += mc::thorough() ? 1 : 3) for (int m = 1; m <= 12; ++m) { one(utc_day(y, m, 1) + 12345.678L, "monthly"); text(y, m, m == 2 && y % 4 == 0 ? 29 : 28, 6, m * 4, 12345, "monthly"); }
    if (mc::mine()) for (double s : {0.0, -1.0, 1.0, -1e10, 1e10, -7e8, 7e8}) for (int b = 0; b < 4; ++b) { mc::at("tdb %g", s); mc::evaluated(true); Time t = Time::from_julian_date(2451545.0 + s / 86400, TimeScale::TDB); mc::check(std::fabs(t.et() - s) <= 1e-4 && std::fabs(Time::from_julian_date(t.to_julian_date(SC[b]), SC[b]).et() - s) <= 2e-4, "round", "%s does not round-trip", SN[b]); }
    intervals();
    if (mc::mine()) faults();
    mc::finish();
}
