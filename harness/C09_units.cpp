// C09: every unit against every other, over a value lattice; expected SI values come from this table alone.
#include "huira_prelude.hpp"
#include "huira/units/units.hpp"
#include "huira/core/spectral_bins.hpp"
#include "mc.hpp"
using namespace huira; using namespace huira::units;
#define PI_L 3.14159265358979323846264338327950288L
// unit, SI factor, SI offset (si = (v + off) * k)
#define LENGTH(X) X(Kilometer, 1e3L, 0) X(Meter, 1, 0) X(Centimeter, 1e-2L, 0) X(Millimeter, 1e-3L, 0) X(Micrometer, 1e-6L, 0) X(Nanometer, 1e-9L, 0) X(AstronomicalUnit, 149597870700.0L, 0) X(Foot, 0.3048L, 0) X(Yard, 0.9144L, 0) X(Mile, 1609.344L, 0)
#define MASS(X) X(Kilogram, 1, 0) X(Gram, 1e-3L, 0) X(Milligram, 1e-6L, 0)
#define TIME(X) X(SiderealDay, 86164.0905L, 0) X(Day, 86400, 0) X(Hour, 3600, 0) X(Minute, 60, 0) X(Second, 1, 0) X(Millisecond, 1e-3L, 0) X(Microsecond, 1e-6L, 0) X(Nanosecond, 1e-9L, 0) X(Femtosecond, 1e-15L, 0)
#define TEMP(X) X(Kelvin, 1, 0) X(Celsius, 1, 273.15L) X(Fahrenheit, 5.0L / 9, 459.67L)
#define ANGLE(X) X(Radian, 1, 0) X(Degree, PI_L / 180, 0) X(Arcminute, PI_L / 10800, 0) X(Arcsecond, PI_L / 648000, 0)
#define SOLID(X) X(Steradian, 1, 0) X(SquareDegree, PI_L * PI_L / 32400, 0)
#define DIOP(X) X(Diopter, 1, 0) X(Millidiopter, 1e-3L, 0) X(Microdiopter, 1e-6L, 0)
#define VEL(X) X(MetersPerSecond, 1, 0) X(KilometersPerSecond, 1e3L, 0) X(MilesPerHour, 0.44704L, 0) X(KilometersPerHour, 1 / 3.6L, 0)
#define RATE(X) X(RadiansPerSecond, 1, 0) X(DegreesPerSecond, PI_L / 180, 0)
#define FREQ(X) X(Hertz, 1, 0) X(Kilohertz, 1e3L, 0) X(Megahertz, 1e6L, 0) X(Gigahertz, 1e9L, 0) X(Terahertz, 1e12L, 0)
#define FORCE(X) X(Newton, 1, 0) X(Kilonewton, 1e3L, 0)
#define PRESS(X) X(Pascal, 1, 0) X(Kilopascal, 1e3L, 0)
#define ENERGY(X) X(Joule, 1, 0) X(Kilojoule, 1e3L, 0) X(Megajoule, 1e6L, 0) X(ElectronVolt, 1.602176634e-19L, 0)
#define AREA(X) X(SquareMeter, 1, 0) X(SquareCentimeter, 1e-4L, 0) X(SquareMillimeter, 1e-6L, 0)
#define POWER(X) X(Milliwatt, 1e-3L, 0) X(Watt, 1, 0) X(Kilowatt, 1e3L, 0) X(Megawatt, 1e6L, 0) X(Gigawatt, 1e9L, 0)
#define SINGLE(X) X(Ampere, 1, 0) X(Mole, 1, 0) X(Candela, 1, 0) X(Coulomb, 1, 0) X(WattsPerMeterSquaredSteradian, 1, 0) X(WattsPerMeterSquared, 1, 0) X(WattsPerSteradian, 1, 0) X(Lumen, 1, 0)
#define ALL(X) LENGTH(X) MASS(X) TIME(X) TEMP(X) ANGLE(X) SOLID(X) DIOP(X) VEL(X) RATE(X) FREQ(X) FORCE(X) PRESS(X) ENERGY(X) AREA(X) POWER(X) SINGLE(X)
template <class U> struct Inf;
#define DEF(U, k, o) struct T_##U { using Q = U; static constexpr const char* name = #U; static constexpr long double K = k, O = o; static long double si(long double v) { return (v + O) * K; } static long double un(long double s) { return s / K - O; } };
ALL(DEF)
static const double VAL[] = {0.0, 1.0, -1.0, 0.1, -273.15, 2.5, 37.0, 1e-12, -3e7, 1e15};
static bool close(double a, long double b, long double mag) { return std::fabs((long double)a - b) <= 4e-15L * (std::fabs(b) + mag) + 1e-300L; }
template <class A, class B> static void pair() // same dimension: convert, compare, add
{
    using QA = typename A::Q; using QB = typename B::Q; mc::at("%s and %s", A::name, B::name);
    for (double v : VAL) {
        mc::evaluated(true); QA a(v); long double s = A::si(v), mag = std::fabs(s) + std::fabs(A::O * A::K) + std::fabs(B::O * B::K), e = B::un(s), bm = mag / B::K;
        QB b = a; mc::check(close(b.value(), e, bm) && close(b.raw_value(), e, bm), "convert", "%g %s is %.17g %s expected %.17Lg", v, A::name, b.value(), B::name, e);
        mc::check(a.template as<QB>().value() == b.value() && a.template as<typename QB::scale_type>().value() == b.value(), "as", "as<> differs from conversion for %g", v);
        QB c; c = a; mc::check(c.value() == b.value(), "assign", "assignment differs from conversion for %g", v);
        QA r = b; mc::check(std::fabs((long double)r.value() - v) <= 1e-14L * (std::fabs((long double)v) + mag / A::K), "roundtrip", "%g %s comes back as %.17g", v, A::name, r.value());
        mc::check(close(b.to_si(), s, mag), "si", "SI value %.17g expected %.17Lg", b.to_si(), s);
        for (double w : VAL) {
            QB q(w); long double t = B::si(w), m2 = mag + std::fabs(t);
            if (A::O == 0 && B::O == 0) {
                auto sum = a + q; auto dif = a - q; static_assert(std::is_same_v<typename decltype(sum)::dimension_type, typename QA::dimension_type>);
                mc::check(close(sum.to_si(), s + t, m2) && close(sum.value(), (s + t) / A::K, m2 / A::K), "sum", "%g %s + %g %s is %.17g SI expected %.17Lg", v, A::name, w, B::name, sum.to_si(), s + t);
                mc::check(close(dif.to_si(), s - t, m2), "difference", "%g %s - %g %s is %.17g SI expected %.17Lg", v, A::name, w, B::name, dif.to_si(), s - t);
            }
            if (std::fabs(s - t) > 1e-12L * m2 + 1e-290L) { bool lt = s < t; mc::check((a < q) == lt && (a > q) == !lt && (a <= q) == lt && (a >= q) == !lt && a != q && !(a == q), "compare", "%g %s against %g %s", v, A::name, w, B::name); }
            // trichotomy whatever the rounding
            mc::check((a < q) + (a == q) + (a > q) == 1 && (a <= q) == !(a > q) && (a >= q) == !(a < q) && (a != q) == !(a == q), "trichotomy", "%g %s against %g %s", v, A::name, w, B::name);
        }
    }
}
template <class A> static void single()
{
    using Q = typename A::Q; mc::at("%s alone", A::name); auto bad = [](auto f) { return mc::throws(f); }; const double N = NAN, I = INFINITY;
    mc::check(Q().value() == 0, "default", "default value is not zero");
    mc::check(bad([&] { Q q(N); }) && bad([&] { Q q(-N); }) && bad([&] { Q q{float(N)}; }), "nan", "a NaN is accepted");
    Q i(I); mc::check(i.value() == I && i.to_si() == I && Q(-I).to_si() == -I, "infinity", "infinity is lost");
    mc::check(bad([&] { auto q = i - i; }) && bad([&] { auto q = i + Q(-I); }) && bad([&] { auto q = i * 0.0; }) && bad([&] { auto q = Q(0) / 0.0; }) && bad([&] { auto q = Q(1) * N; }) && bad([&] { auto q = N * Q(1); }), "nan-result", "arithmetic yields a NaN quantity");
    { Q a(I); mc::check(bad([&] { a -= i; }) && a.value() == I, "nan-inplace", "-= yields a NaN or changes the value when refused"); } { Q a(1); mc::check(bad([&] { a *= N; }) && a.value() == 1, "nan-inplace", "*= yields a NaN or changes the value when refused"); } { Q a(0); mc::check(bad([&] { a /= 0.0; }) && a.value() == 0, "nan-inplace", "/= yields a NaN or changes the value when refused"); } { Q a(I); mc::check(bad([&] { a += Q(-I); }), "nan-inplace", "+= yields a NaN"); }
    for (double v : VAL) {
        Q a(v); long double s = A::si(v), m = std::fabs(s) + std::fabs(A::O * A::K); mc::evaluated(true);
        mc::check(close(a.to_si(), s, m) && a.to_si_f() == float(a.to_si()) && a.value() == v, "si", "%g: SI value %.17g expected %.17Lg", v, a.to_si(), s);
        mc::check(Q(float(v)).value() == double(float(v)) && Q(int(3)).value() == 3 && Q(7u).value() == 7 && Q(std::int64_t(-9)).value() == -9, "construct", "construction from %g in another type", v);
        std::ostringstream os; os << a; mc::check(os.str() == a.to_string() && a.to_string().rfind(std::to_string(a.to_si()), 0) == 0, "text", "text form '%s' is not the SI value", a.to_string().c_str());
        mc::check((-a).value() == -v, "negate", "-(%g)", v);
        for (double k : {2.0, -0.5, 1e3}) { mc::check((a * k).value() == v * k && (k * a).value() == v * k && (a / k).value() == v / k, "scale", "%g by %g", v, k); Q b = a; b *= k; mc::check(b.value() == v * k, "scale-inplace", "%g *= %g", v, k); b = a; b /= k; mc::check(b.value() == v / k, "scale-inplace", "%g /= %g", v, k); }
        mc::check((a * 3).value() == v * 3 && (3u * a).value() == v * 3 && (a / 4).value() == v / 4, "scale-int", "%g by an integer", v);
        for (double w : VAL) { Q b = a; b += Q(w); mc::check(b.value() == v + w, "add-inplace", "%g += %g", v, w); b = a; b -= Q(w); mc::check(b.value() == v - w, "sub-inplace", "%g -= %g", v, w); b = Q(w); mc::check((a == b) == (v == w) && (a != b) == (v != w) && (a < b) == (v < w) && (a > b) == (v > w) && (a <= b) == (v <= w) && (a >= b) == (v >= w), "compare-same", "%g against %g", v, w); }
        if (v != 0 && A::O == 0) { auto r = 2.0 / a; static_assert(std::is_same_v<typename decltype(r)::dimension_type, decltype(Dimensionless{} / typename Q::dimension_type{})>); mc::check(close(r.to_si(), 2 / s, 0), "reciprocal", "2 / (%g) is %.17g SI expected %.17Lg", v, r.to_si(), 2 / s); }
    }
}
template <class S> static constexpr bool is_r = is_std_ratio_v<S>;
static constexpr long long gcd_(long long a, long long b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { long long t = a % b; a = b; b = t; } return a ? a : 1; }
static constexpr bool fits(long long a, long long b) { __int128 p = (__int128)a * b; return p < ((__int128)1 << 62) && p > -((__int128)1 << 62); }
template <class S, class T, bool D> static constexpr bool mulok() { if constexpr (is_r<S> && is_r<T>) { constexpr long long n = D ? T::den : T::num, d = D ? T::num : T::den; constexpr long long g1 = gcd_(S::num, d), g2 = gcd_(n, S::den); return fits(S::num / g1, n / g2) && fits(S::den / g2, d / g1); } else return true; }
template <class A, class B> static void cross()
{
    using QA = typename A::Q; using QB = typename B::Q; using SA = typename QA::scale_type; using SB = typename QB::scale_type;
    mc::at("%s times %s", A::name, B::name); const double V[] = {1, -2.5, 1e-6, 37};
    // an affine scale multiplies by its SI value
    for (double v : V) for (double w : V) {
        mc::evaluated(true); QA a(v); QB b(w); long double s = A::si(v), t = B::si(w), ms = std::fabs(s) + std::fabs(A::O * A::K), mt = std::fabs(t) + std::fabs(B::O * B::K);
        if constexpr (mulok<SA, SB, false>()) { auto p = a * b; static_assert(std::is_same_v<typename decltype(p)::dimension_type, decltype(typename QA::dimension_type{} * typename QB::dimension_type{})>); mc::check(close(p.to_si(), s * t, ms * mt), "product", "%g %s * %g %s is %.17g SI expected %.17Lg", v, A::name, w, B::name, p.to_si(), s * t); }
        else mc::count("products_not_representable_as_ratio");
        if constexpr (mulok<SA, SB, true>()) { auto q = a / b; static_assert(std::is_same_v<typename decltype(q)::dimension_type, decltype(typename QA::dimension_type{} / typename QB::dimension_type{})>); mc::check(close(q.to_si(), s / t, std::fabs(ms / t) + std::fabs(s / t) * std::fabs(mt / t)), "quotient", "%g %s / %g %s is %.17g SI expected %.17Lg", v, A::name, w, B::name, q.to_si(), s / t);
            if constexpr (std::is_same_v<typename decltype(q)::dimension_type, Dimensionless>) { double d = q; mc::check(close(d, s / t, std::fabs(ms / t) + std::fabs(s / t) * std::fabs(mt / t)), "ratio-number", "%g %s / %g %s as a number is %.17g", v, A::name, w, B::name, d); } }
    }
}
template <class... T> struct L {};
template <class... A, class... B> static void pairs(L<A...>, L<B...> b) { auto row = [&]<class X>(X*, L<B...>) { (pair<X, B>(), ...); }; (row((A*)nullptr, b), ...); (single<A>(), ...); }
template <class A, class... B> static void crossrow(L<B...>) { (cross<A, B>(), ...); }
#define N1(U, k, o) , T_##U
template <class X, class... T> struct Skip { using type = L<T...>; };
#define LIST(G) typename Skip<void G(N1)>::type
template <class G> static void group(G g) { if (mc::mine()) pairs(g, g); }
template <class... A> static void cross_all(L<A...>) { // partners: one unit of every kind of scale
    using P = L<T_Kilometer, T_AstronomicalUnit, T_Foot, T_Second, T_SiderealDay, T_Fahrenheit, T_Degree, T_SquareDegree, T_KilometersPerHour, T_ElectronVolt, T_SquareMillimeter, T_Gigawatt>;
    auto one = [&]<class X>(X*) { if (mc::mine()) crossrow<X>(P{}); }; (one((A*)nullptr), ...); }
#define NM(x) #x
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
#ifndef CROSS
    group(Skip<void LENGTH(N1)>::type{}); group(Skip<void MASS(N1)>::type{}); group(Skip<void TIME(N1)>::type{}); group(Skip<void TEMP(N1)>::type{}); group(Skip<void ANGLE(N1)>::type{}); group(Skip<void SOLID(N1)>::type{}); group(Skip<void DIOP(N1)>::type{}); group(Skip<void VEL(N1)>::type{}); group(Skip<void RATE(N1)>::type{}); group(Skip<void FREQ(N1)>::type{}); group(Skip<void FORCE(N1)>::type{}); group(Skip<void PRESS(N1)>::type{}); group(Skip<void ENERGY(N1)>::type{}); group(Skip<void AREA(N1)>::type{}); group(Skip<void POWER(N1)>::type{});
#define ONE(U, k, o) if (mc::mine()) single<T_##U>();
    SINGLE(ONE)
#else
    cross_all(Skip<void ALL(N1)>::type{});
#endif
#ifndef CROSS
    { // named products land on their named units; literals carry their unit
        mc::at("named products"); mc::evaluated(true); using namespace huira::units::literals;
        MetersPerSecond v = Kilometer(36) / Hour(10); mc::check(close(v.value(), 1, 0), "named", "36 km / 10 h"); Joule e = Newton(3) * Meter(4); mc::check(close(e.value(), 12, 0), "named", "N m"); Watt w = Kilojoule(7) / Second(2); mc::check(close(w.value(), 3500, 0), "named", "kJ/s"); SquareMeter ar = Centimeter(20) * Meter(3); mc::check(close(ar.value(), 0.6L, 0), "named", "cm m"); Diopter dp = 1.0 / Millimeter(50); mc::check(close(dp.value(), 20, 0), "named", "1/mm"); Hertz hz = 1.0 / Millisecond(4); mc::check(close(hz.value(), 250, 0), "named", "1/ms"); WattsPerMeterSquared ir = Watt(10) / SquareCentimeter(5); mc::check(close(ir.value(), 20000, 0), "named", "W/cm2"); RadiansPerSecond om = Degree(90) / Second(2); mc::check(close(om.value(), PI_L / 4, 0), "named", "deg/s"); Pascal pa = Kilonewton(2) / SquareMeter(4); mc::check(close(pa.value(), 500, 0), "named", "kN/m2");
#define LIT(x, v) mc::check(close((x).to_si(), v, (v) > 0 ? (v) : 500 - (v)) , "literal", NM(x) " is %.17g SI", (x).to_si());
        LIT(2_Km, 2e3L) LIT(2.5_Km, 2500) LIT(3_m, 3) LIT(3_cm, 0.03L) LIT(3_mm, 3e-3L) LIT(3_um, 3e-6L) LIT(3_nm, 3e-9L) LIT(2_au, 299195741400.0L) LIT(1_ft, 0.3048L) LIT(1_yd, 0.9144L) LIT(1_mi, 1609.344L) LIT(3_Kg, 3) LIT(3_g, 3e-3L) LIT(3_mg, 3e-6L) LIT(1_day, 86400) LIT(2_h, 7200) LIT(2_min, 120) LIT(2_s, 2) LIT(2_ms, 2e-3L) LIT(2_us, 2e-6L) LIT(2_ns, 2e-9L) LIT(2_rad, 2) LIT(180_deg, PI_L) LIT(90.0_deg, PI_L / 2) LIT(300_K, 300) LIT(20_C, 293.15L) LIT(32_F, 273.15L) LIT(3_J, 3) LIT(3_KJ, 3000) LIT(1_eV, 1.602176634e-19L) LIT(3_m2, 3) LIT(3_cm2, 3e-4L) LIT(3_mm2, 3e-6L) LIT(3_mW, 3e-3L) LIT(3_W, 3) LIT(3_KW, 3e3L) LIT(3_MW, 3e6L) LIT(3_dpt, 3) LIT(3_mdpt, 3e-3L) LIT(3_udpt, 3e-6L) LIT(3_mps, 3) LIT(3_Kmps, 3e3L) LIT(1_Miph, 0.44704L) LIT(36_Kmph, 10) LIT(3_radps, 3) LIT(180_degps, PI_L) LIT(3_Hz, 3) LIT(3_KHz, 3e3L) LIT(3_MHz, 3e6L) LIT(3_GHz, 3e9L) LIT(0.5_m, 0.5L) LIT(0.5_W, 0.5L) LIT(0.5_s, 0.5L) LIT(0.5_h, 1800) LIT(-40.0_C, 233.15L)
    }
    { // spectral quantities convert like scalar ones, bin by bin
        mc::at("spectral power units"); using S = SpectralBins<3, 400, 700>; auto val = [&](double k) { S s{0}; for (std::size_t i = 0; i < 3; ++i) s[i] = float(k * double(i + 1)); return s; };
        auto conv = [&]<class A, class B>(A*, double ka, B*, double kb) { A a(val(2)); B b = a; auto c = a.template as<typename B::scale_type>(); S si = a.to_si(); for (std::size_t i = 0; i < 3; ++i) { double e = 2.0 * double(i + 1) * ka; mc::check(std::fabs(b.value()[i] - e / kb) <= 2e-7 * e / kb && c.value()[i] == b.value()[i] && std::fabs(si[i] - e) <= 2e-7 * e, "spectral", "bin %zu: %g and %g SI expected %g", i, double(b.value()[i]), double(si[i]), e); } mc::evaluated(true);
            std::string x = "SpectralQuantity[W]("; for (std::size_t i = 0; i < 3; ++i) x += (i ? ", " : "") + std::to_string(si[i]); mc::check(a.to_string() == x + ")", "spectral-text", "text '%s' does not state the value in its unit", a.to_string().c_str()); mc::check((a == A(val(2))) && (a != A(val(3))), "spectral-compare", "comparison"); };
        auto row = [&]<class A>(A* a, double k) { conv(a, k, (SpectralMilliwatts<S>*)0, 1e-3); conv(a, k, (SpectralWatts<S>*)0, 1); conv(a, k, (SpectralKilowatts<S>*)0, 1e3); conv(a, k, (SpectralMegawatts<S>*)0, 1e6); conv(a, k, (SpectralGigawatts<S>*)0, 1e9); };
        row((SpectralMilliwatts<S>*)0, 1e-3); row((SpectralWatts<S>*)0, 1); row((SpectralKilowatts<S>*)0, 1e3); row((SpectralMegawatts<S>*)0, 1e6); row((SpectralGigawatts<S>*)0, 1e9);
        SpectralWatts<S> z; for (std::size_t i = 0; i < 3; ++i) mc::check(z.value()[i] == 0, "spectral-default", "default is not zero");
    }
#endif
    mc::sample("Fahrenheit and Celsius"); return mc::finish();
}
