// C10: spectra of several bin layouts, over small alphabets of values and sample sets.
#include "huira_prelude.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/core/physics.hpp"
#include "mc.hpp"
using namespace huira;
template <class S> struct Tst {
    static constexpr std::size_t N = S::size(); std::vector<std::pair<double, double>> B; // expected bins, nm
    void bins(const char* name)
    {
        mc::at("%s bins", name); mc::evaluated(true); auto all = S::get_all_bins(); mc::check(S::size() == B.size() && all.size() == N && !S::empty(), "count", "size %zu", all.size());
        for (std::size_t i = 0; i < N; ++i) { auto b = S::get_bin(i); mc::check(std::fabs(b.min_wavelength * 1e9 - B[i].first) < 1e-6 && std::fabs(b.max_wavelength * 1e9 - B[i].second) < 1e-6 && std::fabs(b.center_wavelength * 1e9 - (B[i].first + B[i].second) / 2) < 1e-6, "bin", "bin %zu is %g-%g nm", i, b.min_wavelength * 1e9, b.max_wavelength * 1e9); mc::check(all[i].min_wavelength == b.min_wavelength && all[i].max_wavelength == b.max_wavelength, "bin", "get_all_bins differs from get_bin at %zu", i);
            for (std::size_t j = 0; j < i; ++j) { auto c = S::get_bin(j); mc::check(b.max_wavelength <= c.min_wavelength + 1e-21 || c.max_wavelength <= b.min_wavelength + 1e-21, "overlap", "bins %zu and %zu overlap", i, j); } }
        auto pe = S::photon_energies(); for (std::size_t i = 0; i < N; ++i) { double e = 6.62607015e-34 * 299792458.0 / ((B[i].first + B[i].second) * 0.5e-9); mc::check(std::fabs(pe[i] - e) <= 1e-6 * e, "photon", "photon energy of bin %zu is %g expected %g", i, double(pe[i]), e); }
        for (float t : {0.f, 1.f, 100.f, 1e-20f, 3e12f, -4.f}) { S s = S::from_total(t); double w = 0; for (auto& b : B) w += b.second - b.first; mc::check(std::fabs(s.total() - t) <= 2e-6 * std::fabs(t), "total", "from_total(%g).total() is %g", t, s.total()); for (std::size_t i = 0; i < N; ++i) mc::check(std::fabs(s[i] - t * (B[i].second - B[i].first) / w) <= 1e-6 * std::fabs(t), "split", "bin %zu of from_total(%g) is %g", i, t, double(s[i])); }
        // construction: unspecified bins are zero whatever memory held before
        alignas(S) unsigned char mem[sizeof(S)]; auto fresh = [&](auto make) -> const S& { std::memset(mem, 0xff, sizeof mem); return *make(mem); };
        auto want = [&](const S& s, auto f, const char* how) { for (std::size_t i = 0; i < N; ++i) mc::check(s[i] == f(i), "construct", "%s: bin %zu is %g", how, i, double(s[i])); };
        want(fresh([](void* m) { return new (m) S; }), [](std::size_t) { return 0.f; }, "default"); want(fresh([](void* m) { return new (m) S(2.5f); }), [](std::size_t) { return 2.5f; }, "fill"); want(fresh([](void* m) { return new (m) S(std::initializer_list<float>{}); }), [](std::size_t) { return 0.f; }, "empty list");
        want(fresh([](void* m) { return new (m) S(std::initializer_list<float>{3.f}); }), [](std::size_t) { return 3.f; }, "one-element list"); want(fresh([](void* m) { return new (m) S(std::initializer_list<float>{3.f, 4.f}); }), [](std::size_t i) { return i == 0 ? 3.f : i == 1 ? 4.f : 0.f; }, "two-element list"); want(fresh([](void* m) { return new (m) S(std::initializer_list<float>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}); }), [](std::size_t i) { return float(i + 1); }, "long list");
        S q; q.fill(7); want(q, [](std::size_t) { return 7.f; }, "fill()"); mc::check(mc::throws([&] { q.at(N) = 1; }) && mc::throws([&] { (void)std::as_const(q).at(N); }), "at", "at() beyond the last bin is accepted");
    }
    static S make(int code, const float* A, int na) { S s; for (std::size_t i = 0; i < N; ++i) { s[i] = A[std::size_t(code + int(i) * (1 + code / na)) % std::size_t(na)]; } return s; }
    void arith(const char* name)
    {
        const float A[] = {0, 1, -2.5f, 0.125f, 3e5f}; const int na = 5, nc = 25;
        for (int a = 0; a < nc; ++a) for (int b = 0; b < nc; ++b) {
            mc::at("%s arithmetic %d %d", name, a, b); mc::evaluated(true); S x = make(a, A, na), y = make(b, A, na), z;
            auto each = [&](const S& r, auto f, const char* op) { for (std::size_t i = 0; i < N; ++i) { float e = f(x[i], y[i]); mc::check(r[i] == e || (std::isnan(r[i]) && std::isnan(e)), op, "bin %zu is %g expected %g", i, double(r[i]), double(e)); } };
            each(x + y, [](float p, float q) { return p + q; }, "add"); each(x - y, [](float p, float q) { return p - q; }, "subtract"); each(x * y, [](float p, float q) { return p * q; }, "multiply"); each(x / y, [](float p, float q) { return p / q; }, "divide");
            z = x; z += y; each(z, [](float p, float q) { return p + q; }, "add-assign"); z = x; z -= y; each(z, [](float p, float q) { return p - q; }, "subtract-assign"); z = x; z *= y; each(z, [](float p, float q) { return p * q; }, "multiply-assign"); z = x; z /= y; each(z, [](float p, float q) { return p / q; }, "divide-assign");
            each(+x, [](float p, float) { return p; }, "plus"); each(-x, [](float p, float) { return -p; }, "negate"); bool eq = true; for (std::size_t i = 0; i < N; ++i) eq &= x[i] == y[i]; mc::check((x == y) == eq && (x != y) == !eq, "compare", "equality");
        }
        for (int a = 0; a < nc; ++a) {
            mc::at("%s scalars %d", name, a); mc::evaluated(true); S x = make(a, A, na), z; auto each = [&](const S& r, auto f, const char* op) { for (std::size_t i = 0; i < N; ++i) { float e = f(x[i]); mc::check(r[i] == e || (std::isnan(r[i]) && std::isnan(e)), op, "bin %zu is %g expected %g", i, double(r[i]), double(e)); } };
            auto scal = [&](auto k) { float g = float(k);
                each(x + k, [g](float p) { return p + g; }, "add-scalar"); each(k + x, [g](float p) { return p + g; }, "scalar-add"); each(x - k, [g](float p) { return p - g; }, "subtract-scalar"); each(k - x, [g](float p) { return g - p; }, "scalar-subtract"); each(x * k, [g](float p) { return p * g; }, "multiply-scalar"); each(k * x, [g](float p) { return p * g; }, "scalar-multiply"); each(x / k, [g](float p) { return p / g; }, "divide-scalar"); each(k / x, [g](float p) { return g / p; }, "scalar-divide");
                z = x; z += k; each(z, [g](float p) { return p + g; }, "add-assign-scalar"); z = x; z -= k; each(z, [g](float p) { return p - g; }, "subtract-assign-scalar"); z = x; z *= k; each(z, [g](float p) { return p * g; }, "multiply-assign-scalar"); z = x; z /= k; each(z, [g](float p) { return p / g; }, "divide-assign-scalar"); };
            scal(2.f); scal(0.1); scal(-3); scal(0.f); scal(7u);
            for (std::size_t o = 0; o < N; ++o) { float g = x[o]; z = x; z *= z[o]; each(z, [g](float p) { return p * g; }, "own-bin"); z = x; z /= z[o]; each(z, [g](float p) { return p / g; }, "own-bin"); z = x; z += z[o]; each(z, [g](float p) { return p + g; }, "own-bin"); z = x; z -= z[o]; each(z, [g](float p) { return p - g; }, "own-bin"); }
            double sum = 0, sq = 0, mx = x[0], mn = x[0], in = 0; bool ok = true, ratio = true; for (std::size_t i = 0; i < N; ++i) { sum += x[i]; sq += double(x[i]) * x[i]; mx = std::max<double>(mx, x[i]); mn = std::min<double>(mn, x[i]); in += x[i] * (B[i].second - B[i].first) * 1e-9; ok &= x[i] >= 0; ratio &= x[i] >= 0 && x[i] <= 1; }
            double tol = 1e-6 * (std::fabs(mx) + std::fabs(mn)) * double(N); mc::check(std::fabs(x.total() - sum) <= tol && std::fabs(x.magnitude() - std::sqrt(sq)) <= tol && x.max() == mx && x.min() == mn && std::fabs(x.integrate() - in) <= tol * 1e-6, "summary", "total %g magnitude %g max %g min %g integral %g", x.total(), x.magnitude(), x.max(), x.min(), x.integrate());
            mc::check(x.valid() == ok && x.valid_ratio() == ratio, "valid", "valid()=%d valid_ratio()=%d", x.valid(), x.valid_ratio()); S r = (x * x).sqrt(); for (std::size_t i = 0; i < N; ++i) mc::check(std::fabs(r[i] - std::fabs(x[i])) <= 1e-6 * std::fabs(x[i]), "sqrt", "bin %zu", i);
            for (std::size_t i = 0; i < N; ++i) for (float bad : {NAN, INFINITY, -INFINITY}) { S s(0.5f); s[i] = bad; mc::check(!s.valid() && !s.valid_ratio(), "valid", "a spectrum holding %g in bin %zu is reported valid", double(bad), i); }
            std::string t = "["; for (std::size_t i = 0; i < N; ++i) t += (i ? ", " : "") + std::to_string(x[i]); std::ostringstream os; os << x; mc::check(x.to_string() == t + "]" && os.str() == t + "]", "text", "%s", x.to_string().c_str());
            const double E[] = {300, 380, 400, 450, 500, 533, 600, 700, 750, 900, 1700, 2500, 3000}; for (double lo : E) for (double hi : E) { double e = 0; for (std::size_t i = 0; i < N; ++i) e += x[i] * std::max(0.0, std::min(hi, B[i].second) - std::max(lo, B[i].first)) * 1e-9; double g = x.integrate_over_band(lo * 1e-9, hi * 1e-9); if (lo < hi) mc::check(std::fabs(g - e) <= 1e-5 * 1e-6 * (std::fabs(mx) + std::fabs(mn)) * double(N) + 1e-6 * std::fabs(e), "band", "%g-%g nm gives %g expected %g", lo, hi, g, e); else if (lo == hi) mc::check(g == 0, "band-empty", "empty band %g-%g nm gives %g", lo, hi, g); }
        }
    }
    // piecewise-linear data; outside the samples either nothing or the end value may be assumed
    void data(const char* name)
    {
        double G[] = {300, 380, 420, 500, 550, 600, 675, 750, 800, 1200, 2600}; const int ng = 11; const float VA[] = {0, 1, 8.5f};
        for (int m = 1; m < 1 << ng; ++m) {
            int k = __builtin_popcount(unsigned(m)); if (k > (mc::thorough() ? 6 : 4)) continue; if (!mc::mine()) continue;
            std::vector<double> w; for (int i = 0; i < ng; ++i) if (m >> i & 1) w.push_back(G[i]); int nv = 1; for (int i = 0; i < k; ++i) nv *= 3;
            for (int c = 0; c < nv; ++c) {
                std::vector<float> v; for (int i = 0, x = c; i < k; ++i, x /= 3) v.push_back(VA[x % 3]); mc::at("%s data samples %x values %d", name, m, c); mc::evaluated(k > 1); S s = S::integrate_over_data(w, v);
                auto lin = [&](double t) { std::size_t i = 0; while (i + 2 < w.size() && t > w[i + 1]) ++i; return v[i] + (v[i + 1] - v[i]) * (t - w[i]) / (w[i + 1] - w[i]); };
                for (std::size_t i = 0; i < N; ++i) {
                    double a = B[i].first, b = B[i].second, ia = std::max(a, w.front()), ib = std::min(b, w.back()), in = 0; if (ib > ia && w.size() > 1) { std::vector<double> kn{ia}; for (double x : w) if (x > ia && x < ib) kn.push_back(x); kn.push_back(ib); for (std::size_t j = 0; j + 1 < kn.size(); ++j) in += 0.5 * (lin(kn[j]) + lin(kn[j + 1])) * (kn[j + 1] - kn[j]); }
                    bool full = w.front() <= a && w.back() >= b, none = w.back() <= a || w.front() >= b; double lo = in / (b - a), hi = lo; if (!full) { hi += v.front() * std::max(0.0, std::min(b, w.front()) - a) / (b - a) + v.back() * std::max(0.0, b - std::max(a, w.back())) / (b - a); }
                    if (none) { double edge = w.back() == a || w.front() == b || true ? 0 : 0; if (w.back() < a - 1e-6 || w.front() > b + 1e-6) { mc::check(s[i] == 0, "no-data", "bin %zu without samples is %g", i, double(s[i])); continue; } (void)edge; }
                    mc::check(s[i] >= lo - 1e-5 * (1 + lo) && s[i] <= hi + 1e-5 * (1 + hi), full ? "mean" : "partial", "bin %zu is %.9g expected %s%.9g..%.9g", i, double(s[i]), full ? "" : "within ", lo, hi);
                }
            }
        }
        auto bad = [&](std::vector<double> w, std::vector<float> v, const char* k) { mc::at("%s data %s", name, k); mc::evaluated(true); mc::check(mc::throws([&] { (void)S::integrate_over_data(w, v); }), "refuse", "%s samples are accepted", k); };
        bad({}, {}, "no"); bad({400}, {}, "missing"); bad({400, 500}, {1}, "missing"); bad({400}, {1, 2}, "surplus"); bad({500, 400}, {1, 2}, "descending"); bad({400, 400}, {1, 2}, "repeated"); bad({400, 500, 450}, {1, 2, 3}, "unordered"); bad({400, NAN, 500}, {1, 2, 3}, "NaN"); bad({NAN, 500}, {1, 2}, "NaN"); bad({400, NAN}, {1, 2}, "NaN");
    }
    void rgb(const char* name) // conversion keeps energy inside the visible band and falls back to grey outside it
    {
        const float V[] = {0, 1, 0.3f}; double lo = 1e9, hi = 0; for (auto& b : B) { lo = std::min(lo, b.first); hi = std::max(hi, b.second); } double ov = std::min(hi, 750.) - std::max(lo, 380.); bool sig = ov / 370 > 0.1; double R[3][2] = {{600, 750}, {500, 600}, {380, 500}};
        for (float r : V) for (float g : V) for (float b : V) {
            mc::at("%s from RGB %g %g %g", name, double(r), double(g), double(b)); mc::evaluated(true); S s = convert_rgb_to_spectral<S>(RGB{r, g, b}); float c[3] = {r, g, b};
            for (std::size_t i = 0; i < N; ++i) { double e = 0; for (int k = 0; k < 3; ++k) e += c[k] * std::max(0.0, std::min(B[i].second, R[k][1]) - std::max(B[i].first, R[k][0])); e /= B[i].second - B[i].first; if (!sig) e = (double(r) + g + b) / 3; mc::check(std::fabs(s[i] - e) <= 1e-5, "rgb", "bin %zu is %g expected %g", i, double(s[i]), e); }
            mc::check(s.valid_ratio() || s.max() <= 1.00001f, "rgb-ratio", "a valid colour becomes an invalid ratio");
        }
    }
    void run(const char* name) { if (mc::S().shard == 0) { bins(name); arith(name); rgb(name); } data(name); }
};
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(1);
    auto uni = [](int n, double a, double b) { std::vector<std::pair<double, double>> r; for (int i = 0; i < n; ++i) r.push_back({a + (b - a) * i / n, a + (b - a) * (i + 1) / n}); return r; };
    Tst<RGB>{{{600, 750}, {500, 600}, {380, 500}}}.run("RGB"); Tst<Visible8>{uni(8, 380, 750)}.run("Visible8"); Tst<SWIR8>{uni(8, 900, 2500)}.run("SWIR8");
    Tst<UniformSpectralBins<1, 400, 700>>{uni(1, 400, 700)}.run("one bin"); Tst<SpectralBinEdges<3, 380, 410, 500, 760>>{{{380, 410}, {410, 500}, {500, 760}}}.run("edges"); Tst<SpectralBins<2, 700, 800, 300, 420>>{{{700, 800}, {300, 420}}}.run("gap"); Tst<UniformSpectralBins<2, 380, 560>>{uni(2, 380, 560)}.run("blue"); Tst<UniformSpectralBins<3, 740, 1100>>{uni(3, 740, 1100)}.run("near infrared");
    mc::sample("Visible8 data samples 2d values 5"); return mc::finish();
}
