// C47: the Python module as a Python program sees it, on a stand-in Python (stub/py): every unit against every unit, every layout, type and shape of array, every keyword and index, through the real binding code.
#ifndef PART
#define PART 0
#endif
#if PART == 1
#include "huira_prelude.hpp"
#include "huira/huira.hpp"
#include "src/huira_module.cpp"
#else
#include "huira_prelude.hpp"
#include <fstream>
#include <set>
#include "huira/huira.hpp"
#include "mc.hpp"
#include "pybind11/pybind11.h"
namespace py = pybind11; using namespace huira; using py::ref; using py::K; using mc::fmt; using V = std::vector<ref>; using KW = std::map<std::string, ref>;
void huira_module_init(py::module_& m);
static ref M; static const std::string SUB[3] = {"rgb", "visible8", "swir8"};
// ---- a little Python
static ref G(const ref& o, const std::string& n) { return py::getattr_ref(o, n); }
static ref at(const std::string& n) { ref o = M; std::istringstream s(n); std::string p; while (std::getline(s, p, '.')) o = G(o, p); return o; }
static ref F(double v) { return py::mk_float(v); } static ref I(long long v) { return py::mk_int(v); } static ref B(bool v) { return py::mk_bool(v); } static ref T(const std::string& v) { return py::mk_str(v); }
static ref tup(V v) { return py::mk_seq(K::Tuple, v); } static ref lst(V v) { return py::mk_seq(K::List, v); }
static ref C(const ref& f, V a = {}, KW k = {}) { return py::call(f, a, k); }
static ref C(const std::string& f, V a = {}, KW k = {}) { return C(at(f), a, k); }
static ref meth(const ref& o, const std::string& n, V a = {}, KW k = {}) { return C(G(o, n), a, k); }
static double num(const ref& r) { if (r->k == K::Float) return r->d; if (r->k == K::Int || r->k == K::Bool) return double(r->i); throw std::runtime_error("not a number: " + py::kind_name(r)); }
static std::string what; template <class X> static ref run(X f) { try { what.clear(); return f(); } catch (const std::exception& e) { what = e.what(); return nullptr; } }
static ref binop(const ref& a, const char* n, const char* rn, const ref& b) { ref r = py::notimpl(); if (auto f = py::find_attr(a, n)) r = C(f, {b}); if (r->k == K::NotImpl) if (auto f = py::find_attr(b, rn)) r = C(f, {a}); if (r->k == K::NotImpl) throw py::type_error("unsupported operand"); return r; }
static ref numpy(char dt, std::vector<double> v, std::vector<py::ssize_t> sh) { auto a = py::new_array('d', sh); if (!v.empty()) std::memcpy(a->ptr, v.data(), v.size() * 8); return dt == 'd' ? a : py::copy_array(a, dt); }
static double item(const ref& a, std::vector<py::ssize_t> ix) { py::ssize_t off = 0; for (std::size_t k = 0; k < ix.size(); ++k) off += ix[k] * a->strides[k]; double d = 0; py::copy_item(a->dt, static_cast<char*>(a->ptr) + off, 'd', &d); return d; }
// the same values in another layout: 0 plain, 1 every second of a larger array, 2 reversed, 3 column order, 4 every third from an offset
static ref laid(const ref& a, int how) { if (how == 0) return a; auto r = py::mk(K::Array); r->dt = a->dt; r->shape = a->shape; py::ssize_t n = 1, is = py::dsize(a->dt); for (auto s : a->shape) n *= s; std::size_t nd = a->shape.size();
    std::vector<py::ssize_t> st(nd); py::ssize_t step = how == 1 ? 2 : how == 4 ? 3 : 1, run = is * step; if (how == 3) for (std::size_t k = 0; k < nd; ++k) { st[k] = run; run *= a->shape[k]; } else for (std::size_t k = nd; k-- > 0;) { st[k] = run; run *= a->shape[k]; }
    auto buf = std::make_shared<std::vector<char>>(std::size_t(n * is * step + 4 * is), char(0x3A)); char* p = buf->data() + (how == 4 ? is : 0); if (how == 2) { for (std::size_t k = 0; k < nd; ++k) { p += st[k] * (a->shape[k] - 1); st[k] = -st[k]; } }
    for (py::ssize_t i = 0; i < n; ++i) { py::ssize_t q = i, o1 = 0, o2 = 0; for (std::size_t k = nd; k-- > 0;) { auto x = q % a->shape[k]; q /= a->shape[k]; o1 += x * a->strides[k]; o2 += x * st[k]; } std::memcpy(p + o2, static_cast<char*>(a->ptr) + o1, std::size_t(is)); }
    r->strides = st; r->ptr = p; r->own = buf; return r; }
static const char* HOW[5] = {"plain", "every second", "reversed", "column order", "every third"};
// ---- units: what each name means, from the definitions of the units themselves
struct U { const char* n; const char* dim; double f; double off; };
static const double PI_ = 3.14159265358979323846;
static const std::vector<U> UNITS = {
    {"Kilometer", "length", 1e3, 0}, {"Meter", "length", 1, 0}, {"Centimeter", "length", 1e-2, 0}, {"Millimeter", "length", 1e-3, 0}, {"Micrometer", "length", 1e-6, 0}, {"Nanometer", "length", 1e-9, 0}, {"AstronomicalUnit", "length", 149597870700.0, 0}, {"AU", "length", 149597870700.0, 0}, {"Foot", "length", 0.3048, 0}, {"Yard", "length", 0.9144, 0}, {"Mile", "length", 1609.344, 0},
    {"Kilogram", "mass", 1, 0}, {"Gram", "mass", 1e-3, 0}, {"Milligram", "mass", 1e-6, 0},
    {"SiderealDay", "time", 86164.0905, 0}, {"Day", "time", 86400, 0}, {"Hour", "time", 3600, 0}, {"Minute", "time", 60, 0}, {"Second", "time", 1, 0}, {"Millisecond", "time", 1e-3, 0}, {"Microsecond", "time", 1e-6, 0}, {"Nanosecond", "time", 1e-9, 0}, {"Femtosecond", "time", 1e-15, 0},
    {"Ampere", "current", 1, 0}, {"Kelvin", "temperature", 1, 0}, {"Celsius", "temperature", 1, 273.15}, {"Fahrenheit", "temperature", 5.0 / 9.0, 459.67 * 5.0 / 9.0}, {"Mole", "amount", 1, 0}, {"Candela", "luminous intensity", 1, 0},
    {"Radian", "angle", 1, 0}, {"Degree", "angle", PI_ / 180, 0}, {"Arcminute", "angle", PI_ / 10800, 0}, {"Arcsecond", "angle", PI_ / 648000, 0}, {"Steradian", "solid angle", 1, 0}, {"SquareDegree", "solid angle", PI_ / 180 * PI_ / 180, 0},
    {"Diopter", "1/length", 1, 0}, {"Millidiopter", "1/length", 1e-3, 0}, {"Microdiopter", "1/length", 1e-6, 0}, {"MetersPerSecond", "speed", 1, 0}, {"KilometersPerSecond", "speed", 1e3, 0}, {"MilesPerHour", "speed", 0.44704, 0}, {"KilometersPerHour", "speed", 1 / 3.6, 0},
    {"RadiansPerSecond", "angular rate", 1, 0}, {"DegreesPerSecond", "angular rate", PI_ / 180, 0}, {"Hertz", "frequency", 1, 0}, {"Kilohertz", "frequency", 1e3, 0}, {"Megahertz", "frequency", 1e6, 0}, {"Gigahertz", "frequency", 1e9, 0}, {"Terahertz", "frequency", 1e12, 0},
    {"Newton", "force", 1, 0}, {"Kilonewton", "force", 1e3, 0}, {"Pascal", "pressure", 1, 0}, {"Kilopascal", "pressure", 1e3, 0}, {"Joule", "energy", 1, 0}, {"Kilojoule", "energy", 1e3, 0}, {"Megajoule", "energy", 1e6, 0}, {"ElectronVolt", "energy", 1.602176634e-19, 0},
    {"SquareMeter", "area", 1, 0}, {"SquareCentimeter", "area", 1e-4, 0}, {"SquareMillimeter", "area", 1e-6, 0}, {"Milliwatt", "power", 1e-3, 0}, {"Watt", "power", 1, 0}, {"Kilowatt", "power", 1e3, 0}, {"Megawatt", "power", 1e6, 0}, {"Gigawatt", "power", 1e9, 0}, {"Coulomb", "charge", 1, 0},
    {"WattsPerMeterSquaredSteradian", "radiance", 1, 0}, {"WattsPerMeterSquared", "irradiance", 1, 0}, {"WattsPerSteradian", "radiant intensity", 1, 0}, {"Lumen", "luminous flux", 1, 0}};
static double si(const U& u, double v) { return v * u.f + u.off; }
static ref unit(const U& u, double v) { return C(u.n, {F(v)}); }
static double to_si(const ref& q) { return num(meth(q, "to_si")); }
static bool close(double a, double b, double scale = 0) { return std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b) + scale); }
static void units_part()
{
    const double vals[] = {0, 1, -2.5, 7};
    for (auto& a : UNITS) { if (!mc::mine()) continue;
        for (double v : vals) { mc::at("units: %s(%g)", a.n, v); mc::evaluated();
            ref q = run([&] { return unit(a, v); }); if (!mc::check(bool(q), "unit", "%s", what.c_str())) continue;
            mc::check(close(to_si(q), si(a, v), a.off), "to-si", "%.17g SI, %.17g expected", to_si(q), si(a, v)); mc::check(num(meth(q, "raw_value")) == v, "raw", "raw value");
            if (v == std::floor(v)) { ref i = run([&] { return C(a.n, {I((long long)v)}); }); mc::check(i && num(meth(i, "raw_value")) == v, "int", "from an int: %s", what.c_str()); }
            ref kwv = run([&] { return C(a.n, {}, {{"value", F(v)}}); }); mc::check(kwv && num(meth(kwv, "raw_value")) == v, "keyword", "value=: %s", what.c_str());
            { auto n32 = py::mk(K::Np32); n32->d = v; ref i = run([&] { return C(a.n, {n32}); }); mc::check(i && num(meth(i, "raw_value")) == v, "numpy-scalar", "from a numpy.float32: %s", what.c_str()); } mc::check(!run([&] { return C(a.n, {T("3")}); }), "unit", "made of a str");
            if (a.off == 0) for (double s : {2.0, -0.5, 0.25}) { mc::evaluated(); ref x = run([&] { return binop(q, "__mul__", "__rmul__", F(s)); }), y = run([&] { return binop(F(s), "__mul__", "__rmul__", q); }), z = run([&] { return binop(q, "__truediv__", "__rtruediv__", F(s)); });
                mc::check(x && y && z && close(num(meth(x, "raw_value")), v * s) && close(num(meth(y, "raw_value")), v * s) && close(num(meth(z, "raw_value")), v / s), "scale", "times %g", s);
                ref w = unit(a, v); ref ip = run([&] { return meth(w, "__imul__", {F(s)}); }); mc::check(ip && close(num(meth(ip, "raw_value")), v * s), "scale", "*= %g", s); w = unit(a, v); ip = run([&] { return meth(w, "__itruediv__", {F(s)}); }); mc::check(ip && close(num(meth(ip, "raw_value")), v / s), "scale", "/= %g", s); } }
        for (auto& b : UNITS) for (double v : {1.0, -2.5}) for (double w : {1.0, 3.0}) { mc::at("units: %s(%g) with %s(%g)", a.n, v, b.n, w); mc::evaluated(); bool same = std::string(a.dim) == b.dim; ref p = unit(a, v), q = unit(b, w); double x = si(a, v), y = si(b, w);
            ref s = run([&] { return binop(p, "__add__", "__radd__", q); }), d = run([&] { return binop(p, "__sub__", "__rsub__", q); }), lt = run([&] { return binop(p, "__lt__", "__gt__", q); }), le = run([&] { return binop(p, "__le__", "__ge__", q); }), gt = run([&] { return binop(p, "__gt__", "__lt__", q); }), ge = run([&] { return binop(p, "__ge__", "__le__", q); }), eq = run([&] { return binop(p, "__eq__", "__eq__", q); });
            if (!same) { mc::check(!s && !d && !lt && !le && !gt && !ge && !(eq && eq->i), "dimension", "%s with %s accepted: %s", a.dim, b.dim, s ? "sum" : d ? "difference" : lt || le || gt || ge ? "order" : "equal"); }
            else { if (!mc::check(s && d && lt && le && gt && ge && eq, "arithmetic", "refused: %s", what.c_str())) continue; mc::check(close(to_si(s), x + y, a.off + std::fabs(x)), "sum", "%.17g SI, %.17g expected", to_si(s), x + y); mc::check(close(to_si(d), x - y, a.off + std::fabs(x)), "difference", "%.17g SI, %.17g expected", to_si(d), x - y); mc::check(s->type == p->type && d->type == p->type, "result-unit", "not in the unit of the left side");
                if (!close(x, y)) mc::check(lt->i == (x < y) && le->i == (x < y) && gt->i == (x > y) && ge->i == (x > y) && !eq->i, "order", "%g against %g", x, y); else if (a.n == b.n) mc::check(!lt->i && le->i && !gt->i && ge->i && eq->i, "order", "equal values"); }
            ref ni = run([&] { return C(a.n, {q}); }); if (!same) mc::check(!ni, "dimension", "a %s made of a %s", a.n, b.n); mc::outcome(same ? "same dimension" : "another dimension"); }
        // every place a quantity can be passed to
        auto t0 = C("Time.from_et", {F(1000)}); ref scene = C("rgb.Scene"), cam = meth(scene, "new_camera_model"), fr = meth(G(scene, "root"), "new_subframe"); V bins3{F(.3), F(.3), F(.3)};
        auto sb = [&](double v) { return C("rgb.SpectralBins", {F(v)}); };
        double X = 0; struct Place { const char* n; const char* dim; std::function<double(const ref&)> f; };
        auto vec = [](const ref& v, const char* c) { return num(G(v, c)); }; ref one = C("Meter", {F(1)}), mps = C("MetersPerSecond", {F(1)}), rps = C("RadiansPerSecond", {F(1)}), rad0 = C("Radian", {F(0)});
        std::vector<Place> P = {
            {"set_focal_length", "length", [&](const ref& q) { meth(cam, "set_focal_length", {q}); return to_si(meth(cam, "focal_length")); }}, {"set_focus_distance", "length", [&](const ref& q) { meth(cam, "set_focus_distance", {q}); return to_si(meth(cam, "get_focus_distance")); }},
            {"set_diopters", "1/length", [&](const ref& q) { meth(cam, "set_diopters", {q}); return to_si(meth(cam, "get_diopters")); }},
            {"set_position x", "length", [&](const ref& q) { meth(fr, "set_position", {q, one, one}); return vec(meth(fr, "get_static_position"), "x"); }}, {"set_position y", "length", [&](const ref& q) { meth(fr, "set_position", {one, q, one}); return vec(meth(fr, "get_static_position"), "y"); }}, {"set_position z=", "length", [&](const ref& q) { meth(fr, "set_position", {one, one}, {{"z", q}}); return vec(meth(fr, "get_static_position"), "z"); }},
            {"set_velocity x", "speed", [&](const ref& q) { meth(fr, "set_velocity", {q, mps, mps}); return vec(meth(fr, "get_static_velocity"), "x"); }}, {"set_velocity y", "speed", [&](const ref& q) { meth(fr, "set_velocity", {mps, q, mps}); return vec(meth(fr, "get_static_velocity"), "y"); }}, {"set_velocity vz=", "speed", [&](const ref& q) { meth(fr, "set_velocity", {mps, mps}, {{"vz", q}}); return vec(meth(fr, "get_static_velocity"), "z"); }},
            {"set_angular_velocity x", "angular rate", [&](const ref& q) { meth(fr, "set_angular_velocity", {q, rps, rps}); return vec(meth(fr, "get_static_angular_velocity"), "x"); }}, {"set_angular_velocity y", "angular rate", [&](const ref& q) { meth(fr, "set_angular_velocity", {rps, q, rps}); return vec(meth(fr, "get_static_angular_velocity"), "y"); }}, {"set_angular_velocity wz=", "angular rate", [&](const ref& q) { meth(fr, "set_angular_velocity", {rps, rps}, {{"wz", q}}); return vec(meth(fr, "get_static_angular_velocity"), "z"); }},
            {"Time + ", "time", [&](const ref& q) { return num(meth(binop(t0, "__add__", "__radd__", q), "et")) - 1000; }}, {"Time - ", "time", [&](const ref& q) { return 1000 - num(meth(binop(t0, "__sub__", "__rsub__", q), "et")); }},
            {"Interval.from_start", "time", [&](const ref& q) { return num(meth(G(C("Interval.from_start", {t0, q}), "end"), "et")) - 1000; }}, {"Interval.from_centered", "time", [&](const ref& q) { return to_si(meth(C("Interval.from_centered", {t0, q}), "duration")); }},
            {"new_sphere_light radius", "length", [&](const ref& q) { meth(scene, "new_sphere_light", {q, C("Watt", {F(5)})}); return X; }}, {"new_sphere_light power", "power", [&](const ref& q) { meth(scene, "new_sphere_light", {one, q}); return X; }},
            {"add_ellipsoid", "length", [&](const ref& q) { meth(scene, "add_ellipsoid", {q, one, one}); return X; }}, {"new_unresolved_object", "irradiance", [&](const ref& q) { auto o = meth(scene, "new_unresolved_object", {q}); (void)o; return X; }}, {"new_unresolved_emitter", "power", [&](const ref& q) { meth(scene, "new_unresolved_emitter", {q}); return X; }},
            {"pitch", "length", [&](const ref& q) { meth(cam, "configure_sensor_from_pitch", {tup({I(4), I(2)}), q}); return X; }}, {"size", "length", [&](const ref& q) { meth(cam, "configure_sensor_from_size", {tup({I(4), I(2)}), q}); return X; }}, {"anchor", "length", [&](const ref& q) { meth(cam, "set_intrinsics", {F(100), F(100), F(2), F(1), tup({I(4), I(2)}), q}); return X; }},
            {"sensor rotation", "angle", [&](const ref& q) { meth(cam, "set_sensor_rotation", {q}); return X; }}};
        for (auto& p : P) { std::string pn = p.n; X = pn == "set_focal_length" ? .05 : pn == "set_focus_distance" ? 4 : pn == "set_diopters" ? .25 : pn == "pitch" ? 5e-6 : pn == "size" ? .01 : pn == "anchor" ? .02 : 3;
            mc::at("units: %s of %g in %s", p.n, X, a.n); mc::evaluated(); double got = 0; bool ok = bool(run([&] { got = p.f(unit(a, (X - a.off) / a.f)); return py::none_ref(); }));
            if (std::string(p.dim) != a.dim) { mc::check(!ok, "place-dimension", "%s accepted where %s is expected", a.dim, p.dim); continue; }
            if (mc::check(ok, "place-refused", "%s", what.c_str())) mc::check(std::fabs(got - X) <= 1e-6 * std::fabs(X) + 1e-10 * (p.n[0] == 'T' || p.n[0] == 'I' ? 1000 : 0), "place-value", "%.12g SI arrives, %.12g expected", got, X); }
        for (int which = 0; which < 6; ++which) { static const char* RN[] = {"from_local_to_parent", "from_parent_to_local", "from_local_to_parent_axis_angle", "from_parent_to_local_axis_angle", "extrinsic_euler_angles", "intrinsic_euler_angles"}; mc::at("units: Rotation.%s with %s", RN[which], a.n); mc::evaluated();
            double ang = std::string(a.dim) == "angle" ? 0.7 / a.f : 1; ref q = unit(a, ang), z = C("Vec3", {F(0), F(0), F(1)}), zn = numpy('d', {0, 0, 1}, {3}); ref r = run([&] { auto f = at(std::string("Rotation.") + RN[which]); return which < 2 ? C(f, {z, q}) : which < 4 ? C(f, {zn, q}) : C(f, {rad0, rad0, q}); });
            if (std::string(a.dim) != "angle") { mc::check(!r, "place-dimension", "an angle of %s", a.dim); continue; } if (!mc::check(bool(r), "place-refused", "%s", what.c_str())) continue; ref m = meth(r, "local_to_parent_numpy"), x = C("Rotation.from_local_to_parent", {z, C("Radian", {F(0.7)})}), mx = meth(x, "local_to_parent_numpy"); bool tr = which == 1 || which == 3;
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mc::check(mc::near(item(m, {i, j}), tr ? item(mx, {j, i}) : item(mx, {i, j}), 1e-12, 1e-12), "rotation-angle", "element %d %d", i, j);
            if (which == 0) { mc::check(mc::near(item(m, {0, 0}), std::cos(0.7), 1e-12, 0) && mc::near(item(m, {1, 0}), std::sin(0.7), 1e-12, 0) && mc::near(item(m, {0, 1}), -std::sin(0.7), 1e-12, 0), "rotation-angle", "not the rotation about z"); } } }
}
// ---- arrays
static const char* DT = "dfBHIQbhiq";
static void small_arrays()
{
    struct S { const char* n; int len; std::vector<std::string> c; }; for (const S& s : {S{"Vec3", 3, {"x", "y", "z"}}, S{"Quaternion", 4, {"w", "x", "y", "z"}}, S{"ShusterQuaternion", 4, {"x", "y", "z", "w"}}}) {
        for (const char* d = DT; *d; ++d) for (int how = 0; how < 5; ++how) { if (!mc::mine()) continue; mc::at("arrays: %s of dtype %c, %s", s.n, *d, HOW[how]); mc::evaluated(); std::vector<double> v; for (int i = 0; i < s.len; ++i) v.push_back(3 + 5 * i + (*d == 'd' || *d == 'f' ? 0.25 : 0));
            ref o = run([&] { return C(s.n, {laid(numpy(*d, v, {s.len}), how)}); }); if (!mc::check(bool(o), "array-refused", "%s", what.c_str())) continue; bool ok = true; for (int i = 0; i < s.len; ++i) ok = ok && num(G(o, s.c[std::size_t(i)])) == v[std::size_t(i)]; mc::check(ok, "array-values", "%g %g %g for %g %g %g", num(G(o, s.c[0])), num(G(o, s.c[1])), num(G(o, s.c[2])), v[0], v[1], v[2]);
            ref b = meth(o, "to_numpy"); ok = b->shape == std::vector<py::ssize_t>{s.len}; for (int i = 0; ok && i < s.len; ++i) ok = item(b, {i}) == v[std::size_t(i)]; mc::check(ok, "to-numpy", "does not give back the values"); mc::outcome(HOW[how]); }
        if (!mc::first_shard()) continue;
        for (int n = 0; n < 7; ++n) for (int nd = 0; nd < 3; ++nd) { if (n == s.len && nd == 0) continue; mc::at("arrays: %s of length %d, %d extra dimensions", s.n, n, nd); mc::evaluated(); std::vector<py::ssize_t> sh{n}; for (int k = 0; k < nd; ++k) sh.insert(sh.begin() + (k ? 1 : 0), 1); ref o = run([&] { return C(s.n, {numpy('d', std::vector<double>(std::size_t(n), 1.), sh)}); }); mc::check(!o, "array-shape", "accepted"); }
        V pos; KW kw; for (int i = 0; i < s.len; ++i) { pos.push_back(F(1 + i)); kw[s.c[std::size_t(i)]] = F(1 + i); } ref a = C(s.n, pos), b = run([&] { return C(s.n, {}, kw); }); mc::at("arrays: %s by keyword", s.n); mc::evaluated(); bool ok = bool(b); for (int i = 0; ok && i < s.len; ++i) ok = num(G(a, s.c[std::size_t(i)])) == 1 + i && num(G(b, s.c[std::size_t(i)])) == 1 + i; mc::check(ok, "keyword", "components mixed up");
        for (int i = 0; i < s.len; ++i) { py::setattr_ref(a, s.c[std::size_t(i)], F(50)); for (int k = 0; k < s.len; ++k) mc::check(num(G(a, s.c[std::size_t(k)])) == (k <= i ? 50 : 1 + k), "set-component", "%s set, %s reads %g", s.c[std::size_t(i)].c_str(), s.c[std::size_t(k)].c_str(), num(G(a, s.c[std::size_t(k)]))); } }
    // matrices and rotations, from every layout
    const double c = 0.8, sn = 0.6; const std::vector<double> R = {c, -sn, 0, sn, c, 0, 0, 0, 1}, R2 = {1, 0, 0, 0, c, -sn, 0, sn, c}, R3 = {0.36, 0.48, -0.8, -0.8, 0.6, 0, 0.48, 0.64, 0.6};
    int mi = 0; for (auto& r : {R, R2, R3}) { ++mi; for (char d : {'d', 'f'}) for (int how = 0; how < 5; ++how) { if (!mc::mine()) continue; mc::at("arrays: matrix %d of dtype %c, %s", mi, d, HOW[how]); mc::evaluated(); ref a = laid(numpy(d, r, {3, 3}), how); double tol = d == 'd' ? 1e-12 : 1e-6;
        auto eq = [&](const ref& m, bool tr) { if (!m || m->shape != std::vector<py::ssize_t>{3, 3}) return false; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!mc::near(item(m, {i, j}), r[std::size_t(tr ? 3 * j + i : 3 * i + j)], tol, tol)) return false; return true; };
        ref m = run([&] { return C("Mat3", {a}); }); mc::check(m && eq(meth(m, "to_numpy"), false), "matrix", "Mat3 does not give back its array %s", what.c_str());
        ref l = run([&] { return C("Rotation.from_local_to_parent_matrix", {a}); }), p = run([&] { return C("Rotation.from_parent_to_local_matrix", {a}); }), lm = run([&] { return C("Rotation.from_local_to_parent", {m}); }), pm = run([&] { return C("Rotation.from_parent_to_local", {m}); }); if (!mc::check(l && p && lm && pm, "matrix", "refused: %s", what.c_str())) continue;
        for (auto& x : {l, lm}) mc::check(eq(meth(x, "local_to_parent_numpy"), false) && eq(meth(x, "parent_to_local_numpy"), true) && eq(meth(meth(x, "local_to_parent_matrix"), "to_numpy"), false), "rotation-matrix", "local to parent"); for (auto& x : {p, pm}) mc::check(eq(meth(x, "parent_to_local_numpy"), false) && eq(meth(x, "local_to_parent_numpy"), true) && eq(meth(meth(x, "parent_to_local_matrix"), "to_numpy"), false), "rotation-matrix", "parent to local");
        auto col = [&](int j) { auto v = py::mk(K::Array); v->dt = a->dt; v->shape = {3}; v->strides = {a->strides[0]}; v->ptr = static_cast<char*>(a->ptr) + j * a->strides[1]; v->keep = a; return v; }; ref bv = run([&] { return C("Rotation.from_basis_vectors", {col(0), col(1), col(2)}); }); mc::check(bv && eq(meth(bv, "local_to_parent_numpy"), false), "basis", "axes given as columns of a matrix %s", what.c_str());
        ref ax = run([&] { return C("Rotation.from_local_to_parent_axis_angle", {col(2), C("Radian", {F(0.5)})}); }), ax2 = C("Rotation.from_local_to_parent", {C("Vec3", {F(r[2]), F(r[5]), F(r[8])}), C("Radian", {F(0.5)})}); auto sameR = [&](const ref& x, const ref& y) { if (!x || !y) return false; ref u = meth(x, "local_to_parent_numpy"), v = meth(y, "local_to_parent_numpy"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!mc::near(item(u, {i, j}), item(v, {i, j}), tol, tol)) return false; return true; };
        mc::check(sameR(ax, ax2), "axis", "axis given as a column of a matrix %s", what.c_str()); ref ay = run([&] { return C("Rotation.from_parent_to_local_axis_angle", {col(2), C("Radian", {F(0.5)})}); }); mc::check(ay && sameR(meth(ay, "inverse"), ax2), "axis", "parent to local axis given as a column");
        for (int lay = 0; lay < 5; ++lay) for (char e : {'d', 'f', 'i', 'B'}) { mc::evaluated(); ref v = laid(numpy(e, {2, 3, 5}, {3}), lay); ref o = run([&] { return meth(l, "apply", {v}); }); ref w = run([&] { return binop(l, "__mul__", "__rmul__", C("Vec3", {F(2), F(3), F(5)})); }); bool ok = o && w; for (int i = 0; ok && i < 3; ++i) { double x = r[std::size_t(3 * i)] * 2 + r[std::size_t(3 * i + 1)] * 3 + r[std::size_t(3 * i + 2)] * 5; static const char* XYZ[] = {"x", "y", "z"}; ok = mc::near(item(o, {i}), x, 1e-6, 1e-5) && mc::near(num(G(w, XYZ[i])), x, 1e-6, 1e-5); } mc::check(ok, "apply", "%s vector of dtype %c", HOW[lay], e); }
        ref q = meth(l, "local_to_parent_quaternion"), qs = meth(l, "local_to_parent_shuster_quaternion"); mc::check(sameR(C("Rotation.from_local_to_parent", {q}), l) && sameR(C("Rotation.from_local_to_parent", {qs}), l) && sameR(C("Rotation.from_parent_to_local", {meth(l, "parent_to_local_quaternion")}), l) && sameR(C("Rotation.from_parent_to_local", {meth(l, "parent_to_local_shuster_quaternion")}), l), "quaternion", "round trip");
        ref prod = binop(l, "__mul__", "__rmul__", ax2); ref inv = binop(prod, "__mul__", "__rmul__", meth(ax2, "inverse")); mc::check(sameR(inv, l), "product", "A*B*B^-1");
        ref scene = C("rgb.Scene"), fr = meth(G(scene, "root"), "new_subframe"); auto st = [&] { return meth(fr, "get_static_rotation"); }; meth(fr, "set_rotation", {l}); mc::check(sameR(st(), l), "node-rotation", "set_rotation"); meth(fr, "set_rotation_local_to_parent", {m}); mc::check(sameR(st(), l), "node-rotation", "matrix"); meth(fr, "set_rotation_parent_to_local", {m}); mc::check(sameR(st(), p), "node-rotation", "parent to local matrix"); meth(fr, "set_rotation_local_to_parent", {q}); mc::check(sameR(st(), l), "node-rotation", "quaternion"); meth(fr, "set_rotation_parent_to_local", {q}); mc::check(sameR(st(), p), "node-rotation", "parent to local quaternion");
        ref zz = C("Vec3", {F(r[2]), F(r[5]), F(r[8])}); meth(fr, "set_rotation_local_to_parent", {zz, C("Degree", {F(90 / PI_)})}); mc::check(sameR(st(), ax2), "node-rotation", "axis and angle"); meth(fr, "set_rotation_parent_to_local", {zz, C("Radian", {F(.5)})}); mc::check(sameR(meth(st(), "inverse"), ax2), "node-rotation", "parent to local axis and angle"); } }
    if (mc::first_shard()) { for (auto sh : {std::vector<py::ssize_t>{9}, {3}, {3, 2}, {2, 3}, {4, 4}, {1, 3, 3}, {3, 3, 1}, {0, 0}, {3, 4}, {4, 3}}) { std::size_t n = 1; for (auto x : sh) n *= std::size_t(x); mc::at("arrays: matrix of %zu dimensions, first %d", sh.size(), int(sh[0])); mc::evaluated(); ref a = numpy('d', std::vector<double>(n, 0.), sh); for (const char* f : {"Mat3", "Rotation.from_local_to_parent_matrix", "Rotation.from_parent_to_local_matrix"}) mc::check(!run([&] { return C(f, {a}); }), "array-shape", "%s accepts it", f);
            if (!(sh.size() == 1 && sh[0] == 3)) { ref z = numpy('d', {0, 0, 1}, {3}); mc::check(!run([&] { return meth(C("Rotation"), "apply", {a}); }) && !run([&] { return C("Rotation.from_local_to_parent_axis_angle", {a, C("Radian", {F(1)})}); }) && !run([&] { return C("Rotation.from_parent_to_local_axis_angle", {a, C("Radian", {F(1)})}); }) && !run([&] { return C("Rotation.from_basis_vectors", {a, z, z}); }) && !run([&] { return C("Rotation.from_basis_vectors", {z, a, z}); }) && !run([&] { return C("Rotation.from_basis_vectors", {z, z, a}); }), "array-shape", "accepted for a vector"); } }
        for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 3; ++z) for (int how = 0; how < 2; ++how) { if (x == y || y == z) continue; std::string seq{"XYZ"[x], "XYZ"[y], "XYZ"[z]}; mc::at("arrays: Euler angles %s, %d", seq.c_str(), how); mc::evaluated(); double an[3] = {0.3, -0.7, 1.1}; V q; for (double v : an) q.push_back(C("Degree", {F(v * 180 / PI_)})); q.push_back(T(seq)); ref e = run([&] { return C(how ? "Rotation.intrinsic_euler_angles" : "Rotation.extrinsic_euler_angles", q); });
            auto lib = how ? Rotation<double>::intrinsic_euler_angles(units::Radian(0.3), units::Radian(-0.7), units::Radian(1.1), seq) : Rotation<double>::extrinsic_euler_angles(units::Radian(0.3), units::Radian(-0.7), units::Radian(1.1), seq); auto lm = lib.local_to_parent_matrix(); bool ok = bool(e); if (ok) { ref m = meth(e, "local_to_parent_numpy"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ok = ok && mc::near(item(m, {i, j}), lm[j][i], 1e-12, 1e-12); } mc::check(ok, "euler", "angles or sequence mixed up %s", what.c_str());
            if (seq == "XYZ") { q.pop_back(); ref dflt = run([&] { return C(how ? "Rotation.intrinsic_euler_angles" : "Rotation.extrinsic_euler_angles", q); }); ok = bool(dflt); if (ok) { ref m = meth(dflt, "local_to_parent_numpy"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ok = ok && mc::near(item(m, {i, j}), lm[j][i], 1e-12, 1e-12); } mc::check(ok, "euler", "default sequence"); } } }
}
static void images()
{
    struct S { std::string n; char dt; int ch; }; std::vector<S> L = {{"Image_f32", 'f', 1}, {"Image_f64", 'd', 1}, {"Image_u8", 'B', 1}, {"Image_u16", 'H', 1}, {"Image_u32", 'I', 1}, {"Image_u64", 'Q', 1}, {"Image_Vec3f", 'f', 3}};
    for (auto& s : SUB) { auto mod = G(M, s); for (auto& [n, r] : mod->attrs) if (r->k == K::Type && n.rfind("Image_", 0) == 0) L.push_back({s + "." + n, 'f', s == "rgb" ? 3 : 8}); }
    auto cls = [](const std::string& n) { auto p = n.find('.'); return p == std::string::npos ? G(M, n) : G(G(M, n.substr(0, p)), n.substr(p + 1)); };
    for (auto& s : L) for (int h = 1; h <= 3; ++h) for (int w = 1; w <= 4; ++w) { if (!mc::mine()) continue; std::size_t n = std::size_t(h * w * s.ch); std::vector<double> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = double(1 + (i * 7) % 120); auto C_ = cls(s.n);
        for (int nd = s.ch == 1 ? 2 : 3; nd <= 3; ++nd) for (const char* d = DT; *d; ++d) for (int how = 0; how < 5; ++how) { mc::at("images: %s from %dx%d, %d dimensions, dtype %c, %s", s.n.c_str(), h, w, nd, *d, HOW[how]); mc::evaluated(); std::vector<py::ssize_t> sh{h, w}; if (nd == 3) sh.push_back(s.ch); ref a = laid(numpy(*d, v, sh), how); ref img = run([&] { return C(C_, {a}); }); if (!mc::check(bool(img), "image-refused", "%s", what.c_str())) continue; mc::outcome(s.n + (how ? " laid out" : " plain"));
            mc::check(num(G(img, "width")) == w && num(G(img, "height")) == h, "image-size", "%g x %g", num(G(img, "width")), num(G(img, "height"))); auto rs = G(img, "resolution"), shp = G(img, "shape"); mc::check(rs->items.size() == 2 && num(rs->items[0]) == w && num(rs->items[1]) == h, "image-size", "resolution"); bool so = shp->items.size() == (s.ch == 1 ? 2u : 3u) && num(shp->items[0]) == h && num(shp->items[1]) == w && (s.ch == 1 || num(shp->items[2]) == s.ch); mc::check(so && num(G(img, "channels")) == s.ch, "image-size", "shape");
            ref cp = meth(img, "to_numpy"), view = py::buffer_array(img); auto at3 = [&](const ref& x, int i, int j, int c) { return s.ch == 1 ? item(x, {i, j}) : item(x, {i, j, c}); }; bool ok = cp->dt == s.dt && view->dt == s.dt && cp->shape.size() == (s.ch == 1 ? 2u : 3u) && cp->shape == view->shape; for (int i = 0; ok && i < h; ++i) for (int j = 0; ok && j < w; ++j) for (int c = 0; ok && c < s.ch; ++c) { double x = v[std::size_t((i * w + j) * s.ch + c)]; ok = at3(cp, i, j, c) == x && at3(view, i, j, c) == x; } mc::check(ok, "image-values", "the image does not hold the array");
            if (how || *d != 'd') continue; // a view shares the pixels, a copy does not
            double five = 5; py::copy_item('d', &five, view->dt, view->ptr); mc::check(at3(py::buffer_array(img), 0, 0, 0) == 5 && at3(meth(img, "to_numpy"), 0, 0, 0) == 5 && at3(cp, 0, 0, 0) == v[0], "image-view", "a view must share the pixels and a copy must not");
            if (s.ch > 1) for (int c = 0; c < s.ch; ++c) { mc::evaluated(); ref one = run([&] { return meth(img, "get_channel", {I(c)}); }); ok = bool(one); if (ok) { ref o = meth(one, "to_numpy"); ok = o->shape == std::vector<py::ssize_t>{h, w}; for (int i = 0; ok && i < h; ++i) for (int j = 0; ok && j < w; ++j) ok = item(o, {i, j}) == at3(view, i, j, c); } mc::check(ok, "channel", "channel %d %s", c, what.c_str()); }
            ref rp = meth(img, "__repr__"); std::string cn = s.n.substr(s.n.find('.') == std::string::npos ? 0 : s.n.find('.') + 1), want = fmt("(%dx%d, channels=%d)", w, h, s.ch); mc::check(rp->s.size() > want.size() && rp->s.compare(rp->s.size() - want.size(), want.size(), want) == 0 && rp->s.find(cn) != std::string::npos, "repr", "%s of a %s", rp->s.c_str(), cn.c_str());
            py::setattr_ref(img, "sensor_bit_depth", I(11)); mc::check(num(G(img, "sensor_bit_depth")) == 11, "image-size", "bit depth"); ref bundle = run([&] { auto p = s.n.find('.'); return C(cls((p == std::string::npos ? "" : s.n.substr(0, p + 1)) + "ImageBundle_" + s.n.substr(s.n.rfind('_') + 1)), {img}); });
            if (mc::check(bool(bundle), "bundle", "%s", what.c_str())) { ref bi = meth(G(bundle, "image"), "to_numpy"), im2 = meth(img, "to_numpy"); bool same = bi->shape == im2->shape; for (int i = 0; same && i < h; ++i) for (int j = 0; same && j < w; ++j) same = at3(bi, i, j, 0) == at3(im2, i, j, 0); mc::check(same, "bundle", "another image"); py::setattr_ref(bundle, "gamma_value", F(2.5)); py::setattr_ref(bundle, "bit_depth", I(12)); py::setattr_ref(bundle, "color_space", G(at("ColorSpaceHint"), "Gamma")); py::setattr_ref(bundle, "alpha", C("Image_f32", {I(2), I(1), F(.5)})); mc::check(num(G(bundle, "gamma_value")) == 2.5 && num(G(bundle, "bit_depth")) == 12 && num(meth(G(bundle, "color_space"), "__int__")) == int(ColorSpaceHint::Gamma) && num(G(G(bundle, "alpha"), "width")) == 2 && num(G(G(bundle, "image"), "width")) == w, "bundle", "a field of the bundle reaches another one"); }
            ref filled = run([&] { return s.ch == 1 ? C(C_, {I(w), I(h), s.dt == 'f' || s.dt == 'd' ? F(3) : I(3)}) : s.ch == 3 && s.n == "Image_Vec3f" ? C(C_, {I(w), I(h), C("Vec3f", {F(3), F(3), F(3)})}) : C(C_, {I(w), I(h), C(s.n.substr(0, s.n.find('.')) + ".SpectralBins", {F(3)})}); }); if (mc::check(bool(filled), "image-fill", "%s", what.c_str())) { ref fn = meth(filled, "to_numpy"); mc::check(fn->shape[0] == h && fn->shape[1] == w && at3(fn, h - 1, w - 1, s.ch - 1) == 3, "image-fill", "not what it was filled with"); }
            meth(img, "set_sensor_bit_depth"[0] ? "clear" : "", {}); mc::check(G(img, "empty")->k == K::Bool, "image-size", "empty"); }
        for (int nd = 0; nd <= 4; ++nd) for (int ch = 0; ch <= 9; ++ch) { bool good = (s.ch == 1 && (nd == 2 || (nd == 3 && ch == 1))) || (s.ch > 1 && nd == 3 && ch == s.ch); if (good || (nd < 3 && ch) || h * w > 4) continue; mc::at("images: %s from %d dimensions, %d channels", s.n.c_str(), nd, ch); mc::evaluated(); std::vector<py::ssize_t> sh; std::size_t m = 1; for (int k = 0; k < nd; ++k) { sh.push_back(k == 2 ? ch : k == 3 ? 1 : k ? w : h); m *= std::size_t(sh.back()); } mc::check(!run([&] { return C(C_, {numpy('d', std::vector<double>(m, 1.), sh)}); }), "image-shape", "accepted"); } }
}
static void bins()
{
    for (int si_ = 0; si_ < 3; ++si_) { std::string sm = SUB[si_]; int N = si_ == 0 ? 3 : 8; auto cls = G(G(M, sm), "SpectralBins"); auto mk = [&](double a, double b) { V v; for (int i = 0; i < N; ++i) v.push_back(F(a + b * i)); return C(cls, {lst(v)}); }; auto get = [](const ref& s, int i) { return num(meth(s, "__getitem__", {I(i)})); };
        if (!mc::mine()) continue;
        for (int n = 0; n <= N + 2; ++n) { mc::at("bins: %s of a list of %d", sm.c_str(), n); mc::evaluated(); V v; for (int i = 0; i < n; ++i) v.push_back(i % 2 ? I(i) : F(i + .5)); ref s = run([&] { return C(cls, {lst(v)}); }); mc::check(bool(s) == (n == N), "list-size", "%s", what.c_str()); if (s) for (int i = 0; i < N; ++i) mc::check(get(s, i) == (i % 2 ? i : i + .5), "list-values", "bin %d", i); }
        for (int i = -3; i <= N + 2; ++i) { mc::at("bins: %s [%d]", sm.c_str(), i); mc::evaluated(); ref s = mk(1, 1); bool in = i >= 0 && i < N, neg = i < 0 && i >= -N; ref g = run([&] { return meth(s, "__getitem__", {I(i)}); }); ref b = run([&] { return C(G(cls, "get_bin"), {I(i)}); }); if (in) { mc::check(g && num(g) == 1 + i, "index", "%s", what.c_str()); meth(s, "__setitem__", {I(i), F(40)}); for (int k = 0; k < N; ++k) mc::check(get(s, k) == (k == i ? 40 : 1 + k), "index-set", "bin %d", k); mc::check(bool(b), "index", "get_bin"); } else { mc::check(!g || (neg && num(g) == 1 + N + i), "index", "reads something out of range"); mc::check(!b, "index", "a bin out of range"); if (!neg) mc::check(!run([&] { return meth(s, "__setitem__", {I(i), F(40)}); }), "index-set", "writes out of range"); } }
        struct O { const char* n; const char* r; std::function<double(double, double)> f; const char* ip; }; for (const O& o : {O{"__add__", "__radd__", [](double a, double b) { return a + b; }, "__iadd__"}, O{"__sub__", "__rsub__", [](double a, double b) { return a - b; }, "__isub__"}, O{"__mul__", "__rmul__", [](double a, double b) { return a * b; }, "__imul__"}, O{"__truediv__", "__rtruediv__", [](double a, double b) { return a / b; }, "__itruediv__"}}) for (int pat = 0; pat < 4; ++pat) { mc::at("bins: %s %s pattern %d", sm.c_str(), o.n, pat); mc::evaluated(); double a0 = pat & 1 ? -2 : 3, da = pat & 2 ? 0.5 : 1.5, b0 = 2, db = pat & 1 ? 1 : 0.25;
            ref a = mk(a0, da), b = mk(b0, db), r = run([&] { return binop(a, o.n, o.r, b); }), q = run([&] { return binop(a, o.n, o.r, F(4)); }); bool ok = r && q; for (int i = 0; ok && i < N; ++i) ok = mc::near(get(r, i), o.f(a0 + da * i, b0 + db * i), 1e-6, 1e-6) && mc::near(get(q, i), o.f(a0 + da * i, 4), 1e-6, 1e-6) && get(a, i) == a0 + da * i && mc::near(get(b, i), b0 + db * i, 0, 0); mc::check(ok, "bins-arithmetic", "wrong result or operand changed %s", what.c_str());
            ref ip = run([&] { return meth(a, o.ip, {b}); }); ok = bool(ip); for (int i = 0; ok && i < N; ++i) ok = mc::near(get(ip, i), o.f(a0 + da * i, b0 + db * i), 1e-6, 1e-6); mc::check(ok, "bins-arithmetic", "in place"); }
        mc::at("bins: %s summaries", sm.c_str()); mc::evaluated(); ref s = mk(2, -1), neg = meth(s, "__neg__"), rm = binop(F(3), "__mul__", "__rmul__", s); double tot = 0, mn = 1e9, mx = -1e9; bool ok = num(meth(s, "__len__")) == N && num(C(G(cls, "size"))) == N; ref l = meth(s, "to_list"); ok = ok && l->items.size() == std::size_t(N); for (int i = 0; i < N; ++i) { double v = 2 - i; tot += v; mn = std::min(mn, v); mx = std::max(mx, v); ok = ok && get(neg, i) == -v && get(rm, i) == 3 * v && num(l->items[std::size_t(i)]) == v; } ok = ok && num(meth(s, "total")) == tot && num(meth(s, "max")) == mx && num(meth(s, "min")) == mn; mc::check(ok, "bins-summary", "len, to_list, total, max, min, negation or scaling");
        ref e = mk(2, -1); mc::check(binop(s, "__eq__", "__eq__", e)->i && !binop(s, "__ne__", "__ne__", e)->i && !binop(s, "__eq__", "__eq__", neg)->i, "bins-summary", "equality");
        for (auto& p : {std::pair<std::string, double>{"SpectralMilliwatts", 1e-3}, {"SpectralWatts", 1}, {"SpectralKilowatts", 1e3}, {"SpectralMegawatts", 1e6}, {"SpectralGigawatts", 1e9}, {"SpectralWattsPerMeterSquared", 1}, {"SpectralWattsPerMeterSquaredSteradian", 1}}) { mc::at("bins: %s.%s", sm.c_str(), p.first.c_str()); mc::evaluated(); ref q = run([&] { return C(G(G(M, sm), p.first), {mk(1, 2)}); }); if (!mc::check(bool(q), "spectral-unit", "%s", what.c_str())) continue; ref z = meth(q, "to_si"), raw = meth(q, "value"); for (int i = 0; i < N; ++i) mc::check(mc::near(get(z, i), (1 + 2 * i) * p.second, 1e-6, 0) && get(raw, i) == 1 + 2 * i, "spectral-unit", "bin %d", i); } }
}
// ---- fields, keywords, enumerations, defaults: everything named reaches what it names
static void fields()
{
    if (!mc::first_shard()) return; ref dist = nullptr; (void)dist;
    for (auto& [n, ks] : std::vector<std::pair<std::string, std::vector<std::string>>>{{"BrownCoefficients", {"k1", "k2", "k3", "p1", "p2"}}, {"OpenCVCoefficients", {"k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s1", "s2", "s3", "s4"}}, {"OwenCoefficients", {"e1", "e2", "e3", "e4", "e5", "e6"}}}) { mc::at("fields: %s", n.c_str()); V pos; KW kw; for (std::size_t i = 0; i < ks.size(); ++i) { pos.push_back(F(1 + double(i))); kw[ks[i]] = F(1 + double(i)); } ref a = run([&] { return C(n, pos); }), b = run([&] { return C(n, {}, kw); }); if (!mc::check(a && b, "fields", "%s", what.c_str())) continue;
        for (std::size_t i = 0; i < ks.size(); ++i) { mc::evaluated(); mc::check(num(G(a, ks[i])) == 1 + double(i) && num(G(b, ks[i])) == 1 + double(i), "fields", "%s reads %g / %g, %g expected", ks[i].c_str(), num(G(a, ks[i])), num(G(b, ks[i])), 1 + double(i)); } for (std::size_t i = 0; i < ks.size(); ++i) { py::setattr_ref(a, ks[i], F(100)); for (std::size_t k = 0; k < ks.size(); ++k) { mc::evaluated(); mc::check(num(G(a, ks[k])) == (k <= i ? 100 : 1 + double(k)), "fields", "%s set, %s changed", ks[i].c_str(), ks[k].c_str()); } }
        ref scene = C("rgb.Scene"), cam = meth(scene, "new_camera_model"); mc::check(bool(run([&] { return meth(cam, n[0] == 'B' ? "set_brown_conrady_distortion" : n[1] == 'p' ? "set_opencv_distortion" : "set_owen_distortion", {b}); })), "fields", "set on a camera: %s", what.c_str()); }
    { ref m = C("FitsMetadata"); std::vector<std::string> S{"object", "telescop", "instrume", "observer", "date_obs", "origin", "filter", "bunit", "ctype1", "ctype2", "radesys"}, D{"exptime", "datamin", "datamax", "saturate", "crpix1", "crpix2", "crval1", "crval2", "cdelt1", "cdelt2", "equinox"}; int k = 0; for (auto& s : S) py::setattr_ref(m, s, T("v" + std::to_string(k++))); for (auto& s : D) py::setattr_ref(m, s, F(k++)); py::setattr_ref(m, "comments", lst({T("a"), T("b")})); py::setattr_ref(m, "history", lst({T("c")})); k = 0; auto& c = *static_cast<FitsMetadata*>(m->ptr);
      for (auto& s : S) { mc::at("fields: FitsMetadata.%s", s.c_str()); mc::evaluated(); mc::check(G(m, s)->s == "v" + std::to_string(k++), "fields", "reads %s", G(m, s)->s.c_str()); } for (auto& s : D) { mc::at("fields: FitsMetadata.%s", s.c_str()); mc::evaluated(); mc::check(num(G(m, s)) == k++, "fields", "reads %g", num(G(m, s))); }
      mc::check(c.object == "v0" && c.telescop == "v1" && c.instrume == "v2" && c.observer == "v3" && c.date_obs == "v4" && c.origin == "v5" && c.filter == "v6" && c.bunit == "v7" && c.ctype1 == "v8" && c.ctype2 == "v9" && c.radesys == "v10" && c.exptime == 11 && c.datamin == 12 && c.datamax == 13 && c.saturate == 14 && c.comments.size() == 2 && c.comments[1] == "b" && c.history.size() == 1, "fields", "a field of FitsMetadata reaches another one");
      for (auto& [v, t] : std::vector<std::pair<ref, std::string>>{{B(true), "bool"}, {B(false), "bool"}, {I(7), "int"}, {I(-1), "int"}, {I(0), "int"}, {F(2.5), "float"}, {F(1), "float"}, {T("x"), "str"}, {T(""), "str"}}) for (int how = 0; how < 2; ++how) { mc::at("fields: FitsKeyword of a %s", t.c_str()); mc::evaluated(); ref kwd = how ? C("FitsKeyword") : C("FitsKeyword", {T("KEY"), v, T("note")}); if (how) py::setattr_ref(kwd, "value", v); ref b = G(kwd, "value"); mc::check(py::kind_name(b) == t && (b->k == K::Str ? b->s == v->s : num(b) == num(v)), "keyword-type", "comes back as %s", py::kind_name(b).c_str()); if (!how) mc::check(G(kwd, "key")->s == "KEY" && G(kwd, "comment")->s == "note", "fields", "key or comment"); }
      mc::at("fields: FitsKeyword of a large int"); mc::evaluated(); ref big = run([&] { return C("FitsKeyword", {T("K"), I(1LL << 40)}); }); mc::check(!big || num(G(big, "value")) == double(1LL << 40), "keyword-type", "a large int is changed silently"); }
    // enumerations
    mc::at("fields: enumerations"); mc::evaluated(); for (auto& [e, n, v] : std::vector<std::tuple<std::string, std::string, int>>{{"TimeScale", "UTC", int(TimeScale::UTC)}, {"TimeScale", "TAI", int(TimeScale::TAI)}, {"TimeScale", "TT", int(TimeScale::TT)}, {"TimeScale", "TDB", int(TimeScale::TDB)}, {"ColorSpaceHint", "Linear", int(ColorSpaceHint::Linear)}, {"ColorSpaceHint", "sRGB", int(ColorSpaceHint::sRGB)}, {"ColorSpaceHint", "Gamma", int(ColorSpaceHint::Gamma)}, {"ColorSpaceHint", "Unknown", int(ColorSpaceHint::Unknown)}, {"ObservationMode", "TRUE_STATE", int(ObservationMode::TRUE_STATE)}, {"ObservationMode", "GEOMETRIC_STATE", int(ObservationMode::GEOMETRIC_STATE)}, {"ObservationMode", "ABERRATED_STATE", int(ObservationMode::ABERRATED_STATE)}, {"LogLevel", "Debug", int(LogLevel::Debug)}, {"LogLevel", "Info", int(LogLevel::Info)}, {"LogLevel", "Warning", int(LogLevel::Warning)}, {"LogLevel", "Error", int(LogLevel::Error)}}) mc::check(num(meth(G(at(e), n), "__int__")) == v, "enumeration", "%s.%s", e.c_str(), n.c_str());
    // time
    for (double et : {0.0, 1000.0, -5e8, 7.1e8}) for (const char* sc : {"TAI", "TT", "TDB"}) { mc::at("fields: Time et=%g %s", et, sc); mc::evaluated(); ref t = C("Time.from_et", {F(et)}), s = G(at("TimeScale"), sc); Time c = Time::from_et(et); TimeScale cs = *static_cast<TimeScale*>(s->ptr); double jd = num(meth(t, "to_julian_date", {s})), mjd = num(meth(t, "to_modified_julian_date", {}, {{"scale", s}})); mc::check(num(meth(t, "et")) == c.et() && jd == c.to_julian_date(cs) && mjd == c.to_modified_julian_date(cs) && num(meth(t, "julian_years_since_j2000", {s})) == c.julian_years_since_j2000(cs), "time", "not the value of the library");
        mc::check(num(meth(t, "to_julian_date")) == c.to_julian_date() && num(meth(t, "to_modified_julian_date")) == c.to_modified_julian_date() && num(meth(t, "julian_years_since_j2000")) == c.julian_years_since_j2000(), "time-default", "another default than the library's"); ref a = C("Time.from_julian_date", {F(jd), s}), b = C("Time.from_modified_julian_date", {F(mjd), s}); mc::check(num(meth(a, "et")) == Time::from_julian_date(jd, cs).et() && num(meth(b, "et")) == Time::from_modified_julian_date(mjd, cs).et(), "time", "from a date");
        ref u = C("Time.from_et", {F(et + 60)}); mc::check(binop(t, "__lt__", "__gt__", u)->i && binop(t, "__le__", "__ge__", u)->i && !binop(t, "__gt__", "__lt__", u)->i && !binop(t, "__ge__", "__le__", u)->i && !binop(t, "__eq__", "__eq__", u)->i && binop(t, "__ne__", "__ne__", u)->i && mc::near(to_si(binop(u, "__sub__", "__rsub__", t)), 60, 1e-9, 0), "time-order", "order or difference"); ref iv = C("Interval.from_bounds", {}, {{"start", t}, {"end", u}}), iv2 = C("Interval", {}, {{"t0", t}, {"t1", u}}); mc::check(num(meth(G(iv, "start"), "et")) == et && num(meth(G(iv, "end"), "et")) == et + 60 && num(meth(G(iv2, "start"), "et")) == et && mc::near(num(meth(meth(iv2, "center"), "et")), et + 30, 1e-12, 1e-6) && mc::near(to_si(meth(iv, "duration")), 60, 1e-9, 0), "interval", "bounds"); }
    // frame buffers: each switch turns on its own image, of its own kind and size
    ref scene = C("rgb.Scene"), cam = meth(scene, "new_camera_model"); meth(cam, "configure_sensor_from_pitch", {tup({I(5), I(3)}), C("Micrometer", {F(5)})}); std::vector<std::string> CH{"depth", "albedo", "geometry_ids", "camera_normals", "world_normals", "received_direct_power", "received_indirect_power", "received_power", "sensor_response"}; for (unsigned mask = 0; mask < 512; ++mask) { mc::at("fields: frame buffer with channels %x", mask); mc::evaluated(); ref fb = meth(cam, "make_frame_buffer"); for (std::size_t i = 0; i < CH.size(); ++i) { if (mask >> i & 1) meth(fb, "enable_" + CH[i]); else if (i % 2) meth(fb, "enable_" + CH[i], {B(false)}); else meth(fb, "enable_" + CH[i], {}, {{"enable", B(false)}}); }
        mc::check(num(G(fb, "width")) == 5 && num(G(fb, "height")) == 3, "frame-buffer", "size"); for (std::size_t i = 0; i < CH.size(); ++i) { bool on = mask >> i & 1 || (i == 7 && mask >> 8 & 1) /* the sensor response is made of the received power */; mc::check(bool(meth(fb, "has_" + CH[i])->i) == on, "frame-buffer", "has_%s", CH[i].c_str()); ref im = run([&] { return G(fb, CH[i]); }); if (on && mc::check(bool(im), "frame-buffer", "%s: %s", CH[i].c_str(), what.c_str())) { auto s = G(im, "shape"); mc::check(num(s->items[0]) == 3 && num(s->items[1]) == 5, "frame-buffer", "%s has another size", CH[i].c_str()); ref v = py::buffer_array(im); double x = double(10 + i); py::copy_item('d', &x, v->dt, v->ptr); } } 
        for (std::size_t i = 0; i < CH.size(); ++i) if (mask >> i & 1) { ref v = py::buffer_array(G(fb, CH[i])); mc::check(item(v, std::vector<py::ssize_t>(v->shape.size(), 0)) == double(10 + i), "frame-buffer", "%s is not its own image", CH[i].c_str()); } }
    // camera settings
    mc::at("fields: camera"); mc::evaluated(); meth(cam, "set_fstop", {F(2.5)}); mc::check(num(meth(cam, "fstop")) == 2.5, "camera", "f-stop"); meth(cam, "set_focus_distance", {C("Meter", {F(4)})}); mc::check(mc::near(to_si(meth(cam, "get_diopters")), .25, 1e-6, 0), "camera", "diopters");
    for (auto& [q, ok] : std::vector<std::pair<V, bool>>{{{B(false)}, true}, {{I(4)}, true}, {{I(4), I(2)}, true}, {{I(4), I(2), I(3)}, false}}) { mc::at("fields: camera, use_aperture_psf of %zu arguments%s", q.size(), q.empty() ? "" : py::kind_name(q[0]).c_str()); mc::evaluated(); mc::check(bool(run([&] { return meth(cam, "use_aperture_psf", q); })) == ok, "camera", "use_aperture_psf with %zu arguments: %s", q.size(), what.c_str()); }
    mc::at("fields: camera intrinsic matrix"); mc::evaluated(); ref cam2 = meth(scene, "new_camera_model"), cam3 = meth(scene, "new_camera_model"); ref Kmat = C("Mat3", {numpy('d', {120, 0, 2.25, 0, 110, 1.5, 0, 0, 1}, {3, 3})}); ref okk = run([&] { return meth(cam2, "set_intrinsic_matrix", {Kmat, tup({I(5), I(3)}), C("Millimeter", {F(20)})}); }); ref oks = run([&] { return meth(cam3, "set_intrinsics", {F(120), F(110), F(2.25), F(1.5), tup({I(5), I(3)}), C("Millimeter", {F(20)})}); }); mc::check(bool(okk), "intrinsics", "a matrix is refused: %s", what.c_str()); mc::check(bool(oks), "intrinsics", "numbers are refused: %s", what.c_str());
    if (okk && oks) for (double x : {-.02, 0., .01}) for (double y : {-.01, 0., .008}) { mc::evaluated(); Pixel a = static_cast<CameraModelHandle<RGB>*>(cam2->ptr)->project_point(Vec3<float>{float(x), float(y), 1.f}), b = static_cast<CameraModelHandle<RGB>*>(cam3->ptr)->project_point(Vec3<float>{float(x), float(y), 1.f}); mc::check(mc::near(a.x, b.x, 1e-5, 1e-4) && mc::near(a.y, b.y, 1e-5, 1e-4) && mc::near(a.x, 120 * x + 2.25, 1e-4, 1e-3) && mc::near(a.y, 110 * y + 1.5, 1e-4, 1e-3), "intrinsics", "(%g, %g) projects to %g %g and %g %g", x, y, double(a.x), double(a.y), double(b.x), double(b.y)); }
}
// ---- files, colours and maps: the library's own answer, byte for byte
static std::string bytes(const std::string& f) { std::ifstream in(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(in)), {}); }
template <class P> static bool same_image(const Image<P>& a, const Image<P>& b) { if (a.width() != b.width() || a.height() != b.height()) return false; return a.width() * a.height() == 0 || std::memcmp(&a(0, 0), &b(0, 0), sizeof(P) * std::size_t(a.width() * a.height())) == 0; }
template <class P> static bool same_bundle(const ref& r, const ImageBundle<P>& b) { if (!r || r->k != K::Inst) return false; auto& x = *static_cast<ImageBundle<P>*>(r->ptr); return same_image(x.image, b.image) && same_image(x.alpha, b.alpha) && x.color_space == b.color_space && x.bit_depth == b.bit_depth && x.gamma_value == b.gamma_value; }
static void files()
{
    if (!mc::first_shard()) return; std::string D = mc::S().scratch + "/py_", a, b;
    for (auto& [w, h] : std::vector<std::pair<int, int>>{{5, 3}, {1, 4}, {16, 8}}) for (int alpha = 0; alpha < 2; ++alpha) {
        Image<float> m(w, h), al(w, h); Image<RGB> c(w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { m(x, y) = float(x + 1) / float(w + y + 1); al(x, y) = float(y + 1) / float(h + 1); c(x, y) = RGB{float(x) / float(w), float(y) / float(h), .25f}; }
        ref pm = C("Image_f32", {I(w), I(h)}), pa = C("Image_f32", {I(w), I(h)}), pc = C("rgb.Image_rgb", {I(w), I(h)}); *static_cast<Image<float>*>(pm->ptr) = m; *static_cast<Image<float>*>(pa->ptr) = al; *static_cast<Image<RGB>*>(pc->ptr) = c;
        ImageBundle<float> bm = alpha ? ImageBundle<float>(m, al) : ImageBundle<float>(m); ImageBundle<RGB> bc = alpha ? ImageBundle<RGB>(c, al) : ImageBundle<RGB>(c); ref qm = alpha ? C("ImageBundle_f32", {}, {{"image", pm}, {"alpha", pa}}) : pm, qc = alpha ? C("rgb.ImageBundle_rgb", {pc, pa}) : pc;
        for (int col = 0; col < 2; ++col) for (int f = 0; f < 3; ++f) { static const char* E[] = {"png", "tiff", "jpg"}; static const char* W[] = {"write_png", "write_tiff", "write_jpeg"}; static const char* R[] = {"read_png", "read_tiff", "read_jpeg"}; mc::at("files: %s, %dx%d, %s, alpha %d", W[f], w, h, col ? "rgb" : "mono", alpha); mc::evaluated(); a = D + "a." + E[f]; b = D + "b." + E[f];
            for (int opt = 0; opt < 3; ++opt) { KW k; if (opt && f == 0) continue; ref q = col ? qc : qm; V pos{T(a), q}; if (opt == 1) { if (f == 1) k = {{"description", T("de")}, {"artist", T("ar")}}; else k = {{"quality", I(40)}}; } if (opt == 2) { if (f == 1) { pos.push_back(T("de")); k = {{"artist", T("ar")}}; } else { pos = {}; k = {{"filepath", T(a)}, {"bundle", q}, {"quality", I(70)}}; } }
                bool ok = bool(run([&] { return C(W[f], pos, k); })); std::string er = what; bool cok = true; try { auto wr = [&](auto& x) { if (f == 0) write_image_png(fs::path(b), x); else if (f == 1) { if (opt) write_image_tiff(fs::path(b), x, "de", "ar"); else write_image_tiff(fs::path(b), x); } else if (opt) write_image_jpeg(fs::path(b), x, opt == 1 ? 40 : 70); else write_image_jpeg(fs::path(b), x, 95); }; if (col) wr(bc); else wr(bm); } catch (const std::exception&) { cok = false; }
                mc::check(ok == cok && (!ok || bytes(a) == bytes(b)), "write", "another file than the library writes (%s)", er.c_str()); mc::outcome(ok ? "written" : "refused"); if (!ok || !cok) continue;
                for (int ra = 0; ra < 3; ++ra) for (int mono = 0; mono < 2; ++mono) for (int gen = 0; gen < 2; ++gen) { mc::evaluated(); std::string fn = gen ? (mono ? "read_image_mono" : "read_image") : std::string(R[f]) + (mono ? "_mono" : ""); KW rk; if (ra && !(f == 2 && !gen)) rk["read_alpha"] = B(ra == 1); bool wa = ra != 2; ref got = run([&] { return C(fn, {T(a)}, rk); }); bool same = false; bool threw = false;
                    try { if (mono) same = same_bundle(got, gen ? read_image_mono(fs::path(a), wa) : f == 0 ? read_image_png_mono(fs::path(a), wa) : f == 1 ? read_image_tiff_mono(fs::path(a), wa) : read_image_jpeg_mono(fs::path(a))); else same = same_bundle(got, gen ? read_image(fs::path(a), wa) : f == 0 ? read_image_png(fs::path(a), wa) : f == 1 ? read_image_tiff_rgb(fs::path(a), wa) : read_image_jpeg(fs::path(a))); } catch (const std::exception&) { threw = true; } mc::check(threw ? !got : same, "read", "%s: another image than the library reads (%s)", fn.c_str(), what.c_str()); } } }
        if (alpha) continue; mc::at("files: colours and maps, %dx%d", w, h); mc::evaluated(); auto px = [](const ref& bnd) { return meth(G(bnd, "image"), "to_numpy"); };
        for (int inv = 0; inv < 2; ++inv) { const char* fn = inv ? "srgb_to_linear" : "linear_to_srgb"; auto conv = [&](float v) { return inv ? srgb_to_linear(v) : linear_to_srgb(v); }; ref x = C(fn, {pm}), y = C(fn, {}, {{"image", pc}}), nx = px(x), ny = px(y); bool ok = nx->shape == std::vector<py::ssize_t>{h, w} && ny->shape == std::vector<py::ssize_t>{h, w, 3}; for (int i = 0; ok && i < h; ++i) for (int j = 0; ok && j < w; ++j) { ok = float(item(nx, {i, j})) == conv(m(j, i)); for (int q = 0; ok && q < 3; ++q) ok = float(item(ny, {i, j, q})) == conv(c(j, i)[std::size_t(q)]); } int cs = int(inv ? ColorSpaceHint::Linear : ColorSpaceHint::sRGB); mc::check(ok && num(meth(G(x, "color_space"), "__int__")) == cs && num(meth(G(y, "color_space"), "__int__")) == cs, "colour", "%s", fn); }
        ref dm = C("depth_map", {pm}); mc::check(dm && same_image(*static_cast<Image<RGB>*>(dm->ptr), depth_map(m)), "map", "depth map"); Image<Vec3<float>> nv(w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) nv(x, y) = glm::normalize(Vec3<float>{float(x) - 1.5f, float(y) - .7f, 1.f}); ref pn = C("Image_Vec3f", {I(w), I(h)}); *static_cast<Image<Vec3<float>>*>(pn->ptr) = nv; ref nm = C("normal_map", {}, {{"normals", pn}}); mc::check(nm && same_image(*static_cast<Image<RGB>*>(nm->ptr), normal_map(nv)), "map", "normal map"); }
}
// ---- scenes: names, kinds and nodes
static bool named(const ref& h, const std::string& n) { auto f = py::find_attr(h, "name"); if (!f) return true; return f->k == K::Str ? f->s == n : C(f)->s == n; }
static void scenes()
{
    if (!mc::first_shard()) return; 
    for (auto& sm : SUB) { ref s = C(sm + ".Scene"), root = G(s, "root"), m1 = C("Meter", {F(1)}), W5 = C("Watt", {F(5)}); std::string got;
        struct Kd { const char* n; std::function<ref(const std::string&)> make; const char* get; const char* set; const char* del; }; ref geo = meth(s, "add_ellipsoid", {m1, m1, m1});
        std::vector<Kd> L = {{"geometry", [&](const std::string& n) { return meth(s, "add_ellipsoid", {m1, m1, m1}, {{"name", T(n)}}); }, "get_geometry", "set_geometry_name", "delete_geometry"}, {"primitive", [&](const std::string& n) { return meth(s, "add_primitive", {geo}, {{"name", T(n)}}); }, "get_primitive", "set_primitive_name", "delete_primitive"}, {"light", [&](const std::string& n) { return meth(s, "new_sphere_light", {m1, W5, T(n)}); }, "get_light", "set_light_name", "delete_light"}, {"unresolved object", [&](const std::string& n) { return meth(s, "new_unresolved_emitter", {}, {{"power", W5}, {"name", T(n)}}); }, "get_unresolved_object", "set_unresolved_object_name", "delete_unresolved_object"}, {"camera", [&](const std::string& n) { return meth(s, "new_camera_model", {}, {{"name", T(n)}}); }, "get_camera_model", "set_camera_model_name", "delete_camera_model"}};
        for (auto& k : L) { mc::at("scenes: %s %s", sm.c_str(), k.n); mc::evaluated(); ref h = run([&] { return k.make("one"); }); if (!mc::check(bool(h), "scene-names", "%s", what.c_str())) continue; auto found = [&](const char* n) { ref r = run([&] { return meth(s, k.get, {T(n)}); }); return r && r->k == K::Inst && meth(r, "valid")->i; }; auto id = [](const ref& x) { return py::find_attr(x, "id") ? num(meth(x, "id")) : 0.; };
            bool ok = found("one") && !found("two") && named(h, "one"); mc::check(ok, "scene-names", "not found under the name it was given"); ref o = run([&] { return meth(s, k.get, {T("one")}); }); if (o && k.n[0] != 'g') mc::check(id(o) == id(h), "scene-names", "another object"); run([&] { return meth(s, k.set, {h, T("two")}); }); mc::check(found("two") && !found("one"), "scene-names", "renamed: %s", what.c_str()); bool del = bool(run([&] { return meth(s, k.del, {h}); })); mc::check(del && !found("two"), "scene-names", "deleted: %s", what.c_str()); }
        mc::at("scenes: %s nodes", sm.c_str()); mc::evaluated(); ref f = meth(root, "new_subframe"), g = meth(f, "new_subframe"), ci = meth(g, "new_instance", {meth(s, "new_camera_model")}), li = meth(f, "new_instance", {}, {{"asset_handle", meth(s, "new_sphere_light", {m1, W5})}});
        auto id = [](const ref& x) { return py::find_attr(x, "id") ? num(meth(x, "id")) : 0.; }; for (auto& [x, p] : std::vector<std::pair<ref, ref>>{{f, root}, {g, f}, {ci, g}, {li, f}}) { ref q = run([&] { return meth(x, "get_parent"); }); mc::check(q && id(q) == id(p), "node", "parent %s", what.c_str()); }
        auto v3 = [&](const ref& x, const char* get, double a, double b, double c) { ref v = run([&] { return meth(x, get); }); return v && num(G(v, "x")) == a && num(G(v, "y")) == b && num(G(v, "z")) == c; };
        for (auto& x : {f, g, ci, li}) { meth(x, "set_position", {C("Kilometer", {F(1)}), C("Meter", {F(2)}), C("Meter", {F(3)})}); meth(x, "set_velocity", {}, {{"vx", C("MetersPerSecond", {F(4)})}, {"vy", C("MetersPerSecond", {F(5)})}, {"vz", C("KilometersPerSecond", {F(6)})}}); meth(x, "set_angular_velocity", {}, {{"wx", C("RadiansPerSecond", {F(7)})}, {"wy", C("RadiansPerSecond", {F(8)})}, {"wz", C("RadiansPerSecond", {F(9)})}}); meth(x, "set_scale", {}, {{"sx", F(10)}, {"sy", F(11)}, {"sz", F(12)}}); }
        for (auto& x : {f, g, ci, li}) { mc::check(v3(x, "get_static_position", 1000, 2, 3) && v3(x, "get_static_velocity", 4, 5, 6000) && v3(x, "get_static_angular_velocity", 7, 8, 9) && v3(x, "get_static_scale", 10, 11, 12), "node", "a setting reaches another one"); meth(x, "set_scale", {F(2)}); mc::check(v3(x, "get_static_scale", 2, 2, 2), "node", "one scale"); }
        ref so = meth(root, "new_subframe"), sg = meth(root, "new_subframe"); meth(so, "set_spice_origin", {T("MARS")}); meth(sg, "set_spice_frame", {T("ITRF93")}); mc::check(meth(so, "get_spice_origin")->s == "MARS" && meth(sg, "get_spice_frame")->s == "ITRF93", "node", "SPICE names"); ref sf = run([&] { return meth(root, "new_spice_subframe", {}, {{"spice_frame", T("ECLIPJ2000")}, {"spice_origin", T("SUN")}}); }); mc::check(sf && meth(sf, "get_spice_origin")->s == "SUN" && meth(sf, "get_spice_frame")->s == "ECLIPJ2000", "node", "SPICE subframe %s", what.c_str());
        for (bool deleted : {false, true}) { if (deleted) meth(f, "delete_instance", {li}); mc::check(bool(meth(li, "valid")->i) != deleted && bool(meth(li, "__bool__")->i) != deleted, "node", "valid"); }
        for (auto* n : {"new_bsdf_cook_torrance", "new_bsdf_lambertian", "new_bsdf_lommel_seeliger", "new_bsdf_mcewen", "new_bsdf_null", "new_bsdf_oren_nayar"}) { mc::at("scenes: %s %s", sm.c_str(), n); mc::evaluated(); ref bs = run([&] { return meth(s, n, {}, {{"name", T("b_" + std::string(n))}}); }); if (mc::check(bool(bs), "scene-bsdf", "%s", what.c_str())) { mc::check(named(bs, "b_" + std::string(n)), "scene-bsdf", "name"); ref mt = run([&] { return meth(s, "new_material", {bs}, {{"name", T("m")}}); }); mc::check(mt && run([&] { return meth(s, "add_primitive", {}, {{"geom", geo}, {"mat", mt}, {"name", T("p")}}); }), "scene-bsdf", "material: %s", what.c_str()); } } }
}
// ---- settings: every pair of settings made from Python leaves a material, a camera, an object or a light like the same settings made on the library
struct Act { std::string n; std::function<void()> py, lib; };
static void settings()
{
    ref s = C("rgb.Scene"); Scene<RGB> cs; auto spec = [](double a) { return C("rgb.SpectralBins", {lst({F(a), F(a / 2), F(a / 4)})}); }; auto lspec = [](double a) { return RGB{float(a), float(a / 2), float(a / 4)}; };
    Image<float> im(2, 3); Image<RGB> ic(2, 3); Image<Vec3<float>> iv(2, 3); for (int y = 0; y < 3; ++y) for (int x = 0; x < 2; ++x) { im(x, y) = .1f * float(1 + x + 2 * y); ic(x, y) = RGB{.1f * float(x + 1), .2f * float(y + 1), .3f}; iv(x, y) = Vec3<float>{.2f + .1f * float(x), .4f + .1f * float(y), .9f}; }
    auto wrap = [](const char* cls, auto& i) { ref r = C(cls, {I(2), I(3)}); *static_cast<std::decay_t<decltype(i)>*>(r->ptr) = i; return r; }; ref pim = wrap("Image_f32", im), pic = wrap("rgb.Image_rgb", ic), piv = wrap("Image_Vec3f", iv);
    auto add = [](std::string& o, double v) { o += fmt("%.9g ", v); }; auto addS = [&](std::string& o, const RGB& v) { for (std::size_t i = 0; i < 3; ++i) add(o, v[i]); };
    // materials
    ref pb = meth(s, "new_bsdf_lambertian"); auto lb = cs.new_bsdf_lambertian(); ref pm; std::optional<MaterialHandle<RGB>> lm; ref tc = meth(s, "add_texture", {pic, T("tc")}), tf = meth(s, "add_texture", {}, {{"image", pim}}), tv = meth(s, "add_texture", {piv}), tn = meth(s, "add_normal_texture", {piv}), tr = meth(s, "add_normal_texture", {pic}); auto lc = cs.add_texture(Image<RGB>(ic), "tc"); auto lf = cs.add_texture(Image<float>(im), ""); auto lv = cs.add_texture(Image<Vec3<float>>(iv), ""); auto ln = cs.add_normal_texture(Image<Vec3<float>>(iv), ""); auto lr = cs.add_normal_texture(Image<RGB>(ic), "");
    auto dumpm = [&](Material<RGB>& m) { std::string o; for (auto& [u, v] : {std::pair{.2f, .3f}, std::pair{.8f, .7f}}) { Interaction<RGB> x{}; x.normal_g = x.normal_s = {0, 0, 1}; x.tangent = {1, 0, 0}; x.bitangent = {0, 1, 0}; x.uv = {u, v}; x.wo = {0, 0, 1}; auto e = m.evaluate(x); addS(o, e.params.albedo); add(o, e.params.roughness); add(o, e.params.metallic); add(o, e.params.opacity); addS(o, e.params.transmission); addS(o, e.params.emission); add(o, e.isect.normal_s.x); add(o, e.isect.normal_s.y); } add(o, m.alpha_factor()); add(o, m.has_alpha()); add(o, m.has_alpha_texture()); return o; };
    std::vector<Act> L; auto fac = [&](const std::string& n, double v, auto f) { L.push_back({n, [&pm, n, v] { meth(pm, n, {F(v)}); }, [&lm, f, v] { f(*lm, float(v)); }}); }; auto sfac = [&](const std::string& n, double v, auto f) { L.push_back({n, [&pm, n, v, spec] { meth(pm, n, {spec(v)}); }, [&lm, f, v, lspec] { f(*lm, lspec(v)); }}); }; auto tex = [&](const std::string& n, const ref& t, auto f) { L.push_back({n, [&pm, n, t] { meth(pm, n, {t}); }, [&lm, f] { f(*lm); }}); }; auto rst = [&](const std::string& n, auto f) { L.push_back({n, [&pm, n] { meth(pm, n); }, [&lm, f] { f(*lm); }}); };
    sfac("set_albedo_factor", .5, [](auto& m, RGB v) { m.set_albedo_factor(v); }); fac("set_alpha_factor", .25, [](auto& m, float v) { m.set_alpha_factor(v); }); fac("set_metallic_factor", .75, [](auto& m, float v) { m.set_metallic_factor(v); }); fac("set_roughness_factor", .3, [](auto& m, float v) { m.set_roughness_factor(v); }); fac("set_normal_factor", .6, [](auto& m, float v) { m.set_normal_factor(v); }); sfac("set_transmission_factor", .8, [](auto& m, RGB v) { m.set_transmission_factor(v); }); sfac("set_emissive_factor", .9, [](auto& m, RGB v) { m.set_emissive_factor(v); });
    tex("set_albedo_image", tc, [&](auto& m) { m.set_albedo_image(lc); }); tex("set_alpha_image", tf, [&](auto& m) { m.set_alpha_image(lf); }); tex("set_metallic_image", tf, [&](auto& m) { m.set_metallic_image(lf); }); tex("set_roughness_image", tf, [&](auto& m) { m.set_roughness_image(lf); }); tex("set_normal_image", tv, [&](auto& m) { m.set_normal_image(lv); }); tex("set_normal_image", tn, [&](auto& m) { m.set_normal_image(ln); }); tex("set_normal_image", tr, [&](auto& m) { m.set_normal_image(lr); }); tex("set_transmission_image", tc, [&](auto& m) { m.set_transmission_image(lc); }); tex("set_emissive_image", tc, [&](auto& m) { m.set_emissive_image(lc); });
    rst("reset_albedo", [](auto& m) { m.reset_albedo(); }); rst("reset_alpha", [](auto& m) { m.reset_alpha(); }); rst("reset_metallic", [](auto& m) { m.reset_metallic(); }); rst("reset_roughness", [](auto& m) { m.reset_roughness(); }); rst("reset_normal", [](auto& m) { m.reset_normal(); }); rst("reset_transmission", [](auto& m) { m.reset_transmission(); }); rst("reset_emissive", [](auto& m) { m.reset_emissive(); });
    // i fresh, then i j for every j: on fresh twins if they are cheap, else on the same twins (then every pair is met in one walk from i)
    auto pairs = [&](const char* kind, std::vector<Act>& A, auto fresh, auto same, std::size_t deep, bool walk) { for (std::size_t i = 0; i < A.size(); ++i) { if (!mc::mine()) continue; fresh(); std::string w; auto one = [&](std::size_t k) { w += A[k].n + " "; if (w.size() > 120) w = "... " + w.substr(w.size() - 100); mc::at("settings: %s %s", kind, w.c_str()); mc::evaluated(); bool lt = false; try { A[k].lib(); } catch (const std::exception&) { lt = true; } bool ok = bool(run([&] { A[k].py(); return M; })); mc::check(ok != lt, "settings", "%s %s", ok ? "accepted what the library refuses" : "refused:", what.c_str()); auto [a, b] = same(); mc::outcome(a); mc::check(a == b, "settings", "differs from the library: %s / %s", a.c_str(), b.c_str()); };
        one(i); for (std::size_t j = 0; i < deep && j < deep; ++j) { if (!walk) { fresh(); w.clear(); } one(i); one(j); } } };
    pairs("material", L, [&] { pm = meth(s, "new_material", {pb}); lm.emplace(cs.new_material(lb)); }, [&] { return std::pair{dumpm(*static_cast<MaterialHandle<RGB>*>(pm->ptr)->get()), dumpm(*lm->get())}; }, L.size(), false);
    // cameras
    ref pc; std::optional<CameraModelHandle<RGB>> lcam; using CH = CameraModelHandle<RGB>; std::vector<Act> A; auto act = [&](const std::string& n, std::function<V()> v, std::function<void(CH&)> f, KW k = {}) { A.push_back({n, [&pc, n, v, k] { meth(pc, n, v(), k); }, [&lcam, f] { f(*lcam); }}); }; auto none = [] { return py::none_ref(); };
    auto num1 = [](double v) { return [v] { return V{F(v)}; }; }; auto u1 = [](const char* u, double v) { return [u, v] { return V{C(u, {F(v)})}; }; };
    act("set_focal_length", u1("Centimeter", 5), [](CH& c) { c.set_focal_length(units::Millimeter(50)); }); act("set_fstop", num1(4), [](CH& c) { c.set_fstop(4); }); act("set_sensor_quantum_efficiency", num1(.5), [](CH& c) { c.set_sensor_quantum_efficiency(.5); }); act("set_sensor_quantum_efficiency", [&] { return V{spec(.8)}; }, [&](CH& c) { c.set_sensor_quantum_efficiency(lspec(.8)); }); act("set_sensor_full_well_capacity", num1(3000), [](CH& c) { c.set_sensor_full_well_capacity(3000); }); act("set_sensor_bias_level", num1(33), [](CH& c) { c.set_sensor_bias_level(33); }); act("set_sensor_bit_depth", [] { return V{I(9)}; }, [](CH& c) { c.set_sensor_bit_depth(9); }); act("set_sensor_gain", num1(3), [](CH& c) { c.set_sensor_gain(3); }); act("set_sensor_gain_db", num1(4), [](CH& c) { c.set_sensor_gain_db(4); }); act("set_sensor_uinty_db", num1(7), [](CH& c) { c.set_sensor_uinty_db(7); });
    act("set_sensor_rotation", u1("Degree", 30), [](CH& c) { c.set_sensor_rotation(units::Degree(30)); }); act("set_focus_distance", u1("Kilometer", 1.5), [](CH& c) { c.set_focus_distance(units::Meter(1500)); }); act("set_diopters", u1("Diopter", .4), [](CH& c) { c.set_diopters(units::Diopter(.4)); }); act("enable_depth_of_field", [] { return V{B(true)}; }, [](CH& c) { c.enable_depth_of_field(true); }); act("enable_depth_of_field", [] { return V{}; }, [](CH& c) { c.enable_depth_of_field(); }); act("use_blender_convention", [] { return V{}; }, [](CH& c) { c.use_blender_convention(); }); act("use_blender_convention", [] { return V{B(false)}; }, [](CH& c) { c.use_blender_convention(false); });
    act("configure_sensor_from_pitch", [] { return V{tup({I(6), I(4)}), C("Micrometer", {F(8)})}; }, [](CH& c) { c.configure_sensor_from_pitch(Resolution{6, 4}, units::Micrometer(8)); }); act("configure_sensor_from_pitch", [] { return V{tup({I(6), I(4)}), C("Millimeter", {F(.008)}), C("Micrometer", {F(9)}), F(2.5), F(1.25)}; }, [](CH& c) { c.configure_sensor_from_pitch(Resolution{6, 4}, units::Micrometer(8), units::Micrometer(9), 2.5f, 1.25f); }); act("configure_sensor_from_pitch", [] { return V{tup({I(7), I(3)}), C("Micrometer", {F(8)})}; }, [](CH& c) { c.configure_sensor_from_pitch(Resolution{7, 3}, units::Micrometer(8), std::nullopt, std::nullopt, 1.f); }, {{"cy", F(1)}}); act("configure_sensor_from_size", [] { return V{tup({I(6), I(4)}), C("Millimeter", {F(12)})}; }, [](CH& c) { c.configure_sensor_from_size(Resolution{6, 4}, units::Millimeter(12)); }); act("configure_sensor_from_size", [] { return V{tup({I(6), I(4)}), C("Centimeter", {F(1.2)}), C("Millimeter", {F(9)}), F(2.5), F(1.25)}; }, [](CH& c) { c.configure_sensor_from_size(Resolution{6, 4}, units::Millimeter(12), units::Millimeter(9), 2.5f, 1.25f); }); act("configure_sensor_from_size", [none] { return V{tup({I(5), I(8)}), C("Millimeter", {F(12)}), none(), F(2)}; }, [](CH& c) { c.configure_sensor_from_size(Resolution{5, 8}, units::Millimeter(12), std::nullopt, 2.f); }); act("set_intrinsics", [] { return V{F(120), F(110), F(2.25), F(1.5), tup({I(5), I(3)}), C("Centimeter", {F(2)})}; }, [](CH& c) { c.set_intrinsics(120, 110, 2.25f, 1.5f, Resolution{5, 3}, units::Millimeter(20)); });
    act("set_brown_conrady_distortion", [] { return V{C("BrownCoefficients", {F(.1), F(.02), F(.003), F(.004), F(.005)})}; }, [](CH& c) { BrownCoefficients k{}; k.k1 = .1; k.k2 = .02; k.k3 = .003; k.p1 = .004; k.p2 = .005; c.set_brown_conrady_distortion(k); }); act("set_owen_distortion", [] { return V{C("OwenCoefficients", {F(.1), F(.02), F(.003), F(.004), F(.005), F(.006)})}; }, [](CH& c) { OwenCoefficients k{}; k.e1 = .1; k.e2 = .02; k.e3 = .003; k.e4 = .004; k.e5 = .005; k.e6 = .006; c.set_owen_distortion(k); }); act("delete_distortion", [] { return V{}; }, [](CH& c) { c.delete_distortion(); });
    std::size_t deep = A.size(); act("use_aperture_psf", [] { return V{I(3), I(2)}; }, [](CH& c) { c.use_aperture_psf(3, 2); }); act("use_aperture_psf", [] { return V{B(false)}; }, [](CH& c) { c.use_aperture_psf(false); }); act("use_aperture_psf", [] { return V{}; }, [](CH& c) { c.use_aperture_psf(3, 4); }, {{"banks", I(4)}, {"radius", I(3)}}); act("delete_psf", [] { return V{}; }, [](CH& c) { c.delete_psf(); });
    auto dumpc = [&](CH& h) { std::string o; auto c = h.get(); add(o, c->focal_length().to_si()); add(o, c->fstop()); add(o, c->get_focus_distance().to_si()); add(o, c->get_diopters().to_si()); add(o, c->is_blender_convention()); auto q = c->sensor_rotation().local_to_parent_matrix(); add(o, q[0][0]); add(o, q[0][1]); add(o, c->resolution().width); add(o, c->resolution().height); add(o, c->has_psf()); if (c->has_psf()) add(o, c->get_psf_radius()); for (float x : {-.02f, .013f}) for (float z : {1.f, -1.f}) { try { auto p = c->project_point(Vec3<float>{x, .011f, z}); add(o, p.x); add(o, p.y); } catch (const std::exception&) { o += "refused "; } } add(o, c->pixel_radiance_to_power(1, 1));
        auto fb = c->make_frame_buffer(); fb.enable_received_power(); fb.enable_sensor_response(); auto& rp = fb.received_power(); auto e = RGB::photon_energies(); for (int y = 0; y < rp.height(); ++y) for (int x = 0; x < rp.width(); ++x) { RGB v; for (std::size_t i = 0; i < 3; ++i) v[i] = e[i] * float(1 + x + 10 * y) * 150.f; rp(x, y) = v; } c->readout(fb, units::Second(2)); auto& r = fb.sensor_response(); add(o, r.sensor_bit_depth()); for (int y = 0; y < r.height(); ++y) for (int x = 0; x < r.width(); ++x) addS(o, r(x, y)); return o; };
    pairs("camera", A, [&] { pc = meth(s, "new_camera_model"); lcam.emplace(cs.new_camera_model()); meth(pc, "configure_sensor_from_pitch", {tup({I(3), I(2)}), C("Micrometer", {F(10)})}); lcam->configure_sensor_from_pitch(Resolution{3, 2}, units::Micrometer(10)); meth(pc, "set_sensor_simulate_noise", {B(false)}); lcam->set_sensor_simulate_noise(false); }, [&] { return std::pair{dumpc(*static_cast<CH*>(pc->ptr)), dumpc(*lcam)}; }, deep, true);
    if (!mc::first_shard()) return; auto dark = [&](bool on, double rn, double dc) { ref c = meth(s, "new_camera_model"); meth(c, "configure_sensor_from_pitch", {tup({I(3), I(2)}), C("Micrometer", {F(10)})}); meth(c, "set_sensor_read_noise", {F(rn)}); meth(c, "set_sensor_dark_current", {F(dc)}); meth(c, "set_sensor_bias_level", {F(500)}); meth(c, "set_sensor_gain", {F(1)}); meth(c, "set_sensor_bit_depth", {I(16)}); meth(c, "set_sensor_simulate_noise", {B(on)}); auto h = static_cast<CH*>(c->ptr)->get(); auto fb = h->make_frame_buffer(); fb.enable_received_power(); fb.enable_sensor_response(); h->readout(fb, units::Second(1)); double lo = 1e30, hi = -1e30; auto& r = fb.sensor_response(); for (int y = 0; y < r.height(); ++y) for (int x = 0; x < r.width(); ++x) for (std::size_t i = 0; i < 3; ++i) { double v = double(r(x, y)[i]) * 65535; if (r(x, y)[i] > 1) v = r(x, y)[i]; lo = std::min(lo, v); hi = std::max(hi, v); } return std::pair{lo, hi}; };
    mc::at("settings: camera, noise"); mc::evaluated(); auto q0 = dark(false, 100, 9000), q1 = dark(true, 0, 0), q2 = dark(true, 100, 0), q3 = dark(true, 0, 9000); mc::check(q0.first == q0.second && std::fabs(q1.first - 500) < 1 && std::fabs(q1.second - 500) < 1 && q2.second > q2.first && q2.first > 0 && q2.second < 1000 && q3.first > q1.first + 8000, "settings", "noise settings: %g..%g %g..%g %g..%g %g..%g", q0.first, q0.second, q1.first, q1.second, q2.first, q2.second, q3.first, q3.second);
    // objects seen as points, and lights
    Time t0 = Time::from_et(0); ref pt = C("Time.from_et", {F(0)}); auto irr = [&](const char* n, const ref& h, UnresolvedObjectHandle<RGB> l) { mc::at("settings: %s", n); mc::evaluated(); if (!mc::check(bool(h), "settings", "%s", what.c_str())) return; ref g = meth(h, "get_irradiance", {pt}); RGB e = l.get_irradiance(t0); bool ok = true; for (int i = 0; i < 3; ++i) ok = ok && num(meth(g, "__getitem__", {I(i)})) == double(e[std::size_t(i)]); mc::check(ok, "settings", "another irradiance than the library's"); };
    irr("object, spectral irradiance", run([&] { return meth(s, "new_unresolved_object", {C("rgb.SpectralWattsPerMeterSquared", {spec(3)})}); }), cs.new_unresolved_object(units::SpectralWattsPerMeterSquared<RGB>(lspec(3)))); irr("object, irradiance", run([&] { return meth(s, "new_unresolved_object", {}, {{"irradiance", C("WattsPerMeterSquared", {F(7)})}}); }), cs.new_unresolved_object(units::WattsPerMeterSquared(7))); irr("object, magnitude", run([&] { return meth(s, "new_unresolved_object_from_magnitude", {F(4.5), T("mag")}); }), cs.new_unresolved_object_from_magnitude(4.5)); irr("object, magnitude and albedo", run([&] { return meth(s, "new_unresolved_object_from_magnitude", {F(4.5), spec(.6)}, {{"name", T("mag2")}}); }), cs.new_unresolved_object_from_magnitude(4.5, lspec(.6)));
    { ref o = meth(s, "new_unresolved_object", {C("WattsPerMeterSquared", {F(1)})}); auto l = cs.new_unresolved_object(units::WattsPerMeterSquared(1)); run([&] { meth(o, "set_irradiance", {C("WattsPerMeterSquared", {F(9)})}); return M; }); l.set_irradiance(units::WattsPerMeterSquared(9)); irr("object, changed", o, l); run([&] { meth(o, "set_irradiance", {C("rgb.SpectralWattsPerMeterSquared", {spec(5)})}); return M; }); l.set_irradiance(units::SpectralWattsPerMeterSquared<RGB>(lspec(5))); irr("object, changed to a spectrum", o, l); }
    auto light = [&](const char* n, const ref& h, LightHandle<RGB> l) { mc::at("settings: %s", n); mc::evaluated(); if (!mc::check(bool(h), "settings", "%s", what.c_str())) return; auto a = static_cast<LightHandle<RGB>*>(h->ptr)->get(), b = l.get(); RGB x = a->radiance(Vec3<float>{0, 0, 1}, Vec3<float>{0, 0, 1}), y = b->radiance(Vec3<float>{0, 0, 1}, Vec3<float>{0, 0, 1}); bool ok = a->get_type() == b->get_type(); for (std::size_t i = 0; i < 3; ++i) ok = ok && x[i] == y[i] && x[i] > 0; mc::check(ok, "settings", "another radiance than the library's"); };
    light("light, radiance", run([&] { return meth(s, "new_sphere_light", {C("Meter", {F(2)}), C("rgb.SpectralWattsPerMeterSquaredSteradian", {spec(3)})}); }), cs.new_sphere_light(units::Meter(2), units::SpectralWattsPerMeterSquaredSteradian<RGB>(lspec(3)))); light("light, spectral power", run([&] { return meth(s, "new_sphere_light", {}, {{"radius", C("Meter", {F(2)})}, {"spectral_power", C("rgb.SpectralWatts", {spec(3)})}}); }), cs.new_sphere_light(units::Meter(2), units::SpectralWatts<RGB>(lspec(3)))); light("light, power", run([&] { return meth(s, "new_sphere_light", {}, {{"radius", C("Kilometer", {F(2)})}, {"total_power", C("Kilowatt", {F(3)})}}); }), cs.new_sphere_light(units::Meter(2000), units::Watt(3000)));
}
// ---- the module as a whole

static void whole(const std::string& err)
{
    if (!mc::first_shard()) return; mc::at("module: import"); mc::evaluated(); if (!mc::check(err.empty(), "import", "%s", err.c_str())) return;
    std::function<void(const ref&, const std::string&)> names = [&](const ref& m, const std::string& path) { for (auto& [n, r] : m->attrs) { mc::at("module: name %s.%s", path.c_str(), n.c_str()); mc::evaluated(); bool id = !n.empty() && !isdigit(n[0]); for (char ch : n) id = id && (isalnum(ch) || ch == '_'); mc::check(id, "name", "a name no Python program can write"); if (r->k == K::Module && r != m) names(r, path + "." + n); } }; names(M, "huira");
    std::set<std::string> used; for (auto& [w, f] : py::all_functions()) { auto u = f->unknown(); mc::at("module: %s", w.c_str()); mc::evaluated(); if (!u.empty()) mc::check(false, (std::string("unusable ") + w.substr(w.find('.', 7) + 1)).c_str(), "cannot be called: its %s is bound nowhere", u.c_str()); }
    std::ifstream in(std::string(REPO_DIR) + "/bindings/python/huira/units.py"); std::set<std::string> listed; std::string l; bool on = false; while (std::getline(in, l)) { auto h = l.find('#'); if (h != std::string::npos) l.resize(h); if (l.find("import") != std::string::npos) { on = true; l = l.substr(l.find("import") + 6); } std::string t; for (char ch : l + ",") if (isalnum(ch) || ch == '_') t += ch; else { if (on && !t.empty()) listed.insert(t); t.clear(); } }
    for (auto& n : listed) { mc::at("module: huira.units imports %s", n.c_str()); mc::evaluated(); mc::check(bool(py::find_attr(M, n)), "units-module", "the module has no such name"); } for (auto& u : UNITS) { mc::at("module: huira.units offers %s", u.n); mc::evaluated(); mc::check(listed.count(u.n) > 0, "units-module", "missing"); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); mc::quiet(); auto r = py::mk(K::Module); r->s = "huira._huira"; r->attrs["__name__"] = T(r->s); M = r; std::string err; try { py::module_ m(r); huira_module_init(m); } catch (const std::exception& e) { err = e.what(); }
    whole(err); if (err.empty()) { units_part(); small_arrays(); images(); bins(); fields(); for (auto part : {files, scenes, settings}) { if (!run([&] { part(); return M; })) mc::check(false, "part", "stopped: %s", what.c_str()); } } return mc::finish();
}
#endif
