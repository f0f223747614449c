#pragma once
// Stand-in for the part of pybind11 (not installed here) that huira's bindings use: Python objects as tagged values, classes and overload sets
// with pybind11's rules - first a pass without conversions, then one with; registered implicit conversions call the target class; arrays carry
// dtype, shape and strides and are copied only where the flags of array_t ask for it.
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <cxxabi.h>
#include <filesystem>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeindex>
#include <utility>
#include <variant>
#include <vector>
namespace pybind11 {
using ssize_t = std::ptrdiff_t; using size_t = std::size_t;
struct error_already_set : std::runtime_error { using runtime_error::runtime_error; };
struct cast_error : std::runtime_error { using runtime_error::runtime_error; };
struct reference_cast_error : cast_error { using cast_error::cast_error; };
struct type_error : std::runtime_error { using runtime_error::runtime_error; };
struct value_error : std::runtime_error { using runtime_error::runtime_error; };
struct index_error : std::runtime_error { using runtime_error::runtime_error; };
struct key_error : std::runtime_error { using runtime_error::runtime_error; };
struct attribute_error : std::runtime_error { using runtime_error::runtime_error; };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct Obj; using ref = std::shared_ptr<Obj>;
enum class K { None, Bool, Int, Float, Str, Tuple, List, Inst, Array, Func, Prop, Type, Module, NotImpl, Np32 /* a numpy.float32: a number, not a Python float */ };
struct buffer_info { void* ptr = nullptr; ssize_t itemsize = 0; std::string format; ssize_t ndim = 0, size = 0; std::vector<ssize_t> shape, strides; bool readonly = false;
    buffer_info() = default;
    buffer_info(void* p, ssize_t is, const std::string& f, ssize_t nd, std::vector<ssize_t> sh, std::vector<ssize_t> st, bool ro = false) : ptr(p), itemsize(is), format(f), ndim(nd), shape(sh), strides(st), readonly(ro) {
        if (ssize_t(sh.size()) != nd || ssize_t(st.size()) != nd) throw std::runtime_error("buffer_info: ndim doesn't match shape and/or strides length"); size = 1; for (auto s : sh) size *= s; } };
struct ArgRec { std::string name; ref def; std::string type; };
struct Rec { std::string name; std::vector<ArgRec> args; bool is_static = false, is_op = false, star = false; return_value_policy pol = return_value_policy::automatic; void* f = nullptr; ref (*thunk)(void*, Rec&, std::vector<ref>&, bool, bool&) = nullptr; std::string (*unknown)() = nullptr; ref call(std::vector<ref>& a, bool convert, bool& ok) { return thunk(f, *this, a, convert, ok); } };
struct TypeRec { std::string name, scope; std::type_index ti = typeid(void); std::vector<std::pair<TypeRec*, void* (*)(void*)>> bases; std::vector<std::function<ref(const ref&)>> implicit; std::function<buffer_info(void*)> buffer; ref obj; };
struct Obj { K k = K::None; long long i = 0; unsigned long long u = 0; double d = 0; std::string s; std::vector<ref> items; std::map<std::string, ref> attrs;
    TypeRec* type = nullptr; void* ptr = nullptr; std::shared_ptr<void> own; ref keep;                     // instances, type objects
    char dt = 0; std::vector<ssize_t> shape, strides;                                                      // arrays (ptr, own)
    std::vector<std::shared_ptr<Rec>> over; ref self; ref fget, fset; bool is_static = false; };           // functions and properties
inline ref mk(K k) { auto r = std::make_shared<Obj>(); r->k = k; return r; }
inline ref none_ref() { static ref r = mk(K::None); return r; }
inline ref notimpl() { static ref r = mk(K::NotImpl); return r; }
inline ref mk_int(long long v) { auto r = mk(K::Int); r->i = v; r->u = (unsigned long long)v; return r; }
inline ref mk_float(double v) { auto r = mk(K::Float); r->d = v; return r; }
inline ref mk_bool(bool v) { auto r = mk(K::Bool); r->i = v; r->u = v; return r; }
inline ref mk_str(std::string v) { auto r = mk(K::Str); r->s = std::move(v); return r; }
inline ref mk_seq(K k, std::vector<ref> v) { auto r = mk(k); r->items = std::move(v); return r; }
inline std::map<std::type_index, TypeRec*>& registry() { static std::map<std::type_index, TypeRec*> r; return r; }
inline std::vector<std::pair<std::string, std::shared_ptr<Rec>>>& all_functions() { static std::vector<std::pair<std::string, std::shared_ptr<Rec>>> r; return r; }
inline std::map<std::string, ref>& modules() { static std::map<std::string, ref> r; return r; }
inline std::string demangled(const std::type_info& t) { int st; char* c = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st); std::string s = c ? c : t.name(); free(c); return s; }
inline TypeRec* find_type(std::type_index t) { auto i = registry().find(t); return i == registry().end() ? nullptr : i->second; }
ref call(const ref& f, std::vector<ref> pos, std::map<std::string, ref> kw = {});
inline std::string kind_name(const ref& r) { switch (r->k) { case K::None: return "None"; case K::Bool: return "bool"; case K::Int: return "int"; case K::Float: return "float"; case K::Str: return "str"; case K::Inst: return r->type->name; case K::Array: return "array"; case K::Tuple: return "tuple"; case K::List: return "list"; default: return "object"; } }
inline ref lookup(TypeRec* t, const std::string& n) { auto i = t->obj->attrs.find(n); if (i != t->obj->attrs.end()) return i->second; for (auto& b : t->bases) if (auto r = lookup(b.first, n)) return r; return nullptr; }
inline ref find_attr(const ref& o, const std::string& n) {
    if (o->k == K::Inst) { auto r = lookup(o->type, n); if (!r) return nullptr;
        if (r->k == K::Prop) return call(r->fget, r->is_static ? std::vector<ref>{} : std::vector<ref>{o});
        if (r->k == K::Func && !r->is_static) { auto b = mk(K::Func); b->over = r->over; b->s = r->s; b->self = o; return b; } return r; }
    if (o->k == K::Type) { auto r = lookup(o->type, n); if (r && r->k == K::Prop && r->is_static) return call(r->fget, {}); return r; }
    auto i = o->attrs.find(n); return i == o->attrs.end() ? nullptr : i->second; }
inline ref getattr_ref(const ref& o, const std::string& n) { auto r = find_attr(o, n); if (!r) throw attribute_error(kind_name(o) + " object has no attribute " + n); return r; }
inline void setattr_ref(const ref& o, const std::string& n, const ref& v) {
    if (o->k == K::Inst) { auto r = lookup(o->type, n); if (!r || r->k != K::Prop || !r->fset) throw attribute_error("can't set attribute " + n); call(r->fset, {o, v}); return; } o->attrs[n] = v; }
// ---- casters
template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template <class T, class = void> struct conv;   // load(ref, convert), get(), static cast(T, policy, parent), static unknown()
template <class T> ref to_ref(T&& v, return_value_policy p = return_value_policy::automatic, const ref& parent = nullptr);
class accessor; class object; class args; class kwargs;
class handle { public: ref r; handle() : r(none_ref()) {} handle(ref x) : r(std::move(x)) {}
    accessor attr(const char* n) const; accessor attr(const std::string& n) const; template <class T> T cast() const; bool is_none() const { return r->k == K::None; } bool is(const handle& o) const { return r == o.r; }
    template <class... A> object operator()(A&&... a) const; explicit operator bool() const { return bool(r); } };
class object : public handle { public: using handle::handle; object() = default; object(const handle& h) : handle(h) {} };
class accessor { public: ref o; std::string n; operator object() const { return object(getattr_ref(o, n)); } template <class T> T cast() const { return object(getattr_ref(o, n)).cast<T>(); }
    template <class... A> object operator()(A&&... a) const { return object(getattr_ref(o, n))(std::forward<A>(a)...); } accessor attr(const char* m) const { return {getattr_ref(o, n), m}; }
    template <class T, std::enable_if_t<!std::is_same_v<bare<T>, accessor>, int> = 0> void operator=(T&& v) const { setattr_ref(o, n, to_ref(std::forward<T>(v))); } void operator=(const accessor& v) const { setattr_ref(o, n, getattr_ref(v.o, v.n)); } bool is_none() const { return getattr_ref(o, n)->k == K::None; } };
inline accessor handle::attr(const char* m) const { return {r, m}; }
inline accessor handle::attr(const std::string& m) const { return {r, m}; }
struct none : object { none() : object(none_ref()) {} };
struct tuple : object { using object::object; tuple() : object(mk(K::Tuple)) {} size_t size() const { return r->items.size(); } object operator[](size_t i) const { return object(r->items.at(i)); } };
struct list : object { using object::object; list() : object(mk(K::List)) {} size_t size() const { return r->items.size(); } object operator[](size_t i) const { return object(r->items.at(i)); } template <class T> void append(T&& v) { r->items.push_back(to_ref(std::forward<T>(v))); } };
struct bool_ : object { using object::object; }; struct int_ : object { using object::object; int_(const object& o) : object(o) { if (r->k == K::Float) r = mk_int((long long)r->d); else if (r->k != K::Int && r->k != K::Bool) throw type_error("int() argument must be a number"); } operator long long() const { return r->i; } };
struct float_ : object { using object::object; float_(const object& o) : object(o) { if (r->k == K::Int || r->k == K::Bool) r = mk_float(double(r->i)); else if (r->k == K::Np32) r = mk_float(r->d); else if (r->k != K::Float) throw type_error("must be real number, not " + kind_name(r)); } float_(double v) : object(mk_float(v)) {} operator double() const { return r->d; } operator float() const { return float(r->d); } }; struct sequence : object { using object::object; };
struct str : object { using object::object; str(const std::string& s) : object(mk_str(s)) {} str(const char* s) : object(mk_str(s)) {} };
class args : public object { public: using object::object; }; class kwargs : public object { public: using object::object; };
template <class T> bool isinstance(const handle& h) { auto k = h.r->k;
    if constexpr (std::is_same_v<T, bool_>) return k == K::Bool; else if constexpr (std::is_same_v<T, int_>) return k == K::Int || k == K::Bool; else if constexpr (std::is_same_v<T, float_>) return k == K::Float;
    else if constexpr (std::is_same_v<T, str>) return k == K::Str; else if constexpr (std::is_same_v<T, list>) return k == K::List; else if constexpr (std::is_same_v<T, tuple>) return k == K::Tuple; else if constexpr (std::is_same_v<T, none>) return k == K::None;
    else { if (k != K::Inst) return false; auto t = find_type(typeid(T)); conv<T> c; return t && c.load(h.r, false); } }
inline bool hasattr(const handle& h, const char* n) { return bool(find_attr(h.r, n)); }
inline object getattr(const handle& h, const char* n) { return object(getattr_ref(h.r, n)); }
inline object getattr(const handle& h, const char* n, const handle& d) { auto r = find_attr(h.r, n); return r ? object(r) : object(d); }
template <class T, class> struct conv {   // a class registered with class_ (or nothing a Python value can become)
    ref keep; T* p = nullptr; static constexpr bool by_value = false;
    static void* up(const ref& r, TypeRec* have, TypeRec* want, void* q) { if (have == want) return q; for (auto& b : have->bases) if (void* x = up(r, b.first, want, b.second(q))) return x; return nullptr; }
    bool load(const ref& r, bool convert) { auto t = find_type(typeid(T)); if (!t) return false;
        if (r->k == K::Inst) if (void* q = up(r, r->type, t, r->ptr)) { keep = r; p = static_cast<T*>(q); return true; }
        if (!convert) return false;
        for (auto& f : t->implicit) if (ref n = f(r)) { if (n->k == K::Inst && n->type == t) { keep = n; p = static_cast<T*>(n->ptr); return true; } } return false; }
    T& get() { return *p; }
    static std::string unknown() { return find_type(typeid(T)) ? "" : demangled(typeid(T)); }
    template <class U> static ref cast(U&& v, return_value_policy pol, const ref& parent) { auto t = find_type(typeid(T)); if (!t) throw type_error("Unable to convert function return value to a Python type: " + demangled(typeid(T)));
        auto r = mk(K::Inst); r->type = t; T* q = const_cast<T*>(&v);
        if (std::is_lvalue_reference_v<U&&> && (pol == return_value_policy::reference || pol == return_value_policy::reference_internal)) { r->ptr = q; if (pol == return_value_policy::reference_internal) r->keep = parent; return r; }
        if constexpr (!std::is_lvalue_reference_v<U&&> && !std::is_const_v<std::remove_reference_t<U>> && std::is_move_constructible_v<T>) { auto s = std::make_shared<T>(std::move(v)); r->ptr = s.get(); r->own = s; return r; }
        else if constexpr (std::is_copy_constructible_v<T>) { auto s = std::make_shared<T>(v); r->ptr = s.get(); r->own = s; return r; }
        else throw cast_error("return_value_policy = copy, but type is non-copyable"); } };
struct builtin { static constexpr bool by_value = true; static std::string unknown() { return ""; } };
template <> struct conv<bool> : builtin { bool v = false; bool load(const ref& r, bool c) { if (r->k == K::Bool) { v = r->i; return true; } if (!c) return false; if (r->k == K::None) { v = false; return true; } if (r->k == K::Int) { v = r->i; return true; } if (r->k == K::Float) { v = r->d != 0; return true; } return false; } bool& get() { return v; } static ref cast(bool b, return_value_policy, const ref&) { return mk_bool(b); } };
template <class T> struct conv<T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>>> : builtin { T v{}; T& get() { return v; }
    bool load(const ref& r, bool c) {
        if constexpr (std::is_floating_point_v<T>) { if (!c && r->k != K::Float) return false; if (r->k == K::Float) { v = T(r->d); return true; } if (r->k == K::Int || r->k == K::Bool) { v = T(r->i); return true; } if (r->k == K::Np32) { v = T(r->d); return true; } return false; }
        else { if (r->k != K::Int && r->k != K::Bool) return false;
            if (std::is_unsigned_v<T>) { if (r->i < 0 && r->u == (unsigned long long)r->i && !(sizeof(T) == 8 && r->d == 1)) return false; if (r->u > (unsigned long long)std::numeric_limits<T>::max()) return false; v = T(r->u); return true; }
            if (r->i < (long long)std::numeric_limits<T>::min() || r->i > (long long)std::numeric_limits<T>::max()) return false; v = T(r->i); return true; } }
    static ref cast(T x, return_value_policy, const ref&) { if constexpr (std::is_floating_point_v<T>) return mk_float(x); else { auto r = mk_int((long long)x); r->u = (unsigned long long)x; if (std::is_unsigned_v<T> && (long long)x < 0) r->d = 1; return r; } } };
template <> struct conv<std::string> : builtin { std::string v; bool load(const ref& r, bool) { if (r->k != K::Str) return false; v = r->s; return true; } std::string& get() { return v; } static ref cast(const std::string& s, return_value_policy, const ref&) { return mk_str(s); } };
template <> struct conv<std::filesystem::path> : builtin { std::filesystem::path v; bool load(const ref& r, bool) { if (r->k != K::Str) return false; v = r->s; return true; } std::filesystem::path& get() { return v; } static ref cast(const std::filesystem::path& s, return_value_policy, const ref&) { return mk_str(s.string()); } };
class array; template <class T> struct conv<T, std::enable_if_t<std::is_base_of_v<handle, T> && !std::is_base_of_v<array, T>>> : builtin { T v; bool load(const ref& r, bool) { if constexpr (!std::is_same_v<T, object> && !std::is_same_v<T, handle> && !std::is_same_v<T, args> && !std::is_same_v<T, kwargs>) { if (!isinstance<T>(object(r))) return false; } v = T(r); return true; } T& get() { return v; } static ref cast(const T& t, return_value_policy, const ref&) { return t.r; } };
template <class T> struct conv<std::vector<T>> : builtin { std::vector<T> v; std::vector<T>& get() { return v; }
    bool load(const ref& r, bool c) { if (r->k != K::List && r->k != K::Tuple) return false; v.clear(); for (auto& x : r->items) { conv<T> e; if (!e.load(x, c)) return false; v.push_back(e.get()); } return true; }
    static std::string unknown() { return conv<T>::unknown(); } template <class U> static ref cast(U&& x, return_value_policy p, const ref& par) { auto r = mk(K::List); for (auto&& e : x) { bare<T> t = e; r->items.push_back(conv<bare<T>>::cast(std::move(t), p, par)); } return r; } };
template <class T, std::size_t N> struct conv<std::array<T, N>> : builtin { std::array<T, N> v; std::array<T, N>& get() { return v; }
    bool load(const ref& r, bool c) { if ((r->k != K::List && r->k != K::Tuple) || r->items.size() != N) return false; for (std::size_t i = 0; i < N; ++i) { conv<T> e; if (!e.load(r->items[i], c)) return false; v[i] = e.get(); } return true; }
    static std::string unknown() { return conv<T>::unknown(); } template <class U> static ref cast(U&& x, return_value_policy p, const ref& par) { auto r = mk(K::List); for (auto e : x) r->items.push_back(conv<bare<T>>::cast(std::move(e), p, par)); return r; } };
template <class T> struct conv<std::optional<T>> : builtin { std::optional<T> v; std::optional<T>& get() { return v; } bool load(const ref& r, bool c) { if (r->k == K::None) { v.reset(); return true; } conv<T> e; if (!e.load(r, c)) return false; v = e.get(); return true; }
    static std::string unknown() { return conv<T>::unknown(); } template <class U> static ref cast(U&& x, return_value_policy p, const ref& par) { return x ? conv<T>::cast(*std::forward<U>(x), p, par) : none_ref(); } };
template <class... T> struct conv<std::tuple<T...>> : builtin { std::tuple<T...> v; std::tuple<T...>& get() { return v; } static std::string unknown() { std::string s; ((s = s.empty() ? conv<T>::unknown() : s), ...); return s; }
    bool load(const ref& r, bool c) { if ((r->k != K::List && r->k != K::Tuple) || r->items.size() != sizeof...(T)) return false; return ld(r, c, std::index_sequence_for<T...>()); }
    template <class X> static bool one(const ref& r, bool c, X& o) { conv<X> e; if (!e.load(r, c)) return false; o = e.get(); return true; }
    template <std::size_t... I> bool ld(const ref& r, bool c, std::index_sequence<I...>) { bool ok = true; ((ok = ok && one<T>(r->items[I], c, std::get<I>(v))), ...); return ok; }
    template <class U> static ref cast(U&& x, return_value_policy p, const ref& par) { auto r = mk(K::Tuple); std::apply([&](auto&&... e) { (r->items.push_back(conv<bare<decltype(e)>>::cast(bare<decltype(e)>(e), p, par)), ...); }, x); return r; } };
template <class A, class B> struct conv<std::pair<A, B>> : builtin { std::pair<A, B> v; std::pair<A, B>& get() { return v; } static std::string unknown() { return conv<std::tuple<A, B>>::unknown(); }
    bool load(const ref& r, bool c) { conv<std::tuple<A, B>> t; if (!t.load(r, c)) return false; v = {std::get<0>(t.v), std::get<1>(t.v)}; return true; } static ref cast(const std::pair<A, B>& x, return_value_policy p, const ref& par) { return conv<std::tuple<A, B>>::cast(std::tuple<A, B>(x), p, par); } };
template <class T> struct conv<std::shared_ptr<T>> : builtin { std::shared_ptr<T> v; std::shared_ptr<T>& get() { return v; } bool load(const ref&, bool) { return false; } static std::string unknown() { return "shared_ptr<" + demangled(typeid(T)) + ">"; } static ref cast(const std::shared_ptr<T>&, return_value_policy, const ref&) { throw type_error("shared_ptr of an unregistered holder"); } };
template <> struct conv<const char*> : builtin { static ref cast(const char* s, return_value_policy, const ref&) { return mk_str(s); } };
template <> struct conv<void> : builtin {}; template <> struct conv<char> : builtin {};
template <class T> ref to_ref(T&& v, return_value_policy p, const ref& parent) { using B = bare<T>;
    if constexpr (std::is_array_v<std::remove_reference_t<T>> || std::is_same_v<B, char*> || std::is_same_v<B, const char*>) return mk_str(v);
    else if constexpr (std::is_same_v<B, accessor>) return getattr_ref(v.o, v.n); else if constexpr (std::is_same_v<B, ref>) return v;
    else if constexpr (std::is_pointer_v<B>) return conv<std::remove_cv_t<std::remove_pointer_t<B>>>::cast(*v, p, parent);
    else return conv<B>::cast(std::forward<T>(v), p, parent); }
template <class T> object cast(T&& v) { return object(to_ref(std::forward<T>(v))); }
template <class T> T handle::cast() const { conv<bare<T>> c; if (!c.load(r, true)) throw cast_error("Unable to cast Python instance of type " + kind_name(r) + " to C++ type " + demangled(typeid(bare<T>))); return c.get(); }
template <class T> T cast(const handle& h) { return h.cast<T>(); }
template <class... A> tuple make_tuple(A&&... a) { return tuple(mk_seq(K::Tuple, {to_ref(std::forward<A>(a))...})); }
// ---- functions
struct arg_v; struct arg { std::string n; explicit arg(const char* s) : n(s) {} template <class T> arg_v operator=(T&& v) const; arg& noconvert(bool = true) { return *this; } arg& none(bool = true) { return *this; } };
struct arg_v : arg { ref v; arg_v(const arg& a, ref x) : arg(a), v(std::move(x)) {} };
template <class T> arg_v arg::operator=(T&& v) const { return arg_v(*this, to_ref(std::forward<T>(v))); }
namespace literals { inline arg operator""_a(const char* s, std::size_t) { return arg(s); } }
struct is_operator {}; struct buffer_protocol {}; struct arithmetic {}; struct gil_scoped_release {}; struct gil_scoped_acquire {}; struct const_t {}; struct dynamic_attr {}; struct module_local { module_local(bool = true) {} }; struct kw_only {}; struct pos_only {}; struct prepend {};
inline constexpr const_t const_{}; template <class... T> struct call_guard {}; template <int... N> struct keep_alive {};
template <class... A> struct overload_t { template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; } template <class R, class C> constexpr auto operator()(R (C::*f)(A...)) const { return f; } template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const) const { return f; } template <class R, class C> constexpr auto operator()(R (C::*f)(A...), const_t) const { return f; } template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, const_t) const { return f; } };
template <class... A> inline constexpr overload_t<A...> overload_cast{};
template <class A, class C> decltype(auto) extract(C& c) { using B = bare<A>;
    if constexpr (std::is_lvalue_reference_v<A>) return static_cast<A>(c.get()); else if constexpr (std::is_rvalue_reference_v<A>) return static_cast<A>(c.get()); else if constexpr (std::is_pointer_v<B>) return static_cast<B>(&c.get());
    else if constexpr (C::by_value) return B(std::move(c.get())); else return B(c.get()); }
template <class A> using conv_of = conv<bare<std::remove_pointer_t<bare<A>>>>;
template <class A> constexpr bool is_star = std::is_same_v<bare<A>, args> || std::is_same_v<bare<A>, kwargs>;
template <class R, class... A> struct sig {};
template <class F> struct fsig : fsig<decltype(&F::operator())> {};
template <class C, class R, class... A> struct fsig<R (C::*)(A...) const> { using type = sig<R, A...>; }; template <class C, class R, class... A> struct fsig<R (C::*)(A...)> { using type = sig<R, A...>; };
template <class C, class R, class... A> struct fsig<R (C::*)(A...) const noexcept> { using type = sig<R, A...>; }; template <class C, class R, class... A> struct fsig<R (C::*)(A...) noexcept> { using type = sig<R, A...>; };
template <class R, class... A> struct fsig<R (*)(A...)> { using type = sig<R, A...>; }; template <class R, class... A> struct fsig<R (*)(A...) noexcept> { using type = sig<R, A...>; };
// what a def() says besides the function (one non-template class, so that each def instantiates little)
struct extra { const arg* a = nullptr; const arg_v* v = nullptr; bool op = false, has_pol = false; return_value_policy pol = return_value_policy::automatic;
    extra(const char*) {} extra(const arg& x) : a(&x) {} extra(const arg_v& x) : a(&x), v(&x) {} extra(is_operator) : op(true) {} extra(return_value_policy p) : has_pol(true), pol(p) {} template <class T> extra(const T&) {} };
using rec_ptr = std::shared_ptr<Rec>;
inline rec_ptr finish(rec_ptr r, const std::string& name, bool method, std::initializer_list<extra> e) { r->name = name; if (method && !r->args.empty()) r->args[0].name = "self"; std::size_t i = method ? 1 : 0;
    for (auto& x : e) { if (x.op) r->is_op = true; if (x.has_pol) r->pol = x.pol; if (x.a) { if (i >= r->args.size()) throw std::runtime_error("too many argument names for " + r->name); r->args[i].name = x.a->n; if (x.v) r->args[i].def = x.v->v; ++i; } } return r; }
template <class T> struct own { T* p; };
template <class T> struct conv<own<T>> : builtin { static ref cast(own<T> o, return_value_policy, const ref&) { std::shared_ptr<T> p(o.p); auto r = mk(K::Inst); r->type = find_type(typeid(T)); r->ptr = p.get(); r->own = p; return r; } };
template <class S> struct Sig; template <class R, class... A> struct Sig<sig<R, A...>> { using Cs = std::tuple<conv_of<A>...>; using Ix = std::index_sequence_for<A...>; static constexpr bool star = (is_star<A> || ... || false);
    template <std::size_t... I> static bool load_i(Cs& cs, std::vector<ref>& a, bool convert, std::index_sequence<I...>) { bool ok = true; (void)a; (void)convert; (void)cs; if constexpr (star) ((ok = ok && (is_star<A> || (I < a.size() && std::get<I>(cs).load(a[I], convert)))), ...); else ((ok = ok && std::get<I>(cs).load(a[I], convert)), ...); return ok; }
    static bool load(Cs& cs, std::vector<ref>& a, bool convert) { return load_i(cs, a, convert, Ix()); }
    static std::string unknown() { std::string s; ((s = s.empty() ? conv_of<A>::unknown() : s), ...); if (s.empty()) s = conv_of<R>::unknown(); return s; }
    static rec_ptr rec() { auto r = std::make_shared<Rec>(); (r->args.push_back({"", nullptr, demangled(typeid(bare<A>))}), ...); r->star = star; r->unknown = &unknown; return r; } };
template <class R> ref give(R r, Rec& rp, std::vector<ref>& a) { auto pol = rp.pol; ref parent = a.empty() ? nullptr : a[0]; if constexpr (std::is_reference_v<R>) return to_ref(static_cast<R>(r), pol, parent); else return to_ref(std::move(r), pol == return_value_policy::reference_internal && !std::is_pointer_v<R> ? return_value_policy::move : pol, parent); }
template <class F, class S, class I> struct Thunk; template <class F, class R, class... A, std::size_t... I> struct Thunk<F, sig<R, A...>, std::index_sequence<I...>> {
    static ref run(void* fp, Rec& rp, std::vector<ref>& a, bool convert, bool& ok) { typename Sig<sig<R, A...>>::Cs cs; ok = Sig<sig<R, A...>>::load(cs, a, convert); if (!ok) return nullptr; F& f = *static_cast<F*>(fp); (void)f;
        if constexpr (std::is_void_v<R>) { std::invoke(f, extract<A>(std::get<I>(cs))...); return none_ref(); } else return give<R>(std::invoke(f, extract<A>(std::get<I>(cs))...), rp, a); } };
template <class F, class R, class... A> rec_ptr make_rec(const F& f, sig<R, A...>) { auto r = Sig<sig<R, A...>>::rec(); r->f = new F(f); r->thunk = &Thunk<F, sig<R, A...>, std::index_sequence_for<A...>>::run; return r; }
inline void add(const ref& scope, const std::string& n, std::shared_ptr<Rec> r, bool st, const std::string& where) { auto& o = scope->attrs[n]; if (!o || o->k != K::Func) { o = mk(K::Func); o->s = n; } o->is_static = st; r->is_static = st; o->over.push_back(r); all_functions().push_back({where + "." + n, r}); }
inline ref invoke(const std::vector<std::shared_ptr<Rec>>& over, const std::string& name, const std::vector<ref>& pos, const std::map<std::string, ref>& kw) {
    for (int pass = over.size() > 1 ? 0 : 1; pass < 2; ++pass) for (auto& r : over) { std::vector<ref> a = pos;
        if (!r->star) { if (pos.size() > r->args.size()) continue; std::size_t used = 0; bool bad = false;
            for (std::size_t i = 0; i < pos.size(); ++i) if (!r->args[i].name.empty() && kw.count(r->args[i].name)) bad = true;
            for (std::size_t i = pos.size(); i < r->args.size() && !bad; ++i) { auto k = kw.find(r->args[i].name); if (!r->args[i].name.empty() && k != kw.end()) { a.push_back(k->second); ++used; } else if (r->args[i].def) a.push_back(r->args[i].def); else bad = true; }
            if (bad || used != kw.size()) continue; }
        bool ok = false; ref out; try { out = r->call(a, pass == 1, ok); } catch (const reference_cast_error&) { continue; } if (ok) return out; }
    if (!over.empty() && over[0]->is_op) return notimpl();
    std::string s = name + "(): incompatible function arguments ("; for (auto& p : pos) s += kind_name(p) + ","; throw type_error(s + ")"); }
inline ref call(const ref& f, std::vector<ref> pos, std::map<std::string, ref> kw) {
    if (f->k == K::Type) { auto i = f->attrs.find("__init__"); if (i == f->attrs.end()) throw type_error(f->type->name + ": No constructor defined!"); return invoke(i->second->over, f->type->name, pos, kw); }
    if (f->k != K::Func) throw type_error("object is not callable"); if (f->self) pos.insert(pos.begin(), f->self); return invoke(f->over, f->s, pos, kw); }
template <class... A> object handle::operator()(A&&... a) const { std::vector<ref> pos; std::map<std::string, ref> kw; auto one = [&](auto&& x) { if constexpr (std::is_base_of_v<arg_v, bare<decltype(x)>>) kw[x.n] = x.v; else pos.push_back(to_ref(x)); }; (one(std::forward<A>(a)), ...); return object(call(r, pos, kw)); }
class module_ : public object { public: using object::object; module_() = default;
    template <class F, class... E> module_& def(const char* n, F f, const E&... e) { add(r, n, finish(make_rec(f, typename fsig<F>::type()), n, false, {extra(e)...}), true, r->s); return *this; }
    accessor doc() { return attr("__doc__"); }
    module_ def_submodule(const char* n, const char* = "") { auto s = mk(K::Module); s->s = r->s + "." + n; s->attrs["__name__"] = mk_str(s->s); r->attrs[n] = s; modules()[s->s] = s; return module_(s); }
    static module_ import(const char* n) { auto i = modules().find(n); if (i == modules().end()) throw error_already_set(std::string("No module named ") + n); return module_(i->second); } };
using module = module_;
template <class T> struct caster_name {};
template <class... A> struct init_ctor { template <class C, class... E> static void into(C& c, const E&... e) { using T = typename C::type; auto f = [](A... a) -> own<T> { if constexpr (std::is_constructible_v<T, A...>) return {new T(std::forward<A>(a)...)}; else return {new T{std::forward<A>(a)...}}; }; c.ctor(make_rec(f, sig<own<T>, A...>()), {extra(e)...}); } };
template <class F, class T, class S> struct maker; template <class F, class T, class R, class... A> struct maker<F, T, sig<R, A...>> { F f; using S = sig<own<T>, A...>; own<T> operator()(A... a) const { if constexpr (std::is_pointer_v<R>) return {f(std::forward<A>(a)...)}; else return {new T(f(std::forward<A>(a)...))}; } };
template <class F> struct init_fn { F f; template <class C, class... E> void into(C& c, const E&... e) const { using Mk = maker<F, typename C::type, typename fsig<F>::type>; c.ctor(make_rec(Mk{f}, typename Mk::S()), {extra(e)...}); } };
template <class... A> init_ctor<A...> init() { return {}; }
template <class F> init_fn<F> init(F f) { return {f}; }
struct self_t {}; inline constexpr self_t self{};
template <class T, class... Bases> class class_ : public object { public: using type = T; TypeRec* t;
    template <class... E> class_(const handle& scope, const char* name, const E&...) { if (find_type(typeid(T))) throw std::runtime_error(std::string("generic_type: type \"") + name + "\" is already registered!"); if (scope.r->attrs.count(name)) throw std::runtime_error(std::string("generic_type: cannot initialize type \"") + name + "\": an object with that name is already defined");
        t = new TypeRec; t->name = name; t->scope = scope.r->s; t->ti = typeid(T); r = mk(K::Type); r->s = name; r->type = t; t->obj = r; (base<Bases>(), ...); registry()[typeid(T)] = t; scope.r->attrs[name] = r; }
    template <class B> void base() { auto b = find_type(typeid(B)); if constexpr (std::is_base_of_v<B, T>) { if (!b) throw std::runtime_error("generic_type: type \"" + t->name + "\" referenced unknown base type \"" + demangled(typeid(B)) + "\""); t->bases.push_back({b, [](void* p) -> void* { return static_cast<B*>(static_cast<T*>(p)); }}); } }
    std::string where() const { return t->scope + "." + t->name; }
    void ctor(rec_ptr rec, std::initializer_list<extra> e) { add(r, "__init__", finish(rec, "__init__", false, e), false, where()); }
    template <class S> struct msig; template <class R, class... A> struct msig<sig<R, A...>> { using c = sig<R, const T&, A...>; using m = sig<R, T&, A...>; };
    template <class F> static rec_ptr rec(const F& f) { if constexpr (std::is_member_function_pointer_v<F>) { using q = msig<typename fsig<F>::type>; return make_rec(f, std::conditional_t<is_const<F>(), typename q::c, typename q::m>()); } else return make_rec(f, typename fsig<F>::type()); }
    template <class F> static constexpr bool is_const() { return cm(static_cast<F>(nullptr)); }
    template <class C, class R, class... A> static constexpr bool cm(R (C::*)(A...) const) { return true; } template <class C, class R, class... A> static constexpr bool cm(R (C::*)(A...)) { return false; } template <class C, class R, class... A> static constexpr bool cm(R (C::*)(A...) const noexcept) { return true; } template <class C, class R, class... A> static constexpr bool cm(R (C::*)(A...) noexcept) { return false; }
    template <class F, class... E> class_& def(const char* n, F f, const E&... e) { add(r, n, finish(rec(f), n, true, {extra(e)...}), false, where()); return *this; }
    template <class... A, class... E> class_& def(init_ctor<A...> i, const E&... e) { i.into(*this, e...); return *this; }
    template <class F, class... E> class_& def(const init_fn<F>& i, const E&... e) { i.into(*this, e...); return *this; }
    template <class O, class... E, class = typename O::is_op> class_& def(const O& o, const E&...) { o.into(*this); return *this; }
    template <class F, class... E> class_& def_static(const char* n, F f, const E&... e) { add(r, n, finish(make_rec(f, typename fsig<F>::type()), n, false, {extra(e)...}), true, where()); return *this; }
    ref fn(std::shared_ptr<Rec> rc) { auto o = mk(K::Func); o->s = rc->name; o->over = {rc}; all_functions().push_back({where() + "." + rc->name, rc}); return o; }
    void prop(const char* n, ref g, ref s, bool st = false) { auto p = mk(K::Prop); p->fget = g; p->fset = s; p->is_static = st; r->attrs[n] = p; }
    template <class G, class S, class... E> class_& def_property(const char* n, G g, S s, const E&... e) { prop(n, fn(finish(rec(g), n, true, {extra(e)...})), fn(finish(rec(s), n, true, {}))); return *this; }
    template <class G, class... E> class_& def_property_readonly(const char* n, G g, const E&... e) { auto q = finish(rec(g), n, true, {extra(e)...}); if (q->pol == return_value_policy::automatic) q->pol = return_value_policy::reference_internal; prop(n, fn(q), nullptr); return *this; }
    template <class D, class C, class... E> class_& def_readwrite(const char* n, D C::*m, const E&...) { auto g = [m](const T& c) -> const D& { return c.*m; }; auto s = [m](T& c, const D& v) { c.*m = v; }; auto q = finish(make_rec(g, sig<const D&, const T&>()), n, true, {}); q->pol = return_value_policy::reference_internal; prop(n, fn(q), fn(finish(make_rec(s, sig<void, T&, const D&>()), n, true, {}))); return *this; }
    template <class D, class C, class... E> class_& def_readonly(const char* n, D C::*m, const E&...) { auto g = [m](const T& c) -> const D& { return c.*m; }; auto q = finish(make_rec(g, sig<const D&, const T&>()), n, true, {}); q->pol = return_value_policy::reference_internal; prop(n, fn(q), nullptr); return *this; }
    template <class D, class... E> class_& def_readonly_static(const char* n, const D* m, const E&...) { auto g = [m]() -> const D& { return *m; }; prop(n, fn(finish(make_rec(g, sig<const D&>()), n, false, {})), nullptr, true); return *this; }
    template <class F> class_& def_buffer(F f) { t->buffer = [f](void* p) { return f(*static_cast<T*>(p)); }; return *this; } };
template <class E> class enum_ : public class_<E> { public: ref sc; template <class... X> enum_(const handle& scope, const char* n, const X&... x) : class_<E>(scope, n, x...), sc(scope.r) { this->def("__eq__", [](const E& a, const E& b) { return a == b; }, is_operator()); this->def("__int__", [](const E& a) { return (long long)a; }); this->def(init<const E&>()); }
    std::vector<std::string> names; enum_& value(const char* n, E v, const char* = nullptr) { if (this->r->attrs.count(n)) throw value_error(std::string("enum: element \"") + n + "\" already exists!"); this->r->attrs[n] = to_ref(E(v)); names.push_back(n); return *this; } enum_& export_values() { for (auto& n : names) sc->attrs[n] = this->r->attrs[n]; return *this; } };
template <class In, class Out> void implicitly_convertible() { auto t = find_type(typeid(Out)); if (!t) throw std::runtime_error("implicitly_convertible: Unable to find type " + demangled(typeid(Out)));
    t->implicit.push_back([t](const ref& r) -> ref { static bool busy = false; if (busy) return nullptr; struct G { G() { busy = true; } ~G() { busy = false; } } g; conv<In> c; if (!c.load(r, false)) return nullptr; try { return call(t->obj, {r}); } catch (const std::exception&) { return nullptr; } }); }
// ---- operators
template <class T> constexpr bool is_self = std::is_same_v<bare<T>, self_t>;
#define PB_OP(id, nm, rnm, op) template <class L, class R> struct op_##id { using is_op = void; template <class C> static void into(C& c) { using T = typename C::type; \
    if constexpr (is_self<L> && is_self<R>) c.def(nm, [](const T& a, const T& b) { return a op b; }, is_operator()); else if constexpr (is_self<L>) c.def(nm, [](const T& a, const R& b) { return a op b; }, is_operator()); else c.def(rnm, [](const T& b, const L& a) { return a op b; }, is_operator()); } }; \
    inline op_##id<self_t, self_t> operator op(self_t, self_t) { return {}; } template <class R, std::enable_if_t<!is_self<R>, int> = 0> op_##id<self_t, R> operator op(self_t, const R&) { return {}; } template <class L, std::enable_if_t<!is_self<L>, int> = 0> op_##id<L, self_t> operator op(const L&, self_t) { return {}; }
PB_OP(add, "__add__", "__radd__", +) PB_OP(sub, "__sub__", "__rsub__", -) PB_OP(mul, "__mul__", "__rmul__", *) PB_OP(div, "__truediv__", "__rtruediv__", /)
PB_OP(eq, "__eq__", "__eq__", ==) PB_OP(ne, "__ne__", "__ne__", !=) PB_OP(lt, "__lt__", "__gt__", <) PB_OP(le, "__le__", "__ge__", <=) PB_OP(gt, "__gt__", "__lt__", >) PB_OP(ge, "__ge__", "__le__", >=)
#define PB_IOP(id, nm, op) template <class R> struct iop_##id { using is_op = void; template <class C> static void into(C& c) { using T = typename C::type; using B = std::conditional_t<is_self<R>, T, R>; c.def(nm, [](T& a, const B& b) -> T { return a op b; }, is_operator()); } }; template <class R> iop_##id<R> operator op(const self_t&, const R&) { return {}; }
PB_IOP(iadd, "__iadd__", +=) PB_IOP(isub, "__isub__", -=) PB_IOP(imul, "__imul__", *=) PB_IOP(idiv, "__itruediv__", /=)
struct op_neg { using is_op = void; template <class C> static void into(C& c) { using T = typename C::type; c.def("__neg__", [](const T& a) { return -a; }, is_operator()); } }; inline op_neg operator-(self_t) { return {}; }
// ---- arrays
template <class T> constexpr char dtype_of() { if constexpr (std::is_same_v<T, double>) return 'd'; else if constexpr (std::is_same_v<T, float>) return 'f'; else if constexpr (std::is_same_v<T, bool>) return '?'; else if constexpr (std::is_integral_v<T>) { constexpr const char* s = "bhiq"; constexpr const char* u = "BHIQ"; constexpr int k = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3; return std::is_signed_v<T> ? s[k] : u[k]; } else return 0; }
inline ssize_t dsize(char c) { switch (c) { case 'd': case 'q': case 'Q': return 8; case 'f': case 'i': case 'I': return 4; case 'h': case 'H': return 2; default: return 1; } }
template <class T> struct format_descriptor { static std::string format() { return std::string(1, dtype_of<T>()); } };
template <class F> decltype(auto) on_dtype(char c, F f) { switch (c) { case 'd': return f(double()); case 'f': return f(float()); case 'b': return f(std::int8_t()); case 'B': return f(std::uint8_t()); case 'h': return f(std::int16_t()); case 'H': return f(std::uint16_t()); case 'i': return f(std::int32_t()); case 'I': return f(std::uint32_t()); case 'q': return f(std::int64_t()); case 'Q': return f(std::uint64_t()); default: return f(bool()); } }
inline void copy_item(char from, const void* a, char to, void* b) { on_dtype(from, [&](auto s) { std::memcpy(&s, a, sizeof s); on_dtype(to, [&](auto d) { d = static_cast<decltype(d)>(s); std::memcpy(b, &d, sizeof d); }); }); }
inline ref new_array(char dt, const std::vector<ssize_t>& shape) { auto r = mk(K::Array); r->dt = dt; r->shape = shape; ssize_t n = 1; for (auto s : shape) n *= s; auto b = std::make_shared<std::vector<char>>(std::size_t(n * dsize(dt)) + 1, char(0xA5)); r->ptr = b->data(); r->own = b; r->strides.resize(shape.size()); ssize_t st = dsize(dt); for (std::size_t k = shape.size(); k-- > 0;) { r->strides[k] = st; st *= shape[k]; } return r; }
inline bool c_contiguous(const ref& r) { ssize_t st = dsize(r->dt); ssize_t n = 1; for (auto s : r->shape) n *= s; if (n == 0) return true; for (std::size_t k = r->shape.size(); k-- > 0;) { if (r->shape[k] != 1 && r->strides[k] != st) return false; st *= r->shape[k]; } return true; }
inline ref copy_array(const ref& a, char dt) { auto r = new_array(dt, a->shape); ssize_t n = 1; for (auto s : a->shape) n *= s; for (ssize_t i = 0; i < n; ++i) { ssize_t q = i, off = 0; for (std::size_t k = a->shape.size(); k-- > 0;) { off += (q % a->shape[k]) * a->strides[k]; q /= a->shape[k]; } copy_item(a->dt, static_cast<char*>(a->ptr) + off, dt, static_cast<char*>(r->ptr) + i * dsize(dt)); } return r; }
inline ref buffer_array(const ref& o) { for (TypeRec* t = o->type; t; t = t->bases.empty() ? nullptr : t->bases[0].first) if (t->buffer) { auto b = t->buffer(o->ptr); auto r = mk(K::Array); r->dt = b.format.empty() ? 0 : b.format[0]; if (b.itemsize != dsize(r->dt)) throw std::runtime_error("buffer: item size does not fit the format"); r->shape = b.shape; r->strides = b.strides; r->ptr = b.ptr; r->keep = o; return r; } return nullptr; }
inline bool seq_shape(const ref& r, std::vector<ssize_t>& sh, std::vector<double>& v) { if (r->k == K::Float) { v.push_back(r->d); return true; } if (r->k == K::Int || r->k == K::Bool) { v.push_back(double(r->i)); return true; } if (r->k != K::List && r->k != K::Tuple) return false;
    std::vector<ssize_t> in; for (std::size_t i = 0; i < r->items.size(); ++i) { std::vector<ssize_t> s; if (!seq_shape(r->items[i], s, v)) return false; if (i && s != in) return false; in = s; } sh = {ssize_t(r->items.size())}; sh.insert(sh.end(), in.begin(), in.end()); return true; }
class array : public object { public: enum { c_style = 1, f_style = 2, forcecast = 16 }; using object::object; ssize_t ndim() const { return ssize_t(r->shape.size()); } ssize_t shape(ssize_t i) const { return r->shape.at(std::size_t(i)); } ssize_t strides(ssize_t i) const { return r->strides.at(std::size_t(i)); } ssize_t size() const { ssize_t n = 1; for (auto s : r->shape) n *= s; return n; } ssize_t itemsize() const { return dsize(r->dt); } ssize_t nbytes() const { return size() * itemsize(); }
    buffer_info request(bool = false) const { return buffer_info(r->ptr, dsize(r->dt), std::string(1, r->dt), ndim(), r->shape, r->strides); } };
struct any_container { std::vector<ssize_t> v; template <class I, class = std::enable_if_t<std::is_integral_v<I>>> any_container(std::initializer_list<I> l) { for (auto x : l) v.push_back(ssize_t(x)); } template <class I, class = std::enable_if_t<std::is_integral_v<I>>> any_container(const std::vector<I>& l) { for (auto x : l) v.push_back(ssize_t(x)); } };
template <class T, int N> struct unchecked_ref { ref r; template <class... I> T& operator()(I... i) const { static_assert(sizeof...(I) == N); ssize_t ix[] = {ssize_t(i)...}; ssize_t off = 0; for (int k = 0; k < N; ++k) off += ix[k] * r->strides[std::size_t(k)]; return *reinterpret_cast<T*>(static_cast<char*>(r->ptr) + off); } ssize_t shape(ssize_t i) const { return r->shape.at(std::size_t(i)); } ssize_t ndim() const { return N; } };
template <class T, int Flags = array::forcecast> class array_t : public array { public: array_t() : array(new_array(dtype_of<T>(), {0})) {} explicit array_t(ref x) : array(std::move(x)) {}
    template <class I, class = std::enable_if_t<std::is_integral_v<I>>> explicit array_t(I n) : array(new_array(dtype_of<T>(), {ssize_t(n)})) {} explicit array_t(any_container s) : array(new_array(dtype_of<T>(), s.v)) {}
    array_t(any_container s, const T* p) : array(new_array(dtype_of<T>(), s.v)) { std::memcpy(r->ptr, p, std::size_t(nbytes())); }
    T* mutable_data() { return static_cast<T*>(r->ptr); } const T* data() const { return static_cast<const T*>(r->ptr); }
    const T& at(ssize_t i) const { return unchecked_ref<T, 1>{r}(i); } const T& at(ssize_t i, ssize_t j) const { return unchecked_ref<T, 2>{r}(i, j); } T& mutable_at(ssize_t i) { return unchecked_ref<T, 1>{r}(i); }
    template <int N> unchecked_ref<T, N> check() const { if (ndim() != N) throw std::domain_error("array has incorrect number of dimensions: " + std::to_string(ndim()) + "; expected " + std::to_string(N)); return {r}; }
    template <int N> unchecked_ref<T, N> mutable_unchecked() { return check<N>(); } template <int N> unchecked_ref<const T, N> unchecked() const { check<N>(); return {r}; } };
template <class T, int F> struct conv<array_t<T, F>> : builtin { array_t<T, F> v; array_t<T, F>& get() { return v; } static ref cast(const array_t<T, F>& a, return_value_policy, const ref&) { return a.r; }
    bool load(const ref& in, bool convert) { ref r = in; char dt = dtype_of<T>();
        if (r->k == K::Array && r->dt == dt && (!(F & array::c_style) || c_contiguous(r))) { v = array_t<T, F>(r); return true; } if (!convert) return false;
        if (r->k == K::Inst) { r = buffer_array(r); if (!r) return false; } else if (r->k != K::Array) { std::vector<ssize_t> sh; std::vector<double> d; if (!seq_shape(r, sh, d)) return false; r = new_array('d', sh); if (!d.empty()) std::memcpy(r->ptr, d.data(), d.size() * 8); }
        if (!(F & array::forcecast) && r->dt != dt && dsize(r->dt) >= dsize(dt)) return false;
        if (r->dt != dt || ((F & array::c_style) && !c_contiguous(r))) r = copy_array(r, dt); v = array_t<T, F>(r); return true; } };
} // namespace pybind11
#define PYBIND11_MODULE(name, m) void huira_module_init(pybind11::module_& m)
