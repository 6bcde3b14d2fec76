// A stand-in for pybind11 (the real one is not in the repository's tree, nor installed).
// Bindings register themselves in a table of classes; the check calls through that table
// the way the interpreter would: overloads in order of definition, first without and then
// with implicit conversions, arguments by position or by name, defaults from py::arg.
#ifndef VERIF_PYBIND_STUB_H
#define VERIF_PYBIND_STUB_H

#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

namespace pybind11 {

// ---- values -------------------------------------------------------------------------------
struct object;
typedef std::vector<object> objects;
struct object {
    enum Kind { NONE, BOOL, INT, FLOAT, STR, INST, FUNC, LIST } kind = NONE;
    long long i = 0; double d = 0; std::string s;
    std::shared_ptr<void> hold; void* ptr = nullptr; std::type_index type = std::type_index(typeid(void));
    std::function<object(const objects&)> f;
    objects list;
    object() {}
};
typedef object handle;

struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct attribute_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct import_error : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- the table ----------------------------------------------------------------------------
struct argument { std::string name; bool hasDefault = false; object value; bool noconvert = false; };
struct overload { size_t n; bool method; std::vector<argument> args; std::function<bool(const objects&, const std::vector<bool>&, object&)> call; };
struct attribute { std::function<object(const object&)> get; std::function<bool(const object&, const object&)> set; };
struct type_entry {
    std::string name; std::type_index type = std::type_index(typeid(void));
    std::map<std::string, std::vector<overload>> methods; std::map<std::string, attribute> attributes;
};
struct accessor { object* o; template <class T> accessor& operator=(const T& v); };
struct module_ {
    std::map<std::string, std::shared_ptr<type_entry>> classes; std::map<std::string, object> values;
    const char* text = ""; const char*& doc() { return text; }
    accessor attr(const char* n) { return accessor{&values[n]}; }
    template <class F, class... X> module_& def(const char*, F, const X&...) { return *this; }   // free functions are not looked at
};
typedef module_ module;
inline std::map<std::type_index, std::shared_ptr<type_entry>>& registered() { static std::map<std::type_index, std::shared_ptr<type_entry>> m; return m; }

// ---- conversions --------------------------------------------------------------------------
template <class T> struct bare { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
template <class T, class = void> struct caster {            // bound classes
    T* p = nullptr;
    bool load(const object& o, bool) { if (o.kind != object::INST || o.type != std::type_index(typeid(T)) || !registered().count(o.type)) return false; p = (T*) o.ptr; return true; }
    T& ref() { return *p; }
    static object check(object o) { if (!registered().count(std::type_index(typeid(T)))) throw type_error(std::string("unregistered type ") + typeid(T).name()); return o; }
    static object byref(const T& v) { object o; o.kind = object::INST; o.ptr = (void*) &v; o.type = typeid(T); return check(o); }
    static object byvalue(const T& v) { object o; std::shared_ptr<T> q = std::make_shared<T>(v); o.kind = object::INST; o.hold = q; o.ptr = q.get(); o.type = typeid(T); return check(o); }
};
template <> struct caster<bool, void> {
    bool v = false;
    bool load(const object& o, bool convert) { if (o.kind == object::BOOL) { v = o.i; return true; } if (!convert) return false; if (o.kind == object::NONE) { v = false; return true; } if (o.kind == object::INT) { v = o.i; return true; } if (o.kind == object::FLOAT) { v = o.d; return true; } return false; }
    bool& ref() { return v; }
    static object byvalue(bool b) { object o; o.kind = object::BOOL; o.i = b; return o; }
    static object byref(bool b) { return byvalue(b); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    T v = 0;
    bool load(const object& o, bool) { if (o.kind != object::INT && o.kind != object::BOOL) return false; if (std::is_unsigned<T>::value && o.i < 0) return false; if ((long long) (T) o.i != o.i) return false; v = (T) o.i; return true; }
    T& ref() { return v; }
    static object byvalue(T x) { object o; o.kind = object::INT; o.i = (long long) x; return o; }
    static object byref(T x) { return byvalue(x); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    T v = 0;
    bool load(const object& o, bool convert) { if (o.kind == object::FLOAT) { v = (T) o.d; return true; } if (convert && (o.kind == object::INT || o.kind == object::BOOL)) { v = (T) o.i; return true; } return false; }
    T& ref() { return v; }
    static object byvalue(T x) { object o; o.kind = object::FLOAT; o.d = x; return o; }
    static object byref(T x) { return byvalue(x); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_enum<T>::value>::type> {
    T v = T();
    bool load(const object& o, bool) { if (o.kind != object::INT) return false; v = (T) o.i; return true; }
    T& ref() { return v; }
    static object byvalue(T x) { object o; o.kind = object::INT; o.i = (long long) x; return o; }
    static object byref(T x) { return byvalue(x); }
};
template <> struct caster<std::string, void> {
    std::string v;
    bool load(const object& o, bool) { if (o.kind != object::STR) return false; v = o.s; return true; }
    std::string& ref() { return v; }
    static object byvalue(const std::string& x) { object o; o.kind = object::STR; o.s = x; return o; }
    static object byref(const std::string& x) { return byvalue(x); }
};
template <class T> object cast(const T& v) { return caster<typename bare<T>::type>::byvalue(v); }
inline object cast(const char* v) { return caster<std::string>::byvalue(v); }
inline object cast(const object& o) { return o; }
template <class T> accessor& accessor::operator=(const T& v) { *o = cast(v); return *this; }
template <class T> T& cast_ref(const object& o) { caster<T> c; if (!c.load(o, true)) throw type_error("cannot convert"); return *(T*) o.ptr; }
template <class R, class... A> struct caster<std::function<R(A...)>, void> {
    std::function<R(A...)> v;
    bool load(const object& o, bool convert) {
        if (o.kind == object::NONE) { v = nullptr; return convert; }
        if (o.kind != object::FUNC) return false;
        auto f = o.f;
        v = [f](A... a) -> R { object r = f(objects{caster<typename bare<A>::type>::byvalue(a)...}); caster<typename bare<R>::type> c; if (!c.load(r, true)) throw type_error("callback result"); return c.ref(); };
        return true;
    }
    std::function<R(A...)>& ref() { return v; }
    template <size_t... I> static object go(const std::function<R(A...)>& f, const objects& o, std::index_sequence<I...>) {
        std::tuple<caster<typename bare<A>::type>...> c; bool ok[] = {true, std::get<I>(c).load(o[I], true)...}; for (bool b : ok) if (!b) throw type_error("callback argument"); return cast(f(std::get<I>(c).ref()...)); }
    static object byvalue(const std::function<R(A...)>& f) { object o; if (!f) return o; o.kind = object::FUNC; o.f = [f](const objects& a) { return go(f, a, std::index_sequence_for<A...>()); }; return o; }
    static object byref(const std::function<R(A...)>& f) { return byvalue(f); }
};

// ---- annotations --------------------------------------------------------------------------
struct arg_v;
struct arg { std::string n; bool nc = false; explicit arg(const char* n_ = "") : n(n_) {} arg& noconvert(bool f = true) { nc = f; return *this; } template <class T> arg_v operator=(const T& v) const; arg_v operator=(const char* v) const; };
struct arg_v { argument a; };
template <class T> arg_v arg::operator=(const T& v) const { arg_v r; r.a.name = n; r.a.noconvert = nc; r.a.hasDefault = true; r.a.value = cast(v); return r; }
inline arg_v arg::operator=(const char* v) const { return operator=(std::string(v)); }
namespace literals { inline arg operator""_a(const char* n, size_t) { return arg(n); } }
struct module_local { module_local(bool = true) {} };
struct dynamic_attr {}; struct buffer_protocol {}; struct is_operator {}; struct doc { doc(const char*) {} }; struct name { name(const char*) {} };
template <size_t A, size_t B> struct keep_alive {};
template <class... T> struct call_guard {};
struct gil_scoped_release {}; struct gil_scoped_acquire {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <class A, class B> void implicitly_convertible() {}
template <class... A> struct overload_cast_impl {
    template <class R> constexpr auto operator()(R (*f)(A...)) const -> decltype(f) { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const -> decltype(f) { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const -> decltype(f) { return f; }
};
template <class... A> constexpr overload_cast_impl<A...> overload_cast{};
static constexpr auto const_ = std::true_type{};

inline void annotate(std::vector<argument>& v, const arg& a) { argument x; x.name = a.n; x.noconvert = a.nc; v.push_back(x); }
inline void annotate(std::vector<argument>& v, const arg_v& a) { v.push_back(a.a); }
template <class T> void annotate(std::vector<argument>&, const T&) {}

// ---- functions ----------------------------------------------------------------------------
template <class F> struct signature : signature<decltype(&F::operator())> {};
template <class R, class... A> struct signature<R (*)(A...)> { typedef R result; typedef std::tuple<A...> args; };
template <class C, class R, class... A> struct signature<R (C::*)(A...)> { typedef R result; typedef std::tuple<A...> args; };
template <class C, class R, class... A> struct signature<R (C::*)(A...) const> { typedef R result; typedef std::tuple<A...> args; };

template <class R> struct returning {
    template <class F> static object go(F&& f) { return caster<typename bare<R>::type>::byvalue(f()); }
};
template <> struct returning<void> { template <class F> static object go(F&& f) { f(); return object(); } };
template <class R> struct returning<R&> { template <class F> static object go(F&& f) { return caster<typename bare<R>::type>::byvalue(f()); } };

template <class R, class... A> struct invoker {
    template <class F, size_t... I> static bool go(F& f, const objects& o, const std::vector<bool>& conv, object& out, std::index_sequence<I...>) {
        std::tuple<caster<typename bare<A>::type>...> c; bool ok[] = {true, std::get<I>(c).load(o[I], conv[I])...}; for (bool b : ok) if (!b) return false;
        out = returning<R>::go([&]() -> R { return f(static_cast<A>(std::get<I>(c).ref())...); }); return true; }
    template <class F> static overload make(F f) { overload v; v.n = sizeof...(A); v.call = [f](const objects& o, const std::vector<bool>& conv, object& out) mutable { return go(f, o, conv, out, std::index_sequence_for<A...>()); }; return v; }
};
template <class R, class T> struct from_tuple;
template <class R, class... A> struct from_tuple<R, std::tuple<A...>> : invoker<R, A...> {};

template <class T, class R, class C, class... A> overload wrap(R (C::*f)(A...)) { return invoker<R, T&, A...>::make([f](T& t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }); }
template <class T, class R, class C, class... A> overload wrap(R (C::*f)(A...) const) { return invoker<R, const T&, A...>::make([f](const T& t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }); }
template <class T, class R, class... A> overload wrap(R (*f)(A...)) { return invoker<R, A...>::make(f); }
template <class T, class F, class = decltype(&F::operator())> overload wrap(F f) { typedef signature<F> S; return from_tuple<typename S::result, typename S::args>::make(f); }

template <class... A> struct init_ctor {};
template <class F> struct init_factory { F f; };
template <class... A> init_ctor<A...> init() { return init_ctor<A...>(); }
template <class F> init_factory<F> init(F f) { return init_factory<F>{f}; }
template <class T> std::shared_ptr<T> own(T* p) { return std::shared_ptr<T>(p); }
template <class T> std::shared_ptr<T> own(std::unique_ptr<T> p) { return std::shared_ptr<T>(std::move(p)); }
template <class T> std::shared_ptr<T> own(std::shared_ptr<T> p) { return p; }
template <class T> std::shared_ptr<T> own(T v) { return std::make_shared<T>(std::move(v)); }
template <class T> object instance(std::shared_ptr<T> p) { object o; o.kind = object::INST; o.hold = p; o.ptr = p.get(); o.type = typeid(T); return o; }

template <class T, class... O> class class_ {
public:
    std::shared_ptr<type_entry> e; module_* m;
    template <class... X> class_(module_& m_, const char* n, const X&...) : e(std::make_shared<type_entry>()), m(&m_) {
        e->name = n; e->type = typeid(T);
        if (registered().count(e->type)) throw import_error(std::string("type already registered: ") + n);
        if (m->classes.count(n)) throw import_error(std::string("name already in use: ") + n);
        registered()[e->type] = e; m->classes[n] = e;
    }
    template <class... X> void add(const std::string& n, overload v, bool self, const X&... x) {
        if (self) { argument a; a.name = "self"; v.args.push_back(a); }
        int dummy[] = {0, (annotate(v.args, x), 0)...}; (void) dummy; v.method = self;
        if (v.args.size() > (self ? 1u : 0u) && v.args.size() != v.n) throw import_error(e->name + "." + n + ": the number of named arguments does not match the function");
        e->methods[n].push_back(v);
    }
    template <class F, class... X> class_& def(const char* n, F f, const X&... x) { add(n, wrap<T>(f), true, x...); return *this; }
    template <class... A, class... X> class_& def(init_ctor<A...>, const X&... x) { add("__init__", invoker<std::shared_ptr<T>, A...>::make([](A... a) { return std::make_shared<T>(std::forward<A>(a)...); }), false, x...); return *this; }
    template <class F, class... X> class_& def(init_factory<F> i, const X&... x) { typedef signature<F> S; add_factory(i.f, (typename S::args*) nullptr, x...); return *this; }
    template <class F, class... A, class... X> void add_factory(F f, std::tuple<A...>*, const X&... x) { add("__init__", invoker<std::shared_ptr<T>, A...>::make([f](A... a) { return own<T>(f(std::forward<A>(a)...)); }), false, x...); }
    template <class C, class D, class... X> class_& def_readonly(const char* n, D C::*p, const X&...) {
        attribute a; a.get = [p](const object& o) { object r = caster<D>::byref(((T*) o.ptr)->*p); r.hold = o.hold; return r; }; e->attributes[n] = a; return *this; }
    template <class C, class D, class... X> class_& def_readwrite(const char* n, D C::*p, const X&...) {
        attribute a; a.get = [p](const object& o) { object r = caster<D>::byref(((T*) o.ptr)->*p); if (r.kind == object::INST) r.hold = o.hold; return r; };
        a.set = [p](const object& o, const object& v) { caster<D> c; if (!c.load(v, true)) return false; ((T*) o.ptr)->*p = c.ref(); return true; }; e->attributes[n] = a; return *this; }
    template <class F, class... X> class_& def_property_readonly(const char* n, F f, const X&...) { overload v = wrap<T>(f); attribute a; a.get = [v](const object& o) { object r; if (!v.call(objects{o}, {true}, r)) throw type_error("property"); return r; }; e->attributes[n] = a; return *this; }
    template <class F, class G, class... X> class_& def_property(const char* n, F f, G g, const X&... x) { def_property_readonly(n, f, x...); overload v = wrap<T>(g); e->attributes[n].set = [v](const object& o, const object& w) { object r; return v.call(objects{o, w}, {true, true}, r); }; return *this; }
    template <class F, class... X> class_& def_static(const char* n, F f, const X&... x) { add(n, wrap<T>(f), false, x...); return *this; }
};
template <class T> struct caster<std::shared_ptr<T>, void> {
    static object byvalue(const std::shared_ptr<T>& p) { return caster<T>::check(instance(p)); }
};

// ---- calling ------------------------------------------------------------------------------
typedef std::map<std::string, object> kwargs;
inline object call(const type_entry& t, const std::string& n, const objects& pos, const kwargs& kw = kwargs())
{
    auto it = t.methods.find(n); if (it == t.methods.end()) throw attribute_error(t.name + " has no attribute " + n);
    const std::vector<overload>& v = it->second;
    for (int pass = v.size() > 1 ? 0 : 1; pass < 2; pass++) for (const overload& o : v) {
        if (pos.size() > o.n) continue;
        objects a = pos; std::vector<bool> conv; bool ok = true; size_t used = 0;
        if (!o.args.empty() && o.args.size() == o.n) {
            for (size_t k = 0; k < pos.size(); k++) if (kw.count(o.args[k].name)) ok = false;
            for (size_t k = pos.size(); k < o.n && ok; k++) { auto q = kw.find(o.args[k].name); if (q != kw.end()) { a.push_back(q->second); used++; } else if (o.args[k].hasDefault) a.push_back(o.args[k].value); else ok = false; }
            for (size_t k = 0; k < o.n; k++) conv.push_back(pass && !o.args[k].noconvert);
        }
        else { conv.assign(o.n, pass != 0); }
        if (!ok || used != kw.size() || a.size() != o.n) continue;
        object out; if (o.call(a, conv, out)) return out;
    }
    throw type_error(t.name + "." + n + ": incompatible function arguments");
}

}

#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_MODULE(n, m) static void verif_init_##n(pybind11::module_&); extern "C" void verif_pybind_init(pybind11::module_& v) { verif_init_##n(v); } static void verif_init_##n(pybind11::module_& m)
#endif
