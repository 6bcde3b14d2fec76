#ifndef VERIF_PYBIND_STL_BIND_H
#define VERIF_PYBIND_STL_BIND_H
#include "pybind11.h"
namespace pybind11 {
template <class V, class T> overload list_init()
{
    overload o; o.n = 1;
    o.call = [](const objects& a, const std::vector<bool>&, object& out) {
        if (a[0].kind != object::LIST) return false;
        std::shared_ptr<V> v = std::make_shared<V>();
        for (const object& x : a[0].list) { caster<T> c; if (!c.load(x, true)) return false; v->push_back(c.ref()); }
        out = instance(v); return true; };
    return o;
}
// elements of class type are handed out by reference, others by value
template <class V> object element(V& v, size_t i, std::true_type) { return caster<typename V::value_type>::byref(v[i]); }
template <class V> object element(V& v, size_t i, std::false_type) { typename V::value_type x = v[i]; return caster<typename V::value_type>::byvalue(x); }
template <class V> overload get_item()
{
    overload o; o.n = 2;
    o.call = [](const objects& a, const std::vector<bool>&, object& out) {
        caster<V> c; if (!c.load(a[0], true) || a[1].kind != object::INT || a[1].i < 0 || (size_t) a[1].i >= c.ref().size()) return false;
        out = element(c.ref(), (size_t) a[1].i, std::is_class<typename V::value_type>()); if (out.kind == object::INST && !out.hold) out.hold = a[0].hold; return true; };
    return o;
}
template <class V, class T> overload set_item()
{
    overload o; o.n = 3;
    o.call = [](const objects& a, const std::vector<bool>&, object&) {
        caster<V> c; caster<T> x; if (!c.load(a[0], true) || a[1].kind != object::INT || a[1].i < 0 || (size_t) a[1].i >= c.ref().size() || !x.load(a[2], true)) return false;
        c.ref()[(size_t) a[1].i] = x.ref(); return true; };
    return o;
}
template <class V, class... X> class_<V> bind_vector(module_& m, const char* n, const X&...)
{
    typedef typename V::value_type T;
    class_<V> c(m, n);
    c.def(init<>()).def(init<const V&>());
    c.add("__init__", list_init<V, T>(), false);
    c.def("append", [](V& v, const T& x) { v.push_back(x); });
    c.def("__len__", [](const V& v) { return v.size(); });
    c.add("__getitem__", get_item<V>(), true); c.add("__setitem__", set_item<V, T>(), true);
    return c;
}
}
#endif
