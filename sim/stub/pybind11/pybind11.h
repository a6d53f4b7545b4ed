// The part of pybind11 that ALTA's Python module uses, registering into simpy::Table instead of CPython.
#pragma once
#include "../pyval.h"
#include <cstring>
#include <tuple>
#include <type_traits>
#include <utility>
namespace pybind11 {
using simpy::Val; using simpy::Args;
struct index_error : std::runtime_error { index_error(const std::string& m = "index") : std::runtime_error(m) {} };
struct value_error : std::runtime_error { value_error(const std::string& m = "value") : std::runtime_error(m) {} };
struct type_error : std::runtime_error { type_error(const std::string& m = "type") : std::runtime_error(m) {} };
struct key_error : std::runtime_error { key_error(const std::string& m = "key") : std::runtime_error(m) {} };
struct str { std::string s; str(const Val& v) : s(v.kind == Val::STR ? v.s : v.kind == Val::NUM ? std::to_string(v.num) : "") {} str(const std::string& x) : s(x) {} str(const char* x) : s(x) {} operator std::string() const { return s; } };
struct dict { std::vector<std::pair<Val, Val>> d; Val& operator[](const str& k) { for (auto& e : d) if (e.first.s == k.s) return e.second; d.push_back(std::make_pair(Val(k.s), Val())); return d.back().second; } std::vector<std::pair<Val, Val>>::const_iterator begin() const { return d.begin(); } std::vector<std::pair<Val, Val>>::const_iterator end() const { return d.end(); } size_t size() const { return d.size(); } };
namespace detail {
template <class T> struct is_sp : std::false_type {}; template <class T> struct is_sp<std::shared_ptr<T>> : std::true_type {};
template <class T, class E = void> struct caster {                                 // a registered class, by value or reference
  std::shared_ptr<T> p; bool load(const Val& v) { p = v.get<T>(); return (bool)p; } T& ref() { return *p; } static Val out(const T& x) { return Val::copy(x); } };
template <class T> struct caster<T, typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> { T x; bool load(const Val& v) { if (v.kind != Val::NUM) return false; if (std::is_unsigned<T>::value && v.num < 0) return false; x = (T)(typename std::conditional<std::is_enum<T>::value, long, T>::type)v.num; return true; } T& ref() { return x; } static Val out(const T& y) { return Val((double)y); } };
template <> struct caster<std::string> { std::string x; bool load(const Val& v) { if (v.kind != Val::STR) return false; x = v.s; return true; } std::string& ref() { return x; } static Val out(const std::string& y) { return Val(y); } };
template <> struct caster<dict> { dict x; bool load(const Val& v) { if (v.kind != Val::DICT) return false; x.d = v.d; return true; } dict& ref() { return x; } static Val out(const dict& y) { Val v; v.kind = Val::DICT; v.d = y.d; return v; } };
template <class T> struct caster<std::shared_ptr<T>> { typedef typename std::remove_const<T>::type U; std::shared_ptr<T> x; bool load(const Val& v) { if (v.kind == Val::NONE) { x.reset(); return true; } x = v.get<U>(); return (bool)x; } std::shared_ptr<T>& ref() { return x; } static Val out(const std::shared_ptr<T>& y) { return Val::obj(std::const_pointer_cast<U>(y)); } };
template <class T> struct caster<T*> { typedef typename std::remove_const<T>::type U; std::shared_ptr<U> h; T* x = nullptr; bool load(const Val& v) { if (v.kind == Val::NONE) { x = nullptr; return true; } h = v.get<U>(); x = h.get(); return (bool)h; } T*& ref() { return x; } static Val out(T* y) { return Val::obj(std::shared_ptr<U>(const_cast<U*>(y))); } };
template <> struct caster<const char*> { std::string s; const char* x; bool load(const Val& v) { if (v.kind != Val::STR) return false; s = v.s; x = s.c_str(); return true; } const char*& ref() { return x; } static Val out(const char* y) { return Val(y); } };
template <class A> using bare = typename std::remove_cv<typename std::remove_reference<A>::type>::type;
template <size_t... I> struct seq {}; template <size_t N, size_t... I> struct mk : mk<N - 1, N - 1, I...> {}; template <size_t... I> struct mk<0, I...> { typedef seq<I...> type; };
template <class R> struct run { template <class F, class... X> static Val go(F& f, X&&... x) { return caster<bare<R>>::out(f(std::forward<X>(x)...)); } };
template <> struct run<void> { template <class F, class... X> static Val go(F& f, X&&... x) { f(std::forward<X>(x)...); return Val(); } };
inline bool all(std::initializer_list<bool> l) { for (bool b : l) if (!b) return false; return true; }
template <class F, class R, class... A, size_t... I> simpy::Overload make(F f, seq<I...>) {
  simpy::Overload o; o.arity = sizeof...(A);
  o.f = [f](Args& a, Val& r) mutable { std::tuple<caster<bare<A>>...> c; (void)c; if (!all({true, std::get<I>(c).load(a[I])...})) return false; r = run<R>::go(f, static_cast<typename std::add_lvalue_reference<bare<A>>::type>(std::get<I>(c).ref())...); return true; };
  return o;
}
template <class R, class... A> simpy::Overload wrap(R (*f)(A...)) { return make<R (*)(A...), R, A...>(f, typename mk<sizeof...(A)>::type()); }
template <class F, class R, class C, class... A> simpy::Overload wrap_l(F f, R (C::*)(A...) const) { return make<F, R, A...>(f, typename mk<sizeof...(A)>::type()); }
template <class F> auto wrap(F f) -> decltype(wrap_l(f, &F::operator())) { return wrap_l(f, &F::operator()); }
template <class T, class R, class C, class... A> simpy::Overload wrap_m(R (C::*m)(A...)) { auto f = [m](T& s, A... a) -> R { return (s.*m)(std::forward<A>(a)...); }; return make<decltype(f), R, T&, A...>(f, typename mk<1 + sizeof...(A)>::type()); }
template <class T, class R, class C, class... A> simpy::Overload wrap_m(R (C::*m)(A...) const) { auto f = [m](T& s, A... a) -> R { return (s.*m)(std::forward<A>(a)...); }; return make<decltype(f), R, T&, A...>(f, typename mk<1 + sizeof...(A)>::type()); }
template <class T, class F> typename std::enable_if<std::is_member_function_pointer<F>::value, simpy::Overload>::type method(F f) { return wrap_m<T>(f); }
template <class T, class F> typename std::enable_if<!std::is_member_function_pointer<F>::value, simpy::Overload>::type method(F f) { return wrap(f); }
}
struct arg_v { Val v; };
struct arg { const char* n; arg(const char* x) : n(x) {} template <class T> arg_v operator=(const T& x) const { return arg_v{conv(x)}; } static Val conv(const char* x) { return Val(x); } static Val conv(const std::string& x) { return Val(x); } static Val conv(double x) { return Val(x); } static Val conv(int x) { return Val(x); } template <class T> static typename std::enable_if<std::is_class<T>::value && !std::is_same<T, std::string>::value, Val>::type conv(const T& x) { return Val::copy(x); } };
namespace detail {
inline void extra(simpy::Overload&) {} template <class... R> void extra(simpy::Overload& o, const arg_v& a, R&&... r); template <class X, class... R> void extra(simpy::Overload& o, const X&, R&&... r) { extra(o, std::forward<R>(r)...); }
template <class... R> void extra(simpy::Overload& o, const arg_v& a, R&&... r) { o.defaults.push_back(a.v); extra(o, std::forward<R>(r)...); }
template <class... A> struct ctor {}; template <class F> struct factory { F f; };
}
template <class... A> detail::ctor<A...> init() { return detail::ctor<A...>(); }
template <class F> detail::factory<F> init(F f) { return detail::factory<F>{f}; }
struct module_ {
  simpy::Table* t; std::string d; explicit module_(simpy::Table* x) : t(x) {} std::string& doc() { return d; }
  template <class F, class... X> module_& def(const char* n, F f, const X&... x) { simpy::Overload o = detail::wrap(f); detail::extra(o, x...); t->f[n].push_back(o); return *this; }
};
typedef module_ module;
template <class T, class... O> struct class_ {
  simpy::Table* t; std::string n; class_(module_& m, const char* x) : t(m.t), n(x) {}
  template <class F, class... X> class_& def(const char* m, F f, const X&... x) { simpy::Overload o = detail::method<T>(f); detail::extra(o, x...); t->f[n + "." + m].push_back(o); return *this; }
  template <class... A, class... X> class_& def(detail::ctor<A...>, const X&...) { T (*f)(A...) = &mk<A...>; t->f[n].push_back(detail::wrap(f)); return *this; }
  template <class F, class... X> class_& def(detail::factory<F> f, const X&...) { t->f[n].push_back(detail::wrap(f.f)); return *this; }
  template <class... A> static T mk(A... a) { return T(a...); }
};
template <class T> struct enum_ { enum_(module_&, const char*) {} template <class... X> enum_& value(const char*, T, const X&...) { return *this; } enum_& export_values() { return *this; } };
}
#define PYBIND11_MODULE(name, m) static void sim_register(pybind11::module_& m); extern "C" __attribute__((visibility("default"))) int main(int, char** out) { auto* t = new simpy::Table; pybind11::module_ q(t); sim_register(q); *(simpy::Table**)out = t; return 0; } static void sim_register(pybind11::module_& m)
