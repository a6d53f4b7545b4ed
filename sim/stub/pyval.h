// Values that cross the Python boundary, and the table of what a module registers. Stands in for CPython and pybind11.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <typeinfo>
#include <type_traits>
#include <vector>
namespace simpy {
struct Val {
  enum Kind { NONE, NUM, STR, OBJ, DICT } kind = NONE; double num = 0; std::string s; std::shared_ptr<void> p; std::string type; std::vector<std::pair<Val, Val>> d;
  Val() {} Val(double x) : kind(NUM), num(x) {} Val(int x) : kind(NUM), num(x) {} Val(const std::string& x) : kind(STR), s(x) {} Val(const char* x) : kind(STR), s(x) {}
  template <class T, class = typename std::enable_if<std::is_class<T>::value && !std::is_same<T, Val>::value && !std::is_convertible<T, std::string>::value>::type> Val(const T& x) { *this = copy(x); }
  template <class T> static Val obj(std::shared_ptr<T> q) { Val v; if (!q) return v; v.kind = OBJ; v.p = std::static_pointer_cast<void>(std::const_pointer_cast<typename std::remove_const<T>::type>(q)); v.type = typeid(T).name(); return v; }
  template <class T> static Val copy(const T& x) { return obj(std::shared_ptr<T>(new T(x))); }
  template <class T> std::shared_ptr<T> get() const { return kind == OBJ && type == typeid(T).name() ? std::static_pointer_cast<T>(p) : std::shared_ptr<T>(); }
};
typedef std::vector<Val> Args;
struct Overload { size_t arity; std::vector<Val> defaults; std::function<bool(Args&, Val&)> f; };   // false: the arguments do not fit
struct Table { std::map<std::string, std::vector<Overload>> f; };
struct TypeError : std::runtime_error { TypeError(const std::string& n) : std::runtime_error("TypeError: " + n) {} };
inline Val call(Table& t, const std::string& name, Args a) {
  auto it = t.f.find(name); if (it == t.f.end()) throw TypeError(name + " is not defined");
  for (auto& o : it->second) { Args b = a; if (b.size() > o.arity) continue; size_t miss = o.arity - b.size(); if (miss > o.defaults.size()) continue; for (size_t i = o.defaults.size() - miss; i < o.defaults.size(); ++i) b.push_back(o.defaults[i]); Val r; if (o.f(b, r)) return r; }
  throw TypeError(name + ": incompatible arguments");
}
}
