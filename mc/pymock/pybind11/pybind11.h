// Stand-in for pybind11 (not installed here): records what a module exports, and calls it the way Python would.
#pragma once
#include <cstddef>
#include <eigen3/Eigen/Dense>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace pymock {
struct Val { enum Kind { None, Array, Str, Num } k = None; Eigen::MatrixXd m; std::string s; double d = 0; };
struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };
struct Def { std::string name, doc; int nargs = 0; bool is_static = false; std::vector<std::string> argname; std::vector<bool> has_default; std::vector<Val> deflt; std::function<Val(void*, const std::vector<Val>&)> call; };
struct Class { std::string name; std::function<void*()> make; std::function<void*(void*)> clone; std::function<void(void*)> destroy; std::vector<Def> defs; };
struct Module { std::string name, doc; std::vector<Class> classes; };

template <class T> struct dec { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
template <class T, class = void> struct Conv;
template <> struct Conv<std::string> { static std::string from(const Val& v) { if (v.k != Val::Str) throw TypeError("text expected"); return v.s; } static Val to(const std::string& s) { Val v; v.k = Val::Str; v.s = s; return v; } };
template <class T> struct Conv<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> { static T from(const Val& v) { if (v.k != Val::Num) throw TypeError("number expected"); return (T)v.d; } static Val to(T x) { Val v; v.k = Val::Num; v.d = (double)x; return v; } };
template <class T> struct Conv<T, typename std::enable_if<std::is_base_of<Eigen::DenseBase<T>, T>::value>::type> {
  static T from(const Val& v) { if (v.k != Val::Array) throw TypeError("array expected"); if ((T::RowsAtCompileTime != Eigen::Dynamic && T::RowsAtCompileTime != v.m.rows()) || (T::ColsAtCompileTime != Eigen::Dynamic && T::ColsAtCompileTime != v.m.cols())) throw TypeError("array of another shape expected"); return T(v.m.template cast<typename T::Scalar>()); }
  static Val to(const T& x) { Val v; v.k = Val::Array; v.m = x.template cast<double>(); return v; } };
template <class T> struct Conv<std::vector<T>> { static std::vector<T> from(const Val& v) { if (v.k != Val::Array) throw TypeError("list expected"); return std::vector<T>(v.m.data(), v.m.data() + v.m.size()); } static Val to(const std::vector<T>& x) { Val v; v.k = Val::Array; v.m.resize(x.size(), 1); for (size_t i = 0; i < x.size(); i++) v.m(i, 0) = x[i]; return v; } };
template <class R> struct Ret { template <class F> static Val run(F&& f) { return Conv<typename dec<R>::type>::to(f()); } };
template <> struct Ret<void> { template <class F> static Val run(F&& f) { f(); return Val(); } };
template <class... A> struct Pack {};
}  // namespace pymock
namespace pybind11 {
using pymock::Def; using pymock::Val;
struct arg_v { std::string name; Val value; };
struct arg { std::string name; explicit arg(const char* n) : name(n) {} arg& noconvert(bool = true) { return *this; } arg& none(bool = true) { return *this; }
  template <class T> arg_v operator=(T&& x) const { arg_v a; a.name = name; a.value = pymock::Conv<typename pymock::dec<T>::type>::to(x); return a; } arg_v operator=(const char* s) const { arg_v a; a.name = name; a.value = pymock::Conv<std::string>::to(s); return a; } };
template <class... A> struct init {};
struct options { options& disable_function_signatures() { return *this; } options& disable_user_defined_docstrings() { return *this; } };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <class... G> struct call_guard {}; struct gil_scoped_release {}; struct gil_scoped_acquire {};
struct doc { std::string s; explicit doc(const char* x) : s(x) {} };
namespace literals { inline arg operator"" _a(const char* n, size_t) { return arg(n); } }
struct module_ { pymock::Module* m; std::string& doc() { return m->doc; } struct Attr { template <class T> void operator=(const T&) {} }; Attr attr(const char*) { return Attr(); } };
typedef module_ module;

inline void extra_(Def& d, const char* s) { d.doc = s; }
inline void extra_(Def& d, const std::string& s) { d.doc = s; }
inline void extra_(Def& d, const doc& s) { d.doc = s.s; }
inline void extra_(Def& d, const arg& a) { d.argname.push_back(a.name); d.has_default.push_back(false); d.deflt.push_back(Val()); }
inline void extra_(Def& d, const arg_v& a) { d.argname.push_back(a.name); d.has_default.push_back(true); d.deflt.push_back(a.value); }
inline void extra_(Def&, return_value_policy) {}
template <class... G> void extra_(Def&, const call_guard<G...>&) {}
inline void extras_(Def&) {}
template <class E, class... R> void extras_(Def& d, const E& e, const R&... r) { extra_(d, e); extras_(d, r...); }
template <class T, class...> class class_ {
  pymock::Module* mod; size_t id;
  pymock::Class& c() { return mod->classes[id]; }
  template <class R, class... A, class F, size_t... I> static std::function<Val(void*, const std::vector<Val>&)> caller(F f, std::index_sequence<I...>) { return [f](void* self, const std::vector<Val>& v) -> Val { (void)v; return pymock::Ret<R>::run([&]() -> R { return f(*(T*)self, pymock::Conv<typename pymock::dec<A>::type>::from(v[I])...); }); }; }
  template <class R, class... A, class F, class... X> class_& add(const char* name, F f, const X&... x) { Def d; d.name = name; d.nargs = sizeof...(A); d.call = caller<R, A...>(f, std::index_sequence_for<A...>()); extras_(d, x...); if (!d.argname.empty() && (int)d.argname.size() != d.nargs) throw std::logic_error(std::string(name) + ": number of argument names differs from the number of arguments"); c().defs.push_back(d); return *this; }
  template <class L, class R, class S, class... A, class... X> class_& lambda(const char* name, L l, R (L::*)(S, A...) const, const X&... x) { return add<R, A...>(name, [l](T& t, A... a) -> R { return l(static_cast<S>(t), a...); }, x...); }
 public:
  class_(module_& m, const char* name) : mod(m.m) { pymock::Class k; k.name = name; k.clone = [](void* p) -> void* { return new T(*(T*)p); }; k.destroy = [](void* p) { delete (T*)p; }; mod->classes.push_back(k); id = mod->classes.size() - 1; }
  template <class... X> class_(module_& m, const char* name, const X&...) : class_(m, name) {}
  template <class... X> class_& def(init<>, const X&...) { c().make = []() -> void* { return new T(); }; return *this; }
  template <class A0, class... A, class... X> class_& def(init<A0, A...>, const X&...) { return *this; }
  template <class R, class C, class... A, class... X> class_& def(const char* name, R (C::*f)(A...), const X&... x) { return add<R, A...>(name, [f](T& t, A... a) -> R { return (t.*f)(a...); }, x...); }
  template <class R, class C, class... A, class... X> class_& def(const char* name, R (C::*f)(A...) const, const X&... x) { return add<R, A...>(name, [f](T& t, A... a) -> R { return (t.*f)(a...); }, x...); }
  template <class R, class S, class... A, class... X> class_& def(const char* name, R (*f)(S, A...), const X&... x) { return add<R, A...>(name, [f](T& t, A... a) -> R { return f(static_cast<S>(t), a...); }, x...); }
  template <class L, class... X, class = decltype(&L::operator())> class_& def(const char* name, L l, const X&... x) { return lambda(name, l, &L::operator(), x...); }
  template <class D, class... X> class_& def_readonly(const char*, D, const X&...) { return *this; }
  template <class D, class... X> class_& def_readwrite(const char*, D, const X&...) { return *this; }
  template <class D, class... X> class_& def_property_readonly(const char*, D, const X&...) { return *this; }
};
}  // namespace pybind11
#define PYBIND11_MODULE(modname_, var, ...) \
  static void pymock_body_##modname_(pybind11::module_&); \
  extern "C" void pymock_module_##modname_(pymock::Module* m) { m->name = #modname_; pybind11::module_ w; w.m = m; pymock_body_##modname_(w); } \
  static void pymock_body_##modname_(pybind11::module_& var)
