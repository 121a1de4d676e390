// Minimal stand-in for pybind11: captures the binding table; a bound function is called with Python-like values (Arg), which are
// converted to the parameter types by position, and its result is converted back. "model.to_ptr" passes a native pointer through.
#ifndef PYBIND11_STUB_H
#define PYBIND11_STUB_H
#include <filesystem>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
struct PyObject { void* p; };
inline void* PyCapsule_GetPointer(PyObject* o, const char*) { return o->p; }
inline PyObject* PyCapsule_New(void* p, const char*, void*) { PyObject* o = new PyObject; o->p = p; return o; }
namespace pybind11 {
class object { public: PyObject* o = nullptr; object() {} object(PyObject* x) : o(x) {}
  object attr(const char*) const { return *this; }
  template<class... A> object operator()(A...) const { return *this; }
  PyObject* ptr() const { return o; } };
typedef object handle;
struct bool_ { bool b; bool_(bool x) : b(x) {} };
template<class T> T reinterpret_borrow(PyObject* o) { return T(o); }
struct module { static object import(const char*) { return object(); } };
struct arg { const char* n; arg(const char* x) : n(x) {} template<class T> arg operator=(T&&) const { return *this; } };
// a Python value
struct Arg { enum K { INT, REAL, STR, OBJ, PAIRS, LIST, EDGEMAP, MAP } k = INT; long i = 0; double d = 0; std::string s; object o;
  std::vector<std::pair<long,long>> pairs; std::vector<long> list; std::vector<std::pair<std::pair<long,long>,long>> emap;
  Arg() {} Arg(int x) : i(x) {} Arg(long x) : i(x) {} Arg(bool x) : i(x) {} Arg(double x) : k(REAL), d(x) {} Arg(std::string x) : k(STR), s(x) {} Arg(const char* x) : k(STR), s(x) {} Arg(object x) : k(OBJ), o(x) {} };
typedef Arg Value;
struct type_error : std::runtime_error { type_error() : std::runtime_error("incompatible function arguments") {} };
template<class...> struct mkvoid { typedef void type; };
template<class T, class E = void> struct conv;
template<class T> struct conv<T, std::enable_if_t<std::is_integral<T>::value>> { static T to(Arg& a) { if (a.k != Arg::INT) throw type_error(); return (T)a.i; } static Arg from(T x) { return Arg((long)x); } };
template<class T> struct conv<T, std::enable_if_t<std::is_floating_point<T>::value>> { static T to(Arg& a) { if (a.k == Arg::INT) return (T)a.i; if (a.k != Arg::REAL) throw type_error(); return (T)a.d; } static Arg from(T x) { return Arg((double)x); } };
template<> struct conv<std::string> { static std::string to(Arg& a) { if (a.k != Arg::STR) throw type_error(); return a.s; } static Arg from(std::string x) { return Arg(x); } };
template<> struct conv<std::filesystem::path> { static std::filesystem::path to(Arg& a) { if (a.k != Arg::STR) throw type_error(); return a.s; } };
template<> struct conv<object> { static object to(Arg& a) { return a.o; } static Arg from(object x) { return Arg(x); } };
template<class A, class B> struct conv<std::pair<A,B>> { static std::pair<A,B> of(long x, long y) { return std::pair<A,B>((A)x, (B)y); } };
template<class T> struct is_pair : std::false_type {}; template<class A, class B> struct is_pair<std::pair<A,B>> : std::true_type {};
template<class C> struct conv<C, typename mkvoid<decltype(std::declval<C&>().push_back(std::declval<typename C::value_type>()))>::type> { typedef typename C::value_type V;
  static C to(Arg& a) { C c; if constexpr (is_pair<V>::value) { if (a.k != Arg::PAIRS && !(a.k == Arg::LIST && a.list.empty())) throw type_error(); for (auto& p : a.pairs) c.push_back(V((typename V::first_type)p.first, (typename V::second_type)p.second)); } else { if (a.k != Arg::LIST && !(a.k == Arg::PAIRS && a.pairs.empty())) throw type_error(); for (auto x : a.list) c.push_back((V)x); } return c; }
  static Arg from(C c) { Arg a; if constexpr (is_pair<V>::value) { a.k = Arg::PAIRS; for (auto& p : c) a.pairs.push_back({(long)p.first, (long)p.second}); } else { a.k = Arg::LIST; for (auto x : c) a.list.push_back((long)x); } return a; } };
template<class C> struct conv<C, typename mkvoid<typename C::mapped_type>::type> { typedef typename C::key_type K; typedef typename C::mapped_type M;
  static C to(Arg& a) { C c; if constexpr (is_pair<K>::value) { if (a.k != Arg::EDGEMAP) throw type_error(); for (auto& p : a.emap) c[K((typename K::first_type)p.first.first, (typename K::second_type)p.first.second)] = (M)p.second; } else { if (a.k != Arg::MAP) throw type_error(); for (auto& p : a.pairs) c[(K)p.first] = (M)p.second; } return c; } };
typedef std::function<Value(std::vector<Arg>&)> Fn;
template<class R, class... A, size_t... I> Fn wrapI(R (*f)(A...), std::index_sequence<I...>) { return [f](std::vector<Arg>& a) -> Value { if (a.size() != sizeof...(A)) throw type_error(); std::tuple<std::decay_t<A>...> t{conv<std::decay_t<A>>::to(a[I])...}; if constexpr (std::is_void<R>::value) { f(static_cast<A>(std::get<I>(t))...); return Value(); } else return conv<std::decay_t<R>>::from(f(static_cast<A>(std::get<I>(t))...)); }; }
template<class R, class... A> Fn wrap(R (*f)(A...)) { return wrapI(f, std::index_sequence_for<A...>{}); }
struct module_ { std::vector<std::pair<std::string, Fn>> defs;
  template<class F, class... X> module_& def(const char* n, F f, X...) { defs.push_back({n, wrap(+f)}); return *this; }
  Fn* find(const std::string& n) { for (auto& d : defs) if (d.first == n) return &d.second; return nullptr; } };
}
#define PYBIND11_MODULE(name, m) void pybind11_stub_init(pybind11::module_& m)
#endif
