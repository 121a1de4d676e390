// In-memory stand-in for yaml-cpp: a flat key -> number map; the emitted document is what LoadFile returns.
#ifndef YAML_STUB_H
#define YAML_STUB_H
#include <string>
#include <vector>
#include <ostream>
#include <filesystem>
#include <type_traits>
namespace YAML {
struct Val { std::string key; bool is_real=false; bool set=false; long i=0; double d=0; };
struct Doc { std::vector<Val*> vals; };
inline Doc*& last_doc() { static Doc* d=nullptr; return d; }
struct Ref { Val* v;
  template<class T> Ref& operator=(T x) { v->set=true; if constexpr (std::is_floating_point<T>::value) { v->is_real=true; v->d=x; } else { v->is_real=false; v->i=(long)x; } return *this; }
  template<class T> T as() const { if(!v->set) throw 1; if constexpr (std::is_floating_point<T>::value) { return v->is_real ? (T)v->d : (T)v->i; } else { if(v->is_real) throw 2; return (T)v->i; } } };
struct Node { Doc* doc; Node():doc(new Doc){}
  Ref operator[](const char* k) { for(Val*v:doc->vals) if(v->key==k) return Ref{v}; Val*v=new Val; v->key=k; doc->vals.push_back(v); return Ref{v}; } };
inline std::ostream& operator<<(std::ostream& o, const Node& n) { last_doc()=n.doc; return o; }
inline Node LoadFile(const std::string&) { Node n; if(last_doc()) n.doc=last_doc(); return n; }
}
#endif
