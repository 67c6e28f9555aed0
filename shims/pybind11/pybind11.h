// Stand-in for the part of pybind11 that python/bindings.cpp uses (pybind11 and numpy's headers
// are not in the sandbox): a module is a registry of classes, a class a registry of constructors
// and methods with their argument names and defaults, called from C++ the way the interpreter
// would call them (positional arguments first, then defaults).
#ifndef VERIF_PYBIND11
#define VERIF_PYBIND11
#include <any>
#include <cstddef>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace pybind11 {
  typedef std::ptrdiff_t ssize_t;
  class array { public: enum { c_style=1, f_style=2, forcecast=16 }; };
  template<class T,int F=array::forcecast> class array_t : public array {
    std::vector<ssize_t> sh; std::shared_ptr<std::vector<T>> d;
    void make(){ size_t n=1; for(auto s: sh) n*=s; d=std::make_shared<std::vector<T>>(n); }
  public:
    array_t(){ sh={0}; make(); }
    array_t(const std::vector<ssize_t>&s):sh(s){ make(); }
    template<class S> array_t(std::initializer_list<S> s){ for(auto x: s) sh.push_back((ssize_t)x); make(); }
    template<int G> array_t(const array_t<T,G>&o):sh(o.shape_(),o.shape_()+o.ndim()){ make(); for(size_t i=0;i<d->size();i++) (*d)[i]=o.data()[i]; }
    ssize_t ndim() const { return sh.size(); } ssize_t shape(ssize_t i) const { return sh.at(i); } const ssize_t*shape_() const { return sh.data(); }
    ssize_t size() const { return d->size(); }
    const T*data() const { return d->data(); } T*mutable_data(){ return d->data(); }
    T at(const std::vector<ssize_t>&i) const { size_t k=0; for(size_t q=0;q<sh.size();q++) k=k*sh[q]+i[q]; return (*d).at(k); }
    template<int N> struct view { array_t*a; template<class...I> T&operator()(I...i) const { static_assert(sizeof...(I)==N); ssize_t v[N]={(ssize_t)i...}; size_t k=0; for(int q=0;q<N;q++) { if(v[q]<0||v[q]>=a->sh[q]) throw std::out_of_range("array index"); k=k*a->sh[q]+v[q]; } return (*a->d).at(k); }
      ssize_t shape(ssize_t i) const { return a->shape(i); } };
    template<int N> view<N> mutable_unchecked(){ if((ssize_t)N!=ndim()) throw std::domain_error("array has incorrect number of dimensions"); return view<N>{this}; }
    template<int N> view<N> unchecked() const { return const_cast<array_t*>(this)->template mutable_unchecked<N>(); }
  };
  class list { std::vector<std::any> v; public: template<class T> void append(T&&x){ v.push_back(std::any(std::decay_t<T>(std::forward<T>(x)))); } size_t size() const { return v.size(); } const std::any&at(size_t i) const { return v.at(i); } };
  struct arg { std::string name; bool has=false; std::any def; explicit arg(const char*n):name(n){} template<class T> arg operator=(T x) const { arg a(*this); a.has=true; a.def=std::any(x); return a; } };
  template<class...A> struct init {};
  // a registered callable: the typed target and the declared arguments
  struct Function { std::any fn; std::vector<arg> args; };
  struct Class { std::string name; std::map<std::string,Function> defs; };
  struct module_ { std::string doc_; std::map<std::string,Class> classes; std::string&doc(){ return doc_; } };
  inline void extra(Function&f,const arg&a){ f.args.push_back(a); } template<class T> void extra(Function&,const T&){}
  template<class C> class class_ { Class*c; public:
    class_(module_&m,const char*n,const char*doc=""){ c=&m.classes[n]; c->name=n; }
    template<class...A,class...X> class_&def(init<A...>,const X&...x){ Function f; f.fn=std::function<std::shared_ptr<C>(A...)>([](A...a){ return std::make_shared<C>(a...); }); (extra(f,x),...); c->defs["__init__"]=f; return *this; }
    template<class R,class...A,class...X> class_&def(const char*n,R(C::*m)(A...),const X&...x){ Function f; f.fn=std::function<R(C&,A...)>([m](C&o,A...a){ return (o.*m)(a...); }); (extra(f,x),...); c->defs[n]=f; return *this; }
    template<class R,class...A,class...X> class_&def(const char*n,R(C::*m)(A...) const,const X&...x){ Function f; f.fn=std::function<R(C&,A...)>([m](C&o,A...a){ return (o.*m)(a...); }); (extra(f,x),...); c->defs[n]=f; return *this; }
  };
  // call by position; the tail is taken from the declared defaults
  template<class A> A pick(const Function&f,size_t i,const std::vector<std::any>&pos){ const std::any*a; if(i<pos.size()) a=&pos[i]; else { if(i>=f.args.size()||!f.args[i].has) throw std::invalid_argument("missing argument"); a=&f.args[i].def; }
    typedef std::decay_t<A> D; if(auto p=std::any_cast<D>(a)) return *p; if constexpr(std::is_arithmetic_v<D>) { if(auto p=std::any_cast<int>(a)) return (D)*p; if(std::is_floating_point_v<D>) if(auto p=std::any_cast<double>(a)) return (D)*p; if(auto p=std::any_cast<size_t>(a)) return (D)*p; } throw std::invalid_argument("argument type"); }
}
#define PYBIND11_MODULE(name,m) void verif_py_module(pybind11::module_&m)
#endif
