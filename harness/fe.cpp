// C02: the finite element space: layout, continuity, coordinates, assembly.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <FiniteElementBasis.h>
#include <lobatto.h>
#include <helfem.h>
#include <memory>
using namespace ref; namespace pb=helfem::polynomial_basis;
template<class T> const char* tn(); template<> const char* tn<double>(){return "d";} template<> const char* tn<long double>(){return "l";}
static std::vector<std::vector<LD>> grids(){ std::vector<std::vector<LD>> g{{0,1},{0,0.5L,2},{0,0.125L,1,4},{0,1,2,3,4},{1,1.5L,4},{-2,-0.5L,1,3.5L},{0,0.0625L,0.25L,1,3,9,20,40}};
  if(H.thorough()) { g.push_back({0,0.01L,0.1L,0.5L,1,2,4,8,16,32,64}); g.push_back({-8,-4,-2,-1,-0.5L,0,0.5L,1,2,4,8}); g.push_back({2,2.25L}); g.push_back({0,100}); } return g; }
template<class T> pb::FiniteElementBasisT<T> mk(int f,int nn,const std::vector<LD>&b,int bc){ auto p=std::shared_ptr<const pb::PolynomialBasisT<T>>(pb::get_basis_T<T>(f,nn)); helfem::Vec<T> v(b.size()); for(size_t i=0;i<b.size();i++) v(i)=(T)b[i]; return pb::FiniteElementBasisT<T>(p,v,bc&1,bc&2,bc&4,bc&8); }
// compare the whole layout of an implementation object with the reference space
template<class T> void layout(const pb::FiniteElementBasisT<T>&F,const FE&R,double eps,bool eval=true){
  H.step(); if(!H.ok((int)F.get_nelem()==R.nel(),"nelem",fmt("%d vs %d",(int)F.get_nelem(),R.nel()))) return;
  if(!H.ok((int)F.get_nbf()==R.nbf,"nbf",fmt("%d vs %d",(int)F.get_nbf(),R.nbf))) return;
  auto bv=F.get_bval(); for(int i=0;i<=R.nel();i++) H.close((LD)bv(i),R.bv[i],0,"bval");
  H.ok((int)F.get_max_nprim()==R.pr.nprim(),"max-nprim"); H.ok(F.get_poly_nnodes()==R.pr.nn,"nnodes"); H.ok(F.get_poly_id()==R.pr.pb,"polyid");
  for(int i=0;i<R.nel();i++){ size_t a,b; F.get_idx(i,a,b); int n=R.gl[i].size(); H.ok((int)F.get_nprim(i)==n,"nprim"); 
    if(n) { H.ok((int)a==R.gl[i].front()&&(int)b==R.gl[i].back(),"idx",fmt("el %d: %zu..%zu vs %d..%d",i,a,b,R.gl[i].front(),R.gl[i].back())); H.ok(b-a+1==(size_t)n,"idx-count"); }
    auto en=F.get_basis(i)->get_enabled(); H.ok(en.size()==n,"enabled"); for(int k=0;k<n&&k<en.size();k++) H.ok(en(k)==R.en[i][k],"enabled");
    LD sc=std::max(fabsl(R.bv[i]),fabsl(R.bv[i+1]));
    H.close((LD)F.element_begin(i),R.bv[i],0,"begin"); H.close((LD)F.element_end(i),R.bv[i+1],0,"end"); H.close((LD)F.element_length(i),2*R.e(i),4*eps*sc,"length"); H.close((LD)F.element_midpoint(i),(R.bv[i]+R.bv[i+1])/2,4*eps*sc,"midpoint"); H.close((LD)F.scaling_factor(i),R.e(i),4*eps*sc,"scaling"); }
  H.throws([&]{ F.element_begin(R.nel()); },"range"); H.throws([&]{ F.element_length(R.nel()); },"range"); H.throws([&]{ F.element_end(R.nel()); },"range");
  if(!eval||R.nbf==0) return;
  std::vector<LD> xs{-1,-0.7L,-0.25L,0,0.4L,0.9375L,1}; helfem::Vec<T> X(xs.size()); for(size_t i=0;i<xs.size();i++) X(i)=(T)xs[i];
  auto RC=F.eval_coord(X); helfem::Vec<T> W=X.array().abs()+T(1); auto WW=F.eval_weights(W); H.ok(RC.size()==X.size()*R.nel()&&WW.size()==RC.size(),"coord-size");
  for(int n=0;n<=2;n++){ helfem::Mat<T> G=F.eval_dnf(X,n); Mat E=Mat::Zero(X.size()*R.nel(),R.nbf); LD sc=0;
    for(int i=0;i<R.nel();i++) for(int q=0;q<X.size();q++){ auto v=R.ev((LD)X(q),i,n); for(size_t k=0;k<v.size();k++) { E(i*X.size()+q,R.gl[i][k])=v[k]; sc=std::max(sc,fabsl(v[k])); }
        if(n==0){ LD rr=R.r((LD)X(q),i); LD s=std::max(1.0L,fabsl(R.bv[i+1])); H.close((LD)RC(i*X.size()+q),rr,20*eps*s,"coord"); H.close((LD)F.eval_coord(X(q),i),rr,20*eps*s,"coord1"); H.close((LD)WW(i*X.size()+q),(LD)W(q)*R.e(i),20*eps*s,"weights"); } }
    H.mclose(G,E,1e5*eps*(double)(sc+1),"global-eval",fmt("n=%d",n));
    // inter-element continuity up to the contact order, on the implementation alone
    if(n<=R.pr.p) for(int i=0;i+1<R.nel();i++) for(int k=0;k<R.nbf;k++) H.close((LD)G(i*X.size()+X.size()-1,k),(LD)G((i+1)*X.size(),k),1e5*eps*(double)(sc+1),"continuity",fmt("n=%d el=%d fn=%d",n,i,k)); }
  for(int i=0;i<R.nel();i++){ helfem::Vec<T> rr=F.eval_coord(X,i); for(int q=0;q<rr.size();q++) { if(rr(q)<F.element_begin(i)) rr(q)=F.element_begin(i); if(rr(q)>F.element_end(i)) rr(q)=F.element_end(i); } auto xx=F.eval_prim(rr,i); H.mclose(xx,X,1e3*eps*(double)(1+fabsl(R.bv[i])/R.e(i)),"prim-inverse");
    helfem::Vec<T> o(1); o(0)=(T)(R.bv[i]-0.01L); H.throws([&]{ F.eval_prim(o,i); },"prim-outside"); o(0)=(T)(R.bv[i+1]+0.01L); H.throws([&]{ F.eval_prim(o,i); },"prim-outside");
    for(LD xq: xs) { LD rr=R.r(xq,i); size_t el=F.find_element((T)rr); H.ok(el<(size_t)R.nel()&&R.bv[el]<=rr&&rr<=R.bv[el+1],"find-element",fmt("r=%Lg got %zu",rr,el)); }
    // B/r
    if(R.bv[i]==0&&R.fl&&i==0){ for(int n=0;n<=2;n++){ auto O=F.eval_over_r(X,n,i); Mat E(X.size(),R.gl[i].size()); for(int q=0;q<X.size();q++){ auto v=R.evr((LD)X(q),i,n); for(size_t k=0;k<v.size();k++) E(q,k)=v[k]; } H.mclose(O,E,1e5*eps*(double)(E.cwiseAbs().maxCoeff()+1+1/ipow(R.e(i),n+1)),"over-r",fmt("n=%d",n)); } }
    else if(R.bv[i]!=0) H.throws([&]{ F.eval_over_r(X,0,i); },"over-r-offorigin"); }
}
template<class T> void cases(){ double eps=std::numeric_limits<T>::epsilon(); auto G=grids();
  for(int f: {3,4,5,8,9}) for(int nn=2;nn<=(f>=8?4:H.thorough()?8:5);nn++) for(size_t g=0;g<G.size();g++) for(int bc=0;bc<16;bc++){
    H.run(fmt("%s.layout.f%d.nn%d.g%zu.bc%d",tn<T>(),f,nn,g,bc),[=]{ auto F=mk<T>(f,nn,G[g],bc); FE R(f,nn,G[g],bc&1,bc&2,bc&4,bc&8); layout(F,R,eps); });
    if(bc!=0&&bc!=1&&bc!=5&&bc!=15) continue; if(G[g].size()>5&&nn>3) continue;
    H.run(fmt("%s.matel.f%d.nn%d.g%zu.bc%d",tn<T>(),f,nn,g,bc),[=]{ auto F=mk<T>(f,nn,G[g],bc); FE R(f,nn,G[g],bc&1,bc&2,bc&4,bc&8); if(R.nbf==0) return;
      helfem::Vec<T> xq,wq; int nq=R.pr.degree()+8; { auto g2=gauss<LD>(nq); xq.resize(nq); wq.resize(nq); for(int i=0;i<nq;i++){ xq(i)=(T)g2.x[i]; wq(i)=(T)g2.w[i]; } }
      struct Wt { const char*n; std::function<LD(LD)> f; bool poly; int deg; std::vector<LD> brk; };
      LD kink=(R.bv[0]*0.3L+R.bv[R.nel()]*0.7L);
      std::vector<Wt> ws{{"none",nullptr,true,0,{}},{"r2",[](LD r){return r*r;},true,2,{}},{"lin",[](LD r){return 1-3*r;},true,1,{}},{"exp",[](LD r){return expl(-r*r/16);},false,-1,{}},{"kink",[=](LD r){return fabsl(r-kink);},false,-1,{kink}}};
      for(auto&w: ws) for(int a=0;a<=2;a++) for(int b=0;b<=2;b++){ if(!H.thorough()&&w.deg!=0&&(a+b>2)) continue; H.step();
        auto wr=[&](LD r){ return w.f?w.f(r):1.0L; }; std::function<T(T)> wi; if(w.f) wi=[&](T r){ return (T)w.f((LD)r); };
        Mat E=R.full(a,b,wr,w.poly?0:R.pr.degree()+24,w.brk,w.poly?1:6); double tol=1e6*eps*(double)(E.cwiseAbs().maxCoeff()+1e-3L); std::vector<T> brk; for(LD x: w.brk) brk.push_back((T)x);
        H.mclose(F.matrix_element(a,b,wi,brk,w.deg),E,tol,"auto",fmt("%s a=%d b=%d",w.n,a,b));
        if(w.poly) { H.mclose(F.matrix_element(a,b,xq,wq,wi),E,tol,"fixed",fmt("%s a=%d b=%d",w.n,a,b));
          auto l=[&](helfem::Vec<T> x,size_t i){ return F.eval_dnf(x,a,i); }; auto rr=[&](helfem::Vec<T> x,size_t i){ return F.eval_dnf(x,b,i); };
          H.mclose(F.matrix_element_auto(l,rr,wi),E,tol,"auto-fn"); H.mclose(F.matrix_element(l,rr,xq,wq,wi),E,tol,"fixed-fn"); 
          if(w.deg==2) for(int i=0;i<R.nel();i++) { // sub-range
            Mat S=R.elem(i,a,b,wr,0,{},1,-0.5L,0.25L); H.mclose(F.matrix_element_auto(i,l,rr,wi,brk,w.deg,T(-0.5),T(0.25)),S,tol,"subrange"); H.mclose(F.matrix_element(i,l,rr,xq,wq,wi,T(-0.5),T(0.25)),S,tol,"subrange-fixed"); } }
        for(int i=0;i<R.nel();i++){ Mat Ei=R.elem(i,a,b,wr,w.poly?0:R.pr.degree()+24,w.brk,w.poly?1:6); H.mclose(F.matrix_element(i,a,b,wi,brk,w.deg),Ei,tol,"auto-el"); if(w.poly) H.mclose(F.matrix_element(i,a,b,xq,wq,wi),Ei,tol,"fixed-el"); }
        if(b==0&&w.poly){ Vec E1=Vec::Zero(R.nbf); for(int i=0;i<R.nel();i++){ Vec ei=Vec::Zero(R.gl[i].size()); const auto&gg=gauss<LD>(R.pr.degree()+6); for(size_t q=0;q<gg.x.size();q++){ auto v=R.ev(gg.x[q],i,a); for(size_t k=0;k<v.size();k++) ei(k)+=gg.w[q]*R.e(i)*wr(R.r(gg.x[q],i))*v[k]; } for(size_t k=0;k<R.gl[i].size();k++) E1(R.gl[i][k])+=ei(k); H.mclose(F.vector_element(i,a,xq,wq,wi),ei,tol,"vector-el"); }
          H.mclose(F.vector_element(a,xq,wq,wi),E1,tol,"vector"); } } });
  } }
// weights with several kinks inside one element, some of them close together, given in any order
template<class T> void kinks(){ double eps=std::numeric_limits<T>::epsilon(); auto G=grids(); const std::vector<std::vector<LD>> fr{{0.1L,0.3L},{0.1L,0.3L,0.6L},{0.1L,0.3L,0.301L,0.6L,0.9L},{0.5L,0.5001L},{0.004L,0.996L},{0.2L,0.2L,0.7L},{0.05L,0.15L,0.25L,0.35L,0.45L,0.55L,0.65L,0.75L,0.85L,0.95L},{0,0.4L,1}};
  for(int f: {3,4,5,8,9}) for(size_t g=0;g<4;g++) for(size_t s=0;s<fr.size();s++) for(int ord=0;ord<3;ord++) for(int sel=0;sel<3;sel++) H.run(fmt("%s.kinks.f%d.g%zu.s%zu.o%d.e%d",tn<T>(),f,g,s,ord,sel),[=]{ auto F=mk<T>(f,3,G[g],0); FE R(f,3,G[g],0,0,0,0); std::vector<LD> k; 
      for(int i=0;i<R.nel();i++) if(sel==2||(sel==0&&i==0)||(sel==1&&i==R.nel()-1)) for(LD t: fr[s]) k.push_back((LD)(T)(R.bv[i]+2*R.e(i)*t));
      auto w=[&](LD r){ LD v=0.5L,c=1; for(LD x: k){ v+=c*fabsl(r-x); c=-0.8L*c; } return v; }; std::vector<T> br; for(LD x: k) br.push_back((T)x); if(ord==1) std::reverse(br.begin(),br.end()); if(ord==2) std::stable_sort(br.begin(),br.end(),[](T a,T b){ return std::fmod(std::abs((double)a)*7919,1.0)<std::fmod(std::abs((double)b)*7919,1.0); });
      std::function<T(T)> wi=[&](T r){ return (T)w((LD)r); };
      for(int a=0;a<=1;a++) for(int b=0;b<=1;b++){ Mat E=R.full(a,b,w,R.pr.degree()+4,k); double tol=1e6*eps*(double)(E.cwiseAbs().maxCoeff()+1e-3L); H.step(); H.mclose(F.matrix_element(a,b,wi,br,1),E,tol,"kinks",fmt("a=%d b=%d",a,b));
        auto l=[&](helfem::Vec<T> x,size_t i){ return F.eval_dnf(x,a,i); }; auto rr=[&](helfem::Vec<T> x,size_t i){ return F.eval_dnf(x,b,i); };
        for(int i=0;i<R.nel();i++) for(auto p: std::vector<std::pair<LD,LD>>{{-1,1},{-0.5L,0.25L},{0.1L,0.9L},{-0.75L,-0.5L}}) { Mat S=R.elem(i,a,b,w,R.pr.degree()+4,k,1,p.first,p.second); H.step(); H.mclose(F.matrix_element_auto(i,l,rr,wi,br,1,(T)p.first,(T)p.second),S,tol,"kinks-el",fmt("el %d a=%d b=%d (%Lg,%Lg)",i,a,b,p.first,p.second)); } } }); }
// every history of add_boundary calls from a small alphabet
void histories(){ std::vector<LD> alpha{0.5L,1.5L,3,0,4,6,-1}; int depth=H.thorough()?5:4;
  for(int f: {4,5}) for(int bc: {0,1,5,15}) { std::vector<int> h; std::function<void()> rec=[&]{
      H.run(fmt("hist.f%d.bc%d.%s",f,bc,[&]{std::string s; for(int i: h) s+=char('a'+i); return s;}().c_str()),[=]{ auto F=mk<double>(f,3,{0,4},bc); std::vector<LD> b{0,4}; for(int i: h){ F.add_boundary((double)alpha[i]); H.step(); if(std::find(b.begin(),b.end(),alpha[i])==b.end()) b.push_back(alpha[i]); std::sort(b.begin(),b.end()); } FE R(f,3,b,bc&1,bc&2,bc&4,bc&8); layout(F,R,2.3e-16,true); });
      if((int)h.size()<depth) for(size_t i=0;i<alpha.size();i++){ if(h.size()>=3&&i>3) continue; h.push_back(i); rec(); h.pop_back(); } }; rec(); } 
  // boundaries arbitrarily close to existing ones are still boundaries
  for(int f: {3,4,5,8,9}) for(LD at: {0.0L,1.0L,2.5L,16.0L}) for(int s: {-1,1}) for(int k=0;k<=12;k++) for(int tw=0;tw<2;tw++) H.run(fmt("near.f%d.%Lg.%d.%d.%d",f,at,s,k,tw),[=]{ auto F=mk<double>(f,3,{0,1,2.5L,16},5); std::vector<LD> b{0,1,2.5L,16}; for(int t=0;t<=tw;t++){ LD x=(double)(at+s*0.3L*(t?0.37L:1.0L)*powl(10.0L,-k)); F.add_boundary((double)x); H.step(); if(std::find(b.begin(),b.end(),x)==b.end()) b.push_back(x); std::sort(b.begin(),b.end()); F.add_boundary((double)x); } FE R(f,3,b,1,0,1,0); layout(F,R,2.3e-16,k<=2); });
  // mixed copies: a copied basis is independent of the original
  H.run("copy-independent",[]{ auto F=mk<double>(4,3,{0,1,2},5); auto G=F; G.add_boundary(1.5); layout(F,FE(4,3,{0,1,2},1,0,1,0),2.3e-16); layout(G,FE(4,3,{0,1,1.5L,2},1,0,1,0),2.3e-16); auto p=F.get_poly(); p->drop_first(true,true); auto q=F.get_basis(1); q->drop_first(true,true); layout(F,FE(4,3,{0,1,2},1,0,1,0),2.3e-16); });
  // discontinuous grids are refused
  H.run("empty-grid",[]{ vh::Quiet q; H.throws([]{ mk<double>(4,3,{},0); },"empty"); });
}
// element lookup on grids of every size
void lookup(){ int N=H.thorough()?200:64; for(int n=1;n<=N;n++) H.run(fmt("lookup.%d",n),[=]{ std::vector<LD> b; for(int i=0;i<=n;i++) b.push_back(i*i*0.25L); auto F=mk<double>(4,2,b,0); for(int i=0;i<n;i++) for(LD t: {0.0L,0.25L,0.5L,1.0L}) { H.step(); LD r=b[i]+(b[i+1]-b[i])*t; size_t e=F.find_element((double)r); H.ok(e<(size_t)n&&b[e]<=r&&r<=b[e+1],"find-element",fmt("r=%Lg -> %zu",r,e)); } }); }
void explore(){ helfem::verbose=false; histories(); lookup(); cases<double>(); cases<long double>(); kinks<double>(); kinks<long double>(); }
VH_MAIN
