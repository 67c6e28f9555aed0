// C01: primitive shape functions of every family.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <helfem.h>
#include <memory>
using namespace ref; namespace pb=helfem::polynomial_basis;
template<class T> pb::PolynomialBasisT<T>* make(int f,int nn){ return pb::get_basis_T<T>(f,nn); }
template<> pb::PolynomialBasisT<double>* make<double>(int f,int nn){ return pb::get_basis(f,nn); }
template<class T> const char* tn(); template<> const char* tn<double>(){return "d";} template<> const char* tn<long double>(){return "l";}
template<class T> std::vector<T> points(const std::vector<Q>&x0){ std::vector<T> p; for(size_t i=0;i<x0.size();i++){ p.push_back((T)x0[i]); if(i+1<x0.size()) { p.push_back((T)((x0[i]+x0[i+1])/2)); p.push_back((T)(x0[i]+(x0[i+1]-x0[i])*Q(0.13))); } } p.push_back(T(-1)+T(1e-9)); p.push_back(T(1)-T(1e-9)); p.push_back(T(-0.999)); p.push_back(T(0.998)); p.push_back(T(0.3141592653)); return p; }
template<class T> void family(int f){
  int maxnn= f==9? (H.thorough()?8:6): f==8?(H.thorough()?10:7):(f==5||f==101)?(H.thorough()?14:8):(H.thorough()?20:15);
  double eps=std::numeric_limits<T>::epsilon();
  for(int nn=2;nn<=maxnn;nn++) for(int bc=0;bc<16;bc++) { bool fl=bc&1,dl=bc&2,fr=bc&4,dr=bc&8;
    H.run(fmt("%s.f%d.nn%d.bc%d%d%d%d",tn<T>(),f,nn,fl,dl,fr,dr),[=]{
      std::unique_ptr<pb::PolynomialBasisT<T>> b(make<T>(f,nn)); Prim<Q> R(f,nn);
      H.ok(b->get_nprim()==R.nprim(),"nprim",fmt("%d vs %d",b->get_nprim(),R.nprim()));
      H.ok(b->get_nnodes()==nn,"nnodes"); H.ok(b->get_noverlap()==R.p+1,"noverlap");
      H.ok(b->get_id()==(f==100?4:f==101?5:f),"id");
      b->drop_first(fl,dl); b->drop_last(fr,dr); H.step(2);
      auto en=R.enabled(fl,dl,fr,dr);
      if(!H.ok(b->get_nbf()==(int)en.size(),"nbf",fmt("%d vs %d",b->get_nbf(),(int)en.size()))) return;
      auto ge=b->get_enabled(); for(size_t k=0;k<en.size();k++) H.ok(ge(k)==en[k],"enabled");
      if(f!=3){ auto x0=b->get_nodes(); H.ok(x0.size()==nn,"nodes"); for(int i=0;i<nn;i++) H.close((LD)x0(i),(LD)R.x0[i],50*eps,"nodes"); }
      std::unique_ptr<pb::PolynomialBasisT<T>> c(b->copy());
      std::vector<Q> rx=R.x0; if(f==3) for(int i=0;i<nn;i++) rx.push_back(Q(2*i)/Q(nn-1)-1);
      auto pts=points<T>(rx); helfem::Vec<T> X(pts.size()); for(size_t i=0;i<pts.size();i++) X(i)=pts[i];
      int nmax= f==3?2: (f==8||f==9)?5: (f==4||f==5||f==100||f==101)? (nn<=4?20: nn<=7?7:5):5;
      if(H.thorough()&&(f==4||f==5)&&nn<=7) nmax=20;
      if(bc!=0&&bc!=15&&nmax>3) nmax=3;
      for(LD e: {1.0L,0.5L,3.75L}) {
        for(int n=0;n<=nmax;n++){ H.step();
          helfem::Mat<T> D=b->eval_dnf(X,n,(T)e); 
          if(!H.ok(D.rows()==X.size()&&D.cols()==(long)en.size(),"shape-size")) continue;
          std::vector<std::vector<Q>> rv; Q scale=0; for(int i=0;i<X.size();i++){ rv.push_back(R.deriv((Q)X(i),n,(Q)e)); for(auto v: rv.back()) if(rabs(v)>scale) scale=rabs(v); }
          double tol=((double)scale+1/std::pow((double)e,n))*eps*2e4*(n+1)*nn; if(n>R.degree()) { Q s2=0; for(int k=0;k<=R.degree();k++) for(auto v: R.deriv(Q(1),k,(Q)e)) if(rabs(v)>s2) s2=rabs(v); tol=std::max(tol,(double)s2*eps*1e4*std::pow(10.0,n)); }
          LD worst=0; for(int i=0;i<X.size();i++) for(size_t k=0;k<en.size();k++){ H.close((LD)D(i,k),(LD)rv[i][en[k]],tol,"shape",fmt("n=%d e=%Lg x=%.17Lg fn=%d",n,e,(LD)X(i),en[k])); }
          if(n==0) { helfem::Mat<T> D2=c->eval_dnf(X,n,(T)e); H.mclose(D2,D,0,"copy"); }
        }
        if(fl){ int m=2; for(int n=0;n<=m;n++){ H.step();
            helfem::Mat<T> D; 
            if(en.empty()) { H.throws([&]{ b->eval_over_r(X,n,(T)e); },"over-r-empty"); continue; }
            D=b->eval_over_r(X,n,(T)e);
            if(!H.ok(D.rows()==X.size()&&D.cols()==(long)en.size(),"over-r-size")) continue;
            std::vector<std::vector<Q>> rv; Q scale=0; for(int i=0;i<X.size();i++){ rv.push_back(R.over_r((Q)X(i),n,(Q)e)); for(int k: en) if(rabs(rv.back()[k])>scale) scale=rabs(rv.back()[k]); }
            double tol=((double)scale+1/std::pow((double)e,n+1))*eps*2e4*(n+1)*nn;
            for(int i=0;i<X.size();i++) for(size_t k=0;k<en.size();k++) H.close((LD)D(i,k),(LD)rv[i][en[k]],tol,"over-r",fmt("n=%d e=%Lg x=%.17Lg fn=%d",n,e,(LD)X(i),en[k])); } }
        else H.throws([&]{ b->eval_over_r(X,0,(T)e); },"over-r-precondition");
      }
      int nbad= f==3?3:(f==8||f==9)?6:21; H.throws([&]{ b->eval_dnf(X,nbad,T(1)); },"unsupported-derivative"); H.throws([&]{ b->eval_dnf(X,-1,T(1)); },"negative-derivative");
      if(fl&&en.size()&&f!=4&&f!=100) H.throws([&]{ b->eval_over_r(X,3,T(1)); },"unsupported-over-r");
    }); }
}
void explore(){ helfem::verbose=false;
  for(int f: {3,4,5,8,9,100,101}) family<double>(f);
  for(int f: {3,4,5,8,9}) family<long double>(f);
  for(int f=-2;f<=20;f++) for(int nn=-1;nn<=4;nn++) H.run(fmt("factory.f%d.nn%d",f,nn),[=]{ bool good=nn>=2&&(f==3||f==4||f==5||f==8||f==9); H.step();
    if(good) { std::unique_ptr<pb::PolynomialBasis> b(pb::get_basis(f,nn)); H.ok(b->get_id()==f&&b->get_nnodes()==nn,"factory"); }
    else H.throws([&]{ delete pb::get_basis(f,nn); },"factory-reject"); });
  // node sets must span the reference element
  for(int k=0;k<4;k++) H.run(fmt("badnodes.%d",k),[=]{ helfem::Vec<double> x(3); x<<-1,0.1,1; if(k==0) x(0)=-0.9; if(k==1) x(2)=0.95; if(k==2) x<<1,-1,0.1; H.step();
    if(k<2) { H.throws([&]{ pb::LIPBasis b(x); },"node-span"); H.throws([&]{ pb::HIPBasis b(x); },"node-span"); }
    else { pb::LIPBasis b(x); auto n=b.get_nodes(); H.ok(n(0)==-1&&n(1)==0.1&&n(2)==1,"node-sort"); } });
}
VH_MAIN
