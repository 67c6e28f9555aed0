// C10: radial Coulomb and exchange assembly over a multi-element space, and contracted (NAO/STO/GTO) radial bases on top of it.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <FiniteElementBasis.h>
#include <RadialBasis.h>
#include <CoulombExchangeFE.h>
#include <NAORadialBasis.h>
#include <STO.h>
#include <GTO.h>
#include <helfem.h>
#include <memory>
using namespace ref; namespace pb=helfem::polynomial_basis; namespace ab=helfem::atomic::basis;
template<class T> const char* tn(); template<> const char* tn<double>(){return "d";} template<> const char* tn<long double>(){return "l";}
template<class T> ab::FEMRadialBasisT<T> mk(int f,int nn,const std::vector<LD>&b,int bc,int nq){ auto p=std::shared_ptr<const pb::PolynomialBasisT<T>>(pb::get_basis_T<T>(f,nn)); helfem::Vec<T> v(b.size()); for(size_t i=0;i<b.size();i++) v(i)=(T)b[i]; return ab::FEMRadialBasisT<T>(pb::FiniteElementBasisT<T>(p,v,bc&1,bc&2,bc&4,bc&8),nq); }
static std::vector<std::vector<LD>> grids(){ std::vector<std::vector<LD>> g{{0,2},{0,0.5L,2},{0,0.25L,1,4},{0,1,2,3.5L,7}}; if(H.thorough()) { g.push_back({0,0.1L,0.3L,0.9L,2.7L,8.1L}); } return g; }
template<class T> helfem::Mat<T> unit(int n,int k,int l){ helfem::Mat<T> P=helfem::Mat<T>::Zero(n,n); P(k,l)=1; return P; }
// all elementary densities (the operators are linear in P) and one dense nonsymmetric one
template<class T,class F> void sweep(int n,F f){ helfem::Mat<T> D(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) D(i,j)=T(((i*7+j*3)%11)-4)/T(4); f(D); for(int k=0;k<n;k++) for(int l=0;l<n;l++) f(unit<T>(n,k,l)); }
template<class T> void cases(){ bool dbl=sizeof(T)==8; double eps=std::numeric_limits<T>::epsilon(); auto G=grids(); std::vector<std::pair<int,int>> fn{{4,2},{4,3},{4,4},{3,4},{5,2},{5,3},{8,2},{9,2}}; if(H.thorough()) { fn.push_back({4,5}); fn.push_back({8,3}); }
  for(auto fnn: fn) for(size_t g=0;g<G.size();g++) for(int bc: {5,1}) for(int L=0;L<=(H.thorough()?6:4);L++){ int f=fnn.first,nn=fnn.second; FE R0(f,nn,G[g],bc&1,0,bc&4,0); if(R0.nbf==0||R0.nbf>(H.thorough()?14:10)) continue; if(!dbl&&(R0.nbf>5||bc!=5)) continue; std::string K=fmt("%s.f%d.nn%d.g%zu.bc%d.L%d",tn<T>(),f,nn,g,bc,L);
    H.run(K+".coulomb",[=]{ auto B=mk<T>(f,nn,G[g],bc,20); FE R(f,nn,G[g],bc&1,0,bc&4,0); Tei t(R,COULOMB,L,0); double tol=5e3*eps*(double)t.mx; size_t Nel=B.Nel(); H.ok((int)B.Nbf()==R.nbf,"nbf");
      std::vector<helfem::Mat<T>> ds,db,tei,kt,ch; ab::compute_disjoint_radial_integrals<T>(B,L+1,ds,db); ab::compute_in_element_tei<T>(B,L+1,tei); ab::compute_in_element_ktei_from_tei<T>(B,L+1,tei,kt); for(size_t i=0;i<Nel;i++) ch.push_back(B.twoe_integral_cholesky(L,i));
      auto rs=[&](size_t i)->const helfem::Mat<T>&{return ds[L*Nel+i];}; auto rb=[&](size_t i)->const helfem::Mat<T>&{return db[L*Nel+i];}; auto tw=[&](size_t i)->const helfem::Mat<T>&{return tei[Nel*Nel*L+i*Nel+i];}; auto kk=[&](size_t i)->const helfem::Mat<T>&{return kt[Nel*Nel*L+i*Nel+i];}; auto cc=[&](size_t i)->const helfem::Mat<T>&{return ch[i];};
      int cnt=0; sweep<T>(R.nbf,[&](const helfem::Mat<T>&P){ Mat p=toLD(P); Mat J=t.J(p),Kx=t.K(p); double s=tol*std::max(1.0,(double)p.cwiseAbs().sum()); H.step(4);
        if(cnt++<3) { H.mclose(ab::assemble_J_FE_one_multipole<T>(B,L,P),J,s,"J"); H.mclose(ab::assemble_K_FE_one_multipole<T>(B,L,P),Kx,s,"K"); }
        H.mclose(ab::assemble_J_FE_one_multipole_cached(B,rs,rb,tw,P),J,s,"J-cached"); H.mclose(ab::assemble_K_FE_one_multipole_cached(B,rs,rb,kk,P),Kx,s,"K-cached");
        double sc=s+1.1e-12*R.nbf*R.nbf*std::max(1.0,(double)p.cwiseAbs().sum()); H.mclose(ab::assemble_J_FE_one_multipole_cached_chol(B,rs,rb,cc,P),J,sc,"J-chol"); H.mclose(ab::assemble_K_FE_one_multipole_cached_chol(B,rs,rb,cc,P),Kx,sc,"K-chol"); }); });
    if(L<=3) H.run(K+".yukawa",[=]{ auto B=mk<T>(f,nn,G[g],bc,20); FE R(f,nn,G[g],bc&1,0,bc&4,0); LD lam=0.75L; Tei t(R,YUKAWA,L,lam); double tol=5e3*eps*(double)t.mx; size_t Nel=B.Nel();
      std::vector<helfem::Mat<T>> ds,db,tei,kt; ab::compute_disjoint_radial_integrals<T>(B,L+1,ds,db,true,(T)lam); ab::compute_in_element_tei<T>(B,L+1,tei,true,(T)lam); ab::compute_in_element_ktei_from_tei<T>(B,L+1,tei,kt);
      auto rs=[&](size_t i)->const helfem::Mat<T>&{return ds[L*Nel+i];}; auto rb=[&](size_t i)->const helfem::Mat<T>&{return db[L*Nel+i];}; auto tw=[&](size_t i)->const helfem::Mat<T>&{return tei[Nel*Nel*L+i*Nel+i];}; auto kk=[&](size_t i)->const helfem::Mat<T>&{return kt[Nel*Nel*L+i*Nel+i];};
      int cnt=0; sweep<T>(R.nbf,[&](const helfem::Mat<T>&P){ Mat p=toLD(P); Mat J=t.J(p),Kx=t.K(p); double s=tol*std::max(1.0,(double)p.cwiseAbs().sum()); H.step(2);
        if(cnt++<3) { H.mclose(ab::assemble_J_FE_one_multipole_yukawa<T>(B,L,(T)lam,P),J,s,"Jy"); H.mclose(ab::assemble_K_FE_one_multipole_yukawa<T>(B,L,(T)lam,P),Kx,s,"Ky"); }
        H.mclose(ab::assemble_J_FE_one_multipole_cached(B,rs,rb,tw,P),J,s,"Jy-cached"); H.mclose(ab::assemble_K_FE_one_multipole_cached(B,rs,rb,kk,P),Kx,s,"Ky-cached"); }); });
    if(dbl&&L<=2&&R0.nbf<=6&&nn<=3&&bc==5&&f<=5) H.run(K+".erfc",[=]{ auto B=mk<T>(f,nn,G[g],bc,30); FE R(f,nn,G[g],1,0,1,0); LD mu=0.6L; Tei t(R,ERFC,L,mu,14); std::vector<helfem::Mat<T>> kt; ab::compute_erfc_ktei<T>(B,L+1,(T)mu,kt); size_t Nel=B.Nel(); auto kk=[&](size_t i,size_t j)->const helfem::Mat<T>&{ return kt[Nel*Nel*L+i*Nel+j]; };
      sweep<T>(R.nbf,[&](const helfem::Mat<T>&P){ H.step(); H.mclose(toLD(ab::assemble_K_FE_one_multipole_cached_pairwise(B,kk,P))*mu,t.K(toLD(P)),2e-3*(double)t.mx*std::max(1.0,(double)P.cwiseAbs().sum()),"K-erfc"); }); });
  } }
static helfem::Matrix coef(int n,int m,int s){ helfem::Matrix C(n,m); for(int i=0;i<n;i++) for(int j=0;j<m;j++) C(i,j)=(((i+1)*(j+2)*(s+3))%13-6)/6.0; return C; }
void nao(){ auto G=grids(); for(size_t g=0;g<3;g++) for(int fi: {4,5}) for(int m=1;m<=3;m++) for(int m2=1;m2<=3;m2++) { H.run(fmt("nao.f%d.g%zu.%d.%d",fi,g,m,m2),[=]{ int nn=fi==4?4:2; auto B=std::make_shared<ab::FEMRadialBasis>(mk<double>(fi,nn,G[g],5,20)); FE R(fi,nn,G[g],1,0,1,0); int n=R.nbf; auto C=coef(n,m,1),C2=coef(n,m2,2); ab::NAORadialBasis A(B,C),O(B,C2); H.step(); Mat c=toLD(C),c2=toLD(C2); double sc=1+(double)(c.cwiseAbs().sum()*c.cwiseAbs().sum());
        H.ok(A.Nbf()==(size_t)m,"nao-nbf"); H.mclose(A.coeffs(),C,0,"nao-coeffs"); H.ok(&A.underlying()==B.get(),"nao-under");
        auto tr=[&](const Mat&M){ return Mat(c.transpose()*M*c); }; auto one=[](LD){return 1.0L;};
        H.mclose(A.overlap(),tr(R.full(0,0,one)),1e-11*sc,"nao-S"); H.mclose(A.kinetic(),tr(Mat(R.full(1,1,one)/2)),1e-10*sc,"nao-T"); H.mclose(A.kinetic_l(),tr(Mat(R.full(10,10,one,44)/2)),1e-10*sc,"nao-Tl"); H.mclose(A.nuclear(),tr(Mat(-R.full(10,0,one,44))),1e-11*sc,"nao-V");
        auto D=coef(m2,m2,5); helfem::Matrix Cm=coef(m,2,4); for(LD r: {0.3L,0.9L,1.7L}) { auto v=A.eval_orbs(Cm,(double)r); Vec b=R.at((double)r); Vec e=(toLD(Cm).transpose()*c.transpose()*b)/(LD)(double)r; if(!H.ok(v.size()==2,"nao-evalsize")) break; H.mclose(v,e,1e-11*sc,"nao-eval"); }
        Mat P=c2*toLD(D)*c2.transpose(); double sp=sc*(1+(double)P.cwiseAbs().sum()); for(int k=0;k<=3;k++){ Tei t(R,COULOMB,k,0); H.step(2); H.mclose(A.coulomb_radial(k,O,D),tr(t.J(P)),1e-13*sp*(double)t.mx,"nao-J"); H.mclose(A.exchange_radial(k,O,D),tr(t.K(P)),1e-13*sp*(double)t.mx,"nao-K"); Tei y(R,YUKAWA,k,1.25L); H.mclose(A.coulomb_radial_yukawa(k,1.25,O,D),tr(y.J(P)),1e-13*sp*(double)y.mx,"nao-Jy"); H.mclose(A.exchange_radial_yukawa(k,1.25,O,D),tr(y.K(P)),1e-13*sp*(double)y.mx,"nao-Ky"); }
        // refusals
        auto B2=std::make_shared<ab::FEMRadialBasis>(*B); ab::NAORadialBasis X(B2,C2); helfem::Matrix bad=coef(m2+1,m2,1);
        H.throws([&]{A.coulomb_radial(0,X,D);},"nao-shared"); H.throws([&]{A.exchange_radial(0,X,D);},"nao-shared"); H.throws([&]{A.coulomb_radial_yukawa(0,1.,X,D);},"nao-shared"); H.throws([&]{A.exchange_radial_yukawa(0,1.,X,D);},"nao-shared");
        H.throws([&]{A.coulomb_radial(0,O,bad);},"nao-shape"); H.throws([&]{A.exchange_radial(0,O,bad);},"nao-shape"); helfem::Matrix badT=bad.transpose(); H.throws([&]{A.coulomb_radial_yukawa(0,1.,O,badT);},"nao-shape"); H.throws([&]{A.exchange_radial_yukawa(0,1.,O,badT);},"nao-shape");
        for(double l: {0.0,-1.0}) { H.throws([&]{A.coulomb_radial_yukawa(0,l,O,D);},"nao-lambda"); H.throws([&]{A.exchange_radial_yukawa(0,l,O,D);},"nao-lambda"); }
        H.throws([&]{ ab::NAORadialBasis z(nullptr,C); },"nao-null"); H.throws([&]{ ab::NAORadialBasis z(B,coef(n+1,m,1)); },"nao-rows"); H.throws([&]{ ab::NAORadialBasis z(B,helfem::Matrix(n,0)); },"nao-cols"); H.throws([&]{ A.eval_orbs(coef(m+1,1,1),0.5); },"nao-evalshape");
        // NAO on NAO
        auto An=std::make_shared<ab::NAORadialBasis>(A); ab::NAORadialBasis N(An,coef(m,2,3)); Mat cc=c*toLD(coef(m,2,3)); H.mclose(N.overlap(),Mat(cc.transpose()*R.full(0,0,one)*cc),1e-10*sc*10,"nao-nao"); H.throws([&]{ N.coulomb_radial(0,N,coef(2,2,1)); },"nao-nonfem"); }); } }
// closed forms: int r^k e^{-a r}, int r^k e^{-a r^2}
static LD Is(int k,LD a){ LD v=1/a; for(int i=1;i<=k;i++) v*=i/a; return v; }
static LD Ig(int k,LD a){ LD v=k%2?1/(2*a):sqrtl(rpi<LD>()/a)/2; for(int i=k%2?3:2;i<=k;i+=2) v*=(i-1)/(2*a); return v; }
void slater(){ struct Pr{int n;LD z;}; std::vector<std::vector<Pr>> sets{{{1,1}},{{2,0.8L}},{{1,2.5L},{1,0.6L}},{{3,1.3L},{1,1}},{{4,2},{2,0.5L},{1,1.5L}}};
  for(int gto=0;gto<2;gto++) for(size_t a=0;a<sets.size();a++) for(size_t b=0;b<sets.size();b++) for(int tol=0;tol<2;tol++) { if(tol&&(a||b)) continue; H.run(fmt("%s.%zu.%zu.%d",gto?"gto":"sto",a,b,tol),[=]{ std::vector<std::vector<Pr>> bs{sets[a],sets[b]}; H.step();
      auto mkb=[&]{ if(gto){ std::vector<ab::GTOContracted> v; for(auto&s: bs){ ab::GTOContracted c; c.contraction.resize(s.size()); int i=0; for(auto&p: s){ c.primitives.push_back({p.n-1,(double)p.z}); c.contraction(i)=1-0.5*i; i++; } v.push_back(c);} return tol?ab::make_nao_gto(v,1e-9,20,12):ab::make_nao_gto(v); } std::vector<ab::STOContracted> v; for(auto&s: bs){ ab::STOContracted c; c.contraction.resize(s.size()); int i=0; for(auto&p: s){ c.primitives.push_back({p.n,(double)p.z}); c.contraction(i)=1-0.5*i; i++; } v.push_back(c);} return tol?ab::make_nao_sto(v,1e-9,20,12):ab::make_nao_sto(v); };
      auto N=mkb(); if(!H.ok(N.Nbf()==2,"proj-n")) return;
      // u = N r^n e^{-z r}  or N r^n e^{-z r^2}
      auto I=[&](int k,LD z){ return gto?Ig(k,z):Is(k,z); }; auto nrm=[&](Pr p){ return 1/sqrtl(I(2*p.n,2*p.z)); };
      Mat S=Mat::Zero(2,2),T=S,Tl=S,V=S; for(int i=0;i<2;i++) for(int j=0;j<2;j++) for(size_t p=0;p<bs[i].size();p++) for(size_t q=0;q<bs[j].size();q++){ Pr P=bs[i][p],Qp=bs[j][q]; LD w=(1-0.5L*p)*(1-0.5L*q)*nrm(P)*nrm(Qp),z=P.z+Qp.z; int k=P.n+Qp.n; S(i,j)+=w*I(k,z); V(i,j)-=w*I(k-1,z); Tl(i,j)+=w*I(k-2,z)/2;
        // u' = n r^{n-1} e - c r^{n+s} e
        LD t=P.n*Qp.n*I(k-2,z); if(gto) t+=-2*(P.n*Qp.z+Qp.n*P.z)*I(k,z)+4*P.z*Qp.z*I(k+2,z); else t+=-(P.n*Qp.z+Qp.n*P.z)*I(k-1,z)+P.z*Qp.z*I(k,z); T(i,j)+=w*t/2; }
      double e=tol?1e-6:2e-8; H.mclose(N.overlap(),S,e,"proj-S"); H.mclose(N.kinetic(),T,e*10,"proj-T"); H.mclose(N.kinetic_l(),Tl,e*10,"proj-Tl"); H.mclose(N.nuclear(),V,e,"proj-V");
      for(LD r: {0.0L,0.2L,1.0L,3.0L}) { auto v=N.eval_orbs(helfem::Matrix::Identity(2,2),(double)r); for(int i=0;i<2;i++){ LD u=0; for(size_t p=0;p<bs[i].size();p++){ Pr P=bs[i][p]; u+=(1-0.5L*p)*nrm(P)*ipow(r,P.n-1)*expl(gto?-P.z*r*r:-P.z*r); } H.close(v(i),u,tol?1e-4:1e-6,"proj-eval"); } } }); }
  H.run("proj-refuse",[]{ using namespace ab; H.step(); helfem::Vector o(1); o<<1; helfem::Vector t(2); t<<1,1; auto S=[&](std::vector<STOPrimitive> p,helfem::Vector c){ STOContracted s; s.primitives=p; s.contraction=c; return std::vector<STOContracted>{s}; }; auto Gt=[&](std::vector<GTOPrimitive> p,helfem::Vector c){ GTOContracted s; s.primitives=p; s.contraction=c; return std::vector<GTOContracted>{s}; };
    H.throws([&]{make_nao_sto({});},"refuse"); H.throws([&]{make_nao_gto({});},"refuse"); H.throws([&]{make_nao_sto(S({},helfem::Vector()));},"refuse"); H.throws([&]{make_nao_gto(Gt({},helfem::Vector()));},"refuse"); H.throws([&]{make_nao_sto(S({{1,1.}},t));},"refuse"); H.throws([&]{make_nao_gto(Gt({{1,1.}},t));},"refuse"); H.throws([&]{make_nao_sto(S({{0,1.}},o));},"refuse"); H.throws([&]{make_nao_gto(Gt({{-1,1.}},o));},"refuse"); for(double z: {0.,-1.}) { H.throws([&]{make_nao_sto(S({{1,z}},o));},"refuse"); H.throws([&]{make_nao_gto(Gt({{1,z}},o));},"refuse"); } }); }
void explore(){ helfem::verbose=false; cases<double>(); cases<long double>(); nao(); slater(); }
VH_MAIN
