// C07: radial two-electron integrals.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <FiniteElementBasis.h>
#include <RadialBasis.h>
#include <helfem.h>
#include "utils.h"
#include "quadrature.h"
#include <lobatto.h>
#include <chebyshev.h>
#include <memory>
using namespace ref; namespace pb=helfem::polynomial_basis; namespace ab=helfem::atomic::basis;
template<class T> const char* tn(); template<> const char* tn<double>(){return "d";} template<> const char* tn<long double>(){return "l";}
template<class T> ab::FEMRadialBasisT<T> mk(int f,int nn,const std::vector<LD>&b,int bc,int nq){ auto p=std::shared_ptr<const pb::PolynomialBasisT<T>>(pb::get_basis_T<T>(f,nn)); helfem::Vec<T> v(b.size()); for(size_t i=0;i<b.size();i++) v(i)=(T)b[i]; return ab::FEMRadialBasisT<T>(pb::FiniteElementBasisT<T>(p,v,bc&1,bc&2,bc&4,bc&8),nq); }
static std::vector<std::pair<int,int>> fams(){ std::vector<std::pair<int,int>> f{{4,2},{4,3},{4,4},{4,5},{3,3},{3,5},{5,2},{5,3},{8,2},{9,2}}; if(H.thorough()){ f.push_back({4,7}); f.push_back({5,4}); f.push_back({8,3}); f.push_back({3,7}); } return f; }
template<class T> void cases(){ double eps=std::numeric_limits<T>::epsilon(); std::vector<std::vector<LD>> G{{0,1,3},{0,0.125L,4,4.5L}}; if(H.thorough()) G.push_back({0,1e-2L,0.5L,10});
  int LM=H.thorough()?10:5; bool dbl=std::is_same<T,double>::value;
  for(auto fn: fams()) for(size_t g=0;g<G.size();g++) for(int bc: {5,1,13}) { int f=fn.first,nn=fn.second; if(bc!=5&&(g||!dbl)) continue; int nf=f==3||f==4?nn:f==5?2*nn:f==8?3*nn:4*nn; if(!dbl&&nf>5) continue;
    for(int L=0;L<=LM;L++) { std::string K=fmt("%s.f%d.nn%d.g%zu.bc%d.L%d",tn<T>(),f,nn,g,bc,L);
      H.run(K+".coulomb",[=]{ auto B=mk<T>(f,nn,G[g],bc,20); FE R(f,nn,G[g],bc&1,bc&2,bc&4,bc&8); for(int i=0;i<R.nel();i++){ if(R.gl[i].empty()) continue; int ng=(i?R.pr.degree()+20:2*R.pr.degree()+4)+L/2; Mat E=intra(R,i,[L](LD s,LD r){ return ipow(s/r,L)/r; },ng); double mx=(double)E.cwiseAbs().maxCoeff(); auto M=B.twoe_integral(L,i); H.step(); H.mclose(M,E,2e4*eps*mx,"coulomb",fmt("el %d",i));
          // the exchange ordering is a permutation of the same tensor
          int n=R.gl[i].size(); auto X=helfem::utils::exchange_tei<T>(M,n,n,n,n); H.step(); bool same=X.rows()==n*n&&X.cols()==n*n; for(int a=0;same&&a<n;a++) for(int b=0;b<n;b++) for(int c=0;c<n;c++) for(int d=0;d<n;d++) if(X(c*n+b,d*n+a)!=M(b*n+a,d*n+c)) same=false; H.ok(same,"exchange-order");
          if(L<=4||H.thorough()) for(double tol: {1e-12,1e-6,1e-3}){ auto C=tol==1e-12?B.twoe_integral_cholesky(L,i):B.twoe_integral_cholesky(L,i,T(tol)); H.step(); Mat D=toLD(C)*toLD(C).transpose(); H.ok(C.cols()<=n*(n+1)/2,"cholesky-rank"); H.mclose(D,toLD(M),1.01*tol+1e4*eps*mx,"cholesky",fmt("tol %g el %d",tol,i)); } } });
      if(L<=4) H.run(K+".yukawa",[=]{ auto B=mk<T>(f,nn,G[g],bc,20); FE R(f,nn,G[g],bc&1,bc&2,bc&4,bc&8); for(LD lam: {0.25L,1.5L}) for(int i=0;i<R.nel();i++){ if(R.gl[i].empty()) continue; Mat E=intra(R,i,[=](LD s,LD r){ return sph_i(L,lam*s)*sph_k(L,lam*r); },R.pr.degree()+22); double mx=(double)E.cwiseAbs().maxCoeff(); auto M=B.yukawa_integral(L,(T)lam,i); H.step(); H.mclose(M,E,1e4*eps*mx,"yukawa",fmt("el %d lambda %Lg",i,lam)); auto C=B.yukawa_integral_cholesky(L,(T)lam,i,T(1e-9)); H.mclose(Mat(toLD(C)*toLD(C).transpose()),toLD(M),1.01e-9+1e4*eps*mx,"yukawa-cholesky"); } });
      if(dbl&&L<=3&&nf<=4&&bc==5) H.run(K+".erfc",[=]{ auto B=mk<T>(f,nn,G[g],bc,30); FE R(f,nn,G[g],bc&1,bc&2,bc&4,bc&8); for(LD mu: {0.3L,1.1L}) for(int i=0;i<R.nel();i++) for(int k=0;k<R.nel();k++){ if(R.gl[i].empty()||R.gl[k].empty()) continue; Mat E; if(i==k) { E=intra(R,i,[=](LD s,LD r){ return mu*phiL(L,mu*r,mu*s); },14,2); } else { int ni=R.gl[i].size(),nk=R.gl[k].size(); E=Mat::Zero(ni*ni,nk*nk); const auto&gg=gauss<LD>(20); LD ai=R.bv[i],bi=R.bv[i+1],ak=R.bv[k],bk=R.bv[k+1]; for(int p=0;p<2;p++) for(int u=0;u<20;u++){ LD lo=ai+(bi-ai)*p/2,hi=ai+(bi-ai)*(p+1)/2; LD r=(lo+hi)/2+(hi-lo)/2*gg.x[u]; Vec in=Vec::Zero(nk*nk); for(int v=0;v<20;v++){ LD rp=(ak+bk)/2+(bk-ak)/2*gg.x[v]; in+=gg.w[v]*(bk-ak)/2*mu*phiL(L,mu*r,mu*rp)*prod(R,rp,k); } E+=gg.w[u]*(hi-lo)/2*prod(R,r,i)*in.transpose(); } }
          Mat M=toLD(B.erfc_integral(L,(T)mu,i,k))*mu; H.step(); double mx=(double)E.cwiseAbs().maxCoeff(); H.mclose(M,E,(i==k?4e-4:2e-3)*mx,i==k?"erfc-intra":"erfc-inter",fmt("el %d %d mu %Lg",i,k,mu)); } });
    }
    H.run(fmt("%s.f%d.nn%d.g%zu.bc%d.spot",tn<T>(),f,nn,g,bc),[=]{ for(int nq: {12,40}){ auto B=mk<T>(f,nn,G[g],bc,nq); FE R(f,nn,G[g],bc&1,bc&2,bc&4,bc&8); for(int i=0;i<R.nel();i++){ if(R.gl[i].empty()) continue; auto V=B.spherical_potential(i); auto rr=B.get_r(i); H.step(); int n=R.gl[i].size(); if(!H.ok(V.rows()==nq&&V.cols()==n*n,"spot-size")) continue; Mat E(nq,n*n); for(int q=0;q<nq;q++){ LD r=(LD)rr(q),a=R.bv[i],b=R.bv[i+1]; Vec s=Vec::Zero(n*n); const auto&gg=gauss<LD>(40); for(int u=0;u<40;u++){ LD r1=(a+r)/2+(r-a)/2*gg.x[u],r2=(r+b)/2+(b-r)/2*gg.x[u]; s+=gg.w[u]*(r-a)/2/r*prod(R,r1,i)+gg.w[u]*(b-r)/2/r2*prod(R,r2,i); } E.row(q)=s.transpose(); } H.mclose(V,E,(nq==12?2e-2:2e-3)*(double)E.cwiseAbs().maxCoeff(),nq==12?"spot12":"spot40"); } } });
  } }
void explore(){ helfem::verbose=false; cases<double>(); cases<long double>();
  // rectangular permutations
  for(int a=1;a<=3;a++) for(int b=1;b<=3;b++) for(int c=1;c<=3;c++) for(int d=1;d<=3;d++) H.run(fmt("perm.%d%d%d%d",a,b,c,d),[=]{ helfem::Mat<double> t(a*b,c*d); for(int i=0;i<t.size();i++) t.data()[i]=i+1; auto X=helfem::utils::exchange_tei<double>(t,a,b,c,d); H.step(); if(!H.ok(X.rows()==b*c&&X.cols()==a*d,"perm-size")) return; for(int i=0;i<a;i++) for(int j=0;j<b;j++) for(int k=0;k<c;k++) for(int l=0;l<d;l++) H.close(X(k*b+j,l*a+i),t(j*a+i,l*c+k),0,"perm"); H.throws([&]{ helfem::utils::exchange_tei<double>(t,a+1,b,c,d); },"perm-reject"); H.throws([&]{ helfem::utils::exchange_tei<double>(t,a,b,c,d+1); },"perm-reject"); });
  for(int k=0;k<2;k++) H.run(fmt("mismatch.%d",k),[=]{ auto p=std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(4,3)); helfem::Vec<double> x(4),w(5); x<<-.5,0,.1,.5; w.setOnes(); H.step(); if(k==0) H.throws([&]{ helfem::quadrature::twoe_integral<double>(0,1,x,w,p,0); },"mismatch"); else H.throws([&]{ helfem::quadrature::yukawa_integral<double>(0,1,x,w,p,0,1.0); },"mismatch"); }); }
VH_MAIN
