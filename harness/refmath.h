// Reference mathematics, written independently of HelFEM: Taylor jets,
// Gauss-Legendre rules, Lobatto nodes, the primitive shape functions of every
// polynomial family and the finite element space built from them.
#ifndef REFMATH_H
#define REFMATH_H
#include <vector>
#include <map>
#include <cmath>
#include <cstdlib>
#include <functional>
#include <stdexcept>
#include <algorithm>
extern "C" {
#include <quadmath.h>
}
#include <Eigen/Dense>
namespace ref {
  typedef long double LD; typedef __float128 Q;
  inline LD rabs(LD x){return fabsl(x);} inline Q rabs(Q x){return fabsq(x);} inline double rabs(double x){return std::fabs(x);}
  inline LD rsqrt(LD x){return sqrtl(x);} inline Q rsqrt(Q x){return sqrtq(x);}
  inline LD rcos(LD x){return cosl(x);} inline Q rcos(Q x){return cosq(x);}
  inline LD rexp(LD x){return expl(x);} inline Q rexp(Q x){return expq(x);}
  inline LD rlog(LD x){return logl(x);} inline Q rlog(Q x){return logq(x);}
  template<class R> R ipow(R x,int n){ if(n<0) return R(1)/ipow(x,-n); R r=1; while(n--) r*=x; return r; }
  template<class R> R rpi() { return R(M_PIq); }
  typedef Eigen::Matrix<LD,Eigen::Dynamic,Eigen::Dynamic> Mat; typedef Eigen::Matrix<LD,Eigen::Dynamic,1> Vec;
  template<class R> using Jet=std::vector<R>; // Taylor coefficients c[k] = f^(k)/k!
  template<class R> Jet<R> jmul(const Jet<R>&a,const Jet<R>&b){ Jet<R> c(a.size(),R(0)); for(size_t i=0;i<a.size();i++) if(!(a[i]==R(0))) for(size_t j=0;i+j<a.size();j++) c[i+j]+=a[i]*b[j]; return c; }
  template<class R> Jet<R> jinv(const Jet<R>&a){ Jet<R> c(a.size(),R(0)); c[0]=R(1)/a[0]; for(size_t k=1;k<a.size();k++){ R s=0; for(size_t j=1;j<=k;j++) s+=a[j]*c[k-j]; c[k]=-s*c[0]; } return c; }
  template<class R> Jet<R> jpow(Jet<R> a,int n){ Jet<R> r(a.size(),R(0)); r[0]=1; while(n--) r=jmul(r,a); return r; }
  template<class R> Jet<R> jlin(R c0,R c1,size_t n){ Jet<R> r(n,R(0)); r[0]=c0; if(n>1) r[1]=c1; return r; }
  // Gauss-Legendre
  template<class R> void gauss_compute(int n,std::vector<R>&x,std::vector<R>&w){
    x.resize(n); w.resize(n);
    for(int i=0;i<n;i++){ R z=rcos(rpi<R>()*(R(i)+R(3)/R(4))/(R(n)+R(1)/R(2))); R pp=0;
      for(int it=0;it<100;it++){ R p0=1,p1=z; if(n==1){p1=z;} for(int k=2;k<=n;k++){ R p2=((2*k-1)*z*p1-(k-1)*p0)/R(k); p0=p1;p1=p2; } pp=n*(z*p1-p0)/(z*z-1); R dz=p1/pp; z-=dz; if(rabs(dz)<R(1e-33)*8 || (sizeof(R)==sizeof(LD)&&std::is_same<R,LD>::value&&rabs(dz)<R(1e-18))) { if(it>4) break; } }
      R p0=1,p1=z; for(int k=2;k<=n;k++){ R p2=((2*k-1)*z*p1-(k-1)*p0)/R(k); p0=p1;p1=p2; } pp=n*(z*p1-p0)/(z*z-1);
      x[n-1-i]=z; w[n-1-i]=R(2)/((1-z*z)*pp*pp); }
  }
  template<class R> struct Rule { std::vector<R> x,w; };
  template<class R> const Rule<R>& gauss(int n){ static std::map<int,Rule<R>> c; auto it=c.find(n); if(it!=c.end()) return it->second; Rule<R> r; gauss_compute<R>(n,r.x,r.w); return c[n]=r; }
  // composite integration of f over [a,b] with n-point GL on npan panels
  template<class R,class F> R integrate(F f,R a,R b,int n=40,int npan=1){ const auto&g=gauss<R>(n); R s=0; for(int p=0;p<npan;p++){ R lo=a+(b-a)*p/npan,hi=a+(b-a)*(p+1)/npan,h=(hi-lo)/2,m=(hi+lo)/2; for(int i=0;i<n;i++) s+=g.w[i]*h*f(m+h*g.x[i]); } return s; }
  // integrate to infinity by tanh-sinh style substitution: x=a+t/(1-t)
  template<class R,class F> R integrate_inf(F f,R a,int n=40,int npan=40){ return integrate<R>([&](R t){ R om=1-t; return f(a+t/om)/(om*om); },R(0),R(1),n,npan); }
  // Lobatto nodes: -1, roots of P'_{n-1}, 1 with weights
  template<class R> void lobatto_nodes(int n,std::vector<R>&x,std::vector<R>&w){
    x.assign(n,R(0)); w.assign(n,R(0)); int N=n-1;
    auto P=[&](R z,R&p,R&dp,R&ddp){ R p0=1,p1=z; for(int k=2;k<=N;k++){ R p2=((2*k-1)*z*p1-(k-1)*p0)/R(k); p0=p1;p1=p2; } p=N==0?R(1):p1; dp=N*(z*p1-p0)/(z*z-1); ddp=(2*z*dp-R(N)*(N+1)*p1)/(1-z*z); };
    x[0]=-1;x[N]=1; w[0]=w[N]=R(2)/(R(n)*N);
    for(int i=1;i<N;i++){ R z=-rcos(rpi<R>()*i/N); R p,dp,ddp; for(int it=0;it<60;it++){ P(z,p,dp,ddp); z-=dp/ddp; } P(z,p,dp,ddp); x[i]=z; w[i]=R(2)/(R(n)*N*p*p); }
  }
  // ---------- primitive shape functions ----------
  // order of contact of the family: 0 for LIP/Legendre, 1,2,3 for HIP..HIP3
  inline int contact(int pb){ switch(pb){ case 3: case 4: case 100: return 0; case 5: case 101: return 1; case 8: return 2; case 9: return 3; } throw std::logic_error("contact"); }
  template<class R> struct Prim {
    int pb,nn,p; std::vector<R> x0; // Hermite nodes
    std::vector<Jet<R>> qinv; // truncated 1/L_i^{p+1} about x_i
    int nprim() const { return pb==3?nn:nn*(p+1); }
    Prim() {}
    Prim(int pb_,int nn_):pb(pb_),nn(nn_),p(contact(pb_)){
      if(pb==3) return;
      std::vector<R> w; if(pb==100||pb==101) { x0.resize(nn); for(int i=0;i<nn;i++) x0[i]=rcos(rpi<R>()*R(nn-1-i)/R(nn-1)); } else lobatto_nodes<R>(nn,x0,w);
      setup(); }
    Prim(int pb_,const std::vector<R>&nodes):pb(pb_),nn(nodes.size()),p(contact(pb_)),x0(nodes){ setup(); }
    void setup(){ qinv.clear(); for(int i=0;i<nn;i++) { Jet<R> L=ljet(i,x0[i],p+1); qinv.push_back(jinv(jpow(L,p+1))); } }
    Jet<R> ljet(int i,R x,int n) const { Jet<R> r(n,R(0)); r[0]=1; for(int j=0;j<nn;j++) if(j!=i) { R d=x0[i]-x0[j]; r=jmul(r,jlin<R>((x-x0[j])/d,R(1)/d,n)); } return r; }
    // Taylor jets (in x) of all primitives at x, n coefficients; e = element scaling
    std::vector<Jet<R>> jets(R x,int n,R e) const {
      std::vector<Jet<R>> out;
      if(pb==3){ std::vector<Jet<R>> P(std::max(nn,2)); P[0]=jlin<R>(R(1),R(0),n); P[1]=jlin<R>(x,R(1),n); for(int k=2;k<nn;k++){ Jet<R> t=jmul(P[1],P[k-1]); P[k].assign(n,R(0)); for(int m=0;m<n;m++) P[k][m]=((2*k-1)*t[m]-(k-1)*P[k-2][m])/R(k); }
        for(int j=0;j<nn;j++){ Jet<R> s(n,R(0)); for(int m=0;m<n;m++){ if(j==0) s[m]=(P[0][m]-P[1][m])/2; else if(j==nn-1) s[m]=(P[0][m]+P[1][m])/2; else s[m]=(P[j+1][m]-P[j-1][m])/rsqrt(R(4*j+2)); } out.push_back(s); }
        return out; }
      for(int i=0;i<nn;i++){ Jet<R> L=jpow(ljet(i,x,n),p+1); Jet<R> t=jlin<R>(x-x0[i],R(1),n);
        R fac=1,ee=1;
        for(int k=0;k<=p;k++){ // t^k/k! * trunc_{p-k}(1/L^{p+1}) * L^{p+1} * e^k
          if(k) { fac*=k; ee*=e; }
          Jet<R> q(n,R(0)); for(int m=p-k;m>=0;m--){ q=jmul(q,t); q[0]+=qinv[i][m]; }
          Jet<R> s=jmul(L,q); if(k) s=jmul(s,jpow(t,k)); for(auto&v:s) v*=ee/fac; out.push_back(s); } }
      return out; }
    // n-th r-derivatives of all primitives at x
    std::vector<R> deriv(R x,int n,R e) const { auto J=jets(x,n+1,e); std::vector<R> o; R f=1; for(int k=2;k<=n;k++) f*=k; for(auto&j:J) o.push_back(j[n]*f/ipow(e,n)); return o; }
    int degree() const { return pb==3? std::max(1,nn-1): nn*(p+1)-1; }
    // n-th r-derivatives of B/r on the first element, r=e(x+1); entries of functions with B(-1)!=0 are meaningless
    std::vector<R> over_r(R x,int n,R e) const { std::vector<R> o; R f=1; for(int k=2;k<=n;k++) f*=k;
      if(x+1<(degree()<=12?R(1)/R(2):degree()<=24?R(1)/R(5):R(1)/R(50))) { int D=degree()+1; auto J=jets(R(-1),D,e); R h=x+1; for(auto&j:J){ R s=0; // sum_{k>=1} j[k] h^{k-1}, n-th derivative
            for(int k=D-1;k>=n+1;k--){ R c=j[k]; for(int m=0;m<n;m++) c*=R(k-1-m); R hp=ipow(h,k-1-n); s+=c*hp; } o.push_back(s/ipow(e,n+1)); } }
      else { auto J=jets(x,n+1,e); Jet<R> ir=jinv(jlin<R>(x+1,R(1),n+1)); for(auto&j:J){ o.push_back(jmul(j,ir)[n]*f/ipow(e,n+1)); } }
      return o; }
    // indices that survive dropping
    std::vector<int> enabled(bool fl,bool dl,bool fr,bool dr) const { std::vector<int> e; int np=nprim();
      for(int i=0;i<np;i++){ bool keep=true; if(p==0){ if(i==0&&fl) keep=false; if(i==np-1&&fr) keep=false; }
        else { int node=i/(p+1),k=i%(p+1); if(node==0&&((k==0&&fl)||(k>0&&dl))) keep=false; if(node==nn-1&&((k==0&&fr)||(k>0&&dr))) keep=false; }
        if(keep) e.push_back(i); } return e; }
  };
  // ---------- finite element space ----------
  struct FE {
    Prim<LD> pr; std::vector<LD> bv; bool fl,dl,fr,dr; std::vector<std::vector<int>> en,gl; int nbf=0;
    FE() {}
    FE(int pb,int nn,const std::vector<LD>&b,bool fl_,bool dl_,bool fr_,bool dr_):pr(pb,nn),bv(b),fl(fl_),dl(dl_),fr(fr_),dr(dr_){ setup(); }
    void setup(){ // glue: function k of the last node of element i is function k of the first node of element i+1
      en.clear(); gl.clear(); nbf=0; int np=pr.nprim(),no=pr.p+1; int ne=nel(); std::vector<int> lastglue(no,-1);
      for(int iel=0;iel<ne;iel++){ auto e=pr.enabled(iel==0&&fl,iel==0&&dl,iel==ne-1&&fr,iel==ne-1&&dr); std::vector<int> g; std::vector<int> ng(no,-1);
        for(int i: e){ int gi; if(iel>0&&i<no) gi=lastglue[i]; else gi=nbf++; g.push_back(gi); if(i>=np-no) ng[i-(np-no)]=gi; }
        lastglue=ng; en.push_back(e); gl.push_back(g); } }
    int nel() const { return (int)bv.size()-1; }
    LD e(int i) const { return (bv[i+1]-bv[i])/2; }
    LD r(LD x,int i) const { return (bv[i+1]+bv[i])/2+e(i)*x; }
    LD x(LD rr,int i) const { return (rr-(bv[i+1]+bv[i])/2)/e(i); }
    int find(LD rr) const { for(int i=0;i<nel();i++) if(rr>=bv[i]&&rr<=bv[i+1]) return i; return -1; }
    std::vector<LD> ev(LD xx,int i,int n) const { auto d=pr.deriv(xx,n,e(i)); std::vector<LD> o; for(int k: en[i]) o.push_back(d[k]); return o; }
    std::vector<LD> evr(LD xx,int i,int n) const { // derivative of B/r
      if(i==0&&bv[0]==0){ auto d=pr.over_r(xx,n,e(0)); std::vector<LD> o; for(int k: en[0]) o.push_back(d[k]); return o; }
      auto J=pr.jets(xx,n+1,e(i)); LD f=1; for(int k=2;k<=n;k++) f*=k; Jet<LD> ir=jinv(jlin<LD>(r(xx,i),e(i),n+1)); std::vector<LD> o; for(int k: en[i]) o.push_back(jmul(J[k],ir)[n]*f/ipow(e(i),n)); return o; }
    // all global functions at coordinate r (zero outside); n-th derivative
    Vec at(LD rr,int n=0) const { Vec v=Vec::Zero(nbf); int i=find(rr); if(i<0) return v; auto d=ev(x(rr,i),i,n); for(size_t k=0;k<d.size();k++) v(gl[i][k])=d[k]; return v; }
    // kinds: 0,1,2 = B,B',B''; 10,11,12 = (B/r) and derivatives
    std::vector<LD> kind(int k,LD xx,int i) const { return k>=10?evr(xx,i,k-10):ev(xx,i,k); }
    // element block of int bra w ket dr, with the element cut at brk and np panels per piece
    template<class W> Mat elem(int i,int bra,int ket,W w,int ng=0,const std::vector<LD>&brk={},int npan=1,LD xl=-1,LD xr=1) const {
      if(!ng) ng=pr.degree()+6; std::vector<LD> b{xl,xr}; for(LD t: brk){ LD xx=x(t,i); if(xx>xl&&xx<xr) b.push_back(xx); } std::sort(b.begin(),b.end());
      Mat M=Mat::Zero(en[i].size(),en[i].size()); const auto&g=gauss<LD>(ng);
      for(size_t s=0;s+1<b.size();s++) for(int pn=0;pn<npan;pn++){ LD lo=b[s]+(b[s+1]-b[s])*pn/npan,hi=b[s]+(b[s+1]-b[s])*(pn+1)/npan,h=(hi-lo)/2,m=(hi+lo)/2; for(int q=0;q<ng;q++){ LD xx=m+h*g.x[q]; auto A=kind(bra,xx,i); auto B=bra==ket?A:kind(ket,xx,i); LD f=g.w[q]*h*e(i)*w(r(xx,i)); for(size_t u=0;u<A.size();u++) for(size_t v=0;v<B.size();v++) M(u,v)+=f*A[u]*B[v]; } }
      return M; }
    template<class W> Mat full(int bra,int ket,W w,int ng=0,const std::vector<LD>&brk={},int npan=1) const { Mat M=Mat::Zero(nbf,nbf); for(int i=0;i<nel();i++){ Mat E=elem(i,bra,ket,w,ng,brk,npan); add(M,E,i); } return M; }
    void add(Mat&M,const Mat&E,int i) const { for(size_t u=0;u<gl[i].size();u++) for(size_t v=0;v<gl[i].size();v++) M(gl[i][u],gl[i][v])+=E(u,v); }
  };
  // ---------- special functions ----------
  template<class R> R legP(int l,R x){ R p0=1,p1=x; if(l==0) return p0; for(int k=2;k<=l;k++){ R p2=((2*k-1)*x*p1-(k-1)*p0)/R(k); p0=p1;p1=p2; } return p1; }
  // theta part of the orthonormal Y_lm (Condon-Shortley): Y_lm = ytheta * e^{i m phi}
  template<class R> R ytheta(int l,int m,R x){ int am=std::abs(m); R s=rsqrt((1-x)*(1+x)); R pmm=R(1)/rsqrt(4*rpi<R>()); for(int k=1;k<=am;k++) pmm*=-s*rsqrt(R(2*k+1)/R(2*k)); R v;
    if(l<am) return 0; if(l==am) v=pmm; else { R p1=x*rsqrt(R(2*am+3))*pmm; R p0=pmm; for(int ll=am+2;ll<=l;ll++){ R a=rsqrt(R(4*ll*ll-1)/R(ll*ll-am*am)); R b=rsqrt(R((ll-1)*(ll-1)-am*am)/R(4*(ll-1)*(ll-1)-1)); R p2=a*(x*p1-b*p0); p0=p1;p1=p2; } v=p1; }
    if(m<0&&(am&1)) v=-v; return v; }
  // Gaunt integral  int Y_{l1 m1}^* Y_{l2 m2} Y_{l3 m3} dOmega by exact quadrature
  inline LD gaunt(int L1,int M1,int l2,int m2,int l3,int m3){ if(M1!=m2+m3) return 0; if(std::abs(M1)>L1||std::abs(m2)>l2||std::abs(m3)>l3) return 0; int ng=(L1+l2+l3)/2+2; const auto&g=gauss<LD>(ng); LD s=0; for(int i=0;i<ng;i++) s+=g.w[i]*ytheta<LD>(L1,M1,g.x[i])*ytheta<LD>(l2,m2,g.x[i])*ytheta<LD>(l3,m3,g.x[i]); return 2*rpi<LD>()*s; }
  // modified spherical Bessel i_L(x) (series) and k_L(x) = sqrt(2/(pi x)) K_{L+1/2}... both via definitions
  inline LD sph_i(int L,LD x){ // series x^L/(2L+1)!! sum (x^2/2)^k/(k!(2L+3)...(2L+2k+1))
    LD pre=1; for(int k=1;k<=L;k++) pre*=x/(2*k+1); LD t=1,s=1,y=x*x/2; for(int k=1;k<2000;k++){ t*=y/(k*(LD)(2*L+2*k+1)); s+=t; if(t<1e-22L*s) break; } return pre*s; }
  inline LD sph_k(int L,LD x){ // e^{-x}/x * sum_{k} (L+k)!/(k!(L-k)!) (2x)^{-k}
    LD s=0,c=1; for(int k=0;k<=L;k++){ if(k) c*=(LD)(L+k)*(L-k+1)/k/(2*x); s+=c; } return expl(-x)/x*s; }
  // ---------- radial two-electron tensors ----------
  inline Vec prod(const FE&R,LD r,int i){ auto v=R.ev(R.x(r,i),i,0); int n=v.size(); Vec p(n*n); for(int a=0;a<n;a++) for(int b=0;b<n;b++) p(a*n+b)=v[a]*v[b]; return p; }
  // panels: geometric towards the origin where the element does not touch it, else npan equal ones
  inline std::vector<LD> panels(LD a,LD b,int npan){ std::vector<LD> v{a}; if(a>0) { int n=std::max(npan,(int)ceill(log2l(b/a))); for(int k=1;k<n;k++) v.push_back(a*powl(b/a,(LD)k/n)); } else for(int k=1;k<npan;k++) v.push_back(a+(b-a)*k/npan); v.push_back(b); return v; }
  // A = int f(r) int_a^r k(r',r) f(r'), result A+A^T
  template<class K> inline Mat intra(const FE&R,int i,K k,int ng,int npan=1){ int n=R.gl[i].size(); Mat M=Mat::Zero(n*n,n*n); const auto&g=gauss<LD>(ng); LD a=R.bv[i],b=R.bv[i+1]; auto P=panels(a,b,npan); for(size_t p=0;p+1<P.size();p++){ LD lo=P[p],hi=P[p+1]; for(int q=0;q<ng;q++){ LD r=(lo+hi)/2+(hi-lo)/2*g.x[q]; Vec in=Vec::Zero(n*n); for(size_t s=0;s<=p;s++) { LD l2=P[s],h2=s==p?r:P[s+1]; for(int u=0;u<ng;u++){ LD rp=(l2+h2)/2+(h2-l2)/2*g.x[u]; in+=g.w[u]*(h2-l2)/2*k(rp,r)*prod(R,rp,i); } } M+=g.w[q]*(hi-lo)/2*prod(R,r,i)*in.transpose(); } } Mat t=M.transpose(); return M+t; }
  inline LD phiL(int n,LD X,LD x){ if(X<x) std::swap(X,x); const auto&g=gauss<LD>(24); LD s=0; int np=1+(int)(2*x); for(int p=0;p<np;p++){ LD lo=X-x+2*x*p/np,hi=X-x+2*x*(p+1)/np,h=(hi-lo)/2,m=(hi+lo)/2; for(int k=0;k<24;k++){ LD Rr=m+h*g.x[k]; s+=g.w[k]*h*erfcl(Rr)*legP<LD>(n,(X*X+x*x-Rr*Rr)/(2*X*x)); } } return s*(2*n+1)/(2*X*x); }
  enum { COULOMB, YUKAWA, ERFC };
  // the whole tensor (ab|cd) of the bare radial kernel over a finite element space
  struct Tei { int n; std::vector<LD> t; LD mx=0; LD&operator()(int a,int b,int c,int d){ return t[((size_t)(a*n+b)*n+c)*n+d]; }
    LD get(int a,int b,int c,int d) const { return t[((size_t)(a*n+b)*n+c)*n+d]; }
    Tei(const FE&R,int kind,int L,LD par,int ngx=0):n(R.nbf),t((size_t)n*n*n*n,0){
      auto ker=[&](LD s,LD r)->LD{ return kind==COULOMB? ipow(s/r,L)/r : kind==YUKAWA? sph_i(L,par*s)*sph_k(L,par*r) : par*phiL(L,par*r,par*s); };
      for(int i=0;i<R.nel();i++) for(int j=i;j<R.nel();j++){ int ni=R.gl[i].size(),nj=R.gl[j].size(); if(!ni||!nj) continue; Mat E;
        if(i==j) { int ng=ngx?ngx:kind==COULOMB?(i?R.pr.degree()+20:2*R.pr.degree()+4)+L/2:R.pr.degree()+22; E=intra(R,i,ker,ng,kind==ERFC?2:1); }
        else if(kind==ERFC) { E=Mat::Zero(ni*ni,nj*nj); const auto&g=gauss<LD>(20); LD ai=R.bv[i],bi=R.bv[i+1],aj=R.bv[j],bj=R.bv[j+1]; for(int p=0;p<2;p++) for(int u=0;u<20;u++){ LD lo=ai+(bi-ai)*p/2,hi=ai+(bi-ai)*(p+1)/2; LD r=(lo+hi)/2+(hi-lo)/2*g.x[u]; Vec in=Vec::Zero(nj*nj); for(int v=0;v<20;v++){ LD rp=(aj+bj)/2+(bj-aj)/2*g.x[v]; in+=g.w[v]*(bj-aj)/2*par*phiL(L,par*r,par*rp)*prod(R,rp,j); } E+=g.w[u]*(hi-lo)/2*prod(R,r,i)*in.transpose(); } }
        else { auto one=[&](int e,bool big){ const auto&g=gauss<LD>(R.pr.degree()+20); int m=R.gl[e].size(); Vec s=Vec::Zero(m*m); auto P=panels(R.bv[e],R.bv[e+1],1); for(size_t p=0;p+1<P.size();p++) for(size_t q=0;q<g.x.size();q++){ LD r=(P[p]+P[p+1])/2+(P[p+1]-P[p])/2*g.x[q]; LD k=kind==COULOMB?(big?1/ipow(r,L+1):ipow(r,L)):(big?sph_k(L,par*r):sph_i(L,par*r)); s+=g.w[q]*(P[p+1]-P[p])/2*k*prod(R,r,e); } return s; }; E=one(i,false)*one(j,true).transpose(); }
        for(int a=0;a<ni;a++) for(int b=0;b<ni;b++) for(int c=0;c<nj;c++) for(int d=0;d<nj;d++){ LD v=E(a*ni+b,c*nj+d); int A=R.gl[i][a],B=R.gl[i][b],C=R.gl[j][c],D=R.gl[j][d]; (*this)(A,B,C,D)+=v; if(i!=j) (*this)(C,D,A,B)+=v; } }
      for(LD v: t) mx=std::max(mx,fabsl(v)); }
    Mat J(const Mat&P) const { Mat M=Mat::Zero(n,n); for(int a=0;a<n;a++) for(int b=0;b<n;b++) for(int c=0;c<n;c++) for(int d=0;d<n;d++) M(a,b)+=get(a,b,c,d)*P(c,d); return M; }
    Mat K(const Mat&P) const { Mat M=Mat::Zero(n,n); for(int a=0;a<n;a++) for(int c=0;c<n;c++) for(int b=0;b<n;b++) for(int d=0;d<n;d++) M(a,c)+=get(a,b,c,d)*P(b,d); return M; } };
  template<class M> Mat toLD(const M&a){ Mat r(a.rows(),a.cols()); for(long i=0;i<a.rows();i++) for(long j=0;j<a.cols();j++) r(i,j)=(LD)a(i,j); return r; }
  inline Eigen::MatrixXd toD(const Mat&a){ return a.cast<double>(); }
}
#endif
