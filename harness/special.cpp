// C05: special functions against independent quad precision definitions.
#include "vh.h"
#include "refmath.h"
#include "legendre/Legendre.h"
#include "general/spherical_harmonics.h"
#include "general/lcao.h"
#include <legendre_poly.h>

#include <math.h>
#include "utils.h"
#include "erfc_expn.h"
using namespace ref;
template<class T> const char* tn(); template<> const char* tn<double>(){return "d";} template<> const char* tn<long double>(){return "l";}
// m-th derivatives of P_l and Q_l by jets
static void pq(Q x,int lmax,int mmax,std::vector<std::vector<Q>>&P,std::vector<std::vector<Q>>&Qm,bool wantq){ int n=mmax+1; bool cut=rabs(x)<1; Q w=sqrtq(rabs(1-x*x));
  std::vector<Jet<Q>> p(lmax+2),q(lmax+2); p[0]=jlin<Q>(Q(1),Q(0),n); p[1]=jlin<Q>(x,Q(1),n);
  Jet<Q> q0(n,Q(0)); if(wantq){ // Q0' = 1/(1-x^2)
    q0[0]=Q(0.5)*logq(rabs((x+1)/(x-1))); Jet<Q> d=jinv(jmul(jlin<Q>(1-x,Q(-1),n),jlin<Q>(1+x,Q(1),n))); for(int k=1;k<n;k++) q0[k]=d[k-1]/Q(k); q[0]=q0; q[1]=jmul(p[1],q0); q[1][0]-=1; }
  auto rec=[&](std::vector<Jet<Q>>&f){ for(int k=2;k<=lmax;k++){ auto t=jmul(p[1],f[k-1]); f[k].assign(n,Q(0)); for(int j=0;j<n;j++) f[k][j]=((2*k-1)*t[j]-(k-1)*f[k-2][j])/Q(k); } }; rec(p); if(wantq) rec(q);
  P.assign(lmax+1,std::vector<Q>(mmax+1,Q(0))); Qm=P; for(int l=0;l<=lmax;l++){ Q f=1; for(int m=0;m<=mmax;m++){ if(m) f*=Q(m)*w*(cut?-1:1); P[l][m]=p[l][m]*f; if(wantq) Qm[l][m]=q[l][m]*f; } }
}
// Q_l^m outside the cut by Heine-type integral with panels refined towards t=1
static Q qint(int l,int m,Q x){ const auto&g=gauss<Q>(50); Q s=0; Q ax=rabs(x); std::vector<Q> b{-1}; Q h=1; for(int k=0;k<60;k++){ b.push_back(1-h); h/=2; if(h<(ax-1)*Q(0.05)) break; } b.push_back(1); for(size_t i=0;i+1<b.size();i++){ Q hh=(b[i+1]-b[i])/2,mm=(b[i+1]+b[i])/2; for(int k=0;k<50;k++){ Q t=mm+hh*g.x[k]; s+=g.w[k]*hh*ipow((1-t*t)/(2*(ax-t)),l)/ipow(ax-t,m+1); } }
  Q f=Q(0.5); for(int k=1;k<=m;k++) f*=-Q(l+k); f*=ipow(sqrtq(ax*ax-1),m); Q v=f*s; if(x<0&&((l+m+1)&1)) v=-v; return v; }
template<class T> void legendre(){ double eps=std::numeric_limits<T>::epsilon(); int LM=H.thorough()?40:24,MM=H.thorough()?10:6;
  std::vector<LD> xs{-0.999L,-0.7L,-0.3L,0,0.125L,0.5L,0.9L,0.99L,1.0009765625L,1.001953125L,1.01L,1.03L,1.0625L,1.1L,1.125L,1.2L,1.25L,1.5L,2,3,5,10,50,1000};
  for(LD xl: xs) for(int lm=0;lm<=LM;lm++) H.run(fmt("%s.plm.x%.10Lg.l%d",tn<T>(),xl,lm),[=]{ T x=(T)xl; for(int mm: {0,1,2,MM}){ std::vector<T> P((lm+1)*(mm+1),T(-77)),QQ(P); helfem::legendre::plm<T>(P.data(),lm,mm,x); helfem::legendre::qlm<T>(QQ.data(),lm,mm,x); H.step(2); std::vector<std::vector<Q>> rp,rq; pq((Q)x,lm,mm,rp,rq,rabs((Q)x)<1);
      for(int m=0;m<=mm;m++){ Q sp=0; for(int l=0;l<=lm;l++) if(rabs(rp[l][m])>sp) sp=rabs(rp[l][m]); for(int l=0;l<=lm;l++){ LD p=(LD)P[m*(lm+1)+l]; double tol=1e4*eps*(double)(rabs(x)>1?rabs(rp[l][m]):std::max(rabs(rp[l][m]),sp))+1e-300; if(m>l) H.close(p,0.0L,0,"plm-zero",fmt("l=%d m=%d",l,m)); else H.close(p,(LD)rp[l][m],tol,"plm",fmt("l=%d m=%d x=%.17Lg",l,m,(LD)x));
          Q rv=rabs((Q)x)<1?rq[l][m]:qint(l,m,(Q)x); double qs=(double)rabs(rv); if(rabs((Q)x)<1) for(int k=0;k<=lm;k++) qs=std::max(qs,(double)rabs(rq[k][m])); H.close((LD)QQ[m*(lm+1)+l],(LD)rv,2e6*eps*qs+1e-300,"qlm",fmt("l=%d m=%d mm=%d x=%.17Lg",l,m,mm,(LD)x)); } } } });
  for(int k=0;k<4;k++) H.run(fmt("%s.legreject.%d",tn<T>(),k),[=]{ std::vector<T> b(64,T(0)); H.step(); if(k==0) H.throws([&]{ helfem::legendre::qlm<T>(b.data(),3,2,T(1)); },"q-singular"); if(k==1) H.throws([&]{ helfem::legendre::qlm<T>(b.data(),3,2,T(-1)); },"q-singular"); if(k==2) { H.throws([&]{ helfem::legendre::qlm<T>(b.data(),-1,2,T(2)); },"neg"); H.throws([&]{ helfem::legendre::qlm<T>(b.data(),1,-2,T(2)); },"neg"); } if(k==3) { H.throws([&]{ helfem::legendre::plm<T>(b.data(),-1,2,T(2)); },"neg"); H.throws([&]{ helfem::legendre::plm<T>(b.data(),1,-2,T(2)); },"neg"); for(T x: {T(1),T(-1)}){ helfem::legendre::plm<T>(b.data(),5,2,x); for(int l=0;l<=5;l++) { H.close((LD)b[l],(LD)(x>0||l%2==0?1:-1),4*eps,"plm-end"); H.close((LD)b[6+l],0.0L,1e-12,"plm-end"); } } } });
  // a call with small orders after one with large orders and vice versa (thread-local workspaces)
  for(int a=0;a<=12;a++) for(int b=0;b<=12;b++) H.run(fmt("%s.workspace.%d.%d",tn<T>(),a,b),[=]{ for(T x: {T(1.01),T(1.3),T(4)}){ std::vector<T> A((a+1)*3),B((b+1)*3),C((b+1)*3); helfem::legendre::qlm<T>(C.data(),b,2,x); helfem::legendre::qlm<T>(A.data(),a,2,x); helfem::legendre::qlm<T>(B.data(),b,2,x); H.step(3); for(size_t i=0;i<B.size();i++) H.close((LD)B[i],(LD)C[i],0,"history"); } });
  // polynomial batches
  for(int lm=0;lm<=(H.thorough()?40:20);lm++) H.run(fmt("%s.batch.%d",tn<T>(),lm),[=]{ std::vector<LD> v{-1,-0.77L,-0.1L,0,0.33L,0.9L,1,1.5L}; helfem::Vec<T> x(v.size()); for(size_t i=0;i<v.size();i++) x(i)=(T)v[i]; auto P=helfem::legendre::legendre_batch<T>(lm,x); auto D=helfem::legendre::dlegendre_batch<T>(lm,x); auto E=helfem::legendre::d2legendre_batch<T>(lm,x); H.step(3); H.ok(P.rows()==x.size()&&P.cols()==lm+1&&D.cols()==lm+1&&E.cols()==lm+1,"batch-size");
    for(int i=0;i<x.size();i++){ std::vector<Jet<Q>> p(lm+2); p[0]=jlin<Q>(Q(1),Q(0),3); p[1]=jlin<Q>((Q)x(i),Q(1),3); for(int k=2;k<=lm;k++){ auto t=jmul(p[1],p[k-1]); p[k].assign(3,Q(0)); for(int j=0;j<3;j++) p[k][j]=((2*k-1)*t[j]-(k-1)*p[k-2][j])/Q(k); } for(int l=0;l<=lm;l++){ double sc=rabs(x(i))>1?std::max(1.0,(double)rabs(p[l][0])):1; LD L2=l*(l+1)+1; H.close((LD)P(i,l),(LD)p[l][0],1e3*eps*sc,"P"); H.close((LD)D(i,l),(LD)p[l][1],1e3*eps*sc*(double)L2,"dP"); H.close((LD)E(i,l),(LD)(2*p[l][2]),1e3*eps*sc*(double)(L2*L2),"d2P"); } } });
}
template<class T> void bessel(){ double eps=std::numeric_limits<T>::epsilon(); int LM=H.thorough()?12:8; 
  for(int L=0;L<=LM;L++) H.run(fmt("%s.bessel.%d",tn<T>(),L),[=]{ std::vector<LD> xs; for(LD x=1e-8L;x<60;x*=1.37L) xs.push_back(x); for(LD x: {0.0L,0.49999L,0.5L,0.50001L,1.0L,2.0L,20.0L}) xs.push_back(x); helfem::Vec<T> X(xs.size()); for(size_t i=0;i<xs.size();i++) X(i)=(T)xs[i]; auto I=helfem::math::bessel_il<T>(X,L); for(size_t i=0;i<xs.size();i++){ LD x=(LD)X(i); LD r=sph_i(L,x); H.close((LD)helfem::utils::bessel_il<T>(X(i),L),r,2e3*eps*(double)r+1e-300,"il",fmt("x=%Lg",x)); H.close((LD)I(i),r,2e3*eps*(double)r+1e-300,"il-vec"); H.close((LD)helfem::math::bessel_il<T>(-X(i),L),(L&1)?-r:r,2e3*eps*(double)r+1e-300,"il-odd"); H.step(2); if(x>1e-2L){ LD k=sph_k(L,x); H.close((LD)helfem::utils::bessel_kl<T>(X(i),L),k,2e4*eps*(double)k,"kl",fmt("x=%Lg",x)); } } });
  H.run(fmt("%s.hyperbolic",tn<T>()),[=]{ for(LD x: {0.5L,1.0L,1.0000001L,1.5L,10.0L,1e6L}) { T t=(T)x; H.step(); H.close((LD)helfem::math::arcosh<T>(t),x<1?0.0L:acoshl((LD)t),10*eps*(1+fabs((double)acoshl(std::max(1.0L,x)))),"arcosh"); } for(LD x: {-3.0L,-0.1L,0.0L,1e-5L,2.0L,1e6L}) { T t=(T)x; H.close((LD)helfem::math::arsinh<T>(t),asinhl((LD)t),10*eps*fabs((double)asinhl(x))+1e-300,"arsinh"); } }); }
// erfc expansion: Phi_n = (2n+1)/(2 Xi xi) int_{|Xi-xi|}^{Xi+xi} erfc(R) P_n((Xi^2+xi^2-R^2)/(2 Xi xi)) dR
static Q phiref(int n,Q X,Q x){ if(X<x) std::swap(X,x); const auto&g=gauss<Q>(40); Q s=0; int np=4+(int)(4*x); for(int p=0;p<np;p++){ Q lo=X-x+2*x*Q(p)/np,hi=X-x+2*x*Q(p+1)/np,h=(hi-lo)/2,m=(hi+lo)/2; for(int k=0;k<40;k++){ Q R=m+h*g.x[k]; s+=g.w[k]*h*erfcq(R)*legP<Q>(n,(X*X+x*x-R*R)/(2*X*x)); } } return s*Q(2*n+1)/(2*X*x); }
template<class T> void erfcphi(){ double eps=std::numeric_limits<T>::epsilon(); std::vector<LD> v{0.01L,0.05L,0.1L,0.2L,0.3L,0.39L,0.4L,0.41L,0.45L,0.499L,0.5L,0.55L,0.7L,1,1.4L,2,3,4.5L};
  for(int n=0;n<=(H.thorough()?8:6);n++) for(LD a: v) for(LD b: v) H.run(fmt("%s.phi.%d.%Lg.%Lg",tn<T>(),n,a,b),[=]{ T A=(T)a,B=(T)b; H.step(); LD got=(LD)helfem::erfc_expn::Phi<T>(n,A,B); Q r=phiref(n,(Q)A,(Q)B); LD X=std::max(a,b),x=std::min(a,b); bool shrt=x<0.4L||(X<0.5L); 
      double noise=0; if(shrt) { noise=1/(double)powl(X,n+1); } else { double pf=1/(4*(double)(X*x)),fac=1; double t=0; for(int q=0;q<=n;q++){ t+=std::pow(pf,q+1)*std::tgamma(n+q+1)/std::tgamma(q+1)/std::tgamma(n-q+1); } noise=4*t*(n+1)*((double)(X/x+x/X))*std::pow((double)(X/x),n)+std::pow((double)(X/x),n)/(double)x*2; }
      H.close(got,(LD)r,200*eps*noise+200*eps*(double)rabs(r),"phi",fmt("n=%d Xi=%Lg xi=%Lg",n,a,b)); H.close((LD)helfem::erfc_expn::Phi<T>(n,B,A),got,4*eps*std::fabs((double)got),"phi-symmetric"); });
}
void harmonics(){ int LM=H.thorough()?12:8; for(int l=0;l<=LM;l++) for(int m=-l;m<=l;m++) H.run(fmt("ylm.%d.%d",l,m),[=]{ for(double c: {-1.0,-0.9,-0.4,0.0,0.3,0.77,0.999,1.0}) for(double p: {0.0,0.7,2.0,3.5,6.2,-1.1}){ H.step(); auto y=spherical_harmonics(l,m,c,p); LD t=ytheta<LD>(l,m,(LD)c); H.close(y.real(),t*cosl(m*(LD)p),1e-13*(l+1)*4,"ylm",fmt("re c=%g p=%g",c,p)); H.close(y.imag(),t*sinl(m*(LD)p),1e-13*(l+1)*4,"ylm",fmt("im c=%g p=%g",c,p)); } });
  for(int l=0;l<=5;l++) for(int k=0;k<2;k++) H.run(fmt("lcao.%d.%d",k,l),[=]{ helfem::Vector al(4); al<<0.3,1,4.5,20; helfem::Vector rr(1); for(int j=0;j<4;j++){ auto f=[&](LD r){ return k?(LD)helfem::lcao::radial_STO((double)r,l,al(j)):(LD)helfem::lcao::radial_GTO((double)r,l,al(j)); }; LD R=k?90/al(j):10/sqrt(al(j)); LD s=integrate<LD>([&](LD r){ LD v=f(r); return r*r*v*v; },0,R,30,40); H.close(s,1.0L,1e-11,"normalised"); H.step();
      rr(0)=0.4+j; auto M=k?helfem::lcao::radial_STO(rr,l,al):helfem::lcao::radial_GTO(rr,l,al); for(int q=0;q<4;q++) H.close(M(0,q),k?helfem::lcao::radial_STO(rr(0),l,al(q)):helfem::lcao::radial_GTO(rr(0),l,al(q)),1e-13,"batch");
      LD e=f(2)/f(1); LD x=k?ipow(2.0L,l)*expl(-(LD)al(j)):ipow(2.0L,l)*expl(-3*(LD)al(j)); H.close(e,x,1e-11*(double)x,"shape"); } }); }
void explore(){ legendre<double>(); legendre<long double>(); bessel<double>(); bessel<long double>(); erfcphi<double>(); erfcphi<long double>(); harmonics(); }
VH_MAIN
