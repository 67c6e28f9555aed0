// C04: quadrature rules and element meshes.
#include "vh.h"
#include "refmath.h"
#include <chebyshev.h>
#include <lobatto.h>
#include <grid.h>
#include <helfem.h>
#include "general/angular.h"
#include "atomic/basis.h"
using namespace ref;
template<class T> const char* tn(); template<> const char* tn<double>(){return "d";} template<> const char* tn<long double>(){return "l";}
template<class T> void rules(){ double eps=std::numeric_limits<T>::epsilon(); int N=H.thorough()?160:80;
  for(int n=-2;n<2;n++) H.run(fmt("%s.lobatto.%d",tn<T>(),n),[=]{ helfem::Vec<T> x,w; H.step(); H.throws([&]{ helfem::lobatto::lobatto_compute<T>(n,x,w); },"lobatto-reject"); });
  for(int n=2;n<=N;n++) H.run(fmt("%s.lobatto.%d",tn<T>(),n),[=]{ helfem::Vec<T> x,w; helfem::lobatto::lobatto_compute<T>(n,x,w); H.step(); if(!H.ok(x.size()==n&&w.size()==n,"size")) return;
    std::vector<Q> rx,rw; lobatto_nodes<Q>(n,rx,rw); double t=200*n*eps; H.close((LD)x(0),-1.0L,0,"lobatto-end"); H.close((LD)x(n-1),1.0L,0,"lobatto-end");
    for(int i=0;i<n;i++){ H.close((LD)x(i),(LD)rx[i],t,"lobatto-node"); H.close((LD)w(i),(LD)rw[i],t*(n>40?n:1)*(double)rw[i]*40,"lobatto-weight"); if(i) H.ok(x(i)>x(i-1),"ascending"); H.ok(w(i)>0,"positive"); }
    // exact for every Legendre polynomial up to degree 2n-3
    for(int l=0;l<=2*n-3;l++){ LD s=0; for(int i=0;i<n;i++) s+=(LD)w(i)*legP<LD>(l,(LD)x(i)); H.close(s,l?0.0L:2.0L,1e4*eps*n,"lobatto-exact",fmt("degree %d",l)); } });
  for(int n=1;n<=N;n++) H.run(fmt("%s.cheb.%d",tn<T>(),n),[=]{ helfem::Vec<T> x,w,r,wr; helfem::chebyshev::chebyshev<T>(n,x,w); helfem::chebyshev::radial_chebyshev<T>(n,r,wr); H.step(2); if(!H.ok(x.size()==n&&w.size()==n&&r.size()==n&&wr.size()==n,"size")) return;
    Q pi=rpi<Q>(); LD sw=0; for(int i=0;i<n;i++){ // independent form: nodes are the antiderivative of the weights
      Q th=pi*(n-i)/Q(n+1); Q s=sinq(th),c=cosq(th); Q X=1-2*th/pi+2/pi*(1+Q(2)/3*s*s)*c*s; Q W=Q(16)/(3*(n+1))*s*s*s*s; H.close((LD)x(i),(LD)X,20*eps,"cheb-node"); H.close((LD)w(i),(LD)W,(50+20*n)*eps*(double)W+4*eps*eps,"cheb-weight"); sw+=(LD)w(i);
      Q om=1-X; H.close((LD)r(i),(LD)(logq(2/om)/logq(2)),60*eps*(double)(1+1/om),"rcheb-node"); H.close((LD)wr(i),(LD)(W/om/logq(2)),(100+20*n)*eps*(double)(W/om)*(double)(1+1/om),"rcheb-weight"); if(i) H.ok(x(i)>x(i-1)&&r(i)>=r(i-1),"ascending"); H.ok(x(i)>-1&&x(i)<1&&r(i)>0&&w(i)>0&&wr(i)>0,"interior"); }
    if(n>=2) H.close(sw,2.0L,40*n*eps,"cheb-sum");
    // convergence to the integral
    if(n>=40){ LD a=0,b=0; for(int i=0;i<n;i++){ a+=(LD)w(i)*expl((LD)x(i)); LD rr=(LD)r(i); b+=(LD)wr(i)*rr*rr*expl(-rr); } H.close(a,expl(1)-expl(-1),40.0/pow(n,4),"cheb-converge"); H.close(b,2.0L,400.0/pow(n,3),"rcheb-converge"); } });
}
template<class T> Vec refgrid(T rmax,int n,int ig,T z){ Vec b(n+1); for(int i=0;i<=n;i++){ Q t=Q(i)/Q(n),R=(Q)rmax,Z=(Q)z,v=0; if(ig==1) v=R*t; else if(ig==2) v=R*t*t; else if(ig==3) v=i?R*powq(t,Z):Q(0); else if(ig==4) v=i?expq(powq(t*powq(logq(R+1),1/Z),Z))-1:Q(0); else v=R*(powq(Z,n-i)-powq(Z,n))/(1-powq(Z,n)); b(i)=(LD)v; } return b; }
template<class T> void meshes(){ double eps=std::numeric_limits<T>::epsilon(); int N=H.thorough()?60:24;
  for(int ig=-1;ig<=7;ig++) for(int n=1;n<=N;n++) H.run(fmt("%s.grid%d.n%d",tn<T>(),ig,n),[=]{ for(T rmax: {T(0.25),T(1),T(7.5),T(40),T(1000)}) for(T z: {T(-0.5),T(0),T(0.3),T(0.5),T(0.9),T(1),T(1.5),T(2),T(3)}){ H.step(); bool known=ig>=1&&ig<=5; bool zok= ig<=2? true: ig==5? (z>0&&z<1): z>0;
        auto call=[&]{ if constexpr(std::is_same<T,double>::value) return helfem::utils::get_grid(rmax,n,ig,z); else return helfem::grid::get_grid<T>(rmax,n,ig,z); };
        if(!known) { H.throws([&]{ call(); },"grid-kind"); continue; } if(!zok) { if(ig==5) H.throws([&]{ call(); },"grid-ratio"); continue; }
        auto b=call(); if(!H.ok(b.size()==n+1,"grid-size")) continue; Vec r=refgrid<T>(rmax,n,ig,z); H.close((LD)b(0),0.0L,0,"grid-begin"); H.close((LD)b(n),(LD)rmax,0,"grid-end"); for(int i=0;i<=n;i++) { H.close((LD)b(i),r(i),1e3*eps*(double)(r(i)+(ig==4||ig==5?1e-1*(double)rmax:0))+1e-300,"grid-node",fmt("rmax=%g z=%g i=%d",(double)rmax,(double)z,i)); }
        bool sep=true; for(int i=1;i<=n;i++) if(r(i)-r(i-1)<1e3L*eps*r(i)) sep=false; if(sep) for(int i=1;i<=n;i++) H.ok(b(i)>b(i-1),"grid-increasing",fmt("rmax=%g z=%g i=%d",(double)rmax,(double)z,i)); } });
}
// compound meshes of the atomic program
void compound(){ using namespace helfem::modelpotential;
  nuclear_model_t ms[]={POINT_NUCLEUS,GAUSSIAN_NUCLEUS,SPHERICAL_NUCLEUS,HOLLOW_NUCLEUS,REGULARIZED_NUCLEUS};
  for(int m=0;m<5;m++) for(int ig: {1,2,3,4,5}) for(int n=1;n<=(H.thorough()?8:4);n++) for(int n0=0;n0<=3;n0++) for(int cfg=0;cfg<6;cfg++) for(int add=0;add<4;add++) H.run(fmt("form.m%d.ig%d.n%d.n0%d.c%d.a%d",m,ig,n,n0,cfg,add),[=]{ vh::Quiet q; H.step(); int Z=3,Zl=0,Zr=0; if(cfg==1) Zl=2; if(cfg==2) Zr=1; if(cfg==3) Zl=Zr=2; if(cfg==4) { Z=0; Zl=1; Zr=1; } if(cfg==5) {Z=5; Zl=1; Zr=4;}
      double Rh=1.25,Rmax=20,z=ig==5?0.6:1.5,Rrms=0.0625; double shift= add==0?0:add==1?0.7:add==2?Rmax:13.0; bool fin=m>=1&&m<=3; bool off=Zl||Zr;
      auto call=[&]{ return add? helfem::atomic::basis::form_grid(ms[m],Rrms,n,Rmax,ig,z,n0,ig,z,Z,Zl,Zr,Rh,true,shift): helfem::atomic::basis::form_grid(ms[m],Rrms,n,Rmax,ig,z,n0,ig,z,Z,Zl,Zr,Rh); };
      if(fin&&off) { H.throws([&]{ call(); },"finite-offcentre"); return; } if(off&&n0==0) return; if(add==2&&(off||(fin&&n0))) return; // no element was asked for between the nuclei
      auto b=call(); std::vector<double> must{0,Rmax}; int ne=n; double rn=m==1?3*Rrms:m==2?sqrt(5.0/3)*Rrms:Rrms;
      auto G=[&](double R,int k){ return refgrid<double>(R,k,ig,z); }; std::vector<LD> e; auto put=[&](LD v){ e.push_back(v); };
      if(fin&&n0){ Vec a=G(rn,n0),c=G(Rmax-2*rn,n); for(int i=0;i<=n0;i++) put(a(i)); for(int i=1;i<=n0;i++) put(rn+a(i)); for(int i=1;i<=n;i++) put(2*(LD)rn+c(i)); }
      else if(off){ int Zs=std::max(Zl,Zr); LD b0=(LD)Z*Rh/(Z+Zs); put(0); if(Z){ Vec a=G((double)b0,n0); for(int i=1;i<=n0;i++) put(a(i)); } Vec a=G(Rh-(double)b0,n0); for(int i=n0-1;i>=0;i--) put((LD)Rh-a(i)); Vec c=G(Rmax-Rh,n); for(int i=1;i<=n;i++) put((LD)Rh+c(i)); }
      else { Vec c=G(Rmax,n); for(int i=0;i<=n;i++) put(c(i)); }
      if(add){ bool in=false; for(LD v: e) if(fabsl(v-shift)<1e-12L) in=true; if(!in) { e.push_back(shift); std::sort(e.begin(),e.end()); } else if((long)b.size()==(long)e.size()+1) { // an almost equal boundary must not create a sliver
          H.ok(false,"sliver"); return; } }
      if(!H.ok(b.size()==(long)e.size(),"form-size",fmt("%ld vs %zu",(long)b.size(),e.size()))) return; for(size_t i=0;i<e.size();i++) { H.close(b(i),e[i],1e-11,"form-node",fmt("i=%zu",i)); if(i) H.ok(b(i)>b(i-1),"form-increasing"); } H.close(b(0),0.0,0,"form-begin"); H.close(b(b.size()-1),Rmax,1e-12,"form-end"); });
  int lm=H.thorough()?8:5; for(int l=0;l<=lm;l++) for(int mm=0;mm<=l;mm++) H.run(fmt("angbasis.%d.%d",l,mm),[=]{ Eigen::VectorXi lv,mv; helfem::atomic::basis::angular_basis(l,mm,lv,mv); H.step(); std::set<std::pair<int,int>> s; for(int i=0;i<lv.size();i++) { H.ok(s.insert({lv(i),mv(i)}).second,"duplicate"); H.ok(lv(i)>=0&&lv(i)<=l&&abs(mv(i))<=std::min(mm,lv(i)),"range"); } size_t n=0; for(int a=0;a<=l;a++) n+=2*std::min(a,mm)+1; H.ok(s.size()==n&&lv.size()==(long)n&&mv.size()==(long)n,"complete"); });
}
void angular(){ int N=H.thorough()?20:12; for(int n=2;n<=N;n++) for(int np=1;np<=N;np++) for(int kind=0;kind<3;kind++) H.run(fmt("angular.k%d.n%d.p%d",kind,n,np),[=]{ helfem::Vector c,p,w; H.step(); int nn=n,pp=np; if(kind==0) helfem::angular::angular_lobatto(n,np,c,p,w); else if(kind==1) helfem::angular::angular_chebyshev(n,np,c,p,w); else { if(np!=n) return; helfem::angular::angular_lobatto(n,c,p,w); helfem::Vector c2,p2,w2; helfem::angular::angular_chebyshev(n,c2,p2,w2); H.ok(c2.size()==n*n,"size"); LD s=0; for(int i=0;i<w2.size();i++) s+=w2(i); H.close(s,4*rpi<LD>(),1e-12,"cheb-area"); }
      if(!H.ok(c.size()==nn*pp&&p.size()==nn*pp&&w.size()==nn*pp,"size")) return; LD a=0; for(int i=0;i<w.size();i++) a+=w(i); H.close(a,4*rpi<LD>(),1e-12,"area");
      if(kind==1) return; for(int l=0;l<=2*n-3;l++) for(int m=0;m<std::min(l+1,np);m++){ LD re=0,im=0; for(int i=0;i<w.size();i++){ LD y=ytheta<LD>(l,m,(LD)c(i)); re+=w(i)*y*cosl(m*(LD)p(i)); im+=w(i)*y*sinl(m*(LD)p(i)); } H.close(re,l==0?sqrtl(4*rpi<LD>()):0.0L,1e-12*(l+1)*4,"sphere-exact",fmt("l=%d m=%d",l,m)); H.close(im,0.0L,1e-12*(l+1)*4,"sphere-exact",fmt("l=%d m=%d im",l,m)); } }); }
void explore(){ helfem::verbose=false; rules<double>(); rules<long double>(); meshes<double>(); meshes<long double>(); compound(); angular(); }
VH_MAIN
