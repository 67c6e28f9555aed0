// C08: nuclear models, initial-guess potentials, confinement potentials and their matrix elements; element tables.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <FiniteElementBasis.h>
#include <RadialBasis.h>
#include <helfem.h>
#include <general/model_potential.h>
#include <general/gsz.h>
#include <general/sap.h>
#include <general/elements.h>
#include <memory>
using namespace ref; namespace pb=helfem::polynomial_basis; namespace ab=helfem::atomic::basis; namespace mp=helfem::modelpotential;
template<class T> const char* tn(); template<> const char* tn<double>(){return "d";} template<> const char* tn<long double>(){return "l";}
static const LD PI=rpi<LD>();
// ---- reference potentials (quad where cancellation matters) ----
static LD erf_over(LD mu,LD r){ Q x=(Q)mu*(Q)r; if(x<1e-3Q){ Q s=0,t=1; for(int k=0;k<12;k++){ s+=t/(2*k+1); t*=-x*x/(k+1); } return (LD)(2/sqrtq(M_PIq)*(Q)mu*s); } return (LD)(erfq(x)/(Q)r); }
struct Reg { Q a,b; // Gygi regularised potential of unit charge
  LD V(LD r) const { Q x=r,e=expq(-a*a*x*x),sp=sqrtq(M_PIq); Q er=erfq(a*x); Q de=2*a/sp*e; // d/dr erf
    Q h1=-er-x*de+2*a*a*b*x*e; Q h2=-2*de+2*a*a*x*x*de+2*a*a*b*e*(1-2*a*a*x*x);
    Q h1r; if(a*x<1e-4Q){ Q y=a*x; Q eo=2/sp*a*(1-y*y/3+y*y*y*y/10); h1r=-eo-de+2*a*a*b*e; } else h1r=h1/x;
    return (LD)(-0.5Q+h1r+(h2+h1*h1)/2); } };
static Q reg_norm(Q a,Q b){ const auto&g=gauss<Q>(60); Q s=0; for(int p=0;p<60;p++) for(int i=0;i<60;i++){ Q r=p+0.5Q+g.x[i]/2; Q h=-r*erfq(a*r)-b*expq(-a*a*r*r); s+=g.w[i]/2*4*r*r*expq(2*h); } return s; }
static Reg reg(double a){ static std::map<double,Reg> c; auto it=c.find(a); if(it!=c.end()) return it->second; Q lo=1e-4Q,hi=20; for(int k=0;k<110;k++){ Q m=(lo+hi)/2; if(reg_norm(a,m)>1) lo=m; else hi=m; } return c[a]=Reg{(Q)a,(lo+hi)/2}; }
static LD Vref(int model,int Z,LD R,LD r){ switch(model){ case mp::POINT_NUCLEUS: return -Z/r; case mp::GAUSSIAN_NUCLEUS: return -Z*erf_over(sqrtl(1.5L)/R,r);
  case mp::SPHERICAL_NUCLEUS: { LD R0=sqrtl(5.0L/3)*R; return r>=R0?-Z/r:-Z/(2*R0)*(3-r*r/R0/R0); } case mp::HOLLOW_NUCLEUS: return r>=R?-Z/r:-Z/R; case mp::REGULARIZED_NUCLEUS: return Z*(LD)Z*reg((double)R).V(Z*r); } return 0; }
static LD kinkref(int model,LD R){ if(model==mp::SPHERICAL_NUCLEUS) return sqrtl(5.0L/3)*R; if(model==mp::HOLLOW_NUCLEUS) return R; return -1; }
template<class T> ab::FEMRadialBasisT<T> mk(int f,int nn,const std::vector<LD>&b,int nq){ auto p=std::shared_ptr<const pb::PolynomialBasisT<T>>(pb::get_basis_T<T>(f,nn)); helfem::Vec<T> v(b.size()); for(size_t i=0;i<b.size();i++) v(i)=(T)b[i]; return ab::FEMRadialBasisT<T>(pb::FiniteElementBasisT<T>(p,v,true,false,true,false),nq); }
static const char* names[]={"point","gauss","sphere","hollow","regular"};
template<class T> void cases(){ double eps=std::numeric_limits<T>::epsilon();
  for(int m=0;m<5;m++) for(int Z: {1,2,3,10,54,118}) for(double Rd: (m==4?std::vector<double>{1,2,3,4}:std::vector<double>{1e-5,7e-4,0.0625,1.5})){
    if(m==0&&Rd!=1e-5) continue;
    H.run(fmt("%s.V.%s.Z%d.R%g",tn<T>(),names[m],Z,Rd),[=]{ vh::Quiet q; T R=(T)Rd; std::unique_ptr<mp::ModelPotentialT<T>> p(mp::get_nuclear_model<T>((mp::nuclear_model_t)m,Z,R)); H.step();
      std::vector<LD> rs; for(int e=-9;e<=2;e++) for(LD c: {1.0L,1.7L,3.1L,6.4L}) rs.push_back(c*powl(10,e)); LD scale=m==4?1.0L/Z:(LD)R; for(int k=1;k<=200;k++) rs.push_back(scale*0.02L*k); for(int k=-12;k<=0;k++) for(LD c: {1.0L,1.5L,2.3L,3.3L,4.7L,6.9L}) rs.push_back(scale*c*powl(10,k)); if(m) rs.push_back(0); LD kk=kinkref(m,(LD)R); if(kk>0) { rs.push_back(kk); rs.push_back(kk*(1-1e-6L)); rs.push_back(kk*(1+1e-6L)); }
      for(LD r0: rs){ T r=(T)r0; if(m==0&&r==0) continue; LD e=Vref(m,Z,(LD)R,(LD)r); double t=64*eps*(double)fabsl(e); if(m==4) t=(sizeof(T)==8?3e-12:1e-12)*Z*Z*(double)(1+fabsl(e)/Z/Z); H.close((LD)p->V(r),e,t,"V",fmt("r=%Lg",(LD)r)); H.step(); }
      for(LD r: {20.0L,35.0L}) { if(m==4&&Rd<2) continue; H.close((LD)p->V((T)r),-Z/r,(m==4?1e-10*Z*Z:1e-12*Z)*(m==0?1:1),"asymptote"); }
      // breakpoints: strictly inside only
      std::vector<LD> ends{0,1e-7L,3}; if(kk>0) { ends.push_back(kk); ends.push_back(kk/2); ends.push_back(kk*2); }
      for(LD a: ends) for(LD b: ends) if(a<b){ auto br=p->breakpoints((T)a,(T)b); bool exp=kk>0&&a<kk&&kk<b&&(T)a<(T)kk&&(T)kk<(T)b; 
        if(kk>0&&(fabsl(a-kk)<1e-10L*kk||fabsl(b-kk)<1e-10L*kk)) { // coincident up to rounding of the radius: must not be outside
          for(auto x: br) H.ok(x>=(T)a&&x<=(T)b,"breakpoint-outside"); continue; }
        H.ok(br.size()==(exp?1u:0u),"breakpoints",fmt("a=%Lg b=%Lg n=%zu",a,b,br.size())); if(exp&&br.size()==1) H.close((LD)br[0],kk,10*eps*(double)kk,"breakpoint-at"); H.step(); } }); }
  // setters
  H.run(fmt("%s.setters",tn<T>()),[=]{ vh::Quiet q; mp::GaussianNucleusT<T> g(7,T(0.3)); mp::SphericalNucleusT<T> s(7,T(0.3)); mp::HollowNucleusT<T> h(7,T(0.3)); mp::RegularizedNucleusT<T> rg(3,T(2));
    H.close((LD)g.get_mu(),sqrtl(1.5L)/(LD)T(0.3),30*eps*5,"mu"); H.close((LD)s.get_R0(),sqrtl(5.0L/3)*(LD)T(0.3),30*eps,"R0"); H.close((LD)h.get_R(),(LD)T(0.3),0,"R"); H.close((LD)rg.get_a(),2,0,"a"); H.close((LD)rg.get_b(),(LD)reg(2).b,2e-11,"b");
    for(double v: {0.01,0.4,2.0}){ g.set_mu(T(1/v)); s.set_R0(T(v)); h.set_R(T(v)); H.step(3); for(LD r: {0.0L,1e-6L,1e-4L,1e-3L,3e-3L,0.02L,0.2L,0.39L,0.41L,1.9L,2.1L,5.0L}){ T rr=(T)r; LD R=(LD)(T)v; H.close((LD)g.V(rr),-7*erf_over((LD)T(1/v),(LD)rr),64*eps*20/v,"set-mu"); H.close((LD)s.V(rr),rr>=(T)v?-7/(LD)rr:-7/(2*R)*(3-(LD)rr*rr/R/R),64*eps*20/v,"set-R0"); H.close((LD)h.V(rr),rr>=(T)v?-7/(LD)rr:-7/R,64*eps*20/v,"set-R"); } auto b1=s.breakpoints(T(v/2),T(v*2)),b2=h.breakpoints(T(v/2),T(v*2)); H.ok(b1.size()==1&&b2.size()==1&&b1[0]==(T)v&&b2[0]==(T)v,"set-breakpoint"); }
    rg.set_a(T(3)); H.close((LD)rg.get_b(),(LD)reg(3).b,2e-11,"b"); H.close((LD)rg.V(T(0.2)),Vref(4,3,3,(LD)T(0.2)),1e-10,"set-a");
    H.throws([&]{ mp::get_nuclear_model<T>(mp::NOSUCH_NUCLEUS,1,T(1)); },"nosuch"); });
  // matrix elements of the models, per element
  std::vector<std::vector<LD>> G{{0,0.5L,3},{0,0.25L,1,6},{0,2}}; if(H.thorough()) { G.push_back({0,0.02L,0.1L,0.7L,4,20}); }
  for(int f: {4,5,8}) for(size_t g=0;g<G.size();g++) for(int m=0;m<5;m++) for(int Z: {1,7}) for(double Rd: (m==4?std::vector<double>{1,2}:m==0?std::vector<double>{0}:std::vector<double>{0.05,0.2,0.3,0.5,1.5})) H.run(fmt("%s.M.%s.f%d.g%zu.Z%d.R%g",tn<T>(),names[m],f,g,Z,Rd),[=]{ vh::Quiet q; if(m==1&&Rd<0.1) return; int nn=f==4?5:3; auto B=mk<T>(f,nn,G[g],30); FE R(f,nn,G[g],true,false,true,false); std::unique_ptr<mp::ModelPotentialT<T>> p(mp::get_nuclear_model<T>((mp::nuclear_model_t)m,Z,(T)Rd));
      for(int i=0;i<R.nel();i++){ std::vector<LD> br; LD kk=kinkref(m,(LD)(T)Rd); if(kk>0) br.push_back(kk); int np=m==1||m==4?24:1; Mat E= (m==0&&i==0)? R.elem(i,10,10,[=](LD r){return -Z*r;},40): (i==0&&kk>0)?R.elem(i,10,10,[=](LD r){return r>=kk?-Z*r:r*r*Vref(m,Z,(LD)(T)Rd,r);},40,br,1):R.elem(i,0,0,[=](LD r){return Vref(m,Z,(LD)(T)Rd,r);},m==0||kk>0?60:40,br,np);
        H.mclose(B.model_potential(p.get(),i),E,(sizeof(T)==8?5e-11:(m==4?1e-10:1e-11))*(double)(1+E.cwiseAbs().maxCoeff())*(m==4?Z*Z:1),"model-matel",fmt("el=%d",i)); H.step(); } });
  // confinement
  for(int f: {4,5}) for(size_t g=0;g<G.size();g++) for(double sh: {0.0,0.02,0.125,0.25,0.49,0.5,1.0,1.98,2.5,2.97,5.95,7.0}) H.run(fmt("%s.C.f%d.g%zu.s%g",tn<T>(),f,g,sh),[=]{ vh::Quiet q; int nn=f==4?5:3; auto B=mk<T>(f,nn,G[g],30); FE R(f,nn,G[g],true,false,true,false); LD s=sh; LD rc=R.bv.back();
      for(int i=0;i<R.nel();i++){ auto tol=[&](const Mat&E){ return (sizeof(T)==8?2e-11:2e-12)*(double)(1+E.cwiseAbs().maxCoeff()); };
        for(double r0: {0.7,2.0,-1.5}) for(int N=0;N<=6;N++){ Mat E=R.elem(i,0,0,[=](LD r){return r<s?0.0L:(r0<0?-1:1)*ipow((r-s)/fabsl((LD)r0),N);},40,{s}); H.mclose(B.confinement_potential(i,N,(T)r0,1,T(0),(T)s),E,tol(E),"conf-poly",fmt("N=%d r0=%g el=%d",N,r0,i)); H.step();
          if(N>=1&&r0>0) { LD fac=1; for(int k=2;k<=N;k++) fac*=k; Mat X=R.elem(i,0,0,[=](LD r){ if(r<s) return 0.0L; Q x=((Q)r-(Q)s)/(Q)r0; Q v=0; if(x<1){ Q t=1; for(int k=1;k<=N;k++) t*=x/k; for(int k=N;k<N+60;k++){ v+=t; t*=x/(k+1); } } else { v=expq(x); Q t=1; for(int k=0;k<N;k++){ v-=t; t*=x/(k+1); } } return (LD)(v*(Q)fac); },40,{s},2); H.mclose(B.confinement_potential(i,N,(T)r0,2,T(0),(T)s),X,tol(X)*(double)fac,"conf-exp",fmt("N=%d r0=%g el=%d",N,r0,i)); H.step(); } }
        for(double V: {0.0,3.5}){ Mat E=R.elem(i,0,0,[=](LD r){return r<s?0.0L:(LD)V;},40,{s}); H.mclose(B.confinement_potential(i,0,T(1),3,(T)V,(T)s),E,tol(E),"conf-barrier"); H.step(); }
        // the soft wall diverges as (rc-r)^-N at the practical infinity, where the functions vanish linearly: N<=2 is integrable
        for(int N=1;N<=2;N++) for(double V: {0.5,2.0}) { if(!(s<rc)) continue; Mat E; LD lo=std::max(s,R.bv[i]); if(i<R.nel()-1) E=R.elem(i,0,0,[=](LD r){return r<=s?0.0L:V*expl(-(rc-s)/(r-s))/ipow(rc-r,N);},40,{s},40); else E=R.elem(i,0,0,[=](LD r){return r<=s?0.0L:V*expl(-(rc-s)/(r-s))/ipow(rc-r,N);},40,{s},40); H.mclose(B.confinement_potential(i,N,T(1),4,(T)V,(T)s),E,(N==1?1e-7:2e-4)*(double)(1+E.cwiseAbs().maxCoeff()),"conf-soft",fmt("N=%d el=%d",N,i)); H.step(); }
        if(sh!=0) for(int N=-3;N<0;N++) H.throws([&]{ B.confinement_potential(i,N,T(1),1,T(0),(T)s); },"conf-neg-shift");
        else { for(int N=-2;N<0;N++){ Mat E=R.elem(i,10,10,[=](LD r){return ipow(r,N+2);},40); H.mclose(B.confinement_potential(i,N,T(1),1,T(0),T(0)),E,tol(E),"conf-neg"); H.step(); } }
        for(int N: {0,-1,-2}) { H.throws([&]{ B.confinement_potential(i,N,T(1),2,T(0),(T)s); },"conf-exp-N"); H.throws([&]{ B.confinement_potential(i,N,T(1),4,T(1),(T)s); },"conf-soft-N"); }
        H.throws([&]{ B.confinement_potential(i,1,T(1),3,T(-1),(T)s); },"conf-attractive"); H.throws([&]{ B.confinement_potential(i,1,T(1),4,T(-1),(T)s); },"conf-attractive"); H.throws([&]{ B.confinement_potential(i,1,T(1),4,T(0),(T)s); },"conf-attractive");
        for(int k: {0,5,-1}) H.throws([&]{ B.confinement_potential(i,1,T(1),k,T(1),(T)s); },"conf-unknown"); } });
}
static const double dz[]={1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0.708, 0.575, 0.500, 0.561, 0.621, 0.729, 0.817, 0.868, 0.885, 0.881, 0.862, 1.006, 1.154, 1.116, 1.060, 0.996, 0.837, 0.866, 0.807, 0.751, 0.700, 0.606, 0.612, 0.631, 0.649, 0.663, 0.675, 0.684, 0.689, 0.744, 0.798, 0.855, 0.866, 0.831, 0.825, 0.855, 0.803, 0.788, 0.737, 0.754, 0.775, 0.810, 0.841, 0.870, 0.896, 0.919, 0.940, 1.022, 1.108, 1.150, 1.081, 0.970, 0.938, 0.905, 0.873, 0.842, 0.862, 0.830, 0.754, 0.728, 0.702, 0.677, 0.654, 0.665, 0.672, 0.676, 0.679, 0.680, 0.680, 0.679, 0.661, 0.657, 0.671, 0.690, 0.708, 0.726, 0.744, 0.761, 0.777, 0.818, 0.859, 0.899, 0.927, 0.887, 0.880, 0.872, 0.832, 0.822, 0.842, 0.830, 0.790, 0.778, 0.766, 0.754, 0.742, 0.755};
static void guesses(){ std::vector<double> rs; for(int e=-6;e<=1;e++) for(double c: {1.0,1.37,2.4,4.9,7.7}) rs.push_back(c*pow(10,e));
  for(int Z=1;Z<=120;Z++){ H.run(fmt("gsz.Z%d",Z),[=]{ double d,h; if(Z>103){ H.throws([&]{ helfem::GSZ::GSZ_parameters(Z,d,h); },"gsz-range"); H.throws([&]{ mp::GSZAtom a(Z); },"gsz-range"); return; } helfem::GSZ::GSZ_parameters(Z,d,h); double Hr=dz[Z-1]*pow(Z-1,0.4); H.close(d,dz[Z-1],1e-14,"gsz-d"); H.close(h,Hr,1e-13,"gsz-H"); mp::GSZAtom a(Z),b(Z,0.6,1.7); helfem::Vector rv(rs.size()); for(size_t i=0;i<rs.size();i++) rv(i)=rs[i]; helfem::Vector zv=helfem::GSZ::Z_GSZ(rv,Z),zw=helfem::GSZ::Z_GSZ(rv,(double)Z,0.6,1.7); H.step(4);
      for(size_t i=0;i<rs.size();i++){ LD r=rs[i],e=1+(Z-1)/(1+(expl(r/dz[Z-1])-1)*Hr),e2=1+(Z-1)/(1+(expl(r/0.6L)-1)*1.7L); H.close(a.V(rs[i]),-e/r,1e-12*(double)(Z/r),"gsz-V"); H.close(zv(i),e,1e-12*Z,"gsz-Zv"); H.close(b.V(rs[i]),-e2/r,1e-12*(double)(Z/r),"gsz-V2"); H.close(zw(i),e2,1e-12*Z,"gsz-Zw"); H.step(); } });
    H.run(fmt("tf.Z%d",Z),[=]{ mp::TFAtom a(Z); helfem::Vector rv(rs.size()); for(size_t i=0;i<rs.size();i++) rv(i)=rs[i]; helfem::Vector zv=helfem::GSZ::Z_thomasfermi(rv,Z); double prev=Z+1e-9; std::vector<std::pair<double,double>> srt; for(size_t i=0;i<rs.size();i++){ LD x=rs[i]*cbrtl(128*Z/(9*PI*PI)); LD q=sqrtl(x); LD e=Z*powl(1+0.7280642371L*q-0.5430794693L*x*expl(-0.3612163121L*q),2)*expl(-2*0.7280642371L*q); H.close(a.V(rs[i]),-e/rs[i],1e-12*Z/rs[i],"tf-V"); H.close(zv(i),e,1e-12*Z,"tf-Zv"); H.step(); H.ok(zv(i)<=prev+1e-12&&zv(i)>=0,"tf-monotone"); prev=zv(i); } }); }
  H.run("gsz.dummy",[=]{ mp::GSZAtom a(0); for(double r: rs) H.close(a.V(r),0,1e-12/r,"gsz-dummy"); double d,h; H.throws([&]{ helfem::GSZ::GSZ_parameters(-1,d,h); },"gsz-negative"); });
  // tabulated SAP potential: end points, linearity between knots, smooth monotone screening
  for(int Z=-1;Z<=121;Z++) H.run(fmt("sap.Z%d",Z),[=]{ double R=40; mp::SAPAtom a(Z); if(Z<1||Z>118){ for(double r: rs) { H.ok(sap_effective_charge(Z,r)==0,"sap-range"); H.ok(a.V(r)==0,"sap-range"); } return; }
      H.close(sap_effective_charge(Z,0),Z,1e-5*Z,"sap-origin"); H.close(sap_effective_charge(Z,-1),Z,1e-5*Z,"sap-origin"); 
      double last=sap_effective_charge(Z,R); H.ok(last>=-1e-3&&last<0.1,"sap-tail",fmt("%g",last)); H.close(sap_effective_charge(Z,R*1.5),last,0,"sap-beyond"); H.close(sap_effective_charge(Z,1e6),last,0,"sap-beyond");
      // along a fine scan: continuity, monotone, bounded slope; V=-Zeff/r
      double prev=sap_effective_charge(Z,0),pr=0; const int NS=H.thorough()?40000:8000; double maxslope=0; for(int k=1;k<=NS;k++){ double t=(double)k/NS; double r=R*t*t*t*t; double z=sap_effective_charge(Z,r); H.step(); if(!(z<=prev+2e-9*Z)) { H.ok(false,"sap-monotone",fmt("r=%g %g > %g",r,z,prev)); break; } if(!(fabs(z-prev)<=2.6*Z*Z*(r-pr)*1.5+1e-7*Z)) { H.ok(false,"sap-jump",fmt("r=%g %g %g",r,prev,z)); break; } if(!(z>-1e-3)) { H.ok(false,"sap-negative",fmt("r=%g %g",r,z)); break; } if(k%50==0) H.close(a.V(r),-z/r,1e-13*fabs(z/r),"sap-V"); prev=z; pr=r; }
      // neighbouring elements: screening grows with Z but never by more than the added proton
      if(Z>1) for(double r: rs) { double z0=sap_effective_charge(Z-1,r),z1=sap_effective_charge(Z,r); H.ok(z1-z0<1+1e-4,"sap-neighbour",fmt("r=%g %g %g",r,z0,z1)); } });
}
static void elements(){ static const char*sym="H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og"; std::map<std::string,int> M; { std::istringstream s(sym); std::string t; int z=1; while(s>>t){ for(auto&c:t) c=tolower(c); M[t]=z++; } }
  // every string of 1..3 letters (and all case patterns)
  for(int a=0;a<26;a++) H.run(fmt("el.%c",'a'+a),[=]{ auto one=[&](const std::string&w){ std::string lo=w; for(auto&c:lo) c=tolower(c); auto it=M.find(lo); if(it==M.end()) H.throws([&]{ get_Z(w); },"unknown-element",w); else { int z=-1; try { z=get_Z(w); } catch(...) {} H.ok(z==it->second,"element",w); if(z>0) H.ok(strcasecmp(element_symbols[z].c_str(),w.c_str())==0&&element_names[z].size()>2,"symbol"); } H.step(); };
      for(int cs=0;cs<2;cs++){ std::string s1(1,(cs?'A':'a')+a); one(s1); for(int b=0;b<26;b++) for(int c2=0;c2<2;c2++){ std::string s2=s1+char((c2?'A':'a')+b); one(s2); if(H.thorough()||c2==0) for(int c=0;c<26;c++) one(s2+char('a'+c)); one(s2+"1"); } } });
  H.run("el.num",[=]{ H.ok(get_Z("")==0,"empty"); for(int i=0;i<=200;i++) H.ok(get_Z(std::to_string(i))==i,"number"); H.step(201); });
  for(int Z1=0;Z1<=118;Z1++) H.run(fmt("el.orbs.%d",Z1),[=]{ auto cnt=[](int Z,int o[4]){ int z=1; for(int n=1;n<=8;n++) for(int l=(n-1)/2;l>=0;l--){ int nn=n-l; if(nn<=l) continue; if(z<=118&&Z>=z) for(int m=0;m<=l;m++) if(m<4) o[m]++; z+=2*(2*l+1); } };
      for(int Z2=0;Z2<=118;Z2++){ int o[4]={0,0,0,0}; cnt(Z1,o); cnt(Z2,o); int s=-7,p=3,d=9,f=1; num_orbs(Z1,Z2,s,p,d,f); H.step(); H.ok(s==o[0]&&p==o[1]&&d==o[2]&&f==o[3],"num-orbs",fmt("%d %d: %d %d %d %d vs %d %d %d %d",Z1,Z2,s,p,d,f,o[0],o[1],o[2],o[3])); } });
}
void explore(){ helfem::verbose=false; cases<double>(); cases<long double>(); guesses(); elements(); }
VH_MAIN
