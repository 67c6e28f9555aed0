// C09: tabulated atoms (SAP guess): densities, screening, effective charge, from stored orbitals.
#include "vh.h"
#include "refmath.h"
#include <general/atomdb.h>
#include <general/model_potential.h>
#include <helfem.h>
#include <xc.h>
using namespace ref; namespace db=helfem::atomdb; namespace mp=helfem::modelpotential;
static const LD PI=rpi<LD>();
struct RefAtom { FE fe; Mat P; int Z; LD Ntot;
  RefAtom(int Z_):Z(Z_){ std::vector<LD> b; for(int i=0;i<=db::data::nelem;i++) b.push_back(db::data::bval[i]); fe=FE(db::data::primbas,db::data::nnodes,b,true,false,true,false); int n=db::data::Nbf; P=Mat::Zero(n,n); for(int l=0;l<=db::data::lmax;l++) for(int k=0;k<db::data::norb[Z-1][l];k++){ int o=db::data::offset[Z-1][l]+k; for(int i=0;i<n;i++) for(int j=0;j<n;j++) P(i,j)+=(LD)db::data::occupations[o]*db::data::coefficients[(size_t)o*n+i]*db::data::coefficients[(size_t)o*n+j]; } Ntot=charge(0,b.back()); }
  LD rmax() const { return fe.bv.back(); }
  // derivatives of rho (n=0,1,2) from inside element i
  LD rho(LD r,int n,int i=-1) const { if(i<0) i=fe.find(r); if(i<0) return 0; LD x=fe.x(r,i); auto a=fe.evr(x,i,0); std::vector<LD> b,c; if(n) b=fe.evr(x,i,1); if(n>1) c=fe.evr(x,i,2); LD s=0; for(size_t u=0;u<a.size();u++) for(size_t v=0;v<a.size();v++){ LD p=P(fe.gl[i][u],fe.gl[i][v]); s+=p*(n==0?a[u]*a[v]:n==1?2*a[u]*b[v]:2*(b[u]*b[v]+a[u]*c[v])); } return s/(4*PI); }
  template<class W> LD integ(LD a,LD b,W w) const { LD s=0; for(int i=0;i<fe.nel();i++){ LD lo=std::max(a,fe.bv[i]),hi=std::min(b,fe.bv[i+1]); if(hi<=lo) continue; s+=integrate<LD>([&](LD r){ return w(r)*4*PI*r*r*rho(r,0,i); },lo,hi,40,3); } return s; }
  LD charge(LD a,LD b) const { return integ(a,b,[](LD){return 1.0L;}); }
  LD hartree(LD r) const { return charge(0,r)+r*integ(r,rmax(),[](LD x){return 1/x;}); }
};
static RefAtom& ra(int Z){ static std::map<int,RefAtom*> c; if(!c[Z]) c[Z]=new RefAtom(Z); return *c[Z]; }
// spin-restricted v_xc(r) from the functional alone: v_rho - 1/r^2 d/dr [ r^2 (2 v_saa rho_a' + v_sab rho_b') ]
static double vxc_ref(const RefAtom&A,LD r,std::vector<int> fs,int el){ double tot=0; for(int f: fs) if(f>0){ xc_func_type F; xc_func_init(&F,f,XC_POLARIZED); bool gga=F.info->family==XC_FAMILY_GGA||F.info->family==XC_FAMILY_HYB_GGA; auto at=[&](LD x,double*v,double*vs){ double rh[2],s[3]; rh[0]=rh[1]=(double)A.rho(x,0,el)/2; double g=(double)A.rho(x,1,el)/2; s[0]=s[1]=s[2]=g*g; if(gga) xc_gga_vxc(&F,1,rh,s,v,vs); else { xc_lda_vxc(&F,1,rh,v); vs[0]=vs[1]=vs[2]=0; } };
    double v[2],vs[3]; at(r,v,vs); double val=v[0]; if(gga){ auto flux=[&](LD x){ double v2[2],s2[3]; at(x,v2,s2); LD g=A.rho(x,1,el)/2; return (LD)(x*x*(2*s2[0]*g+s2[1]*g)); }; LD h=(A.fe.bv[el+1]-A.fe.bv[el])*2e-3L; h=std::min(h,std::min(r-A.fe.bv[el],A.fe.bv[el+1]-r)/4); auto D=[&](LD k){ return (flux(r+k)-flux(r-k))/(2*k); }; LD d1=D(h),d2=D(h/2),d4=D(h/4); LD e1=(4*d2-d1)/3,e2=(4*d4-d2)/3; LD d=(16*e2-e1)/15; val-=(double)(d/(r*r)); } tot+=val; xc_func_end(&F); } return tot; }
static const std::vector<std::pair<int,int>> FN{{1,0},{0,0},{1,12},{0,12},{101,0},{101,130},{106,131},{0,130}};
void explore(){ helfem::verbose=false;
  std::vector<LD> rs; for(LD r: {1e-6L,1e-4L,0.01L,0.05L,0.2L,0.35L,0.5L,0.65L,0.7L,0.75L,1.0L,1.3L,1.7L,1.99L,2.0L,2.05L,2.5L,3.0L,4.0L,4.9L,5.5L,5.95L,6.0L,6.0001L,7.0L,50.0L}) rs.push_back(r); if(H.thorough()) for(int k=1;k<600;k++) rs.push_back(0.0101L*k);
  H.run("meta",[=]{ H.ok(db::max_Z()==db::data::max_Z&&db::lmax()==db::data::lmax&&db::Nbf()==db::data::Nbf,"meta"); auto b=db::element_boundaries(); H.ok(b.size()==db::data::nelem+1,"meta"); for(int i=0;i<b.size();i++) H.ok(b(i)==db::data::bval[i],"bval");
    for(int Z=-2;Z<=db::data::max_Z+3;Z++) for(int l=-1;l<=db::data::lmax+2;l++){ H.step(); bool in=Z>=1&&Z<=db::data::max_Z&&l>=0&&l<=db::data::lmax; if(!in){ H.throws([&]{ db::norb(Z,l); },"range",fmt("Z=%d l=%d",Z,l)); H.throws([&]{ db::occupations(Z,l); },"range"); H.throws([&]{ db::coefficients(Z,l); },"range"); continue; }
      H.ok(db::norb(Z,l)==db::data::norb[Z-1][l],"norb"); auto o=db::occupations(Z,l); auto c=db::coefficients(Z,l); int n=db::data::norb[Z-1][l],off=db::data::offset[Z-1][l]; if(!H.ok(o.size()==n&&c.cols()==n&&c.rows()==db::data::Nbf,"record-size")) continue; for(int k=0;k<n;k++){ H.ok(o(k)==db::data::occupations[off+k],"occ"); for(int i=0;i<db::data::Nbf;i++) H.ok(c(i,k)==db::data::coefficients[(size_t)(off+k)*db::data::Nbf+i],"coef"); } }
    for(int Z: {-1,0,db::data::max_Z+1,118}) { H.throws([&]{ db::Atom a(Z); },"atom-range",fmt("Z=%d",Z)); if(Z) H.throws([&]{ mp::SAPFEAtom a(Z); },"sapfe-range"); }
    mp::SAPFEAtom d(0); for(double r: {0.0,0.1,3.0}) H.ok(d.V(r)==0,"dummy"); H.ok(d.breakpoints(0,10).empty(),"dummy"); });
  for(int Z=1;Z<=db::data::max_Z;Z++) for(size_t ir=0;ir<rs.size();ir++) H.run(fmt("Z%d.r%.6Lg",Z,rs[ir]),[=]{ const RefAtom&R=ra(Z); db::Atom A(Z); LD r=(LD)(double)rs[ir]; double rd=(double)r; double t=1e-11; 
      H.ok(A.charge()==Z,"Z"); H.close(A.nelectrons(),R.Ntot,1e-11*(double)R.Ntot,"nelectrons"); H.step();
      bool out=r>R.rmax(); int i=out?-1:R.fe.find(r); bool edge=false; for(LD b: R.fe.bv) if(r==b) edge=true; H.ok((int)A.basis().Nbf()==R.fe.nbf,"basis");
      LD r0=out?0:R.rho(r,0),r1=out?0:R.rho(r,1),r2=out?0:R.rho(r,2); LD sc=R.rho(0.01L,0)+1;
      H.close(A.density(rd),r0,t*(double)sc,"density"); H.close(A.radial_density(rd),4*PI*r*r*r0,t*(double)(sc*(1+r*r)),"radial-density"); H.step(2);
      if(!edge){ H.close(A.density_gradient(rd),r1,t*10*(double)sc,"gradient"); H.close(A.density_laplacian(rd),out?0:r2+2*r1/r,t*200*(double)(sc+fabsl(r1/r)),"laplacian"); H.step(2); }
      else { // one-sided limits
        LD g=A.density_gradient(rd); bool okv=false; for(int e=0;e<R.fe.nel();e++) if(r>=R.fe.bv[e]&&r<=R.fe.bv[e+1]) okv|=fabsl(g-R.rho(r,1,e))<=t*10*sc; H.ok(okv,"gradient-edge"); }
      H.close(A.enclosed_charge(rd),out?R.Ntot:R.charge(0,r),1e-11*(double)R.Ntot,"enclosed"); H.close(A.hartree_screening(rd),out?R.Ntot:R.hartree(r),1e-10*(double)R.Ntot,"hartree"); H.step(2);
      for(auto&f: FN){ if(edge&&f.first>100) continue; double e= out?0:(double)r*vxc_ref(R,r,{f.first,f.second},i); bool gga=f.first>100||f.second>100; if(out||(gga&&r<1e-3L)) { if(out) H.ok(A.xc_screening(rd,f.first,f.second)==0,"xc-outside"); continue; } if(edge&&gga) continue; LD rho=r0; double tol=(gga?1e-5:1e-10)*(1+fabs(e)); if(gga&&rho<1e-7L) tol=1e-3; H.close(A.xc_screening(rd,f.first,f.second),e,tol,gga?"xc-gga":"xc-lda",fmt("%d+%d r=%Lg",f.first,f.second,r)); H.step();
        H.close(A.effective_charge(rd,f.first,f.second),Z-(LD)A.hartree_screening(rd)-(LD)A.xc_screening(rd,f.first,f.second),1e-12*Z+1e-12*(double)R.Ntot,"zeff");
        mp::SAPFEAtom S(Z,f.first,f.second); H.close(S.V(rd),-(LD)A.effective_charge(rd,f.first,f.second)/r,1e-12*(Z+(double)R.Ntot)/rd,"sapfe-V"); if(f.first==1&&f.second==0){ mp::SAPFEAtom D(Z); H.close(D.V(rd),S.V(rd),0,"sapfe-default"); } }
      for(int bad: {263,202}) H.throws([&]{ A.xc_screening(r>=6?1.0:rd,bad,0); },"mgga-refused"); H.throws([&]{ A.xc_screening(r>=6?1.0:rd,1,267); },"mgga-refused"); });
  // breakpoints
  for(int Z=1;Z<=2;Z++) H.run(fmt("Z%d.breakpoints",Z),[=]{ mp::SAPFEAtom S(Z); std::vector<double> e{0,0.35,0.7,1,2,3,6,8}; for(double a: e) for(double b: e) if(a<b){ std::vector<double> x; for(int i=0;i<=db::data::nelem;i++) if(db::data::bval[i]>a&&db::data::bval[i]<b) x.push_back(db::data::bval[i]); auto g=S.breakpoints(a,b); std::sort(g.begin(),g.end()); H.ok(g==x,"breakpoints",fmt("%g %g",a,b)); H.step(); } });
  // functional-switching histories on one object (cached handles), depth 3
  for(int Z: {1,3}) for(size_t a=0;a<FN.size();a++) for(size_t b=0;b<FN.size();b++) for(size_t c=0;c<FN.size();c++) H.run(fmt("hist.Z%d.%zu%zu%zu",Z,a,b,c),[=]{ db::Atom A(Z); size_t s[3]={a,b,c}; for(int k=0;k<3;k++){ db::Atom F(Z); double r=0.3+0.4*k; double g=A.xc_screening(r,FN[s[k]].first,FN[s[k]].second),e=F.xc_screening(r,FN[s[k]].first,FN[s[k]].second); H.ok(g==e,"history",fmt("step %d %.17g %.17g",k,g,e)); H.step(); if(k==1){ db::Atom cp(A); H.ok(cp.xc_screening(r,FN[s[2]].first,FN[s[2]].second)==db::Atom(Z).xc_screening(r,FN[s[2]].first,FN[s[2]].second),"copy"); } } });
}
VH_MAIN
