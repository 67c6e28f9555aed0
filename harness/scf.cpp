// Explorer for the self-consistent field programs (atomic, diatomic, gensap, aij).
// The programs' own main functions run with every combination of options of a
// bounded family; the optimiser they hand their Fock builder to is the stand-in of
// shims/openorbitaloptimizer, which stops each run at the point where the builder,
// the block layout, the starting point and the fixed occupations are known, and lets
// this explorer call the builder on families of density matrices and histories of
// calls.  See DESIGN.md, property C20.
#include "vh.h"
#include <sys/stat.h>
#include <dirent.h>
#include <iomanip>
#include <fstream>
#include <memory>
#include <xc.h>
#include "openorbitaloptimizer/scfsolver.hpp"
#include "general/dftfuncs.h"
#include "general/scf_helpers.h"
#include "general/scf_driver_common.h"
#include "general/checkpoint.h"
#include "general/elements.h"
#include "general/gsz.h"
#include "atomic/basis.h"
#include "atomic/dftgrid.h"
#include "diatomic/basis.h"
#include "diatomic/dftgrid.h"
#include "diatomic/dftgrid_purem.h"
#include "diatomic/twodquadrature.h"
#include "sadatom/basis.h"
#include "sadatom/dftgrid.h"
#include "sadatom/scf.h"
using namespace helfem;
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX; typedef std::vector<Eigen::Index> Idx;
namespace ooo=OpenOrbitalOptimizer;
int helfem_atomic_main(int,char**); int helfem_diatomic_main(int,char**); int helfem_gensap_main(int,char**); int helfem_aij_main(int,char**);
typedef int(*Main)(int,char**);
typedef std::map<std::string,std::string> Opt;
struct Stop : std::runtime_error { Stop():std::runtime_error("stop"){} };
static std::string S_(double x){ return fmt("%.17g",x); } static std::string S_(int x){ return fmt("%d",x); }
// Runs a program; returns the error it ended with ("" if none, "stop" if the hook stopped it)
static std::string drive(Main m,const Opt&o,std::function<void(ooo::Record&)> hook) {
  std::vector<std::string> a={"prog"}; for(auto&k:o) a.push_back("--"+k.first+"="+k.second);
  std::vector<char*> v; for(auto&s:a) v.push_back((char*)s.c_str()); v.push_back(NULL);
  ooo::probe().on_run=hook; vh::Quiet q; std::string e;
  try { m((int)v.size()-1,v.data()); } catch(Stop&){ e="stop"; } catch(const std::exception&x){ e=x.what(); if(e.empty()) e="(empty)"; }
  ooo::probe().on_run=nullptr; return e;
}
static std::string show(const Opt&o){ std::string r; for(auto&k:o) r+=k.first+"="+k.second+","; return r; }
static Opt with(Opt a,const Opt&b){ for(auto&k:b) a[k.first]=k.second; return a; }
static std::string get(const Opt&o,const char*k,const char*d){ auto i=o.find(k); return i==o.end()?d:i->second; }
static int geti(const Opt&o,const char*k,int d){ auto i=o.find(k); return i==o.end()?d:atoi(i->second.c_str()); }
static double getd(const Opt&o,const char*k,double d){ auto i=o.find(k); return i==o.end()?d:atof(i->second.c_str()); }

// ---------------------------------------------------------------- reference
static MX halfinv(const MX&S0) { VX d=S0.diagonal().array().sqrt().inverse(); MX S=d.asDiagonal()*S0*d.asDiagonal();
  Eigen::SelfAdjointEigenSolver<MX> es(S); return d.asDiagonal()*MX(es.eigenvectors()*es.eigenvalues().array().sqrt().inverse().matrix().asDiagonal()*es.eigenvectors().transpose()); }
struct Sad; struct Ref { std::shared_ptr<Sad> sad; double ftol=2e-9; // everything about a run, from its options and the basis' matrices alone
  bool restricted=true; int nela=0,nelb=0; size_t nsym=0; std::vector<int> size,cap; std::vector<std::string> lab; std::vector<MX> X; // per spatial block
  bool judge_beta=true; // an absent spin channel has no meaningful Fock matrix
  // AO densities per (spin,block) -> energy and AO Fock matrices per (spin,block)
  std::function<double(const std::vector<MX>&,std::vector<MX>&)> ef;
  std::function<void(const std::vector<MX>&,MX&,MX&)> spread; MX S; // global spin densities of block densities; global overlap
  std::vector<MX> guess; // AO guess Hamiltonian per (spin,block)
  size_t nt() const { return restricted?1:2; } size_t nb() const { return nt()*nsym; }
};
typedef ooo::DensityMatrix<double,double> DM;
static std::vector<MX> aodens(const Ref&r,const DM&d){ std::vector<MX> D(r.nb()); for(size_t b=0;b<r.nb();b++) { const MX&X=r.X[b%r.nsym]; if(!X.size()) { D[b]=MX::Zero(0,0); continue; } MX C=X*d.first[b]; D[b]=C*d.second[b].asDiagonal()*C.transpose(); } return D; }
static void spin_of(const Opt&o,int Z,Ref&r) { int Q=geti(o,"Q",0),M=geti(o,"M",0); r.nela=geti(o,"nela",0); r.nelb=geti(o,"nelb",0); int res=geti(o,"restricted",-1); int N=Z-Q;
  if(!r.nela&&!r.nelb) { if(M==0) { r.nela=(N+1)/2; r.nelb=N/2; res=1; } else { r.nela=(N+M-1)/2; r.nelb=N-r.nela; } }
  if(res<0) res=(r.nela==r.nelb); r.restricted=res; r.judge_beta=r.nelb>0; }
// functional, its external parameters, and the exact exchange libxc wants for those parameters
static VX numbers(const std::string&s){ std::vector<double> v; std::stringstream ss(s); double x; while(ss>>x) v.push_back(x); return Eigen::Map<VX>(v.data(),v.size()); }
struct Func { int x,c; VX px,pc; double al=0,be=0,om=0; bool erfc=false,yuk=false; bool xc() const { return x||c; } bool exx() const { return al||be; }
  Func(const Opt&o):px(numbers(get(o,"x_pars",""))),pc(numbers(get(o,"c_pars",""))) { ::parse_xc_func(x,c,get(o,"method","lda_x")); if(x<0) { al=1; return; } if(!x) return;
    xc_func_type f; if(xc_func_init(&f,x,XC_POLARIZED)) throw std::logic_error("functional"); if(px.size()) xc_func_set_ext_params(&f,px.data()); yuk=f.info->flags&XC_FLAGS_HYB_CAMY; erfc=f.info->flags&XC_FLAGS_HYB_CAM; if(yuk||erfc||f.info->flags&XC_FLAGS_HYB_LC||f.info->flags&XC_FLAGS_HYB_LCY) { xc_hyb_cam_coef(&f,&om,&al,&be); if(f.info->flags&XC_FLAGS_HYB_LC) erfc=true; if(f.info->flags&XC_FLAGS_HYB_LCY) yuk=true; } else al=f.cam_alpha; xc_func_end(&f); if(!be) erfc=yuk=false; } };
static std::shared_ptr<const polynomial_basis::PolynomialBasis> poly_of(const Opt&o){ return std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(geti(o,"primbas",4),geti(o,"nnodes",15))); }
static modelpotential::ModelPotential* screened(int ig,int Z){ switch(ig){ case 1: return new modelpotential::GSZAtom(Z); case 2: return new modelpotential::SAPAtom(Z); case 3: return new modelpotential::TFAtom(Z); default: return new modelpotential::SAPFEAtom(Z);} }
// Global (Nbf x Nbf) formulation shared by the atomic and the diatomic program
struct Glob { size_t N; std::vector<Idx> idx,mir; MX S,H; double E0=0,Bz=0; std::function<MX(const MX&)> J,K; std::function<double(const MX&,const MX&,MX&,MX&)> xc; };
static void finish_glob(Ref&r,std::shared_ptr<Glob> g,const MX&Hg) {
  r.nsym=g->idx.size(); for(size_t k=0;k<r.nsym;k++) { bool p=!g->mir[k].empty(); r.size.push_back((int)g->idx[k].size()); r.cap.push_back((r.restricted?2:1)*(p?2:1)); r.X.push_back(g->idx[k].empty()?MX():halfinv(g->S(g->idx[k],g->idx[k]))); }
  bool restricted=r.restricted; int dn=r.nela-r.nelb; size_t nsym=r.nsym;
  for(size_t b=0;b<r.nb();b++) { const Idx&ix=g->idx[b%nsym]; MX h=Hg(ix,ix); if(!restricted) h+=(b<nsym?-0.5:0.5)*g->Bz*MX(g->S(ix,ix)); r.guess.push_back(h); }
  r.S=g->S; r.spread=[g,restricted,nsym](const std::vector<MX>&D,MX&A,MX&B){ MX*P[2]={&A,&B}; for(int s=0;s<2;s++) { *P[s]=MX::Zero(g->N,g->N); for(size_t k=0;k<nsym;k++) { const Idx&ix=g->idx[k]; if(ix.empty()) continue; MX d=D[restricted?k:s*nsym+k]; if(restricted) d*=0.5; if(!g->mir[k].empty()) { d*=0.5; (*P[s])(g->mir[k],g->mir[k])+=d; } (*P[s])(ix,ix)+=d; } } };
  auto spread=r.spread; r.ef=[g,restricted,dn,nsym,spread](const std::vector<MX>&D,std::vector<MX>&F){
    MX P[2]; spread(D,P[0],P[1]);
    MX Pt=P[0]+P[1]; double E=g->E0+(Pt*g->H).trace(); MX J=g->J(Pt); E+=0.5*(Pt*J).trace(); MX Fs[2]={g->H+J,g->H+J};
    if(!restricted) { E-=0.5*g->Bz*dn; Fs[0]-=0.5*g->Bz*g->S; Fs[1]+=0.5*g->Bz*g->S; }
    if(g->K) for(int s=0;s<2;s++) { MX K=g->K(P[s]); E+=0.5*(P[s]*K).trace(); Fs[s]+=K; }
    if(g->xc) { MX A,B; E+=g->xc(P[0],P[1],A,B); Fs[0]+=A; if(B.size()) Fs[1]+=B; }
    F.resize(D.size()); for(size_t b=0;b<D.size();b++) { const Idx&ix=g->idx[b%nsym]; F[b]=MX(Fs[b/nsym](ix,ix)); }
    return E; };
}
static Ref atomic_ref(const Opt&o) {
  Ref r; int Z=get_Z(get(o,"Z","")),lmax=geti(o,"lmax",0),mmax=geti(o,"mmax",0),Zl=get_Z(get(o,"Zl","")),Zr=get_Z(get(o,"Zr","")); double R=getd(o,"Rmid",0); if(geti(o,"angstrom",0)) R/=0.52917721067; spin_of(o,Z,r); Func f(o);
  auto poly=poly_of(o); int nq=geti(o,"nquad",0); if(!nq) nq=5*poly->get_nbf(); Eigen::VectorXi lv,mv; atomic::basis::angular_basis(lmax,mmax,lv,mv);
  auto nm=(modelpotential::nuclear_model_t)geti(o,"finitenuc",0); double Rrms=getd(o,"Rrms",0); int ic=geti(o,"iconf",0);
  VX bval=atomic::basis::form_grid(nm,Rrms,geti(o,"nelem",0),getd(o,"Rmax",40),geti(o,"grid",4),getd(o,"zexp",2),geti(o,"nelem0",0),geti(o,"grid0",4),getd(o,"zexp0",2),Z,Zl,Zr,R,ic?geti(o,"add_conf",1):0,getd(o,"shift_conf",0));
  auto b=std::make_shared<atomic::basis::TwoDBasis>(Z,nm,Rrms,poly,geti(o,"zeroder",0),nq,bval,lv,mv,Zl,Zr,R);
  auto g=std::make_shared<Glob>(); g->N=b->Nbf(); g->S=b->overlap(); MX T=b->kinetic(),ext=MX::Zero(g->N,g->N); double Ez=getd(o,"Ez",0),Qzz=getd(o,"Qzz",0); g->Bz=getd(o,"Bz",0);
  if(Ez) ext+=Ez*b->dipole_z(); if(Qzz) ext+=Qzz/3*b->quadrupole_zz(); if(g->Bz) ext+=b->Bz_field(g->Bz); if(ic) ext+=b->confinement(geti(o,"conf_N",0),getd(o,"conf_R",0),ic,getd(o,"conf_barrier",0),getd(o,"shift_conf",0));
  g->H=T+b->nuclear()+ext; if(Zl||Zr) g->E0=Z*Zl/R+Z*Zr/R+Zl*Zr/(2*R);
  int sy=geti(o,"symmetry",1); bool sphericalok=!Ez&&!Qzz&&!g->Bz&&!Zl&&!Zr; if(sy==2&&!sphericalok) sy=1;
  // symmetry blocks from the quantum numbers of the channels
  size_t nr=b->Nbf()/lv.size(); bool uneq=b->Nbf()%lv.size();
  if(uneq) throw std::logic_error("unexpected layout");
  auto chan=[&](std::function<bool(int,int)> sel){ Idx v; for(long a=0;a<lv.size();a++) if(sel(lv(a),mv(a))) for(size_t i=0;i<nr;i++) v.push_back(a*nr+i); return v; };
  if(sy==0) { g->idx.push_back(chan([](int,int){return true;})); r.lab.push_back("all"); }
  else if(sy==1) for(int m=-mmax;m<=mmax;m++) { g->idx.push_back(chan([m](int,int mm){return mm==m;})); r.lab.push_back(m?fmt("m=%+d",m):"m=0"); }
  else for(long a=0;a<lv.size();a++) { int l=lv(a),m=mv(a); g->idx.push_back(chan([l,m](int L,int M){return L==l&&M==m;})); r.lab.push_back(fmt("l=%d ",l)+(m?fmt("m=%+d",m):"m=0")); }
  g->mir.resize(g->idx.size());
  b->compute_tei(f.exx()); if(f.yuk) b->compute_yukawa(f.om); else if(f.erfc) b->compute_erfc(f.om);
  g->J=[b](const MX&P){ return MX(b->coulomb(P)); };
  if(f.exx()) g->K=[b,f](const MX&P){ MX K=MX::Zero(P.rows(),P.cols()); if(f.al) K+=f.al*b->exchange(P); if(f.be) K+=f.be*b->rs_exchange(P); return K; };
  if(f.xc()) { int ld=geti(o,"ldft",0),md=geti(o,"mdft",0); if(!ld) ld=4*lmax+12; if(!md) md=4*mmax+12; double thr=getd(o,"dftthr",1e-12); bool res=r.restricted,beta=r.nelb>0; auto gr=std::make_shared<atomic::dftgrid::DFTGrid>(b.get(),ld,md);
    g->xc=[gr,b,f,thr,res,beta](const MX&Pa,const MX&Pb,MX&A,MX&B){ double E,n,k; VX px=f.px,pc=f.pc; if(res) { gr->eval_Fxc(f.x,px,f.c,pc,Pa+Pb,A,E,n,k,thr); B=A; } else gr->eval_Fxc(f.x,px,f.c,pc,Pa,Pb,A,B,E,n,k,beta,thr); return E; }; }
  int ig=geti(o,"iguess",2); MX V; if(ig==0) V=b->nuclear(); else { auto m=screened(ig,Z); V=b->model_potential(m); delete m; }
  finish_glob(r,g,T+V+ext); return r;
}
static Ref diatomic_ref(const Opt&o) {
  Ref r; int Z1=get_Z(get(o,"Z1","")),Z2=get_Z(get(o,"Z2","")); double Rb=getd(o,"Rbond",0); if(geti(o,"angstrom",0)) Rb/=0.52917721067; double Rh=Rb/2; spin_of(o,Z1+Z2,r); Func f(o);
  auto poly=poly_of(o); int nq=geti(o,"nquad",0); if(!nq) nq=5*poly->get_nbf();
  std::vector<int> lm; int mmax=geti(o,"mmax",-1); { std::stringstream ss(get(o,"lmax","")); std::string t; while(std::getline(ss,t,',')) lm.push_back(atoi(t.c_str())); } if(mmax>=0) lm.assign(mmax+1,lm[0]); else mmax=(int)lm.size()-1;
  // channels |m|=0,1,.. each with +m before -m, l from |m| up
  Eigen::VectorXi lv,mv,lmv=Eigen::Map<Eigen::VectorXi>(lm.data(),lm.size()); diatomic::basis::lm_to_l_m(lmv,lv,mv);
  double mumax=std::log(getd(o,"Rmax",40)/Rh+std::sqrt(std::pow(getd(o,"Rmax",40)/Rh,2)-1)); VX bval=atomic::basis::normal_grid(geti(o,"nelem",0),mumax,geti(o,"grid",4),getd(o,"zexp",1));
  auto b=std::make_shared<diatomic::basis::TwoDBasis>(Z1,Z2,Rh,poly,nq,bval,lv,mv);
  auto g=std::make_shared<Glob>(); g->N=b->Nbf(); g->S=b->overlap(); MX T=b->kinetic(),ext=MX::Zero(g->N,g->N); double Ez=getd(o,"Ez",0),Qzz=getd(o,"Qzz",0); g->Bz=getd(o,"Bz",0);
  if(Ez) ext+=Ez*b->dipole_z(); if(Qzz) ext+=Qzz/3*b->quadrupole_zz(); if(g->Bz) ext+=b->Bz_field(g->Bz);
  int lq=4*lmv.maxCoeff()+12; int fn=geti(o,"finitenuc",0); double R1=getd(o,"Rrms1",0),R2=getd(o,"Rrms2",0); MX V;
  if(!fn) V=b->nuclear(); else { auto p1=modelpotential::get_nuclear_model((modelpotential::nuclear_model_t)fn,Z1,R1),p2=modelpotential::get_nuclear_model((modelpotential::nuclear_model_t)fn,Z2,R2); diatomic::twodquad::TwoDGrid q(b.get(),lq); V=q.model_potential(p1,p2); delete p1; delete p2; }
  g->H=T+V+ext; g->E0=Z1*Z2/Rb-Ez*(Z2-Z1)*Rh-Qzz/3*(Z1+Z2)*Rh*Rh;
  int sy=geti(o,"symmetry",1); if(sy==2&&(Z1!=Z2||Ez||Qzz||g->Bz||(fn&&R1!=R2))) sy=1; if(sy==3&&g->Bz) sy=1;
  std::vector<Idx> ch(lv.size()); { size_t k=0; for(long a=0;a<lv.size();a++) { size_t n=b->Nrad()-(mv(a)!=0); for(size_t i=0;i<n;i++) ch[a].push_back(k++); } if(k!=b->Nbf()) throw std::logic_error("unexpected layout"); }
  auto chan=[&](std::function<bool(int,int)> sel){ Idx v; for(long a=0;a<lv.size();a++) if(sel(lv(a),mv(a))) v.insert(v.end(),ch[a].begin(),ch[a].end()); return v; };
  auto ml=[](int m){ return m?fmt("m=%+d",m):std::string("m=0"); };
  if(sy==0) { g->idx.push_back(chan([](int,int){return true;})); r.lab.push_back("all"); }
  else if(sy==1) for(int m=-mmax;m<=mmax;m++) { g->idx.push_back(chan([m](int,int M){return M==m;})); r.lab.push_back(ml(m)); }
  else if(sy==2) for(int m=-mmax;m<=mmax;m++) for(int u=0;u<2;u++) { g->idx.push_back(chan([m,u](int L,int M){return M==m&&L%2==u;})); r.lab.push_back(ml(m)+(u?" u":" g")); }
  else for(int m=0;m<=mmax;m++) { g->idx.push_back(chan([m](int,int M){return M==m;})); r.lab.push_back(""); }
  g->mir.resize(g->idx.size()); if(sy==3) for(int m=1;m<=mmax;m++) g->mir[m]=chan([m](int,int M){return M==-m;});
  b->compute_tei(f.exx()); g->J=[b](const MX&P){ return MX(b->coulomb(P)); };
  if(f.exx()) g->K=[b,f](const MX&P){ return MX(f.al*b->exchange(P)); };
  if(f.xc()) { int ld=geti(o,"ldft",0),md=geti(o,"mdft",0); if(!ld) ld=4*lv.maxCoeff()+12; if(!md) md=4*mmax+12; double thr=getd(o,"dftthr",1e-12); bool res=r.restricted,beta=r.nelb>0; int pm=geti(o,"purem",-1); bool purem=pm<0?sy>=1:pm;
    auto gr=std::make_shared<diatomic::dftgrid::DFTGrid>(b.get(),ld,md); auto pg=std::make_shared<diatomic::dftgrid_purem::PureMDFTGrid>(b.get(),ld);
    g->xc=[gr,pg,b,f,thr,res,beta,purem](const MX&Pa,const MX&Pb,MX&A,MX&B){ double E,n,k; VX px=f.px,pc=f.pc; if(purem) { if(res) { pg->eval_Fxc(f.x,px,f.c,pc,Pa+Pb,A,E,n,k,thr); B=A; } else pg->eval_Fxc(f.x,px,f.c,pc,Pa,Pb,A,B,E,n,k,beta,thr); } else { if(res) { gr->eval_Fxc(f.x,px,f.c,pc,Pa+Pb,A,E,n,k,thr); B=A; } else gr->eval_Fxc(f.x,px,f.c,pc,Pa,Pb,A,B,E,n,k,beta,thr); } return E; }; }
  int ig=geti(o,"iguess",2); MX G=V; if(ig) { auto p1=screened(ig,Z1),p2=screened(ig,Z2); diatomic::twodquad::TwoDGrid q(b.get(),lq); G=q.model_potential(p1,p2); delete p1; delete p2; }
  finish_glob(r,g,T+G+ext); return r;
}
// Spherically averaged programs: one block per l
struct Sad { VX bval; std::shared_ptr<sadatom::basis::TwoDBasis> b; std::shared_ptr<sadatom::dftgrid::DFTGrid> g; MX T,Tl,V; double E0=0; int lmax; Func f; double thr; Sad(const Opt&o):f(o){} };
static void finish_sad(Ref&r,std::shared_ptr<Sad> s,const MX&Vguess) { r.sad=s; r.S=s->b->overlap();
  r.nsym=s->lmax+1; MX X=halfinv(s->b->overlap()); for(int l=0;l<=s->lmax;l++) { r.size.push_back((int)X.rows()); r.cap.push_back((r.restricted?2:1)*(2*l+1)); r.X.push_back(X); r.lab.push_back(fmt("l=%d",l)); }
  for(size_t b=0;b<r.nb();b++) { int l=b%r.nsym; r.guess.push_back(s->T+l*(l+1)*s->Tl+Vguess); }
  s->b->compute_tei(); if(s->f.yuk) s->b->compute_yukawa(s->f.om); else if(s->f.erfc) s->b->compute_erfc(s->f.om);
  bool res=r.restricted,beta=r.nelb>0; size_t n=r.nsym; const double fpi=4*M_PI;
  r.ef=[s,res,beta,n,fpi](const std::vector<MX>&D,std::vector<MX>&F){ long N=s->T.rows(); size_t nt=res?1:2;
    std::vector<helfem::Cube> P(nt,helfem::Cube(n,MX::Zero(N,N))); MX Pt=MX::Zero(N,N); double E=s->E0; F.assign(nt*n,MX());
    for(size_t b=0;b<nt*n;b++) { int l=b%n; P[b/n][l]=D[b]; Pt+=D[b]; MX h=s->T+l*(l+1)*s->Tl+s->V; E+=(D[b]*h).trace(); F[b]=h; }
    MX J=s->b->coulomb(Pt/fpi); E+=0.5*(Pt*J).trace(); for(auto&x:F) x+=J;
    if(s->f.exx()) for(size_t t=0;t<nt;t++) { helfem::Cube a(n); for(size_t l=0;l<n;l++) a[l]=P[t][l]/((res?2.0:1.0)*(2*l+1)); helfem::Cube K(n,MX::Zero(N,N)); if(s->f.al) { auto k=s->b->exchange(a); for(size_t l=0;l<n;l++) K[l]+=s->f.al*k[l]; } if(s->f.be) { auto k=s->b->rs_exchange(a); for(size_t l=0;l<n;l++) K[l]+=s->f.be*k[l]; }
      for(size_t l=0;l<n;l++) { E+=0.5*(K[l]*P[t][l]).trace(); F[t*n+l]+=K[l]; } }
    if(s->f.xc()) { double Ex=0,ne=0; VX px=s->f.px,pc=s->f.pc; helfem::Cube A,B; for(auto&c:P) for(auto&m:c) m/=fpi; if(res) s->g->eval_Fxc(s->f.x,px,s->f.c,pc,P[0],A,Ex,ne,s->thr); else s->g->eval_Fxc(s->f.x,px,s->f.c,pc,P[0],P[1],A,B,Ex,ne,beta,s->thr); E+=Ex; for(size_t l=0;l<n;l++) { F[l]+=A[l]/fpi; if(!res&&B.size()) F[n+l]+=B[l]/fpi; } }
    return E; };
}
static Ref gensap_ref(const Opt&o) {
  Ref r; int Z=get_Z(get(o,"Z","")); spin_of(o,Z,r); auto s=std::make_shared<Sad>(o); s->lmax=geti(o,"lmax",0); s->thr=getd(o,"dftthr",1e-12); auto poly=poly_of(o); int nq=geti(o,"nquad",0); if(!nq) nq=5*poly->get_nbf(); int ic=geti(o,"iconf",0);
  VX bval=atomic::basis::form_grid(modelpotential::POINT_NUCLEUS,0,geti(o,"nelem",0),getd(o,"Rmax",40),geti(o,"grid",4),getd(o,"zexp",2),0,0,0,Z,0,0,0,ic?geti(o,"add_conf",1):0,getd(o,"shift_conf",0));
  s->bval=bval; s->b=std::make_shared<sadatom::basis::TwoDBasis>(Z,modelpotential::POINT_NUCLEUS,0.0,poly,false,nq,bval,s->lmax); s->g=std::make_shared<sadatom::dftgrid::DFTGrid>(s->b.get()); s->T=s->b->kinetic(); s->Tl=s->b->kinetic_l(); s->V=s->b->nuclear(); MX conf=MX::Zero(s->T.rows(),s->T.cols());
  if(ic) conf=s->b->confinement(geti(o,"conf_N",0),getd(o,"conf_R",0),ic,getd(o,"conf_barrier",0),getd(o,"shift_conf",0));
  MX G=s->V; int ig=geti(o,"iguess",2); if(ig) { auto m=screened(ig,Z); G=s->b->model_potential(m); delete m; }
  s->V+=conf; finish_sad(r,s,G+conf); return r;
}
// Charge (R/rs)^3 spread uniformly over a ball: its potential
static double ball(double r,double R,double rs){ if(R<=0) return 0; double q=std::pow(R/rs,3); return r<R?q*(1.5-0.5*r*r/(R*R))/R:q/r; }
static Ref aij_ref(const Opt&o) {
  Ref r; int Z=get_Z(get(o,"Z","")),Q=geti(o,"Q",0),nj=geti(o,"njellium",0),M=geti(o,"M",0); double rs=getd(o,"rs",0); { Opt p=o; p.erase("Q"); p["Q"]=S_(Q-nj); p["restricted"]=M?"0":"1"; spin_of(p,Z,r); r.judge_beta=true; }
  auto s=std::make_shared<Sad>(o); s->thr=getd(o,"dftthr",1e-12); auto poly=poly_of(o); int nq=geti(o,"nquad",0); if(!nq) nq=5*poly->get_nbf();
  static const int magic[]={2,8,19,36,59,89,118}; int lc=0; while(magic[lc]<=nj) lc++; s->lmax=std::max(geti(o,"lmax",4),lc);
  bool vac=geti(o,"vacancy",0); double ri=vac?cbrt(Z-Q)*rs:0, ro=vac?cbrt(Z-Q+nj)*rs:cbrt(nj)*rs; double per=cbrt(4*M_PI*M_PI/9)*rs; int nu=rs>0?(int)std::ceil(ro/per*getd(o,"nufreq",0.5)):0; int ne=geti(o,"nelem",0); double Rmax=getd(o,"Rmax",40);
  std::vector<double> bv; VX un; if(nu) un=atomic::basis::form_grid(modelpotential::POINT_NUCLEUS,0,nu,ro,1,0,0,0,0,Z,0,0,0,false,0);
  if(ne>0) { VX a=atomic::basis::form_grid(modelpotential::POINT_NUCLEUS,0,ne,nu?un(1):Rmax,geti(o,"grid",4),getd(o,"zexp",2),0,0,0,Z,0,0,0,false,0); for(double x:a) bv.push_back(x); for(long i=2;i<un.size();i++) bv.push_back(un(i)); } else for(double x:un) bv.push_back(x);
  if(vac) { bool dup=false; for(double x:bv) dup|=std::fabs(x-ri)<1e-9; if(!dup) bv.push_back(ri); std::sort(bv.begin(),bv.end()); }
  if(nu&&Rmax>0) { int nv=(int)std::ceil(Rmax/per*getd(o,"nufreq",0.5)); double R0=bv.back(); for(int i=1;i<=nv;i++) bv.push_back(R0+Rmax*i/nv); }
  s->b=std::make_shared<sadatom::basis::TwoDBasis>(Z,modelpotential::POINT_NUCLEUS,0.0,poly,false,nq,Eigen::Map<VX>(bv.data(),bv.size()),s->lmax,(bool)geti(o,"zeroright",0)); s->g=std::make_shared<sadatom::dftgrid::DFTGrid>(s->b.get()); s->T=s->b->kinetic(); s->Tl=s->b->kinetic_l();
  auto V=[=](double x){ return -ball(x,ro,rs)+ball(x,ri,rs); }; std::vector<double> br; if(ri>0) br.push_back(ri); if(ro>0) br.push_back(ro);
  s->V=s->b->nuclear()+s->b->potential(V,br);
  // electrostatics of the background with itself and with the nucleus
  double self=0; if(nj>0) { double rho=3/(4*M_PI*rs*rs*rs); int n=20000; double h=(ro-ri)/n; for(int i=0;i<n;i++) { // Simpson per interval
      auto fn=[&](double x){ return 0.5*rho*4*M_PI*x*x*(-V(x)); }; double a=ri+i*h; self+=h/6*(fn(a)+4*fn(a+h/2)+fn(a+h)); } }
  s->E0=self+(nj>0?Z*(1.5/ro*std::pow(ro/rs,3)-(ri>0?1.5/ri*std::pow(ri/rs,3):0)):0);
  finish_sad(r,s,s->V); for(size_t l=0;l<r.lab.size();l++) {} return r;
}

// ---------------------------------------------------------------- density matrices
// Deterministic orthogonal matrix: product of plane rotations with irrational angles
static MX rot(long n,int seed){ MX C=MX::Identity(n,n); for(long i=0;i<n;i++) for(long j=i+1;j<n;j++) { double a=0.37+std::fmod(0.7548776662466927*(i*n+j+1)*(seed+1),1.0)*2.1; double c=std::cos(a),s=std::sin(a); MX ci=C.col(i),cj=C.col(j); C.col(i)=c*ci+s*cj; C.col(j)=-s*ci+c*cj; } return C; }
static DM empty_dm(const Ref&r){ DM d; d.first.resize(r.nb()); d.second.resize(r.nb()); for(size_t b=0;b<r.nb();b++) { long n=r.size[b%r.nsym]; d.first[b]=MX::Identity(n,n); d.second[b]=VX::Zero(n); } return d; }
// Family of states: 0 starting point of the run; k=1.. made up
static std::vector<DM> make_states(const Ref&r,const ooo::Record&rec,int n) {
  std::vector<DM> out; out.push_back({rec.C,rec.n});
  for(int k=1;k<n;k++) { DM d=empty_dm(r);
    for(size_t t=0;t<r.nt();t++) { double N=r.restricted?r.nela+r.nelb:(t?r.nelb:r.nela); double tot=0;
      for(size_t q=0;q<r.nsym;q++) { size_t b=t*r.nsym+q; long m=r.size[q]; if(!m) continue; d.first[b]=(k%2&&rec.C[b].rows()==m)?MX(rec.C[b]*(k==1?MX(MX::Identity(m,m)):rot(m,k))):rot(m,k+(int)b); for(long i=0;i<m;i++) { d.second[b](i)=r.cap[q]*std::pow(k==1?0.55:0.75,i)*(1+0.3*((q+k+t)%3)); tot+=d.second[b](i); } }
      for(size_t q=0;q<r.nsym;q++) d.second[t*r.nsym+q]*=tot>0?N/tot:0; }
    out.push_back(d); }
  // one more: every block of one spin is empty where the other spin's is not (restricted: all in the last block)
  if(r.nsym>1) { DM d=empty_dm(r); for(size_t t=0;t<r.nt();t++) { double N=r.restricted?r.nela+r.nelb:(t?r.nelb:r.nela),tot=0; for(size_t q=0;q<r.nsym;q++) { long m=r.size[q]; if(!m||(r.restricted?q+1!=r.nsym:(q+t)%2==0)) continue; size_t b=t*r.nsym+q; d.first[b]=rot(m,7); for(long i=0;i<m;i++) { d.second[b](i)=std::pow(0.6,i); tot+=d.second[b](i); } } for(size_t q=0;q<r.nsym;q++) d.second[t*r.nsym+q]*=tot>0?N/tot:0; } out.push_back(d); }
  return out;
}
static DM from_dens(const std::vector<MX>&P){ DM d; for(auto&p:P) { if(!p.size()) { d.first.push_back(MX::Zero(0,0)); d.second.push_back(VX::Zero(0)); continue; } Eigen::SelfAdjointEigenSolver<MX> es(p); d.first.push_back(es.eigenvectors()); d.second.push_back(es.eigenvalues()); } return d; }
static double fscale(const ooo::FockMatrix<double>&F){ double s=1; for(auto&f:F) if(f.size()) s=std::max(s,f.cwiseAbs().maxCoeff()); return s; }

static void check_layout(const Ref&r,const ooo::Record&x) {
  size_t nt=r.nt(); if(!H.ok(x.nblk.size()==(long)nt,"particle-types",fmt("%ld",(long)x.nblk.size()))) throw Stop();
  for(size_t t=0;t<nt;t++) if(!H.ok(x.nblk(t)==(int)r.nsym,"block-count",fmt("%d expected %zu",x.nblk(t),r.nsym))) throw Stop();
  H.ok(x.npart.size()==(long)nt&&x.maxocc.size()==(long)r.nb()&&x.desc.size()==r.nb(),"layout-sizes");
  if(r.restricted) H.ok(x.npart(0)==r.nela+r.nelb,"particles",fmt("%g",x.npart(0))); else H.ok(x.npart(0)==r.nela&&x.npart(1)==r.nelb,"particles",fmt("%g %g",x.npart(0),x.npart(1)));
  std::set<std::string> seen; for(size_t b=0;b<r.nb();b++) { H.ok(x.maxocc(b)==r.cap[b%r.nsym],"capacity",fmt("block %zu: %g expected %d",b,x.maxocc(b),r.cap[b%r.nsym])); H.ok(seen.insert(x.desc[b]).second,"labels-distinct",x.desc[b]); const std::string&l=r.lab[b%r.nsym]; if(l.size()) H.ok(x.desc[b].find(l)!=std::string::npos,"label",x.desc[b]+" expected "+l); }
}
// The whole check of one set-up
static void inspect(const Ref&r,ooo::Record&x,bool derivs,bool histories) {
  H.step(); check_layout(r,x);
  for(size_t b=0;b<r.nb();b++) H.ok(x.C[b].rows()==r.size[b%r.nsym]&&x.n[b].size()==x.C[b].cols(),"block-size",fmt("block %zu: %ldx%ld expected %d",b,(long)x.C[b].rows(),(long)x.C[b].cols(),r.size[b%r.nsym]));
  if(x.from_fock) for(size_t b=0;b<r.nb();b++) { if(!r.size[b%r.nsym]) continue; const MX&X=r.X[b%r.nsym]; MX g=X.transpose()*r.guess[b]*X; H.mclose(x.guess[b],g,1e-9*(1+g.cwiseAbs().maxCoeff()),"guess",fmt("block %zu",b)); }
  auto st=make_states(r,x,4); std::vector<double> E; std::vector<ooo::FockMatrix<double>> F;
  for(size_t k=0;k<st.size();k++) { H.step(); auto res=x.fb(st[k]); E.push_back(res.first); F.push_back(res.second); H.state(fmt("s%zu",k)); std::vector<MX> Fr; auto D=aodens(r,st[k]); double Er=r.ef(D,Fr);
    H.close(res.first,Er,1e-9*(1+std::fabs(Er)),"energy",fmt("state %zu",k));
    H.ok(res.second.size()==r.nb(),"fock-blocks");
    for(size_t b=0;b<r.nb();b++) { if(b>=r.nsym&&!r.judge_beta) { H.ok(res.second[b].rows()==r.size[b%r.nsym]&&res.second[b].allFinite(),"absent-spin-fock"); continue; } if(!r.size[b%r.nsym]) { H.ok(res.second[b].size()==0,"empty-block"); continue; } const MX&X=r.X[b%r.nsym]; MX f=X.transpose()*Fr[b]*X; H.mclose(res.second[b],f,r.ftol*(1+f.cwiseAbs().maxCoeff()),"fock",fmt("state %zu block %zu",k,b)); } }
  auto same=[&](size_t k,double e,const ooo::FockMatrix<double>&f,const char*what,const std::string&ctx){ H.close(e,E[k],1e-11*(1+std::fabs(E[k])),what,ctx); for(size_t b=0;b<r.nb();b++) if(f[b].size()) H.mclose(f[b],F[k][b],1e-11*fscale(F[k]),what,ctx); };
  if(histories) {
    // all ordered histories of three builds
    for(size_t i=0;i<st.size();i++) for(size_t j=0;j<st.size();j++) { if(i==j) continue; for(size_t k: {i,j}) { H.step(); auto res=x.fb(st[k]); same(k,res.first,res.second,"history",fmt("%zu,%zu",i,j)); H.state(fmt("h%zu%zu%zu",i,j,k)); } }
    if(x.bfb) for(size_t n=0;n<=3;n++) { size_t tot=1; for(size_t i=0;i<n;i++) tot*=st.size(); for(size_t c=0;c<tot;c++) { if(n==3&&c%5) continue; std::vector<DM> l; std::vector<size_t> w; size_t q=c; for(size_t i=0;i<n;i++) { w.push_back(q%st.size()); l.push_back(st[w.back()]); q/=st.size(); } H.step(); auto res=x.bfb(l); H.state(fmt("b%zu_%zu",n,c)); if(!H.ok(res.size()==n,"batch-size")) continue; for(size_t i=0;i<n;i++) same(w[i],res[i].first,res[i].second,"batch",fmt("%zu of %zu",i,n)); } }
  }
  if(derivs) {
    // E along every element of every block, around a state with all orbitals occupied
    std::vector<MX> P(r.nb()); auto F0=F[0];
    for(size_t t=0;t<r.nt();t++) { double N=r.restricted?r.nela+r.nelb:(t?r.nelb:r.nela),tot=0; for(size_t q=0;q<r.nsym;q++) { size_t b=t*r.nsym+q; long m=r.size[q]; if(!m) { P[b]=MX::Zero(0,0); continue; } const MX&C=x.C[b]; VX n(m); for(long i=0;i<m;i++) n(i)=r.cap[q]*(std::exp(-1.2*i)+0.02); P[b]=C*n.asDiagonal()*C.transpose(); tot+=P[b].trace(); } for(size_t q=0;q<r.nsym;q++) if(P[t*r.nsym+q].size()) P[t*r.nsym+q]*=tot>0?N/tot:0; }
    auto base=x.fb(from_dens(P)); double hs=0; for(auto&p:P) if(p.size()) hs=std::max(hs,p.cwiseAbs().maxCoeff());
    auto dir=[&](const std::vector<std::pair<size_t,MX>>&D,double h){ auto en=[&](double s){ auto Q=P; for(auto&d:D) Q[d.first]+=s*d.second; H.step(); return x.fb(from_dens(Q)).first; }; double d1=(en(h)-en(-h))/(2*h),d2=(en(h/2)-en(-h/2))/h; return (4*d2-d1)/3; };
    for(size_t b=0;b<r.nb();b++) { long m=r.size[b%r.nsym]; if(!m) continue; size_t t=b/r.nsym; if(t&&!r.judge_beta) continue; double small=P[b].eigenvalues().real().minCoeff(); double h=0.1*small;
      // reference element for particle-conserving diagonal moves: first function of the first non-empty block of the spin
      size_t b0=t*r.nsym; while(!r.size[b0%r.nsym]) b0++;
      for(long i=0;i<m;i++) for(long j=0;j<=i;j++) { std::vector<std::pair<size_t,MX>> D; MX d=MX::Zero(m,m); d(i,j)=d(j,i)=1; double ref=(base.second[b].array()*d.array()).sum(); double hh=h; if(i==j) { if(b==b0&&i==0) continue; MX d0=MX::Zero(r.size[b0%r.nsym],r.size[b0%r.nsym]); d0(0,0)=-1; ref-=base.second[b0](0,0); double s0=P[b0].eigenvalues().real().minCoeff(); hh=0.1*std::min(small,s0); if(b==b0) { d+=d0; } else D.push_back({b0,d0}); } D.push_back({b,d});
        double num=dir(D,hh); double tol=3e-6*(1+std::fabs(ref))+2e-13*(1+std::fabs(base.first))*10/hh; H.close(num,ref,tol,"fock-is-dE/dP",fmt("block %zu (%ld,%ld)",b,i,j)); } }
  }
}
static void run_case(const char*prog,Main m,const Opt&o,std::function<Ref(const Opt&)> mk,bool derivs,bool hist) {
  H.run(std::string(prog)+":"+show(o)+(derivs?"d":"")+(hist?"h":""),[=]{ Ref r; { vh::Quiet q; r=mk(o); } if(get(o,"method","").compare(0,4,"mgga")==0) r.ftol=1e-7; /* deorbitalised: noisy second derivatives */ if(get(o,"method","").find("scanl")!=std::string::npos) r.ftol=3e-5;
    bool hit=false; std::string e=drive(m,o,[&](ooo::Record&x){ hit=true; inspect(r,x,derivs,hist); throw Stop(); });
    H.ok(hit&&e=="stop","run",e); });
}
static const std::vector<std::string>&functionals() { static const std::vector<std::string> f={"lda_x","HF","lda_x-lda_c_vwn","none-lda_c_vwn","gga_x_pbe-gga_c_pbe","mgga_x_tpss-mgga_c_tpss","hyb_gga_xc_pbeh","hyb_gga_xc_cam_b3lyp","hyb_gga_xc_camy_blyp"}; return f; }
static void setup_cases() {
  const bool th=H.thorough(); auto&F=functionals();
  const Main AT=helfem_atomic_main,DI=helfem_diatomic_main,GS=helfem_gensap_main,AJ=helfem_aij_main;
  // --- functional x spin x symmetry (energies and Fock matrices), derivatives on smaller bases
  const Opt A={{"Z","C"},{"lmax","1"},{"mmax","1"},{"nelem","2"},{"nnodes","4"},{"Rmax","6"},{"ldft","8"},{"mdft","8"},{"verbosity","0"}};
  const Opt D={{"Z1","N"},{"Z2","N"},{"Rbond","2.1"},{"lmax","2,1"},{"nelem","2"},{"nnodes","4"},{"Rmax","8"},{"ldft","8"},{"mdft","8"},{"verbosity","0"}};
  const Opt G={{"Z","C"},{"lmax","1"},{"nelem","2"},{"nnodes","5"},{"Rmax","8"},{"verbosity","0"}};
  const Opt J={{"Z","C"},{"lmax","2"},{"nelem","2"},{"nnodes","4"},{"Rmax","3"},{"rs","2.5"},{"njellium","4"},{"verbosity","0"}};
  const std::vector<Opt> spins={{},{{"Q","1"}},{{"M","3"}},{{"nela","2"},{"nelb","1"}},{{"nela","1"},{"nelb","0"}},{{"nela","2"},{"nelb","2"},{"restricted","0"}},{{"nela","3"},{"nelb","1"},{"restricted","1"}}};
  const Opt small={{"nnodes","3"}};
  for(size_t f=0;f<F.size();f++) for(size_t s=0;s<spins.size();s++) { bool d=th||(f+s)%7==0;
    for(int y=0;y<3;y++) { Opt o=with(with(A,spins[s]),{{"method",F[f]},{"symmetry",S_(y)}}); run_case("atomic",AT,o,atomic_ref,false,(f+s+y)%3==0||th); if(d&&(th||y==(int)(f%3))) run_case("atomic",AT,with(o,small),atomic_ref,true,false); }
    bool rs=F[f].find("_cam")!=std::string::npos;
    if(!rs) for(int y=0;y<4;y++) for(int h=0;h<2;h++) { Opt o=with(with(D,spins[s]),{{"method",F[f]},{"symmetry",S_(y)}}); if(h) o["Z2"]="B"; if(y==2&&h) continue; if(!th&&h&&y<3) continue; run_case("diatomic",DI,o,diatomic_ref,false,(f+s+y)%4==0||th); if(d&&!h&&(th||y==(int)((f+1)%4))) run_case("diatomic",DI,with(o,with(small,{{"lmax","1,1"}})),diatomic_ref,true,false); }
    { Opt o=with(with(G,spins[s]),{{"method",F[f]}}); run_case("gensap",GS,o,gensap_ref,false,true); run_case("gensap",GS,with(o,small),gensap_ref,true,false); }
  }
  for(auto&m:F) { Func f(Opt{{"method",m}}); if(f.exx()) continue; for(int M:{0,1,2,3}) for(int nj:{0,4,5}) for(int q:{0,1}) for(int v=0;v<2;v++) { if(v&&!nj) continue; int N=6-q+nj; if(M&&(N+M)%2==0) continue; Opt o=with(J,{{"method",m},{"M",S_(M)},{"njellium",S_(nj)},{"Q",S_(q)},{"vacancy",S_(v)}}); run_case("aij",AJ,o,aij_ref,false,(M+nj+q+v)%2==0); if(M<2&&q==0) run_case("aij",AJ,with(o,small),aij_ref,th||(nj==4&&v==0),false); } }
  for(const char*m:{"lda_x","gga_x_pbe-gga_c_pbe"}) for(int v=0;v<2;v++) for(int M:{0,2}) for(int q:{0,1}) run_case("aij",AJ,with(J,{{"Z","H"},{"Q",S_(q)},{"method",m},{"njellium",q?"5":"4"},{"vacancy",S_(v)},{"M",S_(M)}}),aij_ref,false,v==1);
  for(const char*m:{"mgga_x_scanl-mgga_c_scanl","mgga_x_br89-lda_c_vwn"}) for(int s=0;s<3;s++) { Opt o={{"method",m}}; if(s==1) o=with(o,{{"nela","2"},{"nelb","1"}}); if(s==2) o=with(o,{{"nela","1"},{"nelb","0"}}); for(int y=0;y<3;y++) if(th||y==s) run_case("atomic",AT,with(with(A,o),{{"symmetry",S_(y)}}),atomic_ref,false,false); run_case("gensap",GS,with(G,o),gensap_ref,false,false); if(m[7]=='b') run_case("gensap",GS,with(with(G,o),small),gensap_ref,true,false); if(s<2) run_case("aij",AJ,with(with(J,s?Opt{{"M","2"},{"Q","1"}}:Opt{{"M","0"}}),{{"method",m}}),aij_ref,false,false); }
  // --- settings of the optimiser: what is asked for is what it is given
  struct P { const char*n; Main m; Opt o; bool conv; }; for(auto&q:std::vector<P>{{"atomic",AT,with(A,small),false},{"diatomic",DI,with(D,small),false},{"gensap",GS,with(G,small),true},{"aij",AJ,with(J,small),true}}) for(int u=0;u<2;u++) for(int k=0;k<4;k++) { const Opt sets[]={{},{{"scfmethods","DIIS"},{"convthr","3e-5"},{"maxiter","7"}},{{"scfmethods","ODA + LBFGS"},{"convthr","2.5e-10"},{"maxiter","2048"}},{{"scfmethods","CG"},{"convthr","1"},{"maxiter","1"}}};
    Opt w=sets[k]; if(!q.conv) { w.erase("convthr"); w.erase("maxiter"); } const Opt sp=q.m==AJ?Opt{{"M",u?"3":"0"}}:u?Opt{{"nela","3"},{"nelb","1"}}:Opt(); auto m=q.m; std::string aj=q.n; Opt full=with(with(q.o,sp),w); bool conv=q.conv;
    H.run(std::string("settings:")+q.n+":"+show(full),[=]{ bool hit=false; H.step(); auto e=drive(m,full,[&](ooo::Record&x){ hit=true; auto has=[&](const char*n){ auto i=x.settings.find(n); return i==x.settings.end()?std::string():i->second; };
      H.ok(has("methods")==get(full,"scfmethods","DIIS + ODA + CG"),"setting-methods",has("methods")); H.ok(has("verbosity")=="0","setting-verbosity",has("verbosity")); if(conv) { H.ok(has("maximum_iterations")==get(full,"maxiter",aj=="aij"?"1024":"128"),"setting-maxiter",has("maximum_iterations")); double c=has("convergence_threshold").size()?atof(has("convergence_threshold").c_str()):-1,want=getd(full,"convthr",1e-7); H.close(c,want,1e-5*want,"setting-convthr"); } throw Stop(); }); H.ok(hit&&e=="stop","run",e); }); }
  // --- external parameters of the functionals, given to every program
  const std::vector<Opt> pars={{{"method","gga_x_pbe-gga_c_pbe"},{"x_pars","0.6 0.25"}},{{"method","gga_x_pbe-gga_c_pbe"},{"c_pars","0.04 0.05 1.2"}},{{"method","gga_x_pbe-gga_c_pbe"},{"x_pars","1.1 0.15"},{"c_pars","0.08 0.02 0.9"}},{{"method","mgga_x_tpss-mgga_c_tpss"},{"x_pars","0.3 1.4 1.6 0.7 0.25 2 0"},{"c_pars","0.05 2.5 0.5 0.8 0.4 2.0"}},{{"method","hyb_gga_xc_pbeh"},{"x_pars","0.6"}},{{"method","hyb_gga_xc_pbeh"},{"x_pars","0"}},{{"method","hyb_gga_xc_b3lyp"},{"x_pars","0.45 0.5 0.7"}},{{"method","hyb_gga_xc_lc_wpbe"},{"x_pars","0.9 -0.7 0.25"}},{{"method","hyb_gga_xc_cam_b3lyp"},{"x_pars","0.5 -0.3 0.45 0.7"}}};
  for(auto&q:pars) { const std::string m=q.at("method"); bool rs=m.find("_lc_")!=std::string::npos||m.find("_cam_")!=std::string::npos; Func f(q);
    for(int s=0;s<2;s++) { Opt sp=s?Opt{{"nela","2"},{"nelb","1"}}:Opt(); for(int y=0;y<3;y++) { if(!th&&y!=1) continue; run_case("atomic",AT,with(with(A,sp),with(q,{{"symmetry",S_(y)}})),atomic_ref,false,false); if(!rs) run_case("diatomic",DI,with(with(D,sp),with(q,{{"symmetry",S_(y)}})),diatomic_ref,false,false); }
      run_case("gensap",GS,with(with(G,sp),q),gensap_ref,false,false); if(m.find("_lc_")==std::string::npos) run_case("gensap",GS,with(with(with(G,sp),q),small),gensap_ref,true,false); if(!f.exx()) run_case("aij",AJ,with(with(J,s?Opt{{"M","2"},{"Q","1"}}:Opt{{"M","0"}}),q),aij_ref,false,false); } }
  // --- external potentials, nuclear models, confinement, guesses: products
  const std::vector<Opt> fields={{},{{"Ez","0.31"}},{{"Qzz","-0.23"}},{{"Bz","0.17"}},{{"Ez","-0.21"},{"Qzz","0.13"},{"Bz","-0.29"}}};
  const std::vector<Opt> confs={{},{{"iconf","1"},{"conf_N","2"},{"conf_R","3.0"}},{{"iconf","1"},{"conf_N","3"},{"conf_R","-2.5"},{"shift_conf","0.7"}},{{"iconf","1"},{"conf_N","-1"},{"conf_R","1.7"}},{{"iconf","2"},{"conf_N","2"},{"conf_R","3.0"},{"shift_conf","1.0"}},{{"iconf","3"},{"conf_R","3.0"},{"conf_barrier","2.0"},{"shift_conf","2.5"},{"add_conf","0"}},{{"iconf","4"},{"conf_N","1"},{"conf_R","6.5"},{"conf_barrier","2.0"},{"shift_conf","2.0"}}};
  const std::vector<Opt> nucs={{},{{"finitenuc","1"},{"Rrms","0.01"}},{{"finitenuc","2"},{"Rrms","0.02"}},{{"finitenuc","3"},{"Rrms","0.02"}},{{"finitenuc","4"},{"Rrms","0.03"}},{{"Zl","H"},{"Rmid","1.4"},{"nelem0","1"}},{{"Zr","He"},{"Rmid","1.4"},{"nelem0","2"}},{{"Zl","Li"},{"Zr","H"},{"Rmid","0.8"},{"nelem0","1"},{"grid0","1"}},{{"Zl","H"},{"Zr","H"},{"Rmid","0.5"},{"nelem0","1"},{"angstrom","1"}}};
  const std::vector<Opt> es={{{"Q","1"}},{{"nela","2"},{"nelb","1"}}};
  const Opt A1=with(A,{{"ldft","4"},{"mdft","4"},{"nnodes","4"}});
  for(auto&f:fields) for(auto&c:confs) for(auto&n:nucs) for(auto&e:es) for(int y=0;y<3;y++) { if(!th&&y!=(int)((f.size()+c.size()+n.size()+e.size())%3)&&!(c.empty()&&n.empty())) continue; run_case("atomic",AT,with(with(with(with(A1,f),c),with(n,e)),{{"symmetry",S_(y)}}),atomic_ref,false,false); }
  for(int ig=0;ig<5;ig++) for(int zd=0;zd<2;zd++) for(int pb:{3,4,5,8,9}) for(int gr:{1,2,3,4,5}) { if(!th&&(ig+zd+pb+gr)%4) continue; run_case("atomic",AT,with(A1,{{"Z","Be"},{"iguess",S_(ig)},{"zeroder",S_(zd)},{"primbas",S_(pb)},{"grid",S_(gr)},{"zexp",gr==5?"0.4":"2"},{"nquad",gr==1?"0":"40"},{"symmetry",S_(ig%3)}}),atomic_ref,false,false); }
  const Opt D1=with(D,{{"ldft","4"},{"mdft","4"},{"lmax","2,1"}});
  const std::vector<Opt> dn={{},{{"finitenuc","1"},{"Rrms1","0.01"},{"Rrms2","0.02"}},{{"finitenuc","2"},{"Rrms1","0.02"},{"Rrms2","0.02"}},{{"finitenuc","3"},{"Rrms1","0.02"},{"Rrms2","0.01"}},{{"finitenuc","4"},{"Rrms1","0.02"},{"Rrms2","0.02"}}};
  const std::vector<Opt> zz={{},{{"Z1","H"},{"Z2","F"}},{{"Z1","Li"},{"Z2","H"},{"lmax","2"},{"mmax","1"},{"angstrom","1"},{"Rbond","1.6"}},{{"Z1",""},{"Z2","He"}}};
  for(auto&f:fields) for(auto&n:dn) for(auto&z:zz) for(auto&e:es) for(int y=0;y<4;y++) { if(z.count("Z1")&&z.at("Z1")==""&&n.size()) continue; if(!th&&(y+f.size()+n.size()+z.size()+e.size())%4&&!(n.empty()&&z.empty())&&!(f.empty()&&z.empty())) continue; run_case("diatomic",DI,with(with(with(with(D1,f),n),with(z,e.count("Q")&&z.size()?Opt{{"nela","2"},{"nelb","1"},{"restricted","1"}}:e)),{{"symmetry",S_(y)}}),diatomic_ref,false,false); }
  for(int ig=0;ig<5;ig++) for(int pm:{-1,0,1}) for(int y=0;y<4;y++) for(int u=0;u<2;u++) { if(pm==1&&y==0) continue; if(!th&&(ig+pm+y+u)%2) continue; run_case("diatomic",DI,with(D1,{{"Z1","Be"},{"Z2",u?"Li":"Be"},{"nela",u?"4":"4"},{"nelb",u?"3":"4"},{"iguess",S_(ig)},{"purem",S_(pm)},{"symmetry",S_(y)},{"method",u?"gga_x_pbe":"lda_x"},{"ldft","9"},{"mdft","9"}}),diatomic_ref,false,false); }
  for(auto&c:confs) for(int ig=0;ig<5;ig++) for(int gr:{1,4}) for(int u=0;u<2;u++) for(int l=0;l<3;l++) { if(!th&&(ig+gr+u+l)%2) continue; run_case("gensap",GS,with(with(G,c),{{"Z","Be"},{"iguess",S_(ig)},{"grid",S_(gr)},{"M",u?"3":"0"},{"lmax",S_(l)}}),gensap_ref,false,false); }
  for(int ne:{0,1,3}) for(int zr=0;zr<2;zr++) for(int v=0;v<2;v++) for(const char*nu:{"0.5","2"}) for(int rm:{0,3}) for(int gr:{1,4}) run_case("aij",AJ,with(J,{{"nelem",S_(ne)},{"zeroright",S_(zr)},{"vacancy",S_(v)},{"nufreq",nu},{"Rmax",S_(rm)},{"grid",S_(gr)},{"M","1"},{"nnodes","3"}}),aij_ref,false,false);
}
#include "scf_runs.h"
static void explore() {
  std::string dir=fmt("scf_%d",(int)getpid()); mkdir(dir.c_str(),0700); if(chdir(dir.c_str())) exit(3);
  helfem::set_verbosity(false);
  if(H.prop=="C20") setup_cases(); else if(H.prop=="C21") { energy_cases(); eig_cases(); } else { state_cases(); occupation_cases(); file_cases(); refusal_cases(); }
  if(chdir("..")) exit(3);
  std::vector<std::string> names; if(DIR*d=opendir(dir.c_str())) { while(dirent*e=readdir(d)) names.push_back(e->d_name); closedir(d); } for(auto&n:names) unlink((dir+"/"+n).c_str()); rmdir(dir.c_str());
}
VH_MAIN
