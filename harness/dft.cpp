// C16: density functional quadrature: XC energy, electron number, kinetic energy and XC matrices of the atomic, diatomic (general and pure-m) and spherically averaged grids.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include "general/model_potential.h"
#include "atomic/TwoDBasis.h"
#include "atomic/dftgrid.h"
#include "diatomic/basis.h"
#include "diatomic/dftgrid.h"
#include "diatomic/dftgrid_purem.h"
#include "sadatom/basis.h"
#include "sadatom/dftgrid.h"
#include "general/angular.h"
#include <chebyshev.h>
#include <helfem.h>
#include <xc.h>
#include <memory>
#include <complex>
using namespace ref; namespace pb=helfem::polynomial_basis; namespace mp=helfem::modelpotential; typedef helfem::Matrix DM; typedef std::complex<LD> C; typedef std::vector<std::pair<int,int>> Ang;
static const LD PI=rpi<LD>();
struct Rad { int f,nn; std::vector<LD> b; };
static std::string an(const Ang&a){ std::string s; for(auto&x: a) s+=fmt("%d,%d;",x.first,x.second); return s; }
static helfem::Vector hv(const std::vector<LD>&b){ helfem::Vector v(b.size()); for(size_t i=0;i<b.size();i++) v(i)=b[i]; return v; }
static void lm(const Ang&A,Eigen::VectorXi&l,Eigen::VectorXi&m){ l.resize(A.size()); m.resize(A.size()); for(size_t i=0;i<A.size();i++){ l(i)=A[i].first; m(i)=A[i].second; } }
// ---- functionals
struct Fn { int x,c; int kind; /*0 LDA 1 GGA 2 tau 3 lapl*/ helfem::Vector xp,cp; };
static std::vector<Fn> fns(){ helfem::Vector e,xa(1); xa<<1.1; std::vector<Fn> v{{0,0,0,e,e},{1,0,0,e,e},{0,7,0,e,e},{1,12,0,e,e},{6,0,0,xa,e},{20,0,0,e,e},{101,0,1,e,e},{0,130,1,e,e},{106,131,1,e,e},{1,130,1,e,e},{101,7,1,e,e},{402,0,1,e,e},{160,0,1,e,e},{202,231,2,e,e},{497,498,2,e,e},{202,7,2,e,e},{101,231,2,e,e},{1,240,2,e,e},{718,719,3,e,e},{718,498,3,e,e},{202,719,3,e,e},{229,0,3,e,e},{206,130,3,e,e}}; if(H.thorough()) { v.push_back({263,267,2,e,e}); v.push_back({450,0,2,e,e}); v.push_back({700,702,3,e,e}); v.push_back({207,231,3,e,e}); v.push_back({170,0,1,e,e}); v.push_back({254,0,2,e,e}); } return v; }
struct XC { std::vector<LD> e; Eigen::MatrixXd vr,vs,vt,vl; };
// local ingredients -> energy density per electron and potentials (libxc)
static XC xc(const Fn&f,bool pol,Eigen::MatrixXd rho,Eigen::MatrixXd sig,Eigen::MatrixXd tau,Eigen::MatrixXd lap,double thr){ int np=rho.cols(),ns=pol?2:1; XC o; o.e.assign(np,0); o.vr=Eigen::MatrixXd::Zero(ns,np); o.vs=Eigen::MatrixXd::Zero(pol?3:1,np); o.vt=o.vl=o.vr; for(int w=0;w<2;w++){ int id=w?f.c:f.x; if(id<=0) continue; xc_func_type F; xc_func_init(&F,id,pol?XC_POLARIZED:XC_UNPOLARIZED); xc_func_set_dens_threshold(&F,thr); helfem::Vector p=w?f.cp:f.xp; if(p.size()) xc_func_set_ext_params(&F,p.data()); std::vector<double> e(np,0); Eigen::MatrixXd a=o.vr*0,b=o.vs*0,c=a,d=a; int fam=F.info->family; bool exc=F.info->flags&XC_FLAGS_HAVE_EXC; if(fam==XC_FAMILY_LDA||fam==XC_FAMILY_HYB_LDA) { if(exc) xc_lda_exc(&F,np,rho.data(),e.data()); xc_lda_vxc(&F,np,rho.data(),a.data()); } else if(fam==XC_FAMILY_GGA||fam==XC_FAMILY_HYB_GGA) { if(exc) xc_gga_exc(&F,np,rho.data(),sig.data(),e.data()); xc_gga_vxc(&F,np,rho.data(),sig.data(),a.data(),b.data()); } else { if(exc) xc_mgga_exc(&F,np,rho.data(),sig.data(),lap.data(),tau.data(),e.data()); xc_mgga_vxc(&F,np,rho.data(),sig.data(),lap.data(),tau.data(),a.data(),b.data(),d.data(),c.data()); } for(int i=0;i<np;i++) o.e[i]+=e[i]; o.vr+=a; o.vs+=b; o.vt+=c; o.vl+=d; xc_func_end(&F); } return o; }
// ---- reference grid: functions, orthonormal gradient components and Laplacian at every point
struct Grid { int N; Mat re[5],im[5]; std::vector<LD> w; std::vector<std::vector<int>> blocks; /* m-blocks when the phi integral is analytic */ };
struct Out { LD E,N,T; Mat H[2]; double scale; };
static Out evalref(const Grid&G,const Fn&f,const std::vector<Mat>&P,double thr){ int np=G.w.size(),ns=P.size(); bool pol=ns==2; Eigen::MatrixXd rho(ns,np),sig(pol?3:1,np),tau(ns,np),lap(ns,np); std::vector<Mat> gr(ns,Mat::Zero(3,np)); for(int s=0;s<ns;s++){ Mat q[5][2]; for(int k=0;k<4;k++){ q[k][0]=P[s]*G.re[k]; q[k][1]=P[s]*G.im[k]; } auto con=[&](int a,int b,int p){ return q[a][0].col(p).dot(G.re[b].col(p))+q[a][1].col(p).dot(G.im[b].col(p)); }; for(int p=0;p<np;p++){ rho(s,p)=(double)con(0,0,p); LD t=0; for(int k=0;k<3;k++){ gr[s](k,p)=2*con(0,k+1,p); t+=con(k+1,k+1,p); } tau(s,p)=(double)(t/2); lap(s,p)=(double)(2*t+2*con(0,4,p)); } } for(int p=0;p<np;p++){ sig(0,p)=(double)gr[0].col(p).dot(gr[0].col(p)); if(pol){ sig(1,p)=(double)gr[0].col(p).dot(gr[1].col(p)); sig(2,p)=(double)gr[1].col(p).dot(gr[1].col(p)); } }
  XC x=xc(f,pol,rho,sig,tau,lap,thr); Out o; o.E=o.N=o.T=0; for(int p=0;p<np;p++) for(int s=0;s<ns;s++){ o.N+=G.w[p]*rho(s,p); o.E+=G.w[p]*rho(s,p)*x.e[p]; o.T+=G.w[p]*tau(s,p); }
  o.scale=1; for(int s=0;s<ns;s++){ Mat A[5],B[5]; Mat Hs=Mat::Zero(G.N,G.N); int vi=s?2:0; Mat M0r=G.re[0],M0i=G.im[0]; for(int p=0;p<np;p++){ M0r.col(p)*=G.w[p]*x.vr(s,p); M0i.col(p)*=G.w[p]*x.vr(s,p); } Hs+=M0r*G.re[0].transpose()+M0i*G.im[0].transpose(); Mat X=Mat::Zero(G.N,np),Y=X; bool any=false; for(int k=0;k<3;k++) for(int p=0;p<np;p++){ LD v=2*x.vs(vi,p)*gr[s](k,p)+(pol?x.vs(1,p)*gr[1-s](k,p):0.0L); if(v!=0) { any=true; X.col(p)+=G.w[p]*v*G.re[k+1].col(p); Y.col(p)+=G.w[p]*v*G.im[k+1].col(p); } } for(int p=0;p<np;p++) if(x.vl(s,p)!=0) { any=true; X.col(p)+=G.w[p]*x.vl(s,p)*G.re[4].col(p); Y.col(p)+=G.w[p]*x.vl(s,p)*G.im[4].col(p); } if(any) { Mat Z=X*G.re[0].transpose()+Y*G.im[0].transpose(); Hs+=Z+Z.transpose(); } for(int k=0;k<3;k++){ Mat R=G.re[k+1],I=G.im[k+1]; bool a=false; for(int p=0;p<np;p++){ LD v=G.w[p]*(x.vt(s,p)/2+2*x.vl(s,p)); if(v!=0) a=true; R.col(p)*=v; I.col(p)*=v; } if(a) Hs+=R*G.re[k+1].transpose()+I*G.im[k+1].transpose(); }
   if(G.blocks.size()) { Mat K=Mat::Zero(G.N,G.N); for(auto&b: G.blocks) for(int i: b) for(int j: b) K(i,j)=Hs(i,j); Hs=K; } o.H[s]=Hs; o.scale=std::max(o.scale,(double)Hs.cwiseAbs().maxCoeff()); } return o; }
static Mat psd(int n,int q,int rank=3){ Mat c(n,rank); for(int i=0;i<n;i++) for(int k=0;k<rank;k++) c(i,k)=((i*5+k*3+q*2+(i*k)%4)%7-3)/(4.0L+q); return toLD(toD(Mat(c*c.transpose()))); }
// density matrices without elements between the given blocks
static Mat blocked(const Mat&P,const std::vector<std::vector<int>>&b){ Mat o=Mat::Zero(P.rows(),P.cols()); for(auto&x: b) for(int i: x) for(int j: x) o(i,j)=P(i,j); return o; }
typedef std::function<void(const Fn&,const DM&,DM&,double&,double&,double&,double)> RF; typedef std::function<void(const Fn&,const DM&,const DM&,DM&,DM&,double&,double&,double&,bool,double)> UF;
static bool uses_tau(const Fn&f){ return f.kind>=2; }
static void judge(const Grid&G,const Fn&f,const RF&rf,const UF&uf,const std::vector<std::vector<int>>&pb_,const std::string&w,bool refuses_lapl,bool fd,bool serial=true,const Mat*S=nullptr,const Mat*T=nullptr){ double thr=1e-12; bool bad=refuses_lapl&&f.kind==3; int n=G.N; double tr=f.kind==0?1e-11:f.kind==1?1e-10:f.kind==2?1e-9:1e-8;
  for(int q=0;q<3;q++){ Mat P=psd(n,q,2+q),Q=psd(n,q+2,q==1?1:3); if(f.kind>=1) { P+=0.25L*Mat::Identity(n,n); Q+=0.125L*Mat::Identity(n,n); } if(pb_.size()) { P=blocked(P,pb_); Q=blocked(Q,pb_); } DM h,ha,hb; double E,N,K; H.step(3); if(bad) { H.throws([&]{ rf(f,toD(P),h,E,N,K,thr); },"lapl-refused"); H.throws([&]{ uf(f,toD(P),toD(Q),ha,hb,E,N,K,true,thr); },"lapl-refused"); return; }
    Out r=evalref(G,f,{P},thr); double es=1+(double)(fabsl(r.N)+fabsl(r.E)); rf(f,toD(P),h,E,N,K,thr); H.close(E,r.E,tr*es,"Exc",w); H.close(N,r.N,1e-12*es,"Nel",w); if(uses_tau(f)) H.close(K,r.T,1e-11*(1+(double)r.T),"Ekin",w); H.mclose(h,r.H[0],tr*r.scale,f.kind==0?"H-lda":f.kind==1?"H-gga":f.kind==2?"H-tau":"H-lapl",w);
    if(S) { LD x=(P**S).trace(); H.close(N,x,2e-5*(1+(double)fabsl(x)),"Nel-exact",w); } if(T&&uses_tau(f)) { LD x=(P**T).trace(); H.close(K,x,1e-3*(1+(double)fabsl(x)),"Ekin-exact",w); }
    Out u=evalref(G,f,{P,Q},thr); es=1+(double)(fabsl(u.N)+fabsl(u.E)); uf(f,toD(P),toD(Q),ha,hb,E,N,K,true,thr); H.close(E,u.E,tr*es,"Exc-pol",w); H.close(N,u.N,1e-12*es,"Nel-pol",w); if(uses_tau(f)) H.close(K,u.T,1e-11*(1+(double)u.T),"Ekin-pol",w); const char*nm=f.kind==0?"H-lda-pol":f.kind==1?"H-gga-pol":f.kind==2?"H-tau-pol":"H-lapl-pol"; H.mclose(ha,u.H[0],tr*u.scale,nm,w+" alpha"); H.mclose(hb,u.H[1],tr*u.scale,nm,w+" beta");
    if(q==0) { Mat Z=Mat::Zero(n,n); Out z=evalref(G,f,{P,Z},thr); DM xa,xb; uf(f,toD(P),toD(Z),xa,xb,E,N,K,false,thr); H.close(E,z.E,tr*es,"Exc-one-spin",w); H.close(N,z.N,1e-12*es,"Nel-one-spin",w); H.mclose(xa,z.H[0],tr*z.scale,"H-one-spin",w); H.mclose(xb,Z,0,"H-one-spin-beta",w); Mat P2=P/2; DM ya,yb; double E2; uf(f,toD(P2),toD(P2),ya,yb,E2,N,K,true,thr); H.close(E2,r.E,1e-7*es,"spin-limit",w); H.mclose(ya,r.H[0],1e-6*r.scale,"spin-limit",w); H.mclose(yb,r.H[0],1e-6*r.scale,"spin-limit",w); DM e0; if(serial) { H.throws([&]{ rf(f,e0,h,E,N,K,thr); },"empty"); helfem::Vector wp=helfem::Vector::Zero(31); if(f.x>0) { Fn g=f; g.xp=wp; if(f.x!=402&&f.x!=450&&f.x!=170&&f.x!=254) H.throws([&]{ rf(g,toD(P),h,E,N,K,thr); },"bad-params"); } } }
    // the matrix is the derivative of the energy of the same code
    if(fd&&q<2&&f.x!=160&&f.x!=206&&f.x!=207) for(int i=0;i<n;i++) for(int j=0;j<=i;j++) { if((i*7+j*3)%5!=q&&n>6) continue; auto En=[&](LD t){ Mat R=P; R(i,j)+=t; if(i!=j) R(j,i)+=t; DM x,y; double e,a,b; uf(f,toD(R),toD(Q),x,y,e,a,b,true,thr); return e; }; bool ok=pb_.empty(); for(auto&b: pb_) { bool u=false,v=false; for(int k: b) { u=u||k==i; v=v||k==j; } ok=ok||(u&&v); } if(!ok) continue; LD hh=2e-4L,d1=(En(hh)-En(-hh))/(2*hh),d2=(En(hh/2)-En(-hh/2))/hh,d=(4*d2-d1)/3; LD e=i==j?ha(i,j):ha(i,j)+ha(j,i); H.step(4); H.close((double)e,d,(f.kind>=2?2e-4:2e-5)*u.scale,"H-is-dE/dP",w); } } }
// ---- geometries
static void ygr(int l,int m,LD ct,LD ph,C o[3]){ // Y, dY/dtheta, dY/dphi at an interior angle
  LD st=sqrtl((1-ct)*(1+ct)); LD y=ytheta<LD>(l,m,ct); LD d=m*ct/st*y; if(m+1<=l) d+=sqrtl((LD)(l-m)*(l+m+1))*ytheta<LD>(l,m+1,ct); C e=std::polar(1.0L,m*ph); o[0]=e*y; o[1]=e*d; o[2]=C(0,m)*o[0]; }
static Grid atomgrid(const FE&F,const Ang&A,const helfem::atomic::basis::TwoDBasis&B,int la,int ma){ Grid G; int n=F.nbf; G.N=n*A.size(); helfem::Vector ct,ph,wa; helfem::angular::angular_chebyshev(la,ma,ct,ph,wa); int np=0; for(int e=0;e<F.nel();e++) np+=B.get_r(e).size()*ct.size(); for(int k=0;k<5;k++) G.re[k]=G.im[k]=Mat::Zero(G.N,np); int p=0; for(int e=0;e<F.nel();e++){ auto r=B.get_r(e),w=B.get_wrad(e); for(int a=0;a<ct.size();a++) for(int q=0;q<r.size();q++,p++){ LD rr=r(q),st=sqrtl((1-(LD)ct(a))*(1+(LD)ct(a))); G.w.push_back((LD)w(q)*wa(a)*rr*rr); auto b0=F.evr(F.x(rr,e),e,0),b1=F.evr(F.x(rr,e),e,1),b2=F.evr(F.x(rr,e),e,2); for(size_t c=0;c<A.size();c++){ int l=A[c].first; C y[3]; ygr(l,A[c].second,ct(a),ph(a),y); for(size_t k=0;k<b0.size();k++){ int i=c*n+F.gl[e][k]; C v[5]={y[0]*b0[k],y[0]*b1[k],y[1]*b0[k]/rr,y[2]*b0[k]/(rr*st),y[0]*(b2[k]+2*b1[k]/rr-(LD)(l*(l+1))*b0[k]/(rr*rr))}; for(int d=0;d<5;d++){ G.re[d](i,p)=v[d].real(); G.im[d](i,p)=v[d].imag(); } } } } } return G; }
static std::vector<int> pure(const Ang&A,int n){ std::vector<int> p; for(size_t a=0;a<A.size();a++) for(int k=A[a].second?1:0;k<n;k++) p.push_back(a*n+k); return p; }
static Grid digrid(const FE&F,const Ang&A,LD Rh,const helfem::diatomic::basis::TwoDBasis&B,int la,int ma,bool purem){ Grid G; int n=F.nbf; auto pu=pure(A,n); G.N=pu.size(); std::vector<int> inv(n*A.size(),-1); for(size_t i=0;i<pu.size();i++) inv[pu[i]]=i; helfem::Vector ct,ph,wa; if(purem) { helfem::chebyshev::chebyshev(la,ct,wa); ph=helfem::Vector::Zero(ct.size()); wa*=2*M_PI; } else helfem::angular::angular_chebyshev(la,ma,ct,ph,wa); int np=0; for(int e=0;e<F.nel();e++) np+=B.get_r(e).size()*ct.size(); for(int k=0;k<5;k++) G.re[k]=G.im[k]=Mat::Zero(G.N,np); int p=0;
  for(int e=0;e<F.nel();e++){ auto r=B.get_r(e),w=B.get_wrad(e); for(int q=0;q<r.size();q++) for(int a=0;a<ct.size();a++,p++){ LD mu=r(q),sh=sinhl(mu),ch=coshl(mu),st=sqrtl((1-(LD)ct(a))*(1+(LD)ct(a))),h=Rh*sqrtl(sh*sh+st*st),hp=Rh*sh*st; G.w.push_back((LD)w(q)*wa(a)*Rh*Rh*Rh*sh*(sh*sh+st*st)); auto b0=F.ev(F.x(mu,e),e,0),b1=F.ev(F.x(mu,e),e,1),b2=F.ev(F.x(mu,e),e,2); for(size_t c=0;c<A.size();c++){ int l=A[c].first,m=A[c].second; C y[3]; ygr(l,m,ct(a),ph(a),y); for(size_t k=0;k<b0.size();k++){ int i=inv[c*n+F.gl[e][k]]; if(i<0) continue; C v[5]={y[0]*b0[k],y[0]*b1[k]/h,y[1]*b0[k]/h,y[2]*b0[k]/hp,y[0]/(h*h)*(b2[k]+ch/sh*b1[k]-(l*(l+1)+m*m/(sh*sh))*b0[k])}; for(int d=0;d<5;d++){ G.re[d](i,p)=v[d].real(); G.im[d](i,p)=v[d].imag(); } } } } }
  if(purem) { std::map<int,std::vector<int>> b; for(size_t i=0;i<pu.size();i++) b[A[pu[i]/n].second].push_back(i); for(auto&x: b) G.blocks.push_back(x.second); } return G; }
void atomic(){ std::vector<std::pair<Rad,int>> RR{{{4,3,{0,1,3}},6},{{4,3,{0,0.6L,1.5L,3}},5},{{5,2,{0,2}},7}}; if(H.thorough()) { RR.push_back({{4,5,{0,0.6L,2}},10}); RR.push_back({{8,2,{0,0.5L,1,2}},12}); } std::vector<Ang> AA{{{0,0}},{{0,0},{1,0},{1,1},{1,-1}},{{2,-1},{0,0},{1,1}},{{2,2},{2,0},{1,-1}}}; auto FF=fns(); for(size_t ri=0;ri<RR.size();ri++) for(size_t ai=0;ai<AA.size();ai++) for(size_t fi=0;fi<FF.size();fi++) H.run(fmt("atom.r%zu.%s.%d.%d",ri,an(AA[ai]).c_str(),FF[fi].x,FF[fi].c),[=]{ auto&R=RR[ri].first; auto&A=AA[ai]; const Fn f=FF[fi]; FE F(R.f,R.nn,R.b,true,false,true,false); auto p=std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(R.f,R.nn)); Eigen::VectorXi l,m; lm(A,l,m); helfem::atomic::basis::TwoDBasis B(3,mp::POINT_NUCLEUS,0.0,p,false,RR[ri].second,hv(R.b),l,m,0,0,1.0); int la=5,ma=6; helfem::atomic::dftgrid::DFTGrid D(&B,la,ma); Grid G=atomgrid(F,A,B,la,ma); judge(G,f,[&](const Fn&f,const DM&P,DM&h,double&E,double&N,double&K,double t){ D.eval_Fxc(f.x,f.xp,f.c,f.cp,P,h,E,N,K,t); },[&](const Fn&f,const DM&P,const DM&Q,DM&a,DM&b,double&E,double&N,double&K,bool be,double t){ D.eval_Fxc(f.x,f.xp,f.c,f.cp,P,Q,a,b,E,N,K,be,t); },{},"",false,ri==0&&ai<3,false); }); }
void diatomic(){ std::vector<std::pair<Rad,int>> RR{{{4,3,{0,1,2}},4},{{4,2,{0,0.4L,1,1.7L}},4},{{5,2,{0,1.5L}},5}}; if(H.thorough()) { RR.push_back({{4,4,{0,0.6L,2}},7}); RR.push_back({{8,2,{0,0.5L,1}},8}); } std::vector<Ang> AA{{{0,0}},{{0,0},{1,0},{1,1},{1,-1}},{{2,-1},{0,0},{1,1}},{{1,1},{2,1},{1,-1},{2,-1},{3,0}},{{2,2},{2,0},{3,-2}},{{2,-1},{1,-1},{1,1},{2,1},{2,-2}}}; auto FF=fns(); for(size_t ri=0;ri<RR.size();ri++) for(size_t ai=0;ai<AA.size();ai++) for(size_t fi=0;fi<FF.size();fi++) for(int md=0;md<2;md++) H.run(fmt("dia%d.r%zu.%s.%d.%d",md,ri,an(AA[ai]).c_str(),FF[fi].x,FF[fi].c),[=]{ auto&R=RR[ri].first; auto&A=AA[ai]; LD Rh=ri==0?0.7L:1.4L; const Fn f=FF[fi]; FE F(R.f,R.nn,R.b,false,false,true,true); auto p=std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(R.f,R.nn)); Eigen::VectorXi l,m; lm(A,l,m); helfem::diatomic::basis::TwoDBasis B(2,5,Rh,p,RR[ri].second,hv(R.b),l,m,false); int la=6,ma=6; if(md==0) { helfem::diatomic::dftgrid::DFTGrid D(&B,la,ma); Grid G=digrid(F,A,Rh,B,la,ma,false); judge(G,f,[&](const Fn&f,const DM&P,DM&h,double&E,double&N,double&K,double t){ D.eval_Fxc(f.x,f.xp,f.c,f.cp,P,h,E,N,K,t); },[&](const Fn&f,const DM&P,const DM&Q,DM&a,DM&b,double&E,double&N,double&K,bool be,double t){ D.eval_Fxc(f.x,f.xp,f.c,f.cp,P,Q,a,b,E,N,K,be,t); },{},"",true,ri==0&&ai<2&&f.kind<3); }
   else { helfem::diatomic::dftgrid_purem::PureMDFTGrid D(&B,la+3); Grid G=digrid(F,A,Rh,B,la+3,0,true); auto rf=[&](const Fn&f,const DM&P,DM&h,double&E,double&N,double&K,double t){ D.eval_Fxc(f.x,f.xp,f.c,f.cp,P,h,E,N,K,t); }; auto uf=[&](const Fn&f,const DM&P,const DM&Q,DM&a,DM&b,double&E,double&N,double&K,bool be,double t){ D.eval_Fxc(f.x,f.xp,f.c,f.cp,P,Q,a,b,E,N,K,be,t); }; judge(G,f,rf,uf,G.blocks,"pure-m",false,ri==0&&ai>0&&ai<3);
     // equal occupation of +m and -m: declaring it must change nothing
     if(ai==1||ai==3) { Mat P=blocked(psd(G.N,1),G.blocks); int n=F.nbf; auto pu=pure(A,n); std::vector<int> mir(G.N); for(int i=0;i<G.N;i++) for(int j=0;j<G.N;j++) { auto x=A[pu[i]/n],y=A[pu[j]/n]; if(x.first==y.first&&x.second==-y.second&&pu[i]%n==pu[j]%n) mir[i]=j; } Mat S=P; for(int i=0;i<G.N;i++) for(int j=0;j<G.N;j++) S(i,j)=(P(i,j)+P(mir[i],mir[j]))/2; auto B2=B; B2.set_absm_symmetric(true); helfem::diatomic::dftgrid_purem::PureMDFTGrid D2(&B2,la+3); DM h1,h2,a1,b1; double E1,N1,K1,E2,N2,K2; H.step(2); D.eval_Fxc(f.x,f.xp,f.c,f.cp,toD(S),h1,E1,N1,K1,1e-12); D2.eval_Fxc(f.x,f.xp,f.c,f.cp,toD(S),h2,E2,N2,K2,1e-12); double sc=1+h1.cwiseAbs().maxCoeff(); H.close(E2,E1,1e-9*sc,"absm-declared"); H.close(N2,N1,1e-10*sc,"absm-declared"); H.close(K2,K1,1e-10*sc*(1+fabs(K1)),"absm-declared"); H.mclose(h2,toLD(h1),1e-8*sc,"absm-declared"); D2.eval_Fxc(f.x,f.xp,f.c,f.cp,toD(S),toD(P),a1,b1,E1,N1,K1,true,1e-12); Out u=evalref(G,f,{S,P},1e-12); H.close(E1,u.E,1e-8*(1+(double)fabsl(u.E)),"absm-unrestricted"); H.mclose(a1,u.H[0],1e-8*u.scale,"absm-unrestricted"); H.mclose(b1,u.H[1],1e-8*u.scale,"absm-unrestricted"); }
     // and the general grid gives the same numbers when its phi rule is fine enough
     if(f.kind<3) { int lg=la+3; helfem::diatomic::dftgrid::DFTGrid D2(&B,lg,10); Mat P=blocked(psd(G.N,0),G.blocks); DM h1,h2; double E1,N1,K1,E2,N2,K2; rf(f,toD(P),h1,E1,N1,K1,1e-12); D2.eval_Fxc(f.x,f.xp,f.c,f.cp,toD(P),h2,E2,N2,K2,1e-12); H.step(2); double sc=1+h1.cwiseAbs().maxCoeff(); H.close(E1,E2,1e-9*sc,"purem-vs-general"); H.close(N1,N2,1e-10*sc,"purem-vs-general"); H.mclose(h1,toLD(h2),1e-8*sc,"purem-vs-general"); } } }); }
// numbers of electrons and kinetic energies against exact integrals
void exact(){ for(int k=0;k<6;k++) H.run(fmt("exact.%d",k),[=]{ Ang A{{0,0},{1,1},{2,-1},{1,0}}; helfem::Vector e; Eigen::VectorXi l,m; lm(A,l,m); auto p=std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(4,4)); double E,N,K; DM h,hb; H.step(2); if(k<2) { std::vector<LD> b{0,0.8L,2}; helfem::atomic::basis::TwoDBasis B(3,mp::POINT_NUCLEUS,0.0,p,false,24,hv(b),l,m,0,0,1.0); Mat P=psd(B.Nbf(),k); helfem::atomic::dftgrid::DFTGrid D(&B,40,8); D.eval_Fxc(202,e,0,e,toD(P),h,E,N,K,1e-12); LD n=(toLD(B.overlap())*P).trace(),t=(toLD(B.kinetic())*P).trace(); H.close(N,n,2e-5*(double)n,"atom-Nel"); H.close(K,t,2e-4*(double)t,"atom-Ekin"); D.eval_Fxc(202,e,0,e,toD(P),toD(P),h,hb,E,N,K,true,1e-12); H.close(N,2*n,4e-5*(double)n,"atom-Nel"); H.close(K,2*t,4e-4*(double)t,"atom-Ekin"); }
   else { std::vector<LD> b{0,0.8L,2}; helfem::diatomic::basis::TwoDBasis B(2,5,0.9,p,24,hv(b),l,m,false); Mat P=psd(B.Nbf(),k&1); LD n,t; if(k<4) { helfem::diatomic::dftgrid::DFTGrid D(&B,60,8); D.eval_Fxc(202,e,0,e,toD(P),h,E,N,K,1e-12); } else { helfem::diatomic::dftgrid_purem::PureMDFTGrid D(&B,60); Ang AA=A; auto pu=pure(A,(int)B.Nrad()); std::map<int,std::vector<int>> mb; for(size_t i=0;i<pu.size();i++) mb[A[pu[i]/B.Nrad()].second].push_back(i); std::vector<std::vector<int>> bl; for(auto&x: mb) bl.push_back(x.second); P=blocked(P,bl); D.eval_Fxc(202,e,0,e,toD(P),h,E,N,K,1e-12); } n=(toLD(B.overlap())*P).trace(); t=(toLD(B.kinetic())*P).trace(); H.close(N,n,2e-5*(double)n,"dia-Nel"); H.close(K,t,2e-4*(double)t,"dia-Ekin"); } }); }
// ---- spherically averaged
void sad(){ struct RR_ { Rad R; bool zr; int nq; }; std::vector<RR_> RR{{{4,3,{0,1,3}},true,8},{{4,4,{0,0.6L,1.5L,3}},true,9},{{5,2,{0,2}},false,7},{{8,2,{0,0.75L,2,3,4.5L}},true,9}}; if(H.thorough()) { RR.push_back({{4,6,{0,0.6L,2,5}},true,15}); RR.push_back({{3,4,{0,2.5L}},false,20}); } auto FF=fns(); for(size_t ri=0;ri<RR.size();ri++) for(int lmax=0;lmax<=3;lmax++) for(size_t fi=0;fi<FF.size();fi++) H.run(fmt("sad.r%zu.%d.%d.%d",ri,lmax,FF[fi].x,FF[fi].c),[=]{ auto R=RR[ri]; const Fn f=FF[fi]; FE F(R.R.f,R.R.nn,R.R.b,true,false,R.zr,false); int n=F.nbf; auto p=std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(R.R.f,R.R.nn)); helfem::sadatom::basis::TwoDBasis B(3,mp::POINT_NUCLEUS,0.0,p,false,R.nq,hv(R.R.b),lmax,R.zr); helfem::sadatom::dftgrid::DFTGrid D(&B); int ns=lmax+1,np=F.nel()*R.nq; Mat b[3]; for(auto&x: b) x=Mat::Zero(n,np); std::vector<LD> w,rr; { int q=0; for(int e=0;e<F.nel();e++){ auto r=B.get_r(e),wr=B.get_wrad(e); for(int k=0;k<R.nq;k++,q++){ LD x=F.x(r(k),e); rr.push_back(r(k)); w.push_back(4*PI*wr(k)*(LD)r(k)*r(k)); for(int d=0;d<3;d++){ auto v=F.evr(x,e,d); for(size_t i=0;i<v.size();i++) b[d](F.gl[e][i],q)=v[i]; } } } }
   auto refc=[&](const std::vector<std::vector<Mat>>&P,LD&E,LD&N,std::vector<std::vector<Mat>>&Hh,double&sc){ int s2=P.size(); bool pol=s2==2; Eigen::MatrixXd rho(s2,np),sig(pol?3:1,np),tau(s2,np),lap(s2,np); std::vector<std::vector<LD>> g(s2,std::vector<LD>(np)); for(int s=0;s<s2;s++){ Mat T=Mat::Zero(n,n),L=T; for(int l=0;l<ns;l++){ T+=P[s][l]; L+=l*(l+1)*P[s][l]; } for(int q=0;q<np;q++){ Vec f0=b[0].col(q),f1=b[1].col(q),f2=b[2].col(q); LD r=rr[q]; rho(s,q)=(double)(f0.dot(T*f0)); g[s][q]=2*f0.dot(T*f1); LD k=f1.dot(T*f1); tau(s,q)=(double)((k+f0.dot(L*f0)/(r*r))/2); lap(s,q)=(double)(2*k+2*f0.dot(T*f2)+4*f0.dot(T*f1)/r); } } for(int q=0;q<np;q++){ sig(0,q)=(double)(g[0][q]*g[0][q]); if(pol){ sig(1,q)=(double)(g[0][q]*g[1][q]); sig(2,q)=(double)(g[1][q]*g[1][q]); } } XC x=xc(f,pol,rho,sig,tau,lap,1e-12); E=N=0; for(int q=0;q<np;q++) for(int s=0;s<s2;s++){ N+=w[q]*rho(s,q); E+=w[q]*rho(s,q)*x.e[q]; } Hh.assign(s2,{}); sc=1; for(int s=0;s<s2;s++) for(int l=0;l<ns;l++){ Mat M=Mat::Zero(n,n); for(int q=0;q<np;q++){ Vec f0=b[0].col(q),f1=b[1].col(q),f2=b[2].col(q); LD r=rr[q],v=2*x.vs(s?2:0,q)*g[s][q]+(pol?x.vs(1,q)*g[1-s][q]:0.0L)+4*x.vl(s,q)/r; M+=w[q]*((x.vr(s,q)+x.vt(s,q)*l*(l+1)/(2*r*r))*f0*f0.transpose()+(x.vt(s,q)/2+2*x.vl(s,q))*f1*f1.transpose()); Mat Z=w[q]*f0*(v/1*f1+x.vl(s,q)*f2).transpose(); M+=Z; Mat Y=Z.transpose(); M+=Y; M-=w[q]*(2*x.vl(s,q)/r)*(f0*f1.transpose()+f1*f0.transpose()); } Hh[s].push_back(M); sc=std::max(sc,(double)M.cwiseAbs().maxCoeff()); } };
   auto cub=[](const std::vector<Mat>&P){ helfem::Cube c; for(auto&x: P) c.push_back(toD(x)); return c; }; double tr=f.kind==0?1e-11:f.kind==1?1e-10:f.kind==2?1e-9:1e-8; const char*kn[]={"sad-lda","sad-gga","sad-tau","sad-lapl"};
   for(int q=0;q<3;q++){ std::vector<Mat> P,Q,Z; for(int l=0;l<ns;l++){ P.push_back(psd(n,q+l,2)); Q.push_back(psd(n,q+l+1,1+l%2)); { P[l]+=0.25L*Mat::Identity(n,n); Q[l]+=0.125L*Mat::Identity(n,n); } Z.push_back(Mat::Zero(n,n)); } LD E,N; std::vector<std::vector<Mat>> h; double sc,e,nn; helfem::Cube a,c; H.step(3); refc({P},E,N,h,sc); D.eval_Fxc(f.x,f.xp,f.c,f.cp,cub(P),a,e,nn,1e-12); double es=1+(double)(fabsl(E)+N); H.close(e,E,tr*es,"sad-Exc"); H.close(nn,N,1e-12*es,"sad-Nel"); if(H.ok((int)a.size()==ns,"sad-slices")) for(int l=0;l<ns;l++) H.mclose(a[l],h[0][l],tr*sc,kn[f.kind],fmt("l=%d",l)); auto rH=h[0]; LD rE=E; double rs=sc;
    refc({P,Q},E,N,h,sc); D.eval_Fxc(f.x,f.xp,f.c,f.cp,cub(P),cub(Q),a,c,e,nn,true,1e-12); es=1+(double)(fabsl(E)+N); H.close(e,E,tr*es,"sad-Exc-pol"); H.close(nn,N,1e-12*es,"sad-Nel-pol"); if(H.ok((int)a.size()==ns&&(int)c.size()==ns,"sad-slices")) for(int l=0;l<ns;l++) { H.mclose(a[l],h[0][l],tr*sc,kn[f.kind],fmt("alpha l=%d",l)); H.mclose(c[l],h[1][l],tr*sc,kn[f.kind],fmt("beta l=%d",l)); }
    refc({P,Z},E,N,h,sc); D.eval_Fxc(f.x,f.xp,f.c,f.cp,cub(P),cub(Z),a,c,e,nn,false,1e-12); H.close(e,E,tr*es,"sad-Exc-one"); if(H.ok((int)a.size()==ns&&(int)c.size()==ns,"sad-slices")) for(int l=0;l<ns;l++) { H.mclose(a[l],h[0][l],tr*sc,"sad-one",fmt("l=%d",l)); H.mclose(c[l],Z[l],0,"sad-one-beta"); }
    if(q==0) { std::vector<Mat> hp; for(auto&x: P) hp.push_back(x/2); D.eval_Fxc(f.x,f.xp,f.c,f.cp,cub(hp),cub(hp),a,c,e,nn,true,1e-12); H.close(e,rE,1e-7*(1+(double)fabsl(rE)),"sad-spin-limit"); for(int l=0;l<ns;l++) H.mclose(a[l],rH[l],1e-6*rs,"sad-spin-limit"); LD ex=0; for(auto&x: P) ex+=(toLD(B.overlap())*x).trace()*4*PI; if(R.nq>=2*(F.pr.degree()+1)) H.close(nn,ex,2e-3*(1+(double)ex),"sad-Nel-exact"); } } }); }
void explore(){ helfem::verbose=false; atomic(); diatomic(); exact(); sad(); }
VH_MAIN
