// C13: diatomic (prolate spheroidal) one-electron matrices, orbital values, projections.  C14: diatomic Coulomb / exchange.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <ModelPotential.h>
#include "general/model_potential.h"
#include "diatomic/basis.h"
#include "diatomic/twodquadrature.h"
#include "sadatom/scf.h"
#include <helfem.h>
#include <memory>
#include <complex>
#include <set>
#include <array>
using namespace ref; namespace pb=helfem::polynomial_basis; namespace db=helfem::diatomic::basis; namespace tq=helfem::diatomic::twodquad; namespace mp=helfem::modelpotential;
typedef std::vector<std::pair<int,int>> Ang; typedef std::complex<LD> C; typedef helfem::Matrix DM;
// ---- the SCF driver needs a library that is absent here: stand-in that returns a fabricated atom
namespace helfem { namespace sadatom { namespace scf { static AtomicSCFOptions last; static int probeZ=0; AtomicSCFResult run_atomic_scf(const AtomicSCFOptions&o){ if(!probeZ||o.Z==probeZ) last=o; AtomicSCFResult r; helfem::Vector b(o.Z==26?4:2); if(o.Z==26) b<<0,1,2.5,6; else b<<0,12; auto p=std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(4,6)); r.basis=sadatom::basis::TwoDBasis(o.Z,mp::POINT_NUCLEUS,0.0,p,false,30,b,o.lmax); int n=r.basis.Nbf(); for(int l=0;l<=o.lmax;l++){ DM c(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) c(i,j)=((i*5+j*3+l+o.Z)%7-3)/4.0; r.orbs_a.push_back(c); } r.occs_a.resize(o.lmax+1); for(int l=0;l<=o.lmax;l++) r.occs_a(l)=(int)o.fixed_per_l_a(l); return r; } } } }
struct Rad { int f,nn; std::vector<LD> b; };
static std::string an(const Ang&a){ std::string s; for(auto&x: a) s+=fmt("%d,%d;",x.first,x.second); return s; }
static db::TwoDBasis mk(const Rad&R,const Ang&A,LD Rh,int Z1=2,int Z2=5,int nq=20,bool leg=true){ auto p=std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(R.f,R.nn)); helfem::Vector v(R.b.size()); for(size_t i=0;i<R.b.size();i++) v(i)=R.b[i]; Eigen::VectorXi l(A.size()),m(A.size()); for(size_t i=0;i<A.size();i++){ l(i)=A[i].first; m(i)=A[i].second; } return db::TwoDBasis(Z1,Z2,Rh,p,nq,v,l,m,leg); }
static FE fe(const Rad&R){ return FE(R.f,R.nn,R.b,false,false,true,true); }
static Ang full(int lmax,int mmax){ Ang a; for(int m=0;m<=mmax;m++) for(int l=m;l<=lmax;l++) for(int s=0;s<(m?2:1);s++) a.push_back({l,s?-m:m}); return a; }
static std::vector<Ang> angs(int lp){ std::vector<Ang> v; Ang all; for(int l=0;l<=lp;l++) for(int m=-l;m<=l;m++) all.push_back({l,m}); for(auto&a: all) v.push_back({a}); for(auto&a: all) for(auto&b: all) if(a!=b) v.push_back({a,b}); for(int l=1;l<=3;l++) for(int m=0;m<=l;m++) v.push_back(full(l,m)); v.push_back({{3,-2},{1,1},{0,0},{2,-2}}); return v; }
static std::vector<Rad> rads(){ std::vector<Rad> v{{4,3,{0,1,2.5L}},{5,2,{0,1,2}},{3,4,{0,1.5L}},{4,4,{0,0.3L,1,2.5L}},{8,2,{0,0.75L,2}}}; if(H.thorough()) { v.push_back({4,6,{0,0.25L,0.75L,1.5L,3}}); v.push_back({9,2,{0,1,2.5L}}); v.push_back({5,3,{0,0.5L,1,2}}); } return v; }
static std::vector<int> pure(const Ang&A,int n){ std::vector<int> p; for(size_t a=0;a<A.size();a++) for(int k=A[a].second?1:0;k<n;k++) p.push_back(a*n+k); return p; }
static Mat sel(const Mat&M,const std::vector<int>&r,const std::vector<int>&c){ Mat o(r.size(),c.size()); for(size_t i=0;i<r.size();i++) for(size_t j=0;j<c.size();j++) o(i,j)=M(r[i],c[j]); return o; }
// int chi_i^* f(ch,c) chi_j dV over the prolate spheroidal volume, f real, independent of phi
template<class F> Mat op(const FE&R,const Ang&A,LD Rh,F f,int ngc=24,int ngr=0,bool vol=true){ int n=R.nbf; Mat M=Mat::Zero(n*A.size(),n*A.size()); const auto&g=gauss<LD>(ngc); if(!ngr) ngr=R.pr.degree()+20; for(int q=0;q<ngc;q++){ LD c=g.x[q]; Mat rad=R.full(0,0,[&](LD mu){ LD ch=coshl(mu); return f(ch,c)*(vol?sinhl(mu)*(ch*ch-c*c)*Rh*Rh*Rh:sinhl(mu)); },ngr); for(size_t i=0;i<A.size();i++) for(size_t j=0;j<A.size();j++) if(A[i].second==A[j].second) M.block(i*n,j*n,n,n)+=2*rpi<LD>()*g.w[q]*ytheta<LD>(A[i].first,A[i].second,c)*ytheta<LD>(A[j].first,A[j].second,c)*rad; } auto p=pure(A,n); return sel(M,p,p); }
struct Pot: public mp::ModelPotential { LD Z,a; Pot(LD z,LD a_):Z(z),a(a_){} double V(double r) const override { return -Z*expl(-a*r)/r; } };
static bool symmetric_set(const Ang&A){ for(auto&x: A) if(std::find(A.begin(),A.end(),std::make_pair(x.first,-x.second))==A.end()) return false; return true; }
void onee(){ double eps=2.220446049250313e-16; auto RR=rads(); for(size_t ri=0;ri<RR.size();ri++) for(auto&A: angs(ri==0?3:1)) for(LD Rh: {0.7L,1.6L}){ if((ri>1||(ri==0&&A.size()==2&&A[0].first+A[1].first>2))&&Rh>1) continue; if(ri>1&&A.size()>9) continue; const Rad R=RR[ri];
  H.run(fmt("1e.r%zu.%s.%Lg",ri,an(A).c_str(),Rh),[=]{ auto B=mk(R,A,Rh); FE F=fe(R); int n=F.nbf; auto p=pure(A,n); int N=p.size(); H.step(12); auto c=[&](const DM&M,const Mat&E,const char*w){ return H.mclose(M,E,1e4*eps*(1+(double)E.cwiseAbs().maxCoeff()),w); };
    H.ok((int)B.Nbf()==N&&(int)B.Ndummy()==n*(int)A.size()&&(int)B.Nrad()==n&&B.Nang()==A.size()&&B.get_Z1()==2&&B.get_Z2()==5&&B.get_Rhalf()==(double)Rh&&B.get_nquad()==20&&B.get_poly_id()==R.f&&B.get_poly_nnodes()==R.nn&&B.get_mumax()==(double)R.b.back()&&(int)B.get_rad_Nel()==F.nel(),"accessors"); auto pi=B.pure_indices(); bool same=pi.size()==p.size(); for(size_t i=0;same&&i<p.size();i++) same=pi[i]==p[i]; H.ok(same,"pure-indices");
    Mat S=op(F,A,Rh,[](LD,LD){return 1.0L;}); c(B.overlap(),S,"overlap");
    { int nn=n; Mat K1=F.full(1,1,[](LD mu){return sinhl(mu);},F.pr.degree()+20),I1=F.full(0,0,[](LD mu){return sinhl(mu);},F.pr.degree()+20),Im=F.full(10,0,[](LD mu){return mu/sinhl(mu);},F.pr.degree()+24); Mat M=Mat::Zero(nn*A.size(),nn*A.size()); for(size_t a=0;a<A.size();a++){ LD l=A[a].first,m=A[a].second; Mat t=K1+l*(l+1)*I1; if(m!=0) t+=m*m*Im; M.block(a*nn,a*nn,nn,nn)=t*(Rh/2); } c(B.kinetic(),sel(M,p,p),"kinetic"); }
    for(int z=0;z<3;z++){ int Z1=z==0?2:z==1?3:0,Z2=z==0?5:3; auto Bz=z?mk(R,A,Rh,Z1,Z2):B; c(Bz.nuclear(),op(F,A,Rh,[&](LD ch,LD x){ return -(Z1*(ch-x)+Z2*(ch+x))/(Rh*(ch*ch-x*x)); },24,F.pr.degree()+44),"nuclear"); }
    c(B.dipole_z(),op(F,A,Rh,[&](LD ch,LD x){ return Rh*ch*x; }),"dipole"); c(B.quadrupole_zz(),op(F,A,Rh,[&](LD ch,LD x){ return Rh*Rh*(3*ch*ch*x*x-(ch*ch+x*x-1))/2; }),"quadrupole");
    for(LD Bf: {0.6L,-1.2L}){ Mat E=op(F,A,Rh,[&](LD ch,LD x){ return Bf*Bf/8*Rh*Rh*(ch*ch-1)*(1-x*x); }); for(int i=0;i<N;i++) for(int j=0;j<N;j++) E(i,j)-=Bf/2*A[p[j]/n].second*S(i,j); c(B.Bz_field(Bf),E,"Bz"); }
    { auto B2=mk(R,A,Rh,2,5,20,false); H.mclose(B2.overlap(),toLD(B.overlap()),1e-13*(1+(double)S.cwiseAbs().maxCoeff()),"nolegendre"); H.mclose(B2.quadrupole_zz(),toLD(B.quadrupole_zz()),1e-11*(1+B.quadrupole_zz().cwiseAbs().maxCoeff()),"nolegendre"); H.throws([&]{ DM z=DM::Zero(N,N); B2.coulomb(z); },"need-tei"); H.throws([&]{ DM z=DM::Zero(N,N); B2.exchange(z); },"need-tei"); }
    // symmetry
    double cond; { Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(toD(S)); cond=es.eigenvalues()(N-1)/es.eigenvalues()(0); }
    H.throws([&]{B.get_sym_idx(4);},"sym-unknown"); H.throws([&]{B.get_sym_labels(4);},"sym-unknown"); int mm=0; for(auto&a: A) mm=std::max(mm,std::abs(a.second)); H.ok(B.absm_max()==mm,"absm-max");
    for(int s=0;s<=3;s++){ if(s==3&&!symmetric_set(A)) continue; auto id=B.get_sym_idx(s); auto lb=B.get_sym_labels(s); auto mi=B.get_sym_mirror_idx(s); H.ok(id.size()==lb.size()&&mi.size()==id.size(),"sym-labels"); std::vector<int> seen(N,0); std::set<std::string> ls; for(size_t b=0;b<id.size();b++){ ls.insert(lb[b]); for(int w=0;w<2;w++) for(auto k: w?mi[b]:id[b]){ if(!H.ok(k>=0&&k<N,"sym-range")) continue; seen[k]++; auto a=A[p[k]/n]; int m=a.second; std::string e=s==0?"all":s==1?fmt("m=%s%d",m>0?"+":"",m):s==2?fmt("m=%s%d %s",m>0?"+":"",m,(a.first&1)?"u":"g"):fmt("|m|=%d",std::abs(m)); H.ok(e==lb[b],"sym-label-content",lb[b]+" vs "+e); if(s==3) H.ok(w?m<0:m>=0,"sym-mirror-sign"); } if(s!=3) H.ok(mi[b].empty(),"sym-mirror"); else { H.ok(b==0?mi[b].empty():mi[b].size()==id[b].size(),"sym-mirror"); for(size_t k=0;k<mi[b].size();k++){ int x=p[id[b][k]],y=p[mi[b][k]]; H.ok(x%n==y%n&&A[x/n].first==A[y/n].first&&A[x/n].second==-A[y/n].second,"sym-mirror-order"); } } } bool part=true; for(int x: seen) part=part&&x==1; H.ok(part,"sym-partition"); H.ok(ls.size()==lb.size(),"sym-distinct");
      for(int ch=0;ch<2;ch++){ Mat X=toLD(B.Sinvh(ch,s)); Mat XX=X.transpose()*S*X,E=Mat::Identity(N,N); int nc=0; for(auto&b: id) nc+=b.size(); for(int i=nc;i<N;i++) E(i,i)=0; H.mclose(XX,E,eps*(2e3+20*cond),"Sinvh"); if(s){ int off=0; bool okb=true; for(auto&b: id){ for(size_t cI=0;cI<b.size();cI++) for(int r=0;r<N;r++) if(std::find(b.begin(),b.end(),r)==b.end()&&X(r,off+cI)!=0) okb=false; off+=b.size(); } H.ok(okb,"Sinvh-blocks"); } } }
    for(int m=-4;m<=4;m++){ std::vector<Eigen::Index> e,eo[2]; for(int k=0;k<N;k++) if(A[p[k]/n].second==m) { e.push_back(k); eo[A[p[k]/n].first&1].push_back(k); } H.ok(B.m_indices(m)==e,"m-indices"); H.ok(B.m_indices(m,false)==eo[0]&&B.m_indices(m,true)==eo[1],"m-indices-parity"); }
    for(int el=0;el<F.nel();el++){ std::vector<Eigen::Index> d,r; for(size_t a=0;a<A.size();a++) for(int g: F.gl[el]) { d.push_back(a*n+g); auto it=std::find(p.begin(),p.end(),(int)(a*n+g)); if(it!=p.end()) r.push_back(it-p.begin()); } H.ok(B.bf_list_dummy(el)==d,"bf-list-dummy"); H.ok(B.bf_list(el)==r,"bf-list"); for(int m=-3;m<=3;m++){ std::vector<Eigen::Index> e; for(auto k: d) if(A[k/n].second==m) e.push_back(k); H.ok(B.bf_list_dummy(el,m)==e,"bf-list-m"); } }
    H.throws([&]{ B.dummy_idx_to_real_idx({(Eigen::Index)B.Ndummy()}); },"index-range"); DM Q(N,N); for(int i=0;i<N;i++) for(int j=0;j<N;j++) Q(i,j)=i*1000+j+1; DM X=B.expand_boundaries(Q); Mat Xe=Mat::Zero(n*A.size(),n*A.size()); for(int i=0;i<N;i++) for(int j=0;j<N;j++) Xe(p[i],p[j])=Q(i,j); H.mclose(X,Xe,0,"expand"); H.mclose(B.remove_boundaries(X),toLD(Q),0,"remove"); if(N!=(int)B.Ndummy()) { H.throws([&]{B.expand_boundaries(X);},"bad-size"); H.throws([&]{B.remove_boundaries(Q);},"bad-size"); } }); }
 for(size_t i=0;i<RR.size();i++) for(size_t j=0;j<RR.size();j++) for(int a=0;a<9;a++) for(int b=0;b<9;b++){ if((a>4||b>4)&&(i+j)%2) continue; std::vector<Ang> AA{full(2,1),{{1,-1},{0,0}},{{2,2}},{{0,0},{1,1},{1,-1}},full(4,0),{{0,0},{1,-1}},{{1,-1},{1,1},{0,0}},{{0,0},{1,-1},{2,1}},{{4,0},{3,0},{1,1},{2,0},{0,0}}}; H.run(fmt("cross.%zu.%zu.%d.%d",i,j,a,b),[=]{ Ang A=AA[a],D=AA[b]; LD Rh=0.9L; auto X=mk(RR[i],A,Rh),Y=mk(RR[j],D,Rh); FE F=fe(RR[i]),G=fe(RR[j]); H.step(); int n=F.nbf,m=G.nbf; std::vector<LD> pts; for(LD x: RR[i].b) pts.push_back(x); for(LD x: RR[j].b) pts.push_back(x); std::sort(pts.begin(),pts.end()); const auto&g=gauss<LD>(30); Mat s0=Mat::Zero(n,m),s2=s0; for(size_t k=0;k+1<pts.size();k++) if(pts[k+1]>pts[k]&&pts[k+1]<=std::min(RR[i].b.back(),RR[j].b.back())) for(int q=0;q<30;q++){ LD h=(pts[k+1]-pts[k])/2,r=(pts[k+1]+pts[k])/2+h*g.x[q]; Mat t=g.w[q]*h*sinhl(r)*F.at(r)*G.at(r).transpose(); s0+=t; s2+=coshl(r)*coshl(r)*t; } Mat E=Mat::Zero(n*A.size(),m*D.size()); const auto&ga=gauss<LD>(16); for(size_t u=0;u<A.size();u++) for(size_t v=0;v<D.size();v++) if(A[u].second==D[v].second){ LD c0=0,c2=0; for(int q=0;q<16;q++){ LD y=2*rpi<LD>()*ga.w[q]*ytheta<LD>(A[u].first,A[u].second,ga.x[q])*ytheta<LD>(D[v].first,D[v].second,ga.x[q]); c2+=y; c0+=y*ga.x[q]*ga.x[q]; } E.block(u*n,v*m,n,m)=Rh*Rh*Rh*(c2*s2-c0*s0); } H.mclose(X.overlap(Y),sel(E,pure(A,n),pure(D,m)),1e4*eps*(1+(double)E.cwiseAbs().maxCoeff()),"cross-overlap"); }); }
 for(int a=0;a<6;a++) for(int b=-1;b<5;b++) for(int c=-1;c<4;c++) for(int d=-1;d<4;d++) H.run(fmt("lm.%d.%d.%d.%d",a,b,c,d),[=]{ std::vector<int> v{a}; if(b>=0) { v.push_back(b); if(c>=0) { v.push_back(c); if(d>=0) v.push_back(d); } } Eigen::VectorXi lm(v.size()),l,m; for(size_t i=0;i<v.size();i++) lm(i)=v[i]; db::lm_to_l_m(lm,l,m); H.step(); std::multiset<std::pair<int,int>> e,g; for(int k=0;k<(int)v.size();k++) for(int L=k;L<=v[k];L++) { e.insert({L,k}); if(k) e.insert({L,-k}); } for(int i=0;i<l.size();i++) g.insert({l(i),m(i)}); H.ok(e==g&&l.size()==m.size(),"lm-list"); }); }
void evals(){ auto RR=rads(); for(size_t ri=0;ri<RR.size();ri++) for(auto&A: std::vector<Ang>{full(3,3),{{2,-1},{0,0}},{{1,1},{1,-1},{1,0}},full(5,2)}) for(LD ct: {-1.0L,-0.93L,-0.2L,0.0L,0.5L,0.999L,1.0L}) for(LD ph: {0.0L,0.8L,-2.1L}) H.run(fmt("ev.r%zu.%s.%Lg.%Lg",ri,an(A).c_str(),ct,ph),[=]{ LD Rh=1.3L; auto B=mk(RR[ri],A,Rh,2,5,9); FE F=fe(RR[ri]); int n=F.nbf; auto p=pure(A,n); LD th=acosl(ct);
   auto yt=[&](int l,int m){ return ytheta<LD>(l,m,ct); }; auto dyt=[&](int l,int m){ LD h=1e-4L; auto f=[&](LD t){ LD c=cosl(t),sgn=sinl(t)<0&&(m&1)?-1:1; return ytheta<LD>(l,m,c)*sgn; }; LD d1=(f(th+h)-f(th-h))/(2*h),d2=(f(th+2*h)-f(th-2*h))/(4*h),d3=(f(th+3*h)-f(th-3*h))/(6*h); return (15*d1-6*d2+d3)/10; };
   auto near=[&](std::complex<double> v,C e,double tol,const char*w){ H.close(v.real(),e.real(),tol,w); H.close(v.imag(),e.imag(),tol,w); };
   for(int el=0;el<F.nel();el++){ auto r=B.get_r(el),w=B.get_wrad(el); DM rb=B.get_rad_bf(el),rd=B.get_rad_df(el),r2=B.get_rad_d2f(el); int nq=r.size(),nf=F.gl[el].size(); H.ok(nq==9&&w.size()==9&&rb.rows()==9&&rb.cols()==nf&&rd.cols()==nf&&r2.cols()==nf,"ev-size"); LD wl=0; for(int q=0;q<nq;q++) wl+=w(q); H.close(wl,2*F.e(el),1e-13,"wrad");
     for(int q=0;q<nq;q++){ LD mu=r(q),x=F.x(mu,el); auto b0=F.ev(x,el,0),b1=F.ev(x,el,1),b2=F.ev(x,el,2); double s0=1,s1=1,s2=1; for(int k=0;k<nf;k++){ s0=std::max(s0,(double)fabsl(b0[k])); s1=std::max(s1,(double)fabsl(b1[k])); s2=std::max(s2,(double)fabsl(b2[k])); } for(int k=0;k<nf;k++){ H.close(rb(q,k),b0[k],1e-13*s0,"rad-bf"); H.close(rd(q,k),b1[k],1e-12*s1,"rad-df"); H.close(r2(q,k),b2[k],1e-11*s2,"rad-d2f"); }
       auto bf=B.eval_bf(el,q,(double)ct,(double)ph); Eigen::MatrixXcd dr,dt,dp; B.eval_df(el,q,(double)ct,(double)ph,dr,dt,dp); H.step(2); int nc=A.size()*nf; if(!H.ok(bf.rows()==1&&bf.cols()==nc&&dr.rows()==1&&dr.cols()==nc&&dt.cols()==nc&&dp.cols()==nc,"ev-size")) return;
       for(size_t a=0;a<A.size();a++){ int l=A[a].first,m=A[a].second; C e=std::polar(1.0L,m*ph); for(int k=0;k<nf;k++){ int c=a*nf+k; near(bf(0,c),e*yt(l,m)*b0[k],1e-12*s0*(1+l),"bf"); near(dr(0,c),e*yt(l,m)*b1[k],1e-12*s1*(1+l),"dmu"); near(dt(0,c),e*dyt(l,m)*b0[k],1e-10*s0,"dnu"); near(dp(0,c),C(0,m)*e*yt(l,m)*b0[k],1e-11*s0*(1+l),"dphi"); } }
       if(ph==0) for(int m=-3;m<=3;m++){ DM b=B.eval_bf(el,q,(double)ct,m),bb=B.eval_bf(el,q,(double)ct,m,rb),er,et,lf; B.eval_df(el,q,(double)ct,m,er,et); B.eval_lf(el,q,(double)ct,m,lf); H.step(4); std::vector<int> fl; for(size_t a=0;a<A.size();a++) if(A[a].second==m) fl.push_back(a); int mc=fl.size()*nf; if(!H.ok(b.cols()==mc&&bb.cols()==mc&&er.cols()==mc&&et.cols()==mc&&lf.cols()==mc,"ev-m-size")) return; LD sh=sinhl(mu),ch=coshl(mu); LD h2=Rh*Rh*(sh*sh+1-ct*ct); for(size_t a=0;a<fl.size();a++){ int l=A[fl[a]].first; LD y=yt(l,m),dy=dyt(l,m); for(int k=0;k<nf;k++){ int c=a*nf+k; H.close(b(0,c),y*b0[k],1e-12*s0*(1+l),"bf-m"); H.close(bb(0,c),y*b0[k],1e-12*s0*(1+l),"bf-m"); H.close(er(0,c),y*b1[k],1e-12*s1*(1+l),"dmu-m"); H.close(et(0,c),dy*b0[k],1e-10*s0,"dnu-m"); LD lap=y/h2*(b2[k]+ch/sh*b1[k]-(l*(l+1)+m*m/(sh*sh))*b0[k]); double ls=(double)((s2+ch/sh*s1+(l*(l+1)+m*m/(sh*sh))*s0)/h2); H.close(lf(0,c),lap,1e-11*ls,"lapl-m"); } } }
       // point evaluation in global coordinates
       if(q%3==0||q==nq-1) { Eigen::VectorXcd v=B.eval_bf((double)mu,(double)ct,(double)ph); Vec R=F.at(mu); if(H.ok(v.size()==(int)p.size(),"point-size")) for(size_t i=0;i<p.size();i++) near(v(i),std::polar(1.0L,A[p[i]/n].second*ph)*yt(A[p[i]/n].first,A[p[i]/n].second)*R(p[i]%n),1e-12*s0*8,"bf-point"); } } }
   for(LD mu: RR[ri].b){ Eigen::VectorXcd v=B.eval_bf((double)mu,(double)ct,(double)ph); Vec R=F.at(mu); for(size_t i=0;i<p.size();i++) near(v(i),std::polar(1.0L,A[p[i]/n].second*ph)*yt(A[p[i]/n].first,A[p[i]/n].second)*R(p[i]%n),1e-11,"bf-boundary"); } H.throws([&]{ B.eval_bf((double)RR[ri].b.back()+0.1,0.1,0.1); },"outside"); H.throws([&]{ B.eval_bf(-0.1,0.1,0.1); },"outside"); }); }
// local polar angle and distance as seen from the probe
static void local(int probe,LD Rh,LD ch,LD c,LD&r,LD&ct){ LD z=Rh*ch*c,zz=probe==0?z+Rh:probe==2?z-Rh:z,rho2=Rh*Rh*(ch*ch-1)*(1-c*c); r=sqrtl(rho2+zz*zz); ct=r>0?zz/r:1; if(ct>1) ct=1; if(ct<-1) ct=-1; }
static LD gto(LD r,int l,LD e){ LD df=1; for(int k=2*l+1;k>0;k-=2) df*=k; return sqrtl(ipow(2.0L,l+2)*powl(2*e,l+1.5L)/(sqrtl(rpi<LD>())*df))*ipow(r,l)*expl(-e*r*r); }
static LD sto(LD r,int l,LD e){ LD f=1; for(int k=2;k<=2*l+2;k++) f*=k; return powl(2*e,l+1.5L)/sqrtl(f)*ipow(r,l)*expl(-e*r); }
void quad(){ auto RR=std::vector<Rad>{{4,4,{0,0.5L,1.2L,2.2L}},{5,2,{0,1,2}}}; tq::probe_t pr[3]={tq::PROBE_LEFT,tq::PROBE_MIDDLE,tq::PROBE_RIGHT}; Ang A{{0,0},{1,0},{2,1},{1,-1},{1,1},{2,2}};
 for(int Z=1;Z<=118;Z++) H.run(fmt("occ.%d",Z),[=]{ auto B=mk({4,4,{0,1}},{{0,0}},1,2,5,10,false); for(int sd=0;sd<2;sd++){ tq::TwoDGrid G(&B,10); helfem::sadatom::scf::probeZ=Z; G.compute_atoms(sd?0:Z,sd?Z:0); H.step(); auto&o=helfem::sadatom::scf::last; H.ok(o.Z==Z&&o.restricted&&o.fixed_per_l_a.sum()==Z&&o.fixed_per_l_a.size()==o.lmax+1&&o.fixed_per_l_b.size()==0,"atom-options"); bool ok=true; for(int l=0;l<=o.lmax;l++) ok=ok&&o.fixed_per_l_a(l)>=0; H.ok(ok&&o.fixed_per_l_a(o.lmax)>0,"atom-occupations"); H.ok(G.atomic_projection(0,0,sd?tq::PROBE_LEFT:tq::PROBE_RIGHT).size()==0,"no-atom"); } });
 for(size_t ri=0;ri<RR.size();ri++) for(LD Rh: {0.6L,1.1L}){ const Rad R=RR[ri];
  for(int k=0;k<4;k++) H.run(fmt("pot.r%zu.%Lg.%d",ri,Rh,k),[=]{ auto B=mk(R,A,Rh,2,5,40,false); FE F=fe(R); tq::TwoDGrid G(&B,40); H.step(); LD z1=k==3?0:2,z2=k==2?0:5,a1=k==1?0.7L:0,a2=k==1?1.4L:0; Pot p1(z1,a1),p2(z2,a2); Mat E=op(F,A,Rh,[&](LD ch,LD c){ LD r1=Rh*(ch+c),r2=Rh*(ch-c); return -z1*expl(-a1*r1)/r1-z2*expl(-a2*r2)/r2; },40,F.pr.degree()+40); H.mclose(G.model_potential(&p1,&p2),E,1e-9*(1+(double)E.cwiseAbs().maxCoeff()),"model-potential"); if(k==0) { mp::PointNucleus n1(2),n2(5); H.mclose(G.model_potential(&n1,&n2),toLD(B.nuclear()),1e-9*(1+(double)E.cwiseAbs().maxCoeff()),"nuclear-quadrature"); } });
  for(int st=0;st<2;st++) for(int ip=0;ip<3;ip++) for(int l=0;l<=3;l++) for(int m=-l;m<=l;m++){ if(st&&ip==1) continue; H.run(fmt("%s.r%zu.%Lg.p%d.%d.%d",st?"sto":"gto",ri,Rh,ip,l,m),[=]{ auto B=mk(R,A,Rh,2,5,40,false); FE F=fe(R); tq::TwoDGrid G(&B,40); std::vector<LD> ex{0.3L,0.9L,2.5L}; helfem::Vector e(3); e<<0.3,0.9,2.5; H.step(2); auto P=st?G.sto_projection(l,m,e,pr[ip]):G.gto_projection(l,m,e,pr[ip]); auto O=st?G.sto_overlap(l,m,e,pr[ip]):G.gto_overlap(l,m,e,pr[ip]);
     int n=F.nbf; auto p=pure(A,n); Mat E=Mat::Zero(3,n*A.size()),S=Mat::Zero(3,3); const auto&gc=gauss<LD>(40); const auto&gr=gauss<LD>(40); for(int el=0;el<F.nel();el++) for(int q=0;q<40;q++){ LD x=gr.x[q],mu=F.r(x,el),ch=coshl(mu); auto b=F.ev(x,el,0); for(int u=0;u<40;u++){ LD c=gc.x[u],r,ct; local(ip,Rh,ch,c,r,ct); LD w=2*rpi<LD>()*gc.w[u]*gr.w[q]*F.e(el)*Rh*Rh*Rh*sinhl(mu)*(ch*ch-c*c); LD v[3]; for(int k=0;k<3;k++) v[k]=(st?sto(r,l,ex[k]):gto(r,l,ex[k]))*ytheta<LD>(l,std::abs(m),ct); for(int k=0;k<3;k++){ for(int k2=0;k2<3;k2++) S(k,k2)+=w*v[k]*v[k2]; for(size_t a=0;a<A.size();a++) if(A[a].second==m) for(size_t i=0;i<b.size();i++) E(k,a*n+F.gl[el][i])+=w*v[k]*b[i]*ytheta<LD>(A[a].first,m,c); } } }
     std::vector<int> three{0,1,2}; H.mclose(O,S,3e-8,"probe-overlap"); Mat Es=sel(E,three,p),Ps=toLD(P); // the sign of the whole projection is a phase convention
     if(P.rows()==3&&P.cols()==Es.cols()&&(Ps+Es).norm()<(Ps-Es).norm()) Ps=-Ps; H.mclose(Ps,Es,3e-8,"probe-projection"); }); }
  for(int Z: {2,6,26}) for(int ip=0;ip<3;ip+=2) H.run(fmt("atom.r%zu.%Lg.%d.%d",ri,Rh,Z,ip),[=]{ auto B=mk(R,A,Rh,2,5,40,false); FE F=fe(R); tq::TwoDGrid G(&B,40); auto o=helfem::sadatom::scf::AtomicSCFOptions(); helfem::sadatom::scf::probeZ=Z; G.compute_atoms(ip==0?Z:1,ip==0?1:Z); o=helfem::sadatom::scf::last; H.step(); auto B0=B; int n=F.nbf; auto p=pure(A,n); auto occ=[&](int l){ return l<o.fixed_per_l_a.size()?(int)o.fixed_per_l_a(l):0; }; FE At(4,6,Z==26?std::vector<LD>{0,1,2.5L,6}:std::vector<LD>{0,12},true,false,true,false); H.ok(o.restricted&&o.Z==Z&&o.fixed_per_l_a.sum()==Z,"atom-options"); for(int l=0;l<=3;l++) for(int m=-l;m<=l;m++){ auto P=G.atomic_projection(l,m,pr[ip]); H.step(); int nocc=(occ(l)+2*(2*l+1)-1)/(2*(2*l+1)); if(nocc==0) { H.ok(P.size()==0,"empty-shell",fmt("l=%d",l)); continue; } if(!H.ok(P.rows()==nocc&&P.cols()==(int)p.size(),"shell-count",fmt("l=%d %ld want %d",l,(long)P.rows(),nocc))) continue; Mat E=Mat::Zero(nocc,n*A.size()); const auto&gc=gauss<LD>(60); const auto&gr=gauss<LD>(60); for(int el=0;el<F.nel();el++) for(int q=0;q<60;q++){ LD x=gr.x[q],mu=F.r(x,el),ch=coshl(mu); auto b=F.ev(x,el,0); for(int u=0;u<60;u++){ LD c=gc.x[u],r,ct; local(ip,Rh,ch,c,r,ct); int k=At.find(r); if(k<0) continue; auto o=At.evr(At.x(r,k),k,0); LD w=2*rpi<LD>()*gc.w[u]*gr.w[q]*F.e(el)*Rh*Rh*Rh*sinhl(mu)*(ch*ch-c*c)*ytheta<LD>(l,std::abs(m),ct); for(int j=0;j<nocc;j++){ LD f=0; for(size_t i=0;i<o.size();i++) { int gi=At.gl[k][i]; f+=o[i]*(((gi*5+j*3+l+Z)%7-3)/4.0L); } for(size_t a=0;a<A.size();a++) if(A[a].second==m) for(size_t i=0;i<b.size();i++) E(j,a*n+F.gl[el][i])+=w*f*b[i]*ytheta<LD>(A[a].first,m,c); } } } std::vector<int> rr; for(int j=0;j<nocc;j++) rr.push_back(j); Mat Es=sel(E,rr,p),Ps=toLD(P); if((Ps+Es).norm()<(Ps-Es).norm()) Ps=-Ps; H.mclose(Ps,Es,(Z==26?2e-2:1e-8)*(1+(double)Es.cwiseAbs().maxCoeff()),Z==26?"atomic-projection-kinks":"atomic-projection"); } H.throws([&]{ G.atomic_projection(0,0,tq::PROBE_MIDDLE); },"no-centre"); }); } }
// ---------------- two-electron ----------------
// P_l^m, Q_l^m outside the cut
static LD plm(int l,int m,LD x){ LD w=1; LD s=sqrtl((x-1)*(x+1)); for(int k=1;k<=m;k++) w*=(2*k-1)*s; if(l<m) return 0; LD p0=w; if(l==m) return p0; LD p1=x*(2*m+1)*p0; for(int k=m+2;k<=l;k++){ LD p2=((2*k-1)*x*p1-(k+m-1)*p0)/(k-m); p0=p1; p1=p2; } return p1; }
static LD qlm(int l,int m,LD x){ const auto&g=gauss<LD>(30); LD s=0; std::vector<LD> b{-1}; LD h=1; for(int k=0;k<60;k++){ b.push_back(1-h); h/=2; if(h<(x-1)*0.05L) break; } b.push_back(1); for(size_t i=0;i+1<b.size();i++){ LD hh=(b[i+1]-b[i])/2,mm=(b[i+1]+b[i])/2; for(int k=0;k<30;k++){ LD t=mm+hh*g.x[k]; s+=g.w[k]*hh*ipow((1-t*t)/(2*(x-t)),l)/ipow(x-t,m+1); } } LD f=0.5L; for(int k=1;k<=m;k++) f*=-(LD)(l+k); return f*ipow(sqrtl((x-1)*(x+1)),m)*s; }
// [a][b](i,j,k,l) = int int sinh ch^a B_i B_j (1) sinh ch^b B_k B_l (2) P(<) Q(>)
struct PT { int n; std::vector<LD> t[4]; std::vector<std::array<Mat,4>> in; LD mx=0; LD get(int ab,int i,int j,int k,int l) const { return t[ab][((size_t)(i*n+j)*n+k)*n+l]; }
  PT(const FE&R,int L,int M):n(R.nbf){ for(auto&x: t) x.assign((size_t)n*n*n*n,0); int ng=R.pr.degree()+16; const auto&g=gauss<LD>(ng);
    for(int e=0;e<R.nel();e++) for(int f=e;f<R.nel();f++){ int ne=R.gl[e].size(),nf=R.gl[f].size(); Mat E[4]; for(auto&x: E) x=Mat::Zero(ne*ne,nf*nf);
      if(e!=f){ Vec s[2],b[2]; for(int a=0;a<2;a++){ s[a]=Vec::Zero(ne*ne); b[a]=Vec::Zero(nf*nf); } for(int w=0;w<2;w++){ int el=w?f:e; auto P=panels(R.bv[el],R.bv[el+1],2); for(size_t p=0;p+1<P.size();p++) for(int q=0;q<ng;q++){ LD h=(P[p+1]-P[p])/2,mu=(P[p+1]+P[p])/2+h*g.x[q],ch=coshl(mu); LD k=g.w[q]*h*sinhl(mu)*(w?qlm(L,M,ch):plm(L,M,ch)); Vec pr=prod(R,mu,el); for(int a=0;a<2;a++) (w?b:s)[a]+=k*(a?ch*ch:1)*pr; } } for(int a=0;a<2;a++) for(int c=0;c<2;c++) E[2*a+c]=s[a]*b[c].transpose(); }
      else { std::vector<LD> P; LD a0=R.bv[e],b0=R.bv[e+1]; if(a0==0) { P.push_back(0); for(int k=10;k>=0;k--) P.push_back(b0*powl(0.3L,k)); } else P=panels(a0,b0,2); Vec cum[2]; cum[0]=cum[1]=Vec::Zero(ne*ne); for(size_t p=0;p+1<P.size();p++){ Vec tot[2]; for(int q=0;q<ng;q++){ LD h=(P[p+1]-P[p])/2,mu=(P[p+1]+P[p])/2+h*g.x[q],ch=coshl(mu); Vec in[2]={cum[0],cum[1]}; LD hh=(mu-P[p])/2; for(int u=0;u<ng;u++){ LD m2=P[p]+hh*(1+g.x[u]),c2=coshl(m2); LD k=g.w[u]*hh*sinhl(m2)*plm(L,M,c2); Vec pr=prod(R,m2,e); in[0]+=k*pr; in[1]+=k*c2*c2*pr; } LD k=g.w[q]*h*sinhl(mu)*qlm(L,M,ch); Vec pr=prod(R,mu,e); for(int a=0;a<2;a++) for(int c=0;c<2;c++) { Mat o=k*(a?ch*ch:1)*pr*in[c].transpose(); E[2*a+c]+=o; E[2*c+a]+=o.transpose(); } } for(int u=0;u<ng;u++){ LD h=(P[p+1]-P[p])/2,m2=(P[p+1]+P[p])/2+h*g.x[u],c2=coshl(m2); LD k=g.w[u]*h*sinhl(m2)*plm(L,M,c2); Vec pr=prod(R,m2,e); cum[0]+=k*pr; cum[1]+=k*c2*c2*pr; } } }
      if(e==f) in.push_back({E[0],E[1],E[2],E[3]}); for(int ab=0;ab<4;ab++) for(int a=0;a<ne;a++) for(int b=0;b<ne;b++) for(int c=0;c<nf;c++) for(int d=0;d<nf;d++){ LD v=E[ab](a*ne+b,c*nf+d); int A=R.gl[e][a],B=R.gl[e][b],Cc=R.gl[f][c],D=R.gl[f][d]; t[ab][((size_t)(A*n+B)*n+Cc)*n+D]+=v; if(e!=f) t[ab==1?2:ab==2?1:ab][((size_t)(Cc*n+D)*n+A)*n+B]+=v; } }
    for(auto&x: t) for(LD v: x) mx=std::max(mx,fabsl(v)); } };
static std::map<std::tuple<int,int,int>,std::shared_ptr<PT>> cache; static int cacheid=-1;
struct Two { const FE&F; Ang A; LD Rh; int n,na; int id; double scale=0; Two(const FE&F_,const Ang&A_,LD r,int id_):F(F_),A(A_),Rh(r),n(F_.nbf),na(A_.size()),id(id_){ if(cacheid!=id){ cache.clear(); cacheid=id; } }
  const PT& T(int L,int M){ auto&p=cache[{id,L,M}]; if(!p) p=std::make_shared<PT>(F,L,M); return *p; }
  LD pref(int L,int M) const { LD f=4*rpi<LD>()*ipow(Rh,5)*((M&1)?-1:1); for(int k=L-M+1;k<=L+M;k++) f/=k; return f; }
  // al[a] = int Y_i^* Y_LM Y_j (with cos^2 for a==0, sign included); M=m_i-m_j
  std::map<std::tuple<int,int,int,int>,LD> am; LD al(int a,int i,int j,int L){ auto k=std::make_tuple(a,i,j,L); auto it=am.find(k); if(it!=am.end()) return it->second; int M=A[i].second-A[j].second; LD s=0; if(std::abs(M)<=L){ int ng=(A[i].first+A[j].first+L)/2+3; const auto&g=gauss<LD>(ng); for(int q=0;q<ng;q++) s+=g.w[q]*ytheta<LD>(A[i].first,A[i].second,g.x[q])*ytheta<LD>(L,M,g.x[q])*ytheta<LD>(A[j].first,A[j].second,g.x[q])*(a?1:-g.x[q]*g.x[q]); s*=2*rpi<LD>(); } if(fabsl(s)<1e-17L) s=0; return am[k]=s; }
  // angular weight of channel ab in (i^* j | k l^*), requires m_i-m_j==m_k-m_l... conjugate on the second pair is supplied through Y_LM^*
  template<class G> void each(int i,int j,int k,int l,G g){ int M=A[i].second-A[j].second; if(M!=A[k].second-A[l].second) return; int lo=std::max(std::abs(M),0),hi=std::min(A[i].first+A[j].first,A[k].first+A[l].first)+2; for(int L=lo;L<=hi;L++){ LD w[4]; bool any=false; for(int a=0;a<2;a++) for(int b=0;b<2;b++){ w[2*a+b]=al(a,i,j,L)*al(b,k,l,L)*pref(L,std::abs(M)); any=any||w[2*a+b]!=0; } if(any) g(L,std::abs(M),w); } }
  Mat J(const Mat&P){ Mat O=Mat::Zero(n*na,n*na); for(int k=0;k<na;k++) for(int l=0;l<na;l++){ if(P.block(k*n,l*n,n,n).isZero(0)) continue; for(int i=0;i<na;i++) for(int j=0;j<na;j++) each(j,i,k,l,[&](int L,int M,LD*w){ const PT&t=T(L,M); for(int c=0;c<n;c++) for(int d=0;d<n;d++){ LD p=P(k*n+c,l*n+d); if(p==0) continue; for(int ab=0;ab<4;ab++) for(int a=0;a<n;a++) for(int b=0;b<n;b++) O(i*n+a,j*n+b)+=p*w[ab]*t.get(ab,a,b,c,d); scale=std::max(scale,(double)(fabsl(w[3])*t.mx)); } }); } return O; }
  Mat K(const Mat&P){ Mat O=Mat::Zero(n*na,n*na); for(int i=0;i<na;i++) for(int l=0;l<na;l++){ if(P.block(i*n,l*n,n,n).isZero(0)) continue; for(int j=0;j<na;j++) for(int k=0;k<na;k++) each(j,i,k,l,[&](int L,int M,LD*w){ const PT&t=T(L,M); for(int c=0;c<n;c++) for(int d=0;d<n;d++){ LD p=P(i*n+c,l*n+d); if(p==0) continue; for(int ab=0;ab<4;ab++) for(int a=0;a<n;a++) for(int b=0;b<n;b++) O(j*n+a,k*n+b)-=p*w[ab]*t.get(ab,a,c,b,d); scale=std::max(scale,(double)(fabsl(w[3])*t.mx)); } }); } return O; } };
void twoe(){ std::vector<Rad> RR{{4,3,{0,1,2}},{5,2,{0,0.8L,1.6L}},{4,3,{0,0.4L,1,1.8L}},{3,4,{0,1.5L}}}; RR.push_back({4,4,{0,0.7L,1.6L}}); RR.push_back({8,2,{0,1,2}}); if(H.thorough()) { RR.push_back({4,5,{0,0.3L,0.9L,2}}); RR.push_back({9,2,{0,0.6L,1.5L}}); RR.push_back({5,3,{0,1.1L,2}}); } std::vector<Ang> AA=angs(H.thorough()?2:1); for(Ang a: std::vector<Ang>{{{2,1},{1,-1}},{{2,-2},{2,2}},{{0,0},{2,0}},{{2,2},{1,1},{0,0}},{{3,1},{1,0}},{{1,-1},{2,-2},{0,0}},{{3,-3}},{{2,2},{0,0}},{{2,-1},{1,1},{1,-1},{2,1}}}) AA.push_back(a);
 for(size_t ri=0;ri<RR.size();ri++) for(auto&A: AA){ if((int)A.size()>(ri==0?9:ri<2?4:H.thorough()?6:3)) continue; const Rad R=RR[ri]; LD Rh=ri&1?1.2L:0.8L; H.run(fmt("jk.r%zu.%s",ri,an(A).c_str()),[=]{ auto B=mk(R,A,Rh,2,5,16); FE F=fe(R); Two t(F,A,Rh,ri); int n=F.nbf,N=B.Nbf(); auto p=pure(A,n); DM z=DM::Zero(N,N); H.throws([&]{B.coulomb(z);},"need-tei"); H.throws([&]{B.exchange(z);},"need-tei"); B.compute_tei(true); H.mclose(B.coulomb(z),Mat(Mat::Zero(N,N)),0,"J0"); H.mclose(B.exchange(z),Mat(Mat::Zero(N,N)),0,"K0"); H.throws([&]{ DM q=DM::Zero(N+1,N+1); B.coulomb(q); },"bad-size"); H.throws([&]{ DM q=DM::Zero(N+1,N+1); B.exchange(q); },"bad-size");
   auto ex=[&](const DM&P){ Mat X=Mat::Zero(n*A.size(),n*A.size()); for(int i=0;i<N;i++) for(int j=0;j<N;j++) X(p[i],p[j])=P(i,j); return X; };
   auto one=[&](const DM&P,bool mir){ Mat X=ex(P); H.step(2); Mat J=sel(t.J(X),p,p),K=sel(t.K(X),p,p); double s=std::max(1.0,P.cwiseAbs().sum())*(1+t.scale); if(!mir) { H.mclose(B.coulomb(P),J,1e-10*s,"J"); H.mclose(B.exchange(P),K,1e-10*s,"K"); } else { auto BB=B; BB.set_absm_symmetric(true); H.ok(BB.is_absm_symmetric()&&!B.is_absm_symmetric(),"absm-flag"); H.mclose(BB.coulomb(P),J,1e-10*s,"J-mirror"); H.mclose(BB.exchange(P),K,1e-10*s,"K-mirror"); } };
   DM D(N,N); for(int i=0;i<N;i++) for(int j=0;j<N;j++) D(i,j)=(((i*7+j*3)%11)-4)/4.0; one(D,false); int st=N>20&&!H.thorough()?(N*N/180+1):1; for(int k=0;k<N*N;k++) if(k%st==0) { DM P=DM::Zero(N,N); P(k/N,k%N)=1; one(P,false); }
   if(symmetric_set(A)) { for(int q=0;q<4;q++){ DM P=DM::Zero(N,N); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ auto a=A[p[i]/n],b=A[p[j]/n]; if(a.second==b.second) P(i,j)=(((p[i]%n)*5+(p[j]%n)*3+a.first*2+b.first+std::abs(a.second)*(q+1)+q)%7-3)/3.0; } one(P,true); } } }); } }
// the in-element kernels themselves, on both code paths, and the factorisation that Coulomb and exchange contract with
static void kernels(const std::vector<Rad>&RR){ for(size_t ri=0;ri<RR.size();ri++) for(int L=0;L<=(H.thorough()?6:4);L++) for(int M=0;M<=L;M++) H.run(fmt("kern.r%zu.%d.%d",ri,L,M),[=]{ const Rad R=RR[ri]; FE F=fe(R); PT t(F,L,M); Ang A=full(3,2); auto B=mk(R,A,0.9L,2,5,16); B.compute_tei(true); auto pp=std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(R.f,R.nn)); helfem::Vector bv(R.b.size()); for(size_t i=0;i<R.b.size();i++) bv(i)=R.b[i]; pb::FiniteElementBasis fb(pp,bv,false,false,true,true); db::RadialBasis rb(fb,60); int mx=0; H.ok((int)rb.Nel()==F.nel()&&(int)rb.Nbf()==F.nbf,"sizes");
  for(int e=0;e<F.nel();e++){ int n=F.gl[e].size(); mx=std::max(mx,n); H.ok((int)rb.Nprim(e)==n,"nprim"); H.step(3); const auto&in=t.in[e]; double sc=1; for(auto&x: in) sc=std::max(sc,(double)x.cwiseAbs().maxCoeff()); auto q=[&](int i,int j){ return j*n+i; }; auto ord=[&](const Mat&X){ Mat o(n*n,n*n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) for(int k=0;k<n;k++) for(int l=0;l<n;l++) o(q(i,j),q(k,l))=X(i*n+j,k*n+l); return o; };
   for(int a=0;a<2;a++) for(int b=0;b<2;b++){ helfem::diatomic::quadrature::MLegendreCache lg(M,L); H.mclose(rb.twoe_integral(2*a,2*b,rb.twoe_element(e,60),L,M,lg),ord(in[2*a+b]),1e-12*sc,"in-element"); helfem::diatomic::quadrature::MLegendreCache l2(M,L); H.mclose(rb.twoe_integral(2*a,2*b,(size_t)e,L,M,l2),ord(in[2*a+b]),1e-12*sc,"in-element-direct"); if(a==b) H.mclose(rb.twoe_integral(2*a,2*b,rb.twoe_element(e),L,M,lg),ord(in[2*a+b]),1e-12*sc,"in-element-stored"); }
   DM W=B.in_element_kernel(e,L,M); Mat Ew=Mat::Zero(2*n*n,2*n*n); int N=n*n; for(int a=0;a<2;a++) for(int b=0;b<2;b++) Ew.block(a*N,b*N,N,N)=(a==b?1:-1)*ord(in[2*a+b]); H.mclose(W,Ew,1e-12*sc,"kernel"); DM K=B.in_element_kernel_exchange(e,L,M); Mat Ek(N,4*N); for(int ab=0;ab<4;ab++) for(int i=0;i<n;i++) for(int j=0;j<n;j++) for(int k=0;k<n;k++) for(int l=0;l<n;l++) Ek(q(j,k),ab*N+q(i,l))=in[ab](i*n+j,k*n+l); H.mclose(K,Ek,1e-12*sc,"kernel-exchange"); auto er=B.check_cd(e,L,M); H.close(er.first,0,1e-9,"factorisation-J"); H.close(er.second,0,1e-9,"factorisation-K"); } H.ok((int)rb.max_Nprim()==mx,"max-nprim");
  if(L<4&&M==0) for(int m=-1;m<=3;m++) { int k=L; if(m<0&&k>0) continue; Mat E=F.full(0,0,[&](LD mu){ return (m<0?(mu>0?1/sinhl(mu):0):ipow(sinhl(mu),m))*ipow(coshl(mu),k); },F.pr.degree()+24); if(m>=0) H.mclose(rb.radial_integral(m,k),E,1e-12*(1+(double)E.cwiseAbs().maxCoeff()),"radial-integral",fmt("%d %d",m,k)); } }); }
void explore(){ helfem::verbose=false; if(H.prop=="C14") { twoe(); std::vector<Rad> R{{4,3,{0,1,2}},{5,2,{0,0.8L,1.6L}},{3,4,{0,0.4L,1,1.8L}}}; if(H.thorough()) { R.push_back({8,2,{0,1,2}}); R.push_back({4,5,{0,1.5L}}); } kernels(R); } else { onee(); evals(); quad(); } }
VH_MAIN
