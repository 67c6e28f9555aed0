// C11: atomic (spherical coordinates) one-electron matrices and basis evaluation.  C12: atomic Coulomb / exchange / range-separated exchange / density fitting.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <FiniteElementBasis.h>
#include <ModelPotential.h>
#include "general/model_potential.h"
#include "atomic/TwoDBasis.h"
#include "atomic/basis.h"
#include "general/spherical_harmonics.h"
#include <helfem.h>
#include <memory>
#include <complex>
using namespace ref; namespace pb=helfem::polynomial_basis; namespace ab=helfem::atomic::basis; namespace mp=helfem::modelpotential;
template<class T> const char* tn(); template<> const char* tn<double>(){return "d";} template<> const char* tn<long double>(){return "l";}
typedef std::vector<std::pair<int,int>> Ang; typedef std::complex<LD> C;
struct Rad { int f,nn; std::vector<LD> b; bool zd; };
static std::string an(const Ang&a){ std::string s; for(auto&x: a) s+=fmt("%d,%d;",x.first,x.second); return s; }
template<class T> ab::TwoDBasisT<T> mk(const Rad&R,const Ang&A,int Z=3,int Zl=0,int Zr=0,LD Rh=1,int nq=20,int model=mp::POINT_NUCLEUS,LD Rrms=0){ auto p=std::shared_ptr<const pb::PolynomialBasisT<T>>(pb::get_basis_T<T>(R.f,R.nn)); helfem::Vec<T> v(R.b.size()); for(size_t i=0;i<R.b.size();i++) v(i)=(T)R.b[i]; Eigen::VectorXi l(A.size()),m(A.size()); for(size_t i=0;i<A.size();i++){ l(i)=A[i].first; m(i)=A[i].second; } return ab::TwoDBasisT<T>(Z,(mp::nuclear_model_t)model,(T)Rrms,p,R.zd,nq,v,l,m,Zl,Zr,(T)Rh); }
static FE fe(const Rad&R){ return FE(R.f,R.nn,R.b,true,false,true,R.zd); }
static Ang full(int lmax,int mmax){ Ang a; for(int m=0;m<=mmax;m++) for(int s=0;s<(m?2:1);s++) for(int l=m;l<=lmax;l++) a.push_back({l,s?-m:m}); return a; }
static std::vector<Ang> angs(int lp){ std::vector<Ang> v; Ang all; for(int l=0;l<=lp;l++) for(int m=-l;m<=l;m++) all.push_back({l,m}); for(auto&a: all) v.push_back({a}); for(auto&a: all) for(auto&b: all) if(a!=b) v.push_back({a,b}); for(int l=1;l<=3;l++) for(int m=0;m<=l;m++) v.push_back(full(l,m)); v.push_back({{3,-2},{1,1},{0,0},{2,-2}}); return v; }
static std::vector<Rad> rads(){ std::vector<Rad> v{{4,3,{0,1,3},false},{5,2,{0,1,3},true},{3,4,{0,2.5L},false},{4,4,{0,0.5L,1.5L,4},false},{8,2,{0,0.75L,2},false}}; if(H.thorough()) { v.push_back({4,6,{0,0.25L,1,2,6},false}); v.push_back({9,2,{0,1,2.5L},true}); v.push_back({5,3,{0,1,2,5},false}); } return v; }
// theta-integral of Y_i^* g(cos) Y_j, zero unless m equal
template<class G> LD angint(std::pair<int,int> i,std::pair<int,int> j,G g,int deg){ if(i.second!=j.second) return 0; int ng=(i.first+j.first+deg)/2+2; const auto&q=gauss<LD>(ng); LD s=0; for(int k=0;k<ng;k++) s+=q.w[k]*ytheta<LD>(i.first,i.second,q.x[k])*g(q.x[k])*ytheta<LD>(j.first,j.second,q.x[k]); return s*2*rpi<LD>(); }
static Mat kron(const Ang&A,const std::function<Mat(int,int)>&f,int n){ Mat M=Mat::Zero(A.size()*n,A.size()*n); for(size_t i=0;i<A.size();i++) for(size_t j=0;j<A.size();j++) M.block(i*n,j*n,n,n)=f(i,j); return M; }
static auto one=[](LD){return 1.0L;};
struct RadInts { int n; Mat S,T,Tl,V,r1,r2; RadInts(const FE&R){ n=R.nbf; S=R.full(0,0,one); T=R.full(1,1,one)/2; Tl=R.full(10,10,one,48)/2; V=R.full(10,0,one,48); r1=R.full(0,0,[](LD r){return r;}); r2=R.full(0,0,[](LD r){return r*r;}); } };
template<class T> void onee(){ double eps=std::numeric_limits<T>::epsilon(); bool dbl=sizeof(T)==8; auto RR=rads(); for(size_t ri=0;ri<RR.size();ri++) for(auto&A: angs(dbl?(ri==0?3:1):1)){ if(!dbl&&(A.size()>4||ri>2)) continue; if(ri>1&&A.size()>9) continue; const Rad R=RR[ri];
   H.run(fmt("%s.1e.r%zu.%s",tn<T>(),ri,an(A).c_str()),[=]{ auto B=mk<T>(R,A); FE F=fe(R); RadInts I(F); int n=I.n,N=n*A.size(); H.step(12); double tol=4e3*eps; auto c=[&](const helfem::Mat<T>&M,const Mat&E,const char*w){ return H.mclose(M,E,tol*(1+(double)E.cwiseAbs().maxCoeff()),w); };
     H.ok((int)B.Nbf()==N&&(int)B.Ndummy()==N&&(int)B.Nrad()==n&&B.Nang()==A.size(),"sizes"); H.ok(B.get_poly_id()==R.f&&B.get_poly_nnodes()==R.nn&&B.get_zeroder()==(int)R.zd&&B.get_nquad()==20&&B.get_Z()==3&&B.get_Zl()==0&&B.get_Zr()==0,"accessors");
     auto lv=B.get_lval(),mv=B.get_mval(); bool okl=lv.size()==(int)A.size()&&mv.size()==lv.size(); for(size_t i=0;okl&&i<A.size();i++) okl=lv(i)==A[i].first&&mv(i)==A[i].second; H.ok(okl,"lm"); auto bv=B.get_bval(); for(size_t i=0;i<R.b.size();i++) H.close((LD)bv(i),R.b[i],0,"bval");
     auto d=[&](const Mat&M){ return kron(A,[&](int i,int j){ return i==j?M:Mat(Mat::Zero(n,n)); },n); };
     Mat Sx=d(I.S); c(B.overlap(),Sx,"overlap"); c(B.kinetic(),kron(A,[&](int i,int j){ Mat z=Mat::Zero(n,n); if(i==j) { LD l=A[i].first; z=I.T+l*(l+1)*I.Tl; } return z; },n),"kinetic"); c(B.nuclear(),d(Mat(-3*I.V)),"nuclear");
     c(B.dipole_z(),kron(A,[&](int i,int j){ return Mat(angint(A[i],A[j],[](LD x){return x;},1)*I.r1); },n),"dipole"); c(B.quadrupole_zz(),kron(A,[&](int i,int j){ return Mat(angint(A[i],A[j],[](LD x){return 3*x*x-1;},2)*I.r2*0.5L); },n)*1.0L,"quadrupole");
     for(LD Bz: {0.7L,-1.3L}) c(B.Bz_field((T)Bz),kron(A,[&](int i,int j){ Mat z=Bz*Bz/8*angint(A[i],A[j],[](LD x){return 1-x*x;},2)*I.r2; if(i==j) z-=Bz/2*A[i].second*I.S; return z; },n),"Bz");
     { mp::PointNucleusT<T> pn(2); c(B.model_potential(&pn),d(Mat(-2*I.V)),"model"); }
     for(int ic=0;ic<=1;ic++) { auto M=B.confinement(2,T(1),ic,T(0.5),T(0)); c(M,d(ic?Mat(I.r2):Mat(Mat::Zero(n,n))),"confinement"); }
     double cond; { Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(toD(Sx)); cond=es.eigenvalues()(N-1)/es.eigenvalues()(0); }
     // symmetry partitions and half-inverse overlaps
     for(int s=0;s<=3;s++) { if(s==3) { H.throws([&]{B.get_sym_idx(3);},"sym-unknown"); H.throws([&]{B.get_sym_labels(3);},"sym-unknown"); continue; } auto id=B.get_sym_idx(s); auto lb=B.get_sym_labels(s); H.ok(id.size()==lb.size(),"sym-labels"); std::vector<int> seen(N,0); std::set<std::string> ls; for(size_t b=0;b<id.size();b++){ ls.insert(lb[b]); std::set<std::string> want; for(auto k: id[b]){ if(!H.ok(k>=0&&k<N,"sym-range")) continue; seen[k]++; auto a=A[k/n]; std::string e=s==0?"all":s==1?fmt("m=%s%d",a.second>0?"+":"",a.second):fmt("l=%d m=%s%d",a.first,a.second>0?"+":"",a.second); want.insert(e); } H.ok(want.size()==1&&*want.begin()==lb[b],"sym-label-content",lb[b]); } bool part=true; for(int x: seen) part=part&&x==1; H.ok(part,"sym-partition"); H.ok(ls.size()==lb.size(),"sym-distinct");
       for(int chol=0;chol<2;chol++){ auto X=B.Sinvh(chol,s); Mat x=toLD(X); H.mclose(Mat(x.transpose()*Sx*x),Mat(Mat::Identity(N,N)),eps*(2e3+20*cond),"Sinvh"); // block structure: orthonormal columns belong to one block
         if(s) { int off=0; bool okb=true; for(auto&b: id){ for(size_t cI=0;cI<b.size();cI++) for(int r=0;r<N;r++) if(std::find(b.begin(),b.end(),r)==b.end()&&x(r,off+cI)!=0) okb=false; off+=b.size(); } H.ok(okb,"Sinvh-blocks"); } } }
     for(int m=-4;m<=4;m++) { auto v=B.m_indices(m); std::vector<Eigen::Index> e; for(int k=0;k<N;k++) if(A[k/n].second==m) e.push_back(k); H.ok(v==e,"m-indices"); for(int l=0;l<=4;l++){ auto w=B.lm_indices(l,m); std::vector<Eigen::Index> e2; for(int k=0;k<N;k++) if(A[k/n]==std::make_pair(l,m)) e2.push_back(k); H.ok(w==e2,"lm-indices"); } }
     for(size_t el=0;el<B.get_rad_Nel();el++){ auto bl=B.bf_list(el); std::vector<Eigen::Index> e; for(size_t a=0;a<A.size();a++) for(int g: F.gl[el]) e.push_back(a*n+g); H.ok(bl==e,"bf-list"); auto rg=B.radial_element_range(el); if(F.gl[el].size()) H.ok((int)rg.first==F.gl[el].front()&&(int)rg.second==F.gl[el].back(),"rad-range"); } H.ok((int)B.get_rad_Nel()==F.nel(),"nel"); });
   // off-centre charges
   if((dbl&&ri<=1)||A.size()<=2) { std::vector<LD> RH(R.b.begin()+1,R.b.end()); RH.push_back(R.b.back()+0.5L); for(LD Rh: RH) for(int zc=0;zc<4;zc++){ if(ri==0&&A.size()==2&&Rh!=1.0L&&zc!=3) continue; static const int ZZ[4][3]={{0,2,0},{0,0,3},{3,1,2},{1,4,4}}; int Z=ZZ[zc][0],Zl=ZZ[zc][1],Zr=ZZ[zc][2]; H.run(fmt("%s.off.r%zu.%s.%Lg.%d",tn<T>(),ri,an(A).c_str(),Rh,zc),[=]{ auto B=mk<T>(R,A,Z,Zl,Zr,Rh); FE F=fe(R); int n=F.nbf,lm=0; for(auto&a: A) lm=std::max(lm,a.first); Mat V0=F.full(10,0,one,48); std::vector<Mat> VL; for(int L=0;L<=2*lm;L++) VL.push_back(F.full(0,0,[=](LD r){ return r<Rh?ipow(r/Rh,L)/Rh:ipow(Rh/r,L)/r; },48,{Rh})); H.step(); H.ok(B.get_Zl()==Zl&&B.get_Zr()==Zr&&B.get_Z()==Z,"acc"); H.close((LD)B.get_Rhalf(),Rh,0,"Rhalf");
       Mat E=kron(A,[&](int i,int j){ Mat M=Mat::Zero(n,n); if(i==j) M-=Z*V0; for(int L=0;L<=2*lm;L++){ LD g=angint(A[i],A[j],[=](LD x){return legP<LD>(L,x);},L); M-=g*(Zr+((L&1)?-1:1)*Zl)*VL[L]; } return M; },n); H.mclose(B.nuclear(),E,1e4*eps*(1+(double)E.cwiseAbs().maxCoeff()),"offcenter"); }); } }
   if(A.size()==1||A.size()>4) for(int model=1;model<=4;model++) H.run(fmt("%s.fin.r%zu.%s.%d",tn<T>(),ri,an(A).c_str(),model),[=]{ if(model==mp::NOSUCH_NUCLEUS) return; LD Rr=0.4L; std::unique_ptr<mp::ModelPotentialT<T>> pot; try { pot.reset(mp::get_nuclear_model<T>((mp::nuclear_model_t)model,5,(T)Rr)); } catch(const std::exception&) { return; } if(!pot) return; auto B=mk<T>(R,A,5,0,0,1,20,model,Rr); H.step(); H.ok(B.get_nuclear_model()==model&&B.get_nuclear_size()==(T)Rr,"model-acc"); H.mclose(B.nuclear(),toLD(B.model_potential(pot.get())),0,"finite"); Mat M=toLD(B.nuclear()); FE F=fe(R); int n=F.nbf; LD R0=Rr*sqrtl(5.0L/3); std::vector<LD> brk; if(model==mp::SPHERICAL_NUCLEUS) { brk.push_back(R0); auto E=F.full(0,0,[=](LD r){ return r>=R0?-5/r:-5/(2*R0)*(3-ipow(r/R0,2)); },60,brk); for(size_t a=0;a<A.size();a++) H.mclose(Mat(M.block(a*n,a*n,n,n)),E,1e5*eps*(1+(double)E.cwiseAbs().maxCoeff()),"finite-spherical"); } });
  }
  for(size_t i=0;i<RR.size();i++) for(size_t j=0;j<RR.size();j++) for(int a=0;a<9;a++) for(int b=0;b<9;b++) { std::vector<Ang> AA{full(2,1),{{1,-1},{0,0}},{{2,2}},{{0,0},{1,1},{1,-1}},full(3,0),{{0,0},{1,-1}},{{1,-1},{1,1},{0,0}},{{0,0},{1,-1},{2,1}},{{0,0},{1,1},{2,0},{3,0}}}; if(!dbl&&(i>1||j>1||(a>1&&a!=5)||(b>1&&b!=5))) continue; H.run(fmt("%s.cross.%zu.%zu.%d.%d",tn<T>(),i,j,a,b),[=]{ auto A=AA[a],Bq=AA[b]; auto X=mk<T>(RR[i],A),Y=mk<T>(RR[j],Bq); FE F=fe(RR[i]),G=fe(RR[j]); H.step(); int n=F.nbf,m=G.nbf; Mat s=Mat::Zero(n,m); std::vector<LD> pts; for(LD x: RR[i].b) pts.push_back(x); for(LD x: RR[j].b) pts.push_back(x); std::sort(pts.begin(),pts.end()); const auto&g=gauss<LD>(24); for(size_t k=0;k+1<pts.size();k++) if(pts[k+1]>pts[k]&&pts[k+1]<=std::min(RR[i].b.back(),RR[j].b.back())) for(int q=0;q<24;q++){ LD h=(pts[k+1]-pts[k])/2,r=(pts[k+1]+pts[k])/2+h*g.x[q]; s+=g.w[q]*h*F.at(r)*G.at(r).transpose(); } Mat E=Mat::Zero(n*A.size(),m*Bq.size()); for(size_t u=0;u<A.size();u++) for(size_t v=0;v<Bq.size();v++) if(A[u]==Bq[v]) E.block(u*n,v*m,n,m)=s; H.mclose(X.overlap(Y),E,4e3*eps,"cross-overlap"); }); }
}
void evals(){ auto RR=rads(); for(size_t ri=0;ri<3;ri++) for(auto&A: std::vector<Ang>{full(3,3),{{2,-1},{0,0}},{{1,1},{1,-1},{1,0}},full(5,2)}) for(LD ct: {-1.0L,-0.93L,-0.2L,0.0L,0.5L,0.999L,1.0L}) for(LD ph: {0.0L,0.8L,3.0L,-2.1L}) H.run(fmt("ev.r%zu.%s.%Lg.%Lg",ri,an(A).c_str(),ct,ph),[=]{ auto B=mk<double>(RR[ri],A); FE F=fe(RR[ri]); H.step(); LD th=acosl(ct);
     auto Y=[&](int l,int m)->C{ return ytheta<LD>(l,m,ct)*std::polar(1.0L,m*ph); }; // dY/dtheta from an exact trigonometric difference: use recurrence in a shifted angle (Taylor in theta via complex step)
     auto dY=[&](int l,int m)->C{ LD h=1e-4L; auto f=[&](LD t){ LD c=cosl(t),sgn=sinl(t)<0&&(m&1)?-1:1; return ytheta<LD>(l,m,c)*sgn; }; LD d1=(f(th+h)-f(th-h))/(2*h),d2=(f(th+2*h)-f(th-2*h))/(4*h),d3=(f(th+3*h)-f(th-3*h))/(6*h); return ((15*d1-6*d2+d3)/10)*std::polar(1.0L,m*ph); };
     for(size_t el=0;el<B.get_rad_Nel();el++){ auto r=B.get_r(el),w=B.get_wrad(el); int nq=r.size(),nf=F.gl[el].size(); auto bf=B.eval_bf(el,(double)ct,(double)ph); Eigen::MatrixXcd dr,dt,dp; B.eval_df(el,(double)ct,(double)ph,dr,dt,dp); auto lf=B.eval_lf(el,(double)ct,(double)ph); int nc=A.size()*nf; if(!H.ok(bf.rows()==nq&&bf.cols()==nc&&dr.rows()==nq&&dr.cols()==nc&&dt.cols()==nc&&dp.cols()==nc&&lf.cols()==nc&&w.size()==nq,"ev-size")) return;
       LD wl=0; for(int q=0;q<nq;q++) wl+=w(q); H.close(wl,2*F.e(el),1e-13,"wrad");
       for(int q=0;q<nq;q++){ LD rr=r(q),x=F.x(rr,el); auto b0=F.evr(x,el,0),b1=F.evr(x,el,1),b2=F.evr(x,el,2); for(size_t a=0;a<A.size();a++){ int l=A[a].first,m=A[a].second; C y=Y(l,m),dy=dY(l,m); for(int k=0;k<nf;k++){ int c=a*nf+k; auto cmp=[&](std::complex<double> v,C e,double tol,const char*what){ H.close(v.real(),e.real(),tol,what); H.close(v.imag(),e.imag(),tol,what); }; double sc=1+(double)fabsl(b0[k]); cmp(bf(q,c),y*b0[k],1e-12*sc*(1+l),"bf"); cmp(dr(q,c),y*b1[k],1e-11*(1+(double)fabsl(b1[k])),"dr"); cmp(dt(q,c),dy*b0[k],1e-10*sc,"dtheta"); cmp(dp(q,c),y*b0[k]*C(0,m),1e-11*sc*(1+l),"dphi"); C lap=y*(b2[k]+2*b1[k]/rr-(LD)l*(l+1)*b0[k]/(rr*rr)); cmp(lf(q,c),lap,1e-10*(1+(double)(fabsl(b2[k])+fabsl(2*b1[k]/rr)+(LD)l*(l+1)*fabsl(b0[k])/(rr*rr))),"lapl"); } } } } }); 
  H.run("ev.doubleonly",[]{ auto B=mk<long double>(rads()[0],{{0,0}}); H.step(3); H.throws([&]{B.eval_bf(0,0.1,0.2);},"doubleonly"); H.throws([&]{B.eval_lf(0,0.1,0.2);},"doubleonly"); Eigen::MatrixXcd a,b,c; H.throws([&]{B.eval_df(0,0.1,0.2,a,b,c);},"doubleonly"); }); }
// ---------------- two-electron ----------------
struct Two { int n,na; Ang A; std::vector<Tei> t; int kind; LD par; int Lm; std::map<std::tuple<int,int,int>,LD> g; // g[i,j,L] = int Y_i^* Y_{L,mi-mj} Y_j
  Two(const FE&F,const Ang&A_,int k,LD p,int ngx=0):n(F.nbf),na(A_.size()),A(A_),kind(k),par(p){ int lm=0; for(auto&a: A) lm=std::max(lm,a.first); Lm=2*lm; for(int L=0;L<=Lm;L++) t.emplace_back(F,k,L,p,ngx); for(int i=0;i<na;i++) for(int j=0;j<na;j++) for(int L=0;L<=Lm;L++) g[{i,j,L}]=gaunt(A[i].first,A[i].second,L,A[i].second-A[j].second,A[j].first,A[j].second); }
  LD fac(int L) const { return kind==YUKAWA?4*rpi<LD>()*par:4*rpi<LD>()/(2*L+1); }
  // (i^* j | k^* l)
  LD ang(int i,int j,int k,int l,int L) const { if(A[j].second-A[i].second!=A[k].second-A[l].second) return 0; return fac(L)*g.at({j,i,L})*g.at({k,l,L}); }
  double mx() const { LD m=0; for(auto&x: t) m=std::max(m,x.mx); return 13*(double)m*(kind==YUKAWA?(double)par:1); }
  Mat J(const Mat&P) const { Mat M=Mat::Zero(n*na,n*na); for(int i=0;i<na;i++) for(int j=0;j<na;j++) for(int k=0;k<na;k++) for(int l=0;l<na;l++){ Mat p=P.block(k*n,l*n,n,n); if(p.isZero(0)) continue; for(int L=0;L<=Lm;L++){ LD a=ang(i,j,k,l,L); if(a==0) continue; M.block(i*n,j*n,n,n)+=a*t[L].J(p); } } return M; }
  Mat K(const Mat&P) const { Mat M=Mat::Zero(n*na,n*na); for(int i=0;i<na;i++) for(int l=0;l<na;l++){ Mat p=P.block(i*n,l*n,n,n); if(p.isZero(0)) continue; for(int j=0;j<na;j++) for(int k=0;k<na;k++) for(int L=0;L<=Lm;L++){ LD a=ang(j,i,l,k,L); if(a==0) continue; M.block(j*n,k*n,n,n)-=a*t[L].K(p); } } return M; } };
template<class T,class F> void dens(int N,F f,int stride=1){ helfem::Mat<T> D(N,N); for(int i=0;i<N;i++) for(int j=0;j<N;j++) D(i,j)=T(((i*7+j*3)%11)-4)/T(4); f(D); for(int k=0;k<N;k++) for(int l=0;l<N;l++) if((k*N+l)%stride==0) { helfem::Mat<T> P=helfem::Mat<T>::Zero(N,N); P(k,l)=1; f(P); } }
template<class T> void twoe(){ double eps=std::numeric_limits<T>::epsilon(); bool dbl=sizeof(T)==8; std::vector<Rad> RR{{4,3,{0,1,3},false},{5,2,{0,1,3},true},{4,2,{0,0.5L,1.5L,4},false}}; if(H.thorough()) RR.push_back({4,4,{0,1,2.5L},false}); std::vector<Ang> AA=angs(H.thorough()?2:1); for(Ang a: std::vector<Ang>{{{2,1},{1,-1}},{{2,-2},{2,2}},{{0,0},{2,0}},{{2,2},{1,1},{0,0}},{{3,1},{1,0}},{{1,-1},{2,-2},{0,0}},{{3,-3}}}) AA.push_back(a);
  for(size_t ri=0;ri<RR.size();ri++) for(auto&A: AA){ if(A.size()>(ri==0?9:4)) continue; if(!dbl&&(ri||A.size()>3)) continue; const Rad R=RR[ri]; double ct=1.2e-12*eps/2.220446049250313e-16;
    H.run(fmt("%s.jk.r%zu.%s",tn<T>(),ri,an(A).c_str()),[=]{ auto B=mk<T>(R,A); FE F=fe(R); helfem::Mat<T> z=helfem::Mat<T>::Zero(B.Nbf(),B.Nbf()); H.throws([&]{B.coulomb(z);},"need-tei"); H.throws([&]{B.exchange(z);},"need-tei"); H.throws([&]{B.rs_exchange(z);},"need-tei"); H.throws([&]{B.radial_df_factors();},"need-tei"); B.compute_tei(true); Two t(F,A,COULOMB,0); int n=F.nbf; double tol=5e3*eps*t.mx()+ct*13*A.size()*A.size(); int N=B.Nbf(); H.mclose(B.coulomb(z),Mat(Mat::Zero(N,N)),0,"J0"); H.mclose(B.exchange(z),Mat(Mat::Zero(N,N)),0,"K0");
      dens<T>(N,[&](const helfem::Mat<T>&P){ Mat p=toLD(P); double s=tol*std::max(1.0,(double)p.cwiseAbs().sum()); H.step(2); H.mclose(B.coulomb(P),t.J(p),s,"J"); H.mclose(B.exchange(P),t.K(p),s,"K"); },N>12&&!H.thorough()?5:1);
      for(T dt: {T(1e-10),T(1e-4)}) { auto Bf=dt==T(1e-10)?B.radial_df_factors():B.radial_df_factors(dt); H.step(); if(!H.ok((int)Bf.size()==t.Lm+1,"df-L")) return; for(int L=0;L<=t.Lm;L++){ H.ok((int)Bf[L].size()<=n*(n+1)/2,"df-rank"); for(int a=0;a<n;a++) for(int b=0;b<n;b++) for(int c=0;c<n;c++) for(int d=0;d<n;d++){ LD s=0; for(auto&q: Bf[L]) s+=(LD)q(a,b)*(LD)q(c,d); H.close(s,t.t[L].get(a,b,c,d),1.1*(double)dt+tol,"df"); } } } });
    // all histories of range-separation setups
    if(A.size()<=2&&ri==0) { int K=dbl?4:3; for(int h=0;h<K*K*K;h++) { if((dbl&&A.size()==2&&h%7)||!dbl&&h%5) continue; H.run(fmt("%s.hist.%s.%d",tn<T>(),an(A).c_str(),h),[=]{ auto B=mk<T>(R,A,3,0,0,1,30); FE F=fe(R); int N=B.Nbf(); helfem::Mat<T> P(N,N); for(int i=0;i<N;i++) for(int j=0;j<N;j++) P(i,j)=T((i*5+j*5)%7-2)/T(3); bool tei=false; int rs=-1; int x=h; for(int s=0;s<3;s++){ int op=x%K; x/=K; H.step(); if(op==0) { B.compute_tei(s&1); tei=true; } else if(op==1) B.compute_yukawa(T(0.5)); else if(op==2) B.compute_yukawa(T(2)); else B.compute_erfc(T(0.6)); if(op) rs=op; H.state(fmt("%d.%d.%d",s,(int)tei,rs));
          if(tei){ Two t(F,A,COULOMB,0); H.mclose(B.coulomb(P),t.J(toLD(P)),1e-10,"hist-J"); H.mclose(B.exchange(P),t.K(toLD(P)),1e-10,"hist-K"); } else { H.throws([&]{B.coulomb(P);},"hist-need"); H.throws([&]{B.exchange(P);},"hist-need"); }
          if(rs>0){ Two t(F,A,rs<3?YUKAWA:ERFC,rs==1?0.5L:rs==2?2.0L:0.6L,rs<3?0:14); H.mclose(B.rs_exchange(P),t.K(toLD(P)),rs<3?1e-10:2e-5*t.mx(),rs<3?"hist-yuk":"hist-erfc"); } else H.throws([&]{B.rs_exchange(P);},"hist-need"); } }); } }
    if(A.size()<=(dbl?4u:2u)) for(LD lam: {0.4L,1.7L}) H.run(fmt("%s.yuk.r%zu.%s.%Lg",tn<T>(),ri,an(A).c_str(),lam),[=]{ auto B=mk<T>(R,A); FE F=fe(R); B.compute_yukawa((T)lam); Two t(F,A,YUKAWA,lam); double tol=5e3*eps*t.mx()+ct*13*(double)lam*A.size()*A.size(); dens<T>(B.Nbf(),[&](const helfem::Mat<T>&P){ Mat p=toLD(P); H.step(); H.mclose(B.rs_exchange(P),t.K(p),tol*std::max(1.0,(double)p.cwiseAbs().sum()),"yukawa-K"); }); });
    if(dbl&&A.size()<=3&&ri!=1) H.run(fmt("erfc.r%zu.%s",ri,an(A).c_str()),[=]{ auto B=mk<T>(R,A,3,0,0,1,30); FE F=fe(R); B.compute_erfc(T(0.8)); Two t(F,A,ERFC,0.8L,14); dens<T>(B.Nbf(),[&](const helfem::Mat<T>&P){ Mat p=toLD(P); H.step(); H.mclose(B.rs_exchange(P),t.K(p),2e-5*t.mx()*std::max(1.0,(double)p.cwiseAbs().sum()),"erfc-K"); },7); });
  } }
void explore(){ helfem::verbose=false; if(H.prop=="C12") { twoe<double>(); twoe<long double>(); } else { onee<double>(); onee<long double>(); evals(); } }
VH_MAIN
