// C15: spherically averaged atoms: matrices, Coulomb / exchange, screening, densities, radii, orbitals.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <ModelPotential.h>
#include "general/model_potential.h"
#include "sadatom/basis.h"
#include <helfem.h>
#include <xc.h>
#include <memory>
using namespace ref; namespace pb=helfem::polynomial_basis; namespace sb=helfem::sadatom::basis; namespace mp=helfem::modelpotential; typedef helfem::Matrix DM;
static const LD PI=rpi<LD>(); static const double EPS=2.220446049250313e-16;
struct Rad { int f,nn; std::vector<LD> b; bool zd,zr; };
static sb::TwoDBasis mk(const Rad&R,int lmax,int Z=3,int nq=20,int model=mp::POINT_NUCLEUS,double rr=0){ auto p=std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(R.f,R.nn)); helfem::Vector v(R.b.size()); for(size_t i=0;i<R.b.size();i++) v(i)=R.b[i]; return sb::TwoDBasis(Z,(mp::nuclear_model_t)model,rr,p,R.zd,nq,v,lmax,R.zr); }
static FE fe(const Rad&R){ return FE(R.f,R.nn,R.b,true,false,R.zr,R.zd); }
static std::vector<Rad> rads(){ std::vector<Rad> v{{4,3,{0,1,3},false,true},{5,2,{0,1,3},true,true},{3,4,{0,2.5L},false,true},{4,4,{0,0.5L,1.5L,4},false,false},{8,2,{0,0.75L,2},false,true},{5,3,{0,1,2.5L},false,false}}; if(H.thorough()) { v.push_back({4,6,{0,0.25L,1,2,6},false,true}); v.push_back({9,2,{0,1,2.5L},true,true}); v.push_back({3,6,{0,1,2,5},true,false}); } return v; }
static auto one=[](LD){return 1.0L;};
static Mat pat(int n,int q){ Mat P(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) P(i,j)=(((i*7+j*3+q*5)%11)-4)/4.0L; return P; }
static Mat psd(int n,int q){ Mat c(n,2); for(int i=0;i<n;i++) for(int k=0;k<2;k++) c(i,k)=((i*5+k*3+q)%7-3)/4.0L; return c*c.transpose(); }
void onee(){ auto RR=rads(); for(size_t ri=0;ri<RR.size();ri++) for(int lm=0;lm<=3;lm++) H.run(fmt("1e.r%zu.%d",ri,lm),[=]{ const Rad R=RR[ri]; auto B=mk(R,lm); FE F=fe(R); int n=F.nbf; H.step(12); auto c=[&](const DM&M,const Mat&E,const char*w){ return H.mclose(M,E,4e3*EPS*(1+(double)E.cwiseAbs().maxCoeff()),w); };
   H.ok((int)B.Nbf()==n&&B.charge()==3&&(int)B.get_rad_Nel()==F.nel(),"accessors"); Mat S=F.full(0,0,one),V=F.full(10,0,one,48); c(B.overlap(),S,"overlap"); c(B.kinetic(),F.full(1,1,one)/2,"kinetic"); c(B.kinetic_l(),F.full(10,10,one,48)/2,"kinetic-l"); c(B.nuclear(),-3*V,"nuclear");
   auto rm=B.Rmatrices(); if(H.ok(rm.size()==5,"Rmatrices")) { int e[5]={-2,-1,1,2,3}; for(int k=0;k<5;k++){ H.ok(rm[k].first==e[k],"Rmatrices-n"); Mat E=e[k]==-2?F.full(10,10,one,48):e[k]==-1?V:F.full(0,0,[&](LD r){ return ipow(r,e[k]); }); c(rm[k].second,E,"Rmatrix"); } }
   { double cond; { Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(toD(S)); cond=es.eigenvalues()(n-1)/es.eigenvalues()(0); } Mat X=toLD(B.Sinvh()); H.mclose(Mat(X.transpose()*S*X),Mat(Mat::Identity(n,n)),EPS*(2e3+20*cond),"Sinvh"); }
   c(B.confinement(2,1.0,0,0.5,0.0),Mat(Mat::Zero(n,n)),"confinement-off"); c(B.confinement(2,1.0,1,0.5,0.0),F.full(0,0,[](LD r){return r*r;}),"confinement"); c(B.confinement(3,2.0,1,0.5,0.0),F.full(0,0,[](LD r){return ipow(r/2,3);}),"confinement");
   H.mclose(B.potential([](double r){ return r*r-1; }),F.full(0,0,[](LD r){return r*r-1;}),1e-9,"potential"); for(LD k: {0.4L,0.75L,1.3L}) { if(k>=R.b.back()) continue; Mat E=F.full(0,0,[=](LD r){ return r<k?1.0L:k/r; },30,{k}); H.mclose(B.potential([=](double r){ return r<(double)k?1.0:(double)k/r; },{(double)k}),E,1e-9,"potential-kink"); }
   for(int m=0;m<=4;m++) { mp::ModelPotential*p=nullptr; try { p=mp::get_nuclear_model((mp::nuclear_model_t)m,5,0.4); } catch(const std::exception&) {} if(!p) continue; auto Bm=mk(R,lm,5,20,m,0.4); H.mclose(Bm.nuclear(),toLD(Bm.model_potential(p)),m==0?1e-11:0,"finite"); if(m==mp::SPHERICAL_NUCLEUS){ LD R0=0.4L*sqrtl(5.0L/3); c(Bm.nuclear(),F.full(0,0,[=](LD r){ return r>=R0?-5/r:-5/(2*R0)*(3-ipow(r/R0,2)); },60,{R0}),"finite-spherical"); } delete p; }
   for(size_t rj=0;rj<RR.size();rj++){ FE G=fe(RR[rj]); auto Y=mk(RR[rj],1); std::vector<LD> pts; for(LD x: RR[ri].b) pts.push_back(x); for(LD x: RR[rj].b) pts.push_back(x); std::sort(pts.begin(),pts.end()); const auto&g=gauss<LD>(24); Mat s=Mat::Zero(n,G.nbf); for(size_t k=0;k+1<pts.size();k++) if(pts[k+1]>pts[k]&&pts[k+1]<=std::min(RR[ri].b.back(),RR[rj].b.back())) for(int q=0;q<24;q++){ LD h=(pts[k+1]-pts[k])/2,r=(pts[k+1]+pts[k])/2+h*g.x[q]; s+=g.w[q]*h*F.at(r)*G.at(r).transpose(); } H.mclose(B.overlap(Y),s,4e3*EPS,"cross-overlap"); H.step(); } }); }
// values at the nodes, and the whole-grid vectors built from them
static LD quadf(const Mat&P,const std::vector<LD>&a,const std::vector<LD>&b,const std::vector<int>&g){ LD s=0; for(size_t i=0;i<a.size();i++) for(size_t j=0;j<b.size();j++) s+=P(g[i],g[j])*a[i]*b[j]; return s; }
void grids(){ auto RR=rads(); for(size_t ri=0;ri<RR.size();ri++) for(int q=0;q<3;q++) for(int nq: {7,16}) H.run(fmt("grid.r%zu.%d.%d",ri,q,nq),[=]{ const Rad R=RR[ri]; auto B=mk(R,2,3,nq); FE F=fe(R); int n=F.nbf,ne=F.nel(); Mat P=psd(n,q),Pl[3]={psd(n,q+1),psd(n,q+2),psd(n,q+4)}; DM Pd=toD(P); helfem::Cube Pc; for(auto&x: Pl) Pc.push_back(toD(x)); Mat C=pat(n,q).leftCols(std::min(n,3)); DM Cd=toD(C);
   for(int pass=0;pass<3;pass++){ if(pass) B.fill_quadrature_cache(pass==2,pass==2); H.step(12);
    auto rr=B.radii(),ww=B.quadrature_weights(); auto de=B.electron_density(Pd),dr2=B.electron_density(Pd,true),gr=B.electron_density_gradient(Pd),la=B.electron_density_laplacian(Pd),ta=B.kinetic_energy_density(Pc),cs=B.coulomb_screening(Pd); DM ob=B.orbitals(Cd),o1=B.orbitals_derivative(Cd),o2=B.orbitals_second_derivative(Cd); int N=ne*nq+1; if(!H.ok(rr.size()==N&&ww.size()==N&&de.size()==N&&gr.size()==N&&la.size()==N&&ta.size()==N&&cs.size()==N&&ob.rows()==N&&o1.rows()==N&&o2.rows()==N&&ob.cols()==C.cols(),"grid-size")) return;
    H.ok(rr(0)==0&&ww(0)==0&&cs(0)==0,"grid-nucleus"); { auto z=F.evr(-1,0,0),z1=F.evr(-1,0,1); LD d0=quadf(P,z,z,F.gl[0]); double s=1+(double)fabsl(d0); H.close(de(0),d0,1e-11*s,"density-nucleus"); H.close(B.nuclear_density(Pd),d0/(4*PI),1e-11*s,"nuclear-density"); LD g0=2*quadf(P,z,z1,F.gl[0]); H.close(B.nuclear_density_gradient(Pd),g0/(4*PI),1e-9*(1+(double)fabsl(g0)),"nuclear-gradient"); for(int k=0;k<C.cols();k++){ LD s0=0; for(size_t i=0;i<z.size();i++) s0+=z[i]*C(F.gl[0][i],k); H.close(ob(0,k),s0,1e-11*(1+(double)fabsl(s0)),"orbital-nucleus"); } }
    for(int e=0;e<ne;e++){ auto re=B.get_r(e),we=B.get_wrad(e); auto bl=B.bf_list(e); bool same=bl.size()==F.gl[e].size(); for(size_t i=0;same&&i<bl.size();i++) same=bl[i]==F.gl[e][i]; H.ok(same,"bf-list"); DM b0=B.eval_bf(e),b1=B.eval_df(e),b2=B.eval_lf(e); helfem::Vector del=B.electron_density(e,Pd),del2=B.electron_density(e,Pd,true); if(!H.ok(re.size()==nq&&we.size()==nq&&b0.rows()==nq&&b1.rows()==nq&&b2.rows()==nq&&b0.cols()==(int)F.gl[e].size()&&del.size()==nq,"el-size")) return; LD wl=0;
     for(int k=0;k<nq;k++){ int ip=1+e*nq+k; wl+=we(k); H.ok(rr(ip)==re(k)&&ww(ip)==we(k)&&de(ip)==del(k)&&dr2(ip)==del2(k),"grid-layout"); LD r=re(k),x=F.x(r,e); auto a0=F.evr(x,e,0),a1=F.evr(x,e,1),a2=F.evr(x,e,2); LD m0=1,m1=1,m2=1,mp_=P.cwiseAbs().maxCoeff()+12; for(auto v: a0) m0=std::max(m0,fabsl(v)); for(auto v: a1) m1=std::max(m1,fabsl(v)); for(auto v: a2) m2=std::max(m2,fabsl(v)); if(pass!=1) for(size_t i=0;i<a0.size();i++){ H.close(b0(k,i),a0[i],1e-12*m0,"bf"); H.close(b1(k,i),a1[i],1e-11*m1,"df"); H.close(b2(k,i),a2[i],1e-10*m2,"lf"); }
      auto&g=F.gl[e]; LD d=quadf(P,a0,a0,g),d1=2*quadf(P,a0,a1,g),d2=2*(quadf(P,a1,a1,g)+quadf(P,a0,a2,g)); double s=(double)(mp_*g.size()); H.close(del(k),d,1e-11*s*m0*m0,"density"); H.close(del2(k),d*r*r,1e-11*s*m0*m0*(1+r*r),"density-r2"); H.close(gr(ip),d1,1e-10*s*m0*m1,"gradient"); H.close(la(ip),d2+2*d1/r,1e-10*s*(m1*m1+m0*m2+m0*m1/r),"laplacian"); LD t=0; for(int l=0;l<3;l++) t+=(quadf(Pl[l],a1,a1,g)+l*(l+1)*quadf(Pl[l],a0,a0,g)/(r*r))/2; H.close(ta(ip),t,1e-10*s*(m1*m1+6*m0*m0/(r*r)),"tau");
      for(int c=0;c<C.cols();c++){ LD s0=0,s1=0,s2=0; for(size_t i=0;i<g.size();i++){ s0+=a0[i]*C(g[i],c); s1+=a1[i]*C(g[i],c); s2+=a2[i]*C(g[i],c); } H.close(ob(ip,c),s0,1e-11*s*m0,"orbital"); H.close(o1(ip,c),s1,1e-10*s*m1,"orbital-d"); H.close(o2(ip,c),s2,1e-9*s*m2,"orbital-d2"); }
      // screening
      if(pass==0){ const auto&gq=gauss<LD>(F.pr.degree()+10); LD in=0,out=0; for(int f=0;f<ne;f++){ LD lo=F.bv[f],hi=F.bv[f+1]; for(int w=0;w<2;w++){ LD A=w?std::max(lo,r):lo,Bq=w?hi:std::min(hi,r); if(Bq<=A) continue; for(size_t u=0;u<gq.x.size();u++){ LD h=(Bq-A)/2,x2=(A+Bq)/2+h*gq.x[u]; auto v=F.ev(F.x(x2,f),f,0); auto vr=w?F.evr(F.x(x2,f),f,0):v; (w?out:in)+=gq.w[u]*h*quadf(P,v,vr,F.gl[f]); } } } H.close(cs(ip),in+r*out,(nq<16?1e-5:1e-10)*(1+s),"screening"); } }
     H.close(wl,2*F.e(e),1e-13*(1+(double)F.bv[e+1]),"weights");
     for(LD x: {-1.0L,-0.7L,0.1L,0.9L,1.0L}) { LD r=F.r(x,e); if(r==0) continue; helfem::Vector xv(1); xv(0)=x; auto a0=F.evr(x,e,0); LD d=quadf(P,a0,a0,F.gl[e]); double s=(double)(P.cwiseAbs().maxCoeff()*a0.size()*4); for(auto v: a0) s=std::max(s,(double)(v*v)*s); H.close(B.electron_density(xv,e,Pd)(0),d,1e-11*s,"density-x"); H.close(B.electron_density(xv,e,Pd,true)(0),d*r*r,1e-11*s*(1+(double)(r*r)),"density-x-r2"); helfem::Vector ev=B.eval_orbs(Cd,(double)r); Vec At=F.at((double)r); if(H.ok(ev.size()==C.cols(),"eval-orbs-size")) for(int c=0;c<C.cols();c++){ LD v=0; for(int i=0;i<n;i++) v+=At(i)*C(i,c); H.close(ev(c),v/r,1e-11*s,"eval-orbs"); } } } } });
 // exchange-correlation screening for every pair of functionals
 for(size_t ri=0;ri<RR.size();ri++) for(auto f: std::vector<std::pair<int,int>>{{1,0},{0,7},{1,12},{101,0},{0,130},{101,130},{106,131},{1,130},{0,0}}) for(int pol=0;pol<4;pol++) H.run(fmt("xc.r%zu.%d.%d.%d",ri,f.first,f.second,pol),[=]{ const Rad R=RR[ri]; auto B=mk(R,2,3,9); FE F=fe(R); int n=F.nbf; Mat Pa(n,n),Pb(n,n); { // smooth positive densities
      Mat S=F.full(0,0,one); auto proj=[&](LD a,LD k){ Vec b=Vec::Zero(n); const auto&g=gauss<LD>(24); for(int e=0;e<F.nel();e++) for(int u=0;u<24;u++){ LD r=F.r(g.x[u],e); auto v=F.ev(g.x[u],e,0); LD w=g.w[u]*F.e(e)*powl(r,k)*expl(-a*r); for(size_t i=0;i<v.size();i++) b(F.gl[e][i])+=w*v[i]; } Vec c=S.ldlt().solve(b); return Mat(c*c.transpose()); }; Pa=3*proj(1.1L,1)+proj(0.6L,2)*0.3L; Pb=pol==0?Pa:pol==1?Mat(2.5L*proj(0.9L,1)):pol==2?Mat(4*proj(1.6L,1)+0.5L*proj(0.8L,2)):Mat(0.3L*Pa); }
     Pa=toLD(toD(Pa)); Pb=toLD(toD(Pb)); DM X=B.xc_screening(toD(Pa),toD(Pb),f.first,f.second); H.step(2); auto rr=B.radii(); if(!H.ok(X.rows()==rr.size()&&X.cols()==2,"xc-size")) return; H.ok(X(0,0)==0&&X(0,1)==0,"xc-nucleus"); { helfem::Vector y=B.xc_screening(toD(Mat(2*Pa)),f.first,f.second); DM Z=B.xc_screening(toD(Pa),toD(Pa),f.first,f.second); for(int i=0;i<rr.size();i++) H.close(y(i),Z(i,0),1e-12*(1+fabs(Z(i,0))),"xc-restricted"); }
     auto dens=[&](const Mat&P,LD r,int e,int d){ LD x=F.x(r,e); auto a=F.evr(x,e,0); if(d==0) return quadf(P,a,a,F.gl[e])/(4*PI); auto b=F.evr(x,e,1); return 2*quadf(P,a,b,F.gl[e])/(4*PI); };
     for(int e=0;e<F.nel();e++) for(int k=0;k<9;k++){ int ip=1+e*9+k; LD r=rr(ip); double tot[2]={0,0}; bool gga=f.first>100||f.second>100; if(gga&&r<2e-2L) continue; for(int fn: {f.first,f.second}) if(fn>0){ xc_func_type X_; xc_func_init(&X_,fn,XC_POLARIZED); bool g=X_.info->family==XC_FAMILY_GGA; auto at=[&](LD x,double*v,double*vs){ double rh[2]={(double)dens(Pa,x,e,0),(double)dens(Pb,x,e,0)},ga=(double)dens(Pa,x,e,1),gb=(double)dens(Pb,x,e,1),s[3]={ga*ga,ga*gb,gb*gb}; if(g) xc_gga_vxc(&X_,1,rh,s,v,vs); else { xc_lda_vxc(&X_,1,rh,v); vs[0]=vs[1]=vs[2]=0; } }; double v[2],vs[3]; at(r,v,vs); for(int sp=0;sp<2;sp++){ double val=v[sp]; if(g){ auto flux=[&](LD x){ double v2[2],s2[3]; at(x,v2,s2); LD ga=dens(Pa,x,e,1),gb=dens(Pb,x,e,1); return (LD)(x*x*(sp==0?2*s2[0]*ga+s2[1]*gb:2*s2[2]*gb+s2[1]*ga)); }; LD h=std::min((F.bv[e+1]-F.bv[e])*4e-3L,std::min(r-F.bv[e],F.bv[e+1]-r)/4); auto D=[&](LD q){ return (flux(r+q)-flux(r-q))/(2*q); }; LD d1=D(h),d2=D(h/2),d4=D(h/4); LD e1=(4*d2-d1)/3,e2=(4*d4-d2)/3; val-=(double)((16*e2-e1)/15/(r*r)); } tot[sp]+=val; } xc_func_end(&X_); }
       LD rmin=std::min(dens(Pa,r,e,0),dens(Pb,r,e,0)); for(int sp=0;sp<2;sp++){ double ex=tot[sp]*(double)r; H.close(X(ip,sp),ex,gga?(rmin<1e-3L?1e-2:5e-5)*(1+fabs(ex)):1e-10*(1+fabs(ex)),gga?(rmin<1e-3L?"xc-gga-tail":"xc-gga"):"xc-lda",fmt("r=%Lg",r)); } } });
 H.run("xc.mgga",[]{ auto B=mk(rads()[0],1); int n=B.Nbf(); DM P=DM::Identity(n,n); H.step(2); H.throws([&]{ B.xc_screening(P,P,202,0); },"mgga-refused"); H.throws([&]{ B.xc_screening(P,P,1,231); },"mgga-refused"); }); }
// radii of smooth densities built from u = r^k exp(-a r) shells
static const Rad fine{4,9,{0,0.4L,1,2,3.5L,5.5L,8.5L,13},false,true};
static const FE& ff(){ static FE F=fe(fine); return F; }
static Vec shell(LD k,LD a){ static std::map<std::pair<LD,LD>,Vec> c; auto it=c.find({k,a}); if(it!=c.end()) return it->second; const FE&F=ff(); static Mat S=F.full(0,0,one); Vec b=Vec::Zero(F.nbf); const auto&g=gauss<LD>(30); for(int e=0;e<F.nel();e++) for(int u=0;u<30;u++){ LD r=F.r(g.x[u],e); auto v=F.ev(g.x[u],e,0); LD w=g.w[u]*F.e(e)*powl(r,k)*expl(-a*r); for(size_t i=0;i<v.size();i++) b(F.gl[e][i])+=w*v[i]; } static auto L=S.ldlt(); Vec x=L.solve(b); x/=sqrtl(x.dot(S*x)); return c[{k,a}]=x; }
struct Den { Mat P; LD at(LD r,bool w2) const { const FE&F=ff(); int e=F.find(r); auto v=F.evr(F.x(r,e),e,0); LD d=quadf(P,v,v,F.gl[e]); return w2?d*r*r:d; } };
void radii_(){ std::vector<std::vector<std::array<LD,3>>> D; for(LD a: {0.8L,1.0L,1.3L,1.7L,2.2L,3.0L}) { D.push_back({{1,1,a}}); D.push_back({{2,1,a}}); D.push_back({{2,1,2.5L*a},{1,2,a}}); D.push_back({{2,1,3*a},{6,2,a}}); D.push_back({{3,3,a}}); D.push_back({{40,1,6*a},{2,1,a}}); } if(H.thorough()) for(int k=0;k<40;k++) { D.push_back({{2,1,0.7L+0.06L*k}}); D.push_back({{2,1,3.1L+0.06L*k},{3,2,0.8L+0.04L*k}}); }
 for(size_t d=0;d<D.size();d++){ auto den=[=]{ Den x; x.P=Mat::Zero(ff().nbf,ff().nbf); for(auto&s: D[d]) { Vec v=shell(s[1],s[2]); x.P+=s[0]*v*v.transpose(); } x.P=toLD(toD(x.P)); return x; };
  H.run(fmt("rad.max.%zu",d),[=]{ auto B=mk(fine,1,3,12); Den x=den(); const FE&F=ff(); for(int w=0;w<2;w++) { LD best=-1,br=0; int n=400; for(int e=0;e<F.nel();e++) for(int k=0;k<=n;k++){ LD r=F.r(-1+2.0L*k/n,e); if(r==0&&w) continue; LD v=x.at(r==0?1e-12L:r,w); if(v>best){ best=v; br=r; } } LD lo=std::max(0.0L,br-0.02L),hi=br+0.02L; for(int it=0;it<200;it++){ LD p=lo+(hi-lo)/3,q=hi-(hi-lo)/3; if(x.at(p==0?1e-12L:p,w)<x.at(q,w)) lo=p; else hi=q; } br=(lo+hi)/2; H.step(); double mt=2e-6; for(LD bd: F.bv) if(bd>0&&fabsl(bd-br)<1e-3L) mt=1e-4; for(LD sc: {1.0L,1e-3L,50.0L,7e3L}) H.close(B.electron_density_maximum_radius(toD(Mat(sc*x.P)),w),br,mt,"density-maximum",fmt("w=%d scale %Lg",w,sc)); H.close(B.electron_density_maximum_radius(toD(x.P),w,1e-4),br,1e-3,"density-maximum-loose"); } });
  H.run(fmt("rad.vdw.%zu",d),[=]{ auto B=mk(fine,1,3,12); Den x=den(); const FE&F=ff(); std::vector<LD> th{0.001L,0.01L,0.05L,0.3L,1e3L}; for(int e=1;e<F.nel()-2;e++) for(LD dr: {-0.02L,-0.002L,0.003L,0.03L}) { LD t=x.at(F.bv[e]+dr,false)/(4*PI); if(t>3e-4L) th.push_back((double)t); } for(LD t: th){ // outermost crossing
      LD prev=F.bv.back(),r=-1; int n=300; for(int e=F.nel()-1;e>=0&&r<0;e--) for(int k=n;k>=0;k--){ LD q=F.r(-1+2.0L*k/n,e); if(q<=0) break; if(x.at(q,false)/(4*PI)>t){ r=q; break; } prev=q; } LD ex=0; if(r>=0){ LD lo=r,hi=prev; for(int it=0;it<80;it++){ LD m=(lo+hi)/2; if(x.at(m,false)/(4*PI)>t) lo=m; else hi=m; } ex=(lo+hi)/2; } H.step(); if(ex<0.05L&&ex>0) continue; H.close(B.vdw_radius(toD(x.P),(double)t),ex,1e-7,"vdw-radius",fmt("thr %Lg",t)); if(t<0.2L) H.close(B.vdw_radius(toD(x.P),(double)t,1e-3),ex,3e-3,"vdw-radius-loose"); } H.close(B.vdw_radius(toD(x.P)),B.vdw_radius(toD(x.P),0.001),0,"vdw-default"); });
  H.run(fmt("rad.cnt.%zu",d),[=]{ auto B=mk(fine,1,3,12); Den x=den(); const FE&F=ff(); const auto&g=gauss<LD>(24); auto part=[&](LD a,LD b){ LD s=0; for(int e=0;e<F.nel();e++){ LD lo=std::max(a,F.bv[e]),hi=std::min(b,F.bv[e+1]); if(hi<=lo) continue; for(int u=0;u<24;u++){ LD h=(hi-lo)/2,r=(lo+hi)/2+h*g.x[u]; auto v=F.ev(F.x(r,e),e,0); s+=g.w[u]*h*quadf(x.P,v,v,F.gl[e]); } } return s; }; LD tot=part(0,F.bv.back()); std::vector<LD> ep{0.001L,0.01L,0.1L,0.5L,0.9L*tot}; for(int e=1;e<F.nel()-1;e++) for(LD f: {0.999L,1.001L,1.2L}) { LD v=f*part(F.bv[e],F.bv.back()); if(v>1e-4L&&v<0.99L*tot) ep.push_back((double)v); } for(LD t: ep){ if(t>=tot) continue; LD lo=0,hi=F.bv.back(); for(int it=0;it<70;it++){ LD m=(lo+hi)/2; if(part(m,F.bv.back())>t) lo=m; else hi=m; } LD slope=x.at(std::max(lo,1e-6L),true); H.step(); H.close(B.electron_count_radius(toD(x.P),(double)t),lo,1e-9+1e-11/(double)slope,"count-radius",fmt("eps %Lg",t)); H.close(B.electron_count_radius(toD(x.P),(double)t,1e-4),lo,2e-3,"count-radius-loose"); } }); }
 H.run("rad.zero",[]{ auto B=mk(fine,1,3,12); DM z=DM::Zero(B.Nbf(),B.Nbf()); H.step(); H.ok(B.vdw_radius(z)==0,"vdw-zero"); }); }
// ---------------- two-electron ----------------
static LD totc(int lo,int li,int L){ LD s=0; for(int mo=-lo;mo<=lo;mo++) for(int mi=-li;mi<=li;mi++){ LD g=gaunt(lo,mo,L,mo-mi,li,mi); s+=g*g; } return s/(2*lo+1); }
struct Tw { int n,lm,kind; LD par; std::vector<Tei> t; Tw(const FE&F,int lm_,int k,LD p,int ngx=0):n(F.nbf),lm(lm_),kind(k),par(p){ for(int L=0;L<=2*lm;L++) t.emplace_back(F,k,L,p,ngx); } double mx() const { LD m=0; for(auto&x: t) m=std::max(m,x.mx); return 13*(double)m*(kind==YUKAWA?(double)par:1); }
  std::vector<Mat> K(const std::vector<Mat>&P) const { std::vector<Mat> o(lm+1,Mat::Zero(n,n)); for(int lo=0;lo<=lm;lo++) for(int li=0;li<=lm;li++){ if(P[li].isZero(0)) continue; for(int L=std::abs(lo-li);L<=lo+li;L++){ LD c=totc(lo,li,L); if(c<1e-15L) continue; o[lo]-=c*(kind==YUKAWA?4*PI*par:4*PI/(2*L+1))*t[L].K(P[li]); } } return o; } };
static helfem::Cube cub(const std::vector<Mat>&P){ helfem::Cube c; for(auto&p: P) c.push_back(toD(p)); return c; }
static std::vector<std::vector<Mat>> denss(int n,int lm,int stride){ std::vector<std::vector<Mat>> v; std::vector<Mat> a; for(int l=0;l<=lm;l++) a.push_back(pat(n,l)); v.push_back(a); for(int l=0;l<=lm;l++) for(int k=0;k<n*n;k++) if(k%stride==0) { std::vector<Mat> z(lm+1,Mat::Zero(n,n)); z[l](k/n,k%n)=1; v.push_back(z); } return v; }
void twoe(){ std::vector<Rad> RR{{4,3,{0,1,3},false,true},{5,2,{0,1,3},true,true},{4,2,{0,0.5L,1.5L,4},false,true},{3,4,{0,2.5L},false,false},{4,3,{0,0.7L,1.5L,4},false,false}}; if(H.thorough()) { RR.push_back({4,5,{0,1,2.5L},false,true}); RR.push_back({8,2,{0,1,2.5L},false,true}); RR.push_back({5,2,{0,0.4L,1,3},false,false}); } for(size_t ri=0;ri<RR.size();ri++) for(int lm=0;lm<=3;lm++){ const Rad R=RR[ri]; int st=H.thorough()?1:lm>1?4:1; auto cmp=[](const helfem::Cube&a,const std::vector<Mat>&b,double tol,const char*w){ if(!H.ok(a.size()==b.size(),w,"slices")) return; for(size_t l=0;l<b.size();l++) H.mclose(a[l],b[l],tol,w,fmt("l=%zu",l)); };
  H.run(fmt("jk.r%zu.%d",ri,lm),[=]{ auto B=mk(R,lm); FE F=fe(R); int n=F.nbf; DM z=DM::Zero(n,n); helfem::Cube zc(lm+1,z),zs(lm+2,z),zb(lm+1,DM::Zero(n+1,n+1)); H.throws([&]{B.coulomb(z);},"need-tei"); H.throws([&]{B.exchange(zc);},"need-tei"); H.throws([&]{B.rs_exchange(zc);},"need-tei"); B.compute_tei(); H.throws([&]{B.exchange(zs);},"bad-size"); H.throws([&]{B.exchange(zb);},"bad-size"); Tw t(F,lm,COULOMB,0); double tol=5e3*EPS*t.mx()+1.2e-12*13*(lm+1); for(auto&P: denss(n,lm,st)){ double s=0; for(auto&p: P) s+=(double)p.cwiseAbs().sum(); H.step(2); cmp(B.exchange(cub(P)),t.K(P),tol*std::max(1.0,s),"K"); for(auto&p: P) if(!p.isZero(0)) H.mclose(B.coulomb(toD(p)),Mat(4*PI*t.t[0].J(p)),tol*std::max(1.0,s),"J"); } cmp(B.exchange(zc),std::vector<Mat>(lm+1,Mat::Zero(n,n)),0,"K0");
    for(int k=0;k<=2*lm;k++) for(int q=0;q<3;q++){ helfem::Vector c(n); for(int i=0;i<n;i++) c(i)=((i*3+q)%5-2)/2.0; LD f=0; for(int a=0;a<n;a++) for(int b=0;b<n;b++) for(int d=0;d<n;d++) for(int e=0;e<n;e++) f+=t.t[k].get(a,b,d,e)*c(a)*c(b)*c(d)*c(e); H.step(); H.close(B.slater_F(k,c),f,tol*n*n*2,"slaterF"); } H.throws([&]{ helfem::Vector c(n+1); c.setZero(); B.slater_F(0,c); },"slaterF-size"); });
  for(LD lam: {0.4L,1.7L}) H.run(fmt("yuk.r%zu.%d.%Lg",ri,lm,lam),[=]{ auto B=mk(R,lm); FE F=fe(R); B.compute_yukawa((double)lam); Tw t(F,lm,YUKAWA,lam); double tol=5e3*EPS*t.mx()+1.2e-12*13*(double)lam*(lm+1); for(auto&P: denss(F.nbf,lm,st)){ double s=0; for(auto&p: P) s+=(double)p.cwiseAbs().sum(); H.step(); cmp(B.rs_exchange(cub(P)),t.K(P),tol*std::max(1.0,s),"yukawa-K"); } helfem::Cube zs(lm+2,DM::Zero(F.nbf,F.nbf)); H.throws([&]{B.rs_exchange(zs);},"bad-size"); });
  if(lm<=1) H.run(fmt("erfc.r%zu.%d",ri,lm),[=]{ auto B=mk(R,lm,3,30); FE F=fe(R); B.compute_erfc(0.8); Tw t(F,lm,ERFC,0.8L,14); for(auto&P: denss(F.nbf,lm,7)){ double s=0; for(auto&p: P) s+=(double)p.cwiseAbs().sum(); H.step(); cmp(B.rs_exchange(cub(P)),t.K(P),2e-5*t.mx()*std::max(1.0,s),"erfc-K"); } });
  if(ri==0&&lm==1) { int D=H.thorough()?4:3,K=4,tot=1; for(int k=0;k<D;k++) tot*=K; for(int h=0;h<tot;h++) H.run(fmt("hist.%d",h),[=]{ auto B=mk(R,lm,3,30); FE F=fe(R); int n=F.nbf; std::vector<Mat> P; for(int l=0;l<=lm;l++) P.push_back(pat(n,l+1)); static std::map<int,std::shared_ptr<Tw>> cc; auto T=[&](int k)->Tw&{ auto&p=cc[k]; if(!p) p=std::make_shared<Tw>(F,lm,k==0?COULOMB:k<3?YUKAWA:ERFC,k==1?0.5L:k==2?2.0L:0.6L,k<3?0:14); return *p; }; bool tei=false; int rs=0,x=h; for(int s=0;s<D;s++){ int op=x%K; x/=K; H.step(); if(op==0) { B.compute_tei(); tei=true; } else if(op==1) B.compute_yukawa(0.5); else if(op==2) B.compute_yukawa(2); else B.compute_erfc(0.6); if(op) rs=op; H.state(fmt("%d.%d.%d",s,(int)tei,rs)); if(s==1) { auto C=B; B=C; } if(tei) { H.mclose(B.coulomb(toD(P[0])),Mat(4*PI*T(0).t[0].J(P[0])),1e-10,"hist-J"); cmp(B.exchange(cub(P)),T(0).K(P),1e-10,"hist-K"); } else { H.throws([&]{B.coulomb(toD(P[0]));},"hist-need"); H.throws([&]{B.exchange(cub(P));},"hist-need"); } if(rs) cmp(B.rs_exchange(cub(P)),T(rs).K(P),rs<3?1e-10:2e-5*T(rs).mx()*20,rs<3?"hist-yuk":"hist-erfc"); else H.throws([&]{B.rs_exchange(cub(P));},"hist-need"); } }); }
  if(lm==2) for(int k0=-1;k0<=3;k0++) for(int k1=-1;k1<=3;k1++) for(int k2=-1;k2<=3;k2++) H.run(fmt("nao.r%zu.%d.%d.%d",ri,k0,k1,k2),[=]{ auto B=mk(R,2); FE F=fe(R); int n=F.nbf,kk[3]={k0,k1,k2}; helfem::Cube C; std::vector<Mat> ref; for(int l=0;l<3;l++) { Mat c=pat(n,l).leftCols(std::min(n,2+(l>0))); ref.push_back(c); C.push_back(toD(c)); } bool bad=false; for(int l=0;l<3;l++) bad=bad||kk[l]>ref[l].cols(); std::vector<int> keep{k0,k1,k2}; H.step(); if(bad) { H.throws([&]{ sb::extract_naos_per_l(B,C,keep); },"nao-range"); return; } auto o=sb::extract_naos_per_l(B,C,keep); size_t p=0; for(int l=0;l<3;l++){ if(kk[l]==0) continue; if(!H.ok(p<o.size()&&o[p].first==l,"nao-l")) return; Mat e=kk[l]<0?ref[l]:Mat(ref[l].leftCols(kk[l])); H.mclose(o[p].second.coeffs(),e,0,"nao-coeffs"); Mat S=e.transpose()*F.full(0,0,one)*e; H.mclose(o[p].second.overlap(),S,1e-11*(1+(double)S.cwiseAbs().maxCoeff()),"nao-overlap"); p++; } H.ok(p==o.size(),"nao-count"); H.throws([&]{ sb::extract_naos_per_l(B,C,{1,1}); },"nao-size"); });
 } }
void explore(){ helfem::verbose=false; onee(); grids(); radii_(); twoe(); }
VH_MAIN
