// C17: every OpenMP region of the library, under every explored schedule, is free of data races and gives the serial result.
#include "vh.h"
#include "sched_rt.h"
#include <PolynomialBasis.h>
#include <RadialBasis.h>
#include "general/model_potential.h"
#include "general/gaunt.h"
#include "atomic/TwoDBasis.h"
#include "atomic/dftgrid.h"
#include "diatomic/basis.h"
#include "diatomic/dftgrid.h"
#include "diatomic/dftgrid_purem.h"
#include "diatomic/twodquadrature.h"
#include "sadatom/basis.h"
#include "sadatom/dftgrid.h"
#include "sadatom/scf.h"
#include "CoulombExchangeFE.h"
#include <chebyshev.h>
#include <memory>
using namespace vh;
#include "noopt_scf.h"
namespace pb=helfem::polynomial_basis; namespace mp=helfem::modelpotential; namespace ab=helfem::atomic::basis; namespace db=helfem::diatomic::basis; namespace sb=helfem::sadatom::basis;
typedef helfem::Matrix DM; typedef std::vector<double> Res; typedef std::vector<std::pair<int,int>> Ang;
static std::string binary;
static void put(Res&r,const DM&m){ r.insert(r.end(),m.data(),m.data()+m.size()); }
static void put(Res&r,const helfem::Cube&c){ for(size_t i=0;i<c.size();i++) put(r,c[i]); }
struct Op { std::string name; std::function<std::shared_ptr<std::function<Res()>>()> make; double tol=1e-10; };
static std::string where(const std::string&rc){ // "write@0x.. read@0x.."
  std::string cmd="addr2line -f -C -s -e "+binary; size_t p=0; while((p=rc.find("@0x",p))!=std::string::npos) { cmd+=" "+rc.substr(p+1,rc.find(' ',p)-p-1); p++; }
  std::string o; FILE*f=popen((cmd+" 2>/dev/null").c_str(),"r"); if(!f) return rc; char b[600]; while(fgets(b,600,f)) { std::string s=b; while(s.size()&&s.back()=='\n') s.pop_back(); if(s.size()>110) s=s.substr(0,110)+".."; o+=s+" "; } pclose(f); return rc+" ["+o+"]"; }
struct Ctx { std::function<Res()> *f; Res r; };
static void body(void*p){ Ctx*c=(Ctx*)p; c->r=(*c->f)(); }
static void explore(const Op&o,int team,long budget) {
  std::vector<int> none; sched::Run r00; Res first; { auto f=o.make(); Ctx c{f.get(),{}}; Quiet q; r00=sched::execute(team,none,body,&c); first=c.r; } // before anything else has run in this process: function-local caches are still empty
  for(auto&x: r00.races) H.fail("data-race",fmt("team %d first run: ",team)+where(x));
  Res ref; { auto f=o.make(); Quiet q; Ctx c{f.get(),{}}; sched::execute(1,{},body,&c); ref=c.r; }
  double sc=1; for(double v: ref) sc=std::max(sc,std::fabs(v));
  H.ok(ref.size()>0,"has-result"); for(double v: ref) if(!std::isfinite(v)) { H.fail("finite","serial result not finite"); break; }
  auto one=[&](const std::vector<int>&ch){ auto f=o.make(); sched::Run r; Ctx c{f.get(),{}}; { Quiet q; r=sched::execute(team,ch,body,&c); } H.step(r.points+1); std::string s; for(int x: ch) s+=fmt("%d,",x); H.state(s);
    for(auto&x: r.races) H.fail("data-race",fmt("team %d schedule [%s]: ",team,s.c_str())+where(x)); H.checks++;
    if(H.ok(c.r.size()==ref.size(),"result-size")) { double d=0; for(size_t i=0;i<ref.size();i++) { double e=std::fabs(c.r[i]-ref[i]); if(!(e<=d)) d=e; } H.close(d,0.0,o.tol*sc,"serial-result",fmt("team %d schedule [%s]",team,s.c_str())); }
    H.count("schedules"); H.count("regions",r.regions); H.count("monitored-accesses",r.accesses); return r; };
  sched::Run r0=one({}); H.ok(r0.regions>0,"parallel-region-reached",o.name);
  if(H.casefail) return;
  // number of schedules with at most D departures from the default
  auto count=[&](int D){ std::vector<double> e(D+1,0); e[0]=1; for(int w: r0.width) for(int d=D;d>0;d--) e[d]+=e[d-1]*(w-1); double s=0; for(double x: e) s+=x; return s; };
  { long acc=H.thorough()?4000000000L:team==8?60000000L:160000000L; budget=std::max(1L,std::min(budget,acc/std::max(1L,r0.accesses))); }
  int D=0; while(D<4 && count(D+1)<=budget && (D==0||count(D+1)>count(D))) D++;
  H.count(fmt("delay-bound-%d",D));
  // depth first over departures; the number of options at each point is taken from the run itself
  long done=0; std::function<void(std::vector<int>,const std::vector<int>&,int)> dfs=[&](std::vector<int> pre,const std::vector<int>&width,int left){ if(H.casefail||!left) return; for(size_t i=pre.size();i<width.size();i++) for(int k=1;k<width[i];k++) { std::vector<int> c=pre; c.resize(i,0); c.push_back(k); sched::Run r=one(c); done++; if(H.casefail) return; dfs(c,r.width,left-1); } };
  dfs({},r0.width,D); H.outcome(fmt("%s.%d.%ld.%ld",o.name.c_str(),team,done,r0.points));
}
static std::shared_ptr<const pb::PolynomialBasis> poly(int f,int n){ return std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(f,n)); }
static helfem::Vector grid(int ne){ helfem::Vector v(ne+1); for(int i=0;i<=ne;i++) v(i)=0.75*i+0.1*i*i; return v; }
static DM sym(int n,int q){ DM c(n,2); for(int i=0;i<n;i++) for(int k=0;k<2;k++) c(i,k)=((i*5+k*3+q)%7-3)/4.0; DM p=c*c.transpose(); p+=0.2*DM::Identity(n,n); return p; }
static void lmv(const Ang&A,Eigen::VectorXi&l,Eigen::VectorXi&m){ l.resize(A.size()); m.resize(A.size()); for(size_t i=0;i<A.size();i++){ l(i)=A[i].first; m(i)=A[i].second; } }
template<class F> static std::shared_ptr<std::function<Res()>> fn(F f){ return std::make_shared<std::function<Res()>>(f); }
static std::vector<Op> ops() {
  std::vector<Op> o; bool th=H.thorough(); helfem::Vector e;
  for(int ne: th?std::vector<int>{2,3,5,8}:std::vector<int>{3,5}) {
    auto mkr=[=]{ pb::PolynomialBasis*p=pb::get_basis(4,3); auto b=std::make_shared<pb::FiniteElementBasis>(std::shared_ptr<const pb::PolynomialBasis>(p),grid(ne),true,false,true,false); return b; };
    auto mkR=[=]{ pb::FiniteElementBasis fb(poly(4,3),grid(ne),true,false,true,false); return std::make_shared<ab::FEMRadialBasis>(fb,12); };
    o.push_back({fmt("fe.matrix.%d",ne),[=]{ auto b=mkr(); return fn([b]{ Res r; helfem::Vector x,w; helfem::chebyshev::chebyshev(8,x,w); put(r,b->matrix_element(0,1,x,w,[](double y){return y*y;})); return r; }); }});
    o.push_back({fmt("fe.matrix-auto.%d",ne),[=]{ auto b=mkr(); return fn([b]{ Res r; auto ev=[b](helfem::Vector x,size_t iel){ return b->eval_dnf(x,0,iel); }; put(r,b->matrix_element_auto(ev,ev,[](double y){return std::exp(-y);},std::vector<double>{0.5},-1)); return r; }); }});
    o.push_back({fmt("fe.vector.%d",ne),[=]{ auto b=mkr(); return fn([b]{ Res r; helfem::Vector x,w; helfem::chebyshev::chebyshev(8,x,w); auto ev=[b](helfem::Vector y,size_t iel){ return b->eval_dnf(y,0,iel); }; put(r,b->vector_element(ev,x,w,[](double y){return y;})); return r; }); }});
    o.push_back({fmt("radial.onee.%d",ne),[=]{ auto b=mkR(); return fn([b]{ Res r; put(r,b->overlap(*b)); put(r,b->kinetic()); put(r,b->nuclear()); return r; }); }});
    o.push_back({fmt("sad.tei-jk.%d",ne),[=]{ auto b=std::make_shared<sb::TwoDBasis>(3,mp::POINT_NUCLEUS,0.0,poly(4,3),false,12,grid(ne),1,true); return fn([b]{ Res r; b->compute_tei(); int n=b->Nbf(); put(r,b->coulomb(sym(n,1))); helfem::Cube c; for(int l=0;l<2;l++) c.push_back(sym(n,l)); put(r,b->exchange(c)); return r; }); }});
    o.push_back({fmt("sad.yukawa.%d",ne),[=]{ auto b=std::make_shared<sb::TwoDBasis>(3,mp::POINT_NUCLEUS,0.0,poly(4,3),false,12,grid(ne),1,true); return fn([b]{ Res r; b->compute_yukawa(0.7); int n=b->Nbf(); helfem::Cube c; for(int l=0;l<2;l++) c.push_back(sym(n,l)); put(r,b->rs_exchange(c)); return r; }); }});
    o.push_back({fmt("sad.erfc.%d",ne),[=]{ auto b=std::make_shared<sb::TwoDBasis>(3,mp::POINT_NUCLEUS,0.0,poly(4,3),false,12,grid(ne),1,true); return fn([b]{ Res r; b->compute_erfc(0.7); int n=b->Nbf(); helfem::Cube c; for(int l=0;l<2;l++) c.push_back(sym(n,l)); put(r,b->rs_exchange(c)); return r; }); }});
    for(int k=0;k<3;k++) { int x=k==0?1:k==1?101:202,c=k==0?7:k==1?130:231; o.push_back({fmt("sad.xc.%d.%d",ne,k),[=]{ auto b=std::make_shared<sb::TwoDBasis>(3,mp::POINT_NUCLEUS,0.0,poly(4,3),false,12,grid(ne),1,true); return fn([=]{ Res r; helfem::sadatom::dftgrid::DFTGrid g(b.get()); int n=b->Nbf(); helfem::Cube P,Q,h,ha,hb; for(int l=0;l<2;l++) { P.push_back(sym(n,l)); Q.push_back(sym(n,l+2)); } double E,N; g.eval_Fxc(x,e,c,e,P,h,E,N,1e-12); put(r,h); r.push_back(E); r.push_back(N); g.eval_Fxc(x,e,c,e,P,Q,ha,hb,E,N,true,1e-12); put(r,ha); put(r,hb); r.push_back(E); r.push_back(N); return r; }); },1e-9}); 
      // concurrent Fock builds on one grid, as the SCF driver does after priming the cache
      if(ne<=3) o.push_back({fmt("sad.concurrent.%d.%d",ne,k),[=]{ auto b=std::make_shared<sb::TwoDBasis>(3,mp::POINT_NUCLEUS,0.0,poly(4,3),false,12,grid(ne),1,true); b->compute_tei(); auto g=std::make_shared<helfem::sadatom::dftgrid::DFTGrid>(b.get()); g->prime_quadrature_cache(x,c); return fn([=]{ std::vector<Res> rr(3);
_Pragma("omp parallel for schedule(dynamic)")
        for(long i=0;i<3;i++) { Res r; int n=b->Nbf(); helfem::Cube P,Q,h,ha,hb; for(int l=0;l<2;l++) { P.push_back(sym(n,l+i)); Q.push_back(sym(n,l+2+i)); } double E,N; g->eval_Fxc(x,e,c,e,P,h,E,N,1e-12); put(r,h); g->eval_Fxc(x,e,c,e,P,Q,ha,hb,E,N,true,1e-12); put(r,ha); put(r,hb); put(r,b->coulomb(P[0])); put(r,b->exchange(P)); put(r,b->nuclear()); rr[i]=r; } Res r; for(auto&v: rr) r.insert(r.end(),v.begin(),v.end()); return r; }); },1e-9}); }
  }
  std::vector<Ang> AA{{{0,0},{1,0}},{{0,0},{1,-1},{1,0},{1,1}}}; if(th) AA.push_back({{1,-1},{2,1},{1,1}});
  for(size_t a=0;a<AA.size();a++) for(int ne: th?std::vector<int>{2,3,6}:std::vector<int>{3}) { Ang A=AA[a];
    auto mka=[=]{ Eigen::VectorXi l,m; lmv(A,l,m); return std::make_shared<ab::TwoDBasis>(3,mp::POINT_NUCLEUS,0.0,poly(4,3),false,12,grid(ne),l,m,0,0,0.0); };
    auto mkd=[=](bool leg){ Eigen::VectorXi l,m; lmv(A,l,m); return std::make_shared<db::TwoDBasis>(1,2,0.8,poly(4,3),12,DM(grid(ne)*0.7),l,m,leg); };
    o.push_back({fmt("at.tei-jk.%zu.%d",a,ne),[=]{ auto b=mka(); return fn([b]{ Res r; b->compute_tei(true); int n=b->Nbf(); put(r,b->coulomb(sym(n,1))); put(r,b->exchange(sym(n,1))); return r; }); }});
    o.push_back({fmt("at.yukawa.%zu.%d",a,ne),[=]{ auto b=mka(); return fn([b]{ Res r; b->compute_yukawa(0.6); put(r,b->rs_exchange(sym(b->Nbf(),1))); return r; }); }});
    o.push_back({fmt("at.erfc.%zu.%d",a,ne),[=]{ auto b=mka(); return fn([b]{ Res r; b->compute_erfc(0.6); put(r,b->rs_exchange(sym(b->Nbf(),1))); return r; }); }});
    for(int k=0;k<3;k++) { int x=k==0?1:k==1?101:202,c=k==0?7:k==1?130:231; if(k&&a&&!th) continue;
      o.push_back({fmt("at.xc.%zu.%d.%d",a,ne,k),[=]{ auto b=mka(); return fn([=]{ Res r; helfem::atomic::dftgrid::DFTGrid g(b.get(),3,3); int n=b->Nbf(); DM h,ha,hb; double E,N,K; g.eval_Fxc(x,e,c,e,sym(n,1),h,E,N,K,1e-12); put(r,h); r.push_back(E); r.push_back(N); r.push_back(K); g.eval_Fxc(x,e,c,e,sym(n,1),sym(n,2),ha,hb,E,N,K,true,1e-12); put(r,ha); put(r,hb); r.push_back(E); r.push_back(N); r.push_back(K); return r; }); },1e-9});
      if(ne<=3) { o.push_back({fmt("di.xc.%zu.%d.%d",a,ne,k),[=]{ auto b=mkd(true); return fn([=]{ Res r; helfem::diatomic::dftgrid::DFTGrid g(b.get(),3,3); int n=b->Nbf(); DM h,ha,hb; double E,N,K; g.eval_Fxc(x,e,c,e,sym(n,1),h,E,N,K,1e-12); put(r,h); r.push_back(E); r.push_back(N); r.push_back(K); g.eval_Fxc(x,e,c,e,sym(n,1),sym(n,2),ha,hb,E,N,K,true,1e-12); put(r,ha); put(r,hb); r.push_back(E); r.push_back(N); r.push_back(K); return r; }); },1e-9}); } }
    if(ne<=3) { o.push_back({fmt("di.tei-jk.%zu.%d",a,ne),[=]{ Eigen::VectorXi l,m; lmv(a==0?Ang{{0,0}}:a==1?Ang{{1,0}}:A,l,m); auto b=std::make_shared<db::TwoDBasis>(1,2,0.8,poly(4,a<2?2:3),8,DM(grid(a<2?2:3)*0.5),l,m,true); return fn([b]{ Res r; b->compute_tei(true); int n=b->Nbf(); put(r,b->coulomb(sym(n,1))); put(r,b->exchange(sym(n,1))); return r; }); }});
      o.push_back({fmt("di.quad.%zu.%d",a,ne),[=]{ auto b=mkd(true); return fn([b]{ Res r; helfem::diatomic::twodquad::TwoDGrid g(b.get(),4); mp::ModelPotential*p=mp::get_nuclear_model(mp::GAUSSIAN_NUCLEUS,1,0.3); put(r,g.model_potential(p,p)); delete p; return r; }); }}); }
  }
  for(int L: {1,2,th?4:3}) { o.push_back({fmt("gaunt.%d",L),[=]{ return fn([=]{ Res r; helfem::gaunt::Gaunt g(2*L,L,L); for(int l=0;l<=L;l++) for(int m=-l;m<=l;m++) for(int q=0;q<=2*L;q++) for(int w=-q;w<=q;w++) for(int k=0;k<=L;k++) r.push_back(g.coeff(q,w,l,m,k)); return r; }); },1e-13}); }
  return o;
}
int main(int argc,char**argv){ H.parse(argc,argv); { char b[600]; ssize_t n=readlink("/proc/self/exe",b,599); binary=std::string(b,n>0?n:0); }
  for(auto&op: ops()) for(int team: {2,3,8}) H.run(fmt("%s.t%d",op.name.c_str(),team),[=]{ explore(op,team,H.thorough()?(team==8?400:4000):(team==8?40:400)); });
  return H.finish(); }
