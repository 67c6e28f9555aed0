// C23: the one-electron and analysis programs.  Each program is built unmodified as its own
// executable (beside this one) and run in a scratch directory of the check; what it prints and
// the files it writes are compared with a reference worked out from its inputs alone.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <ModelPotential.h>
#include <chebyshev.h>
#include <helfem.h>
#include <complex>
#include <fstream>
#include <memory>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include "general/checkpoint.h"
#include "general/model_potential.h"
#include "general/elements.h"
#include "general/atomdb.h"
#include "general/angular.h"
#include "general/gsz.h"
#include "atomic/basis.h"
#include "diatomic/basis.h"
#include "diatomic/twodquadrature.h"
#include <xc_funcs.h>
using namespace ref; namespace pb=helfem::polynomial_basis; namespace db=helfem::diatomic::basis; namespace tq=helfem::diatomic::twodquad; namespace mp=helfem::modelpotential;
typedef helfem::Matrix DM; typedef helfem::Vector DV; typedef std::complex<LD> C; typedef std::vector<std::pair<int,int>> Ang;
static const LD EPS=2.220446049250313e-16L;
// ---------------------------------------------------------------- running a program
struct Run { int rc=-1,sig=0; std::string out,err,dir;
  std::string path(const std::string&f) const { return dir+"/"+f; }
  ~Run(){ if(dir.empty()) return; if(DIR*d=opendir(dir.c_str())) { while(dirent*e=readdir(d)) { std::string n=e->d_name; if(n!="."&&n!="..") unlink((dir+"/"+n).c_str()); } closedir(d); } rmdir(dir.c_str()); } };
static std::string slurp(const std::string&f){ std::ifstream i(f); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static void mkscratch(Run&r){ char t[]="tool_XXXXXX"; if(!mkdtemp(t)) throw std::runtime_error("mkdtemp"); char b[4096]; if(!getcwd(b,sizeof b)) throw std::runtime_error("getcwd"); r.dir=std::string(b)+"/"+t; }
static void exec(Run&r,const std::string&prog,const std::vector<std::string>&args){
  if(r.dir.empty()) mkscratch(r); char ex[4096]; ssize_t k=readlink("/proc/self/exe",ex,sizeof ex-1); if(k<0) throw std::runtime_error("readlink"); ex[k]=0; std::string e(ex); e=e.substr(0,e.rfind('/'))+"/t_"+prog;
  fflush(NULL); pid_t p=fork(); if(p<0) throw std::runtime_error("fork");
  if(p==0) { if(chdir(r.dir.c_str())) _exit(126); int o=open("stdout.txt",O_CREAT|O_TRUNC|O_WRONLY,0644),q=open("stderr.txt",O_CREAT|O_TRUNC|O_WRONLY,0644),n=open("/dev/null",O_RDONLY); dup2(n,0); dup2(o,1); dup2(q,2); alarm(H.thorough()?1200:200);
    std::vector<char*> v; v.push_back((char*)e.c_str()); for(auto&a: args) v.push_back((char*)a.c_str()); v.push_back(NULL); execv(e.c_str(),v.data()); _exit(127); }
  int st=0; waitpid(p,&st,0); if(WIFEXITED(st)) r.rc=WEXITSTATUS(st); else if(WIFSIGNALED(st)) r.sig=WTERMSIG(st); r.out=slurp(r.path("stdout.txt")); r.err=slurp(r.path("stderr.txt")); H.step(); }
typedef std::map<std::string,std::string> Opt;
static std::vector<std::string> argv(const Opt&o){ std::vector<std::string> v; for(auto&k: o) v.push_back("--"+k.first+"="+k.second); return v; }
static std::string S_(double x){ return fmt("%.17g",x); } static std::string I_(int x){ return fmt("%d",x); }
static bool good(const Run&r){ return H.ok(r.rc==0&&!r.sig,"program-failed",fmt("exit %d signal %d: ",r.rc,r.sig)+r.err.substr(0,300)); }
static bool refused(const Run&r,const char*what){ return H.ok(r.sig==SIGABRT||(r.sig==0&&r.rc!=0),what,fmt("exit %d signal %d",r.rc,r.sig)); }
// numbers following a phrase
static std::vector<double> after(const std::string&s,const std::string&ph,int n,size_t from=0){ std::vector<double> v; size_t p=s.find(ph,from); if(p==std::string::npos) return v; const char*c=s.c_str()+p+ph.size(); while((int)v.size()<n&&*c) { if((*c>='0'&&*c<='9')||((*c=='-'||*c=='+'||*c=='.')&&c[1]&&((c[1]>='0'&&c[1]<='9')||c[1]=='.'))) { char*e; v.push_back(strtod(c,&e)); c=e; } else if(!strncmp(c,"nan",3)||!strncmp(c,"inf",3)) { v.push_back(NAN); c+=3; } else c++; } return v; }
static std::vector<std::vector<double>> table(const std::string&f){ std::vector<std::vector<double>> t; std::ifstream i(f); std::string l; while(std::getline(i,l)) { std::vector<double> r; const char*c=l.c_str(); for(;;) { char*e; double v=strtod(c,&e); if(e==c) break; r.push_back(v); c=e; } if(r.size()) t.push_back(r); } return t; }
static Mat toLD(const DM&m){ return m.cast<LD>(); }
static DM rd(Checkpoint&c,const std::string&n){ DM m; c.read(n,m); return m; }
static DV rv(Checkpoint&c,const std::string&n){ DV m; c.read(n,m); return m; }
static std::shared_ptr<const pb::PolynomialBasis> poly(int f,int nn){ return std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(f,nn)); }
// generalized symmetric eigenvalues
static Vec geig(const Mat&Hm,const Mat&S){ Eigen::GeneralizedSelfAdjointEigenSolver<Mat> es(Hm,S,Eigen::EigenvaluesOnly); return es.eigenvalues(); }
static LD cond(const Mat&S){ Eigen::SelfAdjointEigenSolver<Mat> es(S,Eigen::EigenvaluesOnly); return es.eigenvalues()(S.rows()-1)/es.eigenvalues()(0); }
// ---------------------------------------------------------------- one-dimensional programs
struct OneD { FE F; std::vector<LD> x,w; Mat S,T,V,Hm; Vec E; LD sc,cd;
  OneD(int f,int nn,const std::vector<LD>&b,bool dl,bool dr,int nq,std::function<LD(LD)> pot,LD tfac):F(f,nn,b,true,dl,true,dr){
    DV xq,wq; helfem::chebyshev::chebyshev<double>(nq,xq,wq); for(int i=0;i<nq;i++) { x.push_back(xq(i)); w.push_back(wq(i)); }
    auto me=[&](int k,std::function<LD(LD)> g){ Mat M=Mat::Zero(F.nbf,F.nbf); for(int i=0;i<F.nel();i++){ Mat E=Mat::Zero(F.en[i].size(),F.en[i].size()); for(size_t q=0;q<x.size();q++){ auto a=F.ev(x[q],i,k); Vec A=Eigen::Map<Vec>(a.data(),a.size()); E+=w[q]*F.e(i)*g(F.r(x[q],i))*(A*A.transpose()); } F.add(M,E,i); } return M; };
    S=me(0,[](LD){return 1.0L;}); T=tfac*me(1,[](LD){return 1.0L;}); V=me(0,pot); Hm=T+V; E=geig(Hm,S); sc=E.cwiseAbs().maxCoeff()+V.cwiseAbs().maxCoeff()/S.diagonal().minCoeff(); cd=cond(S); }
  void common(const Run&r,const char*name) const { auto n=after(r.out,"Basis set contains",1); H.ok(n.size()==1&&n[0]==F.nbf,"size",name);
    auto s=after(r.out,"Smallest value of overlap matrix is",2); Eigen::SelfAdjointEigenSolver<Mat> es(S,Eigen::EigenvaluesOnly); if(H.ok(s.size()==2,"output","overlap")) { LD lo=es.eigenvalues()(0); H.close(s[0],lo,1e-6*(double)lo+1e-13,"overlap-smallest"); H.close(s[1]/(double)cd,1.0,2e-6+1e-14*(double)cd,"overlap-condition"); }
    auto d=after(r.out,"Smallest and largest bf norms are",2); if(H.ok(d.size()==2,"output","norms")) { H.close(d[0]/(double)S.diagonal().minCoeff(),1.0,1e-6,"norm-smallest"); H.close(d[1]/(double)S.diagonal().maxCoeff(),1.0,1e-6,"norm-largest"); }
    auto o=after(r.out,"Orbital orthonormality devation is",1); H.ok(o.size()==1&&o[0]>=0&&o[0]<1e-12*(1+(double)cd),"orthonormality",o.size()?fmt("%g",o[0]):"absent"); }
  double tol() const { return (double)(EPS*sc*(50+cd)); }
  void files(const std::string&f) const { Checkpoint c(f,false); DM bf=rd(c,"bf"),Cm=rd(c,"C"),phi=rd(c,"phi"); DV co=rv(c,"coords"),we=rv(c,"weights"); int nq=x.size(),N=F.nbf,np=nq*F.nel();
    if(!H.ok(bf.rows()==np&&bf.cols()==N&&Cm.rows()==N&&Cm.cols()==N&&phi.rows()==np&&phi.cols()==N&&co.size()==np&&we.size()==np,"file-shape")) return;
    Mat B=Mat::Zero(np,N); Vec X(np),W(np); for(int i=0;i<F.nel();i++) for(int q=0;q<nq;q++){ X(i*nq+q)=F.r(x[q],i); W(i*nq+q)=w[q]*F.e(i); auto a=F.ev(x[q],i,0); for(size_t k=0;k<a.size();k++) B(i*nq+q,F.gl[i][k])=a[k]; }
    H.mclose(co,X,1e-13*(1+(double)X.cwiseAbs().maxCoeff()),"coords"); H.mclose(we,W,1e-13*(double)W.maxCoeff(),"weights"); H.mclose(bf,B,1e-12*(1+(double)B.cwiseAbs().maxCoeff()),"bf");
    Mat Cl=toLD(Cm); H.mclose(Mat(Cl.transpose()*S*Cl),Mat(Mat::Identity(N,N)),(double)(EPS*(100+20*cd)),"C-orthonormal"); H.mclose(Mat(Cl.transpose()*Hm*Cl),Mat(E.asDiagonal()),10*tol(),"C-eigenvectors"); H.mclose(phi,Mat(B*Cl),1e-13*(1+(double)Cl.cwiseAbs().maxCoeff())*N,"phi"); } };
static std::vector<LD> lin(LD a,LD b,int n){ std::vector<LD> v; for(int i=0;i<=n;i++) v.push_back(a+(b-a)*i/n); return v; }
static void energies(const Run&r,const OneD&p,int nmax,double dig){ int n=std::min<int>(nmax,p.F.nbf); for(int i=0;i<n;i++){ auto v=after(r.out,fmt("E[%d] =",i),1); if(H.ok(v.size()==1,"output",fmt("E[%d] absent",i))) H.close(v[0],p.E(i),p.tol()+dig,"energy",fmt("E[%d]",i)); } H.ok(r.out.find(fmt("E[%d]",n))==std::string::npos,"too-many-energies"); }
void oned(){
  struct B { int f,nn,nel; }; std::vector<B> bs{{4,4,1},{4,6,3},{4,8,4},{3,4,2},{3,7,3},{5,3,2},{5,4,3},{8,2,3},{4,15,2},{4,3,5}}; if(H.thorough()) { bs.push_back({9,2,3}); bs.push_back({9,3,2}); bs.push_back({8,3,3}); bs.push_back({3,12,4}); bs.push_back({4,10,8}); }
  // harmonic oscillator, -d^2/dx^2 + x^2
  for(auto b: bs) for(double xm: {2.0,4.5,8.0}) for(int nq: {60,101}) H.run(fmt("ho.%d.%d.%d.%g.%d",b.f,b.nn,b.nel,xm,nq),[=]{ Run r; exec(r,"harmonic",{S_(xm),I_(b.nel),I_(b.nn),I_(b.f),I_(nq)}); if(!good(r)) return; OneD p(b.f,b.nn,lin(-xm,xm,b.nel),true,true,nq,[](LD x){return x*x;},1); p.common(r,"harmonic");
    // printed: index, energy, deviation from 2i+1, six decimals
    size_t q=r.out.find("Eigenvalues\n"); if(H.ok(q!=std::string::npos,"output","eigenvalues")) { std::istringstream is(r.out.substr(q+12)); int n=std::min(8,p.F.nbf),k=0; std::string l; while(std::getline(is,l)) { int i; double e,d; if(sscanf(l.c_str(),"%d %lf %lf",&i,&e,&d)!=3) break; H.ok(i==k&&k<n,"energy-index"); if(k>=n) break; H.close(e,p.E(k),6e-7+p.tol(),"energy"); H.close(d,p.E(k)-(2*k+1),6e-7+p.tol(),"deviation"); k++; } H.ok(k==n,"energy-count",fmt("%d of %d",k,n)); }
    auto tx=table(r.path("x.dat")),tb=table(r.path("bf.dat")),td=table(r.path("dbf.dat")); Prim<LD> P(b.f,b.nn); if(H.ok((int)tx.size()==nq&&(int)tb.size()==nq&&(int)td.size()==nq,"file-shape")) for(int i=0;i<nq;i++){ H.close(tx[i][0],p.x[i],1e-15,"x.dat"); auto v=P.deriv(p.x[i],0,1),d=P.deriv(p.x[i],1,1); if(!H.ok(tb[i].size()==v.size()&&td[i].size()==v.size(),"file-shape","bf")) return; for(size_t k=0;k<v.size();k++){ H.close(tb[i][k],v[k],1e-13*(1+b.nn*(double)fabsl(v[k]))*10,"bf.dat"); H.close(td[i][k],d[k],1e-11*(1+b.nn*(double)fabsl(d[k]))*b.nn,"dbf.dat"); } } });
  for(int n: {0,1,4,6}) H.run(fmt("ho.args.%d",n),[=]{ Run r; std::vector<std::string> a(n,"2"); exec(r,"harmonic",a); refused(r,"usage"); });
  // Morse oscillator
  struct M { double De,a,re,m; int deut,rmx; }; std::vector<M> ms{{1,1,1,1,0,40},{2.5,0.7,1.3,1,0,12},{12,1,1.4,1,0,8},{0.17,1.03,1.4,1,1,15},{0.17,1.03,1.4,918.0763,0,6},{3,0.9,2,2,1,10},{5,0.5,2,0.5,0,14}};
  for(auto b: bs) for(size_t im=0;im<ms.size();im++) for(int nq: {-1,70}) { if(nq>0&&im>2) continue; H.run(fmt("morse.%d.%d.%d.%zu.%d",b.f,b.nn,b.nel,im,nq),[=]{ M m=ms[im]; Opt o{{"rmax",I_(m.rmx)},{"nelem",I_(b.nel)},{"nnodes",I_(b.nn)},{"primbas",I_(b.f)},{"De",S_(m.De)},{"a",S_(m.a)},{"re",S_(m.re)},{"save","m.chk"}}; if(nq>0) o["nquad"]=I_(nq); if(m.deut) o["deuteron"]="1"; if(m.m!=1) o["m"]=S_(m.m); Run r; exec(r,"morse",argv(o)); if(!good(r)) return;
    FE F(b.f,b.nn,lin(0,m.rmx,b.nel),true,false,true,false); int q=nq>0?nq:5*Prim<LD>(b.f,b.nn).nprim(); OneD p(b.f,b.nn,lin(0,m.rmx,b.nel),false,false,q,[&](LD x){ LD t=1-expl(-(LD)m.a*(x-(LD)m.re)); return (LD)m.De*t*t; },0.5L/(LD)m.m/(m.deut?2:1)); p.common(r,"morse"); energies(r,p,10,2e-15*(1+(double)fabsl(p.E(std::min(9,p.F.nbf-1))))); p.files(r.path("m.chk")); }); }
  // bound levels of a well resolved oscillator: w(n+1/2) - w^2(n+1/2)^2/(4De)
  for(int deut: {0,1}) for(double mass: {1.0,3.0}) H.run(fmt("morse.levels.%d.%g",deut,mass),[=]{ Opt o{{"rmax","15"},{"nelem","8"},{"nnodes","15"},{"De","12"},{"a","1"},{"re","2.5"},{"save","m.chk"}}; if(deut) o["deuteron"]="1"; if(mass!=1) o["m"]=S_(mass); Run r; exec(r,"morse",argv(o)); if(!good(r)) return; LD mu=mass*(deut?2:1),w=sqrtl(24/mu); for(int n=0;n<3;n++){ auto v=after(r.out,fmt("E[%d] =",n),1); LD h=n+0.5L; if(H.ok(v.size()==1,"output")) H.close(v[0],w*h-w*w*h*h/48,1e-4,"morse-level"); } });
  // two soft Coulomb centres
  struct Q { int z1,z2; double R,al; int ab; double xm; }; std::vector<Q> qs{{1,1,2,1,0,10},{1,1,1.4,0.5,1,8},{2,1,3,0.7,0,12},{1,0,0,1,0,9},{0,3,1.5,1.2,1,7},{5,2,2.5,0.3,0,40},{3,3,2,2,1,20}};
  for(auto b: bs) for(size_t iq=0;iq<qs.size();iq++) for(int nq: {-1,64}) { if(nq>0&&iq>2) continue; H.run(fmt("soft.%d.%d.%d.%zu.%d",b.f,b.nn,b.nel,iq,nq),[=]{ Q m=qs[iq]; Opt o{{"xmax",S_(m.xm)},{"nelem",I_(b.nel)},{"nnodes",I_(b.nn)},{"primbas",I_(b.f)},{"Z1",I_(m.z1)},{"Z2",I_(m.z2)},{"R",S_(m.R)},{"alpha",S_(m.al)},{"abs",I_(m.ab)},{"save","s.chk"}}; if(nq>0) o["nquad"]=I_(nq); Run r; exec(r,"softcoulomb",argv(o)); if(!good(r)) return;
    auto V=[&](LD x){ LD s=0; for(int k=0;k<2;k++){ LD d=x-(k?0.5L:-0.5L)*(LD)m.R,a=m.al; s-=(k?m.z2:m.z1)/(m.ab?fabsl(d)+a:sqrtl(d*d+a*a)); } return s; }; int q=nq>0?nq:5*Prim<LD>(b.f,b.nn).nprim(); OneD p(b.f,b.nn,lin(-(LD)m.xm,m.xm,b.nel),true,true,q,V,0.5L); p.common(r,"softcoulomb"); energies(r,p,10,2e-15*(1+(double)p.E.cwiseAbs().maxCoeff())); p.files(r.path("s.chk")); }); }
  for(auto miss: {"Z1","Z2","R","alpha"}) H.run(std::string("soft.missing.")+miss,[=]{ Opt o{{"nelem","2"},{"nnodes","4"},{"Z1","1"},{"Z2","1"},{"R","2"},{"alpha","1"}}; o.erase(miss); Run r; exec(r,"softcoulomb",argv(o)); refused(r,"missing-option"); });
  // scalar types side by side: the error of the small basis is that of the basis, long double's is never larger
  if(H.thorough()) H.run("precision",[=]{ Run r; exec(r,"precision",{"6","1","1","4","60","4"}); if(!good(r)) return; std::istringstream is(r.out); std::string l; int n=0; const int nel[]={5,5,10,20,40},nnd[]={15,25,25,25,25}; while(std::getline(is,l)) { int a,b; double d,e; if(sscanf(l.c_str()," %d %d | %lf | %lf",&a,&b,&d,&e)!=4) continue; if(!H.ok(n<5&&a==nel[n]&&b==nnd[n],"precision-rows")) return; if(n<2) { OneD p(4,b,lin(-6,6,a),true,true,60,[](LD x){return 0.5L*x*x;},0.5L); LD w=0; for(int i=0;i<4;i++) w=std::max(w,fabsl(p.E(i)-(i+0.5L))); H.close(d,w,1e-9+1e-3*(double)w,"precision-double"); H.close(e,w,1e-12+1e-3*(double)w,"precision-long-double"); } H.ok(d<1e-6&&e<1e-6,"precision-error",l); n++; } H.ok(n==5,"precision-rows",fmt("%d",n)); });
}
// ---------------------------------------------------------------- one electron in an atom
void atom1(){
  struct A { const char*Z; int z; double Rmax; int grid; double zexp; int nel,f,nn,lmax; int nq; }; std::vector<A> as{{"H",1,20,4,2,3,4,6,2,0},{"1",1,10,1,2,2,4,5,3,0},{"he",2,15,2,2,4,5,3,1,0},{"10",10,8,3,1.5,3,4,8,2,40},{"Ne",10,12,4,1.3,2,3,6,0,0},{"3",3,6,4,2,2,8,2,1,30},{"Xe",54,10,4,2,3,4,7,3,0},{"0",0,10,1,2,3,4,5,2,0}}; if(H.thorough()) { as.push_back({"U",92,20,4,2,5,4,10,4,0}); as.push_back({"7",7,9,4,2,3,9,2,2,0}); as.push_back({"B",5,12,2,1,6,4,4,5,0}); }
  struct N { int model; double rms; int nel0,grid0; double zexp0; }; std::vector<N> ns{{0,0,0,4,2},{1,0.3,1,4,2},{2,0.3,2,1,2},{3,0.2,1,4,1.5},{1,1e-3,2,4,2}};
  for(size_t ia=0;ia<as.size();ia++) for(size_t in=0;in<ns.size();in++) { if(in&&as[ia].z==0) continue; if(in>3&&ia>2) continue; H.run(fmt("1e.%zu.%zu",ia,in),[=]{ A a=as[ia]; N n=ns[in]; Opt o{{"Z",a.Z},{"Rmax",S_(a.Rmax)},{"grid",I_(a.grid)},{"zexp",S_(a.zexp)},{"nelem",I_(a.nel)},{"lmax",I_(a.lmax)},{"nnodes",I_(a.nn)},{"primbas",I_(a.f)},{"save","1e.chk"}}; if(a.nq) o["nquad"]=I_(a.nq); if(n.model) { o["finitenuc"]=I_(n.model); o["Rrms"]=S_(n.rms); o["nelem0"]=I_(n.nel0); o["grid0"]=I_(n.grid0); o["zexp0"]=S_(n.zexp0); }
    Run r; exec(r,"1e_atom",argv(o)); if(!good(r)) return; DV bv=helfem::atomic::basis::form_grid((mp::nuclear_model_t)n.model,n.rms,a.nel,a.Rmax,a.grid,a.zexp,n.nel0,n.grid0,n.zexp0,a.z,0,0,0,0,0.0); std::vector<LD> b; for(long i=0;i<bv.size();i++) b.push_back(bv(i));
    FE F(a.f,a.nn,b,true,false,true,false); int nq=a.nq?a.nq:5*F.pr.nprim(); int ng=160; Mat S=F.full(0,0,[](LD){return 1.0L;},F.pr.degree()+8),T=F.full(1,1,[](LD){return 0.5L;},F.pr.degree()+8),Tl=F.full(10,10,[](LD){return 0.5L;},ng),V;
    if(n.model) { std::shared_ptr<mp::ModelPotential> m(mp::get_nuclear_model((mp::nuclear_model_t)n.model,a.z,n.rms)); std::vector<LD> brk; for(double t: m->breakpoints(0,a.Rmax)) brk.push_back(t); V=F.full(0,0,[&](LD x){ return (LD)m->V((double)x); },120,brk,n.model==1?12:2); } else V=F.full(10,0,[&](LD){ return -(LD)a.z; },ng);
    Checkpoint c(r.path("1e.chk"),false); DV R=rv(c,"r"),W=rv(c,"wr"); int np=nq*F.nel(); DV xq,wq; helfem::chebyshev::chebyshev<double>(nq,xq,wq); if(!H.ok(R.size()==np&&W.size()==np,"file-shape")) return; Mat Bf=Mat::Zero(np,F.nbf); for(int i=0;i<F.nel();i++) for(int q=0;q<nq;q++){ H.close(R(i*nq+q),F.r(xq(q),i),1e-14*a.Rmax,"r"); H.close(W(i*nq+q),wq(q)*F.e(i),1e-14*a.Rmax,"wr"); auto v=F.evr(xq(q),i,0); for(size_t k=0;k<v.size();k++) Bf(i*nq+q,F.gl[i][k])=v[k]; }
    size_t at=0; for(int l=0;l<=a.lmax;l++){ Mat Hm=T+V+l*(l+1)*Tl; Vec E=geig(Hm,S); LD sc=E.cwiseAbs().maxCoeff(); double tol=(double)(EPS*sc*(100+cond(S)))+(n.model?1e-10*a.z/n.rms:1e-12*(double)sc); DV e=rv(c,fmt("E_%d",l)); H.mclose(e,E,tol,n.model?"energy-finite-nucleus":"energy"); size_t q=r.out.find(fmt("l=%d eigenvalues\n",l),at); if(H.ok(q!=std::string::npos,"output")) { auto v=after(r.out,"eigenvalues\n",F.nbf,q); H.ok((int)v.size()==F.nbf,"output"); for(size_t i=0;i<v.size();i++) H.close(v[i],e(i),2e-15*(1+fabs(e(i))),"printed-energy"); at=q+1; }
      DM O=rd(c,fmt("orbs_%d",l)); if(!H.ok(O.rows()==np&&O.cols()==F.nbf,"file-shape","orbitals")) continue; // recover the coefficients and judge them as eigenvectors
      Mat Cm=Bf.colPivHouseholderQr().solve(toLD(O)); H.mclose(O,Mat(Bf*Cm),1e-10*(1+O.cwiseAbs().maxCoeff()),"orbitals-in-span"); H.mclose(Mat(Cm.transpose()*S*Cm),Mat(Mat::Identity(F.nbf,F.nbf)),1e-10*(double)std::max<LD>(1,cond(S)*1e-3L),"orbitals-orthonormal"); H.mclose(Mat(Cm.transpose()*Hm*Cm),Mat(E.asDiagonal()),10*tol+1e-9*(double)sc*(double)std::max<LD>(1,cond(S)*1e-3L),"orbitals-eigen"); }
    }); }
  for(int z: {1,2,10}) H.run(fmt("1e.levels.%d",z),[=]{ Run r; exec(r,"1e_atom",argv({{"Z",I_(z)},{"Rmax",S_(60.0/z+10)},{"nelem","8"},{"lmax","3"},{"save","1e.chk"}})); if(!good(r)) return; Checkpoint c(r.path("1e.chk"),false); for(int l=0;l<=3;l++){ DV e=rv(c,fmt("E_%d",l)); for(int k=0;k+l+1<=3;k++){ int n=k+l+1; H.close(e(k),-0.5L*z*z/(n*n),(n<3?1e-8:1e-3)*z*z,"hydrogenic"); } } });
  H.run("1e.few-points",[=]{ Run r; exec(r,"1e_atom",argv({{"Z","1"},{"nelem","2"},{"nnodes","6"},{"nquad","11"}})); refused(r,"few-points"); }); H.run("1e.no-element",[=]{ Run r; exec(r,"1e_atom",argv({{"Z","Qq"},{"nelem","2"}})); refused(r,"bad-element"); });
}
// ---------------------------------------------------------------- diatomic programs
static LD acosh_(LD x){ return logl(x+sqrtl((x-1)*(x+1))); }
static Ang lmset(const std::vector<int>&lm){ Ang a; for(size_t m=0;m<lm.size();m++) for(int l=m;l<=lm[m];l++) { a.push_back({l,(int)m}); if(m) a.push_back({l,-(int)m}); } return a; }
static std::string lms(const std::vector<int>&v){ std::string s; for(size_t i=0;i<v.size();i++) s+=(i?",":"")+I_(v[i]); return s; }
static db::TwoDBasis mkb(int Z1,int Z2,LD Rh,int f,int nn,int nq,const std::vector<double>&b,const Ang&A){ DV v(b.size()); for(size_t i=0;i<b.size();i++) v(i)=b[i]; Eigen::VectorXi l(A.size()),m(A.size()); for(size_t i=0;i<A.size();i++){ l(i)=A[i].first; m(i)=A[i].second; } return db::TwoDBasis(Z1,Z2,Rh,poly(f,nn),nq,v,l,m,0); }
static std::vector<int> pure(const Ang&A,int n){ std::vector<int> p; for(size_t a=0;a<A.size();a++) for(int k=A[a].second?1:0;k<n;k++) p.push_back(a*n+k); return p; }
static Mat blockdiag(const Mat&M,const Ang&A,const std::vector<int>&p,int n){ Mat o=M; for(size_t i=0;i<p.size();i++) for(size_t j=0;j<p.size();j++) if(A[p[i]/n].second!=A[p[j]/n].second) o(i,j)=0; return o; }
struct D1 { const char*Z1,*Z2; int z1,z2; double R; int ang; std::vector<int> lm; int mmax; double Rmax; int grid; double zexp; int nel,f,nn,nq; };
static std::vector<D1> d1s(){ std::vector<D1> v{{"H","H",1,1,2,0,{3},-1,10,4,1,2,4,5,0},{"He","1",2,1,1.5,0,{2,1},-1,8,4,1,2,4,4,0},{"H","",1,0,1.0,1,{2},1,12,1,1,3,4,4,25},{"Li","H",3,1,3,0,{4,3,2},-1,15,2,1,2,5,3,0},{"0","2",0,2,1.2,0,{1,2},-1,9,3,1.4,2,3,5,0},{"B","N",5,7,1.3,1,{3},2,10,4,1.5,2,4,4,0},{"H","H",1,1,1.4,0,{0},0,6,1,1,1,4,6,0}}; if(H.thorough()) { v.push_back({"Ne","Ar",10,18,2.2,0,{6,4},-1,20,4,1,4,4,8,0}); v.push_back({"H","He",1,2,0.8,0,{5,5,5,5},-1,14,4,2,3,8,2,0}); } return v; }
static Opt d1opt(const D1&d){ Opt o{{"Z1",d.Z1},{"Z2",d.Z2},{"Rbond",S_(d.R)},{"lmax",lms(d.lm)},{"Rmax",S_(d.Rmax)},{"grid",I_(d.grid)},{"zexp",S_(d.zexp)},{"nelem",I_(d.nel)},{"nnodes",I_(d.nn)},{"primbas",I_(d.f)},{"save","d.chk"}}; if(d.mmax>=0) o["mmax"]=I_(d.mmax); if(d.ang) o["angstrom"]="1"; if(d.nq) o["nquad"]=I_(d.nq); return o; }
struct D1R { LD Rb,Rh; std::vector<double> b; Ang A; int nq,n; std::vector<int> p; std::shared_ptr<db::TwoDBasis> B; FE F; D1R(const D1&d){ Rb=d.R; if(d.ang) Rb/=0.52917721067L; Rh=Rb/2; double mumax=(double)acosh_(d.Rmax/Rh); DV bv=helfem::atomic::basis::normal_grid(d.nel,mumax,d.grid,d.zexp); for(long i=0;i<bv.size();i++) b.push_back(bv(i)); std::vector<int> lm=d.lm; if(d.mmax>=0) lm.assign(d.mmax+1,d.lm[0]); A=lmset(lm); std::vector<LD> bl(b.begin(),b.end()); F=FE(d.f,d.nn,bl,false,false,true,true); n=F.nbf; p=pure(A,n); nq=d.nq?d.nq:5*F.pr.nprim(); B=std::make_shared<db::TwoDBasis>(mkb(d.z1,d.z2,Rh,d.f,d.nn,nq,b,A)); } };
void diat1(){ auto ds=d1s(); for(size_t id=0;id<ds.size();id++) H.run(fmt("d1.%zu",id),[=]{ D1 d=ds[id]; Run r; exec(r,"diatomic_1e",argv(d1opt(d))); if(!good(r)) return; D1R x(d); int N=x.p.size(); Checkpoint c(r.path("d.chk"),false);
    int z1,z2,na,nb; double Rh; c.read("Z1",z1); c.read("Z2",z2); c.read("nela",na); c.read("nelb",nb); c.read("Rhalf",Rh); H.ok(z1==d.z1&&z2==d.z2&&na==1&&nb==0,"input-echo"); H.close(Rh,x.Rh,1e-9*(double)x.Rh,"Rhalf"); DV bv=rv(c,"bval"); if(!H.ok((size_t)bv.size()==x.b.size(),"grid-size")) return; for(long i=0;i<bv.size();i++) H.close(bv(i),x.b[i],1e-9,"grid");
    { db::TwoDBasis B; c.read(B); Eigen::VectorXi l=B.get_lval(),m=B.get_mval(); bool g=l.size()==(long)x.A.size()&&(int)B.Nbf()==N&&B.get_nquad()==x.nq&&B.get_poly_id()==d.f&&B.get_poly_nnodes()==d.nn; for(long i=0;g&&i<l.size();i++) g=l(i)==x.A[i].first&&m(i)==x.A[i].second; if(!H.ok(g,"basis")) return; }
    DM S=rd(c,"S"),T=rd(c,"T"),V=rd(c,"Vnuc"),H0=rd(c,"H0"),X=rd(c,"Sinvh"),Ca=rd(c,"Ca"),Cb=rd(c,"Cb"); DV Ea=rv(c,"Ea"),Eb=rv(c,"Eb"); DM Sr=x.B->overlap(),Tr=x.B->kinetic(),Vr=x.B->nuclear(); auto sc=[](const DM&m){ return 1+m.cwiseAbs().maxCoeff(); }; H.mclose(S,toLD(Sr),1e-8*sc(Sr),"S"); H.mclose(T,toLD(Tr),1e-8*sc(Tr),"T"); H.mclose(V,toLD(Vr),1e-8*sc(Vr),"Vnuc"); H.mclose(H0,toLD(DM(T+V)),1e-14*sc(H0),"H0");
    if(!H.ok(X.rows()==N&&X.cols()==N&&Ca.rows()==N&&Ca.cols()==N&&Ea.size()==N,"file-shape")) return; Mat Sl=toLD(S),Hl=toLD(H0),Xl=toLD(X),Cl=toLD(Ca); LD cd=cond(Sl); double t0=(double)(EPS*(1e3L+50*cd)); Vec E=geig(Hl,Sl); LD es=E.cwiseAbs().maxCoeff(); H.mclose(Mat(Xl.transpose()*Sl*Xl),Mat(Mat::Identity(N,N)),t0,"Sinvh"); H.mclose(Ea,E,t0*(double)es,"energies"); H.mclose(Mat(Cl.transpose()*Sl*Cl),Mat(Mat::Identity(N,N)),2*t0,"C-orthonormal"); H.mclose(Mat(Cl.transpose()*Hl*Cl),Mat(E.asDiagonal()),4*t0*(double)es,"C-eigen"); H.ok(Cb==Ca&&Eb==Ea,"beta");
    double ek,en,er,et; c.read("Ekin",ek); c.read("Enuc",en); c.read("Enucr",er); c.read("Etot",et); Vec c0=Cl.col(0); H.close(ek,(c0.transpose()*toLD(T)*c0)(0,0),t0*sc(T)*10,"Ekin"); H.close(en,(c0.transpose()*toLD(V)*c0)(0,0),t0*sc(V)*10,"Enuc"); H.close(er,d.z1*d.z2/x.Rb,1e-9*(1+d.z1*d.z2),"Enucr"); H.close(et,ek+en+er,1e-12*(1+fabs(et)),"Etot"); H.close(et,E(0)+(LD)er,t0*(double)es*4,"Etot-eigen"); });
  // energies of one electron in two centres, and in one
  for(int k=0;k<4;k++) H.run(fmt("d1.levels.%d",k),[=]{ const double R[]={2,2,1.3,0.9}; const char*z[][2]={{"H","H"},{"He",""},{"","Li"},{"He","He"}}; const double E0[]={-1.1026342144949,-2.0,-4.5,0}; Opt o{{"Z1",z[k][0]},{"Z2",z[k][1]},{"Rbond",S_(R[k])},{"lmax","14,2"},{"nelem","4"},{"Rmax","30"},{"save","d.chk"}}; if(k==3) o["Rbond"]=S_(1.0); Run r; exec(r,"diatomic_1e",argv(o)); if(!good(r)) return; Checkpoint c(r.path("d.chk"),false); DV e=rv(c,"Ea"); double en; c.read("Enucr",en); H.close(e(0),k==3?-4*1.1026342144949:E0[k],k==1||k==2?1e-6:1e-8,"level"); H.close(en,k==0?0.5:k==3?4.0:0.0,1e-12,"repulsion"); });
  H.run("d1.few-points",[=]{ D1 d=ds[0]; Opt o=d1opt(d); o["nquad"]="9"; Run r; exec(r,"diatomic_1e",argv(o)); refused(r,"few-points"); });
}
struct Geo { int f,nn; std::vector<double> b; Ang A; LD Rh; int z1,z2; };
static std::vector<Geo> geos(){ std::vector<Geo> g{{4,4,{0,0.8,2.0},lmset({2,1}),0.7L,1,1},{4,3,{0,1.0,2.2},{{0,0},{1,1},{1,-1},{2,-2},{3,1}},1.3L,3,1},{5,2,{0,0.6,1.9},lmset({1}),1.0L,0,2},{4,5,{0,1.7},{{2,-1},{0,0},{1,0}},0.5L,7,0}}; if(H.thorough()) { g.push_back({4,6,{0,0.5,1.1,2.4},lmset({4,3,2}),1.1L,2,5}); g.push_back({8,2,{0,0.9,2},lmset({3,2}),0.9L,1,1}); } return g; }
struct GR { Geo g; FE F; std::vector<int> p; int n; db::TwoDBasis B; GR(const Geo&g_):g(g_),F(g_.f,g_.nn,std::vector<LD>(g_.b.begin(),g_.b.end()),false,false,true,true),n(F.nbf){ p=pure(g.A,n); B=mkb(g.z1,g.z2,g.Rh,g.f,g.nn,5*g.nn,g.b,g.A); }
  std::vector<C> at(LD mu,LD eta,LD phi) const { Vec R=F.at(mu); std::vector<C> v; for(int i: p){ auto a=g.A[i/n]; v.push_back(std::polar(1.0L,a.second*phi)*ytheta<LD>(a.first,a.second,eta)*R(i%n)); } return v; } };
static DM dense(int r,int c,int s){ DM m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=(((i*7+j*5+s*3)%13)-6)/5.0; return m; }
void dline(){ auto gs=geos(); for(size_t ig=0;ig<gs.size();ig++) for(int sp=0;sp<3;sp++) for(int ln=0;ln<7;ln++) H.run(fmt("dl.%zu.%d.%d",ig,sp,ln),[=]{ GR x(gs[ig]); int N=x.p.size(); DM Pa=dense(N,N,sp); Pa=DM(Pa*Pa.transpose()); DM Pb=sp==0?Pa:sp==1?DM(DM::Zero(N,N)):DM(dense(N,N,7)); if(sp==2) Pb=DM(Pb*Pb.transpose());
    double Rh=(double)x.g.Rh,rm=Rh*cosh(x.g.b.back()); double X=0,Y=0,z0=-5,z1=5; int nz=101; switch(ln){ case 0: break; case 1: X=0.3; Y=-0.7; nz=41; z0=-2; z1=2.5; break; case 2: z0=-Rh; z1=Rh; nz=21; break; case 3: X=-1.1; z0=-3*Rh; z1=3*Rh; nz=33; break; case 4: z0=0.4; z1=0.4; nz=1; X=0.2; break; case 5: z0=-1.2*rm; z1=1.2*rm; nz=24; Y=0.25*rm; break; case 6: z0=2*Rh; z1=-2*Rh; nz=17; Y=1e-9; break; }
    Run r; mkscratch(r); { Checkpoint c(r.path("in.chk"),true); c.write(x.B); c.write("Pa",Pa); c.write("Pb",Pb); } Opt o{{"load","in.chk"},{"savedens","out.dat"}}; if(ln) { o["x"]=S_(X); o["y"]=S_(Y); o["zmin"]=S_(z0); o["zmax"]=S_(z1); o["Nz"]=I_(nz); } exec(r,"diatomic_dline",argv(o)); if(!good(r)) return; auto t=table(r.path("out.dat")); if(!H.ok((int)t.size()==nz,"line-points",fmt("%zu of %d",t.size(),nz))) return;
    for(int i=0;i<nz;i++){ if(!H.ok(t[i].size()==4,"line-columns")) return; LD z=nz==1?(LD)z1:z0+((LD)z1-z0)*i/(nz-1); H.close(t[i][0],z,1e-5*(1+fabs((double)z)),"z"); LD ra=hypotl(hypotl(X,Y),z+x.g.Rh),rb=hypotl(hypotl(X,Y),z-x.g.Rh),xi=std::max<LD>(1,(ra+rb)/(2*x.g.Rh)),eta=(ra-rb)/(2*x.g.Rh); if(eta>1) eta=1; if(eta<-1) eta=-1; LD mu=acosh_(xi),mm=x.g.b.back(),den[2]={0,0},sl[2]={0,0}; if(fabsl(mu-mm)<1e-7L) continue;
      if(mu<=mm) for(int s=0;s<2;s++){ const DM&P=s?Pb:Pa; auto dn=[&](LD m_,LD e_){ auto v=x.at(m_,e_,atan2l(Y,X)); C s0=0; for(int a=0;a<N;a++) for(int b=0;b<N;b++) s0+=std::conj(v[a])*(LD)P(a,b)*v[b]; return s0.real(); }; den[s]=dn(mu,eta); LD h=mu>2e-7L?0:2e-7L; // on the axis the angle coordinate is only known to sqrt(eps)
          sl[s]=h?fabsl(dn(mu+h,eta)-den[s])+fabsl(dn(mu,eta>0?eta-1e-13L:eta+1e-13L)-den[s]):0; LD mo=1; for(int a=0;a<N;a++) for(int b=0;b<N;b++) mo=std::max(mo,fabsl((LD)P(a,b))); sl[s]+=1e-9L*mo; }
      H.close(t[i][1],den[0],6e-6*(double)fabsl(den[0])+(double)sl[0],"density-alpha",fmt("z=%g",(double)z)); H.close(t[i][2],den[1],6e-6*(double)fabsl(den[1])+(double)sl[1],"density-beta",fmt("z=%g",(double)z)); H.close(t[i][3],den[0]+den[1],6e-6*(double)fabsl(den[0]+den[1])+(double)(sl[0]+sl[1]),"density-total",fmt("z=%g",(double)z)); } });
  H.run("dl.none",[=]{ Run r; exec(r,"diatomic_dline",{"--load=absent.chk"}); refused(r,"no-input"); }); }
void dgrid(){ auto gs=geos(); struct O { int na,nb,nq,la,ma,extra; }; std::vector<O> os{{1,0,-1,-1,-1,0},{2,1,7,6,5,0},{2,2,9,8,4,1},{1,1,-1,5,6,2},{3,0,6,4,3,1},{2,1,8,7,7,2}}; for(size_t ig=0;ig<gs.size();ig++) for(size_t io=0;io<os.size();io++) H.run(fmt("dg.%zu.%zu",ig,io),[=]{ GR x(gs[ig]); O o=os[io]; int N=x.p.size(); DM S=x.B.overlap(); Mat Sl=toLD(S); DM X; { Eigen::SelfAdjointEigenSolver<DM> es(S); X=es.eigenvectors()*es.eigenvalues().cwiseSqrt().cwiseInverse().asDiagonal(); } int nca=std::min(N,o.na+(o.extra?o.extra:0)),ncb=std::min(N,o.extra?o.nb+o.extra:o.nb); if(o.extra==2) nca=ncb=N;
    // orthonormal orbitals from a rotation of the orthonormalised functions
    auto orb=[&](int s){ Eigen::HouseholderQR<DM> qr(dense(N,N,s)+3*DM(DM::Identity(N,N))); return DM(X*DM(qr.householderQ())); }; DM Ca=orb(1).leftCols(nca),Cb=orb(5).leftCols(std::max(ncb,1));
    Run r; mkscratch(r); { Checkpoint c(r.path("in.chk"),true); c.write(x.B); c.write("Ca",Ca); c.write("Cb",Cb); c.write("nela",o.na); c.write("nelb",o.nb); c.write("Sinvh",X); } Opt op{{"load","in.chk"},{"output","o.hdf5"}}; if(o.nq>0) op["nquad"]=I_(o.nq); if(o.la>0) op["lang"]=I_(o.la); if(o.ma>0) op["mang"]=I_(o.ma); exec(r,"diatomic_dgrid",argv(op)); if(!good(r)) return;
    Checkpoint c(r.path("o.hdf5"),false); int lm=0,mm=0,mtop=-99; for(auto&a: x.g.A){ lm=std::max(lm,a.first); mm=std::max(mm,std::abs(a.second)); mtop=std::max(mtop,a.second); } int la=o.la>0?o.la:4*lm+12,ma=o.ma>0?o.ma:4*mm+5; DV ct,ph,wa; helfem::angular::angular_chebyshev(la,ma,ct,ph,wa); int nang=wa.size(); int nq=x.B.get_nquad(); int np=nang*nq*x.F.nel(); DV xq,wq; helfem::chebyshev::chebyshev<double>(nq,xq,wq);
    DV mu=rv(c,"mu"),dV=rv(c,"dV"),wt=rv(c,"wquad"),cth=rv(c,"cth"),phi=rv(c,"phi"),P=rv(c,"P"),Pa=rv(c,"Pa"),Pb=rv(c,"Pb"); if(!H.ok(mu.size()==np&&dV.size()==np&&wt.size()==np&&cth.size()==np&&phi.size()==np&&P.size()==np&&Pa.size()==np&&Pb.size()==np,"grid-size",fmt("%ld of %d",(long)mu.size(),np))) return; double rh; int z1,z2,mx; c.read("Rh",rh); c.read("Z1",z1); c.read("Z2",z2); c.read("mmax",mx); H.ok(rh==x.B.get_Rhalf()&&z1==x.g.z1&&z2==x.g.z2&&mx==mtop,"grid-echo");
    DM Or[2],Oi[2],Tr[2],Ti[2]; int ne[2]={o.na,o.nb}; for(int s=0;s<2;s++){ std::string q=s?"b":"a"; if(!ne[s]) continue; Or[s]=rd(c,"orb"+q+".re"); Oi[s]=rd(c,"orb"+q+".im"); Tr[s]=rd(c,"Torb"+q+".re"); Ti[s]=rd(c,"Torb"+q+".im"); for(DM*m: {&Or[s],&Oi[s],&Tr[s],&Ti[s]}) if(!H.ok(m->rows()==np&&m->cols()==ne[s],"orbital-shape",fmt("%ldx%ld of %dx%d",(long)m->rows(),(long)m->cols(),np,ne[s]))) return; }
    // the same grid in any order: each point must be one of the product rule's with its weights
    std::map<std::tuple<long,long,long>,LD> want; auto key=[](LD a,LD b,LD d){ return std::make_tuple(lrintl(a*1e8L),lrintl(b*1e8L),lrintl(d*1e8L)); }; for(int e=0;e<x.F.nel();e++) for(int q=0;q<nq;q++) for(int a=0;a<nang;a++) want[key(x.F.r(xq(q),e),ct(a),ph(a))]=(LD)wq(q)*x.F.e(e)*wa(a); H.ok((int)want.size()==np,"self-grid");
    Mat Cl[2]={toLD(Ca),toLD(Cb)}; Mat Sinv=toLD(X)*toLD(X).transpose(),TT=toLD(x.B.kinetic()); Mat Tc[2]; for(int s=0;s<2;s++) if(ne[s]) Tc[s]=Sinv*TT*Cl[s].leftCols(ne[s]); LD nrm[2]={0,0}; double cs=1+Ca.cwiseAbs().maxCoeff()+Cb.cwiseAbs().maxCoeff(); LD vol=0; std::set<std::tuple<long,long,long>> seen; Eigen::Matrix<C,-1,-1> Sg[2]; for(int s=0;s<2;s++) Sg[s]=Eigen::Matrix<C,-1,-1>::Zero(ne[s],ne[s]);
    for(int i=0;i<np;i++){ auto k=key(mu(i),cth(i),phi(i)); auto it=want.find(k); if(!H.ok(it!=want.end()&&seen.insert(k).second,"grid-point",fmt("%d",i))) return; LD ch=coshl(mu(i)),sh=sinhl(mu(i)),R3=ipow(x.g.Rh,3); LD dv=R3*sh*(ch*ch-(LD)cth(i)*cth(i))*it->second; H.close(wt(i),it->second,1e-12*(double)fabsl(it->second)+1e-15,"weight"); H.close(dV(i),dv,1e-11*(double)fabsl(dv)+1e-15,"volume-element"); vol+=dv; auto v=x.at(mu(i),cth(i),phi(i)); LD den[2]={0,0};
      for(int s=0;s<2;s++) { std::vector<C> ov(ne[s],C(0)); for(int k2=0;k2<ne[s];k2++){ C f=0,t=0; for(int a=0;a<N;a++){ f+=v[a]*Cl[s](a,k2); t+=v[a]*Tc[s](a,k2); } ov[k2]=f; den[s]+=std::norm(f); double tt=1e-10*(1+(double)Tc[s].cwiseAbs().maxCoeff()); H.close(Or[s](i,k2),f.real(),1e-11*cs,"orbital"); H.close(Oi[s](i,k2),f.imag(),1e-11*cs,"orbital"); H.close(Tr[s](i,k2),t.real(),tt,"kinetic-orbital"); H.close(Ti[s](i,k2),t.imag(),tt,"kinetic-orbital"); } for(int a=0;a<ne[s];a++) for(int b=0;b<ne[s];b++) Sg[s](a,b)+=std::conj(ov[a])*ov[b]*dv; }
      H.close(Pa(i),den[0],1e-10*cs*cs,"alpha-density"); H.close(Pb(i),den[1],1e-10*cs*cs,"beta-density"); H.close(P(i),den[0]+den[1],2e-10*cs*cs,"total-density"); nrm[0]+=den[0]*dv; nrm[1]+=den[1]*dv; }
    auto pr=[&](const char*w,LD e,const char*ck){ auto v=after(r.out,w,1); if(H.ok(v.size()==1,"output",w)) H.close(v[0],e,1e-6*(1+(double)fabsl(e)),ck); }; pr("Norm of Pa on grid is",nrm[0],"norm-alpha"); pr("Norm of Pb on grid is",nrm[1],"norm-beta"); pr("Norm of P on grid is",nrm[0]+nrm[1],"norm-total"); for(int s=0;s<2;s++) if(ne[s]) { LD dd=0; for(int a=0;a<ne[s];a++) for(int b=0;b<ne[s];b++) dd+=std::norm(Sg[s](a,b)-(a==b?1.0L:0.0L)); pr(s?"Beta-beta   orbital non-orthonormality":"Alpha-alpha orbital non-orthonormality",sqrtl(dd),"non-orthonormality"); }
    if(o.la<0&&o.ma<0) { H.close(nrm[0],(LD)o.na,2e-2,"electrons-alpha"); H.close(nrm[1],(LD)o.nb,2e-2,"electrons-beta"); } LD a=coshl(x.g.b.back()),R3=ipow(x.g.Rh,3); H.close(vol/(4*rpi<LD>()/3*R3*a*(a*a-1)),1.0L,1e-2,"volume"); });
  H.run("dg.none",[=]{ Run r; exec(r,"diatomic_dgrid",{"--load=absent.chk"}); refused(r,"no-input"); }); }
// completeness and importance profiles
static Mat pinv(const Mat&S){ Eigen::SelfAdjointEigenSolver<Mat> es(S); Mat R=Mat::Zero(S.rows(),S.rows()); for(long i=0;i<S.rows();i++) if(es.eigenvalues()(i)>=1e-6L) R+=es.eigenvectors().col(i)*es.eigenvectors().col(i).transpose()/es.eigenvalues()(i); return R; }
void cpl(){ struct K { int z1,z2; LD Rh; std::vector<double> b; int nn; Ang A; int na,nb,lmax,nexp,probe,ldft; double e0,e1; }; std::vector<K> ks{{1,1,0.7L,{0,1.0,2.6},6,lmset({4,2}),1,1,2,7,0,0,1e-2,1e2},{3,1,1.2L,{0,0.8,1.8,3.0},5,lmset({3,1}),2,1,1,5,1,20,0.1,10},{1,0,0.9L,{0,1.2,2.5},5,{{0,0},{1,0},{2,0},{1,-1},{2,-1}},1,0,1,203,0,0,1e-1,50},{0,6,0.8L,{0,0.7,2.2},5,lmset({3,2}),2,2,2,4,0,0,0.05,30}}; if(H.thorough()) ks.push_back({8,1,0.9L,{0,0.6,1.3,2.8},7,lmset({6,4,2}),3,2,3,405,1,30,1e-2,1e3});
  for(size_t ik=0;ik<ks.size();ik++) H.run(fmt("cp.%zu",ik),[=]{ K k=ks[ik]; auto B=mkb(k.z1,k.z2,k.Rh,4,k.nn,5*k.nn,k.b,k.A); int N=B.Nbf(); DM S=B.overlap(); Eigen::SelfAdjointEigenSolver<DM> es(S); DM X=es.eigenvectors()*es.eigenvalues().cwiseSqrt().cwiseInverse().asDiagonal(); Eigen::HouseholderQR<DM> qr(dense(N,N,3)+3*DM(DM::Identity(N,N))); DM Ca=X*DM(qr.householderQ()); Eigen::HouseholderQR<DM> qb(dense(N,N,8)+2*DM(DM::Identity(N,N))); DM Cb=X*DM(qb.householderQ());
    Run r; mkscratch(r); { Checkpoint c(r.path("in.chk"),true); c.write(B); c.write("Ca",Ca); c.write("Cb",Cb); c.write("nela",k.na); c.write("nelb",k.nb); c.write("Sinvh",X); } Opt o{{"load","in.chk"},{"completeness",I_(k.lmax)},{"minexp",S_(k.e0)},{"maxexp",S_(k.e1)},{"nexp",I_(k.nexp)},{"iprobe",I_(k.probe)}}; if(k.ldft) o["ldft"]=I_(k.ldft); exec(r,"diatomic_cpl",argv(o)); if(!good(r)) return;
    int lm=0; std::set<int> ms; for(auto&a: k.A){ lm=std::max(lm,a.first); ms.insert(a.second); } vh::Quiet quiet; tq::TwoDGrid g(&B,k.ldft?k.ldft:4*lm+12); g.compute_atoms(k.z1,k.z2); Mat Sinv=toLD(X)*toLD(X).transpose(); Mat Cl[2]={toLD(Ca),toLD(Cb)}; int ne[2]={k.na,k.nb}; DV ex(k.nexp); for(int i=0;i<k.nexp;i++) ex(i)=(double)powl(10,log10l(k.e0)+(log10l(k.e1)-log10l(k.e0))*i/(LD)(k.nexp-1)); const char*pl=k.probe?"sto":"gto"; tq::probe_t pr[]={tq::PROBE_LEFT,tq::PROBE_MIDDLE,tq::PROBE_RIGHT}; const char*pn[]={"lh","mid","rh"};
    std::set<std::string> expect; for(int m: ms) { std::vector<DM> mb; int nm=0; for(int s=0;s<2;s++) for(int l=std::abs(m);l<=k.lmax;l++){ DM q=g.atomic_projection(l,m,s?tq::PROBE_RIGHT:tq::PROBE_LEFT); if(q.size()) { mb.push_back(q); nm+=q.rows(); } } Mat Mb=Mat::Zero(nm,N); { int of=0; for(auto&q: mb){ Mb.middleRows(of,q.rows())=toLD(q); of+=q.rows(); } } H.ok(r.out.find(fmt("We have %d minimal basis functions for m = %d\n",nm,m))!=std::string::npos,"minimal-basis-size",fmt("%d for %d",nm,m));
      Mat Sm=Mb*Sinv*Mb.transpose(),Si=nm?pinv(Sm):Mat(0,0); LD p0[2]={0,0}; for(int s=0;s<2;s++) if(ne[s]&&nm) { Mat a=(Mb*Cl[s].leftCols(ne[s])).transpose(); p0[s]=(a*Si*a.transpose()).trace(); auto v=after(r.out,fmt("Projection of m = %d %s orbitals on minimal basis is",m,s?"beta ":"alpha"),1); if(H.ok(v.size()==1,"output","projection")) H.close(v[0],p0[s],1e-6*(1+(double)fabsl(p0[s])),"minimal-projection"); }
      for(int l=std::abs(m);l<=k.lmax;l++) for(int ic=0;ic<3;ic++){ DM Pd=k.probe?g.sto_projection(l,m,ex,pr[ic]):g.gto_projection(l,m,ex,pr[ic]); Mat P=toLD(Pd); auto nmf=[&](const char*w){ return fmt("%s_%s_%s_%d_%d.dat",w,pl,pn[ic],l,m); }; auto tY=table(r.path(nmf("completeness"))),t0=table(r.path(nmf("importance0"))),t1=table(r.path(nmf("importance"))); for(auto w: {"completeness","importance0","importance"}) expect.insert(nmf(w)); if(!H.ok((int)tY.size()==k.nexp&&(int)t0.size()==k.nexp&&(int)t1.size()==k.nexp,"profile-size",nmf(""))) continue;
        for(int i=0;i<k.nexp;i++){ if(!H.ok(tY[i].size()==2&&t0[i].size()==3&&t1[i].size()==3,"profile-columns")) break; Vec q=P.row(i).transpose(); LD Y=q.dot(Sinv*q); for(double e: {tY[i][0],t0[i][0],t1[i][0]}) H.close(e/ex(i),1.0,1e-12,"exponent"); H.close(tY[i][1],Y,1e-10*(1+(double)fabsl(Y)),"completeness"); H.ok(Y<1+1e-6L,"self-projection");
          for(int s=0;s<2;s++){ LD I0=0,I1=0; if(ne[s]) { Vec a=Cl[s].leftCols(ne[s]).transpose()*q; I0=a.squaredNorm(); if(!nm) I1=I0; else { Mat Sp=Mat::Zero(nm+1,nm+1); Sp.topLeftCorner(nm,nm)=Sm; Vec cr=Mb*Sinv*q; Sp.block(0,nm,nm,1)=cr; Sp.block(nm,0,1,nm)=cr.transpose(); Sp(nm,nm)=Y; Eigen::SelfAdjointEigenSolver<Mat> e2(Sp,Eigen::EigenvaluesOnly); bool edge=false; for(long z=0;z<Sp.rows();z++) if(fabsl(e2.eigenvalues()(z)-1e-6L)<1e-9L) edge=true; Mat ap(ne[s],nm+1); ap.leftCols(nm)=(Mb*Cl[s].leftCols(ne[s])).transpose(); ap.col(nm)=a; I1=(ap*pinv(Sp)*ap.transpose()).trace()-p0[s]; if(edge) I1=t1[i][1+s]; } }
            H.close(t0[i][1+s],I0,1e-10*(1+(double)I0),"importance-bare"); H.close(t1[i][1+s],I1,1e-7,"importance"); } } } }
    // no profile of an angular momentum the basis or the request does not have
    if(DIR*d=opendir(r.dir.c_str())) { int extra=0; while(dirent*e=readdir(d)) { std::string n=e->d_name; if(n.size()>4&&n.substr(n.size()-4)==".dat"&&!expect.count(n)) extra++; } closedir(d); H.ok(!extra,"unexpected-profiles",fmt("%d",extra)); } });
  H.run("cp.none",[=]{ Run r; exec(r,"diatomic_cpl",{"--load=absent.chk"}); refused(r,"no-input"); }); }
// core basis search: what it announces as converged is converged
void cbas(){ struct K { const char*z1,*z2; int Z1,Z2; double R; int ang; double Rmax; int grid; double zexp; int nn,f,nq,nadd,thr,im; double Ez,Qzz,Bz,r1,r2; };
  std::vector<K> ks{{"H","H",1,1,1.4,0,10,4,1,5,4,0,2,3,0,0,0,0,0,0},{"He","H",2,1,1.5,0,8,4,1,4,4,0,1,2,0,0,0,0,0,0},{"Li","H",3,1,1.6,1,12,1,1,5,4,15,2,2,0,0,0,0,0,0},{"B","",5,0,2,0,8,4,1,5,4,0,2,1,0,0,0,0,0,0},{"C","N",6,7,2.2,0,10,4,1.2,5,4,0,2,1,1,0,0,0,0,0},{"H","He",1,2,1.4,0,9,2,1,5,4,0,2,2,2,0.05,0,0,0,0},{"H","H",1,1,2,0,8,4,1,6,3,0,2,2,3,0,0.02,0,0,0},{"Li","Li",3,3,3,0,10,4,1,5,4,0,2,1,5,0,0,0,0.02,0.02},{"B","H",5,1,2.3,0,9,4,1,5,4,0,2,2,0,0,0,0.3,0,0},{"He","He",2,2,2,0,8,4,1,5,4,0,3,2,6,0,0,0.1,0.01,0.02}}; if(H.thorough()) { ks.push_back({"N","N",7,7,2,0,15,4,1,8,4,0,2,4,0,0,0,0,0,0}); ks.push_back({"H","H",1,1,1.4,0,20,4,1,8,4,0,2,7,0,0,0,0,0,0}); ks.push_back({"Fe","",26,0,2,0,10,4,1,8,4,0,2,1,2,0,0,0,0,0}); }
  for(size_t ik=0;ik<ks.size();ik++) H.run(fmt("cb.%zu",ik),[=]{ K k=ks[ik]; Opt o{{"Z1",k.z1},{"Z2",k.z2},{"Rbond",S_(k.R)},{"Rmax",S_(k.Rmax)},{"grid",I_(k.grid)},{"zexp",S_(k.zexp)},{"nnodes",I_(k.nn)},{"primbas",I_(k.f)},{"nadd",I_(k.nadd)},{"thresh",I_(k.thr)},{"imodel",I_(k.im)}}; if(k.ang) o["angstrom"]="1"; if(k.nq) o["nquad"]=I_(k.nq); if(k.Ez) o["Ez"]=S_(k.Ez); if(k.Qzz) o["Qzz"]=S_(k.Qzz); if(k.Bz) o["Bz"]=S_(k.Bz); if(k.r1) o["Rrms1"]=S_(k.r1); if(k.r2) o["Rrms2"]=S_(k.r2); Run r; exec(r,"diatomic_cbasis",argv(o)); if(!good(r)) return;
    LD Rb=k.R; if(k.ang) Rb/=0.52917721067L; int nor[4]={0,0,0,0}; const int sz[]={1,3,5,11,13,19,21,31,37,39,49,55,57,71,81,87,89,103,113},sl[]={0,0,1,0,1,0,2,1,0,2,1,0,3,2,1,0,3,2,1}; for(int Z: {k.Z1,k.Z2}) for(int i=0;i<19;i++) if(Z>=sz[i]) for(int m=0;m<=sl[i];m++) nor[m]++; int nm=0; for(int m=0;m<4;m++) if(nor[m]) nm=m+1; vh::Quiet quiet;
    std::map<std::tuple<int,int,int>,LD> memo; auto energy=[&](int nel,int m,int l)->LD{ auto it=memo.find({nel,m,l}); if(it!=memo.end()) return it->second; double Rh=(double)(Rb/2); std::vector<int> lv(m+1,-1); lv[m]=l; Ang A=lmset(lv); DV bv=helfem::atomic::basis::normal_grid(nel,(double)acosh_(k.Rmax/(Rb/2)),k.grid,k.zexp); auto B=mkb(k.Z1,k.Z2,Rh,k.f,k.nn,k.nq?k.nq:5*k.nn,std::vector<double>(bv.data(),bv.data()+bv.size()),A); H.step(); DM V; if(k.im==0) V=B.nuclear(); else { std::unique_ptr<mp::ModelPotential> p1,p2; auto mkp=[&](int Z,double rr)->mp::ModelPotential*{ switch(k.im){ case 1: return new mp::GSZAtom(Z); case 2: return new mp::SAPAtom(Z); case 3: return new mp::TFAtom(Z); default: return mp::get_nuclear_model((mp::nuclear_model_t)(k.im-4),Z,rr); } }; p1.reset(mkp(k.Z1,k.r1)); p2.reset(mkp(k.Z2,k.r2)); tq::TwoDGrid g(&B,4*l+12); V=g.model_potential(p1.get(),p2.get()); }
      DM S=B.overlap(),Hm=B.kinetic()+V; if(k.Ez) Hm+=k.Ez*B.dipole_z(); if(k.Qzz) Hm+=k.Qzz/3*B.quadrupole_zz(); if(k.Bz) Hm+=B.Bz_field(k.Bz)-0.5*k.Bz*S; int n=std::min<int>(nor[m],S.rows()); Eigen::GeneralizedSelfAdjointEigenSolver<DM> es(Hm,S,Eigen::EigenvaluesOnly); LD s=0; for(int i=0;i<n;i++) s+=es.eigenvalues()(i); return memo[{nel,m,l}]=s; };
    size_t p=0; int ib=0; int pn=0; std::vector<int> pl(4,-1); while((p=r.out.find("An estimated accuracy of",p))!=std::string::npos){ auto tv=after(r.out,"accuracy of",1,p); double thr=pow(10,-ib); if(!H.ok(tv.size()==1&&ib<=k.thr,"blocks")) return; H.close(tv[0]/thr,1.0,1e-6,"threshold"); size_t e=r.out.find("--Z1=",p); std::string line=r.out.substr(e,r.out.find('\n',e)-e); auto num=[&](const char*w){ auto v=after(line,w,1); return v.size()?v[0]:-1e99; }; H.ok(line.find(fmt("--Z1=%s --Z2=%s ",k.z1,k.z2))==0,"echo-atoms",line); H.close(num("--Rbond="),k.R,1e-6*k.R,"echo-R"); H.ok(num("--angstrom=")==k.ang&&num("--grid=")==k.grid&&num("--primbas=")==k.f&&num("--nnodes=")==k.nn,"echo",line); H.close(num("--zexp="),k.zexp,1e-6*k.zexp,"echo-zexp"); H.close(num("--Rmax="),k.Rmax,1e-6*k.Rmax,"echo-Rmax");
      int nel=(int)num("--nelem="); auto ls=after(line,"--lmax=",9); if(!H.ok((int)ls.size()==nm&&nel>=1,"channels",line)) return; H.ok(nel>=pn,"elements-shrink"); pn=nel; for(int m=0;m<nm;m++){ int l=(int)ls[m]; H.ok(l>=m&&l>=pl[m]&&(m+1==nm||l>=(int)ls[m+1]||pl[m]>=0),"partial-waves",line); pl[m]=l; LD E=energy(nel,m,l),sl2=1e-8L+1e-10L*fabsl(E); H.ok(energy(nel,m,l+k.nadd)-E>-(LD)thr-sl2,"partial-waves-converged",fmt("thr %g m=%d l=%d nel=%d: %Lg",thr,m,l,nel,energy(nel,m,l+k.nadd)-E)); H.ok(energy(nel+k.nadd,m,l)-E>-(LD)thr-sl2,"elements-converged",fmt("thr %g m=%d l=%d nel=%d: %Lg",thr,m,l,nel,energy(nel+k.nadd,m,l)-E)); } ib++; p=e; }
    H.ok(ib==k.thr+1,"blocks",fmt("%d of %d",ib,k.thr+1)); });
  H.run("cb.model",[=]{ Run r; exec(r,"diatomic_cbasis",argv({{"Z1","H"},{"Z2","H"},{"Rbond","1.4"},{"nnodes","4"},{"thresh","0"},{"imodel",I_(4+mp::NOSUCH_NUCLEUS)}})); refused(r,"unknown-model"); }); }
// the atomic table
void dump(){ H.run("dump",[=]{ Run r; exec(r,"atomdb_dump",{}); if(!good(r)) return; auto t=table(r.path("stdout.txt")); namespace ad=helfem::atomdb; const ad::Atom pa(1); std::vector<double> R{0},W{0}; for(size_t e=0;e<pa.basis().Nel();e++){ DV a=pa.basis().get_r(e),b=pa.basis().get_wrad(e); for(long i=0;i<a.size();i++){ R.push_back(a(i)); W.push_back(b(i)); } } size_t n=R.size(); if(!H.ok(t.size()==n*ad::max_Z(),"dump-rows",fmt("%zu of %zu",t.size(),n*ad::max_Z()))) return;
    for(int Z=1;Z<=ad::max_Z();Z++){ const ad::Atom a(Z); LD q=0; for(size_t i=0;i<n;i++){ auto&l=t[(Z-1)*n+i]; if(!H.ok(l.size()==5&&l[0]==Z,"dump-columns")) return; double z=a.effective_charge(R[i],XC_LDA_X,0),d=4*M_PI*a.density(R[i]); H.ok(l[1]==R[i]&&l[4]==W[i],"dump-grid"); H.close(l[2],z,1e-12*(1+fabs(z)),"dump-charge"); H.close(l[3],d,1e-12*(1+fabs(d)),"dump-density"); q+=(LD)l[4]*l[1]*l[1]*l[3]; } H.close(q,a.nelectrons(),1e-6,"dump-electrons"); } }); }
void explore(){ helfem::verbose=false; oned(); atom1(); diat1(); dline(); dgrid(); cpl(); cbas(); dump(); }
VH_MAIN
