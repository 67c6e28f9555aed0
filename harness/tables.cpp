// C24: what HelFEM generates and hands to the outside - generated shape-function code, the
// generated atomic tables, and the Python interface - carries the library's data unchanged.
// The generators of the tree are run as they are; what they write is compiled and evaluated.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <ModelPotential.h>
#include <helfem.h>
#include <fstream>
#include <memory>
#include <dlfcn.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "general/checkpoint.h"
#include "atomic/basis.h"
#include "atomic/TwoDBasis.h"
#include "general/atomdb.h"
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#ifndef VERIF_DIR
#define VERIF_DIR "/verif"
#define VERIF_REPO "/repo"
#define VERIF_INC "/verif/build/inc"
#define VERIF_CXX "g++-14"
#endif
using namespace ref; namespace pb=helfem::polynomial_basis; namespace mp=helfem::modelpotential; namespace py=pybind11;
typedef helfem::Matrix DM; typedef helfem::Vector DV;
static const double EPS=2.220446049250313e-16;
// ---------------------------------------------------------------- files and processes
static std::string slurp(const std::string&f){ std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static void spit(const std::string&f,const std::string&s){ std::ofstream o(f,std::ios::binary); o<<s; }
struct Dir { std::string d; Dir(){ char t[]="tab_XXXXXX"; if(!mkdtemp(t)) throw std::runtime_error("mkdtemp"); char b[4096]; if(!getcwd(b,sizeof b)) throw std::runtime_error("getcwd"); d=std::string(b)+"/"+t; }
  ~Dir(){ pid_t p=fork(); if(p==0) { execlp("find","find",d.c_str(),"-delete",(char*)NULL); _exit(127); } int st; waitpid(p,&st,0); }
  std::string operator/(const std::string&f) const { return d+"/"+f; } };
struct Ran { int rc=-1,sig=0; std::string out,err; bool good() const { return rc==0&&!sig; } };
static Ran sh(const Dir&w,const std::vector<std::string>&a,const std::string&in="/dev/null"){
  Ran r; static int n=0; n++; std::string so=w/fmt("o%d",n),se=w/fmt("e%d",n); fflush(NULL);
  pid_t p=fork(); if(p<0) throw std::runtime_error("fork");
  if(p==0) { if(chdir(w.d.c_str())) _exit(126); int i=open(in.c_str(),O_RDONLY),o=open(so.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644),e=open(se.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); dup2(i,0); dup2(o,1); dup2(e,2); alarm(200);
    setenv("PYTHONDONTWRITEBYTECODE","1",1); setenv("PYTHONPATH",VERIF_DIR "/shims/py",1);
    std::vector<char*> v; for(auto&x: a) v.push_back((char*)x.c_str()); v.push_back(NULL); execvp(v[0],v.data()); _exit(127); }
  int st=0; waitpid(p,&st,0); if(WIFEXITED(st)) r.rc=WEXITSTATUS(st); else r.sig=WTERMSIG(st); r.out=slurp(so); r.err=slurp(se); H.step(); return r; }
static std::string python(){ static std::string p=access("/opt/veriftools/pyvenv/bin/python3",X_OK)==0?"/opt/veriftools/pyvenv/bin/python3":"python3-vt"; return p; }
static std::string self(){ char ex[4096]; ssize_t k=readlink("/proc/self/exe",ex,sizeof ex-1); if(k<0) throw std::runtime_error("readlink"); ex[k]=0; std::string e(ex); return e.substr(0,e.rfind('/')); }
static bool good(const Ran&r,const char*what){ return H.ok(r.good(),what,fmt("exit %d signal %d: ",r.rc,r.sig)+r.err.substr(0,400)); }
static bool refused(const Ran&r,const char*what){ return H.ok(!r.sig&&r.rc!=0&&r.rc!=127&&r.rc!=126,what,fmt("exit %d signal %d",r.rc,r.sig)); }
static std::vector<std::string> cxx(std::vector<std::string> inc,const std::string&src,const std::string&out,const char*opt="-O1"){
  std::vector<std::string> a={VERIF_CXX,"-w","-std=gnu++20",opt,"-fPIC","-shared"}; for(auto&i: inc) a.push_back("-I"+i);
  for(const char*i: {VERIF_DIR "/shims",VERIF_INC,VERIF_REPO "/libhelfem/include",VERIF_REPO "/libhelfemqc/include",VERIF_REPO "/src",VERIF_REPO "/src/general"}) a.push_back(std::string("-I")+i);
  for(const char*i: {"-isystem","/usr/include/eigen3"}) a.push_back(i); a.push_back(src); a.push_back("-o"); a.push_back(out); return a; }
struct Lib { void*h; Lib(const std::string&f){ h=dlopen(f.c_str(),RTLD_NOW|RTLD_LOCAL); if(!h) throw std::runtime_error(dlerror()); } ~Lib(){ dlclose(h); }
  template<class T> T*get(const char*n){ void*p=dlsym(h,n); if(!p) throw std::runtime_error(std::string("no symbol ")+n); return (T*)p; } };
// ---------------------------------------------------------------- generated shape functions
// One order of the family from the generators, compiled, evaluated on the cross product of
// node sets x derivative orders x points x scales.
static void shapes(int order,int maxd,int maxdr){
  H.run(fmt("shapes.order%d.d%d.r%d",order,maxd,maxdr),[=]{
    Dir w; std::string g=VERIF_REPO "/libhelfem/src/"; std::string tag=order==1?"hip":fmt("hip%d",order), cls=order==1?"HIPBasis":fmt("HIP%dBasis",order);
    Ran r=sh(w,{python(),g+"generate_lip_code.py"}); if(!good(r,"generator")) return; spit(w/"LIPBasis_eval.h",r.out);
    if(order>0) { r=sh(w,{python(),g+"generate_hip_family_code.py","--order",fmt("%d",order),"--maxderiv",fmt("%d",maxd)}); if(!good(r,"generator")) return; spit(w/(cls+"_eval.h"),r.out);
      r=sh(w,{python(),g+"generate_hip_family_code.py","--order",fmt("%d",order),"--maxderiv",fmt("%d",maxdr),"--over-r"}); if(!good(r,"generator")) return; spit(w/(cls+"_over_r.h"),r.out); }
    std::string lx,lxd; for(int k=1;k<=order;k++) { lx+=fmt(",q[%d]",k-1); }
    std::string c="#include <LIPBasis_eval.h>\n"; if(order) c+="#include <"+cls+"_eval.h>\n#include <"+cls+"_over_r.h>\n";
    c+="typedef long double T; using namespace helfem; namespace D=helfem::polynomial_basis::detail;\n"
       "extern \"C\" long shp(int over,const T*x_,long nx,const T*n_,long nn,int n,T e,const int*en_,long ne,T*out,long nout){ try { Vec<T> x=Eigen::Map<const Vec<T>>(x_,nx), x0=Eigen::Map<const Vec<T>>(n_,nn); Mat<T> m; std::vector<Vec<T>> q;\n"
       + fmt(" for(int k=1;k<=%d;k++) { Mat<T> d; D::eval_lip_prim_dnf<T>(x0,x0,d,k); q.push_back(d.diagonal()); }\n",order);
    if(order) c+=" if(over) { IVec en(ne); for(long i=0;i<ne;i++) en(i)=en_[i]; D::eval_"+tag+"_prim_over_r<T>(x,x0"+lx+",en,m,n,e); } else D::eval_"+tag+"_prim_dnf<T>(x,x0"+lx+",m,n,e);\n";
    else c+=" D::eval_lip_prim_dnf<T>(x,x0,m,n);\n";
    c+=" if(m.size()>nout) return -2; for(long i=0;i<m.size();i++) out[i]=m.data()[i]; return m.cols(); } catch(const std::logic_error&) { return -1; } }\n";
    spit(w/"gen.cpp","#include <vector>\n#include <cmath>\n"+c); r=sh(w,cxx({w.d},w/"gen.cpp",w/"gen.so","-O0")); if(!good(r,"generated-code-compiles")) return;
    Lib L(w/"gen.so"); auto f=L.get<long(int,const LD*,long,const LD*,long,int,LD,const int*,long,LD*,long)>("shp");
    static const int pbid[]={4,5,8,9}; LD eps=1.1e-19L;
    std::vector<std::vector<Q>> nodes; int mx=order==0?7:order==1?7:order==2?6:order==3?4:3; for(int nn=2;nn<=mx;nn++) nodes.push_back(Prim<Q>(4,nn).x0); nodes.push_back({Q(-1),Q(-0.25),Q(1)}); if(mx>3) nodes.push_back({Q(-1),Q(-0.75),Q(0.375),Q(1)});
    for(auto&x0: nodes) { Prim<Q> R; R.pb=order<4?pbid[order]:9; R.nn=x0.size(); R.p=order; R.x0=x0; R.setup(); int nn=x0.size(),np=nn*(order+1);
      std::vector<LD> x,n0; for(auto v: x0) n0.push_back((LD)v); for(int i=0;i<nn;i++) { x.push_back(n0[i]); if(i+1<nn) { x.push_back((n0[i]+n0[i+1])/2); x.push_back(n0[i]+(n0[i+1]-n0[i])*0.13L); } } x.push_back(-1+1e-9L); x.push_back(1-1e-9L); long nx=x.size();
      for(LD e: {1.0L,0.5L,3.75L}) for(int over=0;over<(order?2:1);over++) for(int n=0;n<=(over?maxdr:std::min(maxd,R.degree()+1));n++) {
        std::vector<int> en; for(int i=over?1:0;i<np;i++) en.push_back(i);
        std::vector<LD> out(nx*np); long nc=f(over,x.data(),nx,n0.data(),nn,n,order?e:1.0L,en.data(),en.size(),out.data(),out.size()); H.step();
        if(!H.ok(nc==(over?(long)en.size():np),"generated-size",fmt("%ld columns",nc))) continue;
        std::vector<std::vector<Q>> rv; Q sc=0; LD ee=order?e:1; for(auto v: x) { rv.push_back(over?R.over_r((Q)v,n,(Q)ee):R.deriv((Q)v,n,(Q)ee)); if(!over) for(auto&z: rv.back()) z*=std::pow(ee,n); /* the kernel differentiates in the primitive coordinate */ for(int k: en) if(rabs(rv.back()[k])>sc) sc=rabs(rv.back()[k]); }
        double tol=((double)sc+(over?1/std::pow((double)ee,n+1):1.0))*eps*2e4*(n+1)*nn; if(n>R.degree()) { Q s2=0; for(int k=0;k<=R.degree();k++) for(auto v: R.deriv(Q(1),k,(Q)ee)) if(rabs(v)>s2) s2=rabs(v); tol=std::max(tol,(double)(s2*eps*1e5*std::pow(10.0,n))); }
        for(long i=0;i<nx;i++) for(size_t k=0;k<en.size();k++) H.close(out[i+k*nx],(LD)rv[i][en[k]],tol,over?"generated-over-r":"generated-shape",fmt("nn=%d n=%d e=%Lg x=%.17Lg fn=%d",nn,n,e,x[i],en[k])); }
      // beyond the requested order it refuses, as it does without the dropped value function
      std::vector<LD> out(nx*np); std::vector<int> all; for(int i=0;i<np;i++) all.push_back(i);
      H.ok(f(0,x.data(),nx,n0.data(),nn,order?maxd+1:21,1.0L,all.data(),np,out.data(),out.size())==-1,"generated-order-refused");
      H.ok(f(0,x.data(),nx,n0.data(),nn,-1,1.0L,all.data(),np,out.data(),out.size())==-1,"generated-order-refused");
      if(order) { H.ok(f(1,x.data(),nx,n0.data(),nn,maxdr+1,1.0L,all.data()+1,np-1,out.data(),out.size())==-1,"generated-order-refused"); H.ok(f(1,x.data(),nx,n0.data(),nn,0,1.0L,all.data(),np,out.data(),out.size())==-1,"generated-over-r-refused"); H.ok(f(1,x.data(),nx,n0.data(),nn,0,1.0L,all.data(),0,out.data(),out.size())==-1,"generated-over-r-refused"); } }
  }); }
// ---------------------------------------------------------------- the atomic wave function table
static LD prn(int i){ unsigned h=2654435761u*(unsigned)(i+1); h^=h>>13; h*=0x5bd1e995u; h^=h>>15; return (LD)h/4294967296.0L; }
struct Rec { int lmax=3,nn=5,pbid=4,nq=40; std::vector<double> b{0.0,0.7,2.0,6.0}; std::vector<DM> C; std::vector<DM> o; };
static void store(const std::string&f,int Z,const Rec&r){ vh::Quiet q; Checkpoint c(f,true); c.write("sadatom_Z",Z); c.write("sadatom_lmax",r.lmax); c.write("sadatom_primbas",r.pbid); c.write("sadatom_nnodes",r.nn); c.write("sadatom_Nquad",r.nq);
  DV b(r.b.size()); for(size_t i=0;i<r.b.size();i++) b(i)=r.b[i]; c.write("sadatom_bval",b); for(int l=0;l<=r.lmax;l++) { c.write(fmt("sadatom_Cal_%d",l),r.C[l]); c.write(fmt("sadatom_occal_%d",l),r.o[l]); } }
// pattern: number of orbitals and occupations of each (Z,l)
static Rec record(int pat,int Z,double cut){ Rec r; int nbf=(r.b.size()-1)*(r.nn-1)-1; for(int l=0;l<=3;l++) { int n= pat==0? (l==0||Z>2*l)?1:0 : pat==1? (Z*(l+2)+l)%4+(l==0) : (Z+l)%3+(l==0); DM C(nbf,n),o(n,1);
    for(int k=0;k<n;k++) { for(int i=0;i<nbf;i++) C(i,k)=(double)(2*prn(((Z*5+l)*7+k)*97+i)-1); double v=(double)(1+prn(Z*31+l*7+k)); 
      if(pat==2&&k==1) v= Z%4==0?cut: Z%4==1?cut/2: Z%4==2?cut*(1+1e-15)*2:0.0; o(k,0)=v; } r.C.push_back(C); r.o.push_back(o); } return r; }
static const char*GEN=VERIF_REPO "/tools/gen_atomdb.py";
// compile the table and compare every number of it with what was put in
static void compare(const Dir&w,const std::vector<Rec>&rec,double cut){
  Ran r=sh(w,cxx({},w/"atomdb_data.cpp",w/"table.so","-O0")); if(!good(r,"table-compiles")) return; Lib L(w/"table.so");
#define SYM(n,l) "_ZN6helfem6atomdb4data" #l #n "E"
  const Rec&r0=rec[0]; int nbf=r0.C[0].rows();
  H.ok(*L.get<const int>(SYM(max_Z,5))==118,"table-max_Z"); H.ok(*L.get<const int>(SYM(lmax,4))==r0.lmax,"table-lmax"); H.ok(*L.get<const int>(SYM(Nbf,3))==nbf,"table-Nbf"); H.ok(*L.get<const int>(SYM(nelem,5))==(int)r0.b.size()-1,"table-nelem");
  H.ok(*L.get<const int>(SYM(nnodes,6))==r0.nn,"table-nnodes"); H.ok(*L.get<const int>(SYM(primbas,7))==r0.pbid,"table-primbas"); H.ok(*L.get<const int>(SYM(nquad,5))==r0.nq,"table-nquad");
  const double*b=L.get<const double>(SYM(bval,4)),*oc=L.get<const double>(SYM(occupations,11)),*co=L.get<const double>(SYM(coefficients,12)); for(size_t i=0;i<r0.b.size();i++) H.close(b[i],r0.b[i],1e-300,"table-bval");
  const int (*no)[4]=L.get<const int[4]>(SYM(norb,4)),(*of)[4]=L.get<const int[4]>(SYM(offset,6)); long run=0;
  for(int Z=1;Z<=118;Z++) { const Rec&q=rec[Z-1]; for(int l=0;l<=q.lmax;l++) { int n=0; for(int k=0;k<q.o[l].rows();k++) if(q.o[l](k,0)>cut) { 
        if(n<no[Z-1][l]) { long at=of[Z-1][l]+n; H.close(oc[at],q.o[l](k,0),1e-300,"table-occupation",fmt("Z=%d l=%d k=%d",Z,l,k)); for(int i=0;i<nbf;i++) H.close(co[at*nbf+i],q.C[l](i,k),1e-300,"table-coefficient",fmt("Z=%d l=%d k=%d i=%d",Z,l,k,i)); } n++; }
      H.ok(no[Z-1][l]==n,"table-norb",fmt("Z=%d l=%d %d, %d occupied above the cutoff",Z,l,no[Z-1][l],n)); H.ok(of[Z-1][l]==run,"table-offset",fmt("Z=%d l=%d %d",Z,l,of[Z-1][l])); run+=n; } }
  H.ok(*L.get<const int>(SYM(norbital,8))==run,"table-norbital"); H.outcome((double)run); }
static void table(int pat,const char*cutarg,double cut,const std::string&mode,int where){
  H.run(fmt("table.p%d.cut%s.%s%d",pat,*cutarg?cutarg:"default",mode.c_str(),where),[=]{
    Dir w; std::vector<Rec> rec; for(int Z=1;Z<=118;Z++) { Rec r=record(pat,Z,cut>0?cut:1e-14);
      if(Z==where) { if(mode=="bval") r.b[1]+=1e-12; if(mode=="primbas") r.pbid=5; if(mode=="nquad") r.nq++; if(mode=="nnodes") { r.nn=6; } if(mode=="longer") { r.b.push_back(9.0); } 
        if(mode=="ragged") { DM o(r.o[0].rows()+1,1); o.setOnes(); r.o[0]=o; }
        if(mode=="lost") { DM C(r.C[1].rows(),r.C[1].cols()+1),o(r.o[1].rows()+1,1); C.setOnes(); o.setOnes(); for(int k=0;k<r.o[1].rows();k++) { C.col(k)=r.C[1].col(k); o(k,0)=r.o[1](k,0); } o(r.o[1].rows(),0)=cut*0.9; r.C[1]=C; r.o[1]=o; } }
      rec.push_back(r); if(!(mode=="absent"&&Z==where)) store(w/fmt("wf_Z%d.chk",Z),Z,r); }
    std::vector<std::string> a={python(),GEN,w.d,w/"atomdb_data.cpp"}; if(*cutarg) a.push_back(cutarg);
    Ran r=sh(w,a); if(mode=="good") { if(good(r,"gen_atomdb")) compare(w,rec,cut); }
    else { refused(r,"gen_atomdb-refuses"); H.ok(access((w/"atomdb_data.cpp").c_str(),F_OK)!=0,"gen_atomdb-refuses","a table was written all the same"); }
  }); }
// ---------------------------------------------------------------- tables of the effective charge
// rows "Z r Zeff rho w" -> sap.cpp and sap_data.py
static void sap(int nelem,int nrad,const std::string&mode){
  H.run(fmt("sap.Z%d.r%d.%s",nelem,nrad,mode.c_str()),[=]{
    Dir w; std::vector<double> r; for(int i=0;i<nrad;i++) r.push_back(i?(double)(7.0L*i/nrad*(1+prn(i)/nrad)):0.0);
    // values that are not exactly representable in the 15 printed digits of the table
    auto ze=[&](int Z,int i){ return mode=="linear"?Z*0.75-r[i]*Z/16:(double)(Z*std::exp(-(LD)r[i])+prn(Z*1000+i)*1e-3L-(i==nrad-1?2e-13L:0)); };
    std::string in; if(mode=="header") in+="# comment\n\n"; for(int Z=1;Z<=nelem;Z++) for(int i=0;i<nrad;i++) { if(mode=="ragged"&&Z==nelem&&i==nrad-1) continue; double rr=r[i]; if(mode=="grid"&&Z==nelem&&i==1) rr=r[i]*(1+1e-12); in+=fmt("%d %.17e %.17e %.17e %.17e\n",Z,rr,ze(Z,i),1.0,2.0); }
    spit(w/"in.dat",in); std::string src=slurp(VERIF_REPO "/src/general/sap.cpp"); spit(w/"sap.cpp",src);
    Ran g=sh(w,{python(),VERIF_REPO "/tools/gen_sap_table.py",w/"sap.cpp"},w/"in.dat"), q=sh(w,{python(),VERIF_REPO "/tools/gen_sap_pyscf.py",w/"sap_data.py"},w/"in.dat");
    if(mode=="ragged"||mode=="grid") { refused(g,"gen_sap_table-refuses"); refused(q,"gen_sap_pyscf-refuses"); H.ok(slurp(w/"sap.cpp")==src,"gen_sap_table-refuses","sap.cpp was changed all the same"); H.ok(access((w/"sap_data.py").c_str(),F_OK)!=0,"gen_sap_pyscf-refuses"); return; }
    if(!good(g,"gen_sap_table")|!good(q,"gen_sap_pyscf")) return;
    if(mode=="twice") { g=sh(w,{python(),VERIF_REPO "/tools/gen_sap_table.py",w/"sap.cpp"},w/"in.dat"); if(!good(g,"gen_sap_table")) return; }
    Ran c=sh(w,cxx({},w/"sap.cpp",w/"sap.so","-O0")); if(!good(c,"sap-compiles")) return; Lib L(w/"sap.so");
    auto f=L.get<double(int,double)>("_Z20sap_effective_chargeid"); auto cr=L.get<double()>("_Z17sap_cutoff_radiusv");
    auto prt=[](double v){ return strtod(fmt("%.14e",v).c_str(),NULL); };
    H.close(cr(),prt(r.back()),1e-300,"sap-cutoff");
    for(int Z=1;Z<=nelem;Z++) { for(int i=0;i<nrad;i++) { H.close(f(Z,prt(r[i])),prt(ze(Z,i)),1e-300,"sap-table",fmt("Z=%d i=%d",Z,i)); H.step();
        if(i+1<nrad) { double a=prt(r[i]),b=prt(r[i+1]),x=a+0.375*(b-a); LD lin=((b-(LD)x)*prt(ze(Z,i))+((LD)x-a)*prt(ze(Z,i+1)))/((LD)b-a); double lo=std::min(ze(Z,i),ze(Z,i+1)),hi=std::max(ze(Z,i),ze(Z,i+1));
          if(mode=="linear") H.close(f(Z,x),Z*0.75-x*Z/16,2e-12*Z,"sap-between",fmt("Z=%d i=%d",Z,i)); else H.close(f(Z,x),lin,(hi-lo)*2+1e-12*Z,"sap-between",fmt("Z=%d i=%d",Z,i)); } }
      H.close(f(Z,r.back()+1),prt(ze(Z,nrad-1)),1e-300,"sap-beyond"); }
    H.ok(f(0,1.0)==0.0&&f(-1,1.0)==0.0&&f(nelem+1,1.0)==0.0,"sap-range");
    // and the Python table
    Ran p=sh(w,{python(),"-c","import runpy; t=runpy.run_path('sap_data.py')['sap_Zeff']; print(*t.shape)\nfor row in t: print(*[float(v).hex() for v in row])"}); if(!good(p,"sap_data-loads")) return;
    std::istringstream s(p.out); int n1,n2; s>>n1>>n2; if(!H.ok(n1==nelem+1&&n2==nrad,"sap_data-shape",fmt("%d x %d",n1,n2))) return;
    for(int Z=0;Z<=nelem;Z++) for(int i=0;i<nrad;i++) { std::string t; s>>t; H.close(strtod(t.c_str(),NULL),prt(Z?ze(Z,i):r[i]),1e-300,"sap_data",fmt("Z=%d i=%d",Z,i)); }
  }); }
// ---------------------------------------------------------------- the whole pipeline
// gensap saves its wave functions, gen_atomdb.py tabulates them, a program linked with the table
// evaluates them, and gen_sap_table.py turns its output into sap.cpp.
static void pipeline(int fam,int nn,int nel){
  H.run(fmt("pipeline.f%d.nn%d.el%d",fam,nn,nel),[=]{ const int NZ=3; Dir w; std::vector<Rec> rec;
    for(int Z=1;Z<=NZ;Z++) { Ran r=sh(w,{self()+"/t_gensap",fmt("--Z=%d",Z),"--method=lda_x","--M=0","--lmax=3",fmt("--primbas=%d",fam),fmt("--nnodes=%d",nn),fmt("--nelem=%d",nel),"--Rmax=12",fmt("--save=wf_Z%d.chk",Z)}); if(!good(r,"gensap")) return; 
      Rec q; { vh::Quiet z; Checkpoint c(w/fmt("wf_Z%d.chk",Z),false); DV b; c.read("sadatom_bval",b); q.b.assign(b.data(),b.data()+b.size()); c.read("sadatom_lmax",q.lmax); c.read("sadatom_primbas",q.pbid); c.read("sadatom_nnodes",q.nn); c.read("sadatom_Nquad",q.nq); for(int l=0;l<=q.lmax;l++) { DM C,o; c.read(fmt("sadatom_Cal_%d",l),C); c.read(fmt("sadatom_occal_%d",l),o); q.C.push_back(C); q.o.push_back(o); } } rec.push_back(q);
      double N=0; for(auto&o: q.o) N+=o.sum(); H.close(N,(double)Z,1e-11,"saved-electrons",fmt("Z=%d",Z)); H.ok(q.lmax==3&&q.pbid==fam&&q.nn==nn&&(int)q.b.size()==nel+1,"saved-basis"); }
    for(int Z=NZ+1;Z<=118;Z++) { rec.push_back(rec[(Z-1)%NZ]); if(link((w/fmt("wf_Z%d.chk",(Z-1)%NZ+1)).c_str(),(w/fmt("wf_Z%d.chk",Z)).c_str())) throw std::runtime_error("link"); }
    Ran r=sh(w,{python(),GEN,w.d,w/"atomdb_data.cpp"}); if(!good(r,"gen_atomdb")) return; compare(w,rec,1e-14);
    // the dump program with this table in place of the stand-in
    std::string bd=self(); std::vector<std::string> a=cxx({},w/"atomdb_data.cpp",w/"data.o","-O0"); for(auto&x: a) if(x=="-shared") x="-c"; r=sh(w,a); if(!good(r,"table-compiles")) return;
    r=sh(w,{VERIF_CXX,"-fopenmp","-o",w/"dump",bd+"/obj/prog_atomdb_dump.o",w/"data.o",bd+"/lib_tables.a","-lxc","-lquadmath","-L/usr/lib/x86_64-linux-gnu/hdf5/serial","-lhdf5"}); if(!good(r,"dump-links")) return;
    r=sh(w,{w/"dump"}); if(!good(r,"dump")) return; spit(w/"in.dat",r.out);
    std::istringstream s(r.out); std::string line; std::map<int,std::vector<std::array<double,4>>> t; while(std::getline(s,line)) { int Z; std::array<double,4> v; if(sscanf(line.c_str(),"%d %lf %lf %lf %lf",&Z,&v[0],&v[1],&v[2],&v[3])==5) t[Z].push_back(v); }
    if(!H.ok(t.size()==118,"dump-elements",fmt("%zu",t.size()))) return;
    // the density is that of the orbitals gensap saved
    std::vector<LD> bl(rec[0].b.begin(),rec[0].b.end());
    FE F(fam,nn,bl,true,false,true,false);
    for(int Z=1;Z<=118;Z++) { const Rec&q=rec[Z-1]; if(!H.ok((int)q.C[0].rows()==F.nbf,"saved-size",fmt("%d vs %d",(int)q.C[0].rows(),F.nbf))) return; LD N=0; double qn=0; for(auto&o: q.o) qn+=o.sum();
      for(auto&v: t[Z]) { N+=(LD)v[3]*v[0]*v[0]*v[1+1]; if(v[0]==0) { H.close(v[1],(double)Z,1e-8*Z,"dump-Zeff-origin",fmt("Z=%d",Z)); continue; } if(Z>NZ&&Z%17) continue;
        size_t iel=0; while(iel+2<bl.size()&&bl[iel+1]<v[0]) iel++; LD e=(bl[iel+1]-bl[iel])/2,x=(v[0]-(bl[iel+1]+bl[iel])/2)/e; auto p=F.pr.deriv(x,0,e); LD rho=0;
        for(int l=0;l<=3;l++) for(int k=0;k<q.o[l].rows();k++) if(q.o[l](k,0)>1e-14) { LD u=0; for(size_t j=0;j<F.en[iel].size();j++) u+=p[F.en[iel][j]]*q.C[l](F.gl[iel][j],k); rho+=q.o[l](k,0)*u*u; }
        rho/=(LD)v[0]*v[0]; H.close(v[2],rho,1e-8*(double)(1+std::fabs(rho)),"dump-density",fmt("Z=%d r=%g",Z,v[0])); }
      H.close((double)N,qn,1e-7*qn,"dump-electrons",fmt("Z=%d",Z)); }
    spit(w/"sap.cpp",slurp(VERIF_REPO "/src/general/sap.cpp")); r=sh(w,{python(),VERIF_REPO "/tools/gen_sap_table.py",w/"sap.cpp"},w/"in.dat"); if(!good(r,"gen_sap_table")) return;
    r=sh(w,cxx({},w/"sap.cpp",w/"sap.so","-O0")); if(!good(r,"sap-compiles")) return; Lib L(w/"sap.so"); auto f=L.get<double(int,double)>("_Z20sap_effective_chargeid");
    for(int Z=1;Z<=118;Z++) for(auto&v: t[Z]) H.close(f(Z,strtod(fmt("%.14e",v[0]).c_str(),NULL)),strtod(fmt("%.14e",v[1]).c_str(),NULL),1e-300,"sap-table",fmt("Z=%d r=%g",Z,v[0]));
  }); }
// ---------------------------------------------------------------- the Python interface
void verif_py_module(py::module_&m);
typedef py::array_t<double> Arr; typedef py::array_t<double,py::array::c_style|py::array::forcecast> Arg;
namespace helfem_py { class AtomicBasis; }
typedef helfem_py::AtomicBasis AB;
static py::Class&cls(){ static py::module_ m; static bool d=false; if(!d) { verif_py_module(m); d=true; } return m.classes.at("AtomicBasis"); }
static const py::Function&fn(const char*n){ auto&c=cls(); auto i=c.defs.find(n); if(i==c.defs.end()) throw std::runtime_error(std::string("not exported: ")+n); return i->second; }
typedef std::function<std::shared_ptr<AB>(int,int,int,int,int,int,double,int,double,int,double)> Ctor;
static std::shared_ptr<AB> create(const std::vector<std::any>&v){ auto&f=fn("__init__"); H.step(); auto*c=std::any_cast<Ctor>(&f.fn); if(!c) throw std::runtime_error("constructor signature"); vh::Quiet q;
  return (*c)(py::pick<int>(f,0,v),py::pick<int>(f,1,v),py::pick<int>(f,2,v),py::pick<int>(f,3,v),py::pick<int>(f,4,v),py::pick<int>(f,5,v),py::pick<double>(f,6,v),py::pick<int>(f,7,v),py::pick<double>(f,8,v),py::pick<int>(f,9,v),py::pick<double>(f,10,v)); }
template<class R,class...A> static R call(AB&o,const char*n,A...a){ auto*c=std::any_cast<std::function<R(AB&,A...)>>(&fn(n).fn); if(!c) throw std::runtime_error(std::string("signature of ")+n); H.step(); return (*c)(o,a...); }
static DM mat(const Arr&a){ if(a.ndim()!=2) throw std::runtime_error("not two-dimensional"); DM m(a.shape(0),a.shape(1)); for(long i=0;i<m.rows();i++) for(long j=0;j<m.cols();j++) m(i,j)=a.data()[i*m.cols()+j]; return m; }
static Arg arr(const DM&m){ Arg a(std::vector<py::ssize_t>{m.rows(),m.cols()}); for(long i=0;i<m.rows();i++) for(long j=0;j<m.cols();j++) a.mutable_data()[i*m.cols()+j]=m(i,j); return a; }
struct PB { int Z,lmax,mmax,pbid,nn,nel; double Rmax; int igrid; double zexp; int fin; double rms; };
static std::shared_ptr<helfem::atomic::basis::TwoDBasis> direct(const PB&p,int nquad){ vh::Quiet q; std::shared_ptr<const pb::PolynomialBasis> poly(pb::get_basis(p.pbid,p.nn));
  Eigen::VectorXi lv,mv; helfem::atomic::basis::angular_basis(p.lmax,p.mmax,lv,mv);
  DV b=helfem::atomic::basis::form_grid((mp::nuclear_model_t)p.fin,p.rms,p.nel,p.Rmax,p.igrid,p.zexp,0,p.igrid,p.zexp,p.Z,0,0,0.0);
  return std::make_shared<helfem::atomic::basis::TwoDBasis>(p.Z,(mp::nuclear_model_t)p.fin,p.rms,poly,false,nquad,b,lv,mv,0,0,0.0); }
static std::vector<std::any> args(const PB&p){ return {p.Z,p.lmax,p.mmax,p.pbid,p.nn,p.nel,p.Rmax,p.igrid,p.zexp,p.fin,p.rms}; }
static std::string key(const PB&p){ return fmt("Z%d.l%d.m%d.f%d.nn%d.el%d.R%g.g%d.%g.n%d.%g",p.Z,p.lmax,p.mmax,p.pbid,p.nn,p.nel,p.Rmax,p.igrid,p.zexp,p.fin,p.rms); }
static void one(AB&o,const PB&p,helfem::atomic::basis::TwoDBasis&B){
  size_t N=B.Nbf(); H.ok(call<int>(o,"Z")==p.Z,"py-Z"); H.ok(call<size_t>(o,"Nbf")==N,"py-Nbf"); H.ok(call<size_t>(o,"Nrad")==B.Nrad(),"py-Nrad"); H.ok(call<size_t>(o,"Nang")==B.Nang(),"py-Nang"); H.ok(call<size_t>(o,"Nel")==(size_t)p.nel,"py-Nel");
  // the functions of consecutive elements share exactly the functions of the common boundary
  int sh=p.pbid==5?2:p.pbid==8?3:p.pbid==9?4:1; size_t prev=0; for(int e=0;e<p.nel;e++) { auto r=call<std::pair<size_t,size_t>>(o,"radial_element_range",(size_t)e); H.ok(e==0?r.first==0:r.first+sh==prev+1,"py-range",fmt("element %d: %zu..%zu after ..%zu",e,r.first,r.second,prev)); prev=r.second; } H.ok(prev+1==B.Nrad(),"py-range",fmt("last %zu of %zu",prev,B.Nrad()));
  auto lv=call<py::list>(o,"lvals"),mv=call<py::list>(o,"mvals"); auto l2=B.get_lval(),m2=B.get_mval(); if(H.ok(lv.size()==B.Nang()&&mv.size()==B.Nang(),"py-lm")) for(size_t i=0;i<lv.size();i++) H.ok(std::any_cast<int>(lv.at(i))==l2(i)&&std::any_cast<int>(mv.at(i))==m2(i),"py-lm",fmt("channel %zu",i));
  DM S=mat(call<Arr>(o,"overlap")),T=mat(call<Arr>(o,"kinetic")),V=mat(call<Arr>(o,"nuclear")),h=mat(call<Arr>(o,"hcore")); DM S0=B.overlap(),T0=B.kinetic(),V0=B.nuclear();
  H.mclose(S,S0,1e-11*(1+S0.norm()),"py-overlap"); H.mclose(T,T0,1e-11*(1+T0.norm()),"py-kinetic"); H.mclose(V,V0,1e-11*(1+V0.norm()),"py-nuclear"); H.mclose(h,DM(T0+V0),1e-11*(1+T0.norm()+V0.norm()),"py-hcore"); }
static void pyone(const PB&p){ H.run("py.one."+key(p),[=]{ auto o=create(args(p)); int nb; { std::unique_ptr<pb::PolynomialBasis> q(pb::get_basis(p.pbid,p.nn)); nb=q->get_nbf(); } auto B=direct(p,10*nb); one(*o,p,*B); }); }
static DM elem(long N,long k){ DM P=DM::Zero(N,N); P(k%N,k/N)=1; return P; }
// every elementary density, in every order of the first calls
static void pytwo(const PB&p,const std::string&order){ H.run("py.two."+key(p)+"."+order,[=]{ auto o=create(args(p)); int nb; { std::unique_ptr<pb::PolynomialBasis> q(pb::get_basis(p.pbid,p.nn)); nb=q->get_nbf(); } auto B=direct(p,10*nb); B->compute_tei(true); long N=B->Nbf();
    double sc=0; { DM J=B->coulomb(DM::Identity(N,N)); sc=1+J.norm(); }
    auto jk=[&](const DM&P){ auto t=call<std::tuple<Arr,Arr>,Arg>(*o,"get_jk",arr(P)); H.mclose(mat(std::get<0>(t)),B->coulomb(P),1e-10*sc,"py-J"); H.mclose(mat(std::get<1>(t)),DM(-B->exchange(P)),1e-10*sc,"py-K"); };
    auto J=[&](const DM&P){ H.mclose(mat(call<Arr,Arg>(*o,"coulomb",arr(P))),B->coulomb(P),1e-10*sc,"py-coulomb"); }; auto K=[&](const DM&P){ H.mclose(mat(call<Arr,Arg>(*o,"exchange",arr(P))),DM(-B->exchange(P)),1e-10*sc,"py-exchange"); };
    auto df=[&](double tol){ auto l=call<py::list,double>(*o,"radial_df_factors",tol); auto R=B->radial_df_factors(1e-14); long n=B->Nrad(); if(!H.ok(l.size()==(size_t)(2*p.lmax+1),"py-df-multipoles",fmt("%zu",l.size()))) return;
      for(size_t L=0;L<l.size();L++) { auto a=std::any_cast<Arr>(l.at(L)); if(!H.ok(a.ndim()==3&&a.shape(1)==n&&a.shape(2)==n,"py-df-shape")) continue; DM A(n*n,a.shape(0)),Bm(n*n,R[L].size()); for(long q=0;q<a.shape(0);q++) for(long i=0;i<n;i++) for(long j=0;j<n;j++) A(i*n+j,q)=a.data()[(q*n+i)*n+j]; for(size_t q=0;q<R[L].size();q++) for(long i=0;i<n;i++) for(long j=0;j<n;j++) Bm(i*n+j,q)=R[L][q](i,j);
        H.mclose(DM(A*A.transpose()),DM(Bm*Bm.transpose()),std::max(tol*3,1e-11)*(1+sc),"py-df",fmt("L=%zu",L)); } };
    DM P0=DM::Zero(N,N); for(long i=0;i<N;i++) for(long j=0;j<N;j++) P0(i,j)=(double)(prn(i*N+j)-0.3L);
    for(char c: order) { if(c=='b') jk(P0); if(c=='j') J(P0); if(c=='k') K(P0); if(c=='d') df(1e-10); if(c=='o') { DM S0=B->overlap(); H.mclose(mat(call<Arr>(*o,"overlap")),S0,1e-11*(1+S0.norm()),"py-overlap"); } }
    if(order.size()==1) { for(long k=0;k<N*N;k++) { DM P=elem(N,k); if(order=="b") jk(P); if(order=="j") J(P); if(order=="k") K(P); } if(order=="d") { df(1e-6); df(1e-12); } }
    // shapes that are not a density are refused
    for(int k=0;k<3;k++) { Arg bad= k==0?Arg(std::vector<py::ssize_t>{N*N}): k==1?Arg(std::vector<py::ssize_t>{N,N,1}): Arg(std::vector<py::ssize_t>{}); if(k==2) bad=Arg(std::vector<py::ssize_t>{N}); H.throws([&]{ call<Arr,Arg>(*o,"coulomb",bad); },"py-bad-array"); H.throws([&]{ call<Arr,Arg>(*o,"exchange",bad); },"py-bad-array"); H.throws([&]{ call<std::tuple<Arr,Arr>,Arg>(*o,"get_jk",bad); },"py-bad-array"); }
  }); }
void explore(){ helfem::verbose=false; bool th=H.thorough();
  H.run("shapes.order0-refused",[]{ Dir w; refused(sh(w,{python(),VERIF_REPO "/libhelfem/src/generate_hip_family_code.py","--order","0"}),"generator-refuses"); refused(sh(w,{python(),VERIF_REPO "/libhelfem/src/generate_hip_family_code.py","--order","-1"}),"generator-refuses"); refused(sh(w,{python(),VERIF_REPO "/libhelfem/src/generate_hip_family_code.py"}),"generator-refuses"); });
  shapes(0,20,0); shapes(1,8,6); shapes(2,6,5); shapes(3,5,4); shapes(4,3,2); if(th) { shapes(1,14,7); shapes(2,9,6); shapes(3,7,5); shapes(4,5,4); shapes(5,3,2); }
  for(int p=0;p<3;p++) { table(p,"",1e-14,"good",0); if(p==2||th) { table(p,"0",0,"good",0); table(p,"1e-12",1e-12,"good",0); } }
  for(const char*m: {"bval","primbas","nquad","nnodes","longer","ragged","absent"}) for(int z: th?std::vector<int>{1,2,57,117,118}:std::vector<int>{2,118}) table(0,"",1e-14,m,z);
  if(!th) table(0,"",1e-14,"ragged",1); for(int z: {1,60,118}) { table(0,"1e-6",1e-6,"lost",z); table(1,"1e-9",1e-9,"lost",z); }
  for(int ne: {1,2,4,118}) for(int nr: {2,3,4,9}) { sap(ne,nr,"plain"); if(nr==9) { sap(ne,nr,"linear"); sap(ne,nr,"header"); sap(ne,nr,"twice"); if(ne>1) { sap(ne,nr,"ragged"); sap(ne,nr,"grid"); } } } sap(118,401,"plain"); sap(5,1025,"linear"); if(th) sap(118,2001,"plain");
  pipeline(4,6,3); if(th) { pipeline(4,9,4); pipeline(4,4,2); }
  H.run("py.signature",[]{ auto names=[&](const char*n){ std::string s; for(auto&a: fn(n).args) s+=a.name+(a.has?"? ":" "); return s; };
    H.ok(names("__init__")=="Z lmax mmax primbas? nnodes? nelem? Rmax? igrid? zexp? finitenuc? Rrms? ","py-arguments",names("__init__")); H.ok(names("get_jk")=="dm "&&names("coulomb")=="dm "&&names("exchange")=="dm ","py-arguments"); H.ok(names("radial_df_factors")=="tol? "&&names("radial_element_range")=="iel ","py-arguments");
    for(const char*n: {"Z","Nbf","Nrad","Nang","Nel","lvals","mvals","overlap","kinetic","nuclear","hcore"}) H.ok(names(n).empty(),"py-arguments",n); H.step(); });
  H.run("py.defaults",[]{ PB p{2,1,1,4,15,20,40.0,4,2.0,0,0.0}; auto B=direct(p,150); auto o=create({p.Z,p.lmax,p.mmax}); one(*o,p,*B); auto q=create({p.Z,p.lmax,p.mmax,5,4,3}); PB p2{2,1,1,5,4,3,40.0,4,2.0,0,0.0}; auto B2=direct(p2,80); one(*q,p2,*B2); });
  std::vector<std::pair<int,int>> fn_={{3,5},{4,4},{4,6},{5,3},{8,3},{9,3}};
  for(auto f: fn_) for(int Z: {1,7}) for(auto lm: std::vector<std::pair<int,int>>{{0,0},{1,0},{1,1},{2,1},{3,3}}) { pyone({Z,lm.first,lm.second,f.first,f.second,3,9.0,4,2.0,0,0.0}); if(Z==1) for(int g: {1,2,3}) pyone({Z,lm.first,lm.second,f.first,f.second,2,5.0,g,1.5,0,0.0}); }
  for(auto f: fn_) { pyone({3,1,1,f.first,f.second,1,4.0,1,1.0,0,0.0}); pyone({3,1,1,f.first,f.second,4,6.0,4,1.0,4,0.3}); }
  for(auto f: std::vector<std::pair<int,int>>{{4,4},{5,3}}) for(const char*o: {"b","j","k","d"}) { pytwo({2,1,0,f.first,f.second,2,6.0,4,2.0,0,0.0},o); if(th) pytwo({2,1,1,f.first,f.second,2,6.0,4,2.0,0,0.0},o); }
  // histories: every ordered pair and triple of calls
  for(std::string a: {"b","j","k","d","o"}) for(std::string b: {"b","j","k","d","o"}) { pytwo({3,1,1,4,4,2,6.0,1,1.0,0,0.0},a+b); if(th) for(std::string c: {"b","j","k","d","o"}) pytwo({3,1,1,4,4,2,6.0,1,1.0,0,0.0},a+b+c); }
  // the documented example of an external consumer
  H.run("example",[]{ Dir w; Ran r=sh(w,{self()+"/t_atomic_radial_export"}); if(!good(r,"example")) return; H.ok(r.out.find("Overall: PASS")!=std::string::npos&&r.out.find("FAIL")==std::string::npos,"example",r.out.substr(0,300)); });
}
VH_MAIN
