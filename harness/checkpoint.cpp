// C18: checkpoint files, every operation history up to a depth against a map model.
#include "vh.h"
#include "general/checkpoint.h"
#include "atomic/TwoDBasis.h"
#include <PolynomialBasis.h>
#include <helfem.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <limits>
namespace ab=helfem::atomic::basis; namespace db=helfem::diatomic::basis; namespace pb=helfem::polynomial_basis;
typedef helfem::Mat<double> MD; typedef helfem::Mat<long double> ML; typedef helfem::Vec<double> VD; typedef helfem::Vec<long double> VL;
// ---- model -------------------------------------------------------------------------------------
enum Cls { FLT, INT };
struct Entry { Cls c; int nd; hsize_t d[2]; int prec; /*0 double 1 long double (FLT); 0 int 1 hsize 2 bool 3 char (INT)*/ std::vector<long double> f; std::vector<long long> i; std::string s; bool ismat=false,isint2=false; };
typedef std::map<std::string,Entry> Model;
static const double dv[]={1.0/3.0,-0.0,std::numeric_limits<double>::denorm_min(),1.7976931348623157e308,-3.25,2.718281828459045,std::numeric_limits<double>::infinity(),-1e-300,12345.678,0.1,-7,6e22};
static const long double lv[]={1.0L/3.0L,-2.0L/7.0L,1.25L,3.14159265358979323846264338327950288L,-0.0L,1e30L/3,5,1e-20L/3,9,11,1e100L/7,-1};
static const int iv[]={1,-2,2147483647,-2147483647-1,0,7,13,-99,42,5,6,8};
static const hsize_t hv[]={0,1,4294967296ULL,9223372036854775807ULL,17,3};
template<class T> T tv(int k); template<> double tv<double>(int k){ return dv[k%12]; } template<> long double tv<long double>(int k){ return lv[k%12]; }
static bool biteq(double a,double b){ return memcmp(&a,&b,sizeof a)==0||(a!=a&&b!=b); }
static bool biteq(long double a,long double b){ return a==b? std::signbit(a)==std::signbit(b) : (a!=a&&b!=b); }
template<class T> constexpr int pr(){ return std::is_same<T,double>::value?0:1; }
template<class T> Entry emat(const helfem::Mat<T>&m){ Entry e; e.c=FLT; e.nd=2; e.d[0]=m.cols(); e.d[1]=m.rows(); e.prec=pr<T>(); for(long k=0;k<m.size();k++) e.f.push_back(m.data()[k]); e.ismat=true; return e; }
static Entry eimat(const Eigen::MatrixXi&m){ Entry e; e.c=INT; e.nd=2; e.d[0]=m.rows(); e.d[1]=m.cols(); e.prec=0; for(long k=0;k<m.size();k++) e.i.push_back(m.data()[k]); return e; }
template<class T> Entry evec(const std::vector<T>&v){ Entry e; e.c=FLT; e.nd=1; e.d[0]=v.size(); e.prec=pr<T>(); for(T x: v) e.f.push_back(x); return e; }
static Entry ehvec(const std::vector<hsize_t>&v){ Entry e; e.c=INT; e.nd=1; e.d[0]=v.size(); e.prec=1; for(hsize_t x: v) e.i.push_back((long long)x); return e; }
template<class T> Entry esc(T x){ Entry e; e.c=FLT; e.nd=0; e.prec=pr<T>(); e.f={x}; return e; }
static Entry eisc(long long x,int p){ Entry e; e.c=INT; e.nd=0; e.prec=p; e.i={x}; return e; }
static Entry estr(const std::string&s){ Entry e; e.c=INT; e.nd=1; e.d[0]=s.size()+1; e.prec=3; for(char ch: s) e.i.push_back((signed char)ch); e.i.push_back(0); e.s=s; return e; }
template<class T> helfem::Mat<T> mkm(int r,int c,int o){ helfem::Mat<T> m(r,c); for(int k=0;k<r*c;k++) m.data()[k]=tv<T>(k+o); return m; }
static Eigen::MatrixXi mki(int r,int c,int o){ Eigen::MatrixXi m(r,c); for(int k=0;k<r*c;k++) m.data()[k]=iv[(k+o)%12]; return m; }
// ---- bases ---------------------------------------------------------------------------------------
struct AB { int Z,model; double Rrms; int f,nn,zd,nq; std::vector<double> b; std::vector<int> l,m; int Zl,Zr; double Rh; };
struct DB { int Z1,Z2; double Rh; int f,nn,nq; std::vector<double> b; std::vector<int> l,m; };
static std::vector<AB> ABS{{2,0,0.0,4,3,0,12,{0,1,3},{0},{0},0,0,0.0},{7,1,1e-3,4,5,1,20,{0,0.125,4,4.5},{0,1,1,1},{0,-1,0,1},1,3,2.75},{3,2,1e-3,3,5,0,15,{0,1e-3,2},{0,2},{0,-2},0,5,1.0/3},{1,3,2e-3,5,3,1,17,{0,2e-3,2},{1,2,3},{1,1,1},4,0,0.1},{6,4,0.5,8,2,1,16,{0,1,2,7},{0,0},{0,0},1,1,1}};
static std::vector<DB> DBS{{1,1,0.7,4,3,12,{0,1,3},{0},{0}},{7,0,1.0/3,4,5,20,{0,0.5,2,4.5},{0,1,1,1},{0,-1,0,1}},{3,9,2.75,3,5,15,{0,0.75,2.5},{0,2,2},{0,-2,2}},{0,2,1.4,5,3,17,{0,1,2.25},{1,2,3},{1,1,1}}};
static helfem::Vector tov(const std::vector<double>&v){ helfem::Vector r(v.size()); for(size_t i=0;i<v.size();i++) r(i)=v[i]; return r; }
static Eigen::VectorXi toi(const std::vector<int>&v){ Eigen::VectorXi r(v.size()); for(size_t i=0;i<v.size();i++) r(i)=v[i]; return r; }
static std::shared_ptr<const pb::PolynomialBasis> poly(int f,int nn){ return std::shared_ptr<const pb::PolynomialBasis>(pb::get_basis(f,nn)); }
static ab::TwoDBasis mka(const AB&a){ return ab::TwoDBasis(a.Z,(helfem::modelpotential::nuclear_model_t)a.model,a.Rrms,poly(a.f,a.nn),a.zd,a.nq,tov(a.b),toi(a.l),toi(a.m),a.Zl,a.Zr,a.Rh); }
static db::TwoDBasis mkd(const DB&a){ return db::TwoDBasis(a.Z1,a.Z2,a.Rh,poly(a.f,a.nn),a.nq,tov(a.b),toi(a.l),toi(a.m)); }
template<class V> std::vector<double> sv(const V&v){ std::vector<double> r; for(long i=0;i<(long)v.size();i++) r.push_back(v(i)); return r; }
static Entry ecol(const std::vector<double>&b){ MD m(b.size(),1); for(size_t i=0;i<b.size();i++) m(i,0)=b[i]; return emat(m); }
static Entry eicol(const std::vector<int>&b){ Eigen::MatrixXi m(b.size(),1); for(size_t i=0;i<b.size();i++) m(i,0)=b[i]; return eimat(m); }
static void moda(Model&M,const AB&a){ M["HelFEM_ID"]=eisc(1,0); M["Z"]=eisc(a.Z,0); M["Zl"]=eisc(a.Zl,0); M["Zr"]=eisc(a.Zr,0); M["Rhalf"]=esc(a.Rh); M["bval"]=ecol(a.b); M["finitenuc"]=eisc(a.model,0); M["Rrms"]=esc(a.Rrms); M["n_quad"]=eisc(a.nq,0); M["poly_id"]=eisc(a.f,0); M["poly_nnodes"]=eisc(a.nn,0); M["zeroder"]=eisc(a.zd,0); M["lval"]=eicol(a.l); M["mval"]=eicol(a.m); }
static void modd(Model&M,const DB&a){ M["HelFEM_ID"]=eisc(2,0); M["Z1"]=eisc(a.Z1,0); M["Z2"]=eisc(a.Z2,0); M["Rhalf"]=esc(a.Rh); M["bval"]=ecol(a.b); M["n_quad"]=eisc(a.nq,0); M["poly_id"]=eisc(a.f,0); M["poly_nnodes"]=eisc(a.nn,0); M["lval"]=eicol(a.l); M["mval"]=eicol(a.m); }
template<class M> bool msame(const M&a,const M&b){ return a.rows()==b.rows()&&a.cols()==b.cols()&&(a.size()==0||(a.array()==b.array()).all()); }
// ---- session: the real object beside the model ------------------------------------------------------
struct Sess {
  std::string fn; Model M; bool rw=true, open=false; Checkpoint *c=NULL; int serial=0; std::string tag;
  Sess(){ fn=fmt("chk_%d_%d.tmp",(int)getpid(),H.shard); unlink(fn.c_str()); c=new Checkpoint(fn,true); open=c->is_open(); }
  ~Sess(){ delete c; unlink(fn.c_str()); }
  // the documented state rule, after every operation
  void inv(const std::string&op,bool failed){ H.ok(c->is_open()==open,failed?"open-state-after-refusal":"open-state",op+fmt(" file %s, was %s",c->is_open()?"open":"closed",open?"open":"closed")); if(c->is_open()!=open){ if(open) c->open(); else c->close(); } }
  template<class F> void mustok(const std::string&op,F f){ H.step(); try { f(); } catch(const std::exception&e){ H.fail("refused",op+": "+e.what()); inv(op,true); return; } H.ok(true,"refused"); inv(op,false); }
  template<class F> void mustfail(const std::string&op,F f){ H.step(); bool t=false; try { f(); } catch(const std::exception&){ t=true; } H.ok(t,"accepted",op+" was not refused"); inv(op,true); }
};
typedef std::function<void(Sess&)> Op;
template<class W> static void wr(Sess&s,const std::string&n,const std::string&op,const Entry&e,W w){ if(s.rw) { s.mustok(op,[&]{ w(); }); s.M[n]=e; } else s.mustfail(op,w); }
// every typed read of every name, plus existence; the file is left as it was
template<class T> void rd_float(Sess&s,const std::string&n,const Entry*e){
  std::string N="read "+n+(pr<T>()?" (long double)":" (double)");
  { helfem::Mat<T> m=mkm<T>(1,1,3); auto f=[&]{ s.c->read(n,m); }; if(e&&e->c==FLT&&e->nd==2){ s.mustok(N+" matrix",f); bool g=(hsize_t)m.rows()==e->d[1]&&(hsize_t)m.cols()==e->d[0]; for(long k=0;g&&k<m.size();k++) g=biteq(m.data()[k],(T)e->f[k]); H.ok(g,"matrix-value",N); } else s.mustfail(N+" as matrix",f); }
  { helfem::Vec<T> v; auto f=[&]{ s.c->read(n,v); }; if(e&&e->c==FLT&&e->nd==2&&e->d[0]==1){ s.mustok(N+" vector",f); bool g=(hsize_t)v.size()==e->d[1]; for(long k=0;g&&k<v.size();k++) g=biteq(v(k),(T)e->f[k]); H.ok(g,"vector-value",N); } else s.mustfail(N+" as vector",f); }
  { std::vector<T> v(1,T(5)); auto f=[&]{ s.c->read(n,v); }; if(e&&e->c==FLT&&e->nd==1){ s.mustok(N+" array",f); bool g=v.size()==e->d[0]; for(size_t k=0;g&&k<v.size();k++) g=biteq(v[k],(T)e->f[k]); H.ok(g,"array-value",N); } else s.mustfail(N+" as array",f); }
  { T x=5; auto f=[&]{ s.c->read(n,x); }; if(e&&e->c==FLT&&e->nd==0){ s.mustok(N+" scalar",f); H.ok(biteq(x,(T)e->f[0]),"scalar-value",N); } else s.mustfail(N+" as scalar",f); }
}
static void audit_name(Sess&s,const std::string&n,bool full){ const Entry*e=NULL; auto it=s.M.find(n); if(it!=s.M.end()) e=&it->second;
  bool ex=false; s.mustok("exist "+n,[&]{ ex=s.c->exist(n); }); H.ok(ex==(e!=NULL),"exist",n);
  rd_float<double>(s,n,e); if(full) rd_float<long double>(s,n,e);
  { Eigen::MatrixXi m; auto f=[&]{ s.c->read(n,m); }; if(e&&e->c==INT&&e->nd==2){ s.mustok("read "+n+" integer matrix",f); bool g=(hsize_t)m.rows()==e->d[0]&&(hsize_t)m.cols()==e->d[1]; for(long k=0;g&&k<m.size();k++) g=m.data()[k]==e->i[k]; H.ok(g,"integer-matrix-value",n); } else s.mustfail("read "+n+" as integer matrix",f); }
  { std::vector<hsize_t> v; auto f=[&]{ s.c->read(n,v); }; if(e&&e->c==INT&&e->nd==1){ s.mustok("read "+n+" index array",f); bool g=v.size()==e->d[0]; if(e->prec==1) for(size_t k=0;g&&k<v.size();k++) g=v[k]==(hsize_t)e->i[k]; H.ok(g,"index-array-value",n); } else s.mustfail("read "+n+" as index array",f); }
  { int x=5; auto f=[&]{ s.c->read(n,x); }; if(e&&e->c==INT&&e->nd==0){ s.mustok("read "+n+" int",f); if(e->prec!=1||e->i[0]==(int)e->i[0]) H.ok(x==e->i[0],"int-value",n); } else s.mustfail("read "+n+" as int",f); }
  { hsize_t x=5; auto f=[&]{ s.c->read(n,x); }; if(e&&e->c==INT&&e->nd==0){ s.mustok("read "+n+" size",f); if(e->i[0]>=0) H.ok(x==(hsize_t)e->i[0],"size-value",n); } else s.mustfail("read "+n+" as size",f); }
  { bool x=false; auto f=[&]{ s.c->read(n,x); }; if(e&&e->c==INT&&e->nd==0){ s.mustok("read "+n+" bool",f); if(e->prec==2) H.ok(x==(e->i[0]!=0),"bool-value",n); } else s.mustfail("read "+n+" as bool",f); }
  { std::string x="zz"; auto f=[&]{ s.c->read(n,x); }; if(e&&e->c==INT&&e->nd==1){ s.mustok("read "+n+" string",f); if(e->prec==3) H.ok(x==e->s,"string-value",n+" got '"+x+"'"); } else s.mustfail("read "+n+" as string",f); }
}
static int geti(const Model&M,const char*n,int d){ auto it=M.find(n); return it==M.end()||it->second.c!=INT||it->second.nd?d:it->second.i[0]; }
static std::vector<double> getv(const Model&M,const char*n){ std::vector<double> r; auto it=M.find(n); if(it!=M.end()) for(auto x: it->second.f) r.push_back((double)x); return r; }
static std::vector<int> getiv(const Model&M,const char*n){ std::vector<int> r; auto it=M.find(n); if(it!=M.end()) for(auto x: it->second.i) r.push_back((int)x); return r; }
static void audit_basis(Sess&s){ int id=geti(s.M,"HelFEM_ID",-1); bool whole=true;
  if(id>0) for(const char*k: {"Rhalf","bval","n_quad","poly_id","poly_nnodes","lval","mval"}) if(!s.M.count(k)) whole=false;
  if(id==1) for(const char*k: {"Z","Zl","Zr","finitenuc","Rrms","zeroder"}) if(!s.M.count(k)) whole=false; if(id==2) for(const char*k: {"Z1","Z2"}) if(!s.M.count(k)) whole=false;
  { ab::TwoDBasis b; auto f=[&]{ s.c->read(b); }; if(id!=1||!whole) s.mustfail("read atomic basis",f); else { s.mustok("read atomic basis",f); const Model&M=s.M; bool g=b.get_Z()==geti(M,"Z",0)&&b.get_Zl()==geti(M,"Zl",0)&&b.get_Zr()==geti(M,"Zr",0)&&b.get_nuclear_model()==geti(M,"finitenuc",0)&&b.get_nuclear_size()==(double)M.at("Rrms").f[0]&&b.get_Rhalf()==(double)M.at("Rhalf").f[0]&&b.get_nquad()==geti(M,"n_quad",0)&&b.get_poly_id()==geti(M,"poly_id",0)&&b.get_poly_nnodes()==geti(M,"poly_nnodes",0)&&b.get_zeroder()==geti(M,"zeroder",0); H.ok(g,"atomic-basis-parameters");
      H.ok(sv(b.get_bval())==getv(M,"bval"),"atomic-basis-grid"); auto L=b.get_lval(),Mm=b.get_mval(); std::vector<int> l(L.data(),L.data()+L.size()),m(Mm.data(),Mm.data()+Mm.size()); H.ok(l==getiv(M,"lval")&&m==getiv(M,"mval"),"atomic-basis-channels"); } }
  { db::TwoDBasis b; auto f=[&]{ s.c->read(b); }; if(id!=2||!whole) s.mustfail("read diatomic basis",f); else { s.mustok("read diatomic basis",f); const Model&M=s.M; bool g=b.get_Z1()==geti(M,"Z1",0)&&b.get_Z2()==geti(M,"Z2",0)&&b.get_Rhalf()==(double)M.at("Rhalf").f[0]&&b.get_nquad()==geti(M,"n_quad",0)&&b.get_poly_id()==geti(M,"poly_id",0)&&b.get_poly_nnodes()==geti(M,"poly_nnodes",0); H.ok(g,"diatomic-basis-parameters");
      H.ok(sv(b.get_bval())==getv(M,"bval"),"diatomic-basis-grid"); auto L=b.get_lval(),Mm=b.get_mval(); std::vector<int> l(L.data(),L.data()+L.size()),m(Mm.data(),Mm.data()+Mm.size()); H.ok(l==getiv(M,"lval")&&m==getiv(M,"mval"),"diatomic-basis-channels"); } } }
// the file as another program sees it: names, types, shapes, raw data
static std::vector<std::string> names_on_disk(hid_t f){ std::vector<std::string> r; H5G_info_t gi; H5Gget_info(f,&gi); for(hsize_t k=0;k<gi.nlinks;k++){ char b[128]; H5Lget_name_by_idx(f,".",H5_INDEX_NAME,H5_ITER_INC,k,b,128,H5P_DEFAULT); r.push_back(b); } return r; }
static void audit_disk(const std::string&fn,const Model&M,const char*when){ hid_t f=H5Fopen(fn.c_str(),H5F_ACC_RDONLY,H5P_DEFAULT); if(!H.ok(f>=0,"file-readable",when)) return;
  std::vector<std::string> nm=names_on_disk(f),ex; for(auto&e: M) ex.push_back(e.first); H.ok(nm==ex,"file-entries",when);
  for(auto&p: M){ const Entry&e=p.second; hid_t d=H5Dopen(f,p.first.c_str(),H5P_DEFAULT); if(!H.ok(d>=0,"file-entry",p.first)) continue; hid_t t=H5Dget_type(d),sp=H5Dget_space(d); hid_t want=e.c==FLT?(e.prec?H5T_NATIVE_LDOUBLE:H5T_IEEE_F64LE):(e.prec==0?H5T_STD_I32LE:e.prec==1?H5T_NATIVE_HSIZE:e.prec==2?H5T_NATIVE_HBOOL:H5T_NATIVE_CHAR); H.ok(H5Tequal(t,want)>0,"file-type",p.first); int nd=H5Sget_simple_extent_ndims(sp); bool g=nd==e.nd; hsize_t dd[8]={0}; if(g&&nd){ H5Sget_simple_extent_dims(sp,dd,NULL); for(int k=0;k<nd;k++) g&=dd[k]==e.d[k]; } H.ok(g,"file-shape",p.first);
    if(g){ if(e.c==FLT){ std::vector<long double> x(e.f.size()+1); H5Dread(d,H5T_NATIVE_LDOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,x.data()); for(size_t k=0;k<e.f.size();k++) g&=biteq(x[k],e.f[k]); } else { std::vector<long long> x(e.i.size()+1); H5Dread(d,H5T_NATIVE_LLONG,H5S_ALL,H5S_ALL,H5P_DEFAULT,x.data()); for(size_t k=0;k<e.i.size();k++) g&=x[k]==e.i[k]; } H.ok(g,"file-data",p.first); }
    H5Sclose(sp); H5Tclose(t); H5Dclose(d); }
  H5Fclose(f); }
static void audit(Sess&s,bool full){ auto go=[&]{ for(const char*n: {"a","b"}) audit_name(s,n,full); audit_basis(s); };
  go(); // as left by the history
  // the opposite open state
  if(s.open){ H.step(); s.c->close(); s.open=false; s.inv("close",false); } else { H.step(); s.c->open(); s.open=true; s.inv("open",false); }
  go();
  if(s.open){ s.c->close(); s.open=false; }
  // every handle has been given back: closed means closed
  H.ok(H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_FILE)==0&&H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_DATASET)==0,"closed-means-closed",fmt("%ld files %ld datasets still open",(long)H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_FILE),(long)H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_DATASET)));
  audit_disk(s.fn,s.M,"after the history"); }
struct NOp { std::string n; Op f; };
static std::vector<NOp> ops(bool wide){ std::vector<NOp> R; auto add=[&](const std::string&n,Op f){ R.push_back({n,f}); };
  for(std::string n: {"a","b"}){ if(n=="b"&&!wide) continue;
    add("m23"+n,[n](Sess&s){ MD m=mkm<double>(2,3,s.serial); wr(s,n,"write matrix",emat(m),[&]{ s.c->write(n,m); }); });
    add("v3"+n,[n](Sess&s){ VD v=mkm<double>(3,1,s.serial).col(0); wr(s,n,"write vector",emat(MD(v)),[&]{ s.c->write(n,v); }); });
    add("l32"+n,[n](Sess&s){ ML m=mkm<long double>(3,2,s.serial); wr(s,n,"write long double matrix",emat(m),[&]{ s.c->write(n,m); }); });
    add("i32"+n,[n](Sess&s){ Eigen::MatrixXi m=mki(3,2,s.serial); wr(s,n,"write integer matrix",eimat(m),[&]{ s.c->write(n,m); }); });
    add("a4"+n,[n](Sess&s){ std::vector<double> v{tv<double>(s.serial),tv<double>(s.serial+1),2,3}; wr(s,n,"write array",evec(v),[&]{ s.c->write(n,v); }); });
    add("h3"+n,[n](Sess&s){ std::vector<hsize_t> v{hv[s.serial%6],hv[(s.serial+1)%6],5}; wr(s,n,"write index array",ehvec(v),[&]{ s.c->write(n,v); }); });
    add("d"+n,[n](Sess&s){ double x=tv<double>(s.serial); wr(s,n,"write double",esc(x),[&]{ s.c->write(n,x); }); });
    add("i"+n,[n](Sess&s){ int x=iv[s.serial%12]; wr(s,n,"write int",eisc(x,0),[&]{ s.c->write(n,x); }); });
    add("h"+n,[n](Sess&s){ hsize_t x=hv[s.serial%6]; wr(s,n,"write size",eisc((long long)x,1),[&]{ s.c->write(n,x); }); });
    add("t"+n,[n](Sess&s){ bool x=s.serial%2==0; wr(s,n,"write bool",eisc(x,2),[&]{ s.c->write(n,x); }); });
    add("s"+n,[n](Sess&s){ std::string x=s.serial%3==0?"":s.serial%3==1?"He atom":std::string("n\0ul",4); wr(s,n,"write string",estr(x),[&]{ s.c->write(n,x); }); });
    add("rm"+n,[n](Sess&s){ if(s.rw){ s.mustok("remove",[&]{ s.c->remove(n); }); s.M.erase(n); } else s.mustfail("remove",[&]{ s.c->remove(n); }); });
  }
  add("open",[](Sess&s){ if(s.open) s.mustfail("open",[&]{ s.c->open(); }); else { H.step(); s.c->open(); s.open=true; s.inv("open",false); } });
  add("close",[](Sess&s){ if(!s.open) s.mustfail("close",[&]{ s.c->close(); }); else { H.step(); s.c->close(); s.open=false; s.inv("close",false); } });
  add("flush",[](Sess&s){ s.mustok("flush",[&]{ s.c->flush(); }); });
  auto re=[](Sess&s,bool rw,bool tr){ H.step(); delete s.c; s.c=NULL; s.c=new Checkpoint(s.fn,rw,tr); s.rw=rw; s.open=s.c->is_open(); if(rw&&tr) s.M.clear(); };
  add("trunc",[re](Sess&s){ re(s,true,true); }); add("append",[re](Sess&s){ re(s,true,false); }); add("ro",[re](Sess&s){ re(s,false,true); });
  add("badread",[](Sess&s){ double x; s.mustfail("read missing",[&]{ s.c->read("nope",x); }); });
  add("badname",[](Sess&s){ double x=1; bool ex=true; s.mustok("exist nope/x",[&]{ ex=s.c->exist("nope/x"); }); H.ok(!ex,"exist","nope/x"); s.mustfail("read nope/x",[&]{ s.c->read("nope/x",x); }); s.mustfail("write nope/x",[&]{ s.c->write("nope/x",x); }); });
  for(int k: {0,1,2,3,4}) if(wide||k==1) add(fmt("ba%d",k),[k](Sess&s){ auto b=mka(ABS[k]); auto f=[&]{ s.c->write(b); }; if(s.rw){ s.mustok("write atomic basis",f); moda(s.M,ABS[k]); } else s.mustfail("write atomic basis",f); });
  for(int k: {0,1,2,3}) if(wide||k==1) add(fmt("bd%d",k),[k](Sess&s){ auto b=mkd(DBS[k]); auto f=[&]{ s.c->write(b); }; if(s.rw){ s.mustok("write diatomic basis",f); modd(s.M,DBS[k]); } else s.mustfail("write diatomic basis",f); });
  add("fail",[](Sess&s){ for(const char*n: {"a","b","bval","HelFEM_ID"}) { Entry*e=s.M.count(n)?&s.M[n]:NULL; Eigen::MatrixXi m; std::string x; std::vector<double> v; MD d; if(!(e&&e->c==FLT&&e->nd==1)) s.mustfail("mistyped read",[&]{ s.c->read(n,v); }); if(!(e&&e->c==FLT&&e->nd==2)) s.mustfail("mistyped read",[&]{ s.c->read(n,d); }); if(!(e&&e->c==INT&&e->nd==2)) s.mustfail("mistyped read",[&]{ s.c->read(n,m); }); if(!(e&&e->c==INT&&e->nd==1)) s.mustfail("mistyped read",[&]{ s.c->read(n,x); }); } });
  return R; }
static void enumerate(const std::vector<NOp>&O,int depth,const std::string&pre,bool full){ int n=O.size(); 
  // one case per first operation pair keeps the case list small; the remaining depth is enumerated inside
  std::function<void(std::vector<int>&)> exec=[&](std::vector<int>&seq){ Sess s; std::string k; for(int o: seq){ k+="."+O[o].n; O[o].f(s); s.serial++; if(!s.c) return; } H.state(k); int before=H.viol.size(); audit(s,full); if(before!=(int)H.viol.size()) H.viol.back().msg="history"+k+": "+H.viol.back().msg; };
  H.run(pre+".short",[=]{ std::vector<int> q; exec(q); for(int a=0;a<n;a++){ q={a}; exec(q); } });
  for(int a=0;a<n;a++) for(int b=0;b<n;b++) H.run(fmt("%s.%s.%s",pre.c_str(),O[a].n.c_str(),O[b].n.c_str()),[=]{ std::vector<int> q{a,b}; std::function<void()> rec=[&]{ exec(q); if((int)q.size()<depth) for(int k=0;k<n;k++){ q.push_back(k); rec(); q.pop_back(); } }; rec(); });
}
// values and shapes
template<class T> void shapes(const char*t){ for(int r=0;r<=4;r++) for(int c=0;c<=4;c++) H.run(fmt("shape.%s.%dx%d",t,r,c),[=]{ for(int o=0;o<12;o++){ Sess s; auto m=mkm<T>(r,c,o); wr(s,"a","write",emat(m),[&]{ s.c->write("a",m); }); if(c==1){ helfem::Vec<T> v=m.col(0); wr(s,"b","write",emat(m),[&]{ s.c->write("b",v); }); } else if(r==1){ std::vector<T> v(m.data(),m.data()+m.size()); wr(s,"b","write",evec(v),[&]{ s.c->write("b",v); }); } else if(r==0&&c==0){ T x=tv<T>(o); wr(s,"b","write",esc(x),[&]{ s.c->write("b",x); }); } H.state(fmt("%d",o)); audit(s,true); } }); }
// crash after the data are on disk: a closed-file write, a close or a flush
static void crashes(){ auto O=ops(false); int n=O.size(); std::vector<int> keep; for(int i=0;i<n;i++) if(O[i].n!="trunc"&&O[i].n!="append"&&O[i].n!="ro"&&O[i].n!="fail"&&O[i].n!="badread"&&O[i].n!="badname"&&O[i].n!="l32a"&&O[i].n!="ha"&&O[i].n!="ta"&&O[i].n!="v3a") keep.push_back(i);
  for(int a: keep) for(int b: keep) H.run("crash."+O[a].n+"."+O[b].n,[=]{ for(int c: keep) for(int mode=0;mode<3;mode++){ // mode 0: file closed throughout; 1: open, flush at the end; 2: open ... close
        std::string fn; Model M; { Sess s; fn=s.fn; unlink(fn.c_str()); fn+=".c"; }
        fflush(stdout); fflush(stderr); int pp[2]; if(pipe(pp)) return; // the child reports the model's key only implicitly: it is recomputed by the parent on a scratch session
        pid_t p=fork(); if(p==0){ close(pp[0]); signal(SIGALRM,SIG_DFL); { Sess*s=new Sess; s->c->is_open(); delete s->c; s->fn=fn; s->c=new Checkpoint(fn,true); s->open=s->c->is_open(); if(mode&&!s->open){ s->c->open(); s->open=true; } for(int o: {a,b,c}) { if(mode==0&&(O[o].n=="open")) continue; O[o].f(*s); s->serial++; } if(s->open){ if(mode==2) s->c->close(); else s->c->flush(); } (void)!write(pp[1],"k",1); _exit(0); } }
        close(pp[1]); char ch=0; (void)!read(pp[0],&ch,1); close(pp[0]); int st; waitpid(p,&st,0); H.ok(ch=='k'&&WIFEXITED(st)&&WEXITSTATUS(st)==0,"crash-child");
        { Sess s; if(mode&&!s.open){ s.c->open(); s.open=true; } for(int o: {a,b,c}) { if(mode==0&&(O[o].n=="open")) continue; O[o].f(s); s.serial++; } M=s.M; }
        H.state(fmt("%d.%d",c,mode)); audit_disk(fn,M,fmt("after a crash, third operation %s mode %d",O[c].n.c_str(),mode).c_str());
        try { Checkpoint r(fn,false); for(auto&e: M) H.ok(r.exist(e.first),"crash-exist",e.first); } catch(const std::exception&e){ H.fail("crash-open",e.what()); }
        unlink(fn.c_str()); for(int q=0;q<64;q++){ std::string l=fmt("chk_%d_%d.tmp",(int)p,H.shard); unlink(l.c_str()); break; } } }); }
// bases: the object read back is the same basis (operators identical), for many bases
static void bases(){ for(size_t k=0;k<ABS.size();k++) for(int f: {3,4,5,8}) for(int nn: {2,3,4}) for(int st=0;st<2;st++) H.run(fmt("basis.at%zu.f%d.nn%d.%s",k,f,nn,st?"open":"closed"),[=]{ AB a=ABS[k]; a.f=f; a.nn=nn; if(f==3&&nn==2) a.nn=4; Sess s; if(st&&!s.open){ s.c->open(); s.open=true; } auto b=mka(a); s.mustok("write",[&]{ s.c->write(b); }); moda(s.M,a); audit(s,false); ab::TwoDBasis r; s.mustok("read",[&]{ s.c->read(r); }); H.ok(msame(b.overlap(),r.overlap())&&msame(b.kinetic(),r.kinetic())&&msame(b.nuclear(),r.nuclear()),"basis-operators"); H.ok(b.Nbf()==r.Nbf(),"basis-size"); H.state("op"); });
  for(size_t k=0;k<DBS.size();k++) for(int f: {3,4,5,8}) for(int nn: {2,3,4}) for(int st=0;st<2;st++) H.run(fmt("basis.di%zu.f%d.nn%d.%s",k,f,nn,st?"open":"closed"),[=]{ DB a=DBS[k]; a.f=f; a.nn=nn; if(f==3&&nn==2) a.nn=4; Sess s; if(st&&!s.open){ s.c->open(); s.open=true; } auto b=mkd(a); s.mustok("write",[&]{ s.c->write(b); }); modd(s.M,a); audit(s,false); db::TwoDBasis r; s.mustok("read",[&]{ s.c->read(r); }); H.ok(msame(b.overlap(),r.overlap())&&msame(b.kinetic(),r.kinetic())&&msame(b.nuclear(),r.nuclear()),"basis-operators"); H.ok(b.Nbf()==r.Nbf(),"basis-size"); H.state("op"); }); 
  // an incomplete checkpoint is refused, whichever entry is missing
  for(int di=0;di<2;di++) H.run(fmt("basis.missing.%d",di),[=]{ std::vector<std::string> keys; { Model M; if(di) modd(M,DBS[1]); else moda(M,ABS[1]); for(auto&e: M) keys.push_back(e.first); } for(auto&k: keys) for(int st=0;st<2;st++){ Sess s; if(di){ auto b=mkd(DBS[1]); s.mustok("write",[&]{ s.c->write(b); }); modd(s.M,DBS[1]); } else { auto b=mka(ABS[1]); s.mustok("write",[&]{ s.c->write(b); }); moda(s.M,ABS[1]); } s.mustok("remove",[&]{ s.c->remove(k); }); s.M.erase(k); if(st&&!s.open){ s.c->open(); s.open=true; } H.state(k); audit(s,false); } });
}
static void explore(){ H5Eset_auto(H5E_DEFAULT,NULL,NULL);
  H.run("missing-file",[]{ for(int k=0;k<2;k++){ unlink("nonexist.tmp"); H.step(); H.throws([]{ Checkpoint c("nonexist.tmp",false); },"missing-file"); H.ok(!file_exists("nonexist.tmp"),"missing-file-created"); } FILE*f=fopen("garbage.tmp","w"); fputs("not an HDF5 file at all",f); fclose(f); H.throws([]{ Checkpoint c("garbage.tmp",false); },"garbage-file"); H.throws([]{ Checkpoint c("garbage.tmp",true,false); },"garbage-file"); H.ok(file_exists("garbage.tmp"),"garbage-kept"); unlink("garbage.tmp"); H.throws([]{ Checkpoint c("no/such/dir.chk",true); },"unwritable"); H.state("x"); });
  H.run("append-new",[]{ unlink("fresh.tmp"); for(int k=0;k<2;k++){ std::string fn="fresh.tmp"; { Checkpoint c(fn,true,false); H.step(); H.ok(file_exists(fn),"append-creates"); H.ok(c.exist("x")==(k==1),"append-keeps"); c.write("x",3); } H.state(fmt("%d",k)); } unlink("fresh.tmp"); });
  H.run("tempname",[]{ std::set<std::string> S; for(int k=0;k<50;k++){ auto t=tempname(); H.step(); H.ok(!file_exists(t),"tempname-fresh"); FILE*f=fopen(t.c_str(),"w"); if(f) fclose(f); H.ok(S.insert(t).second,"tempname-unique"); } for(auto&t: S) unlink(t.c_str()); });
  bases(); shapes<double>("d"); shapes<long double>("l"); crashes();
  enumerate(ops(true),2,"hist2",true); enumerate(ops(false),H.thorough()?4:3,"hist",false);
  if(H.thorough()) enumerate(ops(true),3,"hist3",true);
}
VH_MAIN
