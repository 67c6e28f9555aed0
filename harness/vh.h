// Common machinery of the bounded exhaustive explorers.
//
// A harness enumerates *cases* (fully specified configurations / operation
// sequences / schedules) with VH.run(key, fn).  Inside a case it executes
// operations of the real code (VH.step) and compares every observation with a
// reference model (VH.ok / VH.close ...).  Cases are sharded over processes.
// A partial report is written as JSON and merged by tools/check.py.
#ifndef VH_H
#define VH_H
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

namespace vh {
  inline std::string fmt(const char *f, ...) {
    char buf[2048]; va_list ap; va_start(ap,f); vsnprintf(buf,sizeof buf,f,ap); va_end(ap); return buf;
  }
  inline std::string jesc(const std::string &s) {
    std::string o; for(char c: s) {
      if(c=='"'||c=='\\') { o+='\\'; o+=c; }
      else if((unsigned char)c<32||(unsigned char)c>126) { char b[8]; snprintf(b,8,"\\u%04x",(unsigned char)c); o+=b; }
      else o+=c; }
    return o;
  }
  struct Violation { std::string key, what, msg; };
  class Harness {
  public:
    std::string prop, tier="quick", only, out; int shard=0,nshard=1; bool list=false;
    std::string curkey; long casecount=0;
    long steps=0, checks=0, cases=0;
    std::unordered_set<std::string> states; std::unordered_set<uint64_t> outcomes;
    std::vector<std::string> samples; std::vector<Violation> viol; std::set<std::string> violkeys;
    std::map<std::string,long> counters;
    std::map<std::string,double> maxerr;
    bool casefail=false; int jfd=-1;
    bool thorough() const { return tier=="thorough"; }
    void parse(int argc,char**argv) {
      for(int i=1;i<argc;i++) { std::string a=argv[i];
        auto nx=[&]{ return std::string(argv[++i]); };
        if(a=="--prop") prop=nx(); else if(a=="--tier") tier=nx(); else if(a=="--only") only=nx();
        else if(a=="--out") out=nx(); else if(a=="--shard") { shard=atoi(argv[++i]); nshard=atoi(argv[++i]); }
        else if(a=="--list") list=true;
        else { fprintf(stderr,"unknown arg %s\n",a.c_str()); exit(2);} }
      if(out.size()) { jfd=open((out+".journal").c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); }
    }
    void journal(const std::string &k) { if(jfd>=0) { std::string s=k+"\n"; ftruncate(jfd,0); pwrite(jfd,s.data(),s.size(),0); } }
    // Execute one case.
    void run(const std::string &key, const std::function<void()> &fn) {
      static bool stop1=getenv("VH_STOP")!=NULL; if(stop1&&viol.size()) return; // development: stop at the first violation
      long id=casecount++;
      if(only.size()) { if(key!=only) return; }
      else if(id%nshard!=shard) return;
      if(list) { puts(key.c_str()); return; }
      curkey=key; journal(key); cases++; states.insert(key); casefail=false;
      if(samples.size()<4 || (samples.size()<12 && cases%97==0)) samples.push_back(key);
      if(getenv("VH_TRACE")) { fprintf(stderr,"case %.2f %s\n",(double)clock()/CLOCKS_PER_SEC,key.c_str()); }
      alarm(caselimit()); 
      try { fn(); }
      catch(const std::exception &e) { fail("unexpected-exception",e.what()); }
      catch(...) { fail("unexpected-exception","(unknown)"); }
      alarm(0);
    }
    unsigned caselimit() const { return tier=="thorough"?3000:240; }
    // A (sub)state reached inside a case
    void state(const std::string &s) { states.insert(curkey+"#"+s); }
    void step(long n=1) { steps+=n; }
    void count(const std::string &k,long n=1) { counters[k]+=n; }
    void fail(const std::string &what,const std::string &msg) {
      casefail=true; if(violkeys.insert(curkey+"|"+what).second && viol.size()<400) { viol.push_back({curkey,what,msg}); if(out.size()&&viol.size()<=40) { FILE*f=fopen((out+".viol").c_str(),"a"); if(f) { fprintf(f,"{\"key\":\"%s\",\"what\":\"%s\",\"msg\":\"%s\"}\n",jesc(curkey).c_str(),jesc(what).c_str(),jesc(msg).c_str()); fclose(f); } } }
    }
    bool ok(bool c,const char *what,const std::string &msg="") { checks++; if(!c) fail(what,msg); return c; }
    void outcome(double v) { // quantised observation
      char b[64]; snprintf(b,64,"%.6e",v); uint64_t h=1469598103934665603ull; for(char*p=b;*p;p++){h^=(unsigned char)*p;h*=1099511628211ull;} outcomes.insert(h); }
    void outcome(const std::string &v) { uint64_t h=1469598103934665603ull; for(char c: v){h^=(unsigned char)c;h*=1099511628211ull;} outcomes.insert(h); }
    template<class A,class B> bool close(A a_,B b_,double tol,const char *what,const std::string &ctx="") {
      long double a=a_, b=b_; checks++; outcome((double)b);
      long double d=std::fabs(a-b); double &m=maxerr[what]; double r=(double)(d/tol); if(r>m) m=r;
      if(!(d<=tol)) { fail(what,fmt("%s got %.17Lg expected %.17Lg diff %.3Lg tol %.3g",ctx.c_str(),a,b,d,tol)); return false; }
      return true; }
    template<class M1,class M2> bool mclose(const M1&a,const M2&b,double tol,const char*what,const std::string &ctx="") {
      checks++;
      if(a.rows()!=b.rows()||a.cols()!=b.cols()) { fail(what,fmt("%s size mismatch %ldx%ld vs %ldx%ld",ctx.c_str(),(long)a.rows(),(long)a.cols(),(long)b.rows(),(long)b.cols())); return false; }
      if(a.size()==0) return true;
      long bi=0,bj=0; long double d=-1; bool bad=false;
      for(long i=0;i<(long)a.rows();i++) for(long j=0;j<(long)a.cols();j++) { long double x=std::fabs((long double)a(i,j)-(long double)b(i,j)); if(!(x==x)) {bad=true;bi=i;bj=j;d=x;} else if(!bad&&x>d) {d=x;bi=i;bj=j;} }
      outcome((double)b(bi,bj)); outcome((double)b.norm());
      double r=(double)(d/tol); double &m=maxerr[what]; if(r>m) m=r;
      if(bad||!(d<=tol)) { fail(what,fmt("%s (%ld,%ld) got %.17Lg expected %.17Lg diff %.3Lg tol %.3g",ctx.c_str(),bi,bj,(long double)a(bi,bj),(long double)b(bi,bj),d,tol)); return false; }
      return true; }
    // expects an exception; returns true if thrown
    template<class F> bool throws(F f,const char*what,const std::string &ctx="") { checks++; bool t=false; try { f(); } catch(const std::exception &) { t=true; } if(!t) fail(what,ctx+" did not throw"); return t; }
    int finish() {
      if(list) return 0;
      FILE *f=out.size()?fopen(out.c_str(),"w"):stdout;
      fprintf(f,"{\"prop\":\"%s\",\"cases\":%ld,\"steps\":%ld,\"checks\":%ld,\"states\":%zu,\"outcomes\":[",prop.c_str(),cases,steps,checks,states.size());
      bool c=false; for(uint64_t h: outcomes) { fprintf(f,"%s%llu",c?",":"",(unsigned long long)h); c=true; }
      fprintf(f,"],\"samples\":["); for(size_t i=0;i<samples.size();i++) fprintf(f,"%s\"%s\"",i?",":"",jesc(samples[i]).c_str());
      fprintf(f,"],\"counters\":{"); c=false; for(auto&k: counters) { fprintf(f,"%s\"%s\":%ld",c?",":"",jesc(k.first).c_str(),k.second); c=true; }
      fprintf(f,"},\"maxerr\":{"); c=false; for(auto&k: maxerr) { fprintf(f,"%s\"%s\":%.3g",c?",":"",jesc(k.first).c_str(),std::isfinite(k.second)?k.second:1e300); c=true; }
      fprintf(f,"},\"violations\":["); for(size_t i=0;i<viol.size();i++) fprintf(f,"%s{\"key\":\"%s\",\"what\":\"%s\",\"msg\":\"%s\"}",i?",":"",jesc(viol[i].key).c_str(),jesc(viol[i].what).c_str(),jesc(viol[i].msg).c_str());
      fprintf(f,"]}\n"); if(out.size()) fclose(f);
      return 0;
    }
  };
  inline Harness H;
  // Suppress stdout of the code under test
  struct Quiet { int saved; Quiet() { fflush(stdout); saved=dup(1); int n=open("/dev/null",O_WRONLY); dup2(n,1); ::close(n); } ~Quiet() { fflush(stdout); dup2(saved,1); ::close(saved); } };
}
using vh::H; using vh::fmt;
#define VH_MAIN int main(int argc,char**argv) { H.parse(argc,argv); explore(); return H.finish(); }
#endif
