// C19: interpretation of input: command lines, functionals, elements, electron counts, tables, timers.
#include "vh.h"
#include "general/cmdline.h"
#include "general/dftfuncs.h"
#include "general/elements.h"
#include "general/scf_helpers.h"
#include "general/eigen_io.h"
#include "general/timer.h"
#include <xc.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
#include <memory>
#ifdef XC_FLAGS_NEEDS_TAU
#define VH_TAU(fl) (((fl)&XC_FLAGS_NEEDS_TAU)!=0)
#else
#define VH_TAU(fl) true // older libxc: every meta-GGA gets tau
#endif
// ---- a clock under our control --------------------------------------------------------------------
static bool fake=false; static long long fakens=0;
extern "C" time_t __real_time(time_t*);
extern "C" time_t __wrap_time(time_t*t){ if(!fake) return __real_time(t); time_t v=fakens/1000000000LL; if(t) *t=v; return v; }
extern "C" int __real_clock_gettime(clockid_t,struct timespec*);
extern "C" int __wrap_clock_gettime(clockid_t c,struct timespec*t){ if(!fake) return __real_clock_gettime(c,t); t->tv_sec=fakens/1000000000LL; t->tv_nsec=fakens%1000000000LL; return 0; }
// ---- reference command-line parser ------------------------------------------------------------------
enum Ty { FLAG, INT, DBL, STR };
struct Opt { std::string name; char sh; Ty ty; bool need; std::string def; int kind; /*0 plain 1 range 2 oneof*/ };
struct Val { bool has=false; int i=0; double d=0; std::string s; };
// a value is accepted iff the whole text after leading blanks is one number
static bool conv(const Opt&o,const std::string&t,Val&v){ if(o.ty==STR){ if(o.kind==2&&t!="red"&&t!="blue") return false; v.s=t; return true; } size_t p=t.find_first_not_of(" \t\n\v\f\r"); if(p==std::string::npos) return false; std::string u=t.substr(p);
  size_t k=0; bool dig=false; if(k<u.size()&&(u[k]=='+'||u[k]=='-')) k++; size_t d0=k; while(k<u.size()&&isdigit(u[k])) { k++; dig=true; }
  if(o.ty==INT){ if(!dig||k!=u.size()||k-d0>18) return false; long long x=0; for(size_t q=d0;q<k;q++) x=x*10+(u[q]-'0'); if(u[0]=='-') x=-x; if(x>2147483647LL||x<-2147483648LL) return false; if(o.kind==1&&(x<0||x>10)) return false; v.i=(int)x; return true; }
  if(k<u.size()&&u[k]=='.'){ k++; while(k<u.size()&&isdigit(u[k])) { k++; dig=true; } } if(!dig) return false; if(k<u.size()&&(u[k]=='e'||u[k]=='E')){ k++; if(k<u.size()&&(u[k]=='+'||u[k]=='-')) k++; size_t e0=k; while(k<u.size()&&isdigit(u[k])) k++; if(k==e0) return false; } if(k!=u.size()) return false; v.d=strtod(u.c_str(),NULL); return std::isfinite(v.d); }
struct Ref { std::vector<Opt> O; std::map<std::string,Val> V; std::vector<std::string> rest; int nerr=0;
  const Opt* byname(const std::string&n){ for(auto&o: O) if(o.name==n) return &o; return NULL; }
  const Opt* byshort(char c){ for(auto&o: O) if(o.sh==c) return &o; return NULL; }
  void assign(const Opt&o,const std::string&t){ Val v=V[o.name]; if(conv(o,t,v)){ v.has=true; V[o.name]=v; } else nerr++; }
  void set(const Opt&o,const std::string*t){ if(o.ty==FLAG){ if(t) nerr++; else V[o.name].has=true; } else if(!t) nerr++; else assign(o,*t); }
  bool parse(const std::vector<std::string>&a){ for(auto&o: O){ Val v; if(o.ty!=FLAG) { Opt p=o; p.kind=0; conv(p,o.def,v); } V[o.name]=v; }
    for(size_t i=0;i<a.size();i++){ const std::string&t=a[i]; if(t.compare(0,2,"--")==0){ size_t e=t.find('=',2); std::string n=t.substr(2,e==std::string::npos?e:e-2); const Opt*o=byname(n); if(e!=std::string::npos){ std::string val=t.substr(e+1); if(!o) nerr++; else set(*o,&val); } else if(!o) nerr++; else if(o->ty==FLAG) set(*o,NULL); else if(i+1<a.size()) set(*o,&a[++i]); else nerr++; }
      else if(t[0]=='-'){ if(t.size()==1) continue; for(size_t j=1;j+1<t.size();j++){ const Opt*o=byshort(t[j]); if(!o) nerr++; else set(*o,NULL); } const Opt*o=byshort(t.back()); if(!o) nerr++; else if(o->ty!=FLAG&&i+1<a.size()) set(*o,&a[++i]); else set(*o,NULL); }
      else rest.push_back(t); }
    for(auto&o: O) if(o.need&&!V[o.name].has) nerr++;
    return nerr==0; } };
static std::vector<std::vector<Opt>> sets(){ return {
  {{"verbose",'v',FLAG,false,"",0},{"Z",'Z',INT,true,"0",0},{"x",'x',DBL,false,"1.5",0},{"name",'s',STR,false,"ab",0},{"r",0,INT,false,"5",1}},
  {{"alpha",'a',FLAG,false,"",0},{"beta",'b',FLAG,false,"",0},{"val",'x',DBL,false,"-2e-3",0},{"vale",0,INT,false,"7",0},{"col",'c',STR,true,"",2}},
  {{"x",'x',DBL,true,"0",0},{"xx",'y',DBL,true,"0",0}} }; }
static std::vector<std::vector<std::string>> toks(){ return {
  {"-v","--verbose","--Z","-Z","3","--Z=4","--x=1e-3","-x","-2.5","--name=","--name","abc","-vZ","-Zv","--verbose=1","--nope","--nope=1","-q","--r=11","--r=10","-","--","=","--Z=4x","--x= 5"},
  {"-a","-ab","-ba","-abx","1","-xa","--val","--val=1","--vale","--vale=2","--col=red","--col","blue","green","-c","--colx=red","--co=red","-","--al","-aa","--alpha","-z","-az","1e400","--=x"},
  {"-x","--x","-y","--xx","--xx=3","--x=4","--x=1=2","2","-1","+3","0x10","1.","1e","nan",".5","5 ","--x=","-yx","-xy","99999999999"} }; }
static std::unique_ptr<cmdline::parser> mk(const std::vector<Opt>&O){ std::unique_ptr<cmdline::parser> p(new cmdline::parser); for(auto&o: O){ if(o.ty==FLAG) p->add(o.name,o.sh,"d"); else if(o.ty==INT){ if(o.kind==1) p->add<int>(o.name,o.sh,"d",o.need,atoi(o.def.c_str()),cmdline::range(0,10)); else p->add<int>(o.name,o.sh,"d",o.need,atoi(o.def.c_str())); } else if(o.ty==DBL) p->add<double>(o.name,o.sh,"d",o.need,atof(o.def.c_str())); else if(o.kind==2) p->add<std::string>(o.name,o.sh,"d",o.need,o.def,cmdline::oneof<std::string>("red","blue")); else p->add<std::string>(o.name,o.sh,"d",o.need,o.def); } return p; }
static std::string join(const std::vector<std::string>&a){ std::string s; for(auto&x: a) s+=(s.empty()?"":" ")+x; return s; }
static void compare(cmdline::parser&p,bool ok,Ref&R,bool rok,const std::string&cx){ H.ok(ok==rok,"accepts",cx+(rok?" should be accepted":" should be refused")); H.ok(ok==p.error().empty()&&ok==p.error_full().empty(),"error-text",cx);
  H.ok(p.rest()==R.rest,"rest",cx);
  // every reported problem counts once
  { auto e=p.error_full(); H.ok((long)std::count(e.begin(),e.end(),'\n')==R.nerr,"error-count",cx); }
  for(auto&o: R.O){ Val&v=R.V[o.name]; H.ok(p.exist(o.name)==v.has,"exist",cx+" --"+o.name); if(o.ty==INT) H.ok(p.get<int>(o.name)==v.i,"value",cx+" --"+o.name); if(o.ty==DBL) H.ok(p.get<double>(o.name)==v.d,"value",cx+" --"+o.name); if(o.ty==STR) H.ok(p.get<std::string>(o.name)==v.s,"value",cx+" --"+o.name+" is '"+p.get<std::string>(o.name)+"'"); } }
static void commandlines(){ auto S=sets(); auto T=toks(); int D=H.thorough()?5:4;
  for(size_t s=0;s<S.size();s++) { int n=T[s].size(); for(int a=-1;a<n;a++) for(int b=a<0?-1:0;b<(a<0?0:n);b++) H.run(fmt("cmd.%zu.%d.%d",s,a,b),[=]{ vh::Quiet q; std::vector<std::string> pre; std::function<void(int)> rec=[&](int d){
      { Ref R; R.O=S[s]; bool rok=R.parse(pre); std::vector<std::string> full{"prog"}; full.insert(full.end(),pre.begin(),pre.end()); std::vector<const char*> av; for(auto&x: full) av.push_back(x.c_str()); auto p=mk(S[s]); bool ok=p->parse((int)av.size(),av.data()); H.step(); std::string cx="["+join(pre)+"]"; compare(*p,ok,R,rok,cx);
        if(pre.size()<=2){ H.state(cx); auto p2=mk(S[s]); H.ok(p2->parse(full)==rok,"vector-form",cx); compare(*p2,p2->parse(full),R,rok,cx);
          std::string line="prog"; for(auto&x: pre){ line+=" \""; for(char ch: x){ if(ch=='"'||ch=='\\') line+='\\'; line+=ch; } line+="\""; } bool blank=false; for(auto&x: pre) if(x.empty()) blank=true; if(!blank){ auto p3=mk(S[s]); bool o3=p3->parse(line); compare(*p3,o3,R,rok,cx+" as one line"); std::string l2="prog"; for(auto&x: pre){ l2+=" "; for(char ch: x){ if(ch==' '||ch=='"'||ch=='\\') l2+='\\'; l2+=ch; } } auto p4=mk(S[s]); bool o4=p4->parse(l2); compare(*p4,o4,R,rok,cx+" escaped"); } } }
      if(d>0) for(int k=0;k<n;k++){ pre.push_back(T[s][k]); rec(d-1); pre.pop_back(); } };
    if(a<0) { rec(0); for(int k=0;k<n;k++){ pre={T[s][k]}; rec(0); } } else { pre={T[s][a],T[s][b]}; rec(D-2); } }); }
  H.run("cmd.api",[=]{ vh::Quiet q; for(auto&O: S){ auto p=mk(O); H.step(); for(auto&o: O){ H.throws([&]{ p->add(o.name,0,""); },"redefinition"); H.throws([&]{ p->add<int>(o.name,0,""); },"redefinition"); if(o.ty!=INT) H.throws([&]{ p->get<int>(o.name); },"type-mismatch"); if(o.ty!=STR) H.throws([&]{ p->get<std::string>(o.name); },"type-mismatch"); } H.throws([&]{ p->get<int>("nosuch"); },"no-such-option"); H.throws([&]{ p->exist("nosuch"); },"no-such-option");
      auto u=p->usage(); for(auto&o: O){ H.ok(u.find("--"+o.name+" ")!=std::string::npos,"usage-lists",o.name); if(o.ty!=FLAG&&!o.need&&o.ty!=DBL) H.ok(u.find("[="+o.def+"]")!=std::string::npos,"usage-default",o.name); if(o.sh) H.ok(u.find(std::string("-")+o.sh+", --"+o.name)!=std::string::npos,"usage-short",o.name); } } 
    { cmdline::parser p; p.add("one",'x',""); p.add("two",'x',""); const char*av[]={"prog"}; H.ok(!p.parse(1,av),"ambiguous-short"); } { cmdline::parser p; H.ok(!p.parse(0,NULL),"no-arguments"); } { cmdline::parser p; H.ok(!p.parse(std::string("prog \"abc")),"unclosed-quote"); H.ok(!p.parse(std::string("prog abc\\")),"dangling-backslash"); } });
  // parse_check ends the program exactly when it should
  for(size_t s=0;s<S.size();s++) H.run(fmt("cmd.check.%zu",s),[=]{ auto tk=T[s]; tk.push_back("--help"); tk.push_back("-?"); int n=tk.size(); for(int a=-1;a<n;a++) for(int b=-1;b<(a<0?0:n);b++){ std::vector<std::string> pre; if(a>=0) pre.push_back(tk[a]); if(b>=0) pre.push_back(tk[b]); auto O=S[s]; O.push_back({"help",'?',FLAG,false,"",0}); Ref R; R.O=O; bool rok=R.parse(pre); int want=R.V["help"].has||(pre.empty()&&!rok)?0:!rok?1:77; 
      for(int form=0;form<2;form++){ fflush(stdout); fflush(stderr); pid_t pid=fork(); if(pid==0){ alarm(20); int nul=open("/dev/null",O_WRONLY); dup2(nul,1); dup2(nul,2); auto p=mk(S[s]); std::vector<std::string> full{"prog"}; full.insert(full.end(),pre.begin(),pre.end()); if(form==0){ std::vector<char*> av; for(auto&x: full) av.push_back((char*)x.c_str()); p->parse_check((int)av.size(),av.data()); } else p->parse_check(full); _exit(77); } int st; waitpid(pid,&st,0); H.step(); H.ok(WIFEXITED(st)&&WEXITSTATUS(st)==want,"exit-status",fmt("[%s] form %d got %d want %d",join(pre).c_str(),form,WIFEXITED(st)?WEXITSTATUS(st):-1,want)); } H.state(join(pre)); } });
}
// ---- functionals ---------------------------------------------------------------------------------------
static std::string upper(std::string s){ for(auto&c: s) c=toupper(c); return s; }
static void functionals(){ int n=xc_number_of_functionals(); std::vector<int> ids(n); xc_available_functional_numbers(ids.data()); std::sort(ids.begin(),ids.end());
  for(int id: ids) H.run(fmt("func.%d",id),[=]{ vh::Quiet q; xc_func_type f; if(xc_func_init(&f,id,XC_POLARIZED)) return; char*nm=xc_functional_get_name(id); std::string name(nm); free(nm); int kind=f.info->kind,fam=f.info->family,fl=f.info->flags;
      H.ok(get_keyword(id)==name,"keyword"); H.ok(find_func(name)==id&&find_func(upper(name))==id&&find_func(fmt("%d",id))==id,"find"); H.step(3);
      H.ok(is_exchange(id)==(kind==XC_EXCHANGE||kind==XC_EXCHANGE_CORRELATION)&&is_correlation(id)==(kind==XC_CORRELATION)&&is_exchange_correlation(id)==(kind==XC_EXCHANGE_CORRELATION)&&is_kinetic(id)==(kind==XC_KINETIC),"kind");
      bool lda=fam==XC_FAMILY_LDA||fam==XC_FAMILY_HYB_LDA,gga=fam==XC_FAMILY_GGA||fam==XC_FAMILY_HYB_GGA,mg=fam==XC_FAMILY_MGGA||fam==XC_FAMILY_HYB_MGGA; bool exc=fl&XC_FLAGS_HAVE_EXC; H.ok(has_exc(id)==exc,"has-exc"); H.ok(is_supported(id),"supported");
      if(lda||gga||mg){ bool g,t,l; is_gga_mgga(id,g,t,l); H.ok(g==gga&&t==(mg&&VH_TAU(fl))&&l==(mg&&(fl&XC_FLAGS_NEEDS_LAPLACIAN)!=0),"class"); H.ok(gradient_needed(id)==(gga||mg)&&tau_needed(id)==(mg&&VH_TAU(fl))&&laplacian_needed(id)==(mg&&(fl&XC_FLAGS_NEEDS_LAPLACIAN)!=0),"needs");
        // an ingredient said not to be needed does not change the energy
        if(exc&&fam!=XC_FAMILY_UNKNOWN){ auto en=[&](double s,double la,double ta){ double r[2]={0.31,0.22},sg[3]={s,0.3*s,0.6*s},lp[2]={la,0.5*la},tu[2]={ta,0.8*ta},e=0; if(lda) xc_lda_exc(&f,1,r,&e); else if(gga) xc_gga_exc(&f,1,r,sg,&e); else xc_mgga_exc(&f,1,r,sg,lp,tu,&e); return e; }; double e0=en(0.05,-0.4,0.3); if(!tau_needed(id)&&mg) H.ok(en(0.05,-0.4,0.37)==e0,"tau-not-needed"); if(!laplacian_needed(id)&&mg) H.ok(en(0.05,-0.2,0.3)==e0,"laplacian-not-needed"); } }
      double w,a,b; range_separation(id,w,a,b); bool er,yu; is_range_separated(id,er,yu); bool cam=fl&(XC_FLAGS_HYB_CAM|XC_FLAGS_HYB_LC),camy=fl&(XC_FLAGS_HYB_CAMY|XC_FLAGS_HYB_LCY); H.ok(er==cam&&yu==camy&&is_range_separated(id)==(cam||camy),"range-separated"); H.step(6);
      bool hyb=fam==XC_FAMILY_HYB_LDA||fam==XC_FAMILY_HYB_GGA||fam==XC_FAMILY_HYB_MGGA; if(!hyb) H.ok(exact_exchange(id)==0&&w==0&&a==0&&b==0,"no-exact-exchange"); else { double W=0,A=0,B=0; xc_hyb_cam_coef(&f,&W,&A,&B); H.ok(exact_exchange(id)==xc_hyb_exx_coef(&f),"exact-exchange"); H.ok(a==A&&(cam||camy? w==W&&b==B : w==0&&b==0),"range-separation"); }
      double vb,vc; bool vv=needs_VV10(id,vb,vc); H.ok(vv==!!(fl&XC_FLAGS_VV10),"vv10"); if(vv){ double B,C; xc_nlc_coef(&f,&B,&C); H.ok(vb==B&&vc==C,"vv10-parameters"); } else H.ok(vb==0&&vc==0,"vv10-parameters");
      int x,c; if(kind==XC_KINETIC) { H.throws([&]{ parse_xc_func(x,c,name); },"kinetic-refused"); H.throws([&]{ parse_xc_func(x,c,"none-"+name); },"kinetic-refused"); } else { std::vector<std::pair<std::string,int>> part{{"none",0},{"HF",-1},{"hyb_x_hf",-1},{"lda_c_vwn",7},{"130",130},{"GGA_X_PBE",101},{name,id}}; parse_xc_func(x,c,name); H.ok(x==id&&c==0,"parse-single"); for(auto&p: part) for(int k=0;k<2;k++){ x=c=-7; parse_xc_func(x,c,k?name+"-"+p.first:p.first+"-"+name); H.step(); H.ok(k? x==id&&c==p.second : x==p.second&&c==id,"parse-pair",p.first+"/"+name); } for(auto bad: {"","-","foo-","-foo","lda_x_nonexistent"}) H.throws([&]{ parse_xc_func(x,c,std::string(bad)); },"parse-bad",bad); H.throws([&]{ parse_xc_func(x,c,name+"-"); },"parse-bad",name+"-"); H.throws([&]{ parse_xc_func(x,c,"-"+name); },"parse-bad","-"+name); H.throws([&]{ parse_xc_func(x,c,name+"qqq"); },"parse-bad",name+"qqq"); }
      if(lda||gga||mg) print_info(id); xc_func_end(&f); H.state("all"); });
  H.run("func.special",[=]{ vh::Quiet q; double w,a,b; for(const char*s: {"hf","HF","Hyb_X_hf"}){ int x,c; parse_xc_func(x,c,s); H.ok(x==-1&&c==0,"hf"); } range_separation(-1,w,a,b); H.ok(exact_exchange(-1)==1&&exact_exchange(0)==0&&w==0&&a==1&&b==0,"hf-exchange"); range_separation(0,w,a,b); H.ok(w==0&&a==0&&b==0,"none-exchange"); H.ok(is_exchange(-1)&&!is_exchange(0)&&!is_correlation(0)&&!is_correlation(-1)&&!is_kinetic(0)&&!is_kinetic(-1)&&!is_exchange_correlation(-1)&&!is_range_separated(0)&&!is_range_separated(-1),"special-kind"); H.ok(get_keyword(0)=="none"&&find_func("None")==0&&find_func(get_keyword(-1))==-1,"special-names"); for(int id: {0,-1}) H.ok(!gradient_needed(id)&&!tau_needed(id)&&!laplacian_needed(id)&&is_supported(id)&&has_exc(id),"special-needs"); bool g=true,t=true,l=true; is_gga_mgga(-1,g,t,l); H.ok(!g&&!t&&!l,"special-needs"); H.step(8);
    std::set<int> have(ids.begin(),ids.end()); int bad=0; for(int id=1;id<1000;id++) if(!have.count(id)){ bad++; int x,c; H.throws([&]{ parse_xc_func(x,c,fmt("%d",id)); },"unknown-id",fmt("%d",id)); H.throws([&]{ get_keyword(id); },"unknown-id"); H.throws([&]{ is_exchange(id); },"unknown-id"); H.throws([&]{ is_correlation(id); },"unknown-id"); H.throws([&]{ exact_exchange(id); },"unknown-id"); H.throws([&]{ has_exc(id); },"unknown-id"); H.throws([&]{ bool a,b,c; is_gga_mgga(id,a,b,c); },"unknown-id"); H.throws([&]{ double a,b,c; range_separation(id,a,b,c); },"unknown-id"); H.state(fmt("%d",id)); } });
}
// ---- elements ---------------------------------------------------------------------------------------------
static void elements(){ 
  // an independent table: names and symbols in order
  static const char*tab="H Hydrogen He Helium Li Lithium Be Beryllium B Boron C Carbon N Nitrogen O Oxygen F Fluorine Ne Neon Na Sodium Mg Magnesium Al Aluminium Si Silicon P Phosphorus S Sulfur Cl Chlorine Ar Argon K Potassium Ca Calcium Sc Scandium Ti Titanium V Vanadium Cr Chromium Mn Manganese Fe Iron Co Cobalt Ni Nickel Cu Copper Zn Zinc Ga Gallium Ge Germanium As Arsenic Se Selenium Br Bromine Kr Krypton Rb Rubidium Sr Strontium Y Yttrium Zr Zirconium Nb Niobium Mo Molybdenum Tc Technetium Ru Ruthenium Rh Rhodium Pd Palladium Ag Silver Cd Cadmium In Indium Sn Tin Sb Antimony Te Tellurium I Iodine Xe Xenon Cs Caesium Ba Barium La Lanthanum Ce Cerium Pr Praseodymium Nd Neodymium Pm Promethium Sm Samarium Eu Europium Gd Gadolinium Tb Terbium Dy Dysprosium Ho Holmium Er Erbium Tm Thulium Yb Ytterbium Lu Lutetium Hf Hafnium Ta Tantalum W Tungsten Re Rhenium Os Osmium Ir Iridium Pt Platinum Au Gold Hg Mercury Tl Thallium Pb Lead Bi Bismuth Po Polonium At Astatine Rn Radon Fr Francium Ra Radium Ac Actinium Th Thorium Pa Protactinium U Uranium Np Neptunium Pu Plutonium Am Americium Cm Curium Bk Berkelium Cf Californium Es Einsteinium Fm Fermium Md Mendelevium No Nobelium Lr Lawrencium Rf Rutherfordium Db Dubnium Sg Seaborgium Bh Bohrium Hs Hassium Mt Meitnerium Ds Darmstadtium Rg Roentgenium Cn Copernicium Nh Nihonium Fl Flerovium Mc Moscovium Lv Livermorium Ts Tennessine Og Oganesson";
  std::vector<std::string> sym{""},nam{""}; { std::istringstream is(tab); std::string a,b; while(is>>a>>b){ sym.push_back(a); nam.push_back(b); } }
  H.run("elements",[=]{ H.ok(sym.size()==119,"table"); H.ok(sizeof(element_symbols)/sizeof(element_symbols[0])==119&&sizeof(element_names)/sizeof(element_names[0])==119,"table-size"); for(int Z=1;Z<=118;Z++){ H.ok(element_symbols[Z]==sym[Z],"symbol",sym[Z]); H.ok(element_names[Z]==nam[Z],"name",nam[Z]+" is "+element_names[Z]); std::string lo=sym[Z]; for(auto&c: lo) c=tolower(c); H.ok(get_Z(sym[Z])==Z&&get_Z(lo)==Z&&get_Z(upper(sym[Z]))==Z,"get-Z",sym[Z]); H.step(3); H.state(sym[Z]); } H.ok(get_Z("")==0,"no-nucleus"); for(int Z=-2;Z<=200;Z++) H.ok(get_Z(fmt("%d",Z))==Z,"numeric-Z"); 
      // every string of up to two letters that is no symbol is refused
      for(int a=0;a<26;a++) for(int b=-1;b<26;b++){ std::string s(1,'A'+a); if(b>=0) s+=char('a'+b); bool el=std::find(sym.begin(),sym.end(),s)!=sym.end(); H.step(); if(!el) H.throws([&]{ get_Z(s); },"not-an-element",s); } for(auto&n: nam) if(n.size()&&std::find(sym.begin(),sym.end(),n)==sym.end()) H.throws([&]{ get_Z(n); },"not-an-element",n); });
  H.run("orbitals",[=]{ // shells started, in order of n+l then n
      auto cnt=[](int Z,int*o){ int left=Z; for(int nl=1;nl<=8&&left>0;nl++) for(int l=(nl-1)/2;l>=0&&left>0;l--) { for(int k=0;k<=std::min(l,3);k++) o[k]++; left-=2*(2*l+1); } };
      for(int A=0;A<=118;A++) for(int B=0;B<=118;B++){ int o[4]={0,0,0,0}; cnt(A,o); cnt(B,o); int s=-1,p=-1,d=-1,f=-1; num_orbs(A,B,s,p,d,f); H.step(); H.ok(s==o[0]&&p==o[1]&&d==o[2]&&f==o[3],"num-orbs",fmt("Z %d %d",A,B)); } H.state("all"); });
}
// ---- electron counts ----------------------------------------------------------------------------------------
static void electrons(){ for(int Z=0;Z<=14;Z++) H.run(fmt("electrons.%d",Z),[=]{ for(int Q=-4;Q<=Z+3;Q++) for(int M=-2;M<=9;M++) for(int na=-2;na<=8;na++) for(int nb=-2;nb<=8;nb++){ int a=na,b=nb,q=Q,m=M; bool t=false; try { helfem::scf::parse_nela_nelb(a,b,q,m,Z); } catch(const std::exception&){ t=true; } H.step(); std::string cx=fmt("Z %d Q %d M %d nela %d nelb %d",Z,Q,M,na,nb);
      if(na==0&&nb==0){ int n=Z-Q; bool good=n>=0&&M>=1&&M-1<=n&&(n-(M-1))%2==0; H.ok(t==!good,"electrons-refused",cx); if(good&&!t) H.ok(a+b==n&&a-b==M-1&&q==Q&&m==M,"electrons",cx); }
      else { bool good=na>=0&&nb>=0&&na>=nb; H.ok(t==!good,"electrons-refused",cx); if(good&&!t) H.ok(a==na&&b==nb&&q==Z-na-nb&&m==na-nb+1,"electrons",cx); } } H.state("all"); }); }
// ---- numbers from text ---------------------------------------------------------------------------------------------
static void tables(){ std::vector<std::string> tk{"1","-2.5","1e-3","0.1","1e300","-0"}; std::vector<double> tv{1,-2.5,1e-3,0.1,1e300,-0.0}; std::vector<std::string> sep{" ","  ","\t","\n"};
  H.run("params",[=]{ std::function<void(std::vector<int>)> rec=[&](std::vector<int> s){ for(auto&sp: sep) for(int edge=0;edge<2;edge++) for(int file=0;file<2;file++){ std::string txt=edge?sp:""; for(size_t k=0;k<s.size();k++) txt+=(k?sp:"")+tk[s[k]]; if(edge) txt+=sp; std::string arg=txt; std::string fn=fmt("par_%d.tmp",(int)getpid()); if(file){ FILE*f=fopen(fn.c_str(),"w"); fputs(txt.c_str(),f); fclose(f); arg=fn; } auto v=helfem::scf::parse_xc_params(arg); H.step(); bool g=(size_t)v.size()==s.size(); for(size_t k=0;g&&k<s.size();k++) g=v(k)==tv[s[k]]; H.ok(g,file?"params-file":"params",arg); if(file) unlink(fn.c_str()); }
      std::string key; for(int x: s) key+=fmt("%d",x); H.state(key); if(s.size()<3) for(size_t k=0;k<tk.size();k++){ auto s2=s; s2.push_back(k); rec(s2); } }; rec({}); 
      for(auto bad: {"0.5,0.3","abc","1 2 x","1 2;","1.5d0"}) { H.step(); H.throws([&]{ helfem::scf::parse_xc_params(bad); },"params-garbage",bad); } });
  for(int r=0;r<=3;r++) for(int c=1;c<=4;c++) H.run(fmt("table.%d.%d",r,c),[=]{ std::string fn=fmt("tab_%d.tmp",(int)getpid()); for(int var=0;var<12;var++){ std::string t; Eigen::MatrixXi E(r,c); for(int i=0;i<r;i++){ if(var&1) t+="\n"; for(int j=0;j<c;j++){ E(i,j)=(i*7+j*3-5)*(var%3==0?1:100003); t+=(j?(var&2?"\t":" "):(var&4?"  ":""))+fmt("%d",E(i,j)); } if(var&4) t+=" "; if(i+1<r||!(var&8)) t+="\n"; } FILE*f=fopen(fn.c_str(),"w"); fputs(t.c_str(),f); fclose(f); auto M=helfem::io::read_raw_ascii_imat(fn); H.step(); H.ok(r==0? M.size()==0 : M.rows()==r&&M.cols()==c&&M==E,"integer-table"); 
        if(r>=2&&var==0){ f=fopen(fn.c_str(),"a"); for(int j=0;j<c+1;j++) fprintf(f,"1 "); fclose(f); H.throws([&]{ helfem::io::read_raw_ascii_imat(fn); },"ragged-table"); }
        { helfem::Mat<double> D(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) D(i,j)=(i+1.0)/(3.0+j)*std::pow(10,(i-j)*(var-6)*7); helfem::io::write_raw_ascii<double>(fn,D); std::ifstream in(fn); std::string line; int nr=0; bool g=true; size_t len=0; while(std::getline(in,line)){ if(nr==0) len=line.size(); g&=line.size()==len; std::istringstream is(line); std::string tok; int nc=0; while(is>>tok){ if(nr<r&&nc<c) g&=strtod(tok.c_str(),NULL)==D(nr,nc); nc++; } g&=nc==c; nr++; } H.ok(g&&nr==r,"matrix-dump"); }
        { helfem::Mat<long double> D(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) D(i,j)=(i+1.0L)/(3.0L+j)*powl(10,(i-j)*(var-6)*7); helfem::io::write_raw_ascii<long double>(fn,D); std::ifstream in(fn); std::string tok; bool g=true; int k=0; while(in>>tok){ if(k<r*c) g&=strtold(tok.c_str(),NULL)==D(k/c,k%c); k++; } H.ok(g&&k==r*c,"matrix-dump-long-double"); }
      } unlink(fn.c_str()); H.throws([&]{ helfem::io::read_raw_ascii_imat("no_such_file.tmp"); },"missing-table"); H.state("all"); });
  H.run("format",[=]{ for(int m=-9;m<=9;m++) for(int e=-300;e<=300;e+=3){ double d=m/7.0*std::pow(10.0,e); long double l=m/7.0L*powl(10.0L,e); H.step(2); auto s=helfem::io::fmt_sci(d); H.ok(strtod(s.c_str(),NULL)==d,"format",s); auto t=helfem::io::fmt_sci(l); H.ok(strtold(t.c_str(),NULL)==l,"format-long-double",t); } H.state("all"); });
}
// ---- timers: every sequence of operations under a controlled clock ---------------------------------------------------
static void timers(){ int D=H.thorough()?8:6; const char*nm[]={"set","stop","cont","get","copy"}; for(int a=0;a<5;a++) H.run(std::string("timer.")+nm[a],[=]{ std::vector<int> seq{a}; std::function<void()> rec=[&]{ { fake=true; fakens=1700000000LL*1000000000LL+123456789; Timer t; bool run=true; long long acc=0,start=fakens; int k=0; std::string cx; for(int o: seq){ fakens+=1500000000LL*(k%3+1)+7; k++; cx+=nm[o]; cx+=" "; switch(o){ case 0: t.set(); run=true; acc=0; start=fakens; break; case 1: t.stop(); if(run) acc+=fakens-start; run=false; break; case 2: t.cont(); if(!run) { run=true; start=fakens; } else { acc=-1; } break; case 3: { H.step(); } break; case 4: { Timer u(t); t=u; } break; } if(acc<0) break; long long want=acc+(run?fakens-start:0); if(!H.ok(std::abs(t.get()-want*1e-9)<1e-5,"elapsed",cx+fmt("got %.9f want %.9f",t.get(),want*1e-9))) break; } fake=false; } std::string k; for(int o: seq) k+=char('0'+o); H.state(k); if((int)seq.size()<D) for(int o=0;o<5;o++){ seq.push_back(o); rec(); seq.pop_back(); } }; rec(); });
  H.run("timer.text",[=]{ Timer t; for(int d=0;d<3;d++) for(int h: {0,1,23}) for(int m: {0,1,59}) for(double s: {0.0,0.25,1.0,12.34,59.99}){ double T=d*86400.0+h*3600.0+m*60.0+s; H.step(); auto x=t.parse(T); std::string e; if(d) e+=fmt("%d d ",d); if(h) e+=fmt("%d h ",h); if(m) e+=fmt("%d min ",m); e+=fmt("%.2f s",s); double back=0; std::istringstream is(x); double v; std::string u; while(is>>v>>u) back+=v*(u=="d"?86400:u=="h"?3600:u=="min"?60:u=="s"?1:1e9); H.ok(std::abs(back-T)<0.011,"elapsed-text",x+" for "+e); } H.state("all"); });
  H.run("timer.now",[=]{ const char*dn[]={"Sun","Mon","Tue","Wed","Thu","Fri","Sat"},*mn[]={"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"}; int Y=1970,mo=0,d=1; Timer t; for(long long day=0;day<(H.thorough()?47482:25000);day++) { int len=mo==1?((Y%4==0&&Y%100)||Y%400==0?29:28):(mo==3||mo==5||mo==8||mo==10)?30:31; for(int sec: {0,3661,86399}) { fake=true; fakens=(day*86400+sec)*1000000000LL; auto x=t.current_time(); fake=false; H.step(); auto e=fmt("%s %02d %s %4d %02d:%02d:%02d",dn[(day+4)%7],d,mn[mo],Y,sec/3600,sec/60%60,sec%60); if(!H.ok(x==e,"current-time",x+" expected "+e)) return; } if(++d>len) { d=1; if(++mo>11) { mo=0; Y++; } } } H.state("all"); });
}
static void explore(){ H.run("warm",[]{ H.state("x"); }); commandlines(); functionals(); elements(); electrons(); tables(); timers(); }
VH_MAIN
