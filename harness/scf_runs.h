// Second part of the explorer for the self-consistent field programs: whole runs
// (with the stand-in optimiser's own Roothaan/DIIS iterations), their files, and
// tables of frozen occupations.  Included by scf.cpp.
static ooo::Record solve(Main m,const Opt&o0,const char*what="run") { H.step(); Opt o=o0; bool t=o.count("@occs"); if(t) { std::ofstream("occs.dat")<<o["@occs"]; o.erase("@occs"); o["readocc"]="1"; } auto e=drive(m,o,nullptr); if(t) unlink("occs.dat"); o=o0; H.ok(e=="",what,show(o)+" "+e); auto r=ooo::probe().last; H.ok(r.converged,"converged",show(o)); ooo::probe().last=ooo::Record(); if(e.size()||!r.converged) throw Stop(); H.state(show(o)); return r; }
static double energy(Main m,const Opt&o) { return solve(m,o).energy; }
struct ReadTable { std::vector<std::vector<double>> v; bool ok=false; ReadTable(const std::string&f) { std::ifstream in(f); ok=in.good(); std::string l; while(std::getline(in,l)) { std::istringstream s(l); std::vector<double> r; double x; while(s>>x) r.push_back(x); v.push_back(r); } } MX mat() const { if(v.empty()) return MX(); MX m(v.size(),v[0].size()); for(size_t i=0;i<v.size();i++) { if(v[i].size()!=v[0].size()) throw std::runtime_error("ragged table"); for(size_t j=0;j<v[i].size();j++) m(i,j)=v[i][j]; } return m; } };
static void guarded(const std::string&key,const std::function<void()>&f) { H.run(key,[=]{ try { f(); } catch(Stop&){} }); }
static const Main AT=helfem_atomic_main,DI=helfem_diatomic_main,GS=helfem_gensap_main,AJ=helfem_aij_main;
// All set-ups of a group must give one energy
static void equal_group(const std::string&name,const std::vector<std::pair<Main,Opt>>&g,double tol) {
  guarded("equal:"+name,[=]{ double E0=0; for(size_t i=0;i<g.size();i++) { double E=energy(g[i].first,g[i].second); if(!i) E0=E; else H.close(E,E0,tol*(1+std::fabs(E0)),"same-energy",show(g[i].second)+" vs "+show(g[0].second)); } });
}
static void limit_case(const std::string&name,Main m,const Opt&o,double ref,double tol,bool variational=true) {
  guarded("limit:"+name,[=]{ double E=energy(m,o); H.close(E,ref,tol,"known-energy",name); if(variational) H.ok(E>ref-1e-9*(1+std::fabs(ref)),"variational",fmt("%.12f below %.12f",E,ref)); });
}
// Energies along a ladder of nested bases may only go down, never below the limit
static void ladder(const std::string&name,Main m,const std::vector<Opt>&l,double limit) {
  guarded("ladder:"+name,[=]{ double last=1e300; for(auto&o:l) { double E=energy(m,o); H.ok(E<=last+2e-10*(1+std::fabs(E)),"ladder",fmt("%.12f after %.12f ",E,last)+show(o)); H.ok(E>=limit-1e-9*(1+std::fabs(limit)),"variational",fmt("%.12f below %.12f",E,limit)); last=E; } });
}
static void energy_cases() {
  const bool th=H.thorough(); const Opt v0={{"verbosity","0"}};
  const Opt sm=with(v0,{{"nelem","3"},{"nnodes","6"},{"Rmax","12"}});
  // --- the same physical state asked for in different ways
  const std::vector<std::string> meth={"HF","lda_x-lda_c_vwn","gga_x_pbe-gga_c_pbe","mgga_x_tpss-mgga_c_tpss","hyb_gga_xc_pbeh","hyb_gga_xc_cam_b3lyp","hyb_gga_xc_camy_blyp"};
  for(auto&m:meth) for(const char*Z:{"He","Be","Ne"}) { bool rs=m.find("cam")!=std::string::npos; if(!th&&Z[0]=='N'&&m!="HF"&&m!="lda_x-lda_c_vwn"&&!rs) continue;
    std::vector<std::pair<Main,Opt>> g; const char*l=Z[0]=='N'||(Z[0]=='B'&&th)?"1":"0"; Opt o=with(sm,{{"Z",Z},{"method",m},{"M","1"},{"lmax",l},{"nelem",rs?"2":"3"}});
    for(int y=0;y<3;y++) for(int r=0;r<2;r++) if(th||(y+r)%2==0||m=="HF") g.push_back({AT,with(o,{{"mmax",l},{"ldft","8"},{"mdft","8"},{"symmetry",S_(y)},{"restricted",S_(r)}})});
    for(int r=0;r<2;r++) g.push_back({GS,with(o,{{"restricted",S_(r)}})});
    if(!Func(Opt{{"method",m}}).exx()) for(int M=0;M<2;M++) { Opt j=o; j["M"]=S_(M); j["njellium"]="0"; j["rs"]="0"; j["zeroright"]="1"; j["lmax"]=l; g.push_back({AJ,j}); }
    // the field-free run through the field code, and every starting point
    if(!rs) for(int ig=0;ig<5;ig++) if(Z[0]!='N'&&(th||m=="HF")) { g.push_back({GS,with(o,{{"iguess",S_(ig)}})}); g.push_back({AT,with(o,{{"mmax",l},{"ldft","8"},{"mdft","8"},{"iguess",S_(ig)}})}); }
    equal_group(std::string(Z)+","+m,g,2e-9); }
  const Opt ds=with(v0,{{"nelem","2"},{"nnodes","6"},{"Rmax","10"}});
  struct Mol { const char*a,*b,*R,*l; }; const std::vector<Mol> mols={{"H","H","1.4","3,1"},{"Li","H","3.0","4,1"},{"N","N","2.1","4,2"},{"","He","1.0","3,1"}};
  for(auto&m:meth) { if(m.find("cam")!=std::string::npos) continue; for(auto&x:mols) { bool homo=!strcmp(x.a,x.b); if(!th&&x.a[0]=='N'&&m!="HF"&&m!="lda_x-lda_c_vwn") continue;
    std::vector<std::pair<Main,Opt>> g; Opt o=with(ds,{{"Z1",x.a},{"Z2",x.b},{"Rbond",x.R},{"lmax",x.l},{"method",m},{"M","1"},{"ldft",th?"18":"10"},{"mdft",th?"18":"10"}});
    for(int y=0;y<4;y++) { if(y==2&&!homo) continue; for(int r=0;r<2;r++) for(int p=0;p<2;p++) { if(p&&y==0) continue; if(!Func(Opt{{"method",m}}).xc()&&p!=(y>0)) continue; if(!th&&((y+r+p)%2)&&!(r==0&&p==(y>0))) continue; g.push_back({DI,with(o,{{"symmetry",S_(y)},{"restricted",S_(r)},{"purem",S_(p)}})}); } }
    g.push_back({DI,with(o,{{"Rbond",S_(atof(x.R)*0.52917721067)},{"angstrom","1"}})}); if(!homo) g.push_back({DI,with(o,{{"Z1",x.b},{"Z2",x.a}})});
    equal_group(std::string(x.a)+x.b+","+m,g,x.a[0]=='N'?5e-9:2e-9); } }
  // reflections in fields; the coordinate system of the field is that of the molecule
  for(auto&f:std::vector<std::pair<Opt,Opt>>{{{{"Ez","0.02"}},{{"Ez","-0.02"}}},{{{"Qzz","0.01"}},{{"Qzz","0.01"}}},{{{"Bz","0.05"}},{{"Bz","-0.05"}}},{{{"Ez","0.01"},{"Qzz","-0.02"},{"Bz","0.03"}},{{"Ez","-0.01"},{"Qzz","-0.02"},{"Bz","0.03"}}}}) {
    std::vector<std::pair<Main,Opt>> g; for(int y:{0,1,3}) { Opt o=with(ds,{{"Rbond","2.9"},{"lmax","4,1"},{"method","HF"},{"M","1"},{"symmetry",S_(y)}}); g.push_back({DI,with(with(o,{{"Z1","Li"},{"Z2","H"}}),f.first)}); g.push_back({DI,with(with(o,{{"Z1","H"},{"Z2","Li"}}),f.second)}); }
    equal_group("LiH field "+show(f.first),g,2e-9);
    std::vector<std::pair<Main,Opt>> h; for(int y=0;y<3;y++) { Opt o=with(sm,{{"Z","Be"},{"lmax","2"},{"mmax","1"},{"method","HF"},{"M","1"},{"symmetry",S_(y)}}); h.push_back({AT,with(o,f.first)}); h.push_back({AT,with(o,f.second)}); }
    equal_group("Be field "+show(f.first),h,2e-9); }
  // excited states held by frozen occupations: m and -m, in opposite fields, and equivalent orientations of an open shell
  for(const char*m:{"HF","lda_x-lda_c_vwn","gga_x_pbe-gga_c_pbe","mgga_x_tpss-mgga_c_tpss"}) { bool hf=!strcmp(m,"HF"); if(!th&&m[0]=='g') continue;
    for(int k=0;k<(th?4:3);k++) { struct E { const char*a,*b,*l; int na,nb; std::string core; int oa,ob,mm; }; const E es[]={{"Li","H","2,1",2,1,"1 1 0\n",1,0,1},{"B","H","2,1,1",3,2,"2 1 0\n",1,1,1},{"He","He","2,2,2",2,1,"1 0 1\n0 1 -1\n",1,0,2},{"N","","2,1,2",3,1,"1 1 0\n1 0 2\n",1,0,1}}; const E&e=es[k];
      for(double Bz:{0.0,0.04}) { if(Bz&&k==1&&!th) continue; std::vector<std::pair<Main,Opt>> g; Opt o=with(ds,{{"nnodes","5"},{"Z1",e.a},{"Z2",e.b},{"Rbond","2.5"},{"lmax",e.l},{"method",m},{"nela",S_(e.na)},{"nelb",S_(e.nb)},{"restricted","0"},{"ldft","10"},{"mdft","10"},{"symmetry","1"}});
        auto occ=[&](int sg){ std::string t; std::istringstream is(e.core); int a,b,q; while(is>>a>>b>>q) t+=fmt("%d %d %d\n",a,b,q*sg); return t+fmt("%d %d %d\n",e.oa,e.ob,e.mm*sg); };
        if(Bz) { guarded(fmt("zeeman:%s,%s,%d",e.a,m,k),[=]{ double E1=energy(DI,with(o,{{"@occs",occ(1)},{"Bz",S_(Bz)}})),E2=energy(DI,with(o,{{"@occs",occ(-1)},{"Bz",S_(-Bz)}})); H.close(E1-E2,-(e.na-e.nb)*Bz,5e-9*(1+std::fabs(E1)),"same-energy","reversed field"); }); continue; }
        for(int sg:{1,-1}) for(int p:{0,1}) { if(hf&&p) continue; g.push_back({DI,with(o,{{"@occs",occ(sg)},{"purem",S_(p)}})}); }
        equal_group(fmt("excited %s%s,%s,%d",e.a,e.b,m,k),g,5e-9); } }
    { std::vector<std::pair<Main,Opt>> g; Opt o=with(sm,{{"nelem","2"},{"Z","Li"},{"lmax","1"},{"mmax","1"},{"method",m},{"nela","2"},{"nelb","1"},{"restricted","0"},{"ldft","8"},{"mdft","8"}}); for(int q:{1,-1,0}) { if(!q&&!hf) continue; /* m=0 needs l to tell 2p from 2s */ if(q) g.push_back({AT,with(o,{{"symmetry","1"},{"@occs",fmt("1 1 0\n1 0 %d\n",q)}})}); g.push_back({AT,with(o,{{"symmetry","2"},{"@occs",fmt("1 1 0 0\n1 0 1 %d\n",q)}})}); }
      equal_group(std::string("excited Li,")+m,g,5e-9); } }
  // an off-centre nucleus to the left is one to the right
  equal_group("HeH+ off-centre",{{AT,with(sm,{{"Z","He"},{"Zl","H"},{"Rmid","1.5"},{"nelem0","2"},{"lmax","3"},{"mmax","0"},{"nela","1"},{"nelb","1"},{"method","HF"}})},{AT,with(sm,{{"Z","He"},{"Zr","H"},{"Rmid","1.5"},{"nelem0","2"},{"lmax","3"},{"mmax","0"},{"nela","1"},{"nelb","1"},{"method","HF"}})},{AT,with(sm,{{"Z","He"},{"Zr","H"},{"Rmid",S_(1.5*0.52917721067)},{"angstrom","1"},{"nelem0","2"},{"lmax","3"},{"mmax","1"},{"symmetry","0"},{"nela","1"},{"nelb","1"},{"method","HF"}})}},2e-9);
  // --- complete basis limits
  const Opt big=with(v0,{{"nelem","5"},{"nnodes","14"},{"Rmax","30"}});
  struct Lim { const char*Z,*l,*m; double E,tol; const char*M; }; const std::vector<Lim> lims={{"H","0","HF",-0.5,1e-9,"2"},{"He","0","HF",-2.8616799956,1e-8,"1"},{"Be","0","HF",-14.5730231683,1e-8,"1"},{"Ne","1","HF",-128.547098109,2e-8,"1"},{"Mg","1","HF",-199.614636425,5e-7,"1"},{"Ar","1","HF",-526.817512803,5e-7,"1"},
    {"H","0","lda_x-lda_c_vwn",-0.445671,2e-6,"0"},{"H","0","lda_x-lda_c_vwn",-0.478671,2e-6,"2"},{"He","0","lda_x-lda_c_vwn",-2.834836,2e-6,"1"},{"Li","0","lda_x-lda_c_vwn",-7.335195,2e-6,"0"},{"Li","0","lda_x-lda_c_vwn",-7.343957,2e-6,"2"},{"Be","0","lda_x-lda_c_vwn",-14.447209,2e-6,"1"},{"Ne","1","lda_x-lda_c_vwn",-128.233481,2e-6,"1"}};
  for(auto&x:lims) { Opt o=with(big,{{"Z",x.Z},{"lmax",x.l},{"method",x.m},{"M",x.M}}); bool hf=!strcmp(x.m,"HF"); limit_case(std::string("gensap ")+x.Z+x.m+x.M,GS,o,x.E,x.tol,hf&&x.tol<1e-7); if(x.Z[0]!='M'&&x.Z[0]!='A') limit_case(std::string("atomic ")+x.Z+x.m+x.M,AT,with(o,{{"mmax",x.l}}),x.E,x.tol,hf); }
  for(int Z:{1,2,5,10,20}) { Opt o=with(big,{{"Z",S_(Z)},{"lmax","0"},{"method","HF"},{"nela","1"},{"nelb","0"},{"Rmax",S_(30./Z)}}); limit_case(fmt("hydrogenic %d",Z),GS,o,-0.5*Z*Z,1e-9*Z*Z); limit_case(fmt("hydrogenic %d a",Z),AT,with(o,{{"mmax","0"}}),-0.5*Z*Z,1e-9*Z*Z); }
  limit_case("H2+ R=2",DI,with(v0,{{"Z1","H"},{"Z2","H"},{"Rbond","2.0"},{"lmax","10"},{"mmax","0"},{"nelem","3"},{"nnodes","14"},{"Rmax","30"},{"method","HF"},{"nela","1"},{"nelb","0"}}),-0.6026342144949,1e-9);
  limit_case("H2 HF R=1.4",DI,with(v0,{{"Z1","H"},{"Z2","H"},{"Rbond","1.4"},{"lmax","8"},{"mmax","0"},{"nelem","3"},{"nnodes","14"},{"Rmax","30"},{"method","HF"},{"M","1"}}),-1.1336295715,1e-8);
  // hydrogen in weak fields: perturbation series
  for(double F:{0.002,0.004}) for(int y:{0,1}) if(th||(F<0.003)==y) limit_case(fmt("H Ez=%g symm %d",F,y),AT,with(v0,{{"nelem","4"},{"nnodes","14"},{"Rmax","25"},{"Z","H"},{"lmax","4"},{"mmax","0"},{"nela","1"},{"nelb","0"},{"method","HF"},{"Ez",S_(F)},{"symmetry",S_(y)}}),-0.5-2.25*F*F-3555./64*pow(F,4)-2512779./512*pow(F,6),1e-9,false);
  for(double B:{0.01,-0.02}) for(int s=0;s<2;s++) limit_case(fmt("H Bz=%g %s",B,s?"unres":"res"),AT,with(v0,{{"nelem","4"},{"nnodes","14"},{"Rmax","30"},{"Z","H"},{"lmax","4"},{"mmax","0"},{"nela","1"},{"nelb","0"},{"restricted",s?"0":"1"},{"method",s?"HF":"none-none"},{"Bz",S_(B)}}),s?-0.5-B/2+B*B/4-53./192*pow(B,4):0,s?1e-9:1e9,false);
  // --- variational ladders: nested angular and radial bases
  { std::vector<Opt> l; for(int L=0;L<=(th?10:6);L+=2) l.push_back(with(v0,{{"Z",""},{"Zl","H"},{"Zr","H"},{"Rmid","0.7"},{"nelem0","1"},{"nelem","2"},{"nnodes","7"},{"Rmax","20"},{"lmax",S_(L)},{"mmax","0"},{"M","1"},{"Q","-2"},{"method","HF"}})); for(auto&o:l) { o.erase("Q"); o.erase("M"); o["nela"]="1"; o["nelb"]="1"; } ladder("H2 one-centre",AT,l,-1.1336295715); }
  { std::vector<Opt> l; for(int L=0;L<=6;L+=2) l.push_back(with(v0,{{"Z1","Li"},{"Z2","H"},{"Rbond","3.015"},{"lmax",S_(L)},{"mmax","0"},{"nelem","2"},{"nnodes","8"},{"Rmax","20"},{"M","1"},{"method","HF"}})); ladder("LiH lmax",DI,l,-7.98735237); }
  for(int pb:{3,4}) { std::vector<Opt> l; for(int n=3;n<=9;n+=2) l.push_back(with(v0,{{"Z","Ne"},{"lmax","1"},{"nelem","3"},{"nnodes",S_(n)},{"primbas",S_(pb)},{"Rmax","20"},{"M","1"},{"method","HF"},{"nquad","60"}})); ladder(fmt("Ne nnodes pb%d",pb),GS,l,-128.547098109); }
  { std::vector<Opt> l; for(int n:{1,2,4,8}) l.push_back(with(v0,{{"Z","Be"},{"lmax","0"},{"nelem",S_(n)},{"nnodes","5"},{"grid","1"},{"Rmax","16"},{"M","1"},{"method","HF"}})); ladder("Be nelem",GS,l,-14.5730231683); }
  { std::vector<Opt> l; for(int n:{1,2,4}) l.push_back(with(v0,{{"Z1","H"},{"Z2","He"},{"nela","1"},{"nelb","1"},{"Rbond","1.5"},{"lmax","5"},{"mmax","0"},{"nelem",S_(n)},{"nnodes","5"},{"grid","1"},{"Rmax","20"},{"method","HF"}})); ladder("HeH+ nelem",DI,l,-2.95); }
}
// ---------------------------------------------------------------- saved states
static void spin_totals(const Ref&r,const DM&d,double&na,double&nb) { na=nb=0; for(size_t b=0;b<r.nb();b++) { double s=d.second[b].sum(); if(r.restricted) { na+=s/2; nb+=s/2; } else (b<r.nsym?na:nb)+=s; } }
// run o1 saving, then load into o2: starting density must be the saved one (same space) or hold the right electrons (other space)
static void roundtrip(const char*prog,Main m,std::function<Ref(const Opt&)> mk,const Opt&o1,const Opt&o2,bool samespace,int hops=1) {
  guarded(std::string("load:")+prog+":"+show(o1)+">"+show(o2)+fmt("%d%d",samespace,hops),[=]{
    std::string f=fmt("s%d.chk",(int)getpid()); unlink(f.c_str()); Ref r1,r2; { vh::Quiet q; r1=mk(o1); r2=mk(o2); }
    auto rec=solve(m,with(o1,{{"save",f}})); MX A,B,Pa,Pb; r1.spread(aodens(r1,{rec.C,rec.n}),A,B); int na=-1,nb=-1; { vh::Quiet q; Checkpoint c(f,false); c.read("Pa",Pa); c.read("Pb",Pb); c.read("nela",na); c.read("nelb",nb);
      if(m==DI) { double Rh=0; int z1=-1,z2=-1; c.read("Rhalf",Rh); c.read("Z1",z1); c.read("Z2",z2); H.ok(z1==get_Z(get(o1,"Z1",""))&&z2==get_Z(get(o1,"Z2","")),"saved-nuclei"); H.close(Rh,getd(o1,"Rbond",0)/2*(geti(o1,"angstrom",0)?1/0.52917721067:1),1e-12*(1+Rh),"saved-Rhalf"); } }
    double s=1+std::max(A.cwiseAbs().maxCoeff(),B.cwiseAbs().maxCoeff()); H.mclose(Pa,A,1e-11*s,"saved-alpha"); H.mclose(Pb,B,1e-11*s,"saved-beta"); H.ok(na==r1.nela&&nb==r1.nelb,"saved-counts",fmt("%d %d",na,nb)); H.close((MX(A+B)*r1.S).trace(),r1.nela+r1.nelb,1e-9*(1+na+nb),"saved-electrons");
    Opt ol=with(o2,{{"load",f}}); for(int h=0;h<hops;h++) { bool hit=false; H.step();
      auto e=drive(m,ol,[&](ooo::Record&x){ hit=true; H.ok(!x.from_fock,"starts-from-orbitals"); check_layout(r2,x); DM d={x.C,x.n};
        for(size_t b=0;b<r2.nb();b++) { if(!r2.size[b%r2.nsym]) continue; const MX&C=x.C[b]; if(!H.ok(C.rows()==r2.size[b%r2.nsym]&&x.n[b].size()==C.cols(),"loaded-size")) return; H.mclose(MX(C.transpose()*C),MX(MX::Identity(C.cols(),C.cols())),1e-10,"loaded-orthonormal"); H.ok(x.n[b].minCoeff()>=-1e-12&&x.n[b].maxCoeff()<=r2.cap[b%r2.nsym]+1e-12,"loaded-occupations"); }
        double ta,tb; spin_totals(r2,d,ta,tb); MX LA,LB; r2.spread(aodens(r2,d),LA,LB); double N=r2.nela+r2.nelb;
        if(samespace) { if(LA.rows()==Pa.rows()) { H.mclose(MX(LA+LB),MX(Pa+Pb),1e-8*s,"loaded-density"); if(!r2.restricted) { double fa=r1.restricted?2.*r2.nela/N:1,fb=r1.restricted?2.*r2.nelb/N:1; H.mclose(LA,MX(fa*Pa),1e-8*s,"loaded-alpha"); H.mclose(LB,MX(fb*Pb),1e-8*s,"loaded-beta"); } }
          H.close(ta+tb,N,1e-8*N,"loaded-electrons"); if(r1.restricted==r2.restricted) { auto y=x.fb(d); H.close(y.first,rec.energy,1e-8*(1+std::fabs(rec.energy)),"loaded-energy"); } }
        else { H.close(ta+tb,N,0.05*N,"loaded-electrons-other"); }
      }); H.ok(hit&&e=="","load",e);
      if(hops>1&&e=="") { // the continued run saves again: a chain of restarts stays on the same state
        auto rr=solve(m,with(ol,{{"save",fmt("t%d.chk",h)}})); if(samespace) H.close(rr.energy,rec.energy,1e-9*(1+std::fabs(rec.energy)),"restart-energy"); rename(fmt("t%d.chk",h).c_str(),f.c_str()); { vh::Quiet q; Checkpoint c(f,false); c.read("Pa",Pa); c.read("Pb",Pb); } } }
    // counts that differ are refused
    for(int k=0;k<3;k++) { Opt b=ol; b.erase("M"); b.erase("Q"); b["nela"]=S_(r2.nela+(k!=1)); b["nelb"]=S_(r2.nelb+(k==1?-1:k==2?1:0)); if(atoi(b["nelb"].c_str())<0) continue; bool hit=false; H.step(); auto e=drive(m,b,[&](ooo::Record&){ hit=true; throw Stop(); }); H.ok(!hit&&e.size()&&e!="stop","load-mismatch-refused",show(b)); }
    unlink(f.c_str()); });
}
static void gensap_roundtrip(const Opt&o1,const Opt&o2,bool samespace) {
  guarded("load:gensap:"+show(o1)+">"+show(o2),[=]{ std::string f="g.chk"; unlink(f.c_str()); Ref r1,r2; { vh::Quiet q; r1=gensap_ref(o1); r2=gensap_ref(o2); }
    auto rec=solve(GS,with(o1,{{"save",f}})); auto D=aodens(r1,{rec.C,rec.n}); size_t n1=r1.nsym,n2=r2.nsym;
    { vh::Quiet q; Checkpoint c(f,false); int i; c.read("sadatom_Z",i); H.ok(i==get_Z(get(o1,"Z","")),"saved-Z"); c.read("sadatom_lmax",i); H.ok(i+1==(int)n1,"saved-lmax"); c.read("sadatom_primbas",i); H.ok(i==geti(o1,"primbas",4),"saved-primbas"); c.read("sadatom_nnodes",i); H.ok(i==geti(o1,"nnodes",15),"saved-nnodes"); c.read("sadatom_Nquad",i); H.ok(i==(geti(o1,"nquad",0)?geti(o1,"nquad",0):5*poly_of(o1)->get_nbf()),"saved-nquad"); VX bv; c.read("sadatom_bval",bv); H.mclose(bv,r1.sad->bval,1e-13*(1+bv.cwiseAbs().maxCoeff()),"saved-grid");
      H.ok(c.exist("sadatom_Pbl_0")==!r1.restricted,"saved-beta-present");
      for(size_t b=0;b<r1.nb();b++) { MX P,C,oc; Eigen::MatrixXi cnt; size_t l=b%n1; const char*t=b<n1?"a":"b"; c.read(fmt("sadatom_P%sl_%zu",t,l),P); H.mclose(P,D[b],1e-11*(1+D[b].cwiseAbs().maxCoeff()),"saved-density"); c.read(fmt("sadatom_C%sl_%zu",t,l),C); c.read(fmt("sadatom_occ%sl_%zu",t,l),oc); size_t k=0; for(long i=0;i<rec.n[b].size();i++) if(rec.n[b](i)!=0) { if(!H.ok((long)k<C.cols()&&(long)k<oc.rows(),"saved-orbitals")) break; H.ok(oc(k,0)==rec.n[b](i),"saved-occupation"); H.mclose(MX(C.col(k)),MX(r1.X[l]*rec.C[b].col(i)),1e-10*(1+C.cwiseAbs().maxCoeff()),"saved-orbital"); k++; } H.ok((long)k==C.cols()&&(long)k==oc.rows(),"saved-orbital-count"); c.read(fmt("sadatom_occs_%s",t),cnt); H.ok(cnt.rows()==(long)n1&&cnt(l,0)==(int)std::lround(rec.n[b].sum()),"saved-occs"); } }
    bool hit=false; H.step(); auto e=drive(GS,with(o2,{{"load",f}}),[&](ooo::Record&x){ hit=true; DM d={x.C,x.n}; H.ok(!x.from_fock,"starts-from-orbitals"); check_layout(r2,x);
      for(size_t b=0;b<r2.nb();b++) { size_t l=b%n2; const MX&C=x.C[b]; if(!H.ok(C.rows()==r2.size[l]&&x.n[b].size()==C.cols(),"loaded-size")) return; H.mclose(MX(C.transpose()*C),MX(MX::Identity(C.cols(),C.cols())),1e-10,"loaded-orthonormal"); H.ok(x.n[b].minCoeff()>=-1e-12&&x.n[b].maxCoeff()<=r2.cap[l]+1e-12,"loaded-occupations"); }
      auto L=aodens(r2,d); for(size_t b=0;b<r2.nb();b++) { size_t l=b%n2; MX want=MX::Zero(D[0].rows(),D[0].cols()); if(l<n1) { if(r1.restricted==r2.restricted) want=D[(b/n2)*n1+l]; else if(r2.restricted) want=D[l]+D[n1+l]; else want=0.5*D[l]; }
        double N=l<n1?(want*r1.S).trace():0; if(samespace) H.mclose(L[b],want,1e-8*(1+want.cwiseAbs().maxCoeff()),"loaded-density",fmt("block %zu",b)); H.close(x.n[b].sum(),N,samespace?1e-8*(1+N):0.05*N+1e-6,"loaded-electrons",fmt("block %zu",b)); }
      if(samespace&&r1.restricted==r2.restricted&&n1==n2) { auto y=x.fb(d); H.close(y.first,rec.energy,1e-8*(1+std::fabs(rec.energy)),"loaded-energy"); } throw Stop(); });
    H.ok(hit&&e=="stop","load",e); unlink(f.c_str()); });
}
static void state_cases() {
  const bool th=H.thorough(); const Opt a={{"verbosity","0"},{"nelem","2"},{"nnodes","4"},{"Rmax","8"},{"lmax","1"},{"mmax","1"},{"method",th?"lda_x":"HF"},{"ldft","8"},{"mdft","8"}};
  // atoms: every pair of symmetries and spin treatments
  const std::vector<Opt> st={{{"Z","Be"},{"M","1"},{"restricted","1"}},{{"Z","Be"},{"M","1"},{"restricted","0"}},{{"Z","N"},{"M","4"}},{{"Z","Li"},{"M","2"},{"restricted","1"}}};
  for(size_t i=0;i<st.size();i++) for(size_t j=0;j<st.size();j++) { if(st[i].at("Z")!=st[j].at("Z")) continue; for(int y=0;y<3;y++) for(int z=0;z<3;z++) roundtrip("atomic",AT,atomic_ref,with(with(a,st[i]),{{"symmetry",S_(y)}}),with(with(a,st[j]),{{"symmetry",S_(z)}}),true,i==j&&y==z?2:1); }
  const std::vector<Opt> other={{{"nnodes","6"}},{{"nelem","3"}},{{"Rmax","12"}},{{"primbas","3"}},{{"lmax","2"}},{{"lmax","2"},{"mmax","2"}},{{"grid","3"},{"nelem","3"}},{{"zeroder","1"}}};
  for(auto&o:other) for(size_t i=0;i<3;i++) { bool same=o.count("lmax"); Opt b=with(a,{{"nnodes","5"}}); roundtrip("atomic",AT,atomic_ref,with(b,st[i]),with(with(b,st[i]),o),same); if(!same||th) roundtrip("atomic",AT,atomic_ref,with(with(b,st[i]),o),with(b,st[i]),same); }
  const Opt d={{"verbosity","0"},{"nelem",th?"2":"1"},{"nnodes",th?"4":"5"},{"Rmax","8"},{"lmax","2,1"},{"method",th?"lda_x":"HF"},{"ldft","8"},{"mdft","8"},{"Rbond","2.1"}};
  const std::vector<Opt> sd={{{"Z1","N"},{"Z2","N"},{"M","1"},{"restricted","1"}},{{"Z1","N"},{"Z2","N"},{"M","1"},{"restricted","0"}},{{"Z1","Li"},{"Z2","H"},{"M","3"}},{{"Z1","B"},{"Z2","H"},{"nela","4"},{"nelb","1"},{"restricted","1"}}};
  for(size_t i=0;i<sd.size();i++) for(size_t j=0;j<sd.size();j++) { if(sd[i].at("Z1")!=sd[j].at("Z1")) continue; for(int y=0;y<4;y++) for(int z=0;z<4;z++) { if((y==2||z==2)&&i>1) continue; roundtrip("diatomic",DI,diatomic_ref,with(with(d,sd[i]),{{"symmetry",S_(y)}}),with(with(d,sd[j]),{{"symmetry",S_(z)}}),true,i==j&&y==z?2:1); } }
  for(auto&o:std::vector<Opt>{{{"nnodes","6"}},{{"nelem","3"}},{{"Rmax","12"}},{{"lmax","4,2"}},{{"lmax","3,2,2"}},{{"primbas","3"}}}) for(size_t i:{0,2}) for(int y:{1,3}) { if(i==2&&y==3&&!th) continue; bool same=o.count("lmax"); Opt b=with(with(d,sd[i]),{{"symmetry",S_(y)},{"nnodes","5"}}); roundtrip("diatomic",DI,diatomic_ref,b,with(b,o),same); }
  // spherically averaged atoms
  const Opt g={{"verbosity","0"},{"nelem","2"},{"nnodes","5"},{"Rmax","8"},{"lmax","1"},{"method","lda_x"}};
  const std::vector<Opt> sg={{{"Z","Be"},{"M","1"},{"restricted","1"}},{{"Z","Be"},{"M","1"},{"restricted","0"}},{{"Z","C"},{"M","0"}},{{"Z","C"},{"M","3"}},{{"Z","C"},{"M","3"},{"occs","1.5 2.5 1.25 0.75"}},{{"Z","C"},{"M","0"},{"occs","3 3"}}};
  for(auto&x:sg) for(auto&y:sg) { if(x.at("Z")!=y.at("Z")) continue; gensap_roundtrip(with(g,x),with(g,y),true); }
  for(auto&o:std::vector<Opt>{{{"lmax","2"}},{{"lmax","0"}},{{"nnodes","7"}},{{"nelem","3"}},{{"Rmax","12"}},{{"primbas","3"}},{{"grid","3"},{"nelem","3"}}}) for(size_t i:{0,2,3}) { if(i&&o.count("lmax")&&o.at("lmax")=="0") continue; gensap_roundtrip(with(with(g,{{"nnodes","6"}}),sg[i]),with(with(with(g,{{"nnodes","6"}}),sg[i]),o),o.count("lmax")); }
  // files of another program, and missing files, are refused
  guarded("load:foreign",[=]{ solve(GS,with(with(g,sg[0]),{{"save","f.chk"}})); for(int k=0;k<4;k++) { Main m=k<2?AT:k==2?DI:GS; Opt o=k<2?with(a,st[0]):k==2?with(d,sd[0]):with(g,sg[0]); if(k==1||k==3) o["load"]="absent.chk"; else o["load"]="f.chk"; bool hit=false; auto e=drive(m,o,[&](ooo::Record&){ hit=true; throw Stop(); }); H.ok(!hit&&e.size(),"foreign-refused",fmt("%d",k)); } unlink("f.chk"); });
}
// ---------------------------------------------------------------- frozen occupations
static int label_block(const Ref&r,const std::string&l){ for(size_t i=0;i<r.lab.size();i++) if(r.lab[i]==l) return r.size[i]?(int)i:-1; return -1; }
static void occs_tables(const std::string&name,Main m,const Opt&o0,std::function<Ref(const Opt&)> mk,const std::vector<std::vector<int>>&keys,size_t key,std::function<int(const Ref&,const std::vector<int>&)> block,int rows) {
  Opt o=with(o0,{{"readocc","1"}}); Ref r; { vh::Quiet q; r=mk(o0); }
  std::vector<std::vector<int>> alph; std::vector<std::pair<int,int>> ab={{1,1},{1,0},{0,1},{2,1}}; if(r.nela==r.nelb) ab.push_back({r.nela,r.nelb}); for(auto&p:ab) for(auto&k:keys) { std::vector<int> x={p.first,p.second}; x.insert(x.end(),k.begin(),k.end()); alph.push_back(x); }
  for(size_t f=0;f<=alph.size();f++) H.run("occs:"+name+fmt(":%zu",f),[&,f]{ // first row fixed by the case (last case: the empty table)
    std::vector<std::vector<size_t>> tabs; if(f==alph.size()) tabs.push_back({}); else { tabs.push_back({f}); if(rows>1) for(size_t g=0;g<alph.size();g++) tabs.push_back({f,g}); if(rows>2) for(size_t g=0;g<alph.size();g++) for(size_t h=g%3;h<alph.size();h+=3) tabs.push_back({f,g,h}); }
    for(auto&t:tabs) { std::ostringstream os; for(size_t i:t) { for(int x:alph[i]) os<<" "<<x; os<<"\n"; } { std::ofstream out("occs.dat"); out<<os.str(); }
      bool good=!t.empty(); VX want=VX::Zero(r.nb()); int na=0,nb=0; for(size_t i:t) { auto&x=alph[i]; int b=x.size()==2+key?block(r,std::vector<int>(x.begin()+2,x.end())):-1; if(b<0||(r.restricted&&x[0]!=x[1])) { good=false; break; } na+=x[0]; nb+=x[1]; if(r.restricted) want(b)+=x[0]+x[1]; else { want(b)+=x[0]; want(r.nsym+b)+=x[1]; } } if(na!=r.nela||nb!=r.nelb) good=false;
      bool hit=false; H.step(); VX got; auto e=drive(m,o,[&](ooo::Record&x){ hit=true; got=x.fixed; throw Stop(); }); H.state(os.str());
      if(H.ok(hit==good,"occs-accepted",fmt("%s: %s",good?"should be accepted":"should be refused",os.str().c_str())+e)&&good) H.mclose(MX(got),MX(want),0,"occs-vector",os.str()); }
    unlink("occs.dat"); });
}
static void occupation_cases() {
  const bool th=H.thorough();
  const Opt a={{"verbosity","0"},{"nelem","1"},{"nnodes","3"},{"Rmax","6"},{"Z","Be"},{"lmax","1"},{"mmax","1"},{"method","HF"},{"iguess","0"}}; const Opt d={{"verbosity","0"},{"nelem","1"},{"nnodes","3"},{"Rmax","8"},{"lmax","1,1"},{"method","HF"},{"Rbond","2"},{"iguess","0"}};
  const std::vector<Opt> sp={{{"nela","2"},{"nelb","2"},{"restricted","1"}},{{"nela","2"},{"nelb","1"}},{{"nela","2"},{"nelb","2"},{"restricted","0"}}};
  auto mb=[](const Ref&r,const std::vector<int>&k){ return label_block(r,k[0]?fmt("m=%+d",k[0]):"m=0"); };
  auto lmb=[](const Ref&r,const std::vector<int>&k){ return label_block(r,fmt("l=%d ",k[0])+(k[1]?fmt("m=%+d",k[1]):"m=0")); };
  auto mpb=[](const Ref&r,const std::vector<int>&k){ return label_block(r,(k[0]?fmt("m=%+d",k[0]):std::string("m=0"))+(k[1]==1?" g":k[1]==-1?" u":" ?")); };
  auto m2b=[](const Ref&r,const std::vector<int>&k){ std::string l=k[0]?fmt("m=%+d",k[0]):std::string("m=0"); int g=label_block(r,l+" g"),u=label_block(r,l+" u"); return g>=0&&u>=0?-1:std::max(g,u); };
  auto m3b=[](const Ref&r,const std::vector<int>&k){ return k[0]>=0&&k[0]<(int)r.nsym&&r.size[k[0]]?k[0]:-1; };
  const std::vector<std::vector<int>> ms={{0},{1},{-1},{2},{-2}},lms={{0,0},{1,0},{1,1},{1,-1},{0,1},{2,0}},mps={{0,1},{0,-1},{1,-1},{-1,-1},{1,1},{0,0},{2,1}};
  for(size_t s=0;s<sp.size();s++) { int rows=th?3:2; occs_tables(fmt("atomic1,%zu",s),AT,with(with(a,sp[s]),{{"symmetry","1"}}),atomic_ref,ms,1,mb,rows); occs_tables(fmt("atomic2,%zu",s),AT,with(with(a,sp[s]),{{"symmetry","2"}}),atomic_ref,lms,2,lmb,s==1||th?2:1); occs_tables(fmt("atomic2c,%zu",s),AT,with(with(a,sp[s]),{{"symmetry","2"}}),atomic_ref,ms,2,lmb,1); occs_tables(fmt("atomic1c,%zu",s),AT,with(with(a,sp[s]),{{"symmetry","1"}}),atomic_ref,lms,1,mb,1); occs_tables(fmt("atomic0,%zu",s),AT,with(with(a,sp[s]),{{"symmetry","0"}}),atomic_ref,ms,9,mb,1);
    for(int h=0;h<2;h++) { Opt b=with(with(d,sp[s]),{{"Z1","Be"},{"Z2",h?"Li":"Be"}}); occs_tables(fmt("diatomic1,%zu,%d",s,h),DI,with(b,{{"symmetry","1"}}),diatomic_ref,ms,1,mb,h?1:rows-1); occs_tables(fmt("diatomic3,%zu,%d",s,h),DI,with(b,{{"symmetry","3"}}),diatomic_ref,ms,1,m3b,h?1:th||s==0?2:1); occs_tables(fmt("diatomic1c,%zu,%d",s,h),DI,with(b,{{"symmetry","1"}}),diatomic_ref,mps,9,mb,1); if(!h) { occs_tables(fmt("diatomic2,%zu",s),DI,with(b,{{"symmetry","2"}}),diatomic_ref,mps,2,mpb,th?2:1); occs_tables(fmt("diatomic2m,%zu",s),DI,with(b,{{"symmetry","2"}}),diatomic_ref,ms,1,m2b,1); } occs_tables(fmt("diatomic0,%zu,%d",s,h),DI,with(b,{{"symmetry","0"}}),diatomic_ref,ms,9,mb,1); } }
  // gensap --occs: all token strings
  const Opt g={{"verbosity","0"},{"nelem","1"},{"nnodes","3"},{"Rmax","6"},{"Z","C"},{"lmax","1"},{"method","HF"},{"iguess","0"}}; const std::vector<std::string> tok={"0","1","3","2.5","1e0","x","7"};
  for(int u=0;u<2;u++) for(size_t f=0;f<tok.size();f++) H.run(fmt("occs:gensap,%d,%zu",u,f),[=,&tok]{ Opt o=with(g,{{"M",u?"3":"0"}}); std::vector<std::vector<std::string>> l={{tok[f]}}; for(int n=1;n<5;n++) { size_t m=l.size(); for(size_t i=0;i<m;i++) if((int)l[i].size()==n) for(auto&t:tok) { if(n==4&&t!="1") continue; auto x=l[i]; x.push_back(t); l.push_back(x); } }
      for(auto&x:l) { std::string s; for(auto&t:x) s+=(s.size()?" ":"")+t; std::vector<double> v; bool good=true; for(auto&t:x) { if(t=="x") good=false; v.push_back(atof(t.c_str())); }
        VX want; if(good) { if(!u) { good=v.size()==2; if(good) want=Eigen::Map<VX>(v.data(),2); } else if(v.size()==4) want=Eigen::Map<VX>(v.data(),4); else if(v.size()==2) { want=VX::Zero(4); for(int i=0;i<2;i++) { if(v[i]!=std::floor(v[i])) { good=false; break; } int c=2*i+1,n=(int)v[i]; int sh=n/(2*c),rem=n%(2*c); want(i)=sh*c+std::min(rem,c); want(2+i)=sh*c+std::max(0,rem-c); } } else good=false; }
        bool hit=false; VX got; H.step(); auto e=drive(GS,with(o,{{"occs",s}}),[&](ooo::Record&r){ hit=true; got=r.fixed; throw Stop(); }); H.state(s); if(H.ok(hit==good,"occs-accepted",s+" "+e)&&good) H.mclose(MX(got),MX(want),0,"occs-vector",s); }
      if(f==0) for(const char*s:{"auto","AUTO","Auto"}) { bool hit=false; long n=-1; drive(GS,with(o,{{"occs",s}}),[&](ooo::Record&r){ hit=true; n=r.fixed.size(); throw Stop(); }); H.ok(hit&&n==0,"occs-auto"); } });
}
// ---------------------------------------------------------------- output files
static void gensap_files(const Opt&o) { guarded("files:gensap:"+show(o),[=]{
    Ref r; { vh::Quiet q; r=gensap_ref(o); } std::string El=element_symbols[get_Z(get(o,"Z",""))]; auto rec=solve(GS,with(o,{{"saveorb","1"},{"savepot","1"},{"saveing","1"},{"completeness","1"}})); auto&b=*r.sad->b; size_t n=r.nsym; int Z=get_Z(get(o,"Z","")); VX rad=b.radii(),wt=b.quadrature_weights(); long N=rad.size();
    std::vector<MX> phi(r.nb()),dphi(r.nb()),lphi(r.nb()); VX rho=VX::Zero(N),gr=rho,lp=rho,tau=rho; std::vector<VX> rs(2,rho); double Ntot=0;
    for(size_t k=0;k<r.nb();k++) { MX C=r.X[k%n]*rec.C[k]; phi[k]=b.orbitals(C); dphi[k]=b.orbitals_derivative(C); lphi[k]=b.orbitals_second_derivative(C); int l=k%n; for(long i=0;i<C.cols();i++) { double q=rec.n[k](i); Ntot+=q; for(long p=0;p<N;p++) { double f=phi[k](p,i),g=dphi[k](p,i),h=lphi[k](p,i),x=rad(p); rho(p)+=q*f*f; rs[k/n](p)+=q*f*f; if(p) { gr(p)+=2*q*f*g; lp(p)+=2*q*(g*g+f*h+2*f*g/x); tau(p)+=0.5*q*(g*g+l*(l+1)*f*f/(x*x)); } } } }
    // orbitals
    for(size_t k=0;k<r.nb();k++) { MX t=ReadTable("orbs_"+El+"_"+(r.restricted?"r":k<n?"a":"b")+fmt("_l%zu.dat",k%n)).mat(); if(!H.ok(t.rows()==N&&t.cols()==phi[k].cols()+1,"orbital-file",fmt("%ldx%ld",(long)t.rows(),(long)t.cols()))) continue; H.mclose(MX(t.col(0)),MX(rad),1e-13*(1+rad(N-1)),"orbital-radii"); H.mclose(MX(t.rightCols(t.cols()-1)),phi[k],1e-10*(1+phi[k].cwiseAbs().maxCoeff()),"orbital-values"); unlink(("orbs_"+El+"_"+(r.restricted?"r":k<n?"a":"b")+fmt("_l%zu.dat",k%n)).c_str()); }
    // profiles
    for(int sto=0;sto<2;sto++) { std::string pre=El+(sto?"_sto_":"_gto_"); MX c=ReadTable(pre+"completeness.dat").mat(),im=ReadTable(pre+"importance.dat").mat(); if(!H.ok(c.rows()==501&&c.cols()==(long)n+1&&im.rows()==501&&im.cols()==(long)n+1,"profile-size")) continue;
      MX bf=b.orbitals(MX::Identity(r.S.rows(),r.S.cols())); MX Si=r.S.inverse();
      for(long i=0;i<501;i++) { double al=std::pow(10.,-5+15.*i/500); H.close(c(i,0),al,1e-10*al,"profile-exponent"); H.close(im(i,0),al,1e-10*al,"profile-exponent"); if(i%10) continue; for(size_t l=0;l<n;l++) { VX g(N); double dfac=1; for(int q=2*(int)l+1;q>1;q-=2) dfac*=q; double nrm=sto?std::pow(2*al,l+1.5)/std::sqrt(std::tgamma(2*l+3.)):std::pow(2.,l+2.)*std::pow(al,(2*l+3)/4.)/(std::pow(2*M_PI,0.25)*std::sqrt(dfac)); for(long p=0;p<N;p++) g(p)=p?nrm*std::pow(rad(p),(double)l)*std::exp(-al*(sto?rad(p):rad(p)*rad(p)))*wt(p)*rad(p)*rad(p):0; VX v=bf.transpose()*g; H.close(c(i,l+1),std::sqrt(std::max(0.,v.dot(Si*v))),1e-8,"completeness"); double s=0; for(long k=0;k<rec.n[l].size();k++) if(rec.n[l](k)>1e-6) s+=std::pow(phi[l].col(k).dot(g),2); H.close(im(i,l+1),std::sqrt(s),1e-8,"importance",fmt("l=%zu exponent %g",l,al)); } }
      unlink((pre+"completeness.dat").c_str()); unlink((pre+"importance.dat").c_str()); }
    int xf,cf; ::parse_xc_func(xf,cf,get(o,"pot","none")); std::string rf="result_"+El+".dat"; if(!xf&&!cf) { H.ok(!ReadTable(rf).ok&&!ReadTable("xcpot.dat").ok&&!ReadTable("xcing.dat").ok,"no-potential-files"); return; }
    MX t=ReadTable(rf).mat(),xp=ReadTable("xcpot.dat").mat(),xi=ReadTable("xcing.dat").mat(); unlink(rf.c_str()); unlink("xcpot.dat"); unlink("xcing.dat"); if(!H.ok(t.rows()==N&&t.cols()==9,"potential-size")) return;
    H.mclose(xp,MX(t(Eigen::all,std::vector<int>{0,6})),0,"xcpot"); H.mclose(xi,MX(t.leftCols(5)),0,"xcing");
    H.mclose(MX(t.col(0)),MX(rad),1e-13*(1+rad(N-1)),"pot-radii"); H.mclose(MX(t.col(7)),MX(wt),1e-13*(1+wt.maxCoeff()),"pot-weights");
    auto cmp=[&](int c,const VX&v,double tol,const char*w){ for(long p=1;p<N;p++) if(rad(p)>1e-3) H.close(t(p,c),v(p),tol*(std::fabs(v(p))+1e-3*rho(p))+1e-10,w,fmt("r=%g",rad(p))); };
    cmp(1,rho,1e-9,"pot-density"); cmp(2,gr,1e-7,"pot-gradient"); cmp(3,lp,1e-5,"pot-laplacian"); cmp(4,tau,1e-7,"pot-tau");
    double s=0,ec=0; for(long p=1;p<N;p++) { s+=wt(p)*rad(p)*rad(p)*t(p,1); ec+=0.5*wt(p)*rad(p)*t(p,1)*t(p,5); } H.close(s,Ntot,1e-8*Ntot,"pot-electrons");
    MX P=MX::Zero(r.S.rows(),r.S.cols()); for(auto&x:aodens(r,{rec.C,rec.n})) P+=x; H.close(ec,0.5*(P*b.coulomb(P/(4*M_PI))).trace(),1e-8*(1+ec),"pot-coulomb-energy"); H.close(t(N-1,5),Ntot,1e-6*Ntot,"pot-coulomb-tail");
    for(long p=1;p<N;p++) { // enclosed charge plus outer contribution, by the same quadrature on other elements
      H.close(t(p,8),Z-(t(p,5)+t(p,6)),1e-11*(1+Z),"pot-zeff"); if(p>1&&rad(p)>rad(p-1)) H.ok(t(p,5)>=-1e-9&&t(p,5)<=Ntot*(1+1e-9),"pot-coulomb-range"); }
    if(cf==0&&xf==1) for(long p=1;p<N;p++) { double v=0; for(int q=0;q<2;q++) { double d=r.restricted?rho(p)/2:rs[q](p); v-=0.5*std::cbrt(6/M_PI*std::max(d,0.)/(4*M_PI)); } if(rho(p)>1e-8) H.close(t(p,6),v*rad(p),1e-7*(1+std::fabs(v*rad(p))),"pot-xc",fmt("r=%g",rad(p))); }
  }); }
static void aij_files(const Opt&o) { guarded("files:aij:"+show(o),[=]{
    Ref r; { vh::Quiet q; r=aij_ref(o); } int Z=get_Z(get(o,"Z","")),Q=geti(o,"Q",0),nj=geti(o,"njellium",0); auto rec=solve(AJ,with(o,{{"saveorb","1"},{"savefock","F.dat"}})); auto&b=*r.sad->b; size_t n=r.nsym; std::string tag=Z-Q==0?"jellium":nj?"aij":"atom"; VX rad=b.radii(),wt=b.quadrature_weights(); long N=rad.size();
    VX rho=VX::Zero(N); std::vector<MX> E(r.nb()); for(size_t k=0;k<r.nb();k++) { MX ph=b.orbitals(r.X[k%n]*rec.C[k]); for(long i=0;i<ph.cols();i++) rho+=rec.n[k](i)*VX(ph.col(i).array().square())/(4*M_PI); }
    MX d=ReadTable("density_"+tag+".dat").mat(); if(H.ok(d.rows()==N&&d.cols()==2,"density-size")) { H.mclose(MX(d.col(0)),MX(rad),1e-13*(1+rad(N-1)),"density-radii"); H.mclose(MX(d.col(1).tail(N-1)),MX(rho.tail(N-1)),1e-10*(1+rho.maxCoeff()),"density-values"); }
    for(size_t t=0;t<r.nt();t++) for(int k=0;k<3;k++) { std::string fn=tag+(r.restricted?"":t?"_beta":"_alpha")+(k==0?"_orbs.dat":k==1?"_orbs_der.dat":"_orbs_2der.dat"); auto T=ReadTable(fn); unlink(fn.c_str()); if(!H.ok(T.v.size()==(size_t)N+4&&T.v[0].size()==2,"orbs-file",fn)) continue;
        std::vector<std::pair<int,double>> occ; std::vector<VX> val; std::vector<double> en; for(size_t q=0;q<n;q++) { size_t bl=t*n+q; Eigen::SelfAdjointEigenSolver<MX> es(MX(0.5*(rec.F[bl]+rec.F[bl].transpose()))); MX C=r.X[q]*es.eigenvectors(); MX ph=b.orbitals(C),ev=k==0?ph:k==1?b.orbitals_derivative(C):b.orbitals_second_derivative(C); for(long i=0;i<C.cols();i++) if(std::fabs(rec.n[bl](i))>1e-6) { long im; ph.col(i).cwiseAbs().maxCoeff(&im); occ.push_back({(int)q,rec.n[bl](i)}); en.push_back(es.eigenvalues()(i)); val.push_back((ph(im,i)<0?-1:1)*VX(ev.col(i))); } }
        if(!H.ok(T.v[0][0]==N&&T.v[0][1]==(double)occ.size(),"orbs-header")) continue; bool sz=T.v[1].size()==occ.size()&&T.v[2].size()==occ.size()&&T.v[3].size()==occ.size(); if(!H.ok(sz,"orbs-columns")) continue;
        for(size_t i=0;i<occ.size();i++) { H.ok(T.v[1][i]==occ[i].first,"orbs-l"); H.close(T.v[2][i],occ[i].second,2e-6*(1+occ[i].second),"orbs-occupation"); H.close(T.v[3][i],en[i],2e-6*(1+std::fabs(en[i])),"orbs-energy"); double s=val[i].cwiseAbs().maxCoeff(); for(long p=0;p<N;p+=7) { if(!H.ok(T.v[4+p].size()==occ.size()+2,"orbs-row")) return; H.close(T.v[4+p][0],rad(p),2e-6*(1+rad(p)),"orbs-radius"); H.close(T.v[4+p][1],wt(p),2e-6*(1+wt(p)),"orbs-weight"); if(p) H.close(T.v[4+p][2+i],val[i](p),1e-5*s,"orbs-value",fn); } } }
    // Fock matrix round trip, into either spin treatment
    for(int u=0;u<2;u++) { Opt o2=o; int N0=Z-Q+nj; o2["M"]=u?S_(N0%2?2:1):"0"; bool hit=false; H.step(); auto e=drive(AJ,with(o2,{{"loadfock","F.dat"}}),[&](ooo::Record&x){ hit=true; for(size_t k=0;k<x.guess.size();k++) { size_t src=k<rec.F.size()?k:k%n; H.mclose(x.guess[k],rec.F[src],1e-13*fscale(rec.F),"loaded-fock",fmt("block %zu",k)); } throw Stop(); }); H.ok(hit&&e=="stop","loadfock",e); }
    { bool hit=false; auto e=drive(AJ,with(o,{{"loadfock","F.dat"},{"lmax",S_((int)n+1)}}),[&](ooo::Record&){ hit=true; throw Stop(); }); H.ok(!hit&&e.size(),"loadfock-refused",e); }
    { std::ifstream in("F.dat"); std::stringstream ss; ss<<in.rdbuf(); std::string s=ss.str(); for(size_t cut:{s.size()/3,s.size()*9/10}) { std::ofstream("G.dat")<<s.substr(0,cut); bool hit=false; auto e=drive(AJ,with(o,{{"loadfock","G.dat"}}),[&](ooo::Record&){ hit=true; throw Stop(); }); H.ok(!hit&&e.size(),"truncated-fock-refused"); } unlink("G.dat"); }
    unlink("F.dat"); unlink(("density_"+tag+".dat").c_str()); }); }
static void file_cases() {
  const bool th=H.thorough(); const Opt g={{"verbosity","0"},{"nelem","3"},{"nnodes","8"},{"Rmax","14"},{"lmax","1"}};
  for(auto&s:std::vector<Opt>{{{"Z","He"},{"M","1"}},{{"Z","He"},{"M","3"}},{{"Z","C"},{"M","0"}},{{"Z","C"},{"M","3"}},{{"Z","Ne"},{"M","1"},{"restricted","0"}},{{"Z","Li"},{"M","2"}},{{"Z","Na"},{"M","2"}}}) for(const char*p:{"lda_x","none","gga_x_pbe-gga_c_pbe","lda_x-lda_c_vwn"}) { if(!th&&p[0]=='g'&&s.at("Z")!="C") continue; gensap_files(with(with(g,s),{{"pot",p},{"method",s.at("Z")=="He"?"HF":"lda_x"}})); }
  const Opt j={{"verbosity","0"},{"nelem","2"},{"nnodes","5"},{"Rmax","4"},{"lmax","2"},{"rs","3"}};
  for(auto&s:std::vector<Opt>{{{"Z","Be"},{"njellium","0"},{"rs","0"},{"Rmax","12"}},{{"Z","He"},{"njellium","8"}},{{"Z",""},{"njellium","8"}},{{"Z","H"},{"njellium","7"},{"vacancy","1"}},{{"Z","H"},{"Q","1"},{"njellium","8"},{"vacancy","1"}},{{"Z","Li"},{"njellium","2"},{"Q","1"}}}) { int N=get_Z(s.at("Z"))-geti(s,"Q",0)+geti(s,"njellium",0); for(int M:{0,N%2?2:1,N%2?4:3}) aij_files(with(with(j,s),{{"M",S_(M)}})); }
}
// ---------------------------------------------------------------- refusals and helpers
static void refusal_cases() {
  const Opt a={{"verbosity","0"},{"nelem","1"},{"nnodes","3"},{"Rmax","6"},{"Z","Be"},{"lmax","1"},{"mmax","1"},{"method","lda_x"}},d={{"verbosity","0"},{"nelem","1"},{"nnodes","3"},{"Rmax","8"},{"lmax","1,1"},{"method","lda_x"},{"Rbond","2"},{"Z1","Be"},{"Z2","Be"}},g={{"verbosity","0"},{"nelem","1"},{"nnodes","3"},{"Rmax","6"},{"Z","Be"},{"lmax","1"},{"method","lda_x"}},j=with(g,{{"njellium","2"},{"rs","2"},{"M","1"}});
  struct R { const char*n; Main m; Opt base,bad; }; std::vector<R> l; auto add=[&](const char*n,Main m,const Opt&b,const Opt&x){ l.push_back({n,m,b,x}); };
  for(auto&q:std::vector<std::pair<Main,Opt>>{{AT,a},{DI,d},{GS,g},{AJ,j}}) { const char*n=q.first==AT?"atomic":q.first==DI?"diatomic":q.first==GS?"gensap":"aij"; add(n,q.first,q.second,{{"nquad","5"}}); add(n,q.first,q.second,{{"method","no_such_functional"}}); add(n,q.first,q.second,{{"primbas","17"}}); for(auto&x:std::vector<Opt>{{{"x_pars","0.5"},{"method","gga_x_pbe-gga_c_pbe"}},{{"x_pars","1 a"},{"method","gga_x_pbe-gga_c_pbe"}},{{"x_pars","0.3 0.2"},{"method","hyb_gga_xc_pbeh"}}}) add(n,q.first,q.second,x); if(q.first!=AJ) { add(n,q.first,q.second,{{"restricted","0"}}); add(n,q.first,q.second,{{"nela","1"},{"nelb","2"}}); add(n,q.first,q.second,{{"nela","-1"},{"nelb","2"}}); add(n,q.first,q.second,{{"Q","8"}}); add(n,q.first,q.second,{{"M","2"}}); add(n,q.first,q.second,{{"iguess","7"}}); add(n,q.first,q.second,{{"iguess","-1"}}); } }
  add("diatomic",DI,d,{{"method","hyb_gga_xc_cam_b3lyp"}}); add("diatomic",DI,d,{{"method","hyb_gga_xc_camy_blyp"}}); add("diatomic",DI,d,{{"symmetry","0"},{"purem","1"}}); for(const char*m:{"HF","hyb_gga_xc_pbeh","hyb_gga_xc_cam_b3lyp","hyb_gga_xc_b3lyp"}) add("aij",AJ,j,{{"method",m}}); add("aij",AJ,j,{{"Q","4"},{"njellium","0"}}); add("aij",AJ,j,{{"M","2"}}); add("gensap",GS,g,{{"pot","mgga_x_tpss"}}); add("gensap",GS,g,{{"pot","hyb_gga_xc_pbeh"}}); add("atomic",AT,a,{{"Zl","H"}});
  for(auto&x:l) H.run(std::string("refuse:")+x.n+":"+show(x.bad),[=]{ bool hit=false; H.step(); bool late=x.bad.count("pot"); auto e=drive(x.m,with(x.base,x.bad),[&](ooo::Record&){ hit=true; if(!late) throw Stop(); }); H.ok(e.size()&&e!="stop"&&(late||!hit),"refused",e); hit=false; auto f=drive(x.m,x.base,[&](ooo::Record&){ hit=true; throw Stop(); }); H.ok(hit&&f=="stop","base-accepted",f); });
  // electron counts: a box of inputs against the documented rule
  H.run("derive",[]{ for(int Z=0;Z<=5;Z++) for(int Q=-2;Q<=3;Q++) for(int M=-1;M<=5;M++) for(int a=-1;a<=3;a++) for(int b=-1;b<=3;b++) for(int res=-1;res<=1;res++) { int na=a,nb=b,rr=res,Nt=-99; bool R=false,thrown=false; H.step(); try { helfem::scf_driver::derive_nela_nelb_restricted(na,nb,rr,Q,M,Z,R,Nt); } catch(std::exception&) { thrown=true; }
      bool bad=false; int wa=a,wb=b,wr=res; if(!a&&!b) { int N=Z-Q; if(M==0) { bad=res==0||N<=0; wa=(N+1)/2; wb=N/2; wr=1; } else { bad=M<1||N<0||(N+M)%2==0||M-1>N; wa=(N+M-1)/2; wb=N-wa; } } else bad=a<0||b<0||a<b; if(wr==-1) wr=wa==wb;
      std::string c=fmt("Z=%d Q=%d M=%d a=%d b=%d r=%d",Z,Q,M,a,b,res); if(!H.ok(thrown==bad,"counts-refused",c)||bad) continue; H.ok(na==wa&&nb==wb&&R==(bool)wr&&Nt==wa+wb&&(rr!=0)==R,"counts",c+fmt(" got %d %d %d %d",na,nb,(int)R,Nt)); } });
}
// orthonormalisation and (sub)space eigenproblems
static void eig_cases() {
  for(int n=1;n<=6;n++) for(int k=0;k<4;k++) H.run(fmt("eig:%d,%d",n,k),[=]{ for(int nb=1;nb<=std::min(n,3);nb++) { // contiguous and interleaved blocks
      for(int il=0;il<2;il++) { std::vector<Idx> blk(nb); for(int i=0;i<n;i++) blk[il?i%nb:i*nb/n].push_back(i); MX S=MX::Zero(n,n),F=MX::Zero(n,n); for(auto&x:blk) { long m=x.size(); MX R=rot(m,k),Q=rot(m,k+5); VX s(m),f(m); for(long i=0;i<m;i++) { s(i)=std::pow(k==3?0.05:0.5,i)+0.01; f(i)=std::sin(1.+i*(k+2))*3-(k==2?0:i); } S(x,x)=MX(R*s.asDiagonal()*R.transpose()); F(x,x)=MX(Q*f.asDiagonal()*Q.transpose()); }
        for(int ch=0;ch<2;ch++) { MX X=helfem::scf::form_Sinvh(S,(bool)ch); H.step(); H.mclose(MX(X.transpose()*S*X),MX(MX::Identity(n,n)),1e-10,"orthonormal"); MX Xb=MX::Zero(n,n); for(auto&x:blk) Xb(x,x)=MX(helfem::scf::form_Sinvh(MX(S(x,x)),(bool)ch));
          VX E,E2; MX C,C2; helfem::scf::eig_gsym(E,C,F,X); H.mclose(MX(C.transpose()*S*C),MX(MX::Identity(n,n)),1e-9,"eig-orthonormal"); H.mclose(MX(F*C),MX(S*C*E.asDiagonal()),1e-8,"eig-equation"); for(int i=1;i<n;i++) H.ok(E(i)>=E(i-1),"eig-order"); helfem::scf::eig_gsym_sub(E2,C2,F,Xb,blk); H.mclose(MX(E2),MX(E),1e-8,"sub-values"); H.mclose(MX(C2.transpose()*S*C2),MX(MX::Identity(n,n)),1e-9,"sub-orthonormal"); H.mclose(MX(F*C2),MX(S*C2*E2.asDiagonal()),1e-8,"sub-equation"); for(int i=0;i<n;i++) { int in=0; for(auto&x:blk) { double s=0; for(long q:x) s+=std::fabs(C2(q,i)); in+=s>0; } H.ok(in==1,"sub-pure"); } } } } });
}
