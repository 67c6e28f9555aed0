// C03: one-electron radial matrices, evaluation and cross-basis projections.
#include "vh.h"
#include "refmath.h"
#include <PolynomialBasis.h>
#include <FiniteElementBasis.h>
#include <RadialBasis.h>
#include <RadialPotential.h>
#include <helfem.h>
#include <memory>
using namespace ref; namespace pb=helfem::polynomial_basis; namespace ab=helfem::atomic::basis;
template<class T> const char* tn(); template<> const char* tn<double>(){return "d";} template<> const char* tn<long double>(){return "l";}
static std::vector<std::vector<LD>> grids(){ std::vector<std::vector<LD>> g{{0,2},{0,0.5L,3},{0,0.25L,1,6},{0,1,2,3,4}}; if(H.thorough()) { g.push_back({0,0.1L,0.5L,1.5L,5,15}); g.push_back({0,0.01L,0.05L,0.3L,1,3,9,30}); } return g; }
template<class T> ab::FEMRadialBasisT<T> mk(int f,int nn,const std::vector<LD>&b,int bc,int nq){ auto p=std::shared_ptr<const pb::PolynomialBasisT<T>>(pb::get_basis_T<T>(f,nn)); helfem::Vec<T> v(b.size()); for(size_t i=0;i<b.size();i++) v(i)=(T)b[i]; return ab::FEMRadialBasisT<T>(pb::FiniteElementBasisT<T>(p,v,bc&1,bc&2,bc&4,bc&8),nq); }
static FE mkr(int f,int nn,const std::vector<LD>&b,int bc){ return FE(f,nn,b,bc&1,bc&2,bc&4,bc&8); }
template<class T> double mt(const Mat&E){ return 2e6*std::numeric_limits<T>::epsilon()*((double)E.cwiseAbs().maxCoeff()+1e-2); }
template<class T> void cases(){ typedef typename ab::FEMRadialBasisT<T>::BasisKind BK; double eps=std::numeric_limits<T>::epsilon();
  auto G=grids();
  for(int f: {3,4,5,8,9}) for(int nn=2;nn<=(f==9?3:f==8?4:5);nn++) for(size_t g=0;g<G.size();g++) for(int bc: {5,1,13,9}) { if(nn==2&&f<=4&&G[g].size()<4) continue;
    std::string K=fmt("%s.f%d.nn%d.g%zu.bc%d",tn<T>(),f,nn,g,bc);
    H.run(K+".ops",[=]{ int nq=20; auto B=mk<T>(f,nn,G[g],bc,nq); FE R=mkr(f,nn,G[g],bc); if(!H.ok((int)B.Nbf()==R.nbf&&(int)B.Nel()==R.nel(),"size")) return; H.step();
      H.ok(B.get_nquad()==nq&&B.get_poly_id()==f&&B.get_poly_nnodes()==nn&&(int)B.max_Nprim()==R.pr.nprim(),"meta");
      for(int i=0;i<R.nel();i++){ size_t a,b; B.get_idx(i,a,b); H.ok((int)a==R.gl[i].front()&&(int)b==R.gl[i].back()&&B.Nprim(i)==R.gl[i].size(),"idx"); }
      auto one=[](LD){return 1.0L;}; int ng=R.pr.degree()+40;
      Mat S=R.full(0,0,one),K2=R.full(1,1,one)*0.5L,KL=R.full(10,10,one,ng)*0.5L,V=-R.full(10,10,[](LD r){return r;},ng);
      H.mclose(B.overlap(),S,mt<T>(S),"overlap"); H.mclose(B.kinetic(),K2,mt<T>(K2),"kinetic"); H.mclose(B.kinetic_l(),KL,mt<T>(KL),"kinetic_l"); H.mclose(B.nuclear(),V,mt<T>(V),"nuclear"); H.step(4);
      for(int i=0;i<R.nel();i++){ Mat s=R.elem(i,0,0,one),k=R.elem(i,1,1,one)*0.5L,kl=R.elem(i,10,10,one,ng)*0.5L,v=-R.elem(i,10,10,[](LD r){return r;},ng);
        H.mclose(B.overlap(i),s,mt<T>(s),"overlap-el"); H.mclose(B.kinetic(i),k,mt<T>(k),"kinetic-el"); H.mclose(B.kinetic_l(i),kl,mt<T>(kl),"kinetic_l-el"); H.mclose(B.nuclear(i),v,mt<T>(v),"nuclear-el"); H.step(4);
        for(int n=-2;n<=4;n++){ auto w=[n](LD r){ return ipow(r,n+2); }; Mat e=R.elem(i,10,10,w,ng); H.mclose(B.radial_integral(n,i),e,mt<T>(e),"radial-integral",fmt("n=%d el=%d",n,i)); H.step();
          if(n==-1||n==2) { Mat e2=R.elem(i,10,10,w,ng,{},1,-0.25L,0.75L); H.mclose(B.radial_integral(n,i,T(-0.25),T(0.75)),e2,mt<T>(e2),"radial-integral-sub"); } }
        if(i>0) for(int n=-6;n<=-3;n++){ auto w=[n](LD r){ return ipow(r,n+2); }; Mat e=R.elem(i,10,10,w,ng,{},4); H.mclose(B.radial_integral(n,i),e,mt<T>(e),"radial-integral",fmt("n=%d el=%d",n,i)); H.step(); }
        for(int L=0;L<=3;L++){ LD lam=0.7L; Mat il=R.elem(i,0,0,[=](LD r){return sph_i(L,lam*r);},ng); H.mclose(B.bessel_il_integral(L,(T)lam,i),il,mt<T>(il)+1e-9*(double)il.cwiseAbs().maxCoeff(),"bessel-il",fmt("L=%d",L)); H.step(); if(i>0){ Mat kl=R.elem(i,0,0,[=](LD r){return sph_k(L,lam*r);},ng,{},4); H.mclose(B.bessel_kl_integral(L,(T)lam,i),kl,mt<T>(kl)+1e-9*(double)kl.cwiseAbs().maxCoeff(),"bessel-kl",fmt("L=%d",L)); H.step(); } }
        // off-centre nucleus at every element boundary
        for(size_t j=1;j<R.bv.size();j++) for(int L=0;L<=3;L++){ LD Rh=R.bv[j]; auto w=[=](LD r){ LD lo=std::min(r,Rh),hi=std::max(r,Rh); return -sqrtl(4*rpi<LD>()/(2*L+1))*ipow(lo/hi,L)/hi; }; Mat e=R.elem(i,0,0,w,ng,{},4); H.mclose(B.nuclear_offcenter(i,(T)Rh,L),e,mt<T>(e),"offcenter",fmt("L=%d Rh=%Lg el=%d",L,Rh,i)); H.step(); }
        H.throws([&]{ B.nuclear_offcenter(i,(T)(R.bv[i]*0.5L+R.bv[i+1]*0.5L),1); },"offcenter-inside"); } });
    H.run(K+".kinds",[=]{ auto B=mk<T>(f,nn,G[g],bc,20); FE R=mkr(f,nn,G[g],bc); int ng=R.pr.degree()+40; BK ks[6]={BK::B0,BK::B1,BK::B2,BK::R0,BK::R1,BK::R2}; int rk[6]={0,1,2,10,11,12};
      LD kink=R.bv.back()*0.4L;
      for(int a=0;a<6;a++) for(int b=0;b<6;b++) for(int w=0;w<4;w++){ if(w==2&&a!=b&&!H.thorough()) continue; std::function<LD(LD)> wf=w==0?std::function<LD(LD)>([](LD){return 1.0L;}):w==1?std::function<LD(LD)>([](LD r){return r*r-0.5L;}):w==2?std::function<LD(LD)>([](LD r){return expl(-r);}):std::function<LD(LD)>([=](LD r){return fabsl(r-kink);}); std::function<T(T)> wi; if(w) wi=[=](T r){return (T)wf((LD)r);}; std::vector<T> br; std::vector<LD> brl; if(w==3){ br.push_back((T)kink); brl.push_back(kink); }
        Mat E=R.full(rk[a],rk[b],wf,ng,brl); H.mclose(B.matrix_element(ks[a],ks[b],wi,br),E,mt<T>(E),"matel",fmt("kinds %d %d w %d",a,b,w)); H.step();
        if(w==1) for(int i=0;i<R.nel();i++){ Mat e=R.elem(i,rk[a],rk[b],wf,ng); H.mclose(B.matrix_element(i,ks[a],ks[b],wi),e,mt<T>(E),"matel-el"); Mat e2=R.elem(i,rk[a],rk[b],wf,ng,{},1,-0.5L,0.5L); H.mclose(B.matrix_element(i,ks[a],ks[b],wi,T(-0.5),T(0.5)),e2,mt<T>(E),"matel-sub"); H.step(2); } } });
    // evaluation, with every history of cache fills
    for(int h=0;h<(bc==5?25:1);h++) H.run(K+fmt(".eval.h%d",h),[=]{ auto B=mk<T>(f,nn,G[g],bc,9); FE R=mkr(f,nn,G[g],bc); int s1=h%5,s2=h/5; for(int s: {s1,s2}) if(s) { B.fill_quadrature_cache((s-1)&1,(s-1)&2); H.step(); }
      auto xq=B.get_xq(); H.ok(xq.size()==9,"nq"); const auto C=B; // copy carries the cache
      for(int i=0;i<R.nel();i++){ auto rr=B.get_r(i); auto wr=B.get_wrad(i); helfem::Mat<T> F[3]={B.get_bf(i),B.get_df(i),B.get_lf(i)}; helfem::Mat<T> F2[3]={C.get_bf(xq,i),C.get_df(xq,i),C.get_lf(xq,i)}; helfem::Mat<T> F3[3]={C.get_bf(i),C.get_df(i),C.get_lf(i)}; H.step(9);
        LD sum=0; for(int q=0;q<9;q++){ sum+=(LD)wr(q); H.close((LD)rr(q),R.r((LD)xq(q),i),100*eps*(double)R.bv.back(),"r"); H.close((LD)B.get_r(xq(q),i),R.r((LD)xq(q),i),100*eps*(double)R.bv.back(),"r1"); }
        helfem::Vec<T> ones=helfem::Vec<T>::Constant(3,T(0.25)); H.mclose(B.get_wrad(ones,i),helfem::Vec<T>(ones*(T)R.e(i)),100*eps*(double)R.e(i),"wrad-user");
        // weights integrate polynomials of the element
        H.close(sum,2*R.e(i),2e-4*(double)R.e(i),"wrad-sum");
        for(int n=0;n<3;n++){ Mat E(9,R.gl[i].size()); for(int q=0;q<9;q++){ auto v=R.evr((LD)xq(q),i,n); for(size_t k=0;k<v.size();k++) E(q,k)=v[k]; } double t=2e5*eps*(double)(E.cwiseAbs().maxCoeff()+1+1/ipow(R.e(i),n+1)); H.mclose(F[n],E,t,"cached-eval",fmt("n=%d",n)); H.mclose(F2[n],E,t,"eval"); H.mclose(F3[n],E,t,"copy-eval"); } }
      // orbitals at arbitrary points
      helfem::Mat<T> Cm(R.nbf,3); for(int i=0;i<R.nbf;i++) for(int j=0;j<3;j++) Cm(i,j)=(T)(((i*7+j*3)%11)-5)/T(4);
      std::vector<LD> rs{0,1e-6L,0.01L}; for(LD b: R.bv) { rs.push_back(b); rs.push_back(b*1.25L+0.1L); rs.push_back(b*0.875L); }
      for(LD r0: rs){ LD r=(LD)(T)r0; int i=R.find(r); Vec e=Vec::Zero(3); LD sc=1; if(i>=0){ auto v=R.evr(R.x(r,i),i,0); for(size_t k=0;k<v.size();k++) for(int j=0;j<3;j++) { e(j)+=v[k]*(LD)Cm(R.gl[i][k],j); sc=std::max(sc,fabsl(v[k])); } } H.mclose(B.eval_orbs(Cm,(T)r),e,1e6*eps*(double)sc*10,"eval-orbs",fmt("r=%Lg",r)); H.step(); }
      // at the nucleus
      auto d1=R.ev(-1,0,1),d2=R.ev(-1,0,2); helfem::Mat<T> P(R.nbf,R.nbf); for(int i=0;i<R.nbf;i++) for(int j=0;j<R.nbf;j++) P(i,j)=(T)(((i*j+i+j)%7)-3)/T(3)+(i==j?T(2):T(0));
      LD n0=0,n1=0,sc=1; Vec o=Vec::Zero(3); for(size_t a=0;a<d1.size();a++){ for(int j=0;j<3;j++) o(j)+=d1[a]*(LD)Cm(a,j); for(size_t b=0;b<d1.size();b++){ n0+=d1[a]*d1[b]*(LD)P(a,b); n1+=d1[a]*d2[b]*(LD)P(a,b); sc+=fabsl(d1[a]*d2[b])+fabsl(d1[a]*d1[b]); } }
      H.close((LD)B.nuclear_density(P),n0,1e6*eps*(double)sc,"nuclear-density"); H.close((LD)B.nuclear_density_gradient(P),n1,1e6*eps*(double)sc,"nuclear-gradient"); H.mclose(helfem::Vec<T>(B.nuclear_orbital(Cm).transpose()),o,1e6*eps*(double)sc,"nuclear-orbital"); H.step(3);
      helfem::Mat<T> bad=helfem::Mat<T>::Zero(R.nbf+1,R.nbf+1); H.throws([&]{ B.nuclear_density(bad); },"nuclear-size"); H.throws([&]{ B.nuclear_density_gradient(bad); },"nuclear-size"); });
  }
  // cross-basis
  struct Cf { int f,nn; std::vector<LD> g; int bc; }; std::vector<Cf> cf{{4,4,{0,1,3},5},{4,3,{0,0.5L,1.5L,3},1},{5,3,{0,2,5},5},{3,5,{0,4},5},{4,3,{0,0.25L,1,2,6},5},{8,2,{0,1,2},13},{9,2,{0,3},5}}; 
  for(size_t a=0;a<cf.size();a++) for(size_t b=0;b<cf.size();b++) H.run(fmt("%s.cross.%zu.%zu",tn<T>(),a,b),[=]{ auto A=mk<T>(cf[a].f,cf[a].nn,cf[a].g,cf[a].bc,15),Bb=mk<T>(cf[b].f,cf[b].nn,cf[b].g,cf[b].bc,24); FE RA=mkr(cf[a].f,cf[a].nn,cf[a].g,cf[a].bc),RB=mkr(cf[b].f,cf[b].nn,cf[b].g,cf[b].bc);
    auto X=[&](int da,int db,std::function<LD(LD)> w){ Mat M=Mat::Zero(RA.nbf,RB.nbf); std::vector<LD> br=RA.bv; br.insert(br.end(),RB.bv.begin(),RB.bv.end()); std::sort(br.begin(),br.end()); const auto&gg=gauss<LD>(40); for(size_t s=0;s+1<br.size();s++){ LD lo=br[s],hi=br[s+1]; if(hi<=lo) continue; int ia=RA.find((lo+hi)/2),ib=RB.find((lo+hi)/2); if(ia<0||ib<0) continue; for(int q=0;q<40;q++){ LD r=(lo+hi)/2+(hi-lo)/2*gg.x[q]; auto va=RA.ev(RA.x(r,ia),ia,da); auto vb=RB.ev(RB.x(r,ib),ib,db); LD ww=w(r)*gg.w[q]*(hi-lo)/2; for(size_t u=0;u<va.size();u++) for(size_t v=0;v<vb.size();v++) M(RA.gl[ia][u],RB.gl[ib][v])+=ww*va[u]*vb[v]; } } return M; };
    Mat S=X(0,0,[](LD){return 1.0L;}); H.mclose(A.overlap(Bb),S,mt<T>(S),"cross-overlap"); H.step();
    for(int n=-1;n<=2;n++) for(int d=0;d<4;d++){ if(n<0&&d) continue; Mat E=X(d&1,d>>1,[n](LD r){return ipow(r,n);}); H.mclose(A.radial_integral(Bb,n,d&1,d>>1),E,mt<T>(E),"cross-radial",fmt("n=%d d=%d",n,d)); H.step(); }
    BK ks[3]={BK::B0,BK::B1,BK::B2}; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ Mat E=X(i,j,[](LD r){return expl(-r/2);}); H.mclose(A.matrix_element(Bb,ks[i],ks[j],[](T r){return std::exp(-r/2);}),E,mt<T>(E),"cross-matel"); H.step(); }
    helfem::modelpotential::RadialPotentialT<T> rp(1); Mat E=X(1,0,[](LD r){return r;}); H.mclose(A.model_potential(Bb,&rp,true,false),E,mt<T>(E),"cross-model");
    H.throws([&]{ A.matrix_element(Bb,BK::R0,BK::B0); },"cross-R"); });
}
void explore(){ helfem::verbose=false; cases<double>(); cases<long double>(); }
VH_MAIN
