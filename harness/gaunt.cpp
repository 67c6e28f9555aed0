// C06: angular coupling coefficients.
#include "vh.h"
#include "refmath.h"
#include "general/gaunt.h"
#include <map>
using namespace ref;
// int Y_{l1 m1}^* f(cos) Y_{l2 m2} Y_{l3 m3} with a polynomial f of degree <= 6
template<class F> static LD ang(int l1,int m1,int l2,int m2,int l3,int m3,F f){ if(m1!=m2+m3||std::abs(m1)>l1||std::abs(m2)>l2||std::abs(m3)>l3) return 0; int n=(l1+l2+l3)/2+6; const auto&g=gauss<LD>(n); LD s=0; for(int i=0;i<n;i++) s+=g.w[i]*f(g.x[i])*ytheta<LD>(l1,m1,g.x[i])*ytheta<LD>(l2,m2,g.x[i])*ytheta<LD>(l3,m3,g.x[i]); return 2*rpi<LD>()*s; }
static LD G(int L,int M,int l,int m,int lp){ static std::map<std::tuple<int,int,int,int,int>,LD> c; auto k=std::make_tuple(L,M,l,m,lp); auto it=c.find(k); if(it!=c.end()) return it->second; return c[k]=gaunt(L,M,l,m,lp,M-m); }
template<class T> const char* tn(); template<> const char* tn<double>(){return "d";} template<> const char* tn<long double>(){return "l";}
template<class T> void tables(int N){ double eps=std::numeric_limits<T>::epsilon(); for(int a=0;a<=N;a++) for(int b=0;b<=N;b++) for(int c=0;c<=N;c++) { int la=std::max({a,b,c}); for(int mc=-1;mc<=la+1;mc++) H.run(fmt("%s.table.%d.%d.%d.m%d",tn<T>(),a,b,c,mc),[=]{ helfem::gaunt::GauntT<T> g(a,b,c,mc); H.step(); int cap=mc<0?la:std::min(mc,la);
      for(int L=-1;L<=a+1;L++) for(int l=-1;l<=b+1;l++) for(int lp=-1;lp<=c+1;lp++){ if(L<0||l<0||lp<0||L>a||l>b||lp>c) { H.close((LD)g.coeff(L,0,l,0,lp),0.0L,0,"outside-table"); H.step(); continue; }
        for(int M=-L-1;M<=L+1;M++) for(int m=-l-1;m<=l+1;m++){ H.step(); if(std::abs(M)>L||std::abs(m)>l) { H.close((LD)g.coeff(L,M,l,m,lp),0.0L,0,"no-such-harmonic"); continue; }
          if(std::abs(M)>cap||std::abs(m)>cap) { H.throws([&]{ g.coeff(L,M,l,m,lp); },"window",fmt("%d %d %d %d %d",L,M,l,m,lp)); continue; }
          H.close((LD)g.coeff(L,M,l,m,lp),G(L,M,l,m,lp),40*eps,"coeff",fmt("%d %d %d %d %d",L,M,l,m,lp)); } } }); } }
template<class T> void couplings(){ double eps=std::numeric_limits<T>::epsilon(); int N=H.thorough()?8:6; 
  for(int mc: {-1,0,1,2,3}) H.run(fmt("%s.couplings.m%d",tn<T>(),mc),[=]{ int big=2*N+3; helfem::gaunt::GauntT<T> g(big,big,big,mc); int cap=mc<0?N:mc; for(int lj=0;lj<=N;lj++) for(int li=0;li<=N;li++) for(int mj=-std::min(lj,cap);mj<=std::min(lj,cap);mj++) for(int mi=-std::min(li,cap);mi<=std::min(li,cap);mi++){ H.step(7); auto A=[&](std::function<LD(LD)> f){ return mi==mj? ang(lj,mj,li,mi,0,0,f)*sqrtl(4*rpi<LD>()):0.0L; }; std::string s=fmt("%d %d %d %d",lj,mj,li,mi);
      H.close((LD)g.cosine_coupling(lj,mj,li,mi),A([](LD x){return x;}),100*eps,"cos",s); H.close((LD)g.cosine2_coupling(lj,mj,li,mi),A([](LD x){return x*x;}),100*eps,"cos2",s); H.close((LD)g.cosine3_coupling(lj,mj,li,mi),A([](LD x){return x*x*x;}),100*eps,"cos3",s); H.close((LD)g.cosine4_coupling(lj,mj,li,mi),A([](LD x){return x*x*x*x;}),100*eps,"cos4",s); H.close((LD)g.cosine5_coupling(lj,mj,li,mi),A([](LD x){return x*x*x*x*x;}),100*eps,"cos5",s); H.close((LD)g.sine2_coupling(lj,mj,li,mi),A([](LD x){return 1-x*x;}),100*eps,"sin2",s); H.close((LD)g.cosine2_sine2_coupling(lj,mj,li,mi),A([](LD x){return x*x*(1-x*x);}),100*eps,"cos2sin2",s); } });
  int Nm=H.thorough()?5:4; for(int mc: {-1,1,2}) for(int lj=0;lj<=Nm;lj++) H.run(fmt("%s.mod.m%d.l%d",tn<T>(),mc,lj),[=]{ int big=3*Nm+2; helfem::gaunt::GauntT<T> g(big,big,big,mc); int cap=mc<0?99:mc; for(int L=0;L<=2*Nm;L++) for(int li=0;li<=Nm;li++) for(int mj=-lj;mj<=lj;mj++) for(int M=-L;M<=L;M++) for(int mi=-li;mi<=li;mi++){ if(std::abs(mj)>cap||std::abs(M)>cap||std::abs(mi)>cap) continue; H.step(); H.close((LD)g.mod_coeff(lj,mj,L,M,li,mi),ang(lj,mj,L,M,li,mi,[](LD x){return x*x;}),200*eps,"mod",fmt("%d %d %d %d %d %d",lj,mj,L,M,li,mi)); } }); }
void explore(){ tables<double>(H.thorough()?7:5); tables<long double>(H.thorough()?4:3); couplings<double>(); couplings<long double>();
  int N=H.thorough()?9:6; for(int L=0;L<=N;L++) for(int l=0;l<=N;l++) H.run(fmt("free.%d.%d",L,l),[=]{ for(int lp=0;lp<=N;lp++) for(int M=-L;M<=L;M++) for(int m=-l;m<=l;m++) for(int mp=-lp;mp<=lp;mp++){ H.step(); LD r=gaunt(L,M,l,m,lp,mp); H.close((LD)helfem::gaunt::gaunt_coefficient(L,M,l,m,lp,mp),r,1e-14,"free",fmt("%d %d %d %d %d %d",L,M,l,m,lp,mp)); if(M==m+mp) { H.close((LD)helfem::gaunt::gaunt_coefficient_T<long double>(L,M,l,m,lp,mp),r,1e-17,"freeL"); H.close(helfem::gaunt::modified_gaunt_coefficient(L,M,l,m,lp,mp),ang(L,M,l,m,lp,mp,[](LD x){return x*x;}),1e-14,"free-mod"); } } }); }
VH_MAIN
