// Stand-in for libwignernj (not available offline): Gaunt integrals
//   gaunt(2l1,2m1,2l2,2m2,2l3,2m3) = int Y_l1^m1 Y_l2^m2 Y_l3^m3 dOmega
// evaluated from Racah's formula in __float128 and rounded at the end.
// Trusted component: cross-checked against angular quadrature by the C06 check.
#ifndef VERIF_WIGNERNJ_SHIM
#define VERIF_WIGNERNJ_SHIM
#include <cstdlib>
#include <vector>
#include <algorithm>
#include <quadmath.h>
namespace wignernj_shim {
  inline __float128 fact(int n) {
    static const std::vector<__float128> tab = [] {
      std::vector<__float128> t(400); t[0]=1;
      for(size_t i=1;i<t.size();i++) t[i]=t[i-1]*(__float128)i;
      return t;
    }();
    return tab[n];
  }
  inline __float128 w3j(int a,int b,int c,int al,int be,int ga) {
    if(al+be+ga!=0) return 0;
    if(std::abs(al)>a||std::abs(be)>b||std::abs(ga)>c) return 0;
    if(c<std::abs(a-b)||c>a+b) return 0;
    __float128 tri = fact(a+b-c)*fact(a-b+c)*fact(-a+b+c)/fact(a+b+c+1);
    __float128 pre = sqrtq(tri)*sqrtq(fact(a+al)*fact(a-al))*sqrtq(fact(b+be)*fact(b-be))*sqrtq(fact(c+ga)*fact(c-ga));
    __float128 s=0;
    for(int t=0;t<=a+b+c;t++) {
      int d1=c-b+t+al, d2=c-a+t-be, d3=a+b-c-t, d4=a-t-al, d5=b-t+be;
      if(d1<0||d2<0||d3<0||d4<0||d5<0) continue;
      __float128 x = fact(t)*fact(d1)*fact(d2)*fact(d3)*fact(d4)*fact(d5);
      s += ((t&1)?-1:1)/x;
    }
    int ph=a-b-ga;
    return ((ph&1)?-1:1)*pre*s;
  }
  inline __float128 gaunt128(int tl1,int tm1,int tl2,int tm2,int tl3,int tm3) {
    if((tl1|tm1|tl2|tm2|tl3|tm3)&1) return 0;
    int l1=tl1/2,m1=tm1/2,l2=tl2/2,m2=tm2/2,l3=tl3/2,m3=tm3/2;
    if(l1<0||l2<0||l3<0) return 0;
    if((l1+l2+l3)&1) return 0;
    __float128 z=w3j(l1,l2,l3,0,0,0);
    if(z==0) return 0;
    return sqrtq((__float128)(2*l1+1)*(2*l2+1)*(2*l3+1)/(4*M_PIq))*z*w3j(l1,l2,l3,m1,m2,m3);
  }
}
namespace wignernj {
  template<typename T> inline T gaunt(int a,int b,int c,int d,int e,int f) {
    return (T) wignernj_shim::gaunt128(a,b,c,d,e,f);
  }
}
#endif
