#ifndef VERIF_WIGNERNJ_Q
#define VERIF_WIGNERNJ_Q
#include "wignernj.hpp"
static inline __float128 gaunt_q(int a,int b,int c,int d,int e,int f) {
  return wignernj_shim::gaunt128(a,b,c,d,e,f);
}
#endif
