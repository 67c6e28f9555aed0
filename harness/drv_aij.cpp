#define main helfem_aij_main
#include "sadatom/aij.cpp"
