#define main helfem_gensap_main
#include "sadatom/main.cpp"
