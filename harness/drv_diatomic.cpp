#define main helfem_diatomic_main
#include "diatomic/main.cpp"
