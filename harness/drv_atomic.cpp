#define main helfem_atomic_main
#include "atomic/main.cpp"
