// Turn Eigen's internal assertions (size / range violations) into exceptions so
// that an out-of-range access in the code under test is reported, not ignored.
#ifndef VERIF_EIGEN_THROW
#define VERIF_EIGEN_THROW
#ifdef __cplusplus
#include <stdexcept>
#define VERIF_STR2(x) #x
#define VERIF_STR(x) VERIF_STR2(x)
#define eigen_assert(X) do { if(!(X)) throw std::logic_error("Eigen assertion failed: " #X " " __FILE__ ":" VERIF_STR(__LINE__)); } while(false)
#endif
#endif
