#include "atomic/TwoDBasis.h"
