#define EIG_X
#define EIG_PART 1
#include "eig.hpp"
