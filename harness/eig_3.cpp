#define EIG_X
#define EIG_PART 3
#include "eig.hpp"
