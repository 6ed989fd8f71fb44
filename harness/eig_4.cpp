#define EIG_X
#define EIG_PART 4
#include "eig.hpp"
