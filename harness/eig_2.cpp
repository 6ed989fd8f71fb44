#define EIG_X
#define EIG_PART 2
#include "eig.hpp"
