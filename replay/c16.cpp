// FLAGS: -isystem /usr/include/eigen3 -DNDEBUG -I@VERIF@/units
#define WHICH "16"
#include "rot.hpp"
