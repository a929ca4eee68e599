// FLAGS: -isystem /usr/include/eigen3 -DNDEBUG -I@VERIF@/units
#define WHICH "13"
#include "rot.hpp"
