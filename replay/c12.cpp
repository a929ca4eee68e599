// FLAGS: -isystem /usr/include/eigen3 -DNDEBUG -I@VERIF@/units @REPO@/localization/src/optimizer.cpp @REPO@/localization/src/robust.cpp @REPO@/localization/src/degenerate.cpp @REPO@/lib/src/stats.cpp
#define WHICH "12"
#define HAVE_MAKEM
#include "rot.hpp"
