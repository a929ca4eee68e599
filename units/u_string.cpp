// Unit: frame names and angle normalisation.
#include <cmath>
#include <string>
#include "ekf_localizer/src/string.cpp"
#include "ekf_localizer/include/ekf_localizer/normalize_yaw.hpp"
extern "C" double irvc_normalize(const double x) {return normalizeYaw(x);}
