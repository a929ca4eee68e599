// Unit: convolution and curvature.
#include <cassert>
#include <stdexcept>
#include <string>
#include "extraction/src/convolution.cpp"
#include "extraction/src/curvature.cpp"
