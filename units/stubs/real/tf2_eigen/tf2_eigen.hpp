#include "../../algebra/tf2_eigen/tf2_eigen.hpp"
