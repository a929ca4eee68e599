// Unit: median, scale and robust loss.
#include <algorithm>
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <vector>
#include <Eigen/Core>
#include "lib/src/stats.cpp"
#include "localization/src/robust.cpp"
extern "C" {
double irvc_median(const Eigen::VectorXd & m) {return Median(m);}
double irvc_median_a(const Eigen::ArrayXd & m) {return Median(m);}
double irvc_scale(const Eigen::VectorXd & m) {return Scale(m);}
}
