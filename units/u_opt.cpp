// Unit: one step of the optimiser.
#include <cassert>
#include <cmath>
#include <Eigen/Core>
#include "irvc_pcl.hpp"
#include "localization/src/optimizer.cpp"
#include "localization/src/robust.cpp"
#include "localization/src/posevec.cpp"
#include "rotationlib/src/quaternion.cpp"
extern "C" {
void irvc_makem(const Eigen::Vector4d & q, Eigen::Matrix<double, 7, 6> & out) {out = MakeM(Eigen::Quaterniond(q(0), q(1), q(2), q(3)));}
bool irvc_conv(const Eigen::Vector4d & q, const Eigen::Vector3d & t) {return CheckConvergence(Eigen::Quaterniond(q(0), q(1), q(2), q(3)), t);}
}
