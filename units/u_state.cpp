// Unit: state prediction of the localizer.
#include <cassert>
#include <cmath>
#include <Eigen/Core>
#include "ekf_localizer/src/state_transition.cpp"
extern "C" void irvc_predict(const Vector6d & x, const double dt, Vector6d & next, Matrix6d & a)
{
  next = predictNextState(x, dt);
  a = createStateTransitionMatrix(x, dt);
}
extern "C" void irvc_noise(const Eigen::Vector4d & q, Matrix6d & out) {out = processNoiseCovariance(q);}
