// FLAGS: -isystem /usr/include/eigen3 @REPO@/ekf_localizer/src/state_transition.cpp
#include <Eigen/Core>
#include "replay.hpp"
#include "ekf_localizer/state_transition.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto pred = [] {
      Vector6d x;
      for (int i = 0; i < 6; i++) {x(i) = rd(i < 2 ? 100 : 5);}
      const double dt = pick<double>({0, 0.02, 1, rr(0, 3)});
      Eigen::Vector4d q(rr(0, 1), rr(0, 2), rr(0, 3), rr(0, 4));
      Case k; k << "state=" << show(std::vector<double>(x.data(), x.data() + 6)) << " dt=" << dt; k.set();
      const Vector6d n = predictNextState(x, dt);
      const double h = x(2) + x(3);
      expect(close(n(0), x(0) + x(4) * std::cos(h) * dt) && close(n(1), x(1) + x(4) * std::sin(h) * dt), "position");
      expect(std::abs(n(2)) <= M_PI + 1e-9 && close(std::sin(n(2)), std::sin(x(2) + x(5) * dt), 1e-7) && close(std::cos(n(2)), std::cos(x(2) + x(5) * dt), 1e-7), "yaw " + std::to_string(n(2)));
      expect(n(3) == x(3) && n(4) == x(4) && n(5) == x(5), "bias, speed, yaw rate");
      const Matrix6d A = createStateTransitionMatrix(x, dt);
      for (int j = 0; j < 6; j++) {
        const double e = 1e-6;
        Vector6d a = x, b = x;
        a(j) += e; b(j) -= e;
        Vector6d d = predictNextState(a, dt) - predictNextState(b, dt);
        d(2) = std::remainder(d(2), 2 * M_PI);
        d /= 2 * e;
        for (int i = 0; i < 6; i++) {expect(std::abs(d(i) - A(i, j)) < 1e-4 * (1 + std::abs(x(4)) * (1 + dt)), "transition matrix (" + std::to_string(i) + "," + std::to_string(j) + ") is " + std::to_string(A(i, j)) + ", derivative " + std::to_string(d(i)));}
      }
      const Matrix6d Q = processNoiseCovariance(q);
      for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {expect(Q(i, j) == (i == j && i >= 2 ? q(i - 2) : 0), "process noise");}}
    };
  return run(c, v, {pred});
}
