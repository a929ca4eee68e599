// FLAGS: -isystem /usr/include/eigen3 -DNDEBUG -I@VERIF@/units @REPO@/ekf_localizer/src/check.cpp @REPO@/ekf_localizer/src/mahalanobis.cpp -Wl,--unresolved-symbols=ignore-all
#include "u_cov.cpp"
#include "replay.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto t = [] {
      A36 a; Matrix6d P;
      const bool sym = coin(0.3);
      for (int i = 0; i < 36; i++) {a[i] = rd();}
      for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {P(i, j) = sym && j < i ? P(j, i) : rd();}}
      const size_t s = ri(0, 20);
      Case k; k << "array=" << show(a) << " matrix(column-major)=" << show(std::vector<double>(P.data(), P.data() + 36)) << " steps=" << s; k.set();
      const int pm[6] = {0, 1, -1, -1, -1, 2}, tm[6] = {4, -1, -1, -1, -1, 5};
      A36 x;
      irvc_pose_cov(P, x);
      for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {expect(x[6 * i + j] == (pm[i] >= 0 && pm[j] >= 0 ? P(pm[i], pm[j]) : 0), "pose message entry");}}
      irvc_twist_cov(P, x);
      for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {expect(x[6 * i + j] == (tm[i] >= 0 && tm[j] >= 0 ? P(tm[i], tm[j]) : 0), "twist message entry");}}
      Eigen::Matrix3d r3; Eigen::Matrix2d r2;
      irvc_pose_meas(a, s, r3);
      irvc_twist_meas(a, s, r2);
      const int p3[3] = {0, 1, 5}, p2[2] = {0, 5};
      for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {expect(close(r3(i, j), a[6 * p3[i] + p3[j]] * s), "pose measurement covariance");}}
      for (int i = 0; i < 2; i++) {for (int j = 0; j < 2; j++) {expect(close(r2(i, j), a[6 * p2[i] + p2[j]] * s), "twist measurement covariance");}}
      Matrix6d M; irvc_get_cov(a, M);
      for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {expect(M(i, j) == a[6 * i + j], "matrix from message");}}
      irvc_from_cov(P, x);
      for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {expect(x[6 * i + j] == P(i, j), "message from matrix");}}
      irvc_round(a, x);
      expect(x == a, "round trip");
    };
  return run(c, v, {t});
}
