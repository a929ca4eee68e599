#pragma once
// reference arithmetic of the optimiser for the replays of C11 and C15
#include <algorithm>
#include "mat.hpp"
#include "lidar_feature_localization/optimizer.hpp"
#include "lidar_feature_localization/degenerate.hpp"
namespace rp
{
struct Skip {};   // too close to a decision to tell
using MS = std::vector<M>;
using VS = std::vector<V>;
inline double median(std::vector<double> v)
{
  std::sort(v.begin(), v.end());
  const size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
}
inline double ref_scale(const V & e)
{
  std::vector<double> v(e.data(), e.data() + e.size());
  const double m = median(v);
  for (double & x : v) {x = std::fabs(x - m);}
  return 1.482602218505602 * median(v);
}
inline double ref_dhuber(double e, double k) {return e < k * k ? 1. : k / std::sqrt(e);}
inline V ref_errors(const VS & r)
{
  V e(long(r.size()));
  for (size_t i = 0; i < r.size(); i++) {
    double s = 0;
    for (long j = 0; j < r[i].size(); j++) {s += r[i](j) * r[i](j);}
    e(long(i)) = s;
  }
  return e;
}
inline V ref_weights(const V & e)
{
  V w = e;
  for (long i = 0; i < w.size(); i++) {w(i) = ref_dhuber(e(i), 1.345);}
  return w;
}
inline M ref_m(const Eigen::Quaterniond & q)
{
  M m = M::Zero(7, 6);
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  m.block(0, 0, 4, 3) << -x, -y, -z, w, -z, y, z, w, -x, -y, x, w;
  m.block(0, 0, 4, 3) *= 0.5;
  m.block(4, 3, 3, 3) = M::Identity(3, 3);
  return m;
}
inline V ref_update(const M & m, const V & w, const MS & J, const VS & r, bool * flat = nullptr)
{
  M D = M::Zero(7, 7), A = M::Zero(7, 7);
  V b = V::Zero(7);
  for (size_t i = 0; i < J.size(); i++) {
    D += J[i].transpose() * J[i];
    A += J[i].transpose() * J[i] * w(long(i));
    b += J[i].transpose() * r[i] * w(long(i));
  }
  const V ev = Eigen::SelfAdjointEigenSolver<M>(D).eigenvalues();
  bool degenerate = false;
  for (long i = 0; i < 7; i++) {
    if (std::fabs(std::fabs(ev(i)) - 0.1) < 1e-6) {throw Skip();}
    degenerate = degenerate || std::fabs(ev(i)) < 0.1;
  }
  if (flat) {*flat = degenerate;}
  if (degenerate) {return V::Zero(6);}
  const M n = m.transpose() * A * m;
  const V nv = Eigen::SelfAdjointEigenSolver<M>(n).eigenvalues();
  if (nv(0) < 1e-6 * nv(5)) {throw Skip();}
  return -(n.fullPivLu().solve(V(m.transpose() * b)));
}
inline Eigen::Quaterniond ref_q(const V & th)
{
  const double k = th.norm();
  if (std::fabs(k - 1e-8) < 1e-9) {throw Skip();}
  if (k < 1e-8) {return Eigen::Quaterniond::Identity();}
  const double s = std::sin(k / 2) / k;
  return Eigen::Quaterniond(std::cos(k / 2), th(0) * s, th(1) * s, th(2) * s);
}
inline void lists(long n, double size, MS & J, VS & r)
{
  J.clear(); r.clear();
  for (long i = 0; i < n; i++) {
    const long m = ri(1, 3);
    J.push_back(rm(m, 7));
    r.push_back(rm(m, 1) * size);
  }
}
inline std::string sl(const MS & J, const VS & r)
{
  std::string s;
  for (size_t i = 0; i < r.size(); i++) {s += " J=" + sm(J[i]) + " r=" + sm(r[i]);}
  return s;
}
inline Eigen::Quaterniond rq()
{
  Eigen::Quaterniond q(rd(), rd(), rd(), rd());
  if (q.norm() < 1e-3) {return Eigen::Quaterniond::Identity();}
  q.normalize();
  return q;
}
}  // namespace rp
