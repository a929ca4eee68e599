#pragma once
#include <Eigen/Dense>
#include "replay.hpp"
namespace rp
{
using M = Eigen::MatrixXd;
using V = Eigen::VectorXd;
inline M rm(long r, long c)
{
  M a(r, c);
  for (long i = 0; i < r; i++) {for (long j = 0; j < c; j++) {a(i, j) = coin(0.2) ? 0 : double(ri(-40, 40)) / 8;}}
  return a;
}
inline M spd(long n, bool diag = false)
{
  M a = rm(n, n);
  M s = a * a.transpose() + M::Identity(n, n);
  if (diag) {s = M(s.diagonal().asDiagonal());}
  return s;
}
inline std::string sm(const M & a)
{
  std::ostringstream o;
  o.precision(17);
  o << a.rows() << "x" << a.cols() << "[";
  for (long i = 0; i < a.rows(); i++) {for (long j = 0; j < a.cols(); j++) {o << (j ? "," : i ? ";" : "") << a(i, j);}}
  o << "]";
  return o.str();
}
inline bool same(const M & a, const M & b, double tol = 1e-6)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) {return false;}
  if (a.size() == 0) {return true;}
  const double s = 1 + std::max(a.cwiseAbs().maxCoeff(), b.cwiseAbs().maxCoeff());
  return (a - b).cwiseAbs().maxCoeff() <= tol * s;
}
}  // namespace rp
