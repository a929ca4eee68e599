// FLAGS: -isystem /usr/include/eigen3 @REPO@/localization/src/optimizer.cpp @REPO@/localization/src/robust.cpp @REPO@/localization/src/posevec.cpp @REPO@/localization/src/degenerate.cpp @REPO@/lib/src/stats.cpp @REPO@/rotationlib/src/quaternion.cpp -nosan
#include "ref.hpp"
using namespace rp;
// a problem that goes through a script, one entry for each new pose
struct Script
{
  std::vector<std::pair<MS, VS>> entries;
  std::vector<bool> repeated;
  mutable long at = -1;
  mutable M last;
  std::tuple<std::vector<Eigen::MatrixXd>, std::vector<Eigen::VectorXd>> Make(const int &, const Eigen::Isometry3d & p) const
  {
    const M m = p.matrix().topRows(3);
    if (at < 0 || !same(m, last, 1e-13)) {at++; last = m;}
    const auto & e = entries[std::min(size_t(at), entries.size() - 1)];
    return {e.first, e.second};
  }
};
static std::string kind(const std::string & m)
{
  for (const char * w : {"empty", "error", "scale", "converged", "maximum"}) {if (m.find(w) != std::string::npos) {return w;}}
  return m;
}
static void once()
{
  const int limit = int(ri(0, 8));
  Script s;
  MS J; VS r;
  double size = 1;
  const bool tiny = coin(0.3);
  Case cs; cs << "limit " << limit;
  for (int i = 0; i < limit + 2; i++) {
    const bool repeat = i > 0 && coin(0.2);
    s.repeated.push_back(repeat && !tiny);
    if (!repeat) {
      if (!(i && coin(0.4))) {lists(coin(0.1) ? ri(0, 3) : ri(8, 14), size, J, r);}
      else {for (V & x : r) {x *= 0.5;}}
    }
    if (tiny && i > 1) {for (V & x : r) {x *= 1e-6;}}
    s.entries.push_back({J, r});
    cs << " step " << i << ":" << sl(J, r);
    size *= rr(0.3, 0.9);
  }
  Eigen::Quaterniond q = rq();
  V t = rm(3, 1);
  Eigen::Isometry3d start = Eigen::Isometry3d::Identity();
  start.linear() = q.toRotationMatrix();
  q = Eigen::Quaterniond(start.linear());
  start.translation() = t;
  cs << " start " << sm(start.matrix()); cs.set();
  // the reference run
  std::string want = "maximum";
  int iter = limit;
  bool ok = false;
  double pe = std::numeric_limits<double>::max(), ps = pe, e = 0, sc = 0;
  try {
    for (int k = 0; k < limit; k++) {
      const auto & [Jk, rk] = s.entries[k];
      iter = k;
      if (rk.empty()) {want = "empty"; e = sc = 0; break;}
      const V errs = ref_errors(rk);
      e = errs.sum(); sc = ref_scale(errs);
      const bool again = s.repeated[k];
      if (!again && k > 0 && (std::fabs(e - pe) < 1e-9 * (1 + e) || std::fabs(sc - ps) < 1e-9 * (1 + sc))) {throw Skip();}
      if (!again && e > pe) {want = "error"; ok = true; break;}
      if (!again && sc > ps) {want = "scale"; ok = true; break;}
      pe = e; ps = sc;
      V n = errs / (sc + 1e-16);
      for (long i = 0; i < n.size(); i++) {if (std::fabs(n(i) - 1.345 * 1.345) < 1e-9) {throw Skip();}}
      const V dx = ref_update(ref_m(Eigen::Quaterniond(q.toRotationMatrix())), ref_weights(n), Jk, rk);
      const Eigen::Quaterniond dq = ref_q(dx.head(3));
      q = q * dq;
      t = t + dx.tail(3);
      const double a = dq.vec().norm(), b = dx.tail(3).norm();
      if (std::fabs(a - 1e-3) < 1e-8 || std::fabs(b - 1e-3) < 1e-8) {throw Skip();}
      if (a < 1e-3 && b < 1e-3) {want = "converged"; ok = true; break;}
      iter = limit;
    }
    if (want == "maximum") {e = pe; sc = ps;}
  } catch (const Skip &) {return;}
  const OptimizationResult res = Optimizer<Script, int>(s, limit).Run(0, start);
  const std::string got = kind(res.message) + " at " + show(res.iteration);
  expect(kind(res.message) == want && res.iteration == iter, "outcome " + got + " instead of " + want + " at " + show(iter));
  expect(res.success == ok, "success " + show(res.success) + " after " + got);
  expect(close(res.error, e, 1e-6 * (1 + e)) || res.error == e, "error " + show(res.error) + " instead of " + show(e));
  expect(close(res.error_scale, sc, 1e-6 * (1 + sc)) || res.error_scale == sc, "scale " + show(res.error_scale) + " instead of " + show(sc));
  M p = M::Identity(4, 4);
  p.block(0, 0, 3, 3) = q.toRotationMatrix(); p.block(0, 3, 3, 1) = t;
  expect(same(res.pose.matrix().topRows(3), p.topRows(3), 1e-5), "pose " + sm(res.pose.matrix().topRows(3)) + " after " + got + " instead of " + sm(p.topRows(3)));
}
int main(int c, char ** v) {return run(c, v, {once});}
