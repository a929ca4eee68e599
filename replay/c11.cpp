// FLAGS: -isystem /usr/include/eigen3 @REPO@/localization/src/optimizer.cpp @REPO@/localization/src/robust.cpp @REPO@/localization/src/posevec.cpp @REPO@/localization/src/degenerate.cpp @REPO@/lib/src/stats.cpp @REPO@/rotationlib/src/quaternion.cpp -nosan
#include "ref.hpp"
using namespace rp;
static double loss(double e, double k) {return e < k * k ? e : 2 * k * std::sqrt(e) - k * k;}
int main(int c, char ** v)
{
  auto huber = [] {
      const double k = coin(0.3) ? 1.345 : std::fabs(rd()) + 1e-3, e = coin(0.3) ? k * k * (1 + rd(1e-3)) : std::fabs(rd(1000));
      if (e < 0) {return;}
      Case cs; cs << "squared error " << e << " cut-off " << k; cs.set();
      const double tol = 1e-9 * (1 + e);
      expect(close(Huber(e, k), loss(e, k), tol), "loss " + show(Huber(e, k)) + " instead of " + show(loss(e, k)));
      expect(close(Huber(e), loss(e, 1.345), tol), "loss with the default cut-off " + show(Huber(e)));
      expect(close(HuberDerivative(e, k), ref_dhuber(e, k), 1e-9), "weight " + show(HuberDerivative(e, k)) + " instead of " + show(ref_dhuber(e, k)));
      expect(close(HuberDerivative(e), ref_dhuber(e, 1.345), 1e-9), "weight with the default cut-off " + show(HuberDerivative(e)));
    };
  auto weights = [] {
      MS J; VS r;
      lists(ri(1, 9), coin() ? 1 : 10, J, r);
      Case cs; cs << sl(J, r); cs.set();
      const V e = ComputeErrors(r), re = ref_errors(r);
      expect(same(e, re, 1e-9), "squared errors " + sm(e) + " instead of " + sm(re));
      const auto [n, s] = NormalizeErrorScale(e);
      expect(close(s, ref_scale(re), 1e-9 * (1 + re.sum())), "scale " + show(s) + " instead of " + show(ref_scale(re)));
      expect(n.size() == e.size(), "number of normalised errors " + show(n.size()));
      for (long i = 0; i < e.size(); i++) {
        if (ref_scale(re) > 1e-3) {expect(close(n(i), re(i) / ref_scale(re), 1e-6 * (1 + n(i))), "normalised error " + show(n(i)));}
      }
      const V w = ComputeWeights(n);
      expect(same(w, ref_weights(n), 1e-9), "weights " + sm(w) + " instead of " + sm(ref_weights(n)));
    };
  auto update = [] {
      MS J; VS r;
      lists(coin(0.2) ? ri(0, 3) : ri(6, 14), 1, J, r);
      V w(long(r.size()));
      for (long i = 0; i < w.size(); i++) {w(i) = coin(0.2) ? 1 : rr(0.05, 1);}
      const Eigen::Quaterniond q = rq();
      const M m = ref_m(q);
      Case cs; cs << "M=" << sm(m) << " w=" << sm(w) << sl(J, r); cs.set();
      try {
        const V want = ref_update(m, w, J, r);
        const V got = WeightedUpdate(Eigen::Matrix<double, 7, 6>(m), w, J, r);
        expect(same(got, want, 1e-6), "update " + sm(got) + " instead of " + sm(want));
      } catch (const Skip &) {}
    };
  auto degenerate = [] {
      const long n = ri(1, 7);
      M q = M(rm(n, n) + 9 * M::Identity(n, n)).householderQr().householderQ();
      V d(n);
      double least = 1e9;
      const double t = coin() ? 0.1 : rr(0.01, 2);
      for (long i = 0; i < n; i++) {
        d(i) = coin(0.2) ? rd(0.2) : rd(30);
        if (std::fabs(std::fabs(d(i)) - t) < 1e-6) {return;}
        least = std::min(least, std::fabs(d(i)));
      }
      const M C = q * d.asDiagonal() * q.transpose();
      Case cs; cs << "C=" << sm(C) << " with eigenvalues " << sm(d) << " threshold " << t; cs.set();
      expect(IsDegenerate(C, t) == (least < t), "degenerate: " + show(IsDegenerate(C, t)));
    };
  return run(c, v, {huber, weights, update, degenerate});
}
