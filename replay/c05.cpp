// FLAGS: -nosan @REPO@/extraction/src/math.cpp
#include "scan.hpp"
#include "lidar_feature_extraction/out_of_range.hpp"
#include "lidar_feature_extraction/parallel_beam.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto oor = [] {
      const int n = ri(1, 20);
      Line ln(n);
      double lo = rr(0, 5), hi = coin(0.2) ? rr(0, 3) : rr(5, 25);
      if (coin(0.3)) {lo = ln.r[ri(0, n - 1)];}
      if (coin(0.3)) {hi = ln.r[ri(0, n - 1)];}
      L l = rl(n), w = l;
      Case k; k << "LabelOutOfRange min=" << lo << " max=" << hi << " ranges=" << show(ln.r) << " labels=" << sh(l); k.set();
      for (int i = 0; i < n; i++) {if (ln.r[i] < lo || ln.r[i] > hi) {w[i] = PointLabel::OutOfRange;}}
      LabelOutOfRange(l, Range<Pt>(ln.ref()), lo, hi);
      expect(l == w, "labels after: " + sh(l) + " expected " + sh(w));
    };
  auto pb = [] {
      const int n = ri(1, 20);
      Line ln(n);
      double t = pick<double>({0.02, 0.1, 0.5, 2.0});
      L l = rl(n), w = l;
      Case k; k << "LabelParallelBeamPoints ratio=" << t << " ranges=" << show(ln.r) << " labels=" << sh(l); k.set();
      for (int i = 1; i + 1 < n; i++) {
        double a = std::abs(ln.r[i - 1] - ln.r[i]) / ln.r[i], b = std::abs(ln.r[i + 1] - ln.r[i]) / ln.r[i];
        if (std::abs(a - t) < 1e-5 || std::abs(b - t) < 1e-5) {return;}
        if (a > t && b > t) {w[i] = PointLabel::ParallelBeam;}
      }
      LabelParallelBeamPoints(l, Range<Pt>(ln.ref()), t);
      expect(l == w, "labels after: " + sh(l) + " expected " + sh(w));
    };
  return run(c, v, {oor, pb});
}
