// FLAGS: -nosan @REPO@/extraction/src/math.cpp
#include "scan.hpp"
#include "lidar_feature_extraction/occlusion.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto occ = [] {
      const int n = ri(2, 40), pad = ri(0, std::min(n - 1, 8));
      Line ln(n);
      const double thr = pick<double>({0.3, 0.02, 5.0});
      L l = rl(n), l0 = l, w = l;
      Case k; k << "LabelOccludedPoints padding=" << pad << " threshold=" << thr << " ranges=" << show(ln.r) << " joined(i,i+1)=" << show(ln.joined) << " labels=" << sh(l); k.set();
      for (int i = 0; i + pad + 1 < n; i++) {
        if (std::abs(ln.r[i + 1] - ln.r[i] - thr) < 1e-9) {return;}
        if (ln.joined[i] && ln.r[i + 1] > ln.r[i] + thr) {for (int j = i + 1; j <= i + 1 + pad && j <= ln.right(i + 1); j++) {w[j] = PointLabel::Occluded;}}
      }
      for (int i = n - 1; i > pad; i--) {
        if (std::abs(ln.r[i - 1] - ln.r[i] - thr) < 1e-9) {return;}
        if (ln.joined[i - 1] && ln.r[i - 1] > ln.r[i] + thr) {for (int j = i - 1; j >= i - 1 - pad && j >= ln.left(i - 1); j--) {w[j] = PointLabel::Occluded;}}
      }
      LabelOccludedPoints(l, NeighborCheckXY<Pt>(ln.ref(), 0.2), Range<Pt>(ln.ref()), pad, thr);
      expect(l == w, "labels after: " + sh(l) + " expected " + sh(w));
    };
  return run(c, v, {occ});
}
