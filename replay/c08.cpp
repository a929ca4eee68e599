// FLAGS: -nosan @REPO@/extraction/src/math.cpp
#include "scan.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto nb = [] {
      const int n = coin(0.1) ? ri(0, 2) : ri(2, 12);
      pcl::PointCloud<Pt>::Ptr cloud(new pcl::PointCloud<Pt>());
      const int nc = n + ri(1, 4);
      std::vector<int> idx;
      Case k; k << "NeighborCheckXY points(x,y)=";
      for (int i = 0; i < nc; i++) {
        Pt p; p.x = float(coin(0.15) ? 0 : rd()); p.y = float(coin(0.15) ? 0 : rd()); p.z = float(rd());
        if (i && coin(0.3)) {double s = pick<double>({1, 2, -1, 0.5, 3.7}); p.x = float(cloud->at(i - 1).x * s); p.y = float(cloud->at(i - 1).y * s);}
        cloud->push_back(p); k << "(" << p.x << "," << p.y << ")";
      }
      for (int i = 0; i < n; i++) {idx.push_back(ri(0, nc - 1));}
      const double thr = pick<double>({0.02, 0.5, 1.6, 3.0, 4.0, 0.0});
      int i = ri(-1, n), j = ri(-1, n), b = ri(0, n), e = ri(b, n);
      k << " indices=" << show(idx) << " threshold=" << thr << " i=" << i << " j=" << j << " slice=[" << b << "," << e << ")"; k.set();
      const MappedPoints<Pt> m(cloud, idx);
      expect(m.size() == n, "mapped size");
      if (n < 2) {expect(throws<std::invalid_argument>([&] {NeighborCheckXY<Pt>(m, thr);}), "fewer than two points must be rejected"); return;}
      const NeighborCheckXY<Pt> nbr(m, thr);
      expect(nbr.size() == n, "size");
      auto P = [&](int q) {return cloud->at(idx[q]);};
      auto zero = [&](int q) {return P(q).x == 0 && P(q).y == 0;};
      auto in = [&](int q) {return q >= 0 && q < n;};
      const Range<Pt> rg(m);
      expect(rg.size() == n, "range size");
      if (in(i)) {expect(close(rg(i), std::hypot(double(P(i).x), double(P(i).y)), 1e-9), "range");} else {expect(throws<std::out_of_range>([&] {rg(i);}), "range of a point outside the line");}
      const auto piece = rg(b, e);
      expect(int(piece.size()) == e - b, "piece size");
      for (int q = b; q < e; q++) {expect(piece[q - b] == rg(q), "piece value");}
      if (!in(i) || !in(j)) {expect(throws<std::out_of_range>([&] {nbr(i, j);}), "an index outside the line must be rejected"); return;}
      if (zero(i) && zero(j)) {expect(throws<std::invalid_argument>([&] {nbr(i, j);}), "two points at the origin must be rejected"); return;}
      const bool a = nbr(i, j);
      expect(a == nbr(j, i), "symmetry");
      if (!zero(i) && !zero(j)) {
        double d = double(P(i).x) * P(j).x + double(P(i).y) * P(j).y, x = double(P(i).x) * P(j).y - double(P(i).y) * P(j).x;
        double ang = std::atan2(std::abs(x), d);
        if (std::abs(ang - thr) > 1e-6) {expect(a == (ang < thr), "the angle is " + std::to_string(ang) + " but the answer is " + std::to_string(a));}
      }
      if (e - b < 2) {expect(throws<std::invalid_argument>([&] {nbr.Slice(b, e);}), "a slice of fewer than two points must be rejected"); return;}
      const auto s = nbr.Slice(b, e);
      expect(s.size() == e - b, "slice size");
      for (int p = -1; p <= e - b; p++) {
        for (int q = -1; q <= e - b; q++) {
          if (p < 0 || q < 0 || p >= e - b || q >= e - b) {expect(throws<std::out_of_range>([&] {s(p, q);}), "slice index outside"); continue;}
          if (zero(p + b) && zero(q + b)) {continue;}
          expect(s(p, q) == nbr(p + b, q + b), "slice differs");
        }
      }
    };
  return run(c, v, {nb});
}
