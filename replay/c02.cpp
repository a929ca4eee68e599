#include <cassert>
#include "nb.hpp"
#include "lidar_feature_extraction/fill.hpp"
#include "lidar_feature_extraction/point_label.hpp"
using namespace rp;
using L = std::vector<PointLabel>;
static std::string sh(const L & l) {std::vector<int> v; for (auto x : l) {v.push_back(int(x));} return show(v);}
static L rl(int n) {L l(n); for (auto & x : l) {x = PointLabel(ri(0, 7));} return l;}
int main(int c, char ** v)
{
  auto oneside = [] {
      const bool left = coin();
      const int n = ri(1, 24);
      RandNb nb(n, pick<double>({0.5, 0.8, 0.95, 1.0, 0.0}));
      L l = rl(n), l0 = l;
      int b = ri(-3, n + 1), e = ri(b + 1, std::max(b + 1, n + 3));
      PointLabel p = PointLabel(ri(0, 7));
      Case k; k << (left ? "FillFromLeft" : "FillFromRight") << " begin=" << b << " end=" << e << " label=" << int(p) << " labels=" << sh(l) << " joined(i,i+1)=" << show(nb.joined); k.set();
      bool bad = left ? (b < 0 || e > n) : (b < -1 || e >= n);
      bool threw = throws<std::invalid_argument>([&] {if (left) {FillFromLeft(l, nb, b, e, p);} else {FillFromRight(l, nb, b, e, p);}});
      expect(threw == bad, bad ? "a range outside the scan must be rejected" : "a valid range must be accepted");
      if (threw) {expect(l == l0, "labels changed although the request was rejected"); return;}
      expect(l.size() == l0.size(), "length");
      for (int i = 0; i < n; i++) {
        bool in = left ? (i >= b && i < e && i <= nb.right(b)) : (i > b && i <= e && i >= nb.left(e));
        expect(l[i] == (in ? p : l0[i]), "label at index " + std::to_string(i) + " after: " + sh(l));
      }
    };
  auto both = [] {
      const int n = ri(1, 24);
      RandNb nb(n, pick<double>({0.5, 0.8, 0.95, 1.0, 0.0}));
      L l = rl(n), l0 = l;
      int i0 = ri(0, n - 1), pad = coin(0.1) ? 0 : ri(0, n + 2);
      PointLabel p = PointLabel(ri(0, 7));
      Case k; k << "FillNeighbors index=" << i0 << " padding=" << pad << " label=" << int(p) << " labels=" << sh(l) << " joined(i,i+1)=" << show(nb.joined); k.set();
      FillNeighbors(l, nb, i0, pad, p);
      for (int i = 0; i < n; i++) {
        bool in = std::abs(i - i0) <= pad && i >= nb.left(i0) && i <= nb.right(i0);
        expect(l[i] == (in ? p : l0[i]), "label at index " + std::to_string(i) + " after: " + sh(l));
      }
    };
  return run(c, v, {oneside, both});
}
