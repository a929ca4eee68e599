// FLAGS: -nosan @REPO@/extraction/src/math.cpp @REPO@/extraction/src/index_range.cpp
#include "scan.hpp"
#include "nb.hpp"
#include "lidar_feature_library/span.hpp"
#include "extraction/src/iterator.cpp"
#include "lidar_feature_extraction/index_range.hpp"
using namespace rp;
using View = span<PointLabel>;
using CView = const_span<double>;
static std::vector<double> curv(int n, bool distinct)
{
  std::vector<double> c;
  for (int i = 0; i < n; i++) {c.push_back(distinct ? rr(0, 2) : coin(0.3) && i ? c[ri(0, i - 1)] : rd(2));}
  return c;
}
// the selection, written down point by point
template<typename J>
void greedy(L & l, const std::vector<double> & c, J joined, int b, int e, int pad, double thr, bool edge)
{
  std::vector<int> o;
  for (int i = b; i < e; i++) {o.push_back(i);}
  std::sort(o.begin(), o.end(), [&](int x, int y) {return edge ? c[x] > c[y] : c[x] < c[y];});
  const PointLabel lab = edge ? PointLabel::Edge : PointLabel::Surface, nbl = edge ? PointLabel::EdgeNeighbor : PointLabel::SurfaceNeighbor;
  for (int i : o) {
    if (l[i] != PointLabel::Default || !(edge ? c[i] >= thr : c[i] <= thr)) {continue;}
    for (int k = i + 1; k < e && k <= i + pad && joined(k - 1); k++) {l[k] = nbl;}
    for (int k = i - 1; k >= b && k >= i - pad && joined(k); k--) {l[k] = nbl;}
    l[i] = lab;
  }
}
static L mostly_default(int n)
{
  L l = rl(n);
  for (auto & x : l) {if (coin(0.6)) {x = PointLabel::Default;}}
  return l;
}
int main(int argc, char ** argv)
{
  auto one = [] {
      const bool edge = coin();
      const int n = ri(1, 22), b = coin() ? 0 : ri(0, n - 1), e = ri(b + 1, n), pad = coin(0.1) ? 0 : ri(0, 6);
      RandNb nb(e - b, pick<double>({0.5, 0.8, 0.95, 1.0, 0.0}));
      L l = mostly_default(n), l0 = l;
      const auto c = curv(n, coin(0.3));
      const double thr = coin(0.3) ? c[ri(b, e - 1)] : rd(2);
      Case k; k << (edge ? "EdgeLabel" : "SurfaceLabel") << "::Assign view=[" << b << "," << e << ") padding=" << pad << " threshold=" << thr << " labels=" << sh(l) << " curvature=" << show(c) << " joined(i,i+1)=" << show(nb.joined); k.set();
      View lv(l.begin() + b, l.begin() + e);
      const CView cv(c.begin() + b, c.begin() + e);
      if (edge) {EdgeLabel(pad, thr).Assign(lv, cv, nb);} else {SurfaceLabel(pad, thr).Assign(lv, cv, nb);}
      const PointLabel lab = edge ? PointLabel::Edge : PointLabel::Surface, nbl = edge ? PointLabel::EdgeNeighbor : PointLabel::SurfaceNeighbor;
      auto in = [&](int q) {return q >= b && q < e;};
      auto good = [&](int q) {return edge ? c[q] >= thr : c[q] <= thr;};
      auto sel = [&](int q) {return in(q) && l[q] == lab && l0[q] == PointLabel::Default;};
      auto cov = [&](int s, int q) {return in(s) && in(q) && std::abs(s - q) <= pad && q - b <= nb.right(s - b) && q - b >= nb.left(s - b);};
      const std::string after = ", labels after: " + sh(l);
      expect(int(l.size()) == n, "length");
      for (int q = 0; q < n; q++) {
        const std::string at = " at index " + std::to_string(q) + after;
        if (!in(q)) {expect(l[q] == l0[q], "label outside the view changed" + at); continue;}
        if (sel(q)) {expect(good(q), "a selected point is beyond the threshold" + at);}
        if (l[q] == PointLabel::Default) {expect(l0[q] == PointLabel::Default && !good(q), "an unlabelled point within the threshold is left" + at);}
        if (l[q] != l0[q] && !sel(q)) {
          bool ok = false;
          for (int s = b; s < e; s++) {ok |= sel(s) && cov(s, q) && (l0[q] != PointLabel::Default || (edge ? c[s] >= c[q] : c[s] <= c[q]));}
          expect(l[q] == nbl && ok, "a changed label that no selected point explains" + at);
        }
        for (int s = b; s < e; s++) {if (s != q && sel(s) && cov(s, q)) {expect(l[q] == nbl, "a point connected to a selected one is not marked" + at);}}
      }
    };
  auto line = [] {
      const int n = ri(4, 40), pad = ri(0, 4), nblocks = ri(1, 5), epad = ri(0, 4), spad = ri(0, 4);
      Line ln(n);
      L l = mostly_default(n);
      const auto c = curv(n, true);
      const double te = rr(0.5, 2), ts = rr(0, 1);
      Case k; k << "AssignLabel points=" << n << " blocks=" << nblocks << " range padding=" << pad << " edge padding/threshold=" << epad << "/" << te << " surface padding/threshold=" << spad << "/" << ts << " labels=" << sh(l) << " curvature=" << show(c) << " joined(i,i+1)=" << show(ln.joined); k.set();
      if (n - 2 * pad < 2 * nblocks) {return;}
      const PaddedIndexRange r(n, nblocks, pad);
      L w = l;
      auto j = [&](int i) {return bool(ln.joined[i]);};
      for (int i = 0; i < nblocks; i++) {
        greedy(w, c, j, r.Begin(i), r.End(i), epad, te, true);
        greedy(w, c, j, r.Begin(i), r.End(i), spad, ts, false);
      }
      const NeighborCheckXY<Pt> nb(ln.ref(), ln.thr);
      AssignLabel(l, c, nb, r, EdgeLabel(epad, te), SurfaceLabel(spad, ts));
      expect(l == w, "labels " + sh(l) + " instead of " + sh(w));
    };
  return run(argc, argv, {one, line});
}
