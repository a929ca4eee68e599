// FLAGS: @REPO@/extraction/src/convolution.cpp @REPO@/extraction/src/curvature.cpp
#include <cassert>
#include <stdexcept>
#include <string>
#include "replay.hpp"
#include "lidar_feature_extraction/convolution.hpp"
#include "lidar_feature_extraction/curvature.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto conv = [] {
      const int m = 2 * ri(0, 6) + 1, n = ri(0, 30);
      std::vector<double> in(n), w(m);
      for (auto & x : in) {x = rd();}
      for (auto & x : w) {x = rd();}
      Case k; k << "Convolution1D input=" << show(in) << " weight=" << show(w); k.set();
      if (n < m) {expect(throws<std::invalid_argument>([&] {Convolution1D(in, w);}), "a signal shorter than the kernel must be rejected"); return;}
      auto r = Convolution1D(in, w);
      expect(int(r.size()) == n, "length");
      const int p = (m - 1) / 2;
      for (int i = 0; i < n; i++) {
        double e = 0;
        if (i >= p && i < n - p) {for (int t = 0; t < m; t++) {e += in[i - p + t] * w[t];}}
        expect(std::abs(r[i] - e) < 1e-7, "value at " + std::to_string(i) + " of " + show(r));
      }
    };
  auto curv = [] {
      const int p = ri(1, 6), n = ri(0, 30);
      std::vector<double> in(n);
      for (auto & x : in) {x = rd();}
      Case k; k << "CalcCurvature range=" << show(in) << " padding=" << p; k.set();
      if (n < 2 * p + 1) {expect(throws<std::invalid_argument>([&] {CalcCurvature(in, p);}), "a line shorter than the window must be rejected"); return;}
      auto r = CalcCurvature(in, p);
      expect(int(r.size()) == n, "length");
      for (int i = 0; i < n; i++) {
        double e = 0;
        if (i >= p && i < n - p) {for (int t = i - p; t <= i + p; t++) {e += in[t];} e -= (2 * p + 1) * in[i];}
        expect(std::abs(r[i] - e * e) < 1e-6 * (1 + e * e), "value at " + std::to_string(i) + " of " + show(r));
      }
    };
  return run(c, v, {conv, curv});
}
