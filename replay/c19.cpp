// FLAGS: @REPO@/ekf_localizer/src/update_interval.cpp
#include <stdexcept>
#include "replay.hpp"
#include "ekf_localizer/update_interval.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto hist = [] {
      const double f = pick<double>({50, 10, 0.5, 0.1, 0.05, 0, -1, rr(0.01, 100)});
      const int n = ri(1, 8);
      std::vector<double> t;
      double cur = rr(-100, 1e9);
      for (int i = 0; i < n; i++) {t.push_back(cur); cur += pick<double>({0.0, 0.02, rr(0, 1), rr(5, 15), 100, -rr(0, 3), -1e-6, -20});}
      Case k; k << "UpdateInterval(" << f << ") readings " << show(t); k.set();
      UpdateInterval u(f);
      double last = 0;
      for (int i = 0; i < n; i++) {
        if (i && t[i] < last) {
          expect(throws<std::invalid_argument>([&] {u.Compute(t[i]);}), "a backward jump must be rejected, reading " + std::to_string(i));
          continue;
        }
        const double r = u.Compute(t[i]);
        const double e = i == 0 ? 1.0 / std::max(f, 0.1) : std::min(t[i] - last, 10.0);
        expect(close(r, e, 1e-7), "interval for reading " + std::to_string(i) + " is " + std::to_string(r) + ", expected " + std::to_string(e));
        last = t[i];
      }
    };
  return run(c, v, {hist});
}
