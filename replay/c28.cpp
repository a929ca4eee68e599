// FLAGS: -I@VERIF@/units/stubs -I@REPO@/ekf_localizer/include -I/usr/include/eigen3
#include <stdexcept>
#include "replay.hpp"
#include "ekf_localizer/ekf_localizer.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto hist = [] {
      const double p = pick<double>({0, 1, rr(0, 3)});
      const int n = ri(1, 9);
      std::vector<double> z, s;
      std::vector<int64_t> t;
      int64_t cur = coin() ? 0 : int64_t(ri(0, 1000000)) * 1000003;
      for (int i = 0; i < n; i++) {
        z.push_back(pick<double>({0, 1, rr(-10, 10)})); s.push_back(pick<double>({0, 1, rr(0.2, 5)}));
        t.push_back(cur); cur += pick<int64_t>({0, 1000000, 20000000, int64_t(ri(0, 2000000000)), 6000000000});
      }
      Case k; k << "process deviation " << p << " measurements " << show(z) << " deviations " << show(s) << " stamps [ns] " << show(t); k.set();
      Simple1DFilter f;
      f.set_proc_stddev(p);
      double x = 0, w = 0;
      for (int i = 0; i < n; i++) {
        f.update(z[i], s[i], rclcpp::Time(t[i]));
        if (i == 0) {x = z[0]; w = s[0] * s[0];} else {
          const double q = p * (t[i] - t[i - 1]) * 1e-9, pred = w + q * q, sum = pred + s[i] * s[i];
          const double g = sum > 0 ? pred / sum : 0;
          x += g * (z[i] - x); w = sum > 0 ? pred * s[i] * s[i] / sum : 0;
        }
        const double r = f.get_x();
        expect(close(r, x, 1e-6), "state after measurement " + std::to_string(i) + " is " + std::to_string(r) + ", expected " + std::to_string(x));
      }
    };
  return run(c, v, {hist});
}
