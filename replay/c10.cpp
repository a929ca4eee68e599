// FLAGS: -isystem /usr/include/eigen3 -I@VERIF@/units
#include "u_stats.cpp"
#include "replay.hpp"
using namespace rp;
static double med(std::vector<double> v)
{
  std::sort(v.begin(), v.end());
  const size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2;
}
int main(int c, char ** v)
{
  auto t = [] {
      const int n = pick<int>({0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 20, 33, 64, 101});
      std::vector<double> x(n);
      const double off = coin(0.3) ? rr(-100, 100) : 0;
      for (auto & e : x) {e = rd() + off;}
      Case k; k << "values=" << show(x); k.set();
      const Eigen::VectorXd m = Eigen::VectorXd::Map(x.data(), n), copy = m;
      const Eigen::ArrayXd a = m.array();
      if (n == 0) {
        expect(throws<std::invalid_argument>([&] {irvc_median(m);}) && throws<std::invalid_argument>([&] {irvc_scale(m);}), "empty input");
        return;
      }
      const double e = med(x);
      expect(close(irvc_median(m), e) && close(irvc_median_a(a), e), "median is " + std::to_string(irvc_median(m)) + " instead of " + std::to_string(e));
      std::vector<double> d;
      for (double y : x) {d.push_back(std::abs(y - e));}
      const double s = irvc_scale(m);
      expect(s >= 0 && close(s, 1.482602218505602 * med(d), 1e-9), "scale is " + std::to_string(s));
      expect(m == copy, "input changed");
    };
  return run(c, v, {t});
}
