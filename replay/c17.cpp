// FLAGS: -isystem /usr/include/eigen3 @REPO@/kalman_filter/src/kalman_filter.cpp
#include "mat.hpp"
#include <new>
#include "kalman_filter/kalman_filter.hpp"
using namespace rp;
struct Probe : KalmanFilter
{
  using KalmanFilter::KalmanFilter;
  const V & x() const {return x_;}
  const M & P() const {return P_;}
};
KalmanFilter::~KalmanFilter() {}
int main(int c, char ** v)
{
  auto hist = [] {
      const long n = ri(1, 5), l = ri(1, 3), m = ri(1, 4);
      V x = rm(n, 1);
      M A = rm(n, n), B = rm(n, l), C = rm(m, n), Q = spd(n), R = spd(m), P = coin(0.3) ? rm(n, n) : spd(n);
      Case k; k << "x=" << sm(x) << " A=" << sm(A) << " B=" << sm(B) << " C=" << sm(C) << " Q=" << sm(Q) << " R=" << sm(R) << " P=" << sm(P); k.set();
      Probe f(x, A, B, C, Q, R, P);
      const int steps = ri(1, 3);
      for (int s = 0; s < steps; s++) {
        expect(same(f.x(), x) && same(f.P(), P), "state " + sm(f.x()) + " covariance " + sm(f.P()));
        for (long i = 0; i < n; i++) {expect(f.getXelement(unsigned(i)) == f.x()(i), "element of the mean");}
        switch (ri(0, 3)) {
          case 0: {
              V u = rm(l, 1);
              k << " predict u=" << sm(u); k.set();
              f.predict(u);
              x = A * x + B * u; P = A * P * A.transpose() + Q;
              break;
            }
          case 1: {
              const long l2 = ri(1, 3);
              V u = rm(l2, 1);
              M a = rm(n, n), b = rm(n, l2), q = spd(n);
              k << " predict u=" << sm(u) << " A=" << sm(a) << " B=" << sm(b) << " Q=" << sm(q); k.set();
              f.predict(u, a, b, q);
              x = a * x + b * u; P = a * P * a.transpose() + q;
              break;
            }
          case 2: {
              V x0 = rm(n, 1);
              M P0 = spd(n);
              k << " init x=" << sm(x0) << " P=" << sm(P0); k.set();
              f.init(x0, P0);
              x = x0; P = P0;
              break;
            }
          default: {
              V y = rm(m, 1);
              const bool bad = coin(0.1);
              k << " update y=" << sm(y); k.set();
              if (bad) {   // a covariance that is not a number gives an invalid gain
                M P0 = P;
                P0(0, 0) = std::nan("");
                f.init(x, P0);
                k << " with covariance not a number"; k.set();
                const M S = R + C * P0 * C.transpose();
                const M K = P0 * C.transpose() * S.inverse();
                if (!(K.array().isNaN().any() || K.array().isInf().any())) {f.init(x, P); break;}
                expect(throws<std::invalid_argument>([&] {f.update(y);}), "an invalid gain is rejected");
                expect(same(f.x(), x), "state changed by a rejected measurement");
                f.init(x, P);
                break;
              }
              const M S = R + C * P * C.transpose();
              const Eigen::JacobiSVD<M> svd(S);
              if (svd.singularValues()(m - 1) < 1e-6 * svd.singularValues()(0)) {return;}
              f.update(y);
              const M K = P * C.transpose() * S.inverse();
              const V x1 = x + K * (y - C * x);
              P = P - K * C * P; x = x1;
            }
        }
        expect(same(f.x(), x, 1e-5), "mean " + sm(f.x()) + " expected " + sm(x));
        expect(same(f.P(), P, 1e-5), "covariance " + sm(f.P()) + " expected " + sm(P));
        x = f.x(); P = f.P();
      }
    };
  return run(c, v, {hist});
}
