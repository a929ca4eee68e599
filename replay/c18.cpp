// FLAGS: -isystem /usr/include/eigen3 @REPO@/kalman_filter/src/time_delay_kalman_filter.cpp
#include "mat.hpp"
#include "kalman_filter/time_delay_kalman_filter.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto hist = [] {
      const long n = ri(1, 3), N = ri(1, 4);
      V x0 = rm(n, 1);
      M P0 = coin(0.3) ? rm(n, n) : spd(n);
      Case k; k << "x=" << sm(x0) << " P=" << sm(P0) << " window=" << N; k.set();
      TimeDelayKalmanFilter f(x0, P0, int(N));
      V x(n * N);
      M P = M::Zero(n * N, n * N);
      for (long i = 0; i < N; i++) {x.segment(i * n, n) = x0; P.block(i * n, i * n, n, n) = P0;}
      auto check = [&](const char * what) {
          for (long i = 0; i < N; i++) {
            expect(same(f.getX(int(i)), x.segment(i * n, n)), std::string(what) + ": state of age " + std::to_string(i) + " is " + sm(f.getX(int(i))) + ", expected " + sm(V(x.segment(i * n, n))));
          }
          expect(same(f.getLatestX(), x.head(n)), std::string(what) + ": newest state " + sm(f.getLatestX()));
          expect(same(f.getLatestP(), P.topLeftCorner(n, n)), std::string(what) + ": newest covariance " + sm(f.getLatestP()) + ", expected " + sm(M(P.topLeftCorner(n, n))));
        };
      check("start");
      for (int s = ri(1, 7); s > 0; s--) {
        if (coin()) {
          const V xn = rm(n, 1);
          const M A = rm(n, n) / 4, Q = spd(n);
          k << " predict x=" << sm(xn) << " A=" << sm(A) << " Q=" << sm(Q); k.set();
          f.predict(xn, A, Q);
          M T = M::Zero(n * N, n * N), W = M::Zero(n * N, n * N);
          T.topLeftCorner(n, n) = A;
          for (long i = n; i < n * N; i++) {T(i, i - n) = 1;}
          W.topLeftCorner(n, n) = Q;
          V y(n * N);
          y.head(n) = xn;
          y.tail(n * (N - 1)) = x.head(n * (N - 1));
          x = y; P = T * P * T.transpose() + W;
          check("predict");
        } else {
          const long m = ri(1, 3);
          const V y = rm(m, 1);
          const M C = rm(m, n), R = spd(m);
          const int d = ri(-2, N + 1);
          k << " update y=" << sm(y) << " C=" << sm(C) << " R=" << sm(R) << " delay=" << d; k.set();
          const bool out = d < 0 || d >= N;
          if (out) {
            expect(throws<std::invalid_argument>([&] {f.update(y, C, R, d);}), "a delay outside the window is rejected");
            check("rejected measurement");
            continue;
          }
          M D = M::Zero(m, n * N);
          D.middleCols(d * n, n) = C;
          const M S = R + D * P * D.transpose();
          const Eigen::JacobiSVD<M> svd(S);
          if (svd.singularValues()(m - 1) < 1e-6 * svd.singularValues()(0)) {return;}
          f.update(y, C, R, d);
          const M K = P * D.transpose() * S.inverse();
          x = V(x + K * (y - D * x)); P = M(P - K * D * P);
          check("update");
        }
      }
    };
  return run(c, v, {hist});
}
