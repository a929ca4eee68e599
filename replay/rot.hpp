#include "u_rot.cpp"
#include "replay.hpp"
using namespace rp;
static V4 rv4() {return V4(rd(2), rd(2), rd(2), rd(2));}
static V3 rv3(double s = 5) {return V3(rd(s), rd(s), rd(s));}
static V4 mul(const V4 & a, const V4 & b)
{
  return V4(a(0) * b(0) - a(1) * b(1) - a(2) * b(2) - a(3) * b(3), a(0) * b(1) + a(1) * b(0) + a(2) * b(3) - a(3) * b(2),
           a(0) * b(2) - a(1) * b(3) + a(2) * b(0) + a(3) * b(1), a(0) * b(3) + a(1) * b(2) - a(2) * b(1) + a(3) * b(0));
}
static V3 rotp(const V4 & q, const V3 & p) {const V4 r = mul(mul(q, V4(0, p(0), p(1), p(2))), V4(q(0), -q(1), -q(2), -q(3))); return V3(r(1), r(2), r(3));}
template<typename A, typename B> bool near(const A & a, const B & b, double tol = 1e-9) {return ((a - b).cwiseAbs().array() <= tol * (1 + a.cwiseAbs().maxCoeff())).all();}
template<typename M> std::string s(const M & m) {std::vector<double> x; for (int i = 0; i < m.size(); i++) {x.push_back(m.data()[i]);} return show(x);}
#ifdef HAVE_MAKEM
Eigen::Matrix<double, 7, 6> MakeM(const Eigen::Quaterniond & q);
static void makem()
{
  const V4 q = rv4();
  Case k; k << "MakeM q=" << s(q); k.set();
  const auto M = MakeM(Q(q(0), q(1), q(2), q(3)));
  for (int j = 0; j < 3; j++) {
    V4 e(0, 0, 0, 0); e(j + 1) = 0.5;
    expect(near(mul(q, e), V4(M.block<4, 1>(0, j))) && M.block<3, 1>(4, j).isZero() && M.block<4, 1>(0, j + 3).isZero() && near(V3(V3::Unit(j)), V3(M.block<3, 1>(4, j + 3))), "MakeM column");
  }
}
#else
static void makem() {}
#endif
int main(int c, char ** v)
{
  auto algebra = [] {
      const V4 q = rv4(), r = rv4();
      const V3 a = rv3(), b = rv3();
      Case k; k << "q=" << s(q) << " r=" << s(r) << " a=" << s(a) << " b=" << s(b); k.set();
      V4 lib, out; Eigen::Matrix3d H;
      irvc_left(q, r, lib, out);
      expect(near(mul(q, r), out) && near(mul(q, r), lib), "left multiplication");
      irvc_right(q, r, lib, out);
      expect(near(mul(r, q), out) && near(mul(r, q), lib), "right multiplication");
      irvc_wxyz(q, lib, out);
      expect(lib == q && out == q, "w, x, y, z order");
      irvc_hat(a, H);
      expect(near(V3(a.cross(b)), V3(H * b)) && near(H, Eigen::Matrix3d(-H.transpose())), "skew matrix");
      irvc_rpy(a(0), a(1), a(2), out);
      const V4 x(std::cos(a(0) / 2), std::sin(a(0) / 2), 0, 0), y(std::cos(a(1) / 2), 0, std::sin(a(1) / 2), 0), z(std::cos(a(2) / 2), 0, 0, std::sin(a(2) / 2));
      expect(near(mul(mul(z, y), x), out), "roll pitch yaw");
    };
  auto jac = [] {
      const V4 q = rv4(); const V3 p = rv3();
      Case k; k << "q=" << s(q) << " p=" << s(p); k.set();
      Eigen::Matrix<double, 3, 4> J;
      irvc_drpdq(q, p, J);
      for (int j = 0; j < 4; j++) {
        V4 a = q, b = q; a(j) += 0.5; b(j) -= 0.5;        // the polynomial is quadratic: central differences are exact
        expect(near(V3(rotp(a, p) - rotp(b, p)), V3(J.col(j)), 1e-8), "derivative column " + std::to_string(j));
      }
      const V4 u = q.norm() > 0 ? V4(q.normalized()) : V4(1, 0, 0, 0);
      V3 x, y, t = rv3(); Eigen::Matrix4d M;
      irvc_rotate(u, p, x, y);
      expect(near(rotp(u, p), x) && near(rotp(u, p), y), "rotation of a point");
      for (auto f : {irvc_pose, irvc_isometry}) {
        f(u, t, p, x, M);
        expect(near(V3(rotp(u, p) + t), x) && near(V3(M.block<3, 1>(0, 3)), t) && M(3, 3) == 1 && M(3, 0) == 0 && M(3, 1) == 0 && M(3, 2) == 0, "pose");
      }
    };
  auto angle = [] {
      V3 t = rv3(); if (coin(0.3)) {t = t.normalized() * pick<double>({0, 0.5e-8, 2e-8, 1e-7, 1e-4, 3e-4, M_PI, 7}); if (!(t.norm() >= 0)) {t.setZero();}}
      Case k; k << "rotation vector=" << s(t); k.set();
      V4 q; irvc_angle(t, q);
      const double n = t.norm();
      if (n < 0.99e-8) {expect(q == V4(1, 0, 0, 0), "identity");} else if (n > 1.01e-8) {
        const V3 w = t / n * std::sin(n / 2);
        expect(std::abs(q(0) - std::cos(n / 2)) < 1e-12 && (V3(q.tail(3)) - w).norm() < 1e-12 && std::abs((V3(q.tail(3)) - w).norm()) <= 1e-6 * w.norm(), "quaternion of the rotation vector");
        expect(std::abs(q.norm() - 1) < 1e-12, "unit length");
      }
    };
  const std::string w = WHICH;
  if (w == "12") {return run(c, v, {algebra, makem});}
  if (w == "13") {return run(c, v, {jac});}
  return run(c, v, {jac, angle});
}
