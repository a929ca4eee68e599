// FLAGS: -isystem /usr/include/eigen3 -DNDEBUG -nosan -I@VERIF@/units -Wl,--unresolved-symbols=ignore-all
#include "u_resid.cpp"
#include "replay.hpp"
using namespace rp;
static V4 rv4() {V4 q(rd(2), rd(2), rd(2), rd(2)); return q.norm() > 0.01 ? V4(q.normalized()) : V4(1, 0, 0, 0);}
static V3 rv3(double s = 5) {return V3(rd(s), rd(s), rd(s));}
template<typename M> std::string s(const M & m) {std::vector<double> x; for (int i = 0; i < m.size(); i++) {x.push_back(m.data()[i]);} return show(x);}
static V3 act(const V4 & q, const V3 & p)      // the homogeneous quadratic form q p q*
{
  const V3 u = q.tail(3);
  return (q(0) * q(0) - u.dot(u)) * p + 2 * u.dot(p) * u + 2 * q(0) * u.cross(p);
}
int main(int c, char ** v)
{
  auto edge = [] {
      const V4 q = rv4(); const V3 t = rv3(), p0 = rv3(), p1 = rv3();
      V3 p2 = rv3(); V3 r;
      Case k; k << "edge q=" << s(q) << " t=" << s(t) << " p0=" << s(p0) << " p1=" << s(p1) << " p2=" << s(p2); k.set();
      Eigen::Matrix<double, 3, 7> J;
      irvc_edge(q, t, p0, p1, p2, r, J);
      auto f = [&](const V4 & q, const V3 & t) {const V3 p = act(q, p0) + t; return V3((p - p1).cross(p - p2));};
      const double m = 1 + p0.norm() + p1.norm() + p2.norm() + t.norm();
      expect((r - f(q, t)).norm() < 1e-9 * m * m, "edge residual");
      for (int j = 0; j < 7; j++) {
        V4 a = q, b = q; V3 x = t, y = t;
        const double e = 1e-4;
        if (j < 4) {a(j) += e; b(j) -= e;} else {x(j - 4) += e; y(j - 4) -= e;}
        expect(((f(a, x) - f(b, y)) / (2 * e) - J.col(j)).norm() < 1e-5 * m * m, "edge Jacobian column " + std::to_string(j));
      }
    };
  auto plane = [] {
      const V4 q = rv4(); const V3 t = rv3(), p = rv3();
      V3 w = rv3(2); if (w.norm() < 1e-2) {w = V3(0, 0, 1);}
      Case k; k << "plane q=" << s(q) << " t=" << s(t) << " p=" << s(p) << " w=" << s(w); k.set();
      double a, b; irvc_plane(w, p, a, b);
      expect(close(a, (w.dot(p) + 1) / w.norm()) && close(b, std::abs(a)), "plane distance");
      Eigen::Matrix<double, 1, 7> J;
      irvc_planerow(w, q, p, J);
      auto f = [&](const V4 & q, const V3 & t) {return (w.dot(act(q, p) + t) + 1) / w.norm();};
      for (int j = 0; j < 7; j++) {
        V4 a = q, b = q; V3 x = t, y = t;
        const double e = 1e-3;
        if (j < 4) {a(j) += e; b(j) -= e;} else {x(j - 4) += e; y(j - 4) -= e;}
        expect(std::abs((f(a, x) - f(b, y)) / (2 * e) - J(j)) < 1e-6 * (1 + p.norm() + t.norm()), "plane Jacobian entry " + std::to_string(j));
      }
    };
  return run(c, v, {edge, plane});
}
