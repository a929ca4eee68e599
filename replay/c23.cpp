// FLAGS: -I@VERIF@/units/stubs -I@REPO@/ekf_localizer/include -I@REPO@/kalman_filter/include -I/usr/include/eigen3 @REPO@/kalman_filter/src/time_delay_kalman_filter.cpp @REPO@/kalman_filter/src/kalman_filter.cpp @REPO@/ekf_localizer/src/check.cpp @REPO@/ekf_localizer/src/mahalanobis.cpp
#include <stdexcept>
#include <Eigen/Core>
#include <Eigen/LU>
#include "replay.hpp"
#include "ekf_localizer/src/pose_measurement.cpp"
#include "ekf_localizer/src/twist_measurement.cpp"
#include "ekf_localizer/check.hpp"
#include "ekf_localizer/mahalanobis.hpp"
using namespace rp;
extern "C" void irvc_log() {}
rclcpp::Clock::SharedPtr rclcpp::Node::get_clock() const {return std::make_shared<rclcpp::Clock>();}
rclcpp::Time rclcpp::Node::now() const {return rclcpp::Time();}
rclcpp::Time rclcpp::Clock::now() {return rclcpp::Time();}
double tf2::getYaw(const geometry_msgs::msg::Quaternion & q)
{
  return std::atan2(2 * (q.w * q.z + q.x * q.y), q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
}
using Twist = geometry_msgs::msg::TwistWithCovarianceStamped;
static Eigen::MatrixXd spd(int n)
{
  Eigen::MatrixXd A(n, n);
  for (int i = 0; i < n * n; i++) {A(i) = rr(-1, 1);}
  return A * A.transpose() + 0.1 * Eigen::MatrixXd::Identity(n, n);
}
static long nearest(double delay, double dt) {return delay <= 0 ? 0 : dt > 0 && delay / dt < 1e9 ? long(std::floor(delay / dt + 0.5)) : 2000000000L;}
struct Setup
{
  int window, smoothing;
  double gate, dt;
  int64_t now;
  Eigen::VectorXd x; Eigen::MatrixXd P;
  std::shared_ptr<TimeDelayKalmanFilter> f, g;
  rclcpp::Node node{std::string("n")};
  Setup() : window(ri(1, 5)), smoothing(ri(1, 3)), gate(pick<double>({0.5, 3, 100, 10000})), dt(pick<double>({0.02, 0.1, 1, 0, 0.3})), now(pick<int64_t>({0, 5000000000, 1700000000000000000})), x(6), P(spd(6))
  {
    for (int i = 0; i < 6; i++) {x(i) = rd(5);}
    x(2) = pick<double>({0, 3.1, -3.1, rr(-3.14, 3.14)});
    f = std::make_shared<TimeDelayKalmanFilter>(x, P, window);
    const int k = ri(0, 3);
    for (int i = 0; i < k; i++) {
      Eigen::VectorXd n = f->getLatestX();
      n(0) += rr(0, 1); n(2) += pick<double>({0, 0.05, -0.05});
      f->predict(n, Eigen::MatrixXd::Identity(6, 6), 0.01 * spd(6));
    }
    g = std::make_shared<TimeDelayKalmanFilter>(*f);
  }
  int64_t stamp() {return pick<int64_t>({now, now - int64_t(dt * 1e9 * ri(0, 7)), now - int64_t(dt * 1e9 * rr(0, 6)), std::max<int64_t>(0, now - 300000000), 0, now + 1000000000});}
  void put(std_msgs::msg::Header & h) {const int64_t s = std::max<int64_t>(0, stamp()); h.stamp.sec = int32_t(s / 1000000000); h.stamp.nanosec = uint32_t(s % 1000000000);}
  std::string what() const
  {
    std::stringstream s; s << "window " << window << " smoothing " << smoothing << " gate " << gate << " dt " << dt << " now [ns] " << now << " latest x " << f->getLatestX().transpose();
    return s.str();
  }
  // the statement's decision and effect on g, for one message
  void take(const Eigen::VectorXd & raw, const Eigen::MatrixXd & C, const Eigen::MatrixXd & R, double delay, const std::vector<int> & ax, bool angle, Case & k)
  {
    const int m = ax.size();
    const long d = nearest(delay, dt);
    k << " [y " << raw.transpose() << " delay " << delay << "]";
    if (d >= window || !raw.allFinite()) {return;}
    Eigen::VectorXd y = raw, p(m);
    Eigen::MatrixXd S(m, m);
    const Eigen::VectorXd xd = g->getX(d);
    const Eigen::MatrixXd L = g->getLatestP();
    for (int i = 0; i < m; i++) {p(i) = xd(ax[i]); for (int j = 0; j < m; j++) {S(i, j) = L(ax[i], ax[j]);}}
    if (S.inverse().norm() * (1 + S.norm()) > 1e5 || S.inverse().hasNaN()) {skip = true; return;}  // rounding decides
    if (angle) {y(2) = p(2) + std::remainder(y(2) - p(2), 2 * M_PI);}
    const double q = (y - p).dot(S.inverse() * (y - p));
    if (std::abs(q - gate * gate) < 1e-9 * (1 + gate * gate)) {skip = true; return;}
    if (q > gate * gate) {return;}
    try {g->update(y, C, R, d);} catch (const std::invalid_argument &) {}
  }
  bool skip = false;
  void check(const char * what)
  {
    if (skip) {return;}
    for (int d = 0; d < window; d++) {
      const Eigen::VectorXd a = f->getX(d), b = g->getX(d);
      for (int i = 0; i < 6; i++) {expect(close(a(i), b(i), 1e-6), std::string(what) + ": state element " + std::to_string(i) + " of delay " + std::to_string(d) + " is " + std::to_string(a(i)) + ", expected " + std::to_string(b(i)));}
    }
    const Eigen::MatrixXd D = f->getLatestP() - g->getLatestP();
    expect(D.norm() <= 1e-6 * (1 + g->getLatestP().norm()), std::string(what) + ": covariance");
  }
};
int main(int c, char ** v)
{
  auto pose = [] {
      Setup s;
      PoseMeasurement q(Warning(&s.node), "map", s.window, s.gate, s.smoothing);
      Case k; k << "poses; " << s.what();
      const int n = ri(0, 4);
      std::vector<std::shared_ptr<PoseWithCovarianceStamped>> all;
      for (int i = 0; i < n; i++) {
        auto m = std::make_shared<PoseWithCovarianceStamped>();
        m->header.frame_id = coin() ? "map" : "other";
        s.put(m->header);
        const Eigen::VectorXd x = s.f->getLatestX();
        auto & p = m->pose.pose;
        p.position.x = x(0) + pick<double>({0, rr(-2, 2), 1000}); p.position.y = x(1) + rr(-1, 1);
        if (ri(0, 7) == 0) {(coin() ? p.position.x : p.position.y) = pick<double>({NAN, INFINITY, -INFINITY});}
        const double h = pick<double>({x(2), x(2) + rr(-0.2, 0.2), 3.12, -3.12, rr(-3, 3)});
        p.orientation.z = std::sin(h / 2); p.orientation.w = std::cos(h / 2);
        const Eigen::MatrixXd R = ri(0, 9) ? spd(6) : Eigen::MatrixXd::Zero(6, 6);
        for (int a = 0; a < 36; a++) {m->pose.covariance[a] = R(a / 6, a % 6);}
        all.push_back(m); q.Push(m);
      }
      Eigen::MatrixXd C = Eigen::MatrixXd::Zero(3, 6);
      C(0, 0) = C(1, 1) = C(2, 2) = 1;
      const int ax[3] = {0, 1, 5};
      k.set();
      for (auto & m : all) {
        Eigen::VectorXd y(3); y << m->pose.pose.position.x, m->pose.pose.position.y, tf2::getYaw(m->pose.pose.orientation);
        Eigen::MatrixXd R(3, 3);
        for (int a = 0; a < 3; a++) {for (int b = 0; b < 3; b++) {R(a, b) = m->pose.covariance[6 * ax[a] + ax[b]] * s.smoothing;}}
        s.take(y, C, R, (s.now - (int64_t(m->header.stamp.sec) * 1000000000 + m->header.stamp.nanosec)) * 1e-9, {0, 1, 2}, true, k);
      }
      k.set();
      q.Update(s.f, rclcpp::Time(s.now), s.dt);
      s.check("poses");
    };
  auto twist = [] {
      Setup s;
      TwistMeasurement q(Warning(&s.node), s.window, s.gate, s.smoothing);
      Case k; k << "twists; " << s.what();
      const int n = ri(0, 4);
      std::vector<std::shared_ptr<Twist>> all;
      for (int i = 0; i < n; i++) {
        auto m = std::make_shared<Twist>();
        m->header.frame_id = coin() ? "base_link" : "other";
        s.put(m->header);
        const Eigen::VectorXd x = s.f->getLatestX();
        m->twist.twist.linear.x = x(4) + pick<double>({0, rr(-2, 2), 1000}); m->twist.twist.angular.z = x(5) + rr(-1, 1);
        if (ri(0, 7) == 0) {(coin() ? m->twist.twist.linear.x : m->twist.twist.angular.z) = pick<double>({NAN, INFINITY, -INFINITY});}
        const Eigen::MatrixXd R = ri(0, 9) ? spd(6) : Eigen::MatrixXd::Zero(6, 6);
        for (int a = 0; a < 36; a++) {m->twist.covariance[a] = R(a / 6, a % 6);}
        all.push_back(m); q.Push(m);
      }
      Eigen::MatrixXd C = Eigen::MatrixXd::Zero(2, 6);
      C(0, 4) = C(1, 5) = 1;
      const int ax[2] = {0, 5};
      k.set();
      for (auto & m : all) {
        Eigen::VectorXd y(2); y << m->twist.twist.linear.x, m->twist.twist.angular.z;
        Eigen::MatrixXd R(2, 2);
        for (int a = 0; a < 2; a++) {for (int b = 0; b < 2; b++) {R(a, b) = m->twist.covariance[6 * ax[a] + ax[b]] * s.smoothing;}}
        s.take(y, C, R, (s.now - (int64_t(m->header.stamp.sec) * 1000000000 + m->header.stamp.nanosec)) * 1e-9, {4, 5}, false, k);
      }
      k.set();
      q.Update(s.f, rclcpp::Time(s.now), s.dt);
      s.check("twists");
    };
  auto parts = [] {
      const double dt = pick<double>({0, 0.02, 1, rr(0.001, 3)}), delay = pick<double>({0, -1, 1e9, 2.0, rr(-1, 3), rr(0, 300)});
      const double limit = rr(0, 3);
      const Eigen::VectorXd x = Eigen::VectorXd::Random(3), y = coin() ? x : Eigen::VectorXd(x + limit * rr(0, 2) * Eigen::VectorXd::Random(3));
      const Eigen::MatrixXd S = spd(3);
      Case k; k << "delay " << delay << " dt " << dt << " limit " << limit << " x " << x.transpose() << " y " << y.transpose() << " covariance " << S; k.set();
      const double r = delay / dt;
      const int d = ComputeDelayStep(delay, dt);
      if (delay <= 0) {expect(d == 0, "step of no delay " + std::to_string(d));} else if (dt > 0 && r < 2e9) {expect(std::abs(d - r) <= 0.5 + 1e-9 * r, "step " + std::to_string(d) + " for " + std::to_string(r));} else {expect(d > 1000000000, "step of a huge delay " + std::to_string(d));}
      const double q = (x - y).dot(S.inverse() * (x - y));
      expect(close(SquaredMahalanobis(x, y, S), q, 1e-6), "distance");
      if (std::abs(q - limit * limit) > 1e-9) {expect(MahalanobisGate(limit, x, y, S) == (q < limit * limit), "gate");}
      rclcpp::Node n{std::string("n")};
      const int a = ri(-3, 9), b = ri(0, 6);
      expect(CheckDelayStep(Warning(&n), a, b) == (a < b), "window");
      Eigen::MatrixXd M = Eigen::MatrixXd::Random(2, 1);
      if (coin()) {M(ri(0, 1)) = pick<double>({NAN, INFINITY, -INFINITY});}
      expect(CheckMeasurementMatrixNanInf(Warning(&n), M) == M.allFinite(), "validity");
    };
  return run(c, v, {pose, twist, parts});
}
