// FLAGS: -I@VERIF@/units/stubs/real -I@VERIF@/units/stubs -I@REPO@/mapping/include -I@REPO@/lib/include -I/usr/include/pcl-1.14 -I/usr/include/eigen3 -DFMT_HEADER_ONLY @REPO@/lib/src/ros_msg.cpp @REPO@/lib/src/eigen.cpp -Wl,--no-as-needed -lpcl_io -lpcl_common -lboost_filesystem
#include <stdexcept>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "../units/stubs/irvc_pcl.hpp"
#include <unistd.h>
#include <pcl/console/print.h>
#include "replay.hpp"
#include <rclcpp/rclcpp.hpp>
#include "lidar_feature_mapping/map.hpp"
#include <pcl/io/pcd_io.h>
using namespace rp;
using P = pcl::PointXYZ;
using Cloud = pcl::PointCloud<P>;
extern "C" void irvc_log() {}
static Cloud scan;
namespace pcl
{
template<> void fromROSMsg<P>(const sensor_msgs::msg::PointCloud2 &, PointCloud<P> & c) {c = scan;}
}
static Cloud random_cloud()
{
  Cloud c;
  for (int i = ri(0, 4); i > 0; i--) {c.push_back(P(rd(3), rd(3), rd(3)));}
  return c;
}
static Eigen::Isometry3d about(const Eigen::Vector3d & w, const Eigen::Vector3d & t)
{
  Eigen::Isometry3d p = Eigen::Isometry3d::Identity();
  if (w.norm() > 0) {p.linear() = Eigen::AngleAxisd(w.norm(), w.normalized()).toRotationMatrix();}
  p.translation() = t;
  return p;
}
static Eigen::Vector3d dir() {Eigen::Vector3d v(rr(-1, 1), rr(-1, 1), rr(-1, 1)); return v.norm() > 0.01 ? Eigen::Vector3d(v.normalized()) : Eigen::Vector3d::UnitX();}
// (distance, |sin| of half the angle) between two poses
static std::pair<double, double> between(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b)
{
  const Eigen::Matrix3d R = a.linear().transpose() * b.linear();
  return {(a.translation() - b.translation()).norm(), std::sqrt(std::max(0., (3 - R.trace()) / 4))};
}
int main(int c, char ** v)
{
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  auto history = [] {
      MapBuilder<P> b;
      Cloud expected;
      Eigen::Isometry3d last = Eigen::Isometry3d::Identity(), pose = about(dir() * rr(0, 3), dir() * rr(0, 3));
      Case k; k << "scans:";
      const int n = ri(1, 8);
      for (int i = 0; i < n; i++) {
        pose = pose * about(dir() * pick<double>({0, 0.1, 0.15, 0.2, 0.3, rr(0, 3)}), dir() * pick<double>({0, 0.5, 0.9, 1.1, rr(0, 3)}));
        if (ri(0, 9) == 0) {pose.translation() += dir() * 10;}
        if (ri(0, 9) == 0) {pose = last;}
        auto m = std::make_shared<geometry_msgs::msg::PoseStamped>();
        const Eigen::Quaterniond q(pose.linear());
        m->pose.position.x = pose.translation().x(); m->pose.position.y = pose.translation().y(); m->pose.position.z = pose.translation().z();
        m->pose.orientation.w = q.w(); m->pose.orientation.x = q.x(); m->pose.orientation.y = q.y(); m->pose.orientation.z = q.z();
        scan = random_cloud();
        k << " [" << scan.size() << " points at " << pose.translation().transpose() << " rotation " << q.coeffs().transpose() << "]"; k.set();
        const auto [d, r] = between(last, pose);
        if (!expected.empty() && (std::abs(d - 1.0) < 1e-6 || std::abs(r - 0.1) < 1e-6)) {return;}
        const bool taken = scan.size() > 0 && (expected.empty() || d >= 1.0 || r >= 0.1);
        b.Callback(std::make_shared<sensor_msgs::msg::PointCloud2>(), m);
        if (taken) {
          for (const P & p : scan) {const Eigen::Vector3d x = pose * Eigen::Vector3d(p.x, p.y, p.z); expected.push_back(P(x(0), x(1), x(2)));}
          last = pose;
        }
        const Cloud & map = *b.map_->map_ptr_;
        expect(map.size() == expected.size(), "the map has " + std::to_string(map.size()) + " points, expected " + std::to_string(expected.size()));
        for (size_t j = 0; j < map.size(); j++) {
          expect(close(map[j].x, expected[j].x, 1e-4) && close(map[j].y, expected[j].y, 1e-4) && close(map[j].z, expected[j].z, 1e-4), "point " + std::to_string(j) + " of the map");
        }
      }
      if (ri(0, 200) == 0) {
        char dir[] = "/tmp/irvc_map_XXXXXX";
        if (!mkdtemp(dir)) {return;}
        const std::string file = std::string(dir) + "/map.pcd";
        b.SaveMap(file);
        Cloud saved;
        const bool there = access(file.c_str(), F_OK) == 0;
        const bool read = there && pcl::io::loadPCDFile<P>(file, saved) == 0;
        unlink(file.c_str()); rmdir(dir);
        expect(there == !expected.empty(), "a map is saved exactly when it is not empty");
        if (there) {expect(read && saved.size() == expected.size(), "the whole map is saved");}
      }
    };
  auto small = [] {
      const auto a = about(dir() * rr(0, 3), dir() * rr(0, 3)), b = a * about(dir() * rr(0, 1), dir() * rr(0, 2));
      const double lt = rr(0, 2), lr = rr(0, 1);
      Case k; k << "first " << a.matrix() << " second " << b.matrix() << " limits " << lt << " " << lr; k.set();
      const auto [d, r] = between(a, b);
      if (std::abs(d - lt) < 1e-6 || std::abs(r - lr) < 1e-6) {return;}
      expect(PoseDiffIsSufficientlySmall(a, b, lt, lr) == (d < lt && r < lr), "small difference");
    };
  return run(c, v, {history, small});
}
