// FLAGS: -I@VERIF@/units/stubs/real -I@VERIF@/units/stubs -I@REPO@/localization/include -I@REPO@/lib/include -I/usr/include/pcl-1.14 -I/usr/include/eigen3 -DFMT_HEADER_ONLY @REPO@/lib/src/ros_msg.cpp @REPO@/lib/src/eigen.cpp -Wl,--no-as-needed -lpcl_common
#include <stdexcept>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <map>
#include "../units/stubs/irvc_pcl.hpp"
#include <pcl/console/print.h>
#include "replay.hpp"
#include <rclcpp/rclcpp.hpp>
#include "lidar_feature_localization/edge_surface_scan.hpp"
#include "lidar_feature_localization/optimization_result.hpp"
#define LIDAR_FEATURE_LOCALIZATION__EDGE_HPP_
#define LIDAR_FEATURE_LOCALIZATION__LOAM_OPTIMIZATION_PROBLEM_HPP_
#define LIDAR_FEATURE_LOCALIZATION__OPTIMIZER_HPP_
#define LIDAR_FEATURE_LIBRARY__CONVERT_POINT_CLOUD_TYPE_HPP_
using namespace rp;
using P = pcl::PointXYZ;
using Cloud = sensor_msgs::msg::PointCloud2;
extern "C" void irvc_log() {}
static Eigen::Isometry3d about(const Eigen::Vector3d & w, const Eigen::Vector3d & t)
{
  Eigen::Isometry3d p = Eigen::Isometry3d::Identity();
  if (w.norm() > 0) {p.linear() = Eigen::AngleAxisd(w.norm(), w.normalized()).toRotationMatrix();}
  p.translation() = t;
  return p;
}
// an optimiser whose answer tells the clouds and the start apart
static Eigen::Isometry3d answer(double e, double s, const Eigen::Isometry3d & p) {return p * about({0.1 * e, 0, 0.2 * s}, {e, 2 * s, 1});}
static bool success = true;
template<typename Q> struct LOAMOptimizationProblem {template<typename A, typename B> LOAMOptimizationProblem(const A &, const B &, std::size_t) {}};
template<typename Q, typename Scan> struct Optimizer
{
  Optimizer(const Q &, int) {}
  OptimizationResult Run(const Scan & scan, const Eigen::Isometry3d & p) const
  {
    return OptimizationResult{answer(std::get<0>(scan)->at(0).x, std::get<1>(scan)->at(0).x, p), "", 0, 0., 0., success};
  }
};
#include "lidar_feature_localization/localizer.hpp"
#include "lidar_feature_localization/subscriber.hpp"
namespace pcl
{
template<> void fromROSMsg<P>(const Cloud & m, PointCloud<P> & c) {c.clear(); c.push_back(P(float(m.height), 0, 0));}
}
using PoseMsg = geometry_msgs::msg::PoseWithCovarianceStamped;
using TfMsg = geometry_msgs::msg::TransformStamped;
static std::vector<PoseMsg> poses;
static std::vector<TfMsg> tfs;
template<> void rclcpp::Publisher<PoseMsg>::publish(const PoseMsg & m) {poses.push_back(m);}
void tf2_ros::TransformBroadcaster::sendTransform(const TfMsg & m) {tfs.push_back(m);}
static double ns(const builtin_interfaces::msg::Time & t) {return t.sec * 1e9 + t.nanosec;}
static builtin_interfaces::msg::Time stamp()
{
  builtin_interfaces::msg::Time t; t.sec = ri(0, 5); t.nanosec = coin() ? 500000000 * ri(0, 1) : ri(0, 999999999); return t;
}
template<typename V, typename Q> static bool same(const Eigen::Isometry3d & p, const V & v, const Q & q)
{
  const Eigen::Quaterniond r(q.w, q.x, q.y, q.z);
  return (Eigen::Vector3d(v.x, v.y, v.z) - p.translation()).norm() < 1e-6 && (r.toRotationMatrix() - p.linear()).norm() < 1e-6;
}
static Eigen::Vector3d any(double s) {return Eigen::Vector3d(rr(-s, s), rr(-s, s), rr(-s, s));}
int main(int c, char ** v)
{
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  auto history = [] {
      using Loc = Localizer<P, P>;
      pcl::PointCloud<P>::Ptr m(new pcl::PointCloud<P>());
      Loc loc(m, m, 20);
      LocalizationSubscriber<Loc, P> s(loc);
      std::map<double, Eigen::Isometry3d> ref;
      Case k; k << "node started";
      for (int i = ri(1, 12); i > 0; i--) {
        const auto t = stamp();
        if (coin(0.6)) {
          const auto p = about(any(2), any(5));
          const Eigen::Quaterniond q(p.linear());
          geometry_msgs::msg::Pose g;
          g.position.x = p.translation().x(); g.position.y = p.translation().y(); g.position.z = p.translation().z();
          g.orientation.w = q.w(); g.orientation.x = q.x(); g.orientation.y = q.y(); g.orientation.z = q.z();
          const bool odom = coin();
          k << (odom ? "; odometry" : "; pose") << " at " << ns(t) << ": " << p.translation().transpose(); k.set();
          if (odom) {
            auto o = std::make_shared<nav_msgs::msg::Odometry>(); o->header.stamp = t; o->pose.pose = g; s.OptimizationStartOdomCallback(o);
          } else {
            auto o = std::make_shared<geometry_msgs::msg::PoseStamped>(); o->header.stamp = t; o->pose = g; s.OptimizationStartPoseCallback(o);
          }
          ref[ns(t)] = p;
        } else {
          auto e = std::make_shared<Cloud>(), f = std::make_shared<Cloud>();
          e->height = ri(1, 9); f->height = ri(1, 9); e->header.stamp = t; f->header.stamp = coin(0.9) ? t : stamp();
          success = coin();
          poses.clear(); tfs.clear();
          k << "; scan at " << ns(t); k.set();
          s.PoseUpdateCallback(e, f);
          if (ref.empty()) {
            expect(poses.empty() && tfs.empty(), "something is sent although there is no prior pose");
          } else {
            expect(poses.size() == 1 && tfs.size() == 1, "one pose and one transform are sent");
            double best = 1e300;
            for (const auto & [a, b] : ref) {best = std::min(best, std::abs(a - ns(t)));}
            bool ok = false, okt = false;
            const auto & pm = poses[0].pose.pose;
            for (const auto & [a, b] : ref) {
              if (std::abs(a - ns(t)) > best) {continue;}
              const auto w = answer(e->height, f->height, b);
              ok |= same(w, pm.position, pm.orientation);
              okt |= same(w, tfs[0].transform.translation, tfs[0].transform.rotation);
            }
            expect(ok, "the pose sent is the one matched from the closest prior");
            expect(okt, "the transform sent is the one matched from the closest prior");
            expect(ns(poses[0].header.stamp) == ns(t) && ns(tfs[0].header.stamp) == ns(t), "time of the scan");
            expect(poses[0].header.frame_id == "map" && tfs[0].header.frame_id == "map" && tfs[0].child_frame_id == "lidar_feature_base_link", "frames");
            for (int a = 0; a < 36; a++) {expect(close(poses[0].pose.covariance[a], a % 7 ? 0 : a < 18 ? 1.0 : 0.1), "covariance entry " + std::to_string(a));}
            ref.erase(ref.upper_bound(ns(t) + 1e9), ref.end());
          }
        }
        expect(s.prior_poses_.Size() == ref.size(), "priors kept: " + std::to_string(s.prior_poses_.Size()) + " instead of " + std::to_string(ref.size()));
      }
    };
  return run(c, v, {history});
}
