// FLAGS: -I@VERIF@/units/stubs/real -I@VERIF@/units/stubs -I@REPO@/localization/include -I@REPO@/lib/include -I@REPO@/rotationlib/include -I/usr/include/pcl-1.14 -I/usr/include/eigen3 -DFMT_HEADER_ONLY -Wl,--no-as-needed -lpcl_io -lpcl_common -lboost_filesystem
#include <stdexcept>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "../units/stubs/irvc_pcl.hpp"
#include <pcl/console/print.h>
#include "replay.hpp"
#include "lidar_feature_localization/recent_scans.hpp"
#include "lidar_feature_localization/odometry.hpp"
#include "lidar_feature_localization/point_cloud_map.hpp"
using namespace rp;
using P = pcl::PointXYZ;
using Cloud = pcl::PointCloud<P>;
static Cloud::Ptr random_cloud()
{
  Cloud::Ptr c(new Cloud());
  for (int i = ri(0, 3); i > 0; i--) {c->push_back(P(rd(3), rd(3), rd(3)));}
  return c;
}
static Eigen::Isometry3d pose()
{
  Eigen::Isometry3d p = Eigen::Isometry3d::Identity();
  p.linear() = Eigen::Quaterniond(rr(0.1, 1), rr(-1, 1), rr(-1, 1), rr(-1, 1)).normalized().toRotationMatrix();
  p.translation() = Eigen::Vector3d(rd(3), rd(3), rd(3));
  return p;
}
static Cloud moved(const Eigen::Isometry3d & t, const Cloud & c)
{
  Cloud r;
  for (const P & p : c) {const Eigen::Vector3d x = t * Eigen::Vector3d(p.x, p.y, p.z); r.push_back(P(x(0), x(1), x(2)));}
  return r;
}
static void same(const Cloud & a, const Cloud & b, const std::string & what)
{
  expect(a.size() == b.size(), what + ": " + std::to_string(a.size()) + " points, expected " + std::to_string(b.size()));
  for (size_t i = 0; i < a.size(); i++) {expect(close(a[i].x, b[i].x, 1e-4) && close(a[i].y, b[i].y, 1e-4) && close(a[i].z, b[i].z, 1e-4), what + ": point " + std::to_string(i));}
}
static Cloud last_of(const std::vector<Cloud> & h, size_t n)
{
  Cloud r;
  for (size_t i = n < h.size() ? h.size() - n : 0; i < h.size(); i++) {for (const P & p : h[i]) {r.push_back(p);}}
  return r;
}
static Cloud seen_map, seen_scan;
static Eigen::Isometry3d seen_start, answer;
static int matched;
struct Matcher
{
  explicit Matcher(const Cloud::Ptr & m) {seen_map = *m;}
  Eigen::Isometry3d operator()(const Cloud::Ptr & s, const Eigen::Isometry3d & p) const {seen_scan = *s; seen_start = p; matched++; return answer;}
};
int main(int c, char ** v)
{
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  auto recent = [] {
      RecentScans<P> r;
      std::vector<Cloud> h;
      Case k; k << "scans";
      const int n = ri(0, 9);
      for (int i = 0; i < n; i++) {
        const auto s = random_cloud(); const Cloud before = *s; const auto p = pose();
        k << " " << s->size() << " points moved by " << p.translation().transpose(); k.set();
        expect(r.IsEmpty() == h.empty(), "empty exactly when no scan is held");
        r.Add(p, s);
        h.push_back(moved(p, before));
        same(*s, before, "the scan given");
        if (coin()) {
          const int w = pick<int>({0, 1, ri(0, 9), 7, 2147483647});
          k << "; GetRecent(" << w << ")"; k.set();
          same(*r.GetRecent(w), last_of(h, w), "recent scans");
          same(*r.GetAll(), last_of(h, h.size()), "all scans");
        }
      }
    };
  auto odometry = [] {
      const int w = ri(0, 4);
      auto map = std::make_shared<PointCloudMap<P>>(w);
      Odometry<Matcher, PointCloudMap<P>, Cloud::Ptr> o(map);
      std::vector<Cloud> h;
      Eigen::Isometry3d at = Eigen::Isometry3d::Identity();
      Case k; k << "window " << w << " scans";
      const int n = ri(1, 8);
      for (int i = 0; i < n; i++) {
        const auto s = random_cloud(); const Cloud before = *s;
        answer = pose(); matched = 0;
        k << " [" << s->size() << " points matched at " << answer.translation().transpose() << "]"; k.set();
        o.Update(s);
        if (i == 0) {expect(matched == 0, "the first scan is not matched");} else {
          expect(matched == 1, "matched once");
          same(seen_map, last_of(h, w), "map matched against");
          same(seen_scan, before, "scan matched");
          expect(seen_start.matrix() == at.matrix(), "matching starts at the previous pose");
          at = answer;
        }
        expect(o.CurrentPose().matrix() == at.matrix(), "current pose");
        h.push_back(moved(at, before));
        same(*map->GetRecent(), last_of(h, w), "map after the scan");
      }
    };
  return run(c, v, {recent, odometry});
}
