// FLAGS: -nosan -I@VERIF@/units/stubs/real -I@VERIF@/units/stubs -I@REPO@/extraction/include -I@REPO@/lib/include -I/usr/include/pcl-1.14 -I/usr/include/eigen3 -DFMT_HEADER_ONLY @REPO@/lib/src/ros_msg.cpp @REPO@/lib/src/eigen.cpp @REPO@/lib/src/algorithm.cpp @REPO@/extraction/src/color_points.cpp @REPO@/extraction/src/convolution.cpp @REPO@/extraction/src/curvature.cpp @REPO@/extraction/src/index_range.cpp @REPO@/extraction/src/iterator.cpp @REPO@/extraction/src/math.cpp @REPO@/extraction/src/ring.cpp -Wl,--no-as-needed -lpcl_common
#define IRVC_TOPIC
#define IRVC_PARAM
#include <stdexcept>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "../units/stubs/irvc_pcl.hpp"
#include <pcl/console/print.h>
#include <pcl/common/io.h>
#include "replay.hpp"
#include <rclcpp/rclcpp.hpp>
#include "lidar_feature_library/point_type.hpp"
using namespace rp;
using Cloud = sensor_msgs::msg::PointCloud2;
extern "C" {
void irvc_log() {}
static int padding = 2, blocks = 2;
double irvc_param_real(double v) {return v;}
int irvc_param_int(int v) {return v == 5 ? padding : blocks;}
bool irvc_param_bool(bool v) {return v;}
}
static bool down;
void rclcpp::shutdown() {down = true;}
static pcl::PointCloud<PointXYZIR> scan;
struct Sent {std::string topic; Cloud m;};
static std::vector<Sent> sent;
template<> void rclcpp::Publisher<Cloud>::publish(const Cloud & m) {sent.push_back({topic, m});}
#define main irvc_main
#include "extraction/app/feature_extraction.cpp"
#undef main
using V4 = std::array<float, 4>;
static void put(Cloud & m, const std::vector<V4> & p)
{
  m.data.resize(p.size() * sizeof(V4));
  if (!p.empty()) {memcpy(m.data.data(), p.data(), m.data.size());}
}
static std::vector<V4> take(const Cloud & m)
{
  std::vector<V4> p(m.data.size() / sizeof(V4));
  if (!p.empty()) {memcpy(p.data(), m.data.data(), m.data.size());}
  std::sort(p.begin(), p.end());
  return p;
}
static float rgb(int r, int g, int b) {return float(r * 65536 + g * 256 + b);}
namespace pcl
{
template<> void fromROSMsg<PointXYZIR>(const Cloud &, PointCloud<PointXYZIR> & c) {c = scan;}
template<> void toROSMsg<PointXYZ>(const PointCloud<PointXYZ> & c, Cloud & m)
{
  std::vector<V4> p;
  for (const auto & q : c) {p.push_back({q.x, q.y, q.z, 0});}
  put(m, p);
}
template<> void toROSMsg<PointXYZRGB>(const PointCloud<PointXYZRGB> & c, Cloud & m)
{
  std::vector<V4> p;
  for (const auto & q : c) {p.push_back({q.x, q.y, q.z, rgb(q.r, q.g, q.b)});}
  put(m, p);
}
}
static float colour(PointLabel l)
{
  switch (l) {
    case PointLabel::Default: return rgb(255, 255, 255);
    case PointLabel::Edge: case PointLabel::Surface: return rgb(255, 0, 0);
    case PointLabel::EdgeNeighbor: case PointLabel::SurfaceNeighbor: return rgb(255, 63, 0);
    case PointLabel::OutOfRange: return rgb(127, 127, 127);
    case PointLabel::Occluded: return rgb(255, 0, 255);
    default: return rgb(0, 255, 0);
  }
}
static PointXYZIR some() {return PointXYZIR(float(rr(-9, 9)), float(rr(-9, 9)), float(rr(-9, 9)), float(rr(0, 9)), std::uint16_t(ri(0, 70)));}
static void make()
{
  scan = pcl::PointCloud<PointXYZIR>();
  const int rings = ri(0, 4);
  std::vector<int> order;
  for (int r = 0; r < rings; r++) {
    int n = coin(0.25) ? int(ri(0, 7)) : int(ri(8, 60));
    const double step = rr(0.005, 0.03);
    double range = rr(1, 20);
    const double from = rr(-3, 2);
    for (int i = 0; i < n; i++) {
      if (coin(0.08)) {range = coin(0.1) ? rr(90, 120) : rr(0.05, 20);} else {range += rr(-0.01, 0.01) * (coin(0.2) ? 20 : 1);}
      if (range < 0.01) {range = 0.5;}
      const double a = from + step * i + (coin(0.03) ? 0.3 : 0);
      scan.push_back(PointXYZIR(float(range * cos(a)), float(range * sin(a)), float(rr(-1, 1)), float(rr(0, 1)), std::uint16_t(r)));
    }
  }
  if (coin(0.3)) {std::shuffle(scan.points.begin(), scan.points.end(), rng);}
  scan.is_dense = !coin(0.05);
}
int main(int c, char ** v)
{
  auto frame = [] {
      padding = ri(1, 4); blocks = ri(1, 4);
      FeatureExtraction node;
      make();
      auto msg = std::make_shared<Cloud>();
      const bool has = !coin(0.05);
      sensor_msgs::msg::PointField f; f.name = has ? "ring" : "line"; msg->fields.push_back(f);
      msg->header.stamp.sec = ri(0, 100000); msg->header.stamp.nanosec = ri(0, 999999999);
      msg->header.frame_id = "velodyne";
      Case k; k << "padding=" << padding << " blocks=" << blocks << " dense=" << scan.is_dense << " ring channel=" << has << " points (x, y, z, ring):";
      k.o.precision(9);
      for (const auto & p : scan) {k << " (" << p.x << ", " << p.y << ", " << p.z << ", " << p.ring << ")";}
      k.set();
      down = false; sent.clear();
      node.Callback(msg);
      if (!scan.is_dense || !has) {expect(down, "a shutdown is asked for"); return;}
      expect(!down, "no shutdown is asked for");
      // the same scan, ring by ring
      std::vector<V4> edge, surface, colored;
      pcl::PointCloud<PointXYZIR>::Ptr in(new pcl::PointCloud<PointXYZIR>(scan));
      auto rings = MakePointIndices(*in);
      SortEachRingByAngle(rings, *in);
      const auto & p = node.params_;
      for (const auto & [ring, indices] : rings) {
        const int n = indices.size();
        if (n < padding + 1) {continue;}
        const MappedPoints<PointXYZIR> pts(in, indices);
        const NeighborCheckXY<PointXYZIR> nb(pts, p.neighbor_degree_threshold * M_PI / 180);
        const Range<PointXYZIR> range(pts);
        auto labels = InitLabels(n);
        try {
          const auto curv = CalcCurvature(range(0, n), padding);
          AssignLabel(labels, curv, nb, PaddedIndexRange(n, blocks, padding), EdgeLabel(padding, p.edge_threshold), SurfaceLabel(padding, p.surface_threshold));
          LabelOccludedPoints(labels, nb, range, padding, p.distance_diff_threshold);
          LabelOutOfRange(labels, range, p.min_range, p.max_range);
          LabelParallelBeamPoints(labels, range, p.parallel_beam_min_range_ratio);
        } catch (const std::invalid_argument &) {
          continue;
        }
        for (int i = 0; i < n; i++) {
          const auto & q = scan[indices[i]];
          if (labels[i] == PointLabel::Edge) {edge.push_back({q.x, q.y, q.z, 0});}
          if (labels[i] == PointLabel::Surface) {surface.push_back({q.x, q.y, q.z, 0});}
          colored.push_back({q.x, q.y, q.z, colour(labels[i])});
        }
      }
      expect(sent.size() == 3, "three clouds are sent");
      for (auto [topic, want] : {std::make_pair("scan_edge", edge), std::make_pair("scan_surface", surface), std::make_pair("colored_scan", colored)}) {
        int found = 0;
        std::sort(want.begin(), want.end());
        for (const auto & s : sent) {
          if (s.topic != topic) {continue;}
          found++;
          expect(take(s.m) == want, std::string(topic) + " holds " + std::to_string(take(s.m).size()) + " points, not exactly the " + std::to_string(want.size()) + " points labelled so");
          expect(s.m.header.stamp.sec == msg->header.stamp.sec && s.m.header.stamp.nanosec == msg->header.stamp.nanosec, std::string(topic) + " does not carry the scan's time");
          expect(s.m.header.frame_id == "lidar_feature_base_link", std::string(topic) + " is in frame " + s.m.header.frame_id);
        }
        expect(found == 1, std::string(topic) + " is sent " + std::to_string(found) + " times");
      }
    };
  auto append = [] {
      pcl::PointCloud<PointXYZIR>::Ptr out(new pcl::PointCloud<PointXYZIR>());
      for (int i = ri(0, 3); i > 0; i--) {out->push_back(some());}
      const auto before = *out;
      std::vector<PointXYZIR> p(ri(0, 5));
      std::vector<double> curv;
      for (auto & q : p) {q = some(); curv.push_back(coin(0.3) ? rr(0, 1e4) : rr(0, 1));}
      Case k; k << "appending " << p.size() << " points to " << before.size() << " with curvature " << show(curv); k.set();
      AppendXYZIR<PointXYZIR>(out, p, curv);
      expect(out->size() == before.size() + p.size(), "as many points more as given");
      auto same = [](const PointXYZIR & a, const PointXYZIR & b, double i) {return a.x == b.x && a.y == b.y && a.z == b.z && a.ring == b.ring && a.intensity == float(i);};
      for (size_t i = 0; i < before.size(); i++) {expect(same((*out)[i], before[i], before[i].intensity), "point " + std::to_string(i) + " stays");}
      for (size_t i = 0; i < p.size(); i++) {expect(same((*out)[before.size() + i], p[i], curv[i]), "point " + std::to_string(i) + " added has position, ring and curvature");}
    };
  return run(c, v, {frame, append});
}
