// Unit: the feature extraction node's callback, how it composes the steps (each step abstract here: C01-C09), clouds as values.
#define IRVC_CLOUD_HANDLES
#define IRVC_DENSE
#define IRVC_TOPIC
#define IRVC_PARAM
#define IRVC_MESSAGE_CLOUD
#define IRVC_TIME_BY_REFERENCE
#include <algorithm>
#include <cassert>
#include <deque>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <rclcpp/rclcpp.hpp>
#include <pcl/point_types.h>
#include "lidar_feature_extraction/point_label.hpp"
#include "lidar_feature_extraction/mapped_points.hpp"
#define LIDAR_FEATURE_EXTRACTION__COLOR_POINTS_HPP_
#define LIDAR_FEATURE_EXTRACTION__CURVATURE_HPP_
#define LIDAR_FEATURE_EXTRACTION__INDEX_RANGE_HPP_
#define LIDAR_FEATURE_EXTRACTION__LABEL_HPP_
#define LIDAR_FEATURE_EXTRACTION__CLOUD_ITERATOR_HPP_
#define LIDAR_FEATURE_EXTRACTION__NEIGHBOR_HPP_
#define LIDAR_FEATURE_EXTRACTION__OCCLUSION_HPP_
#define LIDAR_FEATURE_EXTRACTION__OUT_OF_RANGE_HPP_
#define LIDAR_FEATURE_EXTRACTION__PARALLEL_BEAM_HPP_
#define LIDAR_FEATURE_EXTRACTION__RANGE_HPP_
#define LIDAR_FEATURE_EXTRACTION__RING_HPP_
#define LIDAR_FEATURE_LIBRARY__ALGORITHM_HPP_
#define LIDAR_FEATURE_LIBRARY__CONVERT_POINT_CLOUD_TYPE_HPP_
#define LIDAR_FEATURE_LIBRARY__POINT_TYPE_HPP_
struct PointXYZIR {long v;};
using Rings = std::unordered_map<int, std::vector<int>>;
using Indices = std::vector<int>;
using Reals = std::vector<double>;
using Labels = std::vector<PointLabel>;
using Places = std::vector<size_t>;
using Points = std::vector<PointXYZIR>;
extern "C" {
bool irvc_ring_available(const void * fields);
void irvc_rings(Rings *, long cloud);
void irvc_sparse(Rings *, int n);
void irvc_init_labels(Labels *, int n);
void irvc_ranges(Reals *, long cloud, const Indices *, int begin, int end);
bool irvc_curvature_fails(int n, int padding);
void irvc_curvature(Reals *, const Reals *, int padding);
bool irvc_blocks_fail(int n, int n_blocks, int padding);
void irvc_assign(Labels *, const Reals *, long cloud, const Indices *, double thr, int n, int n_blocks, int padding, int ep, double et, int sp, double st);
void irvc_occluded(Labels *, long cloud, const Indices *, double thr, long cloud2, const Indices *, unsigned padding, double diff);
void irvc_out_of_range(Labels *, long cloud, const Indices *, double lo, double hi);
void irvc_parallel(Labels *, long cloud, const Indices *, double ratio);
void irvc_where(Places *, const Labels *, int label);
void irvc_points_at(Points *, const Places *, long cloud, const Indices *);
void irvc_reals_at(Reals *, const Places *, const Reals *);
void irvc_append_xyzir(long handle, const Points *, const Reals *);
long irvc_color(long cloud, const Indices *, const Labels *);
long irvc_xyz(long cloud);
void irvc_out(int, double);
void irvc_shutdown();
}
void rclcpp::shutdown() {irvc_shutdown();}
inline bool RingIsAvailable(const std::vector<sensor_msgs::msg::PointField> & f) {return irvc_ring_available(&f);}
template<typename T = PointXYZIR> Rings ExtractAngleSortedRings(const pcl::CloudRef & c) {Rings r; irvc_rings(&r, irvc_h_get(c.id)); return r;}
inline void RemoveSparseRings(Rings & r, const int n) {irvc_sparse(&r, n);}
template<typename P> long irvc_value(const MappedPoints<P> & p) {return irvc_h_get(p.cloud_.id);}
template<typename P> struct NeighborCheckXY
{
  NeighborCheckXY(const MappedPoints<P> & p, const double t) : points(p), threshold(t) {}
  int size() const {return points.size();}
  const MappedPoints<P> points;
  const double threshold;
};
template<typename P> struct Range
{
  explicit Range(const MappedPoints<P> & p) : points(p) {}
  Reals operator()(const int b, const int e) const {Reals r; irvc_ranges(&r, irvc_value(points), &points.indices_, b, e); return r;}
  int size() const {return points.size();}
  const MappedPoints<P> points;
};
struct PaddedIndexRange
{
  PaddedIndexRange(const int n, const int b, const int p) : n(n), blocks(b), padding(p)
  {
    if (irvc_blocks_fail(n, b, p)) {throw std::invalid_argument("too short");}
  }
  const int n, blocks, padding;
};
struct EdgeLabel {EdgeLabel(const int p, const double t) : padding(p), threshold(t) {} const int padding; const double threshold;};
struct SurfaceLabel {SurfaceLabel(const int p, const double t) : padding(p), threshold(t) {} const int padding; const double threshold;};
inline Labels InitLabels(const int n) {Labels l; irvc_init_labels(&l, n); return l;}
inline Reals CalcCurvature(const Reals & r, const int padding)
{
  if (irvc_curvature_fails(r.size(), padding)) {throw std::invalid_argument("too short");}
  Reals c; irvc_curvature(&c, &r, padding); return c;
}
template<typename P> void AssignLabel(
  Labels & l, const Reals & c, const NeighborCheckXY<P> & n, const PaddedIndexRange & i, const EdgeLabel & e, const SurfaceLabel & s)
{
  irvc_assign(&l, &c, irvc_value(n.points), &n.points.indices_, n.threshold, i.n, i.blocks, i.padding, e.padding, e.threshold, s.padding, s.threshold);
}
template<typename P> void LabelOccludedPoints(Labels & l, const NeighborCheckXY<P> & n, const Range<P> & r, const unsigned int padding, const double d)
{
  irvc_occluded(&l, irvc_value(n.points), &n.points.indices_, n.threshold, irvc_value(r.points), &r.points.indices_, padding, d);
}
template<typename P> void LabelOutOfRange(Labels & l, const Range<P> & r, const double lo, const double hi)
{
  irvc_out_of_range(&l, irvc_value(r.points), &r.points.indices_, lo, hi);
}
template<typename P> void LabelParallelBeamPoints(Labels & l, const Range<P> & r, const double ratio)
{
  irvc_parallel(&l, irvc_value(r.points), &r.points.indices_, ratio);
}
inline Places GetIndicesByValue(const Labels & l, const PointLabel & x) {Places r; irvc_where(&r, &l, int(x)); return r;}
inline Points GetByIndices(const Places & i, const MappedPoints<PointXYZIR> & p)
{
  Points r; irvc_points_at(&r, &i, irvc_value(p), &p.indices_); return r;
}
inline Reals GetByIndices(const Places & i, const Reals & a) {Reals r; irvc_reals_at(&r, &i, &a); return r;}
template<typename P> void AppendXYZIR(pcl::PointCloud<PointXYZIR>::Ptr out, const std::vector<P> & p, const Reals & c)
{
  assert(p.size() == c.size());
  irvc_append_xyzir(out.id, &p, &c);
}
using Colored = pcl::PointCloud<pcl::PointXYZRGB>;
template<typename P> Colored::Ptr ColorPointsByLabel(const MappedPoints<P> & p, const Labels & l)
{
  Colored::Ptr r; r.id = irvc_h_new(irvc_color(irvc_value(p), &p.indices_, &l)); return r;
}
template<typename P> pcl::PointCloud<pcl::PointXYZ>::Ptr ToPointXYZ(const typename pcl::PointCloud<P>::Ptr & c)
{
  pcl::PointCloud<pcl::PointXYZ>::Ptr r; r.id = irvc_h_new(irvc_xyz(irvc_h_get(c.id))); return r;
}
using Cloud = sensor_msgs::msg::PointCloud2;
// what the node sends
template<> void rclcpp::Publisher<Cloud>::publish(const Cloud & m)
{
  const int k = topic == "scan_edge" ? 0 : topic == "scan_surface" ? 10 : topic == "colored_scan" ? 20 : 30;
  irvc_out(k, 1);
  irvc_out(k + 1, double(m.irvc_cloud));
  irvc_out(k + 2, m.header.stamp.sec); irvc_out(k + 3, m.header.stamp.nanosec);
  irvc_out(k + 4, m.header.frame_id == "lidar_feature_base_link");
}
#define main irvc_main
#include "extraction/app/feature_extraction.cpp"
#undef main
extern "C" {
FeatureExtraction * irvc_node() {return new FeatureExtraction();}
int irvc_padding(const FeatureExtraction & n) {return n.params_.padding;}
int irvc_n_blocks(const FeatureExtraction & n) {return n.params_.n_blocks;}
double irvc_real(const FeatureExtraction & n, const int i)
{
  const auto & p = n.params_;
  return i == 0 ? p.neighbor_degree_threshold : i == 1 ? p.distance_diff_threshold : i == 2 ? p.parallel_beam_min_range_ratio :
         i == 3 ? p.edge_threshold : i == 4 ? p.surface_threshold : i == 5 ? p.min_range : p.max_range;
}
double irvc_radian(const double d) {return DegreeToRadian(d);}
Cloud::ConstSharedPtr * irvc_cloud(const int sec, const unsigned int nano)
{
  auto p = std::make_shared<Cloud>();
  p->header.stamp.sec = sec; p->header.stamp.nanosec = nano;
  return new Cloud::ConstSharedPtr(p);
}
void irvc_callback(const FeatureExtraction & n, const Cloud::ConstSharedPtr & m) {n.Callback(m);}
}
