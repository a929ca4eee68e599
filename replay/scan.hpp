// FLAGS: -nosan
#pragma once
#include <cassert>
#include <cmath>
#include <string>
#include <stdexcept>
#include "replay.hpp"
#include "irvc_pcl.hpp"
#include <pcl/point_cloud.h>
#include "lidar_feature_extraction/cloud_iterator.hpp"
#include "lidar_feature_extraction/iterator.hpp"
#include "lidar_feature_extraction/math.hpp"
#include "lidar_feature_extraction/mapped_points.hpp"
#include "lidar_feature_extraction/neighbor.hpp"
#include "lidar_feature_extraction/range.hpp"
#include "lidar_feature_extraction/label.hpp"
using Pt = pcl::PointXYZ;
using L = std::vector<PointLabel>;
namespace rp
{
inline std::string sh(const L & l) {std::vector<int> v; for (auto x : l) {v.push_back(int(x));} return show(v);}
inline L rl(int n) {L l(n); for (auto & x : l) {x = PointLabel(ri(0, 7));} return l;}
// a scan line: angles step by step (some steps wide), piecewise constant ranges
struct Line
{
  pcl::PointCloud<Pt>::Ptr cloud{new pcl::PointCloud<Pt>()};
  std::vector<int> idx;
  std::vector<double> r;      // as stored
  std::vector<char> joined;
  double thr = 0.2;
  explicit Line(int n)
  {
    double a = 0, q = rr(1, 20), pw = pick<double>({0.05, 0.3}), pj = pick<double>({0.1, 0.4, 0.8});
    for (int i = 0; i < n; i++) {
      if (coin(pj)) {q = coin(0.3) ? rr(0.01, 1) : rr(0.5, 30);} else if (coin(0.3)) {q += rr(-0.05, 0.05); q = std::max(q, 0.01);}
      Pt p; p.x = float(q * std::cos(a)); p.y = float(q * std::sin(a)); p.z = float(rr(-2, 2));
      cloud->push_back(p); idx.push_back(i);
      bool wide = coin(pw);
      joined.push_back(!wide);
      a += wide ? 0.4 : 0.1;
    }
    if (coin()) {std::shuffle(idx.begin(), idx.end(), rng); auto c = *cloud; for (int i = 0; i < n; i++) {cloud->at(idx[i]) = c.at(i);}}
    for (int i = 0; i < n; i++) {const Pt & p = cloud->at(idx[i]); r.push_back(std::sqrt(double(p.x) * p.x + double(p.y) * p.y));}
  }
  int n() const {return int(idx.size());}
  MappedPoints<Pt> ref() const {return MappedPoints<Pt>(cloud, idx);}
  int right(int i) const {while (i + 1 < n() && joined[i]) {i++;} return i;}
  int left(int i) const {while (i > 0 && joined[i - 1]) {i--;} return i;}
};
}
