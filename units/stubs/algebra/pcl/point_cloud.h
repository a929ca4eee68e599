#pragma once
// Point clouds as values: a cloud is an opaque number, what PCL does to it a function of the number (see irvc/algebra.py).
// The code verified against this never looks inside a cloud; it passes clouds on, transforms and appends them.
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Geometry>
extern "C" {
long irvc_c_empty();
long irvc_c_append(long, long);            // all points of the first, then all points of the second
long irvc_c_move(long, long, long);        // every point moved by rotation and translation
long irvc_c_size(long);
long irvc_h_new(long);                     // a new cloud with this value
long irvc_h_get(long);
void irvc_h_set(long, long);
void irvc_c_save(const std::string &, long);
bool irvc_c_dense(long);
}
namespace pcl::console {enum VERBOSITY_LEVEL {L_ALWAYS, L_ERROR, L_WARN}; inline void setVerbosityLevel(VERBOSITY_LEVEL) {}}
#ifdef IRVC_CLOUD_HANDLES
// Pointers to clouds as numbers (so that containers of them are sequences of numbers); the clouds live in a store behind irvc_h_*.
namespace pcl
{
struct CloudRef
{
  long id;
#ifdef IRVC_DENSE
  bool is_dense;
  explicit CloudRef(long i) : id(i), is_dense(irvc_c_dense(irvc_h_get(i))) {}
#endif
  operator long() const {return irvc_h_get(id);}
  std::size_t size() const {return irvc_c_size(irvc_h_get(id));}
  bool empty() const {return irvc_c_size(irvc_h_get(id)) == 0;}
  void clear() {irvc_h_set(id, irvc_c_empty());}
  CloudRef & operator+=(const CloudRef & o) {irvc_h_set(id, irvc_c_append(irvc_h_get(id), irvc_h_get(o.id))); return *this;}
  CloudRef * operator->() {return this;}
};
template<typename T> struct PointCloud
{
  long v = irvc_c_empty();
  PointCloud() {}
  PointCloud(const CloudRef & r) : v(irvc_h_get(r.id)) {}
  std::size_t size() const {return irvc_c_size(v);}
  bool empty() const {return irvc_c_size(v) == 0;}
  PointCloud & operator+=(const PointCloud & o) {v = irvc_c_append(v, o.v); return *this;}
  struct Ptr
  {
    long id;
    Ptr() = default;
    Ptr(PointCloud * p) : id(irvc_h_new(p->v)) {}
    CloudRef operator*() const {return CloudRef{id};}
    CloudRef operator->() const {return CloudRef{id};}
  };
  using ConstPtr = Ptr;
};
inline void transformPointCloud(const CloudRef & a, CloudRef b, const Eigen::Affine3d & t)
{
  irvc_h_set(b.id, irvc_c_move(irvc_h_get(a.id), t.linear().v, t.translation().v));
}
template<typename T> void transformPointCloud(const PointCloud<T> & a, PointCloud<T> & b, const Eigen::Affine3d & t)
{
  b.v = irvc_c_move(a.v, t.linear().v, t.translation().v);
}
inline void copyPointCloud(const CloudRef & a, CloudRef b) {irvc_h_set(b.id, irvc_h_get(a.id));}
template<typename T> void copyPointCloud(const CloudRef & a, PointCloud<T> & b) {b.v = irvc_h_get(a.id);}
namespace io {inline int save(const std::string & n, const CloudRef & c) {irvc_c_save(n, irvc_h_get(c.id)); return 0;}}
}
#else
namespace pcl
{
template<typename T> struct PointCloud
{
  using Ptr = std::shared_ptr<PointCloud<T>>;
  using ConstPtr = std::shared_ptr<const PointCloud<T>>;
  long v = irvc_c_empty();
  std::size_t size() const {return irvc_c_size(v);}
  bool empty() const {return irvc_c_size(v) == 0;}
  void clear() {v = irvc_c_empty();}
  PointCloud & operator+=(const PointCloud & o) {v = irvc_c_append(v, o.v); return *this;}
  PointCloud operator+(const PointCloud & o) const {PointCloud r(*this); r += o; return r;}
};
template<typename T> void transformPointCloud(const PointCloud<T> & a, PointCloud<T> & b, const Eigen::Affine3d & t)
{
  b.v = irvc_c_move(a.v, t.linear().v, t.translation().v);
}
template<typename S, typename T> void copyPointCloud(const PointCloud<S> & a, PointCloud<T> & b) {b.v = a.v;}
namespace io {template<typename T> int save(const std::string &, const PointCloud<T> &) {return 0;}}
}
#endif
