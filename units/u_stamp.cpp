// Unit: objects sorted by time stamp (the object type is abstract to the store; instantiated with one number).
#include <cstddef>
#include <iterator>
#include "lidar_feature_localization/stamp_sorted_objects.hpp"
using Store = StampSortedObjects<double>;
extern "C" {
void irvc_make(Store * s) {new (s) Store();}
void irvc_insert(Store & s, const double t, const double x) {s.Insert(t, x);}
void irvc_closest(Store & s, const double t, double * time, double * object)
{
  const auto [a, b] = s.GetClosest(t);
  *time = a;
  *object = b;
}
void irvc_prune(Store & s, const double t) {s.RemoveOlderThan(t);}
std::size_t irvc_size(Store & s) {return s.Size();}
}
