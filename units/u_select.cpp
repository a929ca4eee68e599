// Unit: index-based selection, views and sorting of indices.
#include <cstddef>
#include <vector>
#include "extraction/src/iterator.cpp"
#include "lidar_feature_library/algorithm.hpp"
#include "lidar_feature_library/span.hpp"
#include "lidar_feature_extraction/algorithm.hpp"
using VD = std::vector<double>;
using VI = std::vector<int>;
using VS = std::vector<std::size_t>;
extern "C" {
void irvc_get(const VS & indices, const VD & array, VD * out) {new (out) VD(GetByIndices(indices, array));}
void irvc_where(const VI & labels, const int & label, VS * out) {new (out) VS(GetIndicesByValue(labels, label));}
void irvc_argsort(const VD & values, const int b, const int e, VI * out) {new (out) VI(Argsort(values.begin() + b, values.begin() + e));}
void irvc_argsort_span(const VD & values, const int b, const int e, VI * out)
{
  const const_span<double> s(values.begin() + b, values.begin() + e);
  new (out) VI(Argsort(s.begin(), s.end()));
}
void irvc_irange(const int n, VI * out) {new (out) VI(irange(n));}
double irvc_read(const VD & values, const int b, const int e, const int i) {return const_span<double>(values.begin() + b, values.begin() + e).at(i);}
double irvc_readw(VD & values, const int b, const int e, const int i) {return span<double>(values.begin() + b, values.begin() + e).at(i);}
void irvc_write(VD & values, const int b, const int e, const int i, const double x) {span<double>(values.begin() + b, values.begin() + e).at(i) = x;}
int irvc_spansize(const VD & values, const int b, const int e) {return const_span<double>(values.begin() + b, values.begin() + e).size();}
}
