// Unit: sector boundaries, seen by a client of the public interface. The functions under contract below only call /repo's code.
#include <cassert>
#include <stdexcept>
#include <string>
#include "extraction/src/index_range.cpp"
extern "C" void irvc_sector(const int start, const int end, const int n, const int j, int * out)
{
  const IndexRange r(start, end, n);
  out[0] = r.Begin(j);
  out[1] = r.End(j);
  out[2] = r.NBlocks();
  out[3] = r.Begin(0);
  out[4] = r.End(n - 1);
  out[5] = j + 1 < n ? r.Begin(j + 1) : out[4];
}
extern "C" void irvc_sector_padded(const int size, const int n, const int padding, const int j, int * out)
{
  const PaddedIndexRange r(size, n, padding);
  out[0] = r.Begin(j);
  out[1] = r.End(j);
  out[2] = r.NBlocks();
  out[3] = r.Begin(0);
  out[4] = r.End(n - 1);
  out[5] = j + 1 < n ? r.Begin(j + 1) : out[4];
}
