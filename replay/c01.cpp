#include <cassert>
#include <stdexcept>
#include <string>
// FLAGS: @REPO@/extraction/src/index_range.cpp
#include "replay.hpp"
#include "lidar_feature_extraction/index_range.hpp"
using namespace rp;
static void check(const IndexRange & r, long s, long e, long n)
{
  expect(r.NBlocks() == n, "number of sectors");
  for (long j : {-1L, n, n + 1, -7L}) {
    expect(throws<std::out_of_range>([&] {r.Begin(j);}) && throws<std::out_of_range>([&] {r.End(j);}), "sector index outside the number of sectors must be rejected");
  }
  long prev = s;
  const long L = e - s;
  std::vector<long> js;
  if (n <= 3000) {for (long j = 0; j < n; j++) {js.push_back(j);}} else {for (int k = 0; k < 50; k++) {js.push_back(ri(0, n - 1));} js.push_back(0); js.push_back(n - 1);}
  for (long j : js) {
    const long b = r.Begin(j), f = r.End(j);
    if (n <= 3000) {expect(b == prev, "sector " + std::to_string(j) + " starts at " + std::to_string(b)); prev = f;}
    if (j == 0) {expect(b == s, "first start");}
    if (j == n - 1) {expect(f == e, "last end");} else {expect(r.Begin(j + 1) == f, "gap between sectors after " + std::to_string(j));}
    expect(f > b, "empty sector " + std::to_string(j));
    expect(f - b == L / n || f - b == (L + n - 1) / n, "unbalanced sector " + std::to_string(j) + " has " + std::to_string(f - b));
  }
}
int main(int c, char ** v)
{
  auto plain = [] {
      long n = coin(0.05) ? ri(1, 2000000) : ri(1, 60), s = coin(0.2) ? ri(-1000000, 1000000) : ri(-5, 50);
      long L = coin(0.3) ? ri(std::max(0L, n - 2), n + 2) : coin(0.1) ? ri(n, 2000000000) : ri(0, 5 * n + 3);
      if (s + L > 2147483647L) {return;}
      Case k; k << "IndexRange(" << s << ", " << s + L << ", " << n << ")"; k.set();
      if (L < n) {expect(throws<std::invalid_argument>([&] {IndexRange(s, s + L, n);}), "must be rejected"); return;}
      check(IndexRange(s, s + L, n), s, s + L, n);
    };
  auto padded = [] {
      long n = ri(1, 40), p = ri(0, 20), size = coin(0.2) ? ri(0, 2 * p + n + 1) : ri(0, 3000);
      Case k; k << "PaddedIndexRange(" << size << ", " << n << ", " << p << ")"; k.set();
      if (size - 2 * p < n) {expect(throws<std::invalid_argument>([&] {PaddedIndexRange(size, n, p);}), "must be rejected"); return;}
      check(PaddedIndexRange(size, n, p), p, size - p, n);
    };
  return run(c, v, {plain, padded});
}
