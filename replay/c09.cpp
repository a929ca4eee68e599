// FLAGS: -isystem /usr/include/eigen3 -I@VERIF@/units -Wl,--unresolved-symbols=ignore-all
#include "u_select.cpp"
#include "replay.hpp"
using namespace rp;
template<typename T> struct Out
{
  alignas(T) unsigned char b[sizeof(T)];
  T * raw() {return reinterpret_cast<T *>(b);}
};
template<typename T, typename F> T made(F f)
{
  Out<T> o;
  f(o.raw());
  T r = std::move(*o.raw());
  o.raw()->~T();
  return r;
}
int main(int c, char ** v)
{
  auto get = [] {
      VD a(ri(0, 12));
      for (auto & e : a) {e = rd();}
      VS idx(ri(0, 12));
      const bool wild = coin(0.2);
      for (auto & e : idx) {e = ri(0, std::max<long>(0, long(a.size()) - 1 + (wild ? 2 : 0)));}
      Case k; k << "array=" << show(a) << " indices=" << show(idx); k.set();
      bool bad = false;
      for (auto e : idx) {bad |= e >= a.size();}
      if (bad) {
        expect(throws<std::out_of_range>([&] {made<VD>([&](VD * o) {irvc_get(idx, a, o);});}), "an index outside the array is not rejected");
        return;
      }
      const VD r = made<VD>([&](VD * o) {irvc_get(idx, a, o);});
      expect(r.size() == idx.size(), "wrong number of elements");
      for (size_t i = 0; i < r.size(); ++i) {expect(r[i] == a[idx[i]], "element " + std::to_string(i) + " is wrong");}
    };
  auto where = [] {
      VI a(ri(0, 14));
      for (auto & e : a) {e = ri(0, 3);}
      const int x = ri(0, 3);
      Case k; k << "labels=" << show(a) << " value=" << x; k.set();
      const VS r = made<VS>([&](VS * o) {irvc_where(a, x, o);});
      VS e;
      for (size_t i = 0; i < a.size(); ++i) {if (a[i] == x) {e.push_back(i);}}
      expect(r == e, "positions " + show(r) + " instead of " + show(e));
    };
  auto sorted = [] {
      VD a(ri(0, coin(0.2) ? 60 : 14));
      for (auto & e : a) {e = rd();}
      const int b = ri(0, a.size()), e = ri(b, a.size());
      Case k; k << "values=" << show(a) << " begin=" << b << " end=" << e; k.set();
      for (auto f : {irvc_argsort, irvc_argsort_span}) {
        const VI r = made<VI>([&](VI * o) {f(a, b, e, o);});
        expect(int(r.size()) == e - b, "one index per value");
        std::vector<int> seen(e - b, 0);
        for (size_t i = 0; i < r.size(); ++i) {
          expect(r[i] >= 0 && r[i] < e - b && !seen[r[i]], "not a permutation: " + show(r));
          seen[r[i]] = 1;
          expect(i == 0 || a[b + r[i - 1]] <= a[b + r[i]], "order: " + show(r));
        }
      }
      const VI q = made<VI>([&](VI * o) {irvc_irange(e, o);});
      expect(int(q.size()) == e, "irange size");
      for (int i = 0; i < e; ++i) {expect(q[i] == i, "irange");}
      expect(irvc_spansize(a, b, e) == e - b, "size of a view");
      const int i = ri(-2, e - b + 2);
      k << " index=" << i; k.set();
      const VD copy = a;
      if (i < 0 || i >= e - b) {
        expect(throws<std::out_of_range>([&] {irvc_read(a, b, e, i);}), "reading outside a view");
        expect(throws<std::out_of_range>([&] {irvc_readw(a, b, e, i);}), "reading outside a writable view");
        expect(throws<std::out_of_range>([&] {irvc_write(a, b, e, i, 1.);}) && a == copy, "writing outside a view");
      } else {
        expect(irvc_read(a, b, e, i) == a[b + i] && irvc_readw(a, b, e, i) == a[b + i], "reading through a view");
        irvc_write(a, b, e, i, 77.);
        for (size_t j = 0; j < a.size(); ++j) {expect(a[j] == (int(j) == b + i ? 77. : copy[j]), "writing through a view");}
      }
    };
  return run(c, v, {get, where, sorted});
}
