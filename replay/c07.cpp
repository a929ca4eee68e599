// FLAGS: -isystem /usr/include/eigen3 -I@VERIF@/units -Wl,--unresolved-symbols=ignore-all
#include "u_ring.cpp"
#include "replay.hpp"
using namespace rp;
static Pt point()
{
  Pt p;
  const double s = coin(0.3) ? 1e-2 : 10;
  p.x = coin(0.25) ? 0.f : float(coin() ? ri(-4, 4) : rr(-s, s));
  p.y = coin(0.25) ? 0.f : float(coin() ? ri(-4, 4) : rr(-s, s));
  if (coin(0.1)) {p.y = -0.f;}
  p.ring = ri(0, 4) * (coin(0.1) ? 13000 : 1);
  return p;
}
static int sector(const Pt & p) {return p.y < 0 ? 0 : p.y > 0 ? 2 : p.x >= 0 ? 1 : 3;}
static bool less(const Pt & a, const Pt & b)
{
  const int s = sector(a), t = sector(b);
  if (s != t) {return s < t;}
  return (s == 0 || s == 2) && double(a.x) * b.y - double(a.y) * b.x > 0;
}
static std::string str(const Pt & p)
{
  std::ostringstream o;
  o.precision(9);
  o << "(" << p.x << ", " << p.y << ", ring " << p.ring << ")";
  return o.str();
}
static std::string str(const Cloud & c)
{
  std::string s;
  for (const auto & p : c) {s += str(p);}
  return s;
}
// nearly parallel directions are left out: the products are rounded to single precision
static bool clear(const Pt & a, const Pt & b)
{
  const double d = double(a.x) * b.y - double(a.y) * b.x, n = std::hypot(a.x, a.y) * std::hypot(b.x, b.y);
  return d == 0 ? false : std::abs(d) > 1e-5 * n;
}
static bool decided(const Pt & a, const Pt & b)
{
  if (sector(a) != sector(b)) {return true;}
  return sector(a) % 2 == 1 || clear(a, b) || (a.x == b.x && a.y == b.y);
}
int main(int c, char ** v)
{
  auto order = [] {
      const Pt a = point(), b = coin(0.1) ? a : point();
      Case k; k << "a=" << str(a) << " b=" << str(b); k.set();
      if (!decided(a, b)) {return;}
      expect(irvc_smaller(a, b) == less(a, b), std::string("comparison says ") + (irvc_smaller(a, b) ? "smaller" : "not smaller"));
    };
  auto rings = [] {
      Cloud cloud;
      const int n = ri(0, 14);
      while (int(cloud.size()) < n) {
        const Pt p = point();
        bool ok = true;
        for (const auto & q : cloud) {ok &= decided(p, q);}
        if (ok) {cloud.push_back(p);}
      }
      const int need = ri(-1, 6);
      Case k; k << "points=" << str(cloud) << " n_min_points=" << need; k.set();
      alignas(Rings) unsigned char buf[sizeof(Rings)];
      Rings & r = *reinterpret_cast<Rings *>(buf);
      irvc_group(cloud, &r);
      std::unordered_map<int, Idx> e;
      for (int i = 0; i < n; ++i) {e[cloud[i].ring].push_back(i);}
      auto sorted = [](Idx x) {std::sort(x.begin(), x.end()); return x;};
      expect(r.size() == e.size(), "number of rings");
      for (const auto & [ring, idx] : e) {expect(r.count(ring) && sorted(r.at(ring)) == idx, "points of ring " + std::to_string(ring));}
      irvc_sort_rings(r, cloud);
      expect(r.size() == e.size(), "number of rings after sorting");
      for (const auto & [ring, idx] : e) {
        expect(r.count(ring) && sorted(r.at(ring)) == idx, "points of ring " + std::to_string(ring) + " after sorting");
        const Idx & s = r.at(ring);
        for (size_t i = 1; i < s.size(); ++i) {expect(!less(cloud[s[i]], cloud[s[i - 1]]), "order of ring " + std::to_string(ring) + ": " + show(s));}
      }
      irvc_sparse(r, need);
      size_t left = 0;
      for (const auto & [ring, idx] : e) {
        const bool keep = int(idx.size()) >= need;
        left += keep;
        expect(r.count(ring) == size_t(keep), "ring " + std::to_string(ring) + (keep ? " was removed" : " was kept"));
        if (keep) {expect(sorted(r.at(ring)) == idx, "points of a remaining ring");}
      }
      expect(r.size() == left, "number of remaining rings");
      r.~Rings();
    };
  return run(c, v, {order, rings});
}
