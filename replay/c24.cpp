// FLAGS: -I@VERIF@/units -pthread
#include "u_stamp.cpp"
#include "replay.hpp"
#include <atomic>
#include <map>
#include <thread>
using namespace rp;
int main(int c, char ** v)
{
  auto history = [] {
      Store s;
      std::map<double, double> ref;
      Case k;
      const int n = ri(1, 14);
      k << "fresh store";
      for (int i = 0; i < n; ++i) {
        const double t = coin(0.7) ? double(ri(-4, 6)) / 2 : rr(-3, 3);
        switch (ri(0, 4)) {
          case 0: case 1: {
              const double x = ri(0, 1000);
              k << "; Insert(" << t << ", " << x << ")"; k.set();
              irvc_insert(s, t, x);
              ref[t] = x;
              break;
            }
          case 2: {
              k << "; RemoveOlderThan(" << t << ")"; k.set();
              irvc_prune(s, t);
              ref.erase(ref.upper_bound(t), ref.end());
              break;
            }
          default: {
              if (ref.empty()) {break;}
              k << "; GetClosest(" << t << ")"; k.set();
              double a = 0, b = 0;
              irvc_closest(s, t, &a, &b);
              expect(ref.count(a) && ref[a] == b, "returns an entry that is not stored");
              for (const auto & e : ref) {expect(std::abs(t - a) <= std::abs(t - e.first), "a closer time stamp is stored");}
            }
        }
        expect(irvc_size(s) == ref.size(), "size " + std::to_string(irvc_size(s)) + " instead of " + std::to_string(ref.size()));
      }
    };
  auto threads = [] {
      Case k; k << "four threads inserting, looking up and pruning"; k.set();
      static Store s;
      irvc_insert(s, -1, 0);
      std::atomic<bool> bad{false};
      std::vector<std::thread> th;
      for (int i = 0; i < 4; ++i) {
        th.emplace_back([i, &bad] {
            for (int j = 0; j < 300; ++j) {
              irvc_insert(s, i + 4 * j, i);
              double a, b;
              irvc_closest(s, i + 4 * j, &a, &b);
              if (irvc_size(s) == 0) {bad = true;}
            }
            if (i == 0) {irvc_prune(s, 1e9);}
          });
      }
      for (auto & t : th) {t.join();}
      expect(!bad && irvc_size(s) == 1201, "entries lost: " + std::to_string(irvc_size(s)));
      irvc_prune(s, -0.5);
    };
  return run(c, v, {history, history, history, history, history, history, history, history, history, threads});
}
