// FLAGS:
#include <cstddef>
#include <deque>
#include <queue>
#include "ekf_localizer/aged_message_queue.hpp"
#include "replay.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto t = [] {
      const int max_age = ri(-1, 6);
      AgedMessageQueue<long> q(max_age);
      const int top = std::max(1, max_age);
      std::deque<std::pair<long, int>> s;
      long next = 0;
      std::string h = "max_age=" + std::to_string(max_age) + " history:";
      const int n = ri(1, 60);
      for (int i = 0; i < n; i++) {
        const int op = ri(0, 20);
        Case k;
        if (op < 8) {h += " push" + std::to_string(next); k << h; k.set(); q.push(next); s.push_back({next++, 0});}
        else if (op < 19) {
          if (s.empty()) {continue;}
          h += " pop"; k << h; k.set();
          const long m = q.pop();
          const auto f = s.front(); s.pop_front();
          expect(m == f.first, "popped " + std::to_string(m) + " instead of " + std::to_string(f.first));
          if (f.second + 1 < top) {s.push_back({f.first, f.second + 1});}
        } else if (op == 19 && coin(0.3)) {h += " clear"; k << h; k.set(); q.clear(); s.clear();}
        expect(q.size() == s.size(), "size is " + std::to_string(q.size()) + " instead of " + std::to_string(s.size()));
      }
    };
  return run(c, v, {t});
}
