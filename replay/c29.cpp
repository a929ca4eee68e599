// FLAGS: @REPO@/ekf_localizer/src/string.cpp
#include "replay.hpp"
#include "ekf_localizer/string.hpp"
#include "ekf_localizer/normalize_yaw.hpp"
using namespace rp;
int main(int c, char ** v)
{
  auto name = [] {
      std::string s;
      for (int i = ri(0, 6); i > 0; i--) {s += pick<char>({'/', 'a', 'b', '/', '_'});}
      if (coin(0.1)) {s += std::string(40, 'x');}
      Case k; k << "EraseBeginSlash(\"" << s << "\")"; k.set();
      const std::string e = !s.empty() && s[0] == '/' ? s.substr(1) : s, in = s;
      const std::string r = EraseBeginSlash(s);
      expect(r == e, "result \"" + r + "\"");
      expect(in == s, "argument changed");
    };
  auto yaw = [] {
      const double x = coin(0.3) ? ri(-8, 8) * M_PI / 2 : coin() ? rr(-7, 7) : rr(-1000, 1000);
      Case k; k << "normalizeYaw(" << x << ")"; k.set();
      const double r = normalizeYaw(x);
      expect(std::abs(r) <= M_PI && std::abs(std::sin(r) - std::sin(x)) < 1e-9 && std::abs(std::cos(r) - std::cos(x)) < 1e-9, "result " + std::to_string(r));
    };
  return run(c, v, {name, yaw});
}
