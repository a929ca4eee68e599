#pragma once
// Search for an input on which the real compiled code breaks the executable form of a contract.
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include <limits>
#include <stdexcept>

namespace rp
{
static std::mt19937_64 rng;
static std::string current;   // description of the case being executed
static long cases = 0;

inline void dump()
{
  const char * p = getenv("REPLAY_CASE");
  if (!p) {return;}
  int fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) {return;}
  ssize_t r = write(fd, current.data(), current.size());
  (void)r;
  close(fd);
}
inline void on_signal(int s)
{
  dump();
  _exit(100 + s);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

inline long ri(long lo, long hi) {return std::uniform_int_distribution<long>(lo, hi)(rng);}
inline double rr(double lo, double hi) {return std::uniform_real_distribution<double>(lo, hi)(rng);}
inline bool coin(double p = 0.5) {return rr(0, 1) < p;}
/// a double that is often small, integral, equal to another one, zero or huge
inline double rd(double scale = 10.0)
{
  switch (ri(0, 5)) {
    case 0: return double(ri(-3, 3));
    case 1: return double(ri(-20, 20)) / 2.0;
    case 2: return rr(-1, 1) * 1e-3;
    default: return rr(-scale, scale);
  }
}
template<typename T> T pick(const std::vector<T> & v) {return v[ri(0, long(v.size()) - 1)];}

template<typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>> std::string show(T x)
{
  std::ostringstream o;
  o.precision(17);
  o << x;
  return o.str();
}
template<typename C, typename = decltype(std::declval<const C &>().begin())> std::string show(const C & c)
{
  std::ostringstream o;
  o.precision(17);
  o << "[";
  bool first = true;
  for (const auto & x : c) {
    o << (first ? "" : ", ") << +x;
    first = false;
  }
  o << "]";
  return o.str();
}
struct Case
{
  std::ostringstream o;
  Case() {o.precision(17);}
  template<typename T> Case & operator<<(const T & x) {o << x; return *this;}
  ~Case() {}
  void set() {current = o.str(); ++cases;}
};
[[noreturn]] inline void fail(const std::string & msg)
{
  printf("CONTRACT BROKEN: %s\n  input: %s\n", msg.c_str(), current.c_str());
  dump();
  fflush(stdout);
  _exit(3);
}
inline void expect(bool ok, const std::string & msg) {if (!ok) {fail(msg);}}
inline bool close(double a, double b, double tol = 1e-9)
{
  if (a == b) {return true;}
  return std::abs(a - b) <= tol * (1.0 + std::max(std::abs(a), std::abs(b)));
}
template<typename E, typename F> bool throws(F f)
{
  try {f();} catch (const E &) {return true;}
  return false;
}

inline int run(int argc, char ** argv, const std::vector<std::function<void()>> & tests)
{
  const long seed = argc > 1 ? atol(argv[1]) : 1;
  const double secs = argc > 2 ? atof(argv[2]) : 3;
  rng.seed(seed);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) {signal(s, on_signal);}
  if (__sanitizer_set_death_callback) {__sanitizer_set_death_callback(dump);}
  const auto t0 = std::chrono::steady_clock::now();
  do {
    for (const auto & t : tests) {
      for (int k = 0; k < 20; k++) {t();}
    }
  } while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs);
  printf("cases=%ld no contract violation found\n", cases);
  return 0;
}
}  // namespace rp
