// Unit: the update interval over a whole history of time readings, seen by a client.
#include <cassert>
#include <stdexcept>
#include <string>
#include "ekf_localizer/src/update_interval.cpp"
// r[k] is the interval answered for reading t[k], -1 when the reading was rejected
extern "C" void irvc_intervals(const double frequency, const double * t, const int n, double * r)
{
  UpdateInterval u(frequency);
  for (int k = 0; k < n; k++) {
    try {
      r[k] = u.Compute(t[k]);
    } catch (const std::invalid_argument &) {
      r[k] = -1;
    }
  }
}
