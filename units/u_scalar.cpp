// Unit: the scalar filter of height, roll and pitch, seen by a client that feeds it a history of measurements.
#include "ekf_localizer/ekf_localizer.hpp"
extern "C" void irvc_history(
  const double process, const double * z, const double * s, const int64_t * t, const int n, double * x)
{
  Simple1DFilter f;
  f.set_proc_stddev(process);
  for (int k = 0; k < n; k++) {
    f.update(z[k], s[k], rclcpp::Time(t[k]));
    x[k] = f.get_x();
  }
}
