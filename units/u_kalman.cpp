// Unit: the Kalman filter and the delayed-measurement filter over matrix algebra (compiled against units/stubs/algebra).
#include <Eigen/Core>
#include <stdexcept>
#include "kalman_filter/src/kalman_filter.cpp"
#include "kalman_filter/src/time_delay_kalman_filter.cpp"
using M = Eigen::MatrixXd;
using V = Eigen::VectorXd;
extern "C" {
void irvc_kf_init(KalmanFilter & f, const V & x, const M & P) {f.init(x, P);}
void irvc_kf_predict_with(KalmanFilter & f, const V & u, const M & A, const M & B, const M & Q) {f.predict(u, A, B, Q);}
void irvc_kf_predict(KalmanFilter & f, const V & u) {f.predict(u);}
void irvc_kf_update(KalmanFilter & f, const V & y) {f.update(y);}
double irvc_kf_get(const KalmanFilter & f, const unsigned i) {return f.getXelement(i);}
void irvc_kf_make(KalmanFilter * f, const V & x, const M & A, const M & B, const M & C, const M & Q, const M & R, const M & P) {new (f) KalmanFilter(x, A, B, C, Q, R, P);}
// two operations in a row
void irvc_kf_both(KalmanFilter & f, const V & u, const V & y) {f.predict(u); f.update(y);}
void irvc_td_make(TimeDelayKalmanFilter * f, const V & x, const M & P, const int n) {new (f) TimeDelayKalmanFilter(x, P, n);}
void irvc_td_predict(TimeDelayKalmanFilter & f, const V & x, const M & A, const M & Q) {f.predict(x, A, Q);}
void irvc_td_update(TimeDelayKalmanFilter & f, const V & y, const M & C, const M & R, const int d) {f.update(y, C, R, d);}
void irvc_td_getx(const TimeDelayKalmanFilter & f, const int d, V * out) {new (out) V(f.getX(d));}
void irvc_td_latestx(const TimeDelayKalmanFilter & f, V * out) {new (out) V(f.getLatestX());}
void irvc_td_latestp(const TimeDelayKalmanFilter & f, M * out) {new (out) M(f.getLatestP());}
}
