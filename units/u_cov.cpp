// Unit: covariances between filter and messages.
#include <Eigen/Core>
#include <array>
#include "ekf_localizer/src/covariance.cpp"
#include "ekf_localizer/src/pose_measurement.cpp"
#include "ekf_localizer/src/twist_measurement.cpp"
#include "lib/src/eigen.cpp"
using A36 = std::array<double, 36>;
extern "C" {
void irvc_pose_cov(const Matrix6d & p, A36 & out) {out = EKFCovarianceToPoseMessageCovariance(p);}
void irvc_twist_cov(const Matrix6d & p, A36 & out) {out = EKFCovarianceToTwistMessageCovariance(p);}
void irvc_pose_meas(const A36 & c, const size_t s, Eigen::Matrix3d & out) {out = PoseMeasurementCovariance(c, s);}
void irvc_twist_meas(const A36 & c, const size_t s, Eigen::Matrix2d & out) {out = TwistMeasurementCovariance(c, s);}
void irvc_get_cov(const A36 & c, Matrix6d & out) {out = GetEigenCovariance(c);}
void irvc_from_cov(const Matrix6d & p, A36 & out) {out = FromEigenCovariance(p);}
void irvc_round(const A36 & c, A36 & out) {out = FromEigenCovariance(GetEigenCovariance(c));}
}
