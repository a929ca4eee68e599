#pragma once
// Minimal stand-ins for the ROS 2 types /repo's headers name. Only declarations the code needs in order to compile;
// ROS itself is outside the verified code (trusted, see DESIGN.md).
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

namespace builtin_interfaces::msg
{
struct Time
{
  int32_t sec = 0; uint32_t nanosec = 0;
#ifdef IRVC_TIME_BY_REFERENCE      // not packed into one register
  Time() {}
  Time(const Time & o) : sec(o.sec), nanosec(o.nanosec) {}
  Time & operator=(const Time & o) {sec = o.sec; nanosec = o.nanosec; return *this;}
#endif
};
}
#ifdef IRVC_PARAM      // parameters have any value
extern "C" {double irvc_param_real(double); int irvc_param_int(int); bool irvc_param_bool(bool);}
inline double irvc_param(double v) {return irvc_param_real(v);}
inline int irvc_param(int v) {return irvc_param_int(v);}
inline bool irvc_param(bool v) {return irvc_param_bool(v);}
inline std::string irvc_param(const std::string & v) {return v;}
#else
template<typename T> const T & irvc_param(const T & v) {return v;}
#endif
namespace rclcpp
{
class Duration
{
public:
  int64_t ns = 0;
  Duration() {}
  explicit Duration(int64_t n) : ns(n) {}
  static Duration from_seconds(double s) {return Duration(int64_t(s * 1e9));}
  double seconds() const {return double(ns) * 1e-9;}
  int64_t nanoseconds() const {return ns;}
};
class Time
{
public:
  int64_t ns = 0;
  Time() {}
  explicit Time(int64_t n) : ns(n) {}
  Time(const builtin_interfaces::msg::Time & t) : ns(int64_t(t.sec) * 1000000000 + t.nanosec) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t; t.sec = int32_t(ns / 1000000000); t.nanosec = uint32_t(ns % 1000000000); return t;
  }
  Duration operator-(const Time & o) const {return Duration(ns - o.ns);}
  double seconds() const {return double(ns) * 1e-9;}
  int64_t nanoseconds() const {return ns;}
};
struct Logger {};
inline Logger get_logger(const std::string &) {return Logger();}
struct Clock
{
  using SharedPtr = std::shared_ptr<Clock>;
  Time now();
};
struct QoS
{
  explicit QoS(int = 1) {}
  QoS & reliable() {return *this;}
  QoS & durability_volatile() {return *this;}
  QoS & keep_all() {return *this;}
  QoS & transient_local() {return *this;}
  int get_rmw_qos_profile() const {return 0;}
};
struct SensorDataQoS : QoS {};
struct CallbackGroup {using SharedPtr = std::shared_ptr<CallbackGroup>;};
enum class CallbackGroupType {MutuallyExclusive, Reentrant};
struct SubscriptionOptions {CallbackGroup::SharedPtr callback_group;};
struct NodeOptions {};
template<typename M> struct Publisher
{
  using SharedPtr = std::shared_ptr<Publisher<M>>;
#ifdef IRVC_TOPIC
  std::string topic;
#endif
  void publish(const M & m);
};
template<typename M> struct Subscription {using SharedPtr = std::shared_ptr<Subscription<M>>;};
struct TimerBase {using SharedPtr = std::shared_ptr<TimerBase>;};
struct Node
{
  using SharedPtr = std::shared_ptr<Node>;
  Node(const std::string &) {}
  Node(const std::string &, const NodeOptions &) {}
  Logger get_logger() const {return Logger();}
  Clock::SharedPtr get_clock() const;
  Time now() const;
  template<typename T> T declare_parameter(const std::string &, const T & v) {return irvc_param(v);}
  template<typename M, typename Q> typename Publisher<M>::SharedPtr create_publisher(const std::string & topic, const Q &)
  {
    auto p = std::make_shared<Publisher<M>>();
#ifdef IRVC_TOPIC
    p->topic = topic;
#endif
    return p;
  }
  template<typename M, typename Q, typename F> typename Subscription<M>::SharedPtr create_subscription(
    const std::string &, const Q &, F) {return nullptr;}
  template<typename M, typename Q, typename F> typename Subscription<M>::SharedPtr create_subscription(
    const std::string &, const Q &, F, const SubscriptionOptions &) {return nullptr;}
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType) {return nullptr;}
};
template<typename N, typename F> TimerBase::SharedPtr create_timer(N, Clock::SharedPtr, Duration, F) {return nullptr;}
template<typename D> void sleep_for(D) {}
inline void init(int, char **) {}
template<typename N> void spin(const N &) {}
void shutdown();
}  // namespace rclcpp
extern "C" void irvc_log();
#define RCLCPP_INFO(...) irvc_log()
#define RCLCPP_WARN(...) irvc_log()
#define RCLCPP_ERROR(...) irvc_log()
#define RCLCPP_DEBUG(...) irvc_log()
#define RCLCPP_WARN_THROTTLE(...) irvc_log()

namespace std_msgs::msg {struct Header {builtin_interfaces::msg::Time stamp; std::string frame_id;};}
#define IRVC_PTRS(T) using SharedPtr = std::shared_ptr<T>; using ConstSharedPtr = std::shared_ptr<const T>;
namespace sensor_msgs::msg
{
struct PointField {IRVC_PTRS(PointField) std::string name; uint32_t offset = 0; uint8_t datatype = 0; uint32_t count = 0;};
struct PointCloud2
{
  IRVC_PTRS(PointCloud2)
  std_msgs::msg::Header header; uint32_t height = 0, width = 0; std::vector<PointField> fields;
  bool is_bigendian = false; uint32_t point_step = 0, row_step = 0; std::vector<uint8_t> data; bool is_dense = false;
#ifdef IRVC_MESSAGE_CLOUD
  long irvc_cloud = 0;      // the points, as a value
#endif
};
}
namespace geometry_msgs::msg
{
struct Point {IRVC_PTRS(Point) double x = 0, y = 0, z = 0;};
struct Vector3 {IRVC_PTRS(Vector3) double x = 0, y = 0, z = 0;};
struct Quaternion {IRVC_PTRS(Quaternion) double x = 0, y = 0, z = 0, w = 1;};
struct Pose {IRVC_PTRS(Pose) Point position; Quaternion orientation;};
struct PoseStamped {IRVC_PTRS(PoseStamped) std_msgs::msg::Header header; Pose pose;};
struct PoseWithCovariance {IRVC_PTRS(PoseWithCovariance) Pose pose; std::array<double, 36> covariance{};};
struct PoseWithCovarianceStamped {IRVC_PTRS(PoseWithCovarianceStamped) std_msgs::msg::Header header; PoseWithCovariance pose;};
struct Twist {IRVC_PTRS(Twist) Vector3 linear, angular;};
struct TwistStamped {IRVC_PTRS(TwistStamped) std_msgs::msg::Header header; Twist twist;};
struct TwistWithCovariance {IRVC_PTRS(TwistWithCovariance) Twist twist; std::array<double, 36> covariance{};};
struct TwistWithCovarianceStamped {IRVC_PTRS(TwistWithCovarianceStamped) std_msgs::msg::Header header; TwistWithCovariance twist;};
struct Transform {IRVC_PTRS(Transform) Vector3 translation; Quaternion rotation;};
struct TransformStamped {IRVC_PTRS(TransformStamped) std_msgs::msg::Header header; std::string child_frame_id; Transform transform;};
struct PoseArray {IRVC_PTRS(PoseArray) std_msgs::msg::Header header; std::vector<Pose> poses;};
}
namespace nav_msgs::msg
{
struct Odometry
{
  IRVC_PTRS(Odometry)
  std_msgs::msg::Header header; std::string child_frame_id;
  geometry_msgs::msg::PoseWithCovariance pose; geometry_msgs::msg::TwistWithCovariance twist;
};
struct Path {IRVC_PTRS(Path) std_msgs::msg::Header header; std::vector<geometry_msgs::msg::PoseStamped> poses;};
}
namespace tf2
{
struct TransformException : std::runtime_error {using std::runtime_error::runtime_error;};
const int TimePointZero = 0;
struct BufferCore
{
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string &, const std::string &, int) const;
};
struct Quaternion {double x = 0, y = 0, z = 0, w = 1;};
struct Matrix3x3 {explicit Matrix3x3(const Quaternion & q) : q(q) {} Quaternion q; void getRPY(double &, double &, double &) const;};
inline void fromMsg(const geometry_msgs::msg::Quaternion & a, Quaternion & b) {b.x = a.x; b.y = a.y; b.z = a.z; b.w = a.w;}
double getYaw(const geometry_msgs::msg::Quaternion & q);
}
namespace tf2_ros
{
struct TransformListener {TransformListener(tf2::BufferCore &, rclcpp::Node *, bool) {}};
struct TransformBroadcaster
{
  explicit TransformBroadcaster(std::shared_ptr<rclcpp::Node>) {}
  explicit TransformBroadcaster(rclcpp::Node &) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped &);
};
}
