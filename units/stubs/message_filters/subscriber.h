#pragma once
// Stand-ins: which callbacks run, and when, is ROS's and outside the verified code.
#include "../ros_stub.hpp"
namespace message_filters
{
template<typename M> struct Subscriber {Subscriber(rclcpp::Node *, const std::string &, int) {}};
template<typename P> struct Synchronizer
{
  Synchronizer(const P &, Subscriber<typename P::A> &, Subscriber<typename P::B> &) {}
  template<typename F> void registerCallback(F) {}
};
namespace sync_policies {template<typename X, typename Y> struct ExactTime {using A = X; using B = Y; explicit ExactTime(int) {}};}
}
