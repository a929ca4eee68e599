#pragma once
#include "../../../ros_stub.hpp"
namespace std_msgs::msg {struct ColorRGBA {float r = 0, g = 0, b = 0, a = 0;};}
namespace visualization_msgs::msg
{
struct Marker
{
  enum {LINE_LIST = 5};
  std_msgs::msg::Header header; int32_t type = 0; geometry_msgs::msg::Vector3 scale; std_msgs::msg::ColorRGBA color; std::vector<geometry_msgs::msg::Point> points;
};
}
