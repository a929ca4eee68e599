#include "../../../algebra/visualization_msgs/msg/marker.hpp"
