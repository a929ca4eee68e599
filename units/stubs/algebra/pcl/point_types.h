#pragma once
#include "pcl/point_cloud.h"
namespace pcl {struct PointXYZ {float x = 0, y = 0, z = 0; PointXYZ() {} PointXYZ(float a, float b, float c) : x(a), y(b), z(c) {}};}
namespace pcl {struct PointXYZRGB {float x = 0, y = 0, z = 0; std::uint8_t r = 0, g = 0, b = 0;};}
#define PCL_ADD_POINT4D union {float data[4]; struct {float x, y, z;};};
#define PCL_ADD_INTENSITY float intensity;
#define EIGEN_ALIGN16
#define EIGEN_MAKE_ALIGNED_OPERATOR_NEW
#define POINT_CLOUD_REGISTER_POINT_STRUCT(...)
