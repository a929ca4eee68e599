#pragma once
// The installed Eigen spells EIGEN_ALIGN16 as alignas(16), which /repo's `struct ... } EIGEN_ALIGN16;` cannot use: restore the
// attribute spelling of the Eigen version /repo targets.
#include <Eigen/Core>
#undef EIGEN_ALIGN16
#define EIGEN_ALIGN16 __attribute__((aligned(16)))
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
