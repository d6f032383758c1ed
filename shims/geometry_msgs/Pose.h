#pragma once
#include <geometry_msgs/Point.h>
namespace geometry_msgs {
struct Pose { Point position; Quaternion orientation; };
struct PoseWithCovariance { Pose pose; boost::array<double, 36> covariance; PoseWithCovariance() { covariance.assign(0); } };
}
