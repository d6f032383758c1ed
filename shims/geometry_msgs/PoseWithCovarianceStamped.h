#pragma once
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct PoseWithCovarianceStamped {
  std_msgs::Header header; PoseWithCovariance pose;
  typedef boost::shared_ptr<PoseWithCovarianceStamped> Ptr; typedef boost::shared_ptr<const PoseWithCovarianceStamped> ConstPtr;
};
}
