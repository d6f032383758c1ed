#pragma once
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace nav_msgs {
struct Odometry {
  std_msgs::Header header; std::string child_frame_id; geometry_msgs::PoseWithCovariance pose;
  typedef boost::shared_ptr<Odometry> Ptr; typedef boost::shared_ptr<const Odometry> ConstPtr;
};
}
