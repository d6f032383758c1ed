#pragma once
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <sensor_msgs/PointCloud2.h>
namespace pcl {
template <class P> void fromROSMsg(const sensor_msgs::PointCloud2 &m, PointCloud<P> &c)
{
  c = PointCloud<P>();
  c.header.frame_id = m.header.frame_id;
  for (auto &p : m.shim_points) c.push_back(P(p.x, p.y, p.z));
}
template <class P> void moveFromROSMsg(sensor_msgs::PointCloud2 &m, PointCloud<P> &c) { fromROSMsg(m, c); m.shim_points.clear(); }
}
