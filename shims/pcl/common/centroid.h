#pragma once
#include <pcl/point_cloud.h>
namespace pcl {
template <typename P, typename S> unsigned compute3DCentroid(const PointCloud<P> &c, Eigen::Matrix<S, 4, 1> &o)
{
  o.setZero();
  for (auto &p : c.points) { o(0) += p.x; o(1) += p.y; o(2) += p.z; }
  if (!c.empty()) o /= S(c.size());
  o(3) = 1;
  return c.size();
}
}
