#pragma once
#include <pcl/common/transforms.h>
#include <tf/transform_datatypes.h>
namespace pcl_ros {
template <class P> void transformPointCloud(const pcl::PointCloud<P> &in, pcl::PointCloud<P> &out, const tf::Transform &t)
{
  pcl::PointCloud<P> copy(in);
  pcl::transformPointCloud(copy, out, Eigen::Affine3f(t.shim().cast<float>()));
}
}
