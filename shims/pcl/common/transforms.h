#pragma once
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
namespace pcl {
// as PCL: coordinates computed in the scalar of the transform, NaN points of clouds that are not dense are copied
template <typename P, typename S>
void transformPointCloud(const PointCloud<P> &in, PointCloud<P> &out, const Eigen::Transform<S, 3, Eigen::Affine> &t)
{
  if (&in != &out) {
    out.header = in.header; out.is_dense = in.is_dense; out.width = in.width; out.height = in.height;
    out.points.assign(in.points.begin(), in.points.end());
    out.sensor_origin_ = in.sensor_origin_; out.sensor_orientation_ = in.sensor_orientation_;
  }
  for (size_t i = 0; i < out.points.size(); ++i) {
    const P p = in.points[i];
    if (!in.is_dense && !(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z))) continue;
    out.points[i].x = static_cast<float>(t(0, 0) * p.x + t(0, 1) * p.y + t(0, 2) * p.z + t(0, 3));
    out.points[i].y = static_cast<float>(t(1, 0) * p.x + t(1, 1) * p.y + t(1, 2) * p.z + t(1, 3));
    out.points[i].z = static_cast<float>(t(2, 0) * p.x + t(2, 1) * p.y + t(2, 2) * p.z + t(2, 3));
  }
}
template <typename P, typename S>
void transformPointCloud(const PointCloud<P> &in, PointCloud<P> &out, const Eigen::Matrix<S, 4, 4> &m)
{
  Eigen::Transform<S, 3, Eigen::Affine> t(m);
  transformPointCloud(in, out, t);
}
}
