#pragma once
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
namespace pcl {
// only named by the matchers
template <typename P> struct VoxelGridCovariance {
  struct Leaf {};
  typedef Leaf *LeafPtr;
  typedef const Leaf *LeafConstPtr;
};
}
