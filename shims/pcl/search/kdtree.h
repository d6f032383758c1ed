#pragma once
#include <pcl/kdtree/kdtree_flann.h>
namespace pcl { namespace search { template <typename P> struct KdTree : KdTreeFLANN<P> { typedef boost::shared_ptr<KdTree<P>> Ptr; }; } }
