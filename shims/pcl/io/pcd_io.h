#pragma once
#include <string>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
// nothing is written: the code dumps clouds into the working directory
namespace pcl { namespace io {
template <typename P> int savePCDFile(const std::string &, const PointCloud<P> &, bool = false) { return 0; }
template <typename P> int savePCDFileASCII(const std::string &, const PointCloud<P> &) { return 0; }
template <typename P> int loadPCDFile(const std::string &, PointCloud<P> &) { return -1; }
} }
