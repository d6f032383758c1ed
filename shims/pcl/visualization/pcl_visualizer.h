#pragma once
#include <boost/thread/thread.hpp>
#include <string>
#include <pcl/point_cloud.h>
namespace pcl { namespace visualization {
enum { PCL_VISUALIZER_POINT_SIZE };
template <typename P> struct PointCloudColorHandlerCustom {
  PointCloudColorHandlerCustom(const typename PointCloud<P>::ConstPtr &, double, double, double) {}
};
struct PCLVisualizer {
  PCLVisualizer(const std::string & = "") {}
  void setBackgroundColor(double, double, double) {}
  template <typename P> bool addPointCloud(const typename PointCloud<P>::ConstPtr &, const PointCloudColorHandlerCustom<P> &, const std::string & = "", int = 0) { return true; }
  bool setPointCloudRenderingProperties(int, double, const std::string & = "", int = 0) { return true; }
  void addCoordinateSystem(double = 1, const std::string & = "", int = 0) {}
  bool wasStopped() const { return true; }
  void spinOnce(int = 1, bool = false) {}
  void close() {}
};
} }
