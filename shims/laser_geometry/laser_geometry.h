#pragma once
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/PointCloud2.h>
namespace laser_geometry {
class LaserProjection {
public:
  // as laser_geometry: ranges out of the limits are dropped
  void projectLaser(const sensor_msgs::LaserScan &s, sensor_msgs::PointCloud2 &c, double cutoff = -1.0, int = 0)
  {
    c = sensor_msgs::PointCloud2();
    c.header = s.header;
    if (cutoff < 0) cutoff = s.range_max;
    for (size_t i = 0; i < s.ranges.size(); ++i) {
      float r = s.ranges[i];
      if (!(r < cutoff && r >= s.range_min)) continue;
      double a = double(s.angle_min) + double(i) * double(s.angle_increment);
      geometry_msgs::Point p;
      p.x = r * std::cos(a), p.y = r * std::sin(a);
      c.shim_points.push_back(p);
    }
    c.width = c.shim_points.size();
  }
};
}
