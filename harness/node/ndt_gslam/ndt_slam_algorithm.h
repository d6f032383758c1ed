// Stands in for the algorithm: answers by script and records what it is told.
#pragma once
#include <ndt_gslam/slam_algorithm_interface.h>
namespace vf {
struct Told {
  Eigen::Matrix3d motion, covar;
  pcl::PointCloud<pcl::PointXYZ> cloud;
  ros::Time time;
};
struct Script {
  double radius = -1, gen = -1, max = -1, min = -1, score = -1;
  std::vector<Told> told;
  long updates = 0;
  Eigen::Vector3d answer = Eigen::Vector3d::Zero();
};
inline Script &script() { static Script s; return s; }
}
namespace slamuk {
class NdtSlamAlgortihm : public ISlamAlgorithm
{
public:
  Pose update(const Transform &motion, const Covar &covariance, const PointCloud &pcl, const ros::Time &t) override
  {
    vf::script().told.push_back({motion.matrix(), covariance, pcl, t});
    ++vf::script().updates;
    return vf::script().answer;
  }
  // products are numbered by the update they belong to
  nav_msgs::OccupancyGrid getOccupancyGrid(const std::string &f) const override
  {
    nav_msgs::OccupancyGrid m;
    m.header.frame_id = f;
    m.info.width = vf::script().updates;
    return m;
  }
  visualization_msgs::MarkerArray getGraphSerialized(const std::string &f) const override
  {
    visualization_msgs::MarkerArray m;
    m.markers.resize(1);
    m.markers[0].header.frame_id = f;
    m.markers[0].id = vf::script().updates;
    return m;
  }
  ndt_gslam::NDTMapMsg getNDTMap(const std::string &f) const override
  {
    ndt_gslam::NDTMapMsg m;
    m.header.frame_id = f;
    m.header.seq = vf::script().updates;
    return m;
  }
  PointCloud::Ptr getPclMap(const std::string &f) const override { return cloud(f, 1); }
  PointCloud::Ptr getPclMap2(const std::string &f) const override { return cloud(f, 2); }
  static PointCloud::Ptr cloud(const std::string &f, int kind)
  {
    PointCloud::Ptr p(new PointCloud());
    p->header.frame_id = f;
    p->header.seq = vf::script().updates;
    p->width = kind;
    return p;
  }
  void setRunWindowRadius(float v) override { vf::script().radius = v; }
  void setGenerationDistance(float v) override { vf::script().gen = v; }
  void setLoopClosureMaxDist(float v) override { vf::script().max = v; }
  void setLoopClosureMinDist(float v) override { vf::script().min = v; }
  void setLoopClosureScoreThreshold(float v) override { vf::script().score = v; }
};
}
