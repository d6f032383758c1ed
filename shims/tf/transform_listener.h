#pragma once
#include <tf/transform_datatypes.h>
namespace tf {
class TransformListener {
public:
  // what is late arrives while somebody waits
  bool waitForTransform(const std::string &target, const std::string &source, const ros::Time &t, const ros::Duration &d) const
  {
    if (d.toSec() > 0)
      for (auto &e : tree().edges) e.late = false;
    return canTransform(target, source, t);
  }
  bool canTransform(const std::string &target, const std::string &source, const ros::Time &t) const
  {
    Eigen::Affine3d r;
    return tree().find(target, source, t, r);
  }
  void lookupTransform(const std::string &target, const std::string &source, const ros::Time &t, StampedTransform &out) const
  {
    Eigen::Affine3d r;
    if (!tree().find(target, source, t, r)) throw LookupException("no way from " + source + " to " + target);
    out = StampedTransform(Transform::shim(r), t, target, source);
  }
};
}
