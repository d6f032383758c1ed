// Stand-in for the scan matcher: answers are a fixed function of the pair, success is scripted.
#pragma once
#include <set>
#include <vector>
#include <ndt_gslam/slam_optimizer/graph_slam_interfaces.h>
struct Thing {
  long id = -1;
  Eigen::Vector3d told = Eigen::Vector3d::Zero();
  long times = 0;
  Thing() {}
  explicit Thing(long i) : id(i) {}
  Eigen::Vector2d getCentroid() const { return Eigen::Vector2d(0.5 * id, -0.25 * id); }
  double getRadius() const { return 1 + id % 3; }
  const Thing &getData() const { return *this; }
  void updatePosition(const Eigen::Vector3d &p) { told = p; ++times; }
};
namespace slamuk {
template <> inline void IScanmatcher2d<Thing>::setScoreThreshold(float) {}
}
struct Try {
  long source, target;
  Eigen::Matrix3d guess;
};
class Scripted : public slamuk::IScanmatcher2d<Thing>
{
public:
  std::set<long> ok;
  std::vector<Try> tries;
  double threshold = -1;
  bool real = false;                       // answers with the motion between the true poses
  std::vector<Eigen::Vector3d> truth;
  virtual slamuk::MatchResult match(const Thing &s, const Thing &t, const Eigen::Matrix3d &guess) override
  {
    tries.push_back({s.id, t.id, guess});
    long u = s.id, v = t.id;
    slamuk::MatchResult r;
    r.success_ = ok.count(u) > 0;
    r.score_ = 0.5;
    auto make = [](double x, double y, double a) {
      Eigen::Matrix3d m;
      m << std::cos(a), -std::sin(a), x, std::sin(a), std::cos(a), y, 0, 0, 1;
      return m;
    };
    if (real) {
      Eigen::Vector3d a = truth.at(v), b = truth.at(u);
      r.transform_.matrix() = make(a(0), a(1), a(2)).inverse() * make(b(0), b(1), b(2));
    } else
      r.transform_.matrix() = make(3 * (u + 2 * v), 4 * (u + 2 * v), 0.1 * u - 0.07 * v);
    r.inform_ = Eigen::Vector3d(u + 1, v + 1, u + 2 * v + 3).asDiagonal();
    return r;
  }
  virtual void setScoreThreshold(float s) override { threshold = s; }
};
