// Drives slamuk::NdtSlamAlgortihm through its public interface. Both scan matchers give scripted answers; they keep the
// interface of the real ones, from which they are derived.
#include "common.h"
#define NormalDistributionsTransform2DEx RealIncrementalMatcher
#include <ndt_gslam/registration/ndt2d.h>
#undef NormalDistributionsTransform2DEx
#define NdtScanmatcher RealLoopMatcher
#include <ndt_gslam/slam_optimizer/ndt_scanmatcher.h>
#undef NdtScanmatcher
#include <ndt_gslam/ndt_grid2d_holder.h>
using namespace vf;
typedef Eigen::Matrix3d Mat;
typedef pcl::PointCloud<pcl::PointXYZ> Cloud;
static const double Unit = 0.05, Milli = 1000 / Unit;

static Mat mat(double x, double y, double a)
{
  Mat m;
  m << std::cos(a), -std::sin(a), x, std::sin(a), std::cos(a), y, 0, 0, 1;
  return m;
}
static Mat mat(const Eigen::Vector3d &p) { return mat(p(0), p(1), p(2)); }
static Mat place(long x, long y, long n, long k) { return mat(x * Unit, y * Unit, n * std::atan2(3., 4.) + k * M_PI / 2); }
// of the 4x4 matrices of registration
static Mat flat(const Eigen::Matrix4f &f)
{
  Eigen::Matrix4d m = f.cast<double>();
  Mat r;
  r << m(0, 0), m(0, 1), m(0, 3), m(1, 0), m(1, 1), m(1, 3), 0, 0, 1;
  return r;
}
static std::string lattice(const Mat &m)
{
  return Json::list(std::vector<long long>{scaled(m(0, 2), Milli), scaled(m(1, 2), Milli), scaled(std::atan2(m(1, 0), m(0, 0)), 1e6)});
}
static Eigen::Vector2d at(const Mat &m, double x, double y) { return (m * Eigen::Vector3d(x, y, 1)).head(2); }
// points in tenths of the unit
static std::string spots(const Cloud &c, const Mat &m)
{
  std::vector<std::string> r;
  for (auto &p : c.points) {
    Eigen::Vector2d q = at(m, p.x, p.y);
    r.push_back(Json::list(std::vector<long long>{scaled(q(0), 10 / Unit), scaled(q(1), 10 / Unit)}));
  }
  return Json::list(r);
}

struct {
  bool hit = false;
  Mat world = Mat::Identity();   // where the robot is, by the matcher
  int calls = 0;
  Mat guess;
  std::string source, target;
} inc;
struct Found {
  boost::shared_ptr<slamuk::NDTGrid2D<slamuk::NDTCell, pcl::PointXYZ>> g;
};
static struct {
  int mode = 0;                  // 0: no match, 1: where they are believed, 2: elsewhere, 3: elsewhere, first frame only
  Mat off = Mat::Identity();
  int tries = 0;
  bool bent = false, bending = false;
  boost::shared_ptr<slamuk::NDTGrid2D<slamuk::NDTCell, pcl::PointXYZ>> last;
  double threshold = -1;
  std::vector<Found> frames;     // in order of appearance
} loops;

namespace pcl {
template <typename A, typename B, typename C = slamuk::NDTCell>
class NormalDistributionsTransform2DEx : public RealIncrementalMatcher<A, B, C>
{
  typedef RealIncrementalMatcher<A, B, C> Base;
  typename Base::GridTargetConstPtr mine_;
protected:
  virtual void computeTransformation(typename Base::PclSource &out, const Eigen::Matrix4f &guess) override
  {
    ++inc.calls;
    Mat o = mat(mine_->getOrigin());
    inc.guess = o * flat(guess);
    inc.source = spots(*this->input_, Mat::Identity());
    inc.target = spots(*mine_->getMeans(), o);
    this->converged_ = inc.hit;
    Mat a = o.inverse() * inc.world;
    Eigen::Matrix4f f = Eigen::Matrix4f::Identity();
    f(0, 0) = a(0, 0), f(0, 1) = a(0, 1), f(0, 3) = a(0, 2), f(1, 0) = a(1, 0), f(1, 1) = a(1, 1), f(1, 3) = a(1, 2);
    // what is left behind by a failure means nothing
    if (!inc.hit) f(0, 3) += 77, f(1, 3) -= 55;
    this->final_transformation_ = f;
    this->transformation_ = f;
    transformPointCloud(*this->input_, out, f);
  }
public:
  using Base::setInputTarget;
  virtual void setInputTarget(const typename Base::GridTargetConstPtr &grid) override
  {
    mine_ = grid;
    Base::setInputTarget(grid);
  }
};
}
namespace slamuk {
typedef NDTGrid2DHolder<NDTCell, pcl::PointXYZ> Holder;
template <> inline void IScanmatcher2d<Holder>::setScoreThreshold(float) {}
template <typename T> class NdtScanmatcher : public IScanmatcher2d<T>
{
public:
  virtual MatchResult match(const T &s, const T &t, const Eigen::Matrix3d &) override
  {
    ++loops.tries;
    auto know = [](const T &h) {
      for (auto &f : loops.frames)
        if (f.g == h.getData()) return;
      loops.frames.push_back({h.getData()});
    };
    know(t), know(s);
    MatchResult r;
    loops.last = t.getData();
    r.success_ = loops.mode == 3 ? s.getData()->getOrigin().norm() == 0 : loops.mode > 0;
    r.score_ = 0.9;
    Mat m = mat(t.getData()->getOrigin()).inverse() * mat(s.getData()->getOrigin());
    if (r.success_ && loops.mode > 1) m = m * loops.off, loops.bent = loops.bending = true;
    r.transform_.matrix() = m;
    r.inform_ = Eigen::Vector3d(5000, 5000, 10000).asDiagonal();
    return r;
  }
  virtual void setScoreThreshold(float s) override { loops.threshold = s; }
};
}
#include <ndt_gslam/ndt_slam_algorithm.h>
static slamuk::NdtSlamAlgortihm *slam;
static Mat prev = Mat::Identity();

int main(int argc, char **argv)
{
  std::cerr.setstate(std::ios_base::failbit);
  return run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    if (o == "reset") {
      // never destroyed: see slam_graph.cpp
      slam = new slamuk::NdtSlamAlgortihm();
      loops.frames.clear();
      loops.bent = false;
      prev = Mat::Identity();
    } else if (o == "settings") {
      // generation distance in half units; radius in units
      slam->setGenerationDistance(I(op, 1) * Unit / 2);
      slam->setRunWindowRadius(I(op, 2) * Unit);
      slam->setLoopClosureMinDist(I(op, 3));
      slam->setLoopClosureMaxDist(I(op, 4));
      slam->setLoopClosureScoreThreshold(I(op, 5) / 8.f);
      j.i("gen", I(op, 1)).i("rad", I(op, 2)).i("score", I(op, 5)).i("got", scaled(loops.threshold, 8));
    } else if (o == "update") {
      // motion x y n k r; outcome; matched place x y n k; time; spots x y ...
      Mat m = place(I(op, 1), I(op, 2), I(op, 3), I(op, 4)) * mat(0, 0, I(op, 5) * 1e-6);
      inc.hit = I(op, 6);
      inc.world = place(I(op, 7), I(op, 8), I(op, 9), I(op, 10));
      inc.calls = loops.tries = 0;
      loops.bending = false;
      loops.mode = I(op, 12);
      loops.off = place(I(op, 13), I(op, 14), 0, 0);
      Cloud scan;
      std::vector<std::string> seen;
      for (size_t i = 15; i + 1 < op.size(); i += 2) {
        for (int a = -2; a <= 2; ++a)
          for (int b = -2; b <= 2; ++b)
            scan.push_back(pcl::PointXYZ(I(op, i) * Unit + a * 0.01, I(op, i + 1) * Unit + b * 0.01, 0));
        seen.push_back(Json::list(std::vector<long long>{I(op, i), I(op, i + 1)}));
      }
      slamuk::NdtSlamAlgortihm::Transform t;
      t.matrix() = m;
      size_t met = loops.frames.size();
      Mat ret = mat(slam->update(t, Mat::Identity(), scan, ros::Time(double(I(op, 11)))));
      j.raw("o", "[" + op[1] + "," + op[2] + "," + op[3] + "," + op[4] + "]").i("r", I(op, 5));
      j.b("hit", inc.hit).raw("m", "[" + op[7] + "," + op[8] + "," + op[9] + "," + op[10] + "]").i("time", I(op, 11));
      j.raw("seen", Json::list(seen)).raw("ret", lattice(ret)).raw("rel", lattice(prev.inverse() * ret));
      j.b("bent", loops.bent).b("bending", loops.bending).i("calls", inc.calls);
      j.i("mode", loops.mode).i("tries", loops.tries).i("met", loops.frames.size() - met);
      if (inc.calls) j.raw("guess", lattice(inc.guess)).raw("source", inc.source).raw("target", inc.target);
      if (loops.tries) j.raw("from", lattice(mat(loops.last->getOrigin()).inverse() * ret));
      prev = ret;
    } else if (o == "look") {
      auto map = slam->getPclMap(op[1]);
      auto win = slam->getPclMap2(op[1]);
      auto msg = slam->getNDTMap(op[1]);
      auto occ = slam->getOccupancyGrid(op[1]);
      auto marks = slam->getGraphSerialized(op[1]);
      j.raw("map", spots(*map, Mat::Identity())).raw("win", spots(*win, Mat::Identity()));
      Cloud cells;
      bool square = true;
      long points = 0;
      for (auto &c : msg.cells) {
        // cells without a mean are only free space
        square = square && c.cov_matrix.size() == 9;
        if (c.mean_x != 0 || c.mean_y != 0) cells.push_back(pcl::PointXYZ(c.mean_x, c.mean_y, 0));
        points += c.N;
      }
      j.i("stamp", scaled(msg.header.stamp.toSec(), 1)).i("seq", msg.header.seq).b("square", square).i("points", points);
      j.raw("cells", spots(cells, mat(msg.x_cen, msg.y_cen, 0)));
      j.raw("cen", lattice(mat(msg.x_cen, msg.y_cen, msg.z_cen)));
      bool frame = map->header.frame_id == op[1] && win->header.frame_id == op[1] && msg.header.frame_id == op[1] &&
                   occ.header.frame_id == op[1];
      std::vector<std::string> ms;
      for (auto &m : marks.markers) {
        frame = frame && m.header.frame_id == op[1];
        if (m.points.size() < 2) continue;
        ms.push_back(Json::list(std::vector<long long>{scaled(m.points[0].x, 10 / Unit), scaled(m.points[0].y, 10 / Unit),
                                                       scaled(m.points[1].x, 10 / Unit), scaled(m.points[1].y, 10 / Unit)}));
      }
      j.b("frame", frame).raw("marks", Json::list(ms));
      j.i("ow", occ.info.width).i("oh", occ.info.height).i("on", occ.data.size());
      std::vector<std::string> known;
      for (auto &f : loops.frames) {
        Json k;
        Mat m = mat(f.g->getOrigin());
        k.raw("p", lattice(m)).raw("map", spots(*map, m.inverse()));
        known.push_back(k.done());
      }
      j.raw("known", Json::list(known));
    } else
      std::exit(3);
  });
}
