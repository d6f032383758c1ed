// Drives pcl::D2DNormalDistributionsTransform2DRobust and slamuk::NdtScanmatcher. The matchers they build on give scripted
// answers: the right one when asked from the right start with the right clouds, nonsense otherwise.
#include "common.h"
#define D2DNormalDistributionsTransform2D RealD2D
#include <ndt_gslam/registration/d2d_ndt2d.h>
#undef D2DNormalDistributionsTransform2D
#define CorrelativeEstimation RealSearch
#include <ndt_gslam/registration/correlative_estimation2d.h>
#undef CorrelativeEstimation
#include <ndt_gslam/ndt_grid2d_holder.h>
using namespace vf;
typedef pcl::PointXYZ P;
typedef pcl::PointCloud<P> Cloud;
typedef slamuk::NDTGrid2D<slamuk::NDTCell, P> Grid;
static float Step = 0.25;
struct Place {
  long x, y, k;
  Eigen::Matrix4f mat() const
  {
    Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
    double a = k * M_PI / 2;
    m(0, 0) = m(1, 1) = std::cos(a), m(0, 1) = -std::sin(a), m(1, 0) = std::sin(a), m(0, 3) = x * Step, m(1, 3) = y * Step;
    return m;
  }
  bool is(const Eigen::Matrix4f &m) const { return (m - mat()).norm() < 1e-3; }
};
static struct {
  Place guess, x1, xc, x2;
  bool c1, c, c2;
  Cloud::ConstPtr source, target;
  int wrong;
  bool same(const Cloud::ConstPtr &a, const Cloud::ConstPtr &b)
  {
    if (!a || !b || a->size() != b->size()) return false;
    for (size_t i = 0; i < a->size(); ++i)
      if (std::hypot(a->points[i].x - b->points[i].x, a->points[i].y - b->points[i].y) > 1e-3) return false;
    return true;
  }
  bool shown(const Cloud::ConstPtr &s, const Cloud::ConstPtr &t) { return same(s, source) && same(t, target); }
} plan;
namespace pcl {
template <typename A, typename B, typename C = slamuk::NDTCell> class D2DNormalDistributionsTransform2D : public RealD2D<A, B, C>
{
protected:
  virtual void computeTransformation(typename RealD2D<A, B, C>::PclSource &out, const Eigen::Matrix4f &guess) override
  {
    bool shown = plan.shown(this->input_, this->target_);
    if (!shown) plan.wrong |= 1;
    const Place *p = nullptr;
    if (shown && plan.guess.is(guess)) this->converged_ = plan.c1, p = &plan.x1;
    else if (shown && plan.xc.is(guess)) this->converged_ = plan.c2, p = &plan.x2;
    else plan.wrong |= 2, this->converged_ = false;
    this->final_transformation_ = p ? p->mat() : Place{500, 500, 0}.mat();
    transformPointCloud(*this->input_, out, this->final_transformation_);
  }
};
template <typename A, typename B> class CorrelativeEstimation : public RealSearch<A, B>
{
protected:
  virtual void computeTransformation(typename RealSearch<A, B>::PclSource &out, const Eigen::Matrix4f &guess) override
  {
    bool fine = plan.shown(this->input_, this->target_) && plan.guess.is(guess);
    if (!fine) plan.wrong |= 4;
    if (std::fabs(this->getCoarseStep() - Step) > 1e-6) plan.wrong |= 8;
    this->converged_ = fine && plan.c;
    this->final_transformation_ = this->converged_ ? plan.xc.mat() : Place{500, 500, 0}.mat();
    transformPointCloud(*this->input_, out, this->final_transformation_);
  }
};
}
#include <ndt_gslam/slam_optimizer/ndt_scanmatcher.h>
typedef slamuk::NDTGrid2DHolder<slamuk::NDTCell, P> Holder;
namespace slamuk {
template <> inline void IScanmatcher2d<Holder>::setScoreThreshold(float) {}
}
// frames change: the same object may hold something else later
static Grid::Ptr grid(const Op &op, size_t at, size_t n, std::vector<std::string> &seen, Grid::Ptr &kept, bool again)
{
  Cloud c;
  for (size_t i = 0; i < n; ++i, at += 2) {
    for (int a = -2; a <= 2; ++a)
      for (int b = -2; b <= 2; ++b) c.push_back(P(I(op, at) * Step + a * 0.02, I(op, at + 1) * Step + b * 0.02, 0));
    seen.push_back("[" + op[at] + "," + op[at + 1] + "]");
  }
  Grid::Ptr g = kept;
  if (!again || !g || std::fabs(g->getCellSize() - Step) > 1e-6) {
    g.reset(new Grid());
    g->setCellSize(Step);
    kept = g;
  }
  g->initialize(c);
  if (g->getMeans()->size() != n) std::exit(4);
  return g;
}
static Grid::Ptr kept_source, kept_target;
static std::string pose(const Eigen::Matrix4d &m)
{
  return Json::list(std::vector<long long>{scaled(m(0, 3) / Step, 1000), scaled(m(1, 3) / Step, 1000), scaled(std::atan2(m(1, 0), m(0, 0)), 1e6)});
}

int main(int argc, char **argv)
{
  std::cerr.setstate(std::ios_base::failbit);
  typedef pcl::D2DNormalDistributionsTransform2DRobust<P, P> Robust;
  std::unique_ptr<Robust> robust;
  std::unique_ptr<slamuk::NdtScanmatcher<Holder>> matcher;
  return run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    if (o == "reset") {
      robust.reset(new Robust());
      matcher.reset(new slamuk::NdtScanmatcher<Holder>());
      robust->setRejectionLimit(5 / 8.f);
      matcher->setScoreThreshold(5 / 8.f);
    } else if (o == "limit") {
      int refused = 0;
      try { robust->setRejectionLimit(I(op, 1) / 8.f); } catch (const std::invalid_argument &) { ++refused; }
      try { matcher->setScoreThreshold(I(op, 1) / 8.f); } catch (const std::invalid_argument &) { ++refused; }
      j.i("x", I(op, 1)).b("refused", refused == 2);
      if (refused == 1) std::exit(5);
    } else if (o == "match" || o == "align") {
      // cell in quarters (negative: in the grids used before); three convergences; guess, x1, xc, x2; number of points of the target, its points, the source's
      Step = std::labs(I(op, 1)) * 0.25f;
      int again = I(op, 1) < 0 ? 1 + op.size() / 2 % 2 : 0;
      plan.c1 = I(op, 2), plan.c = I(op, 3), plan.c2 = I(op, 4);
      std::vector<std::string> names{"guess", "x1", "xc", "x2"}, ts, ss;
      for (size_t i = 0; i < 4; ++i) {
        Place p{I(op, 5 + 3 * i), I(op, 6 + 3 * i), I(op, 7 + 3 * i)};
        (i == 0 ? plan.guess : i == 1 ? plan.x1 : i == 2 ? plan.xc : plan.x2) = p;
        j.raw(names[i], Json::list(std::vector<long>{p.x, p.y, p.k}));
      }
      size_t n = I(op, 17);
      Grid::Ptr t = grid(op, 18, n, ts, kept_target, again != 0), s = grid(op, 18 + 2 * n, (op.size() - 18 - 2 * n) / 2, ss, kept_source, again > 1);
      plan.source = s->getMeans(), plan.target = t->getMeans(), plan.wrong = 0;
      j.raw("target", Json::list(ts)).raw("source", Json::list(ss));
      j.raw("conv", std::string("[") + (plan.c1 ? "true" : "false") + (plan.c ? ",true" : ",false") + (plan.c2 ? ",true]" : ",false]"));
      if (o == "match") {
        Eigen::Matrix3d g = Eigen::Matrix3d::Identity();
        Eigen::Matrix4d f = plan.guess.mat().cast<double>();
        g.topLeftCorner<2, 2>() = f.topLeftCorner<2, 2>(), g.topRightCorner<2, 1>() = f.block<2, 1>(0, 3);
        slamuk::MatchResult r = matcher->match(Holder(s), Holder(t), g);
        Eigen::Matrix3d m = r.transform_.matrix();
        f.setIdentity();
        f.topLeftCorner<2, 2>() = m.topLeftCorner<2, 2>(), f.block<2, 1>(0, 3) = m.topRightCorner<2, 1>();
        bool flat = std::fabs(r.inform_(0, 1)) + std::fabs(r.inform_(0, 2)) + std::fabs(r.inform_(1, 2)) < 1e-9;
        j.b("ok", r.success_).i("score", scaled(r.score_, 10000)).raw("final", pose(f));
        j.arr("inform", std::vector<long long>{flat ? scaled(r.inform_(0, 0), 1) : -1, scaled(r.inform_(1, 1), 1), scaled(r.inform_(2, 2), 1)});
      } else {
        robust->setInputSource(s);
        robust->setInputTarget(t);
        Cloud out;
        robust->align(out, plan.guess.mat());
        j.b("ok", robust->hasConverged()).i("score", scaled(robust->getAlignmentQuality(), 10000));
        j.raw("final", pose(robust->getFinalTransformation().cast<double>()));
        std::vector<std::string> v;
        for (auto &p : out.points) v.push_back(Json::list(std::vector<long long>{scaled(p.x / Step, 1000), scaled(p.y / Step, 1000)}));
        j.raw("out", Json::list(v));
      }
      j.i("wrong", plan.wrong);
    } else
      std::exit(3);
  });
}
