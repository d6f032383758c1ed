// Drives slamuk::LoopDetector over a pose graph with a scripted scan matcher.
#include "common.h"
#include "scripted_matcher.h"
#include <ndt_gslam/slam_optimizer/loop_detector.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
using namespace vf;
using namespace slamuk;
typedef Graph<Slam2d_Policy, Thing> G;
typedef LoopDetector<Slam2d_Policy, Thing> Detector;
static std::unique_ptr<G> graph;
static std::unique_ptr<Detector> det;
static Scripted matcher;
static std::vector<LoopClosure<Slam2d_Policy>> found;
static std::vector<size_t> attached;

static std::string info(const Eigen::Matrix3d &m)
{
  Eigen::Matrix3d off = m;
  off.diagonal().setZero();
  if (off.norm() != 0) return "[]";
  return Json::list(std::vector<long long>{exact(m(0, 0), 1), exact(m(1, 1), 1), exact(m(2, 2), 1)});
}
static void state(Json &j)
{
  long marks = 0;
  std::vector<std::string> ns, es;
  for (auto it = graph->beginNode(); it != graph->endNode(); ++it) {
    marks += it->isVisited();
    auto p = it->getPose();
    ns.push_back(Json::list(std::vector<long long>{scaled(p(0), 1e3), scaled(p(1), 1e3), scaled(p(2), 1e6)}));
  }
  for (auto it = graph->beginEdge(); it != graph->endEdge(); ++it) {
    marks += it->isUsed();
    auto t = it->getTransform();
    Json e;
    e.i("id", it->getId()).i("f", it->getFrom()->getId()).i("t", it->getTo()->getId());
    e.i("x", scaled(t(0), 1e3)).i("y", scaled(t(1), 1e3)).i("a", scaled(t(2), 1e6)).raw("inf", info(it->getInformationMatrix()));
    e.b("loop", it->getType() == Edge<Slam2d_Policy, Thing>::Type::LOOP).b("temp", it->getState() == Edge<Slam2d_Policy, Thing>::State::TEMP);
    es.push_back(e.done());
  }
  j.i("marks", marks).raw("nodes", Json::list(ns)).raw("edges", Json::list(es));
}
static void matrix(Json &e, const Eigen::Matrix3d &m)
{
  e.i("x", scaled(m(0, 2), 1e3)).i("y", scaled(m(1, 2), 1e3)).i("a", scaled(std::atan2(m(1, 0), m(0, 0)), 1e6));
}

int main(int argc, char **argv)
{
  return run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    if (o == "reset") {
      det.reset();
      graph.reset(new G());
      matcher = Scripted();
      det.reset(new Detector(graph.get(), &matcher));
      found.clear();
      attached.clear();
    } else if (o == "node") {
      Thing d(graph->nodeCount());
      j.raw("p", Json::list(std::vector<long long>{I(op, 1), I(op, 2), I(op, 3)}));
      j.i("id", graph->addNode(Node<Slam2d_Policy, Thing>(Eigen::Vector3d(I(op, 1), I(op, 2), I(op, 3) * 1e-6), d)));
    } else if (o == "edge") {
      // f t len shape angle scale
      static const int sh[6][3] = {{5, 0, 5}, {3, 4, 5}, {0, -5, 5}, {-4, 3, 5}, {-3, -4, 5}, {0, 5, 5}};
      long len = I(op, 3), k = I(op, 4) % 6, s = 1 + I(op, 6) % 4;
      if (len % 5) k = k % 2 ? 5 : 0;
      double x = double(sh[k][0]) * len / 5, y = double(sh[k][1]) * len / 5;
      if (std::abs(x) != std::round(std::abs(x)) || y != std::round(y)) std::exit(3);
      Eigen::Matrix3d inf = Eigen::Vector3d(s, s + 1, s + 2).asDiagonal();
      Edge<Slam2d_Policy, Thing> e(&graph->getNode(I(op, 1)), &graph->getNode(I(op, 2)), Eigen::Vector3d(x, y, I(op, 5) * 1e-6), inf);
      j.i("f", I(op, 1)).i("t", I(op, 2)).i("len", len).i("x", x).i("y", y).i("a", I(op, 5));
      j.raw("inf", Json::list(std::vector<long long>{s, s + 1, s + 2}));
      j.i("id", graph->addEdge(std::move(e)));
    } else if (o == "limits") {
      det->setMinLoopDistance(I(op, 1) / 2.f);
      det->setMaxLoopDistance(I(op, 2) / 2.f);
      j.i("min", I(op, 1)).i("max", I(op, 2));
    } else if (o == "close") {
      matcher.tries.clear();
      matcher.ok.clear();
      std::vector<long long> ok;
      for (size_t i = 2; i < op.size(); ++i) {
        matcher.ok.insert(I(op, i));
        ok.push_back(I(op, i));
      }
      found = det->genLoopClosures(I(op, 1));
      std::vector<std::string> tr, fo;
      for (auto &t : matcher.tries) {
        Json e;
        e.i("s", t.source).i("t", t.target).i("gx", scaled(t.guess(0, 2), 1e3)).i("gy", scaled(t.guess(1, 2), 1e3));
        e.i("ga", scaled(std::atan2(t.guess(1, 0), t.guess(0, 0)), 1e6));
        tr.push_back(e.done());
      }
      for (auto &f : found) {
        Json e;
        e.i("f", f.vertices_.first).i("t", f.vertices_.second).raw("inf", info(f.information_));
        matrix(e, f.t_.matrix());
        fo.push_back(e.done());
      }
      j.i("n", I(op, 1)).arr("ok", ok).raw("tries", Json::list(tr)).raw("found", Json::list(fo));
    } else if (o == "attach") {
      attached = det->addToGraph(found);
      j.arr("ids", attached);
    } else if (o == "detach") {
      j.arr("ids", attached);
      det->removeFromGraph(attached);
      attached.clear();
    } else {
      std::fprintf(stderr, "unknown op %s\n", o.c_str());
      std::exit(3);
    }
    state(j);
  });
}
