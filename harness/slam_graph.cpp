// Drives slamuk::Slam2D (pose graph, loop closing and g2o) with a scripted scan matcher.
#include "common.h"
#include "scripted_matcher.h"
#include <ndt_gslam/slam_optimizer/slam2d.h>
using namespace vf;
using namespace slamuk;
typedef Slam2D<Thing> Slam;
static Slam *slam;
static Scripted *matcher;
static size_t nodes, edges;

static std::string lattice(const Eigen::Vector3d &p)
{
  return Json::list(std::vector<long long>{scaled(p(0), 1e3), scaled(p(1), 1e3), scaled(p(2), 1e6)});
}
static Eigen::Vector3d place(long x, long y, long n, long k)
{
  return Eigen::Vector3d(x, y, std::remainder(n * std::atan2(3.0, 4.0) + k * M_PI / 2, 2 * M_PI));
}
static Eigen::Vector3d between(const Eigen::Vector3d &a, const Eigen::Vector3d &b)
{
  double c = std::cos(a(2)), s = std::sin(a(2)), x = b(0) - a(0), y = b(1) - a(1);
  return Eigen::Vector3d(c * x + s * y, -s * x + c * y, std::remainder(b(2) - a(2), 2 * M_PI));
}
static void state(Json &j)
{
  std::vector<std::string> ps, cs, td;
  std::vector<long> ids;
  for (size_t i = 0; i < nodes; ++i) {
    ps.push_back(lattice(slam->getPoseLocation(i)));
    const Thing &t = slam->getPoseData(i);
    ids.push_back(t.id);
    td.push_back(Json::list(std::vector<long long>{t.times, scaled(t.told(0), 1e3), scaled(t.told(1), 1e3), scaled(t.told(2), 1e6)}));
  }
  for (size_t i = 0;; ++i) {
    Json e;
    try {
      auto v = slam->getConstrainPoses(i);
      e.i("f", v.first).i("t", v.second).raw("z", lattice(slam->getConstrainTransform(i)));
    } catch (const std::out_of_range &) {
      edges = i;
      break;
    }
    cs.push_back(e.done());
  }
  j.raw("poses", Json::list(ps)).raw("cons", Json::list(cs)).raw("told", Json::list(td)).arr("data", ids);
}

int main(int argc, char **argv)
{
  std::cerr.setstate(std::ios_base::failbit);
  return run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    if (o == "reset") {
      // never destroyed: the class was written for a g2o that does not own its solvers
      matcher = new Scripted();
      matcher->real = true;
      slam = new Slam(std::unique_ptr<IScanmatcher2d<Thing>>(matcher));
      nodes = edges = 0;
    } else if (o == "pose") {
      Eigen::Vector3d t = place(I(op, 1), I(op, 2), I(op, 3), I(op, 4));
      Eigen::Vector3d p = t + Eigen::Vector3d(I(op, 5) * 1e-3, I(op, 6) * 1e-3, I(op, 7) * 1e-6);
      Thing d(nodes);
      matcher->truth.push_back(t);
      j.raw("g", Json::list(std::vector<long long>{I(op, 1), I(op, 2), I(op, 3), I(op, 4)})).raw("p", lattice(p));
      j.i("id", slam->addPose(p, d));
      ++nodes;
    } else if (o == "constrain" || o == "last") {
      size_t q = o == "last" ? 1 : 3;
      size_t f = o == "last" ? nodes - 2 : I(op, 1), t = o == "last" ? nodes - 1 : I(op, 2);
      if (f >= nodes || t >= nodes) std::exit(3);
      Eigen::Vector3d z = between(matcher->truth[f], matcher->truth[t]);
      z += Eigen::Vector3d(I(op, q) * 1e-3, I(op, q + 1) * 1e-3, I(op, q + 2) * 1e-6);
      Eigen::Matrix3d inf = Eigen::Vector3d(3, 4, 5).asDiagonal();
      j.i("f", f).i("t", t).raw("z", lattice(z)).i("len", scaled(z.head(2).norm(), 10));
      j.b("noise", I(op, q) || I(op, q + 1) || I(op, q + 2));
      j.i("id", o == "last" ? slam->addLastConstrain(z, inf) : slam->addConstrain(f, t, z, inf));
    } else if (o == "limits") {
      slam->setLoopGenerationMinDist(I(op, 1));
      slam->setLoopGenerationMaxDist(I(op, 2));
      j.i("min", I(op, 1)).i("max", I(op, 2));
    } else if (o == "score") {
      slam->setLoopRegistrationScore(I(op, 1) / 4.f);
      j.i("s", I(op, 1)).i("got", scaled(matcher->threshold, 4));
    } else if (o == "close") {
      matcher->tries.clear();
      matcher->ok.clear();
      std::vector<long long> ok;
      for (size_t i = 2; i < op.size(); ++i) {
        matcher->ok.insert(I(op, i));
        ok.push_back(I(op, i));
      }
      long n = I(op, 1);
      j.b("ret", n < 0 ? slam->tryLoopClose() : slam->tryLoopClose(n));
      std::vector<std::string> tr;
      for (auto &t : matcher->tries) {
        Json e;
        e.i("s", t.source).i("t", t.target).b("won", matcher->ok.count(t.source));
        e.i("len", scaled((matcher->truth.at(t.source) - matcher->truth.at(t.target)).head(2).norm(), 10));
        tr.push_back(e.done());
      }
      j.i("n", n < 0 ? nodes - 1 : n).arr("ok", ok).raw("tries", Json::list(tr));
    } else if (o == "optimise") {
      if (I(op, 1)) slam->optimalizeIterationaly();
      else slam->optimalize();
      std::vector<std::string> rs;
      for (size_t i = 0; i < edges; ++i) {
        auto v = slam->getConstrainPoses(i);
        Eigen::Vector3d a = slam->getPoseLocation(v.first), b = slam->getPoseLocation(v.second), z = slam->getConstrainTransform(i);
        Eigen::Vector2d r = (b - a).head(2) - Eigen::Rotation2Dd(a(2)) * z.head(2);
        rs.push_back(Json::list(std::vector<long long>{scaled(r(0), 1e6), scaled(r(1), 1e6)}));
      }
      j.raw("resid", Json::list(rs));
    } else if (o == "draw") {
      std::stringstream dot;
      slam->getGraphSerialized(dot);
      std::vector<std::string> dn, de, ms;
      std::string line;
      while (std::getline(dot, line)) {
        long a, b;
        double x, y;
        if (std::sscanf(line.c_str(), "p%ld[ pose = \"%lf,%lf!\"]", &a, &x, &y) == 3)
          dn.push_back(Json::list(std::vector<long long>{a, scaled(x, 1e3), scaled(y, 1e3)}));
        else if (std::sscanf(line.c_str(), "p%ld->p%ld", &a, &b) == 2)
          de.push_back(Json::list(std::vector<long long>{a, b}));
        else
          dn.push_back("[]");
      }
      auto arr = slam->getGraphSerialized("world");
      for (auto &m : arr.markers) {
        Json e;
        bool ok = m.type == visualization_msgs::Marker::ARROW && m.action == visualization_msgs::Marker::ADD && m.points.size() == 2 && m.color.a > 0;
        e.b("arrow", ok).s("frame", m.header.frame_id).i("id", m.id);
        if (m.points.size() == 2)
          e.i("x1", scaled(m.points[0].x, 1e3)).i("y1", scaled(m.points[0].y, 1e3)).i("x2", scaled(m.points[1].x, 1e3)).i("y2", scaled(m.points[1].y, 1e3));
        e.raw("rgb", Json::list(std::vector<long long>{scaled(m.color.r, 1), scaled(m.color.g, 1), scaled(m.color.b, 1)}));
        ms.push_back(e.done());
      }
      j.raw("dotNodes", Json::list(dn)).raw("dotEdges", Json::list(de)).raw("marks", Json::list(ms));
    } else {
      std::fprintf(stderr, "unknown op %s\n", o.c_str());
      std::exit(3);
    }
    state(j);
  });
}
