// Drives the switchable-constraint and max-mixture elements.
#include "common.h"
#include <memory>
#include <g2o/core/block_solver.h>
#include <g2o/core/factory.h>
#include <g2o/core/jacobian_workspace.h>
#include <g2o/core/optimization_algorithm_levenberg.h>
#include <g2o/core/sparse_optimizer.h>
#include <g2o/solvers/eigen/linear_solver_eigen.h>
#include <g2o/types/slam2d/types_slam2d.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_mixture.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se2Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_switchPrior.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
G2O_USE_TYPE_GROUP(slam2d);
using namespace g2o;
using vf::I; using vf::Json; using vf::Op;
static const int NP = 4, NL = 3, NS = 2;
static const double U = 8, TH = 0.64350110879328437;

struct El {
  std::string t;
  OptimizableGraph::Edge *e = nullptr;
};
struct World {
  std::unique_ptr<SparseOptimizer> g{new SparseOptimizer};
  std::vector<VertexSE2 *> p;
  std::vector<VertexPointXY *> l;
  std::vector<VertexSwitchLinear *> s;
  std::vector<El> el;
  World()
  {
    for (int i = 0; i < NP; ++i) { p.push_back(new VertexSE2); p[i]->setId(i); g->addVertex(p[i]); }
    for (int i = 0; i < NL; ++i) { l.push_back(new VertexPointXY); l[i]->setId(10 + i); g->addVertex(l[i]); }
    for (int i = 0; i < NS; ++i) { s.push_back(new VertexSwitchLinear); s[i]->setId(20 + i); g->addVertex(s[i]); }
  }
};
static std::unique_ptr<World> w;

static SE2 pose(const Op &op, size_t i) { return SE2(I(op, i), I(op, i + 1), std::remainder(I(op, i + 2) * TH + I(op, i + 3) * M_PI / 2, 2 * M_PI)); }
static std::string jpose(const Op &op, size_t i)
{
  return Json().i("x", I(op, i)).i("y", I(op, i + 1)).i("d", 0).i("n", I(op, i + 2)).i("k", I(op, i + 3)).done();
}
static Eigen::Matrix3d inf3(const Op &op, size_t i)
{
  Eigen::Matrix3d m;
  for (int r = 0; r < 3; ++r)
    for (int c = r; c < 3; ++c) m(r, c) = m(c, r) = I(op, i++);
  return m;
}
static Eigen::Matrix2d inf2(const Op &op, size_t i)
{
  Eigen::Matrix2d m;
  m << I(op, i), I(op, i + 1), I(op, i + 1), I(op, i + 2);
  return m;
}
static std::string ints(const Op &op, size_t a, size_t n)
{
  std::vector<long long> v;
  for (size_t i = a; i < a + n; ++i) v.push_back(I(op, i));
  return Json::list(v);
}
template <class M> static std::string upper(const M &m)
{
  std::vector<long long> v;
  for (int r = 0; r < m.rows(); ++r)
    for (int c = r; c < m.cols(); ++c) v.push_back(m(r, c) == m(c, r) ? vf::exact(m(r, c), 1) : 2000000004LL);
  return Json::list(v);
}
static std::string vecp(const SE2 &s)
{
  Eigen::Vector3d v = s.toVector();
  return Json::list(std::vector<long long>{vf::scaled(v(0), 1000), vf::scaled(v(1), 1000), vf::scaled(v(2), 1e6)});
}
template <class M> static std::string rows(const M &m)
{
  std::vector<std::string> r;
  for (int i = 0; i < m.rows(); ++i) {
    std::vector<long long> v;
    for (int c = 0; c < m.cols(); ++c) v.push_back(vf::scaled(m(i, c), 1000));
    r.push_back(Json::list(v));
  }
  return Json::list(r);
}
static int vid(const OptimizableGraph::Edge *e, size_t i)
{
  return i < e->vertices().size() && e->vertex(i) ? e->vertex(i)->id() : -1;
}
static std::string two(const Eigen::Vector2d &v) { return Json::list(std::vector<long long>{vf::scaled(v(0), 1000), vf::scaled(v(1), 1000)}); }

static std::string project(const El &x)
{
  Json j;
  j.s("t", x.t);
  if (x.t == "sw") {
    auto *e = static_cast<EdgeSE2Switchable *>(x.e);
    j.i("i", vid(e, 0) + 1).i("j", vid(e, 1) + 1).i("s", vid(e, 2) - 19).raw("m", vecp(e->measurement()));
    j.raw("inf", upper(e->information()));
  } else if (x.t == "pr") {
    auto *e = static_cast<EdgeSwitchPrior *>(x.e);
    j.i("s", vid(e, 0) - 19).i("m", vf::exact(e->measurement(), U)).i("inf", vf::exact(e->information()(0, 0), 1));
  } else if (x.t == "mix") {
    auto *e = static_cast<EdgeSE2Mixture *>(x.e);
    j.i("n", e->numberComponents).i("best", e->getBestComponent() + 1);
    j.i("i", vid(e, 0) + 1).i("j", vid(e, 1) + 1).raw("m", vecp(e->measurement())).raw("inf", upper(e->information()));
    std::vector<std::string> cs;
    for (int c = 0; c < e->numberComponents; ++c) {
      EdgeSE2 *k = e->getComponent(c);
      cs.push_back(Json().i("i", vid(k, 0) + 1).i("j", vid(k, 1) + 1).raw("m", vecp(k->measurement())).raw("inf", upper(k->information())).done());
    }
    j.raw("comps", Json::list(cs));
  } else {
    auto *e = static_cast<EdgeSE2PointXYMixture *>(x.e);
    j.i("n", e->numberComponents).i("best", e->getBestComponent() + 1);
    j.i("i", vid(e, 0) + 1).i("j", vid(e, 1) - 9).raw("m", two(e->measurement())).raw("inf", upper(e->information()));
    std::vector<std::string> cs;
    for (int c = 0; c < e->numberComponents; ++c) {
      EdgeSE2PointXY *k = e->getComponent(c);
      cs.push_back(Json().i("i", vid(k, 0) + 1).i("j", vid(k, 1) - 9).raw("m", two(k->measurement())).raw("inf", upper(k->information())).done());
    }
    j.raw("comps", Json::list(cs));
  }
  return j.done();
}
static void state(Json &j)
{
  std::vector<long long> s;
  for (auto *v : w->s) s.push_back(vf::exact(v->estimate(), U, 1e-9) == vf::exact(v->x(), U, 1e-9) ? vf::exact(v->x(), U, 1e-9) : -77777);
  j.arr("sws", s);
  std::vector<std::string> e;
  for (auto &x : w->el) e.push_back(project(x));
  j.arr("el", e);
}
// write the element, read it back into a fresh one of the same registered kind
static OptimizableGraph::Edge *make(const std::string &t)
{
  // through the registry where the element is registered by the library
  const char *tag = t == "sw" ? "EDGE_SE2_SWITCHABLE" : t == "pr" ? "EDGE_SWITCH_PRIOR" : nullptr;
  if (tag) {
    HyperGraph::HyperGraphElement *e = Factory::instance()->construct(tag);
    return dynamic_cast<OptimizableGraph::Edge *>(e);
  }
  if (t == "mix") return new EdgeSE2Mixture;
  return new EdgeSE2PointXYMixture;
}
static void attach(OptimizableGraph::Edge *e, const std::vector<int> &ids)
{
  e->resize(ids.size());
  for (size_t i = 0; i < ids.size(); ++i) e->setVertex(i, w->g->vertex(ids[i]));
}
// components own their vertices' pointers only; mixtures are kept out of the optimizer's edge set
static void keep(El x) { w->el.push_back(x); }

int main(int argc, char **argv)
{
  std::cerr.setstate(std::ios_base::failbit);
  return vf::run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    if (o == "reset") {
      if (w) {
        for (auto &x : w->el)
          for (size_t i = 0; i < x.e->vertices().size(); ++i) x.e->setVertex(i, nullptr);
      }
      w.reset(new World);
      j.i("np", NP).i("nl", NL).i("ns", NS);
    } else if (o == "pose") {
      w->p.at(I(op, 1) - 1)->setEstimate(pose(op, 2));
      j.i("i", I(op, 1)).raw("p", jpose(op, 2));
    } else if (o == "pt") {
      w->l.at(I(op, 1) - 1)->setEstimate(Eigen::Vector2d(I(op, 2), I(op, 3)));
      j.i("i", I(op, 1)).raw("p", ints(op, 2, 2));
    } else if (o == "set" || o == "upd" || o == "push" || o == "pop" || o == "discard" || o == "origin" || o == "rwsw") {
      VertexSwitchLinear *s = w->s.at(I(op, 1) - 1);
      j.i("i", I(op, 1));
      if (o == "set") { s->setEstimate(I(op, 2) / U); j.i("v", I(op, 2)); }
      else if (o == "upd") { double d = I(op, 2) / U; s->oplus(&d); j.i("v", I(op, 2)); }
      else if (o == "push") s->push();
      else if (o == "pop") { if (s->stackSize()) s->pop(); }
      else if (o == "discard") { if (s->stackSize()) s->discardTop(); }
      else if (o == "origin") s->setToOrigin();
      else {
        std::stringstream ss;
        bool a = s->write(ss);
        std::unique_ptr<HyperGraph::HyperGraphElement> e(Factory::instance()->construct("VERTEX_SWITCH"));
        auto *v = dynamic_cast<VertexSwitchLinear *>(e.get());
        bool b = v && v->read(ss);
        j.b("ok", a && b).i("v", v ? vf::exact(v->estimate(), U) : -77777);
        auto *f = Factory::instance();
        j.s("tag", f->tag(s));
      }
      j.i("stack", s->stackSize());
      j.i("grad", vf::scaled(s->gradient(), 1000));
    } else if (o == "mksw") {  // i j s  pose(4) inf(6)
      auto *e = new EdgeSE2Switchable;
      attach(e, {int(I(op, 1)) - 1, int(I(op, 2)) - 1, 19 + int(I(op, 3))});
      e->setMeasurement(pose(op, 4));
      e->setInformation(inf3(op, 8));
      keep({"sw", e});
      j.i("i", I(op, 1)).i("j", I(op, 2)).i("s", I(op, 3)).raw("m", jpose(op, 4)).raw("inf", ints(op, 8, 6));
    } else if (o == "mkpr") {  // s m inf
      auto *e = new EdgeSwitchPrior;
      attach(e, {19 + int(I(op, 1))});
      e->setMeasurement(I(op, 2) / U);
      e->setInformation(Eigen::Matrix<double, 1, 1>(double(I(op, 3))));
      keep({"pr", e});
      j.i("s", I(op, 1)).i("m", I(op, 2)).i("inf", I(op, 3));
    } else if (o == "mkmix" || o == "initmix") {  // [idx] mode n (i j pose wn wd inf6)*
      size_t a = 1, idx = 0;
      if (o == "initmix") idx = I(op, a++);
      int mode = I(op, a++), n = I(op, a++);
      std::vector<EdgeSE2 *> es;
      std::vector<double> ws;
      std::vector<std::string> cs;
      for (int c = 0; c < n; ++c, a += 14) {
        auto *e = new EdgeSE2;
        e->setVertex(0, w->g->vertex(I(op, a) - 1));
        e->setVertex(1, w->g->vertex(I(op, a + 1) - 1));
        e->setMeasurement(pose(op, a + 2));
        e->setInformation(inf3(op, a + 8));
        es.push_back(e);
        ws.push_back(double(I(op, a + 6)) / I(op, a + 7));
        cs.push_back(Json().i("i", I(op, a)).i("j", I(op, a + 1)).raw("m", jpose(op, a + 2)).i("wn", I(op, a + 6)).i("wd", I(op, a + 7)).raw("inf", ints(op, a + 8, 6)).done());
      }
      if (o == "initmix") {
        static_cast<EdgeSE2Mixture *>(w->el.at(idx - 1).e)->initializeComponents(es, ws);
        j.i("e", idx);
      } else {
        EdgeSE2Mixture *m;
        if (mode) { m = new EdgeSE2Mixture(es, ws); }
        else { m = new EdgeSE2Mixture; m->initializeComponents(es, ws); }
        keep({"mix", m});
      }
      j.s("t", "mix").raw("comps", Json::list(cs));
    } else if (o == "mkmxy" || o == "initmxy") {  // [idx] mode n (i l mx my wn wd inf3)*
      size_t a = 1, idx = 0;
      if (o == "initmxy") idx = I(op, a++);
      int mode = I(op, a++), n = I(op, a++);
      std::vector<EdgeSE2PointXY *> es;
      std::vector<double> ws;
      std::vector<std::string> cs;
      for (int c = 0; c < n; ++c, a += 9) {
        auto *e = new EdgeSE2PointXY;
        e->setVertex(0, w->g->vertex(I(op, a) - 1));
        e->setVertex(1, w->g->vertex(9 + I(op, a + 1)));
        e->setMeasurement(Eigen::Vector2d(I(op, a + 2), I(op, a + 3)));
        e->setInformation(inf2(op, a + 6));
        es.push_back(e);
        ws.push_back(double(I(op, a + 4)) / I(op, a + 5));
        cs.push_back(Json().i("i", I(op, a)).i("j", I(op, a + 1)).raw("m", ints(op, a + 2, 2)).i("wn", I(op, a + 4)).i("wd", I(op, a + 5)).raw("inf", ints(op, a + 6, 3)).done());
      }
      if (o == "initmxy") {
        static_cast<EdgeSE2PointXYMixture *>(w->el.at(idx - 1).e)->initializeComponents(es, ws);
        j.i("e", idx);
      } else {
        EdgeSE2PointXYMixture *m;
        if (mode) { m = new EdgeSE2PointXYMixture(es, ws); }
        else { m = new EdgeSE2PointXYMixture; m->initializeComponents(es, ws); }
        keep({"mxy", m});
      }
      j.s("t", "mxy").raw("comps", Json::list(cs));
    } else if (o == "err" || o == "lin") {
      El &x = w->el.at(I(op, 1) - 1);
      j.i("e", I(op, 1));
      x.e->computeError();
      if (o == "err") {
        int d = x.e->dimension();
        std::vector<long long> v;
        for (int i = 0; i < d; ++i) v.push_back(vf::scaled(x.e->errorData()[i], i == 2 ? 1e6 : 1000));
        j.arr("err", v);
        // chi2 belongs to this error and this information
        Eigen::Map<Eigen::VectorXd> ev(x.e->errorData(), d);
        Eigen::Map<Eigen::MatrixXd> im(x.e->informationData(), d, d);
        double c = ev.dot(im * ev);
        j.b("chi", std::fabs(c - x.e->chi2()) <= 1e-9 * (1 + std::fabs(c)));
      } else {
        JacobianWorkspace ws;
        ws.updateSize(x.e);
        ws.allocate();
        // no entry may be left over from before
        for (size_t i = 0; i < x.e->vertices().size(); ++i)
          for (int q = 0; q < x.e->dimension() * static_cast<OptimizableGraph::Vertex *>(x.e->vertex(i))->dimension(); ++q)
            ws.workspaceForVertex(i)[q] = 12345;
        x.e->linearizeOplus(ws);
        std::vector<std::string> js;
        for (size_t i = 0; i < x.e->vertices().size(); ++i) {
          int dv = static_cast<OptimizableGraph::Vertex *>(x.e->vertex(i))->dimension();
          Eigen::Map<Eigen::MatrixXd> m(ws.workspaceForVertex(i), x.e->dimension(), dv);
          js.push_back(rows(m));
        }
        j.arr("jac", js);
        // the error itself may not change
        int d = x.e->dimension();
        std::vector<long long> v;
        for (int i = 0; i < d; ++i) v.push_back(vf::scaled(x.e->errorData()[i], i == 2 ? 1e6 : 1000));
        j.arr("err", v);
      }
    } else if (o == "ser") {
      El &x = w->el.at(I(op, 1) - 1);
      j.i("e", I(op, 1));
      std::stringstream ss;
      bool a = x.e->write(ss);
      OptimizableGraph::Edge *e = make(x.t);
      bool ok = e != nullptr;
      if (ok) {
        std::vector<int> ids;
        for (size_t i = 0; i < x.e->vertices().size(); ++i) ids.push_back(x.e->vertex(i)->id());
        if (e->vertices().size() != ids.size()) ok = false;
        attach(e, ids);
        // an element read into an object that was used before is the same as one read into a new one
        if (I(op, 2)) { std::stringstream s2(ss.str()); e->read(s2); }
        bool b = e->read(ss);
        std::string rest;
        ss >> rest;
        ok = ok && a && b && rest.empty();
        std::stringstream again;
        e->write(again);
        ok = ok && again.str() == ss.str();
        x.e = e;
      }
      j.b("ok", ok);
    } else if (o == "opt") {
      // optimise a copy of the switchable part of the graph
      std::vector<SE2> ep;
      std::vector<double> es;
      for (auto *v : w->p) ep.push_back(v->estimate());
      for (auto *v : w->s) es.push_back(v->estimate());
      SparseOptimizer g;
      typedef BlockSolver<BlockSolverTraits<-1, -1>> Bs;
      typedef LinearSolverEigen<Bs::PoseMatrixType> Ls;
      g.setAlgorithm(new OptimizationAlgorithmLevenberg(std::unique_ptr<Bs>(new Bs(std::unique_ptr<Ls>(new Ls)))));
      std::vector<VertexSE2 *> p;
      std::vector<VertexSwitchLinear *> s;
      for (int i = 0; i < NP; ++i) { p.push_back(new VertexSE2); p[i]->setId(i); p[i]->setEstimate(ep[i]); p[i]->setFixed(i == 0); g.addVertex(p[i]); }
      for (int i = 0; i < NS; ++i) { s.push_back(new VertexSwitchLinear); s[i]->setId(20 + i); s[i]->setEstimate(std::min(1.0, std::max(0.0, es[i]))); g.addVertex(s[i]); }
      bool any = false;
      for (auto &x : w->el) {
        if (x.t != "sw" && x.t != "pr") continue;
        OptimizableGraph::Edge *e = make(x.t);
        std::stringstream ss;
        x.e->write(ss);
        e->resize(x.e->vertices().size());
        for (size_t i = 0; i < x.e->vertices().size(); ++i) e->setVertex(i, g.vertex(x.e->vertex(i)->id()));
        e->read(ss);
        if (x.t == "sw") any = true;
        g.addEdge(e);
      }
      double c0 = 0, c1 = 0;
      bool in = true, fin = true;
      int it = -1;
      if (any && g.initializeOptimization()) {
        g.computeActiveErrors();
        c0 = g.activeChi2();
        it = g.optimize(I(op, 1));
        g.computeActiveErrors();
        c1 = g.activeChi2();
        for (auto *v : s) { in = in && v->estimate() >= 0 && v->estimate() <= 1; fin = fin && std::isfinite(v->estimate()); }
        for (auto *v : p) fin = fin && v->estimate().toVector().allFinite();
      }
      j.b("in", in && fin).b("nogrow", c1 <= c0 * (1 + 1e-9) + 1e-9).i("it", it);
    } else {
      std::fprintf(stderr, "unknown op %s\n", o.c_str());
      std::exit(3);
    }
    state(j);
  });
}
