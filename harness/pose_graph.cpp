// Drives slamuk::Graph through its public interface and records every call together with a
// projection of the whole graph. argv[3]: which observations to make (ids, adj, iter).
#include "common.h"
#include <algorithm>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
using namespace slamuk;
using vf::I; using vf::Json; using vf::Op;

typedef Slam2d_Policy P;
typedef std::vector<int> Obj;
typedef Edge<P, Obj> E;
typedef Node<P, Obj> N;
typedef Graph<P, Obj> G;

static std::string aspect;
static std::unique_ptr<G> g;
static std::map<long long, size_t> real_id;
static size_t max_slots;

static std::string pose(const P::Pose &p)
{
  std::vector<long long> v = {vf::exact(p(0), 1), vf::exact(p(1), 1), vf::exact(p(2), 2 / M_PI)};
  return Json::list(v);
}
static P::Pose mkpose(long long x, long long y, long long q)
{
  return P::Pose(double(x), double(y), double(q) * M_PI / 2);
}
static P::InformMatrix mkinf(long long k)
{
  P::InformMatrix m = P::InformMatrix::Identity() * double(k);
  m(0, 1) = m(1, 0) = 0.25;
  return m;
}
static long long infval(const P::InformMatrix &m)
{
  P::InformMatrix d = m;
  double k = d(2, 2);
  if ((mkinf(std::llround(k)) - d).cwiseAbs().maxCoeff() > 1e-9) return -1;
  return std::llround(k);
}
static std::string edgeJson(const E &e)
{
  Json j;
  j.b("live", true).i("id", e.getId()).i("from", e.getFrom() ? e.getFrom()->getId() : -1)
      .i("to", e.getTo() ? e.getTo()->getId() : -1).raw("tr", pose(e.getTransform()))
      .i("inf", infval(e.getInformationMatrix())).i("st", e.getState()).i("ty", e.getType())
      .b("used", e.isUsed());
  return j.done();
}

template <class F> static std::vector<long long> iterate(F f, size_t guard)
{
  std::vector<long long> r;
  f(r, guard);
  return r;
}
#define WALK(BEGIN, END, STEP)                                                                      \
  {                                                                                                 \
    std::vector<long long> r;                                                                       \
    auto it = BEGIN;                                                                                \
    auto end = END;                                                                                 \
    while (it != end && r.size() <= guard) {                                                        \
      bool same = &*it == it.operator->();                                                          \
      r.push_back(same ? (long long)it->getId() : -5);                                              \
      STEP;                                                                                         \
    }                                                                                               \
    if (!(it == end)) r.push_back(-6);                                                              \
    out.push_back(Json::list(r));                                                                   \
  }

static void observe(Json &j)
{
  const G &cg = *g;
  if (aspect == "ids") {
    j.i("nc", g->nodeCount()).i("ec", g->edgeCount());
    std::vector<std::string> ns, es;
    for (size_t i = 0; i < g->nodeCount(); ++i) {
      N &n = g->getNode(i);
      const N &cn = cg.getNode(i);
      Json k;
      const Obj &o = cn.getDataObj();
      k.i("id", &n == &cn ? (long long)n.getId() : -7).raw("pose", pose(cn.getPose()))
          .i("data", o.size() == 1 ? o[0] : -1).b("vis", n.isVisited());
      ns.push_back(k.done());
    }
    for (size_t i = 0; i < max_slots + 2; ++i) {
      bool t1 = false, t2 = false;
      const E *a = nullptr, *b = nullptr;
      try { a = &g->getEdge(i); } catch (const std::out_of_range &) { t1 = true; }
      try { b = &cg.getEdge(i); } catch (const std::out_of_range &) { t2 = true; }
      if (t1 && t2) es.push_back("{\"live\":false}");
      else if (t1 != t2 || a != b) es.push_back("{\"live\":true,\"id\":-8}");
      else es.push_back(edgeJson(*a));
    }
    j.raw("nodes", Json::list(ns)).raw("edges", Json::list(es));
  } else if (aspect == "adj") {
    std::vector<std::string> ad;
    for (size_t i = 0; i < g->nodeCount(); ++i) {
      std::vector<long long> o, in;
      for (E *e : g->getNode(i).getEdgesOut()) {
        bool ok = e->getFrom() == &g->getNode(i) && &g->getEdge(e->getId()) == e;
        o.push_back(ok ? (long long)e->getId() : -1);
      }
      for (E *e : g->getNode(i).getEdgesIn()) {
        bool ok = e->getTo() == &g->getNode(i) && &g->getEdge(e->getId()) == e;
        in.push_back(ok ? (long long)e->getId() : -1);
      }
      Json k;
      k.arr("out", o).arr("in", in);
      ad.push_back(k.done());
    }
    j.raw("adj", Json::list(ad));
  } else {
    std::vector<std::string> out;
    size_t guard = g->nodeCount() + max_slots + 4;
    WALK(g->beginNode(), g->endNode(), ++it)
    WALK(g->beginNode(), g->endNode(), it++)
    WALK(cg.cbeginNode(), cg.cendNode(), ++it)
    WALK(cg.cbeginNode(), cg.cendNode(), it++)
    {
      // printed listing: one line per node
      std::ostringstream os;
      g->printNodes(os);
      std::istringstream is(os.str());
      std::vector<long long> r;
      std::string line;
      while (std::getline(is, line)) {
        long long id;
        r.push_back(std::sscanf(line.c_str(), "NODE ID:%lld", &id) == 1 ? id : -1);
      }
      out.push_back(Json::list(r));
    }
    j.raw("nit", Json::list(out));
    out.clear();
    WALK(g->beginEdge(), g->endEdge(), ++it)
    WALK(g->beginEdge(), g->endEdge(), it++)
    WALK(cg.cbeginEdge(), cg.cendEdge(), ++it)
    WALK(cg.cbeginEdge(), cg.cendEdge(), it++)
    j.raw("eit", Json::list(out));
  }
}
static size_t rid(long long m) { return real_id.count(m) ? real_id[m] : size_t(m); }

int main(int argc, char **argv)
{
  aspect = argc > 3 ? argv[3] : "ids";
  return vf::run(argc, argv, [](const Op &op, Json &j) {
    const std::string &o = op[0];
    if (o == "reset") {
      g.reset(new G());
      real_id.clear();
      max_slots = 0;
    } else if (o == "addNode") {
      Obj d = {int(I(op, 4))};
      P::Pose p = mkpose(I(op, 1), I(op, 2), I(op, 3));
      size_t id = g->addNode(N(p, d));
      j.raw("pose", pose(p)).i("data", d[0]).i("id", id);
    } else if (o == "addEdge") {
      P::Pose tr = mkpose(I(op, 3), I(op, 4), I(op, 5));
      size_t id = g->addEdge(E(&g->getNode(I(op, 1)), &g->getNode(I(op, 2)), tr, mkinf(I(op, 6))));
      real_id[I(op, 7)] = id;
      max_slots = std::max(max_slots, std::min<size_t>(id, 10000) + 1);
      j.i("from", I(op, 1)).i("to", I(op, 2)).raw("tr", pose(tr)).i("inf", I(op, 6)).i("id", id);
    } else if (o == "removeEdge") {
      size_t id = rid(I(op, 1));
      j.i("id", id).b("ret", g->removeEdge(id));
    } else if (o == "getEdge") {
      size_t id = rid(I(op, 1));
      bool t = false;
      try { g->getEdge(id); } catch (const std::out_of_range &) { t = true; }
      j.i("id", id).b("thrown", t);
    } else if (o == "getNode") {
      bool t = false;
      const G &cg = *g;
      try { cg.getNode(I(op, 1)); } catch (const std::out_of_range &) { t = true; }
      bool t2 = false;
      try { g->getNode(I(op, 1)); } catch (const std::out_of_range &) { t2 = true; }
      j.i("id", I(op, 1)).b("thrown", t).b("same", t == t2);
    } else if (o == "setPose") {
      P::Pose p = mkpose(I(op, 2), I(op, 3), I(op, 4));
      g->getNode(I(op, 1)).setPose(p);
      j.i("id", I(op, 1)).raw("pose", pose(p));
    } else if (o == "addToPose") {
      P::Pose p = mkpose(I(op, 2), I(op, 3), I(op, 4));
      N &n = g->getNode(I(op, 1));
      if (I(op, 5)) n.addToPose(p); else n.addToPose(P::Pose(p));
      j.i("id", I(op, 1)).raw("d", pose(p)).i("q", vf::exact(n.getPose()(2), 2 / M_PI));
    } else if (o == "setData") {
      g->getNode(I(op, 1)).getDataObj() = Obj{int(I(op, 2))};
      j.i("id", I(op, 1)).i("data", I(op, 2));
    } else if (o == "setVisited") {
      g->getNode(I(op, 1)).setVisited(I(op, 2));
      j.i("id", I(op, 1)).b("v", I(op, 2));
    } else if (o == "setState") {
      size_t id = rid(I(op, 1));
      g->getEdge(id).setState(E::State(I(op, 2)));
      j.i("id", id).i("v", I(op, 2));
    } else if (o == "setType") {
      size_t id = rid(I(op, 1));
      g->getEdge(id).setType(E::Type(I(op, 2)));
      j.i("id", id).i("v", I(op, 2));
    } else if (o == "setUsed") {
      size_t id = rid(I(op, 1));
      g->getEdge(id).setUsed(I(op, 2));
      j.i("id", id).b("v", I(op, 2));
    } else {
      std::fprintf(stderr, "unknown op %s\n", o.c_str());
      std::exit(3);
    }
    observe(j);
  });
}
