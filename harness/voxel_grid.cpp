// Drives slamuk::VoxelGrid2D with a plain counter as cell type. Positions in 1/16 of a cell.
#include "common.h"
#include <algorithm>
#include <ndt_gslam/ndt/voxel_grid2d.h>
using namespace slamuk;
using vf::I; using vf::Json; using vf::Op;

struct Cell {
  long v;
  Cell() : v(0) {}
  explicit Cell(long x) : v(x) {}
  Cell &operator+=(const Cell &o) { v += o.v; return *this; }
};
static std::ostream &operator<<(std::ostream &os, const Cell &c) { return os << c.v; }
typedef VoxelGrid2D<Cell> G;
typedef Eigen::Vector2d Pt;

static std::vector<std::unique_ptr<G>> gs;
static double cs() { return gs[0]->getCellSize(); }
static Pt pos(long long x, long long y) { return Pt(x * cs() / 16.0, y * cs() / 16.0); }
static Pt centre(long x, long y) { return Pt(x * cs(), y * cs()); }

// coordinates of every cell object, through the public iteration in row-major order
static std::map<const Cell *, std::pair<long, long>> coords(const G &g)
{
  std::map<const Cell *, std::pair<long, long>> m;
  long i = 0, w = g.width();
  for (auto it = g.begin(); it != g.end(); ++it, ++i)
    if (it->get()) m[it->get()] = {i % w - long(g.left()), long(g.up()) - i / w};
  return m;
}
static std::string xy(std::pair<long, long> c)
{
  return "[" + std::to_string(c.first) + "," + std::to_string(c.second) + "]";
}
static std::string name(const G &g, const Cell *p)
{
  auto m = coords(g);
  return m.count(p) ? xy(m[p]) : "[9999,9999]";
}
static std::string project(const G &g)
{
  Json j;
  std::vector<std::string> cells;
  size_t n = 0, w = g.width(), h = g.height();
  bool ok = w == g.left() + g.right() + 1 && h == g.up() + g.down() + 1;
  for (auto it = g.cbegin(); it != g.cend(); ++it) ++n;
  ok = ok && n == w * h && w < 4000 && h < 4000;
  if (ok)
    for (auto &c : coords(g)) {
      long x = c.second.first, y = c.second.second;
      // the same cell has to be found at its centre
      ok = ok && g.isInside(centre(x, y)) && g.cellExists(centre(x, y)) && g.getCellPtr(centre(x, y)) == c.first;
      cells.push_back("[" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(c.first->v) + "]");
    }
  j.i("l", g.left()).i("r", g.right()).i("u", g.up()).i("d", g.down()).b("ok", ok)
      .i("valid", g.validCells()).raw("cells", Json::list(cells));
  return j.done();
}
static void put(size_t k, G *g)
{
  if (gs.size() < k) gs.resize(k);
  gs[k - 1].reset(g);
}

int main(int argc, char **argv)
{
  std::string size = argc > 3 ? argv[3] : "default";
  return vf::run(argc, argv, [&](const Op &op, Json &j) {
    std::string o = op[0];
    if (o == "reset") {
      gs.clear();
      gs.emplace_back(new G());
      if (size != "default") gs[0]->setCellSize(std::atof(size.c_str()));
    } else {
      long long k = 1, h = 0;
      size_t a = 1;
      if (o == "copythen") { o = op[1]; a = 2; }
      k = I(op, a);
      G &g = *gs.at(k - 1);
      j.i("g", k);
      if (o == "add") {
        j.i("x", I(op, 2)).i("y", I(op, 3)).i("v", I(op, 4)).b("merge", I(op, 5));
        Cell c(I(op, 4));
        if (I(op, 6)) g.addCell(pos(I(op, 2), I(op, 3)), c, I(op, 5));
        else g.addCell(pos(I(op, 2), I(op, 3)), Cell(I(op, 4)), I(op, 5));
      } else if (o == "remove") {
        j.i("x", I(op, 2)).i("y", I(op, 3)).b("ret", g.removeCell(pos(I(op, 2), I(op, 3))));
      } else if (o == "enlarge") {
        Pt p = pos(I(op, 2), I(op, 3)), q = pos(I(op, 4), I(op, 5));
        j.i("x", I(op, 2)).i("y", I(op, 3)).i("x2", I(op, 4)).i("y2", I(op, 5));
        g.enlarge(p(0), p(1), q(0), q(1));
      } else if (o == "clear") {
        g.clear();
      } else if (o == "translate") {
        j.i("dx", I(op, 2)).i("dy", I(op, 3)).b("discard", I(op, 4));
        g.translate(Eigen::Vector2i(I(op, 2), I(op, 3)), I(op, 4));
      } else if (o == "ray") {
        Pt p = pos(I(op, 2), I(op, 3)), q = pos(I(op, 4), I(op, 5));
        j.i("x", I(op, 2)).i("y", I(op, 3)).i("x2", I(op, 4)).i("y2", I(op, 5));
        std::vector<std::string> r;
        auto res = (I(op, 2) == 0 && I(op, 3) == 0) ? g.rayTrace(q) : g.rayTrace(p, q);
        auto m = coords(g);
        for (Cell *c : res) r.push_back(c && m.count(c) ? xy(m[c]) : "[9999,9999]");
        j.raw("res", Json::list(r));
      } else if (o == "copyctor" || o == "copyassign" || o == "movector" || o == "moveassign") {
        h = I(op, a + 1);
        G *n;
        if (o == "copyctor") n = new G(g);
        else if (o == "movector") { G tmp(g); n = new G(std::move(tmp)); }
        else {
          n = new G();
          n->addCell(Pt(3 * cs(), -2 * cs()), Cell(7));  // overwritten by the assignment
          if (o == "copyassign") *n = g;
          else { G tmp(g); *n = std::move(tmp); }
        }
        put(h, n);
        j.i("h", h);
      } else if (o == "clone") {
        h = I(op, 2);
        put(h, new G(g.clone()));
        j.i("h", h);
      } else if (o == "selfassign") {
        G &same = g;
        g = same;
      } else if (o == "setref") {
        j.i("x", I(op, 2)).i("y", I(op, 3)).i("v", I(op, 4));
        g[pos(I(op, 2), I(op, 3))].v = I(op, 4);
      } else if (o == "at") {
        Pt p = pos(I(op, 2), I(op, 3));
        bool in = g.isInside(p), ex = g.cellExists(p);
        j.i("x", I(op, 2)).i("y", I(op, 3)).b("inside", in).b("exists", ex);
        j.i("v", ex ? g[p].v : 0).raw("at", ex ? name(g, &g[p]) : "[0,0]");
        j.b("null", in && g.getCellPtr(p) == nullptr);
        std::pair<double, double> c = in ? g.getCentroid(p) : std::make_pair(0.0, 0.0);
        j.raw("centre", "[" + std::to_string(vf::exact(c.first / cs(), 1, 1e-5)) + "," +
                            std::to_string(vf::exact(c.second / cs(), 1, 1e-5)) + "]");
      } else if (o == "neigh") {
        j.i("x", I(op, 2)).i("y", I(op, 3)).i("rad", I(op, 4));
        std::vector<std::string> r;
        auto m = coords(g);
        for (Cell *c : g.getNeighbors(pos(I(op, 2), I(op, 3)), I(op, 4)))
          r.push_back(m.count(c) ? xy(m[c]) : "[9999,9999]");
        j.raw("res", Json::list(r));
      } else if (o == "list") {
        std::vector<std::string> p;
        std::vector<long> v;
        auto m = coords(g);
        for (Cell *c : g.getValidCellsPtr()) p.push_back(m.count(c) ? xy(m[c]) : "[9999,9999]");
        for (const Cell &c : g.getValidCells()) v.push_back(c.v);
        std::ostringstream os;
        os << g;
        std::istringstream is(os.str());
        std::vector<std::string> rows;
        std::string line, t;
        while (std::getline(is, line)) {
          std::istringstream ls(line);
          std::vector<long> row;
          while (ls >> t) row.push_back(t == "NULL" ? -1 : std::atol(t.c_str()));
          rows.push_back(Json::list(row));
        }
        j.raw("ptrs", Json::list(p)).arr("vals", v).raw("print", Json::list(rows));
      } else {
        std::fprintf(stderr, "unknown op %s\n", o.c_str());
        std::exit(3);
      }
      if (o == "copyctor" || o == "copyassign" || o == "movector" || o == "moveassign") {
        // one specification action for all of them
        std::string s = j.os.str();
        size_t p = s.find("\"op\":\"");
        size_t q = s.find('"', p + 6);
        j.os.str(s.substr(0, p + 6) + "copy" + s.substr(q));
        j.os.seekp(0, std::ios_base::end);
      }
    }
    std::vector<std::string> all;
    for (auto &g : gs) all.push_back(g ? project(*g) : "[]");
    j.raw("grids", Json::list(all));
  });
}
