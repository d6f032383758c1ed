// Observing NDT grids through their public interface.
#pragma once
#include "common.h"
#include <ndt_gslam/ndt/ndt_cell.h>
#include <ndt_gslam/ndt/ndt_grid2d.h>
using namespace slamuk;
using vf::I; using vf::Json; using vf::Op;
typedef NDTGrid2D<NDTCell, pcl::PointXYZ> Grid;
static const double Q = 64, M = 1000, CS = 0.25;
static const double TRI = std::atan2(3.0, 4.0), HALF = 1.57079632679489661923;
static std::vector<Grid::Ptr> g;
static std::vector<std::string> last;

static double ang(long n, long k) { return n * TRI + k * HALF; }
static Eigen::Vector3d pose(const Op &op, size_t i)
{
  double a = ang(I(op, i + 2), I(op, i + 3));
  return Eigen::Vector3d(I(op, i) / Q, I(op, i + 1) / Q, std::atan2(std::sin(a), std::cos(a)));
}
static std::string ints(const Op &op, size_t a, size_t b)
{
  std::vector<long long> v;
  for (size_t i = a; i < b; ++i) v.push_back(I(op, i));
  return Json::list(v);
}
static std::string poseOf(const Eigen::Vector3d &p)
{
  return Json::list(std::vector<long long>{vf::scaled(p(0), Q * M), vf::scaled(p(1), Q * M), vf::scaled(p(2), 1e6)});
}
static void dist(std::vector<long long> &v, const NDTCell &c, double off = 0)
{
  double f = Q * Q * (double(c.points()) - 1);
  v.push_back(c.points());
  for (int i = 0; i < 2; ++i) v.push_back(vf::scaled(c.getMean()(i), Q * M));
  v.push_back(vf::scaled(c.getCov()(0, 0) * f, 1));
  v.push_back(vf::scaled(c.getCov()(0, 1) * f, 1));
  v.push_back(vf::scaled(c.getCov()(1, 1) * f, 1));
  v.push_back(vf::scaled(c.getOccupancyRaw(), 1e6));
}
struct View {
  long l, r, u, d;
  double cs;
  std::vector<std::pair<long, long>> at;
};
static View view(const Grid &gr)
{
  OccupancyGrid m = gr.createOccupancyGrid();
  View v;
  v.cs = m.resolution_;
  v.l = std::lround(m.centroid_(0) / v.cs);
  v.u = std::lround(m.centroid_(1) / v.cs);
  v.r = long(m.width_) - 1 - v.l;
  v.d = long(m.height_) - 1 - v.u;
  for (size_t i = 0; i < m.cells_.size(); ++i)
    if (m.cells_[i] != -1) v.at.push_back({long(i % m.width_) - v.l, v.u - long(i / m.width_)});
  return v;
}
static const NDTCell &cellAt(const Grid &gr, const View &v, std::pair<long, long> c)
{
  return const_cast<Grid &>(gr)[Eigen::Vector2d(c.first * v.cs, c.second * v.cs)];
}
static std::string project(const Grid &gr)
{
  View v = view(gr);
  std::vector<std::string> cells;
  for (auto &c : v.at) {
    const NDTCell &x = cellAt(gr, v, c);
    std::vector<long long> e{c.first, c.second, x.hasGaussian() ? 1 : 0};
    if (x.hasGaussian()) dist(e, x);
    else for (long long y : {0LL, 0LL, 0LL, 0LL, 0LL, 0LL, vf::scaled(x.getOccupancyRaw(), 1e6)}) e.push_back(y);
    cells.push_back(Json::list(e));
  }
  Json j;
  j.arr("ext", std::vector<long>{v.l, v.r, v.d, v.u}).raw("pose", poseOf(gr.getOrigin())).i("res", vf::scaled(gr.getCellSize(), M));
  j.i("ts", vf::scaled(gr.getTimestamp(), 1)).raw("cells", Json::list(cells));
  return j.done();
}
static Grid::PointCloud cloud(const Op &op, size_t from, std::string &log)
{
  Grid::PointCloud c;
  std::vector<std::string> ps;
  for (size_t i = from; i + 1 < op.size(); i += 2) {
    if (op[i] == "nan") {
      pcl::PointXYZ p(1, 1, 0);
      (op[i + 1] == "x" ? p.x : op[i + 1] == "y" ? p.y : p.z) = std::nan("");
      c.push_back(p);
      continue;
    }
    c.push_back(pcl::PointXYZ(I(op, i) / Q, I(op, i + 1) / Q, 0));
    ps.push_back(ints(op, i, i + 2));
  }
  log = Json::list(ps);
  return c;
}
// distributions of the points of a batch, cell by cell, made by cells of our own
static std::string batch(const Grid::PointCloud &c, const Eigen::Vector3d &from, const Eigen::Vector3d &grid)
{
  std::map<std::pair<long, long>, NDTCell> m;
  for (auto &p : c.points) {
    if (std::isnan(p.x) || std::isnan(p.y) || std::isnan(p.z)) continue;
    double wx = from(0) + std::cos(from(2)) * p.x - std::sin(from(2)) * p.y - grid(0);
    double wy = from(1) + std::sin(from(2)) * p.x + std::cos(from(2)) * p.y - grid(1);
    double x = std::cos(grid(2)) * wx + std::sin(grid(2)) * wy, y = -std::sin(grid(2)) * wx + std::cos(grid(2)) * wy;
    m[{std::lround(x / CS), std::lround(y / CS)}].addPoint(Eigen::Vector3d(x, y, 0));
  }
  std::vector<std::string> r;
  for (auto &e : m) {
    e.second.computeGaussian();
    if (!e.second.hasGaussian()) continue;
    std::vector<long long> v;
    dist(v, e.second);
    r.push_back(Json::list(v));
  }
  return Json::list(r);
}
static std::string indices(const Grid &gr, const Grid::CellPtrVector &r)
{
  View v = view(gr);
  std::map<const NDTCell *, std::pair<long, long>> where;
  for (auto &c : v.at) where[&cellAt(gr, v, c)] = c;
  std::vector<std::string> out;
  for (auto *p : r) {
    auto it = where.find(p);
    out.push_back(it == where.end() ? "[9999,9999]" : Json::list(std::vector<long>{it->second.first, it->second.second}));
  }
  return Json::list(out);
}
static std::string points(const Grid::PointCloud &c)
{
  std::vector<std::string> r;
  for (auto &p : c.points) r.push_back(Json::list(std::vector<long long>{vf::scaled(p.x, Q * M), vf::scaled(p.y, Q * M)}));
  return Json::list(r);
}
static bool nearBorder(const Grid &gr)
{
  for (auto *c : gr.getGaussianCells())
    for (int i = 0; i < 2; ++i) {
      double f = c->getMean()(i) / CS - std::floor(c->getMean()(i) / CS) - 0.5;
      if (std::fabs(f) < 1e-4) return true;
    }
  return false;
}

