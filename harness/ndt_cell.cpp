// Drives slamuk::NDTCell. Points are integers, q ticks to a metre.
#include "common.h"
#include <ndt_gslam/ndt/ndt_cell.h>
using namespace slamuk;
using vf::I; using vf::Json; using vf::Op;
static const double K = 1000;
static std::vector<NDTCell> cells;
static std::vector<std::vector<Eigen::Vector3d>> pend;
static double q = 1;

static std::string sum(const NDTCell &c)
{
  std::vector<long long> v;
  for (int i = 0; i < 3; ++i) v.push_back(vf::exact(c.getMean()(i) * c.points() * q, 1, 1e-5));
  return Json::list(v);
}
static std::string scatter(const NDTCell &c)
{
  std::vector<long long> v;
  for (int i = 0; i < 3; ++i)
    for (int k = i; k < 3; ++k) v.push_back(vf::scaled(c.getCov()(i, k) * q * q * (double(c.points()) - 1), K));
  return Json::list(v);
}
static bool spd(const NDTCell &c)
{
  Eigen::Matrix3d m = c.getCov();
  double n = m.norm();
  if (!(n > 0) || !m.allFinite() || (m - m.transpose()).norm() > 1e-9 * n) return false;
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> s(m);
  if (s.eigenvalues()(0) <= 0 || s.eigenvalues()(0) < 0.0099 * s.eigenvalues()(2)) return false;
  return (m * c.getICov() - Eigen::Matrix3d::Identity()).norm() < 1e-6;
}
static std::string project(const NDTCell &c)
{
  Json j;
  double o = c.getOccupancyRaw();
  j.b("g", c.hasGaussian()).i("n", c.points()).i("occ", vf::scaled(o, 1e6)).b("pos", o > 0).i("pct", c.getOccupancy());
  if (c.hasGaussian())
    j.raw("s", sum(c)).raw("S", scatter(c)).b("spd", spd(c));
  else
    j.raw("s", "[0,0,0]").raw("S", "[0,0,0,0,0,0]").b("spd", true);
  return j.done();
}
static Eigen::Vector3d vec(const Op &op, size_t i) { return Eigen::Vector3d(I(op, i), I(op, i + 1), I(op, i + 2)) / q; }
static std::string ints(const Op &op, size_t a, size_t b)
{
  std::vector<long long> v;
  for (size_t i = a; i < b; ++i) v.push_back(I(op, i));
  return Json::list(v);
}

int main(int argc, char **argv)
{
  q = argc > 3 ? std::atof(argv[3]) : 1;
  const size_t num = 3;
  return vf::run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    if (o == "reset") {
      cells.assign(num, NDTCell());
      pend.assign(num, {});
      j.i("num", num);
    } else {
      size_t k = I(op, 1) - 1;
      NDTCell &c = cells.at(k);
      j.i("c", k + 1);
      j.i("q", (long long)q);
      if (o == "pts") {
        std::vector<std::string> ps;
        for (size_t i = 2; i + 2 < op.size(); i += 3) {
          c.addPoint(vec(op, i));
          pend[k].push_back(vec(op, i));
          ps.push_back(ints(op, i, i + 3));
        }
        j.raw("pts", Json::list(ps));
      } else if (o == "compute") {
        NDTCell t;
        for (auto &p : pend[k]) t.addPoint(p);
        t.computeGaussian();
        j.raw("twin", project(t));
        c.computeGaussian();
        if (pend[k].size() >= 6 && c.hasGaussian()) pend[k].clear();
      } else if (o == "merge") {
        size_t d = I(op, 2) - 1;
        bool take = !c.hasGaussian() && cells.at(d).hasGaussian() && cells[d].points() > 2;
        c += cells[d];
        if (take) pend[k] = pend[d];
        j.i("d", d + 1);
      } else if (o == "ray") {
        c.updateOccupancy(vec(op, 2), vec(op, 5), I(op, 8));
        j.raw("a", ints(op, 2, 5)).raw("e", ints(op, 5, 8)).i("w", I(op, 8));
      } else if (o == "rot") {
        // op: rot c ax1 ax2 ax3 sg1 sg2 sg3 t
        NDTCell::Transform t = NDTCell::Transform::Identity();
        Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
        for (int i = 0; i < 3; ++i) m(i, I(op, 2 + i) - 1) = I(op, 5 + i);
        t.linear() = m;
        t.translation() = vec(op, 8);
        c.transform(t);
        j.raw("ax", ints(op, 2, 5)).raw("sg", ints(op, 5, 8)).raw("t", ints(op, 8, 11));
      } else if (o == "setocc") {
        c.setOccupancy(int8_t(I(op, 2)));
        j.i("v", I(op, 2));
      } else if (o == "copy") {
        size_t d = I(op, 2) - 1;
        NDTCell tmp(cells.at(d));
        c = tmp;
        pend[k] = pend[d];
        j.i("d", d + 1);
      } else if (o == "ser") {
        NDTCellMsg m = c.serialize();
        NDTCell copy(c);
        copy.setMean(Eigen::Vector3d(1, 2, 3));
        copy.setCentroid(Eigen::Vector3d(4, 5, 6));
        j.b("same", m.mean_ == c.getMean() && m.cov_ == c.getCov() && m.occupancy_ == double(c.getOccupancyRaw()) &&
                        m.points_ == long(c.points()) && copy.getMean() == Eigen::Vector3d(1, 2, 3) &&
                        copy.getCentroid() == Eigen::Vector3d(4, 5, 6));
      } else {
        std::fprintf(stderr, "unknown op %s\n", o.c_str());
        std::exit(3);
      }
    }
    std::vector<std::string> all;
    for (auto &c : cells) all.push_back(project(c));
    j.raw("cells", Json::list(all));
  });
}
