// Drives slamuk::NDTGrid2D<NDTCell, pcl::PointXYZ>. Lengths are ticks of 1/64 m; a cell is 16 ticks wide.
// Observes grids through the public interface only.
#include "grid_common.h"

int main(int argc, char **argv)
{
  const size_t num = 3;
  std::cerr.setstate(std::ios_base::failbit);
  return vf::run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    if (o == "reset") {
      g.clear();
      last.clear();
      for (size_t i = 0; i < num; ++i) {
        g.push_back(Grid().makeShared());
        last.push_back(project(*g[i]));
      }
      return;
    }
    size_t i = I(op, 1) - 1;
    Grid &a = *g.at(i);
    j.i("i", i + 1);
    std::string pts;
    if (o == "new") {
      g[i] = Grid(pose(op, 2), double(I(op, 6))).makeShared();
      j.raw("o", ints(op, 2, 6)).i("ts", I(op, 6));
    } else if (o == "init") {
      auto c = cloud(op, 3, pts);
      j.raw("inc", batch(c, Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero()));
      if (I(op, 2)) a.initialize(c); else a.initializeSimple(c);
      j.b("traced", I(op, 2)).raw("pts", pts);
    } else if (o == "scan") {
      auto c = cloud(op, 8, pts);
      j.raw("inc", batch(c, pose(op, 4), a.getOrigin()));
      if (I(op, 2)) a.mergeInTraced(c, pose(op, 4), I(op, 3));
      else a.mergeIn(c, pose(op, 4), I(op, 3));
      j.b("traced", I(op, 2)).b("resize", I(op, 3)).raw("o", ints(op, 4, 8)).raw("pts", pts);
    } else if (o == "merge") {
      size_t k = I(op, 2) - 1;
      if (I(op, 3)) a.mergeInTraced(*g.at(k), I(op, 4), I(op, 5));
      else a.mergeIn(*g.at(k), bool(I(op, 4)), bool(I(op, 5)));
      j.i("j", k + 1).b("traced", I(op, 3)).b("transform", I(op, 4)).b("resize", I(op, 5));
    } else if (o == "enlarge") {
      a.enlarge(I(op, 2) / Q, I(op, 3) / Q, I(op, 4) / Q, I(op, 5) / Q);
      j.raw("a", ints(op, 2, 6));
    } else if (o == "transform") {
      a.transform(eigt::getTransFromPose(pose(op, 2)));
      j.raw("t", ints(op, 2, 6));
    } else if (o == "move") {
      auto r = a.move(eigt::getTransFromPose(pose(op, 2)));
      j.raw("t", ints(op, 2, 6)).raw("rest", poseOf(eigt::getPoseFromTransform(r)));
    } else if (o == "setorigin") {
      a.setOrigin(pose(op, 2));
      j.raw("o", ints(op, 2, 6));
    } else if (o == "clear") {
      a.clear();
    } else if (o == "copy") {
      size_t k = I(op, 2) - 1;
      g[i] = g.at(k)->makeShared();
      j.i("j", k + 1);
    } else if (o == "neigh") {
      auto r = a.getNeighbors(Eigen::Vector2d(I(op, 2) / Q, I(op, 3) / Q), I(op, 4) / Q);
      j.raw("p", ints(op, 2, 4)).i("r", I(op, 4)).raw("res", indices(a, r));
    } else if (o == "knn") {
      j.raw("p", ints(op, 2, 4)).i("k", I(op, 4));
      if (nearBorder(a)) j.raw("res", "[]");
      else j.raw("res", indices(a, a.getKNearestNeighbors(Eigen::Vector2d(I(op, 2) / Q, I(op, 3) / Q), I(op, 4))));
    } else if (o == "occ") {
      OccupancyGrid m = a.createOccupancyGrid();
      j.raw("corner", poseOf(m.origin_)).i("w", m.width_).i("h", m.height_).i("res", vf::scaled(m.resolution_, M));
      j.raw("data", Json::list(std::vector<int>(m.cells_.begin(), m.cells_.end())));
    } else if (o == "ser") {
      NDTGridMsg m = a.serialize();
      Grid::PointCloud c;
      for (auto *p : a.getGaussianCells()) {
        bool hit = false;
        for (auto &e : m.cells_)
          if (e.mean_ == p->getMean() && e.cov_ == p->getCov() && e.points_ == long(p->points()) &&
              e.occupancy_ == double(p->getOccupancyRaw())) hit = true;
        if (hit) c.push_back(pcl::PointXYZ(p->getMean()(0), p->getMean()(1), 0));
      }
      j.raw("corner", poseOf(m.origin_)).i("count", m.cells_.size()).raw("means", points(c));
      j.arr("size", std::vector<long long>{vf::exact(m.size_(0) / m.cell_sizes_(0), 1), vf::exact(m.size_(1) / m.cell_sizes_(1), 1)});
    } else if (o == "means") {
      j.raw("means", points(*a.getMeans())).raw("world", points(*a.getMeansTransformed()));
    } else if (o == "coarse") {
      long f = I(op, 2);
      auto c = a.createCoarserGrid(f * CS);
      View v = view(c);
      std::vector<std::string> r;
      for (auto &at : v.at) {
        const NDTCell &x = cellAt(c, v, at);
        Json e;
        std::vector<long long> d(7, 0);
        if (x.hasGaussian()) { d.clear(); dist(d, x); }
        e.i("cx", at.first).i("cy", at.second).b("g", x.hasGaussian()).i("n", d[0]).i("mx", d[1]).i("my", d[2]);
        e.arr("S", std::vector<long long>(d.begin() + 3, d.begin() + 6));
        r.push_back(e.done());
      }
      j.i("f", f).raw("cells", Json::list(r));
    } else {
      std::fprintf(stderr, "unknown op %s\n", o.c_str());
      std::exit(3);
    }
    std::vector<std::string> chg;
    for (size_t k = 0; k < num; ++k) {
      std::string p = project(*g[k]);
      if (p == last[k]) continue;
      last[k] = p;
      chg.push_back("{\"i\":" + std::to_string(k + 1) + ",\"g\":" + p + "}");
    }
    j.raw("chg", Json::list(chg));
  });
}
