// Drives slamuk::NDTMapper. Frames live in registers; a grid of our own (`twin`) is given every merge the mapper
// is specified to make, so that the specification can judge each of them.
#include "grid_common.h"
#include <ndt_gslam/ndt/ndt_mapper.h>
typedef NDTMapper<NDTCell, pcl::PointXYZ> Mapper;
static std::unique_ptr<Mapper> m;
static Grid::Ptr twin;
static std::vector<std::pair<double, size_t>> order;   // frames of the mapper
static std::string lastMsg, lastTwin;

static std::string message()
{
  nav_msgs::OccupancyGrid o = m->calcOccupancyGridMsg();
  Json j;
  double a = 2 * std::atan2(o.info.origin.orientation.z, o.info.origin.orientation.w);
  j.i("w", o.info.width).i("h", o.info.height).i("res", vf::scaled(o.info.resolution, M));
  j.raw("corner", poseOf(Eigen::Vector3d(o.info.origin.position.x, o.info.origin.position.y, std::atan2(std::sin(a), std::cos(a)))));
  j.i("load", vf::scaled(o.info.map_load_time.toSec(), 1));
  j.raw("data", Json::list(std::vector<int>(o.data.begin(), o.data.end())));
  j.raw("pcl", points(*m->getPclMap()));
  return j.done();
}

int main(int argc, char **argv)
{
  const size_t num = 4;
  std::cerr.setstate(std::ios_base::failbit);
  return vf::run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    if (o == "reset") {
      g.clear();
      last.clear();
      order.clear();
      m.reset(new Mapper());
      twin = Grid(Eigen::Vector3d(0, 0, 0)).makeShared();
      for (size_t i = 0; i < num; ++i) {
        g.push_back(Grid().makeShared());
        last.push_back(project(*g[i]));
      }
      lastTwin = project(*twin);
      lastMsg = message();
      j.raw("msg", "[" + lastMsg + "]");
      return;
    }
    size_t i = I(op, 1) - 1;
    std::string pts;
    std::vector<std::string> steps;
    auto merge = [&](size_t k) {
      twin->mergeInTraced(*g.at(k), true, true);
      std::string p = project(*twin);
      steps.push_back("{\"i\":" + std::to_string(k + 1) + ",\"g\":" + p + "}");
    };
    auto find = [&](size_t k) {
      return std::find_if(order.begin(), order.end(), [&](const std::pair<double, size_t> &e) { return e.second == k; });
    };
    j.i("i", i + 1);
    if (o == "new") {
      if (find(i) != order.end()) std::exit(3);
      g[i] = Grid(pose(op, 2), double(I(op, 6))).makeShared();
      j.raw("o", ints(op, 2, 6)).i("ts", I(op, 6));
    } else if (o == "scan") {
      auto c = cloud(op, 8, pts);
      j.raw("inc", batch(c, pose(op, 4), g[i]->getOrigin()));
      if (I(op, 2)) g[i]->mergeInTraced(c, pose(op, 4), I(op, 3));
      else g[i]->mergeIn(c, pose(op, 4), I(op, 3));
      j.b("traced", I(op, 2)).b("resize", I(op, 3)).raw("o", ints(op, 4, 8)).raw("pts", pts);
    } else if (o == "add") {
      long t = I(op, 2);
      merge(i);
      Grid::Ptr p = g[i];
      if (I(op, 3)) m->addFrame(std::move(p), ros::Time(double(t)));
      else m->addFrame(p, ros::Time(double(t)));
      order.push_back({double(t), i});
      j.i("t", t);
    } else if (o == "remove" || o == "update" || o == "combine") {
      bool threw = false;
      size_t k = o == "combine" ? I(op, 2) - 1 : i, got = 0;
      try {
        if (o == "remove") m->removeFrame(g[i]);
        else if (o == "update") m->updateFrame(g[i], pose(op, 2));
        else {
          auto r = m->combineFrames(g[i], g[k]);
          for (size_t x = 0; x < num; ++x) if (g[x] == r) got = x + 1;
        }
      } catch (const std::invalid_argument &) {
        threw = true;
      }
      auto it = find(k);
      if (o == "combine" && find(i) != order.end() && it != order.end()) find(i)->first = it->first;
      if (o != "update" && it != order.end() && (o == "remove" || find(i) != order.end())) order.erase(it);
      j.b("threw", threw).i("j", k + 1).i("got", got);
      if (o == "update") j.raw("o", ints(op, 2, 6));
    } else if (o == "recalc") {
      m->recalc(ros::Time(double(I(op, 1))));
      twin->clear();
      std::sort(order.begin(), order.end());
      for (auto &e : order) merge(e.second);
      j.i("t", I(op, 1));
    } else {
      std::fprintf(stderr, "unknown op %s\n", o.c_str());
      std::exit(3);
    }
    std::vector<std::string> chg;
    for (size_t k = 0; k < num; ++k) {
      std::string p = project(*g[k]);
      if (p == last[k]) continue;
      last[k] = p;
      chg.push_back("{\"i\":" + std::to_string(k + 1) + ",\"g\":" + p + "}");
    }
    j.raw("chg", Json::list(chg)).raw("steps", Json::list(steps));
    std::string s = message();
    j.raw("msg", s == lastMsg ? "[]" : "[" + s + "]");
    lastMsg = s;
  });
}
