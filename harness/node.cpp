// Runs the node's own main() over ROS shims: a master, a tree of frames and a scripted algorithm.
// Compiled with -I harness/node, where the algorithm is replaced.
#include "common.h"
#include <condition_variable>
#include <mutex>
#include <thread>
#define main node_main
#include <../src/graph_slam2d_node.cpp>
#undef main
using namespace vf;
static const double Unit = 0.05, Milli = 1000 / Unit;
typedef Eigen::Matrix3d Mat;

static Mat mat(double x, double y, double a)
{
  Mat m;
  m << std::cos(a), -std::sin(a), x, std::sin(a), std::cos(a), y, 0, 0, 1;
  return m;
}
static double angle(long n, long k) { return n * std::atan2(3., 4.) + k * M_PI / 2; }
static std::string lattice(const Mat &m)
{
  return Json::list(std::vector<long long>{scaled(m(0, 2), Milli), scaled(m(1, 2), Milli), scaled(std::atan2(m(1, 0), m(0, 0)), 1e6)});
}
// planar?
static bool flat(const tf::Transform &t)
{
  auto &b = t.getBasis().m;
  return std::abs(t.getOrigin().z()) < 1e-9 && (b * b.transpose() - Mat::Identity()).norm() < 1e-6 && std::abs(b(2, 2) - 1) < 1e-6;
}
static Mat planar(const tf::Transform &t)
{
  auto &b = t.getBasis().m;
  Mat m;
  m << b(0, 0), b(0, 1), t.getOrigin().x(), b(1, 0), b(1, 1), t.getOrigin().y(), 0, 0, 1;
  return m;
}
static tf::Transform tfOf(double x, double y, double a, double z = 0, bool upside = false)
{
  tf::Quaternion q;
  q.setRPY(upside ? M_PI : 0, 0, a);
  return tf::Transform(q, tf::Vector3(x, y, z));
}
// ---- the node lives in a thread of its own, which handles what it is given while it spins
static std::mutex mx;
static std::condition_variable cv;
static std::function<void()> task;
static bool spinning = false, leave = false, ended = true;
static std::thread node;
static void spin()
{
  std::unique_lock<std::mutex> l(mx);
  spinning = true;
  cv.notify_all();
  while (!leave) {
    cv.wait(l, [] { return task || leave; });
    if (task) task(), task = nullptr, cv.notify_all();
  }
  spinning = false;
}
static void give(const std::function<void()> &f)
{
  std::unique_lock<std::mutex> l(mx);
  task = f;
  cv.notify_all();
  cv.wait(l, [] { return !task || ended; });
}
static void stop()
{
  if (!node.joinable()) return;
  {
    std::unique_lock<std::mutex> l(mx);
    leave = true;
    cv.notify_all();
  }
  node.join();
  leave = false;
}
static std::string base, odomf, laserf = "laser";
static std::string quoted(const std::vector<std::string> &v)
{
  std::vector<std::string> r;
  for (auto &s : v) r.push_back(Json::str(s));
  return Json::list(r);
}

int main(int argc, char **argv)
{
  int rc = run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    auto &ms = ros::master();
    if (o == "reset") {
      stop();
      ms = ros::Master();
      tf::tree() = tf::Tree();
      script() = Script();
    } else if (o == "start") {
      // namespace of the node ("-": none), then name=value ("~": private); strings as they are, numbers in eighths
      ms.node_ns = op[1] == "-" ? "" : "/" + op[1];
      std::vector<std::string> given;
      base = "base_link", odomf = "odom";
      for (size_t i = 2; i + 2 < op.size(); i += 3) {
        const std::string &type = op[i], &name = op[i + 1], &v = op[i + 2];
        std::string full = name[0] == '~' ? ms.node_ns + "/graph_slam/" + name.substr(1) : name;
        if (type == "s") ms.params[full] = v;
        else if (type == "d") ms.params[full] = I(op, i + 2) / 8.0;
        else if (type == "b") ms.params[full] = bool(I(op, i + 2));
        if (type == "frames") base = name, odomf = v;     // names of the robot's frames in the tree
        else given.push_back("[" + Json::str(name) + "," + (type == "s" ? Json::str(v) : v) + "]");
      }
      ms.on_spin = spin;
      ended = false;
      node = std::thread([] {
        char n[] = "node", *a[] = {n, nullptr};
        node_main(1, a);
        std::unique_lock<std::mutex> l(mx);
        ended = true;
        cv.notify_all();
      });
      {
        std::unique_lock<std::mutex> l(mx);
        cv.wait(l, [] { return spinning || ended; });
      }
      j.s("ns", ms.node_ns).s("base", base).s("odomf", odomf).raw("params", Json::list(given));
      j.b("alive", !ended);
      j.raw("ads", quoted(ms.advertised)).raw("subs", quoted(ms.subscribed));
      auto &s = script();
      j.i("radius", scaled(s.radius, 8)).i("gen", scaled(s.gen, 8)).i("max", scaled(s.max, 8)).i("min", scaled(s.min, 8)).i("score", scaled(s.score, 1000));
    } else if (o == "mount") {
      // pose of the laser on the robot, in units; turned upside down; z
      tf::tree().edges.push_back({base, laserf, ros::Time(), tfOf(I(op, 1) * Unit, I(op, 2) * Unit, I(op, 3) * M_PI / 2, 0.3, I(op, 4)), true, false});
      j.raw("m", "[" + op[1] + "," + op[2] + ",0," + op[3] + "]").b("upside", I(op, 4));
    } else if (o == "odom") {
      // time, pose of the robot in the odometry frame, late?
      tf::tree().edges.push_back({odomf, base, ros::Time(I(op, 1), 0), tfOf(I(op, 2) * Unit, I(op, 3) * Unit, angle(I(op, 4), I(op, 5))), false, bool(I(op, 6))});
      j.i("t", I(op, 1)).raw("m", "[" + op[2] + "," + op[3] + "," + op[4] + "," + op[5] + "]");
    } else if (o == "msg") {
      // times of odometry, pose, laser; tag of covariances; answer of the algorithm x y n k; laser frame known;
      // laser first; beams: direction range count ...
      auto od = boost::make_shared<nav_msgs::Odometry>();
      auto po = boost::make_shared<geometry_msgs::PoseWithCovarianceStamped>();
      auto la = boost::make_shared<sensor_msgs::LaserScan>();
      od->header.stamp = ros::Time(I(op, 1), 0), po->header.stamp = ros::Time(I(op, 2), 0), la->header.stamp = ros::Time(I(op, 3), 0);
      long tag = I(op, 4);
      for (int i = 0; i < 36; ++i) od->pose.covariance[i] = tag + i, po->pose.covariance[i] = tag + 100 + i;
      script().answer << I(op, 5) * Unit, I(op, 6) * Unit, std::remainder(angle(I(op, 7), I(op, 8)), 2 * M_PI);
      la->header.frame_id = I(op, 9) ? laserf : "nowhere";
      od->header.frame_id = odomf, od->child_frame_id = base;
      po->header.frame_id = odomf;
      la->angle_increment = M_PI / 2, la->range_min = 1 * Unit - 0.001, la->range_max = 100 * Unit + 0.001;
      // beams go round in quarter turns; those in between see nothing
      std::vector<std::string> rays;
      size_t at = 0;
      for (size_t i = 11; i + 2 < op.size(); i += 3) {
        for (long c = 0; c < I(op, i + 2); ++c) {
          while (long(at % 4) != I(op, i)) la->ranges.push_back(at % 3 ? INFINITY : 0), ++at;
          la->ranges.push_back(I(op, i + 1) * Unit), ++at;
        }
        rays.push_back(Json::list(std::vector<long long>{I(op, i), I(op, i + 1), I(op, i + 2)}));
      }
      la->angle_max = la->angle_increment * la->ranges.size();
      la->intensities.assign(la->ranges.size(), 1);
      const std::string ns = ms.node_ns;
      bool first = I(op, 10);
      script().told.clear();
      tf::tree().sent.clear();
      ms.published.clear();
      give([&] {
        // what is sent comes on every topic anybody could listen to
        if (first) ms.deliver<sensor_msgs::LaserScan>("/scan", la);
        ms.deliver<nav_msgs::Odometry>(ns + "/odom", od);
        ms.deliver<geometry_msgs::PoseWithCovarianceStamped>(ns + "/pose", po);
        if (!first) ms.deliver<sensor_msgs::LaserScan>("/scan", la);
      });
      j.i("to", I(op, 1)).i("tp", I(op, 2)).i("tl", I(op, 3)).i("tag", tag).b("known", I(op, 9));
      j.raw("ans", "[" + op[5] + "," + op[6] + "," + op[7] + "," + op[8] + "]").raw("rays", Json::list(rays));
      std::vector<std::string> ups, tfs, pubs;
      for (auto &t : script().told) {
        Json u;
        u.raw("motion", lattice(t.motion)).i("t", scaled(t.time.toSec(), 1)).raw("rigid", std::abs(t.motion.determinant() - 1) < 1e-6 ? "true" : "false");
        std::vector<long long> c;
        for (int i = 0; i < 9; ++i) c.push_back(scaled(t.covar(i / 3, i % 3), 10000));
        u.raw("cov", Json::list(c));
        std::map<std::pair<long long, long long>, long> pts;
        for (auto &p : t.cloud.points) ++pts[{scaled(p.x, 10 / Unit), scaled(p.y, 10 / Unit)}];
        std::vector<std::string> ps;
        for (auto &p : pts) ps.push_back(Json::list(std::vector<long long>{p.first.first, p.first.second, p.second}));
        u.raw("cloud", Json::list(ps));
        ups.push_back(u.done());
      }
      for (auto &t : tf::tree().sent) {
        Json u;
        u.s("from", t.frame_id_).s("to", t.child_frame_id_).i("t", scaled(t.stamp_.toSec(), 1)).b("flat", flat(t)).raw("v", lattice(planar(t)));
        tfs.push_back(u.done());
      }
      for (auto &p : ms.published) {
        Json u;
        std::string frame;
        long serial = -1, kind = 0;
        if (auto m = std::any_cast<nav_msgs::OccupancyGrid>(&p.second)) frame = m->header.frame_id, serial = m->info.width, kind = 1;
        if (auto m = std::any_cast<ndt_gslam::NDTMapMsg>(&p.second)) frame = m->header.frame_id, serial = m->header.seq, kind = 2;
        if (auto m = std::any_cast<visualization_msgs::MarkerArray>(&p.second)) frame = m->markers.at(0).header.frame_id, serial = m->markers[0].id, kind = 3;
        if (auto m = std::any_cast<pcl::PointCloud<pcl::PointXYZ>>(&p.second)) frame = m->header.frame_id, serial = m->header.seq, kind = 3 + m->width;
        u.s("topic", p.first).s("frame", frame).i("serial", serial).i("kind", kind);
        pubs.push_back(u.done());
      }
      j.raw("updates", Json::list(ups)).raw("tfs", Json::list(tfs)).raw("pubs", Json::list(pubs)).b("alive", !ended);
    } else
      std::exit(3);
  });
  stop();
  return rc;
}
