// Drives the lookup table and the correlative search through their public interfaces, on points at the centres of the
// cells. Positions are logged in cells, or thousandths of a cell.
#include "common.h"
#include <pcl/point_types.h>
#include <ndt_gslam/registration/correlative_estimation2d.h>
using namespace vf;
typedef pcl::PointXYZ P;
typedef pcl::PointCloud<P> Cloud;
static float Step = 0.25;
static Cloud cells(const Op &op, size_t at, std::vector<std::string> &seen)
{
  Cloud c;
  for (size_t i = at; i + 1 < op.size(); i += 2) {
    c.push_back(P(I(op, i) * Step, I(op, i + 1) * Step, 0));
    seen.push_back("[" + op[i] + "," + op[i + 1] + "]");
  }
  return c;
}
static std::string milli(const Cloud &c)
{
  std::vector<std::string> r;
  for (auto &p : c.points) r.push_back(Json::list(std::vector<long long>{scaled(p.x / Step, 1000), scaled(p.y / Step, 1000)}));
  return Json::list(r);
}
typedef pcl::CorrelativeEstimation<P, P> Search;
static std::string pose(const Eigen::Matrix4f &f)
{
  Eigen::Matrix4d m = f.cast<double>();
  return Json::list(std::vector<long long>{scaled(m(0, 3) / Step, 1000), scaled(m(1, 3) / Step, 1000), scaled(std::atan2(m(1, 0), m(0, 0)), 1e6)});
}
static Eigen::Matrix4f mat(double x, double y, double a)
{
  Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
  m(0, 0) = m(1, 1) = std::cos(a), m(0, 1) = -std::sin(a), m(1, 0) = std::sin(a), m(0, 3) = x, m(1, 3) = y;
  return m;
}
static Eigen::Matrix4f back(const Eigen::Matrix4f &m) { return Eigen::Matrix4f(m.cast<double>().inverse().cast<float>()); }

int main(int argc, char **argv)
{
  std::cerr.setstate(std::ios_base::failbit);
  std::unique_ptr<pcl::ml_corr::LookUpTable<P>> table(new pcl::ml_corr::LookUpTable<P>());
  std::unique_ptr<Search> search(new Search());
  Cloud::Ptr target(new Cloud());
  return run(argc, argv, [&](const Op &op, Json &j) {
    const std::string &o = op[0];
    std::vector<std::string> seen;
    auto units = [&](double s, size_t n) { return scaled(s * 100 * (n ? n : 1), 1); };
    if (o == "reset") {
      table.reset(new pcl::ml_corr::LookUpTable<P>());
      search.reset(new Search());
      target.reset(new Cloud());
      Step = 0.25;
    } else if (o == "nop") {
      target.reset(new Cloud());
      table->initGrid(*target, Step, 0.5);
    } else if (o == "table") {
      // cell size in quarters, deviation in eighths, cells
      Step = I(op, 1) * 0.25f;
      target.reset(new Cloud(cells(op, 3, seen)));
      table->initGrid(*target, Step, I(op, 2) / 8.f);
      j.raw("target", Json::list(seen));
    } else if (o == "score") {
      Cloud c = cells(op, 3, seen), m;
      int dx = I(op, 1), dy = I(op, 2);
      pcl::ml_corr::translatePointCloud(c, m, dx * Step, dy * Step);
      auto idx = table->toIndexes(c), by = idx;
      table->transformIndexes(idx, by, dx * Step, dy * Step);
      size_t n = target->size();
      j.raw("cloud", Json::list(seen)).raw("v", Json::list(std::vector<int>{dx, dy}));
      j.i("direct", units(table->getScore(m), n)).i("index", units(table->getScore(by), n));
      table->moveIndexes(idx, dx, 0);
      j.i("along", units(table->getScore(idx), n));
    } else if (o == "blur" || o == "twice") {
      // one point, or two; far corners keep it off the edges
      pcl::ml_corr::LookUpTable<P> a, b, both;
      float s = I(op, 1) * 0.25f, dev = I(op, 2) / 8.f;
      Cloud t, u;
      for (int x : {-60, 60})
        for (int y : {-60, 60}) t.push_back(P(x * s, y * s, 0));
      u = t;
      t.push_back(P(I(op, 3) * s, I(op, 4) * s, 0));
      a.initGrid(t, s, dev);
      auto one = [&](const pcl::ml_corr::LookUpTable<P> &k, int i, int jj, int n, bool index) {
        Cloud c;
        c.push_back(P((I(op, 3) + i) * s, (I(op, 4) + jj) * s, 0));
        return scaled((index ? k.getScore(k.toIndexes(c)) : k.getScore(c)) * 100 * n, 1);
      };
      int n = 8;
      if (o == "blur") {
        j.i("n", n);
        for (bool index : {false, true}) {
          std::vector<std::string> rows;
          for (int i = -n; i <= n; ++i) {
            std::vector<long long> r;
            for (int k = -n; k <= n; ++k) r.push_back(one(a, i, k, 5, index));
            rows.push_back(Json::list(r));
          }
          j.raw(index ? "index" : "direct", Json::list(rows));
        }
      } else {
        P q((I(op, 3) + I(op, 5)) * s, (I(op, 4) + I(op, 6)) * s, 0);
        u.push_back(q), t.push_back(q);
        b.initGrid(u, s, dev), both.initGrid(t, s, dev);
        std::vector<long long> x, y, z;
        for (int i = -n; i <= n; ++i)
          for (int k = -n; k <= n; ++k) x.push_back(one(a, i, k, 5, true)), y.push_back(one(b, i, k, 5, true)), z.push_back(one(both, i, k, 6, true));
        j.arr("one", x).arr("two", y).arr("both", z);
      }
    } else if (o == "kernel") {
      pcl::ml_corr::SmoothingKernel k(I(op, 1) / 8.f, I(op, 2) / 8.f, I(op, 3));
      std::vector<int> v, w;
      for (int i = 0; i < k.size() * k.size(); ++i) v.push_back(k[i]);
      for (int r = -k.halfSize(); r <= k.halfSize(); ++r)
        for (int c = -k.halfSize(); c <= k.halfSize(); ++c) w.push_back(k(r, c));
      j.i("res", I(op, 1)).i("sigma", I(op, 2)).i("occ", I(op, 3)).i("size", k.size()).i("half", k.halfSize()).arr("k", v).arr("at", w);
    } else if (o == "search" || o == "turned") {
      // range, threads, guess x y k, (planted dx dy, rotation in fifths of a radian) cells
      int r = I(op, 1);
      Eigen::Matrix4f guess = mat(I(op, 3) * Step, I(op, 4) * Step, I(op, 5) * M_PI / 2);
      search->setCoarseStep(Step);
      search->setTranslationRange(r * Step);
      search->setRotationRange(o == "search" ? 1e-4 : 0.4);
      search->enableMultithreading(I(op, 2));
      Cloud::Ptr src(new Cloud(cells(op, o == "search" ? 6 : 9, seen)));
      if (o == "turned") {
        // guess and then the planted motion lead to the target
        Eigen::Matrix4f t = back(mat(I(op, 6) * Step, I(op, 7) * Step, I(op, 8) * 0.2) * guess);
        src->clear();
        pcl::transformPointCloud(*target, *src, t);
      }
      search->setInputSource(src);
      search->setInputTarget(target);
      Cloud out, by;
      search->align(out, guess);
      Eigen::Matrix4f f = search->getFinalTransformation();
      pcl::transformPointCloud(*src, by, f);
      j.b("ok", search->hasConverged()).i("r", r).raw("cloud", Json::list(seen));
      j.raw("guess", "[" + op[3] + "," + op[4] + "," + op[5] + "]");
      j.raw("delta", pose(Eigen::Matrix4f((f.cast<double>() * guess.cast<double>().inverse()).cast<float>()))).raw("out", milli(out)).raw("by", milli(by));
    } else
      std::exit(3);
  });
}
