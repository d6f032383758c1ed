#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
namespace pcl {
// brute force with the contract of pcl::KdTreeFLANN: results sorted by squared distance; a search in a
// tree that was never built dereferences a null index in PCL, here it aborts
template <typename P> class KdTreeFLANN {
public:
  typedef typename PointCloud<P>::ConstPtr PointCloudConstPtr;
  typedef boost::shared_ptr<std::vector<int>> IndicesPtr;
  typedef boost::shared_ptr<const std::vector<int>> IndicesConstPtr;
  typedef boost::shared_ptr<KdTreeFLANN<P>> Ptr;
  typedef boost::shared_ptr<const KdTreeFLANN<P>> ConstPtr;
  KdTreeFLANN(bool sorted = true) : sorted_(sorted) {}
  void setInputCloud(const PointCloudConstPtr &c, const IndicesConstPtr &idx = IndicesConstPtr())
  {
    cloud_ = c;
    pts_.clear(); map_.clear();
    if (!c) return;
    for (size_t i = 0; i < (idx ? idx->size() : c->size()); ++i) {
      int k = idx ? (*idx)[i] : int(i);
      const P &p = c->points[k];
      if (!(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z))) continue;
      pts_.push_back(p);
      map_.push_back(k);
    }
    if (!pts_.empty()) built_ = true;
  }
  PointCloudConstPtr getInputCloud() const { return cloud_; }
  int nearestKSearch(const P &p, int k, std::vector<int> &ind, std::vector<float> &d) const
  {
    if (k > int(pts_.size())) k = pts_.size();
    if (!built_) { std::fprintf(stderr, "KdTreeFLANN: search without a tree\n"); std::abort(); }
    auto all = sorted(p);
    ind.resize(k); d.resize(k);
    for (int i = 0; i < k; ++i) { ind[i] = all[i].second; d[i] = all[i].first; }
    return k;
  }
  int nearestKSearch(const PointCloud<P> &c, int i, int k, std::vector<int> &ind, std::vector<float> &d) const { return nearestKSearch(c.points.at(i), k, ind, d); }
  int nearestKSearch(int i, int k, std::vector<int> &ind, std::vector<float> &d) const { return nearestKSearch(cloud_->points.at(i), k, ind, d); }
  int radiusSearch(const P &p, double r, std::vector<int> &ind, std::vector<float> &d, unsigned max_nn = 0) const
  {
    if (!built_) { std::fprintf(stderr, "KdTreeFLANN: search without a tree\n"); std::abort(); }
    ind.clear(); d.clear();
    for (auto &x : sorted(p)) {
      if (x.first > r * r || (max_nn && ind.size() >= max_nn)) break;
      ind.push_back(x.second); d.push_back(x.first);
    }
    return ind.size();
  }
private:
  bool sorted_, built_ = false;
  PointCloudConstPtr cloud_;
  std::vector<P> pts_;
  std::vector<int> map_;
  std::vector<std::pair<float, int>> sorted(const P &p) const
  {
    std::vector<std::pair<float, int>> r;
    for (size_t i = 0; i < pts_.size(); ++i) {
      float dx = pts_[i].x - p.x, dy = pts_[i].y - p.y, dz = pts_[i].z - p.z;
      r.emplace_back(dx * dx + dy * dy + dz * dz, map_[i]);
    }
    std::sort(r.begin(), r.end());
    return r;
  }
};
}
