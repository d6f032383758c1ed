#pragma once
#include <Eigen/Dense>
#include <Eigen/StdVector>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cstdint>
#include <string>
#include <vector>
namespace pcl {
struct PCLHeader { uint32_t seq = 0; uint64_t stamp = 0; std::string frame_id; };
template <typename PointT> class PointCloud {
public:
  typedef PointT PointType;
  typedef std::vector<PointT> VectorType;
  typedef boost::shared_ptr<PointCloud<PointT>> Ptr;
  typedef boost::shared_ptr<const PointCloud<PointT>> ConstPtr;
  typedef typename VectorType::iterator iterator;
  typedef typename VectorType::const_iterator const_iterator;
  PCLHeader header;
  VectorType points;
  uint32_t width = 0, height = 0;
  bool is_dense = true;
  Eigen::Vector4f sensor_origin_ = Eigen::Vector4f::Zero();
  Eigen::Quaternionf sensor_orientation_ = Eigen::Quaternionf::Identity();
  PointCloud() {}
  PointCloud(uint32_t w, uint32_t h, const PointT &v = PointT()) : points(size_t(w) * h, v), width(w), height(h) {}
  PointCloud &operator+=(const PointCloud &o)
  {
    points.insert(points.end(), o.points.begin(), o.points.end());
    width = points.size(); height = 1; is_dense = is_dense && o.is_dense;
    return *this;
  }
  PointCloud operator+(const PointCloud &o) const { PointCloud r(*this); r += o; return r; }
  const PointT &at(size_t i) const { return points.at(i); }
  PointT &at(size_t i) { return points.at(i); }
  const PointT &operator[](size_t i) const { return points[i]; }
  PointT &operator[](size_t i) { return points[i]; }
  PointT &front() { return points.front(); }
  PointT &back() { return points.back(); }
  const PointT &front() const { return points.front(); }
  const PointT &back() const { return points.back(); }
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  const_iterator cbegin() const { return points.begin(); }
  const_iterator cend() const { return points.end(); }
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n) { points.resize(n); if (size_t(width) * height != n) { width = n; height = 1; } }
  void push_back(const PointT &p) { points.push_back(p); width = points.size(); height = 1; }
  template <class... A> void emplace_back(A &&... a) { points.emplace_back(std::forward<A>(a)...); width = points.size(); height = 1; }
  iterator insert(iterator pos, const PointT &p) { auto r = points.insert(pos, p); width = points.size(); height = 1; return r; }
  template <class It> void insert(iterator pos, It a, It b) { points.insert(pos, a, b); width = points.size(); height = 1; }
  iterator erase(iterator pos) { auto r = points.erase(pos); width = points.size(); height = 1; return r; }
  iterator erase(iterator a, iterator b) { auto r = points.erase(a, b); width = points.size(); height = 1; return r; }
  void swap(PointCloud &o) { std::swap(*this, o); }
  void clear() { points.clear(); width = height = 0; }
  bool isOrganized() const { return height > 1; }
  Ptr makeShared() const { return Ptr(new PointCloud(*this)); }
};
}
