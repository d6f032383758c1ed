#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <cstdint>
#include <ostream>
namespace pcl {
struct PointXYZ {
  union { float data[4]; struct { float x, y, z; }; };
  PointXYZ() : data{0, 0, 0, 1} {}
  PointXYZ(float x_, float y_, float z_) : data{x_, y_, z_, 1} {}
  Eigen::Map<Eigen::Vector3f> getVector3fMap() { return Eigen::Map<Eigen::Vector3f>(data); }
  Eigen::Map<const Eigen::Vector3f> getVector3fMap() const { return Eigen::Map<const Eigen::Vector3f>(data); }
  Eigen::Map<Eigen::Vector4f> getVector4fMap() { return Eigen::Map<Eigen::Vector4f>(data); }
  Eigen::Map<const Eigen::Vector4f> getVector4fMap() const { return Eigen::Map<const Eigen::Vector4f>(data); }
  Eigen::Map<Eigen::Array3f> getArray3fMap() { return Eigen::Map<Eigen::Array3f>(data); }
};
struct PointXYZRGB : PointXYZ {
  uint8_t r, g, b;
  PointXYZRGB() : r(0), g(0), b(0) {}
  PointXYZRGB(uint8_t r_, uint8_t g_, uint8_t b_) : r(r_), g(g_), b(b_) {}
};
struct PointXYZI : PointXYZ { float intensity = 0; };
inline std::ostream &operator<<(std::ostream &os, const PointXYZ &p) { return os << "(" << p.x << "," << p.y << "," << p.z << ")"; }
template <typename P> inline bool isFinite(const P &p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
}
