#pragma once
#include <Eigen/Dense>
#include <geometry_msgs/Pose.h>
#include <ros/ros.h>
namespace tf {
typedef double tfScalar;
struct TransformException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LookupException : TransformException { using TransformException::TransformException; };
struct ExtrapolationException : TransformException { using TransformException::TransformException; };
struct ConnectivityException : TransformException { using TransformException::TransformException; };
// objects are not initialised by the default constructors of tf: here they hold rubbish
class Vector3 {
public:
  Eigen::Vector3d v = Eigen::Vector3d::Constant(7.7e4);
  Vector3() {}
  Vector3(double x, double y, double z) : v(x, y, z) {}
  double x() const { return v(0); }
  double y() const { return v(1); }
  double z() const { return v(2); }
  double getX() const { return v(0); }
  double getY() const { return v(1); }
  double getZ() const { return v(2); }
  void setValue(double x, double y, double z) { v << x, y, z; }
  void setX(double x) { v(0) = x; }
  void setY(double x) { v(1) = x; }
  void setZ(double x) { v(2) = x; }
};
typedef Vector3 Point;
class Quaternion {
public:
  double q[4] = {7.7e4, -7.7e4, 7.7e4, 7.7e4};
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) { setValue(x, y, z, w); }
  Quaternion(const Vector3 &a, double r) { double s = std::sin(r / 2); setValue(a.x() * s, a.y() * s, a.z() * s, std::cos(r / 2)); }
  void setValue(double x, double y, double z, double w) { q[0] = x, q[1] = y, q[2] = z, q[3] = w; }
  void setRPY(double r, double p, double y)
  {
    Eigen::Quaterniond e(Eigen::AngleAxisd(y, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX()));
    setValue(e.x(), e.y(), e.z(), e.w());
  }
  double x() const { return q[0]; }
  double y() const { return q[1]; }
  double z() const { return q[2]; }
  double w() const { return q[3]; }
  double getX() const { return q[0]; }
  double getY() const { return q[1]; }
  double getZ() const { return q[2]; }
  double getW() const { return q[3]; }
  Quaternion normalized() const { double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]); return Quaternion(q[0] / n, q[1] / n, q[2] / n, q[3] / n); }
  Quaternion &normalize() { return *this = normalized(); }
};
class Matrix3x3 {
public:
  Eigen::Matrix3d m = Eigen::Matrix3d::Constant(7.7e4);
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion &q) { setRotation(q); }
  explicit Matrix3x3(const Eigen::Matrix3d &e) : m(e) {}
  // any length of q means the same rotation, as in tf
  void setRotation(const Quaternion &q) { auto n = q.normalized(); m = Eigen::Quaterniond(n.w(), n.x(), n.y(), n.z()).toRotationMatrix(); }
  void getRotation(Quaternion &q) const { Eigen::Quaterniond e(m); q.setValue(e.x(), e.y(), e.z(), e.w()); }
  void setIdentity() { m.setIdentity(); }
  void getRPY(double &r, double &p, double &y) const { y = std::atan2(m(1, 0), m(0, 0)); p = std::asin(-m(2, 0)); r = std::atan2(m(2, 1), m(2, 2)); }
};
class Transform {
  Matrix3x3 b_;
  Vector3 o_;
public:
  Transform() {}
  explicit Transform(const Quaternion &q, const Vector3 &o = Vector3(0, 0, 0)) : b_(q), o_(o) {}
  explicit Transform(const Matrix3x3 &b, const Vector3 &o = Vector3(0, 0, 0)) : b_(b), o_(o) {}
  Vector3 &getOrigin() { return o_; }
  const Vector3 &getOrigin() const { return o_; }
  Matrix3x3 &getBasis() { return b_; }
  const Matrix3x3 &getBasis() const { return b_; }
  Quaternion getRotation() const { Quaternion q; b_.getRotation(q); return q; }
  void setOrigin(const Vector3 &o) { o_ = o; }
  void setBasis(const Matrix3x3 &b) { b_ = b; }
  void setRotation(const Quaternion &q) { b_.setRotation(q); }
  void setIdentity() { b_.setIdentity(); o_ = Vector3(0, 0, 0); }
  static const Transform &getIdentity() { static const Transform t{Quaternion(0, 0, 0, 1)}; return t; }
  Eigen::Affine3d shim() const { Eigen::Affine3d e = Eigen::Affine3d::Identity(); e.linear() = b_.m; e.translation() = o_.v; return e; }
  static Transform shim(const Eigen::Affine3d &e) { Transform t; t.b_.m = e.linear(); t.o_.v = e.translation(); return t; }
  Transform operator*(const Transform &t) const { return shim(shim() * t.shim()); }
  Transform &operator*=(const Transform &t) { return *this = *this * t; }
  Transform inverse() const { return shim(Eigen::Affine3d(shim().inverse())); }
  Transform inverseTimes(const Transform &t) const { return inverse() * t; }
  Vector3 operator*(const Vector3 &p) const { Vector3 r; r.v = shim() * p.v; return r; }
};
typedef Transform Pose;
class StampedTransform : public Transform {
public:
  ros::Time stamp_;
  std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform &t, const ros::Time &s, const std::string &f, const std::string &c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
  void setData(const Transform &t) { *static_cast<Transform *>(this) = t; }
};
inline void poseMsgToTF(const geometry_msgs::Pose &m, Transform &t)
{
  t = Transform(Quaternion(m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w), Vector3(m.position.x, m.position.y, m.position.z));
}
inline Quaternion createQuaternionFromYaw(double y) { return Quaternion(0, 0, std::sin(y / 2), std::cos(y / 2)); }
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline Transform createIdentityTransform() { return Transform::getIdentity(); }
inline double getYaw(const Quaternion &q) { double r, p, y; Matrix3x3(q).getRPY(r, p, y); return y; }
// the tree of frames, and what was sent to it
struct Tree {
  struct Edge { std::string parent, child; ros::Time t; Transform v; bool always, late; };
  std::vector<Edge> edges;
  std::vector<StampedTransform> sent;
  static std::string bare(const std::string &n) { return !n.empty() && n[0] == '/' ? n.substr(1) : n; }
  // pose of source in target
  bool find(const std::string &target, const std::string &source, const ros::Time &t, Eigen::Affine3d &r) const
  {
    std::map<std::string, Eigen::Affine3d> at;
    at[bare(target)] = Eigen::Affine3d::Identity();
    std::vector<std::string> open{bare(target)};
    while (!open.empty()) {
      std::string f = open.back();
      open.pop_back();
      for (size_t i = 0; i < edges.size(); ++i) {
        const Edge &e = edges[i];
        if (e.late || !(e.always || e.t == t || (t.isZero() && newest(i)))) continue;
        if (e.parent == f && !at.count(e.child)) at[e.child] = at[f] * e.v.shim(), open.push_back(e.child);
        else if (e.child == f && !at.count(e.parent)) at[e.parent] = at[f] * e.v.shim().inverse(), open.push_back(e.parent);
      }
    }
    auto i = at.find(bare(source));
    if (i == at.end()) return false;
    r = i->second;
    return true;
  }
  bool newest(size_t i) const
  {
    for (auto &e : edges)
      if (e.parent == edges[i].parent && e.child == edges[i].child && e.t > edges[i].t) return false;
    return true;
  }
};
inline Tree &tree() { static Tree t; return t; }
}
