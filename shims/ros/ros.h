#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <any>
#include <cstdint>
#include <functional>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#ifndef ROS_INFO
#define ROS_SHIM_STREAM(x) do { std::ostringstream ros_shim_; ros_shim_ << x; } while (0)
#define ROS_INFO_STREAM(x) ROS_SHIM_STREAM(x)
#define ROS_DEBUG_STREAM(x) ROS_SHIM_STREAM(x)
#define ROS_WARN_STREAM(x) ROS_SHIM_STREAM(x)
#define ROS_ERROR_STREAM(x) ROS_SHIM_STREAM(x)
#define ROS_FATAL_STREAM(x) ROS_SHIM_STREAM(x)
#define ROS_INFO(...) ((void)0)
#define ROS_DEBUG(...) ((void)0)
#define ROS_WARN(...) ((void)0)
#define ROS_ERROR(...) ((void)0)
#define ROS_FATAL(...) ((void)0)
#endif
typedef unsigned int uint;
namespace ros {
struct Duration {
  int32_t sec = 0, nsec = 0;
  Duration() {}
  Duration(double d) : sec(int32_t(std::floor(d))), nsec(int32_t(std::round((d - std::floor(d)) * 1e9))) {}
  double toSec() const { return sec + 1e-9 * nsec; }
};
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) : sec(uint32_t(std::floor(t))), nsec(uint32_t(std::round((t - std::floor(t)) * 1e9))) {}
  static Time now() { return Time(12345, 0); }
  double toSec() const { return sec + 1e-9 * nsec; }
  uint64_t toNSec() const { return uint64_t(sec) * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool operator==(const Time &o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time &o) const { return !(*this == o); }
  bool operator<(const Time &o) const { return sec != o.sec ? sec < o.sec : nsec < o.nsec; }
  bool operator>(const Time &o) const { return o < *this; }
  bool operator<=(const Time &o) const { return !(o < *this); }
  bool operator>=(const Time &o) const { return !(*this < o); }
  Duration operator-(const Time &o) const { return Duration(toSec() - o.toSec()); }
};

// ---- a ROS master in one process: parameters, topics, a clock of callbacks
struct Master {
  std::string node_ns = "", node = "node";
  std::map<std::string, std::any> params;                                    // by full name
  std::vector<std::pair<std::string, std::any>> published;
  std::vector<std::string> advertised, subscribed;
  std::vector<std::pair<std::string, std::function<void(const std::any &)>>> listeners;  // of shared pointers to const
  std::function<void()> on_spin;
  template <class M> void deliver(const std::string &topic, const boost::shared_ptr<const M> &m)
  {
    auto all = listeners;
    for (auto &l : all)
      if (l.first == topic) l.second(std::any(m));
  }
};
inline Master &master() { static Master m; return m; }
class Publisher {
  std::string topic_;
public:
  Publisher(const std::string &t = "") : topic_(t) {}
  template <class M> void publish(const M &m) const { if (!topic_.empty()) master().published.emplace_back(topic_, std::any(m)); }
  template <class M> void publish(const boost::shared_ptr<M> &m) const { publish(static_cast<const M &>(*m)); }
  uint32_t getNumSubscribers() const { return 1; }
  std::string getTopic() const { return topic_; }
};
class Subscriber { public: void shutdown() {} };
class NodeHandle {
  std::string ns_;
public:
  NodeHandle(const std::string &ns = "") { ns_ = !ns.empty() && ns[0] == '~' ? own() : ns.empty() ? master().node_ns : resolveName(ns); }
  static std::string own() { return master().node_ns + "/" + master().node; }
  std::string getNamespace() const { return ns_.empty() ? "/" : ns_; }
  std::string resolveName(const std::string &n) const
  {
    if (n.empty()) return getNamespace();
    if (n[0] == '/') return n;
    if (n[0] == '~') return own() + "/" + n.substr(1);
    return ns_ + "/" + n;
  }
  bool hasParam(const std::string &n) const { return master().params.count(resolveName(n)); }
  template <class T> bool getParam(const std::string &n, T &v) const
  {
    auto i = master().params.find(resolveName(n));
    if (i == master().params.end()) return false;
    return get(i->second, v);
  }
  template <class T> static bool get(const std::any &a, T &v)
  {
    if (auto p = std::any_cast<T>(&a)) { v = *p; return true; }
    return false;
  }
  static bool get(const std::any &a, double &v)
  {
    if (auto p = std::any_cast<double>(&a)) { v = *p; return true; }
    if (auto p = std::any_cast<int>(&a)) { v = *p; return true; }
    return false;
  }
  static bool get(const std::any &a, float &v) { double d; if (!get(a, d)) return false; v = float(d); return true; }
  template <class T> T param(const std::string &n, const T &d) const { T v; return getParam(n, v) ? v : d; }
  template <class T> bool param(const std::string &n, T &v, const T &d) const { if (getParam(n, v)) return true; v = d; return false; }
  // as roscpp: upwards from the namespace
  bool searchParam(const std::string &key, std::string &found) const
  {
    for (std::string ns = ns_;; ns = ns.substr(0, ns.rfind('/'))) {
      if (master().params.count(ns + "/" + key)) { found = ns + "/" + key; return true; }
      if (ns.empty()) return false;
    }
  }
  template <class M> Publisher advertise(const std::string &t, uint32_t, bool = false)
  {
    master().advertised.push_back(resolveName(t));
    return Publisher(resolveName(t));
  }
  template <class M> void listen(const std::string &t, const std::function<void(const boost::shared_ptr<const M> &)> &f)
  {
    master().subscribed.push_back(resolveName(t));
    master().listeners.emplace_back(resolveName(t), [f](const std::any &a) {
      if (auto p = std::any_cast<boost::shared_ptr<const M>>(&a)) f(*p);
    });
  }
  template <class M> Subscriber subscribe(const std::string &t, uint32_t, const boost::function<void(const boost::shared_ptr<const M> &)> &f)
  {
    listen<M>(t, f);
    return Subscriber();
  }
  template <class M, class T> Subscriber subscribe(const std::string &t, uint32_t, void (T::*f)(const boost::shared_ptr<const M> &), T *o)
  {
    listen<M>(t, [o, f](const boost::shared_ptr<const M> &m) { (o->*f)(m); });
    return Subscriber();
  }
};
inline void init(int, char **, const std::string &name, uint32_t = 0) { master().node = name; }
inline void spin() { if (master().on_spin) master().on_spin(); }
inline bool ok() { return true; }
}
