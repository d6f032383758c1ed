#pragma once
#include <boost/bind.hpp>
#include <ros/ros.h>
namespace message_filters {
template <class M> class Subscriber {
public:
  std::vector<std::function<void(const boost::shared_ptr<const M> &)>> out;
  Subscriber() {}
  Subscriber(ros::NodeHandle &n, const std::string &t, uint32_t q) { subscribe(n, t, q); }
  Subscriber(const Subscriber &) = delete;
  void subscribe(ros::NodeHandle &n, const std::string &t, uint32_t)
  {
    n.listen<M>(t, [this](const boost::shared_ptr<const M> &m) { for (auto &f : out) f(m); });
  }
};
}
