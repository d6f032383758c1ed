#pragma once
#include <message_filters/subscriber.h>
namespace message_filters {
// pairs the latest messages, whose stamps differ but little
template <class P> class Synchronizer {
  typedef boost::shared_ptr<const typename P::First> A;
  typedef boost::shared_ptr<const typename P::Second> B;
  A a_; B b_;
  boost::function<void(const A &, const B &)> f_;
  void pair() { if (a_ && b_) { A a = a_; B b = b_; a_.reset(); b_.reset(); if (f_) f_(a, b); } }
public:
  explicit Synchronizer(const P &) {}
  Synchronizer(const Synchronizer &) = delete;
  template <class S, class T> void connectInput(S &s, T &t)
  {
    s.out.push_back([this](const A &a) { a_ = a; pair(); });
    t.out.push_back([this](const B &b) { b_ = b; pair(); });
  }
  template <class F> void registerCallback(const F &f) { f_ = f; }
};
}
