#pragma once
#include <boost/function.hpp>
#include <ros/ros.h>
namespace dynamic_reconfigure {
// setCallback invokes the callback at once with the default configuration and
// level ~0, as the real server does; update() plays a reconfigure request.
template<class C> class Server {
 public:
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  explicit Server(const ros::NodeHandle& nh = ros::NodeHandle("~")) : ns_(nh.getNamespace()), config_(C::__getDefault__()) { last() = this; }
  ~Server() { if (last() == this) last() = nullptr; }
  void setCallback(const CallbackType& cb) { cb_ = cb; cb_(config_, ~0u); }
  void update(const C& c) { uint32_t lvl = config_.__level__(c); config_ = c; if (cb_) cb_(config_, lvl); }
  const C& config() const { return config_; }
  static Server*& last() { static Server* s = nullptr; return s; }
  std::string ns_;
 private:
  C config_;
  CallbackType cb_;
};
}
