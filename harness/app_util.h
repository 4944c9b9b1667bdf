// One of the five applications (-DAPP_POSE, APP_POSITION, APP_POSITION_POSE,
// APP_POSE_PRESSURE, APP_SPHERICAL), driven only through its ROS interface:
// topics, parameters, services and reconfigure requests.
#pragma once
#include "common.h"
#include <set>
#include <ros/ros.h>
#include <msf_core/msf_core.h>
#include <msf_core/msf_sensormanager.h>
#if defined(APP_POSE)
#include "pose_msf/msf_statedef.hpp"
#include "core_util.h"
#include "pose_msf/pose_sensormanager.h"
typedef msf_pose_sensor::PoseSensorManager Man; typedef msf_updates::SinglePoseSensorConfig Cfg;
#define HAS_POSE 1
#define APPNAME "pose"
#define PNS "/node/pose_sensor"
#elif defined(APP_POSITION)
#include "position_msf/msf_statedef.hpp"
#include "core_util.h"
#include "position_msf/position_sensormanager.h"
typedef msf_position_sensor::PositionSensorManager Man; typedef msf_updates::SinglePositionSensorConfig Cfg;
#define HAS_POSITION 1
#define APPNAME "position"
#define PNS "/node/position_sensor"
#elif defined(APP_POSITION_POSE)
#include "position_pose_msf/msf_statedef.hpp"
#include "core_util.h"
#include "position_pose_msf/position_pose_sensormanager.h"
typedef msf_updates::PositionPoseSensorManager Man; typedef msf_updates::PositionPoseSensorConfig Cfg;
#define HAS_POSE 1
#define HAS_POSITION 1
#define APPNAME "position_pose"
#define PNS "/node/position_pose_sensor"
#elif defined(APP_POSE_PRESSURE)
#include "pose_pressure_msf/msf_statedef.hpp"
#include "core_util.h"
#include "pose_pressure_msf/pose_pressure_sensormanager.h"
typedef msf_pose_pressure_sensor::PosePressureSensorManager Man; typedef msf_updates::PosePressureSensorConfig Cfg;
#define HAS_POSE 1
#define HAS_PRESSURE 1
#define APPNAME "pose_pressure"
#define PNS "/node/pose_pressure_sensor"
#elif defined(APP_SPHERICAL)
#include "spherical_msf/msf_statedef.hpp"
#include "core_util.h"
#include "spherical_msf/spherical_sensormanager.h"
typedef msf_spherical_position::SensorManager Man; typedef msf_updates::SphericalPositionSensorConfig Cfg;
#define HAS_SPHERICAL 1
#define APPNAME "spherical"
#define PNS "/node/spherical_position_sensor"
#endif
#include <sensor_msgs/Imu.h>
namespace vf {
typedef msf_updates::EKFState S;
typedef boost::shared_ptr<S> SP;
enum { N = S::nErrorStatesAtCompileTime };
using namespace ros::verif;

inline ros::Time stamp(double t) { ros::Time s; s.fromSec(t); return s; }
inline double q9(double t) { return stamp(t).toSec(); }  // a time that survives the message format

struct Obs : Man {
  mutable std::function<void(const SP&)> on_init, on_prop, on_upd;
  mutable long n_init = 0, n_prop = 0, n_upd = 0; mutable RefState last_init, last_prop, last_upd;
  virtual void PublishStateInitial(const SP& s) const { n_init++; last_init = snap(*s); if (on_init) on_init(s); Man::PublishStateInitial(s); }
  virtual void PublishStateAfterPropagation(const SP& s) const { n_prop++; last_prop = snap(*s); if (on_prop) on_prop(s); Man::PublishStateAfterPropagation(s); }
  virtual void PublishStateAfterUpdate(const SP& s) const { n_upd++; last_upd = snap(*s); if (on_upd) on_upd(s); Man::PublishStateAfterUpdate(s); }
};
struct App {
  boost::shared_ptr<Obs> m; std::vector<VarInfo> L; Cfg cfg; uint32_t imu_seq = 0;
  App() : L(layout<S>()) {}
  // parameters are set on the bus before this
  void start(double now) {
    ros::Time::fake() = stamp(now);
    std::streambuf* o = std::cout.rdbuf(nullptr);
    m.reset(new Obs); cfg = server().config();
    std::cout.rdbuf(o); std::cout.clear();
  }
  static dynamic_reconfigure::Server<Cfg>& server() { return *dynamic_reconfigure::Server<Cfg>::last(); }
  static dynamic_reconfigure::Server<msf_core::MSF_CoreConfig>& coreserver() { return *dynamic_reconfigure::Server<msf_core::MSF_CoreConfig>::last(); }
  void apply() { server().update(cfg); cfg = server().config(); }
  msf_core::MSF_Core<S>& core() { return *m->msf_core_; }
  void init(double t) {  // through the reconfigure checkbox
    ros::Time::fake() = stamp(t);
    std::streambuf* o = std::cout.rdbuf(nullptr);
    cfg.core_init_filter = true; apply();
    std::cout.rdbuf(o); std::cout.clear();
  }
  size_t imu(double t, const V3& a, const V3& w) {
    sensor_msgs::Imu i; i.header.stamp = stamp(t); i.header.seq = imu_seq++;
    i.linear_acceleration.x = a.x(); i.linear_acceleration.y = a.y(); i.linear_acceleration.z = a.z();
    i.angular_velocity.x = w.x(); i.angular_velocity.y = w.y(); i.angular_velocity.z = w.z();
    return deliver("/msf_core/imu_state_input", i);
  }
  SP at(double t) { return core().GetStateAtTime(t); }
  std::vector<VX> randvars(Rng& g, double bias = 0.03) {
    std::vector<VX> x(L.size());
    for (size_t i = 0; i < L.size(); i++) {
      if (L[i].quat) x[i] = fromq(randq(g));
      else { x[i] = VX(L[i].n); for (int k = 0; k < L[i].n; k++) x[i](k) = g.n() * (i == 3 || i == 4 ? bias : 2.0); }
#ifdef HAS_POSE
      if ((int)i == msf_updates::L) x[i](0) = g.logu(0.2, 5);
#endif
    }
    return x;
  }
};

// ---- sensors: measurement functions written from the documentation -------------
struct Sensor {
  std::string name; int dim;              // residual rows
  std::function<VX(const std::vector<VX>&)> h;                    // predicted measurement (pose: p, q as x y z w)
  std::function<VX(const std::vector<VX>&, const VX&)> resid;     // z (-) h(x)
  std::function<VX(const VX&, const VX&)> plus;                   // z (+) d
  std::function<void(const VX&, const MX&, double, uint32_t, Rng&)> send;  // z, R (message covariance), stamp, seq
  std::vector<int> fixable;
};
inline VX pose_h(const std::vector<VX>& x) {
#ifdef HAS_POSE
  using namespace msf_updates;
  VX z(7); double s = x[msf_updates::L](0);
  Qd qwv = toq(x[q_wv]), q = toq(x[2]), qic = toq(x[q_ic]);
  z.head(3) = s * (qwv.toRotationMatrix() * (V3(x[0]) - V3(x[p_wv]) + q.toRotationMatrix() * V3(x[p_ic])));
  z.tail(4) = (qwv * q * qic).coeffs(); return z;
#else
  return VX();
#endif
}
inline Qd zq(const VX& z) { return Qd(z(6), z(3), z(4), z(5)); }
inline VX pose_resid(const std::vector<VX>& x, const VX& z) {
  VX hh = pose_h(x), r(6); r.head(3) = z.head(3) - hh.head(3);
  Qd e = zq(hh).conjugate() * zq(z); r.tail(3) = 2 * e.vec() / e.w(); return r;
}
inline VX pose_plus(const VX& z, const VX& d) { VX o = z; o.head(3) += d.head(3); Qd q = zq(z) * qexp(V3(d.tail(3))); o.tail(4) = q.coeffs(); return o; }
struct PoseMsgs { bool fixedcov = false, ptam = false; };
#ifdef HAS_POSE
inline geometry_msgs::PoseWithCovarianceStamped pose_msg(const VX& z, const MX& R, double t, uint32_t seq) {
  geometry_msgs::PoseWithCovarianceStamped m; m.header.stamp = stamp(t); m.header.seq = seq;
  m.pose.pose.position.x = z(0); m.pose.pose.position.y = z(1); m.pose.pose.position.z = z(2);
  m.pose.pose.orientation.x = z(3); m.pose.pose.orientation.y = z(4); m.pose.pose.orientation.z = z(5); m.pose.pose.orientation.w = z(6);
  if (R.rows() == 6) for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m.pose.covariance[i * 6 + j] = R(i, j);
  return m;
}
inline void send_pose(const VX& z, const MX& R, double t, uint32_t seq, int kind) {
  geometry_msgs::PoseWithCovarianceStamped m = pose_msg(z, R, t, seq);
  if (kind == 0) deliver("/msf_updates/pose_with_covariance_input", m);
  else if (kind == 1) { nav_msgs::Odometry o; o.header = m.header; o.pose = m.pose; deliver("/msf_updates/odometry_input", o); }
  else if (kind == 2) { geometry_msgs::PoseStamped o; o.header = m.header; o.pose = m.pose.pose; deliver("/msf_updates/pose_input", o); }
  else { geometry_msgs::TransformStamped o; o.header = m.header; o.transform.translation.x = z(0); o.transform.translation.y = z(1); o.transform.translation.z = z(2); o.transform.rotation = m.pose.pose.orientation; deliver("/msf_updates/transform_input", o); }
}
#endif
inline MX num_H(const std::vector<VX>& x, const std::vector<VarInfo>& L, int dim, const std::function<VX(const std::vector<VX>&)>& r) {
  int n = L.back().at_err + L.back().err; MX H(dim, n); const double e = 1e-5;
  for (int k = 0; k < n; k++) {
    VX d = VX::Zero(n); std::vector<VX> a = x, b = x;
    d(k) = e; ref_correct(a, L, d); d(k) = -e; ref_correct(b, L, d);
    H.col(k) = -(r(a) - r(b)) / (2 * e);
  }
  return H;
}
}  // namespace vf
