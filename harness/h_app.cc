// Application-level monitors: measurement models, sensor admission, published
// messages, initialisation and convergence, through the ROS interface.
#include "app_util.h"
using namespace vf;

// The default covariance: simulated steady state values for the core states, 1e-4 for the others.
static MX default_cov(int n) {
  static const double c[225] = {0.0166, 0.0122, -0.0015, 0.0211, 0.0074, 0.0000, 0.0012, -0.0012, 0.0001, -0.0000, 0.0000, -0.0000, -0.0003, -0.0002, -0.0000, 0.0129, 0.0508, -0.0020, 0.0179, 0.0432, 0.0006, 0.0020, 0.0004, -0.0002, -0.0000, 0.0000, 0.0000, 0.0003, -0.0002, 0.0000, -0.0013, -0.0009, 0.0142, -0.0027, 0.0057, 0.0079, 0.0007, 0.0007, 0.0000, -0.0000, -0.0000, 0.0000, -0.0001, -0.0004, -0.0001, 0.0210, 0.0162, -0.0026, 0.0437, 0.0083, -0.0017, 0.0016, -0.0021, -0.0014, -0.0000, 0.0000, 0.0000, 0.0003, -0.0001, 0.0000, 0.0093, 0.0461, 0.0036, 0.0153, 0.0650, -0.0016, 0.0025, 0.0013, -0.0000, -0.0000, 0.0000, 0.0000, 0.0003, 0.0002, 0.0000, -0.0000, 0.0005, 0.0080, -0.0019, -0.0021, 0.0130, 0.0001, 0.0001, 0.0000, -0.0000, 0.0000, -0.0000, -0.0003, 0.0001, -0.0001, 0.0012, 0.0024, 0.0006, 0.0017, 0.0037, 0.0001, 0.0005, 0.0000, 0.0001, -0.0000, 0.0000, -0.0000, -0.0000, -0.0001, -0.0000, -0.0011, 0.0008, 0.0007, -0.0023, 0.0019, 0.0001, 0.0000, 0.0005, -0.0001, -0.0000, -0.0000, 0.0000, 0.0001, -0.0001, -0.0000, 0.0001, -0.0002, -0.0000, -0.0014, 0.0001, 0.0000, 0.0000, -0.0001, 0.0006, -0.0000, -0.0000, -0.0000, 0.0000, 0.0000, -0.0000, -0.0000, -0.0000, -0.0000, -0.0000, -0.0000, -0.0000, -0.0000, -0.0000, -0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, -0.0000, -0.0000, -0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, -0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, -0.0000, -0.0003, 0.0003, -0.0001, 0.0003, 0.0003, -0.0003, -0.0000, 0.0001, 0.0000, 0.0000, 0.0000, 0.0000, 0.0010, 0.0000, 0.0000, -0.0002, -0.0002, -0.0004, -0.0001, 0.0003, 0.0001, -0.0001, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0010, 0.0000, -0.0000, 0.0000, -0.0001, 0.0000, 0.0000, -0.0001, -0.0000, -0.0000, -0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0001};
  MX P = MX::Identity(n, n) * 1e-4; for (int i = 0; i < 15; i++) for (int j = 0; j < 15; j++) P(i, j) = 0.5 * (c[15 * i + j] + c[15 * j + i]);
  return P;
}
#ifdef HAS_SPHERICAL
static V3 sph_p(const std::vector<VX>& x) { return V3(x[0]) + toq(x[2]).toRotationMatrix() * V3(x[msf_updates::p_ip]); }
#endif
#ifdef HAS_POSITION
static VX pos_h(const std::vector<VX>& x) { return V3(x[0]) + toq(x[2]).toRotationMatrix() * V3(x[msf_updates::p_ip]); }
// ---- independent WGS84 geodesy (geodetic -> ECEF -> local ENU) -----------------
struct Geo {
  static V3 ecef(double lat, double lon, double h) {
    const double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f); double la = lat * M_PI / 180, lo = lon * M_PI / 180;
    double n = a / std::sqrt(1 - e2 * std::sin(la) * std::sin(la));
    return V3((n + h) * std::cos(la) * std::cos(lo), (n + h) * std::cos(la) * std::sin(lo), (n * (1 - e2) + h) * std::sin(la));
  }
  static M3 enu(double lat, double lon) {
    double la = lat * M_PI / 180, lo = lon * M_PI / 180; M3 R;
    R << -std::sin(lo), std::cos(lo), 0, -std::sin(la) * std::cos(lo), -std::sin(la) * std::sin(lo), std::cos(la), std::cos(la) * std::cos(lo), std::cos(la) * std::sin(lo), std::sin(la);
    return R;
  }
  double lat0, lon0, h0; V3 e0; M3 R;
  Geo(double la, double lo, double h) : lat0(la), lon0(lo), h0(h), e0(ecef(la, lo, h)), R(enu(la, lo)) {}
  V3 to(double la, double lo, double h) const { return R * (ecef(la, lo, h) - e0); }
  // inverse by Newton iteration on (lat, lon, h)
  void from(const V3& enu_, double& la, double& lo, double& h) const {
    la = lat0; lo = lon0; h = h0;
    for (int k = 0; k < 12; k++) {
      V3 r = enu_ - to(la, lo, h); M3 Rl = enu(la, lo); V3 d = Rl * (R.transpose() * r); double c = std::cos(la * M_PI / 180);
      la += d.y() / 6.37e6 * 180 / M_PI; lo += d.x() / (6.37e6 * c) * 180 / M_PI; h += d.z();
    }
  }
};
#endif
static MX diag(const VX& v) { return MX(v.asDiagonal()); }

// What the application is configured to do in a case.
struct Setup {
  bool absolute = true, fixedcov = true, ptam = false, mah = false; double mah_thr = 0;
  std::set<int> fixed; double delay_pose = 0, delay_pos = 0, delay_ang = 0, delay_dist = 0; double n_p = 0.01, n_q = 0.01, n_pos = 0.01, n_press = 0.05, n_ang = 0.01, n_dist = 0.01;
  double min_dt = 0.0; bool fixbias = false;
  void params() const {
    ros::verif::bus().reset();
    for (std::string ns : {"/node/pose_sensor", "/node/position_sensor", "/node/pressure_sensor", "/node/spherical_position_sensor"}) {
      setParam(ns + "/enable_mah_outlier_rejection", mah); setParam(ns + "/mah_threshold", mah_thr);
    }
    setParam<bool>("/node/pose_sensor/pose_absolute_measurements", absolute); setParam<bool>("/node/pose_sensor/pose_measurement_world_sensor", !ptam);
    setParam<bool>("/node/pose_sensor/pose_use_fixed_covariance", fixedcov); setParam<double>("/node/pose_sensor/pose_measurement_minimum_dt", min_dt);
    setParam<bool>("/node/position_sensor/position_use_fixed_covariance", fixedcov); setParam<bool>("/node/position_sensor/position_absolute_measurements", absolute);
    setParam<bool>("/node/spherical_position_sensor/use_fixed_covariance", fixedcov); setParam<bool>("/node/spherical_position_sensor/absolute_measurements", absolute);
  }
  void configure(App& a) const {
    Cfg& c = a.cfg;
#ifdef HAS_POSE
    c.pose_noise_meas_p = n_p; c.pose_noise_meas_q = n_q; c.pose_delay = delay_pose;
    c.pose_fixed_scale = fixed.count(msf_updates::L); c.pose_fixed_p_ic = fixed.count(msf_updates::p_ic); c.pose_fixed_q_ic = fixed.count(msf_updates::q_ic);
    c.pose_fixed_p_wv = fixed.count(msf_updates::p_wv); c.pose_fixed_q_wv = fixed.count(msf_updates::q_wv);
#endif
#ifdef HAS_POSITION
    c.position_noise_meas = n_pos; c.position_delay = delay_pos; c.position_fixed_p_ip = fixed.count(msf_updates::p_ip);
#endif
#ifdef HAS_PRESSURE
    c.press_noise_meas_p = n_press;
#endif
#ifdef HAS_SPHERICAL
    c.angle_noise_meas = n_ang; c.distance_noise_meas = n_dist; c.angle_delay = delay_ang; c.distance_delay = delay_dist; c.fixed_p_ip = fixed.count(msf_updates::p_ip);
#endif
    a.apply();
    msf_core::MSF_CoreConfig cc = a.coreserver().config(); if (cc.core_fixed_bias != fixbias) { cc.core_fixed_bias = fixbias; a.coreserver().update(cc); }
  }
  std::function<void(VX&)> augment() const { if (!fixbias) return nullptr; return [](VX& d) { d.segment(9, 6).setZero(); }; }
  double delay(const std::string& s) const { return s == "pose" ? delay_pose : s == "position" || s == "gps" ? delay_pos : s == "angle" ? delay_ang : s == "distance" ? delay_dist : 0; }
};
static std::vector<std::string> sensor_names(bool fixedcov) {
  std::vector<std::string> v;
#ifdef HAS_POSE
  v.push_back("pose");
#endif
#ifdef HAS_POSITION
  if (fixedcov) v.push_back("position");
  v.push_back("gps");
#endif
#ifdef HAS_PRESSURE
  v.push_back("pressure");
#endif
#ifdef HAS_SPHERICAL
  if (fixedcov) { v.push_back("angle"); v.push_back("distance"); }
#endif
  return v;
}
static std::vector<int> fixable() {
  std::vector<int> v;
#ifdef HAS_POSE
  v.insert(v.end(), {msf_updates::L, msf_updates::q_wv, msf_updates::p_wv, msf_updates::q_ic, msf_updates::p_ic});
#endif
#if defined(HAS_POSITION) || defined(HAS_SPHERICAL)
  v.push_back(msf_updates::p_ip);
#endif
  return v;
}
static double wrap(double a) { while (a > M_PI) a -= 2 * M_PI; while (a < -M_PI) a += 2 * M_PI; return a; }
// The fixed quantities a sensor's configuration applies to.
static std::set<int> fixed_for(const std::string& s, const std::set<int>& f) {
  std::set<int> o; for (int v : f) {
#ifdef HAS_POSE
    bool p = v == msf_updates::L || v == msf_updates::q_wv || v == msf_updates::p_wv || v == msf_updates::q_ic || v == msf_updates::p_ic;
    if (p != (s == "pose")) continue;
    if (s == "pressure") continue;
#endif
    o.insert(v);
  }
  return o;
}
struct Model {
  int dim; VX z0; std::function<VX(const std::vector<VX>&, const VX&)> resid; std::function<VX(const VX&, const VX&)> plus;
};
static Model model(const std::string& s, const std::vector<VX>& x) {
  Model m;
  if (s == "pose") { m.dim = 6; m.z0 = pose_h(x); m.resid = pose_resid; m.plus = pose_plus; return m; }
  m.plus = [](const VX& z, const VX& d) { return VX(z + d); };
#ifdef HAS_POSITION
  if (s == "position" || s == "gps") { m.dim = 3; m.z0 = pos_h(x); m.resid = [](const std::vector<VX>& x, const VX& z) { return VX(z - pos_h(x)); }; return m; }
#endif
#ifdef HAS_PRESSURE
  if (s == "pressure") { m.dim = 1; auto h = [](const std::vector<VX>& x) { VX r(1); r(0) = x[0](2) - x[msf_updates::b_p](0); return r; }; m.z0 = h(x); m.resid = [h](const std::vector<VX>& x, const VX& z) { return VX(z - h(x)); }; return m; }
#endif
#ifdef HAS_SPHERICAL
  if (s == "distance") { m.dim = 1; auto h = [](const std::vector<VX>& x) { VX r(1); r(0) = sph_p(x).norm(); return r; }; m.z0 = h(x); m.resid = [h](const std::vector<VX>& x, const VX& z) { return VX(z - h(x)); }; return m; }
  if (s == "angle") { m.dim = 2; auto h = [](const std::vector<VX>& x) { V3 p = sph_p(x); VX r(2); r << std::atan2(std::hypot(p.x(), p.y()), p.z()), std::atan2(p.y(), p.x()); return r; };
    m.z0 = h(x); m.resid = [h](const std::vector<VX>& x, const VX& z) { VX r = z - h(x); r(1) = wrap(r(1)); return r; }; m.plus = [](const VX& z, const VX& d) { VX o = z + d; o(1) = wrap(o(1)); return o; }; return m; }
#endif
  m.dim = 0; return m;
}
#if defined(HAS_POSE) && defined(HAS_POSITION)
enum { POSE_KINDS = 3 };  // both sensors listen to the transform topic
#else
enum { POSE_KINDS = 4 };
#endif
struct Wire {  // sends a measurement in sensor terms over one of its topics
  uint32_t seq = 0; boost::shared_ptr<void> dummy; double lat0 = 0, lon0 = 0, h0 = 0; bool gps_ref = false;
  // returns the noise covariance the filter has to use
  MX send(const std::string& s, const Setup& u, const VX& z, double t, Rng& g, int kind, MX Rmsg) {
#ifdef HAS_POSE
    if (s == "pose") {
      seq++;
      VX zz = z; MX R;
      if (u.fixedcov) { VX d(6); d << u.n_p, u.n_p, u.n_p, u.n_q, u.n_q, u.n_q; R = diag(d.cwiseProduct(d)); }
      else { R = Rmsg; R.block(0, 3, 3, 3).setZero(); R.block(3, 0, 3, 3).setZero(); }
      if (u.ptam) {  // the sensor publishes the world seen from itself
        Qd q = zq(z).conjugate(); zz.tail(4) = q.coeffs(); zz.head(3) = -(q * V3(z.head(3)));
        M3 C = q.toRotationMatrix(); if (!u.fixedcov) { R.block(0, 0, 3, 3) = C.transpose() * R.block(0, 0, 3, 3).eval() * C; R.block(3, 3, 3, 3) = C.transpose() * R.block(3, 3, 3, 3).eval() * C; }
      }
      send_pose(zz, Rmsg, t, seq, u.fixedcov ? kind % POSE_KINDS : kind % 2); return R;
    }
#endif
#ifdef HAS_POSITION
    if (s == "position") {
      if (kind % 2 || POSE_KINDS == 3) { seq++; geometry_msgs::PointStamped m; m.header.stamp = stamp(t); m.header.seq = seq; m.point.x = z(0); m.point.y = z(1); m.point.z = z(2); deliver("/msf_updates/position_input", m); }
      else { seq += 5 - seq % 5; geometry_msgs::TransformStamped m; m.header.stamp = stamp(t); m.header.seq = seq; m.transform.translation.x = z(0); m.transform.translation.y = z(1); m.transform.translation.z = z(2); m.transform.rotation.w = 1; deliver("/msf_updates/transform_input", m); }
      return MX::Identity(3, 3) * u.n_pos * u.n_pos;
    }
    if (s == "gps") {
      seq++;
      sensor_msgs::NavSatFix m; m.header.stamp = stamp(t); m.header.seq = seq; Geo geo(lat0, lon0, h0);
      geo.from(z, m.latitude, m.longitude, m.altitude); m.position_covariance_type = 1 + kind % 3;
      MX R = Rmsg; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.position_covariance[3 * i + j] = R(i, j);
      deliver("/msf_updates/navsatfix_input", m);
      if (u.fixedcov) return MX::Identity(3, 3) * u.n_pos * u.n_pos; return R;
    }
#endif
#if defined(HAS_PRESSURE)
    if (s == "pressure") { seq += 10 - seq % 10; geometry_msgs::PointStamped m; m.header.stamp = stamp(t); m.header.seq = seq; m.point.z = z(0); m.point.x = g.n(); m.point.y = g.n(); deliver("/msf_updates/pressure_height", m); return MX::Constant(1, 1, u.n_press * u.n_press); }
#endif
#ifdef HAS_SPHERICAL
    if (s == "angle") { seq++; geometry_msgs::PointStamped m; m.header.stamp = stamp(t); m.header.seq = seq; m.point.x = z(0); m.point.y = z(1); m.point.z = g.n(); deliver("/msf_updates/angle_input", m); return MX::Identity(2, 2) * u.n_ang * u.n_ang; }
    if (s == "distance") { seq++; geometry_msgs::PointStamped m; m.header.stamp = stamp(t); m.header.seq = seq; m.point.x = g.n(); m.point.y = g.n(); m.point.z = z(0); deliver("/msf_updates/distance_input", m); return MX::Constant(1, 1, u.n_dist * u.n_dist); }
#endif
    return MX();
  }
  void set_gps_reference(Rng& g) {
#ifdef HAS_POSITION
    lat0 = g.u(-80, 80); lon0 = g.u(-180, 180); h0 = g.u(-100, 4000);
    sensor_msgs::NavSatFix m; m.header.stamp = stamp(1); m.latitude = lat0; m.longitude = lon0; m.altitude = h0; m.position_covariance_type = 0; m.position_covariance[0] = 0;
    deliver("/msf_updates/navsatfix_input", m); gps_ref = true;
#endif
  }
};
static Setup random_setup(Rng& g, bool allow_rel) {
  Setup u; u.fixedcov = g.p(0.5); u.mah = g.p(0.5); u.mah_thr = g.u(1, 6); u.absolute = !(allow_rel && g.p(0.3));
  for (int v : fixable()) if (g.p(0.25)) u.fixed.insert(v);
  u.fixbias = g.p(0.3);
  auto dl = [&] { return g.p(0.4) ? 0.0 : g.u(-0.3, 0.5); };
  u.delay_pose = dl(); u.delay_pos = dl(); u.delay_ang = dl(); u.delay_dist = dl();
  auto n = [&] { return g.logu(1e-3, 0.3); };
  u.n_p = n(); u.n_q = n(); u.n_pos = n(); u.n_press = n(); u.n_ang = n(); u.n_dist = n();
#ifdef HAS_POSE
  u.ptam = g.p(0.3);
#endif
  return u;
}
static void clear_cross(RefState& s, const std::vector<VarInfo>& L, const std::set<int>& f) {
  for (int v : f) for (size_t o = 0; o < L.size(); o++) if ((int)o != v) {
    s.P.block(L[v].at_err, L[o].at_err, L[v].err, L[o].err).setZero(); s.P.block(L[o].at_err, L[v].at_err, L[o].err, L[v].err).setZero(); }
}
#ifdef HAS_POSE
static const int kScale = msf_updates::L;
#else
static const int kScale = -1;
#endif
static void neg_scale(RefState& s) {
#ifdef HAS_POSE
  if (s.x[msf_updates::L](0) < 0) { s.x[msf_updates::L](0) = 0.1; count("negative_scale_corrected"); }
#endif
}
// largest deviation of post from ref in units of the size of the change and of the prior deviation
static double update_err(const RefState& post, const RefState& ref, const RefState& pre, const std::vector<VarInfo>& L, std::string& what) {
  VX sd = pre.P.diagonal().cwiseAbs().cwiseSqrt(), d = ref_minus(post.x, ref.x, L), c = ref_minus(ref.x, pre.x, L); double worst = 0;
  double cs = 0; for (int i = 0; i < c.size(); i++) cs = std::max(cs, std::fabs(c(i)) / (sd(i) + 1e-300));
  for (int i = 0; i < d.size(); i++) { double e = std::fabs(d(i)) / (sd(i) * (1 + cs) + 1e-12); if (!(e <= worst)) { worst = e; what = cat("error state ", i, " corrected by ", c(i), ", off by ", d(i)); } }
  for (int i = 0; i < d.size(); i++) for (int j = 0; j < d.size(); j++) { double e = std::fabs(post.P(i, j) - ref.P(i, j)) / (sd(i) * sd(j) + 1e-300); if (!(e <= worst)) { worst = e; what = cat("P(", i, ",", j, ") ", pre.P(i, j), " -> ", post.P(i, j), " expected ", ref.P(i, j)); } }
  return worst;
}
#if !defined(SELECT) || defined(W_models)
static void models(Rng& g, uint64_t) {
  Setup u = random_setup(g, false); u.params(); App A; double t = q9(g.u(100, 1000)); A.start(t); u.configure(A); Wire w; w.set_gps_reference(g);
  std::vector<std::string> names = sensor_names(u.fixedcov); if (names.empty()) return;
  A.init(t); ImuGen sg(g, 1, 0.3); const double dt = 0.01; int rounds = g.i(3, 8);
  for (int k = 0; k < rounds; k++) {
    std::vector<double> ts; int nimu = g.i(5, 9); for (int i = 0; i < nimu; i++) { t = q9(t + dt); if (!A.imu(t, sg.a(t), sg.w(t))) { violate("no_imu_handler", "the application does not listen to IMU messages"); return; } ts.push_back(t); }
    double T = ts[ts.size() - 1 - g.i(1, 3)]; SP s = A.at(T); if (s->time != T) { violate("no_state", "no state at an IMU stamp"); return; }
    // free choice of the estimate and its covariance at T
    std::vector<VX> x = A.randvars(g); double ps = g.logu(1e-5, 1e-2); MX P = randspd(g, N, ps);
#ifdef HAS_SPHERICAL
    { V3 p = sph_p(x); if (std::hypot(p.x(), p.y()) < 0.3) continue; if (g.p(0.15)) { V3 d = toq(x[2]).toRotationMatrix() * V3(x[msf_updates::p_ip]); x[0](1) = -d.y(); x[0](0) = -g.u(1, 3) - d.x(); } }
#endif
    s = A.core().GetClosestState(T); setvars(*s, x); s->P = P; RefState pre = snap(*s);
    std::string name = g.pick(names); Model m = model(name, x); std::set<int> fx = fixed_for(name, u.fixed);
    MX Rm = randspd(g, m.dim, g.logu(1e-6, 1e-2)); if (name == "pose" && u.ptam) Rm.block(3, 3, 3, 3) = M3::Identity() * g.logu(1e-6, 1e-2); if (name == "gps" && u.fixedcov && g.p(0.3)) Rm.setZero();
    VX d(m.dim); for (int i = 0; i < m.dim; i++) d(i) = g.n(); bool exact = g.p(0.12);
    // the innovation, scaled to a chosen Mahalanobis distance
    RefState ref = pre; clear_cross(ref, A.L, fx); VX z0 = m.z0; MX H = num_H(x, A.L, m.dim, [&](const std::vector<VX>& y) { return m.resid(y, z0); });
    for (int v : fx) H.block(0, A.L[v].at_err, m.dim, A.L[v].err).setZero();
    MX R0 = Rm; { if (name == "pose") { R0.block(0, 3, 3, 3).setZero(); R0.block(3, 0, 3, 3).setZero(); if (u.fixedcov) { VX e(6); e << u.n_p, u.n_p, u.n_p, u.n_q, u.n_q, u.n_q; R0 = diag(e.cwiseProduct(e)); } } else if (u.fixedcov || name == "pressure") { double n = name == "pressure" ? u.n_press : name == "angle" ? u.n_ang : name == "distance" ? u.n_dist : u.n_pos; R0 = MX::Identity(m.dim, m.dim) * n * n; } }
    MX Sv = H * ref.P * H.transpose() + R0; double md = std::sqrt(d.dot(Sv.fullPivLu().solve(d)));
    double want = u.mah ? u.mah_thr * (g.p(0.5) ? g.u(0.2, 0.97) : g.u(1.03, 3)) : g.u(0.1, 3); d *= want / md; if (exact) d.setZero();
    if (name == "pose" && d.tail(3).norm() > 1.5) d *= 1.5 / d.tail(3).norm();
    if (name == "angle" && d.norm() > 1) d /= d.norm();
    VX z = m.plus(m.z0, d); if (name == "angle" && (z(0) < 0 || z(0) > M_PI)) continue;
    VX r = m.resid(x, z); long u0 = A.m->n_upd;
    MX R = w.send(name, u, z, T + u.delay(name), g, g.i(0, 100), Rm);
    double margin = 1e300; bool applied = RefFilter::update(ref, A.L, H, r, R, u.mah ? u.mah_thr : 0, u.augment(), &margin);
    if (A.m->n_upd != u0 + 1) { violate("not_processed", cat(name, " measurement was not processed (delay ", u.delay(name), ")")); return; }
    RefState post = snap(*A.at(T)); if (post.t != T) { violate("no_state", "state lost"); return; }
    count("sensor_" + name); count(applied ? "applied" : "rejected"); if (exact) count("exact"); if (!fx.empty()) count("with_fixed"); if (u.fixbias) count("with_fixed_bias");
    { std::set<int> held = fx; if (u.fixbias) held.insert({3, 4}); VX dd = ref_minus(post.x, pre.x, A.L);
      for (int v : held) if (!(v == kScale && pre.x[v](0) < 0) && !(dd.segment(A.L[v].at_err, A.L[v].err).norm() <= 1e-12 * (1 + pre.x[v].norm()))) violate("fixed_changed_" + name, cat("a ", name, " measurement changed variable ", v, ", which is configured fixed, by ", dd.segment(A.L[v].at_err, A.L[v].err).transpose())); }
    if (margin < 1e-3) { count("near_threshold"); continue; }
    std::string what; double e;
    if (!applied) {
      neg_scale(ref); e = 0; for (size_t i = 0; i < post.x.size(); i++) if (post.x[i] != pre.x[i]) { e = 1; what = cat("variable ", i, " changed"); }
      if (e) violate("outlier_changed_state", cat(name, " beyond the threshold: ", what)); clear_cross(pre, A.L, fx);
      if (!((post.P - pre.P).cwiseAbs().maxCoeff() <= 1e-12 * ps)) violate("outlier_changed_covariance", name);
    } else {
      neg_scale(ref); e = update_err(post, ref, pre, A.L, what); maxim("err_" + name, e);
      double gain = (ref.P - pre.P).cwiseAbs().maxCoeff() / ps; maxim("gain", gain);
      if (!(e <= 2e-5)) violate("model_" + name, cat(what, " (relative deviation ", e, ", scale of P ", ps, ", residual ", r.transpose(), exact ? " exactly consistent" : "", u.mah ? " with" : " without", " outlier test", u.ptam ? " inverted pose" : "", u.fixedcov ? " fixed" : " message", " covariance, fixed states: ", fx.size(), ")"));
    }
    nontrivial(); vf::sig((uint64_t)name[0] * 16 + fx.size()); sigd(r(0));
    if (k == 0) sample(cat(name, " at ", T, " residual ", r.norm(), applied ? " applied" : " rejected"));
  }
}
#endif
#if defined(HAS_POSE) && (!defined(SELECT) || defined(W_relpose))
// Relative pose measurements, each against the previous one of the sensor.
static void relpose(Rng& g, uint64_t) {
  Setup u = random_setup(g, false); u.absolute = false; u.mah = false; u.params(); App A; double t = q9(g.u(100, 1000)); A.start(t); u.configure(A); Wire w;
  double t_init = t; { std::vector<VX> x = A.randvars(g); w.send("pose", u, pose_h(x), t - 1 + u.delay_pose, g, g.i(0, 9), MX::Identity(6, 6) * 1e-4); } A.init(t_init);
  ImuGen sg(g, 2, 0.5); const double dt = 0.01; int rounds = g.i(3, 9); bool have = false; double Tp = 0; VX zp;
  std::set<int> fx = fixed_for("pose", u.fixed);
  for (int k = 0; k < rounds; k++) {
    int nimu = g.i(2, 9); if (!have) nimu += 5; std::vector<double> ts; for (int i = 0; i < nimu; i++) { t = q9(t + dt); A.imu(t, sg.a(t), sg.w(t)); ts.push_back(t); }
    double T = ts[ts.size() - 1 - g.i(1, std::min<int>(3, ts.size() - 1))]; if (have && T <= Tp + 1e-3) continue;
    SP s = A.core().GetClosestState(T); if (s->time != T) { violate("no_state", "no state at an IMU stamp"); return; }
    if (!have) { std::vector<VX> x = A.randvars(g); setvars(*s, x); s->P = randspd(g, N, g.logu(1e-5, 1e-3)); }
    RefState pre = snap(*s); RefState old; Eigen::Matrix<double, N, N> F; if (have) { old = snap(*A.at(Tp)); A.core().GetAccumulatedStateTransitionStochasticCloning(A.at(Tp), A.at(T), F); }
    VX d(6); for (int i = 0; i < 6; i++) d(i) = g.n() * g.logu(1e-4, 0.05); VX z = pose_plus(pose_h(pre.x), d);
    MX Rm = randspd(g, 6, g.logu(1e-6, 1e-3)); if (u.ptam) Rm.block(3, 3, 3, 3) = M3::Identity() * g.logu(1e-6, 1e-3);
    MX R = w.send("pose", u, z, T + u.delay_pose, g, g.i(0, 100), Rm); RefState post = snap(*A.at(T));
    if (!have) {
      for (size_t i = 0; i < post.x.size(); i++) if (post.x[i] != pre.x[i]) violate("first_relative_used", "the first relative measurement of a sensor changed the estimate");
    } else {
      // residual of the relative pose: what the true pair would measure minus what is predicted, to first order in both states' errors
      auto rr = [&](const std::vector<VX>& xo, const std::vector<VX>& xn, const VX& zo, const VX& zn) {
        VX ho = pose_h(xo), hn = pose_h(xn), r(6); r.head(3) = (zn.head(3) - zo.head(3)) - (hn.head(3) - ho.head(3));
        Qd rel = zq(hn).conjugate() * zq(ho), relm = zq(zn).conjugate() * zq(zo), e = rel * relm.conjugate(); r.tail(3) = 2 * e.vec() / e.w(); return r; };
      VX ho = pose_h(old.x), hn = pose_h(pre.x);
      clear_cross(old, A.L, fx); RefState ref = pre; clear_cross(ref, A.L, fx);
      MX Ho = num_H(old.x, A.L, 6, [&](const std::vector<VX>& y) { return rr(y, pre.x, ho, hn); }), Hn = num_H(pre.x, A.L, 6, [&](const std::vector<VX>& y) { return rr(old.x, y, ho, hn); });
      for (int v : fx) { Ho.block(0, A.L[v].at_err, 6, A.L[v].err).setZero(); Hn.block(0, A.L[v].at_err, 6, A.L[v].err).setZero(); }
      VX r = rr(old.x, pre.x, zp, z);
      MX Pc(2 * N, 2 * N); Pc << old.P, old.P * F.transpose(), F * old.P, ref.P; if (!vf::finite(Pc) || !(Pc.diagonal().maxCoeff() < 10) || !(V3(pre.x[0]).norm() < 1e3) || !(mineig_scaled(Pc) >= -1e-9)) { count("degenerate_prior"); return; }  // e.g. after fixed quantities lost their cross covariance
      MX Hc(6, 2 * N); Hc << Ho, Hn; MX Sv = Hc * Pc * Hc.transpose() + R; MX K = (Pc * Hc.transpose() * Sv.inverse()).bottomRows(N);
      // an attitude residual may be expressed in either of the two body frames: the gain is the same to first order, so judge only updates with a small residual
      VX corr = K * r; if (u.fixbias) corr.segment(9, 6).setZero(); ref_correct(ref.x, A.L, corr); ref.P = ref.P - K * Sv * K.transpose(); neg_scale(ref);
      std::string what; double e = update_err(post, ref, pre, A.L, what); maxim("err_relative", e); count("relative_updates");
      if (!(e <= 2e-3)) violate("model_relative_pose", cat(what, " (relative deviation ", e, ", residual ", r.transpose(), ", fixed states ", fx.size(), ")"));
      nontrivial(); sigd(r(0));
    }
    have = true; Tp = T; zp = z;
  }
}
#endif

static V3 getp(const std::string& base) { V3 v; static const char* n[3] = {"/x", "/y", "/z"}; for (int i = 0; i < 3; i++) { auto it = bus().params.find(base + n[i]); v(i) = it == bus().params.end() ? 0 : std::any_cast<double>(it->second); } return v; }
static void setp(const std::string& base, const V3& v) { setParam<double>(base + "/x", v.x()); setParam<double>(base + "/y", v.y()); setParam<double>(base + "/z", v.z()); }
static void expect(const std::string& key, double err, double tol, const std::string& what) { if (!(err <= tol)) violate(key, cat(what, ": deviation ", err)); else count(key + "_ok"); }
// sign-independent distance of two unit quaternions
static double qdist(const Qd& a, const Qd& b) { return std::min((a.coeffs() - b.coeffs()).norm(), (a.coeffs() + b.coeffs()).norm()); }

#if !defined(SELECT) || defined(W_init)
// Initialisation from parameters, configuration and the latest measurements.
static void init(Rng& g, uint64_t) {
  Setup u = random_setup(g, false); u.delay_pose = u.delay_pos = u.delay_ang = u.delay_dist = 0; u.params();
  V3 p_ic_ = V3::Zero(), p_ip_ = V3::Zero(); Qd q_ic_ = Qd::Identity();
  if (g.p(0.7)) { p_ic_ = randv(g, 0.5); setp("/node/pose_sensor/init/p_ic", p_ic_); }
  if (g.p(0.7)) { q_ic_ = randq(g); double k = g.p(0.5) ? 1 : g.u(0.5, 2); setParam<double>("/node/pose_sensor/init/q_ic/w", q_ic_.w() * k); setParam<double>("/node/pose_sensor/init/q_ic/x", q_ic_.x() * k); setParam<double>("/node/pose_sensor/init/q_ic/y", q_ic_.y() * k); setParam<double>("/node/pose_sensor/init/q_ic/z", q_ic_.z() * k); }
  if (g.p(0.7)) { p_ip_ = randv(g, 0.5); setp("/node/position_sensor/init/p_ip", p_ip_); }
  App A; double t = q9(g.u(100, 1000)); A.start(t); u.configure(A); Wire w; w.set_gps_reference(g);
#ifdef HAS_POSITION
  // the reference fix itself counts as a position measurement of zero if covariances are fixed
#endif
  std::map<std::string, VX> last;  // latest admitted measurement of each sensor
  auto feed = [&](int maxn) { for (std::string s : sensor_names(u.fixedcov)) { int n = g.i(0, maxn); for (int k = 0; k < n; k++) {
      std::vector<VX> x = A.randvars(g); Model m = model(s, x); VX z = m.z0;
#ifdef HAS_POSE
      if (s == "pose" && g.p(0.06)) z(2) = 0;  // a sensor at height zero
#endif
      t = q9(t + g.u(0.005, 0.02)); w.send(s, u, z, t, g, g.i(0, 100), MX::Identity(m.dim, m.dim) * 1e-4); last[s == "gps" ? "position" : s] = z; } } };
  feed(2); int rounds = g.i(1, 3);
  for (int round = 0; round < rounds; round++) {
    Cfg& c = A.cfg; double scale = 1, yaw = 0;
#ifdef HAS_POSE
    c.pose_initial_scale = scale = g.logu(0.05, 20); c.pose_noise_scale = g.u(0, 0.2); c.pose_noise_p_wv = g.u(0, 0.2); c.pose_noise_q_wv = g.u(0, 0.2); c.pose_noise_p_ic = g.u(0, 0.2); c.pose_noise_q_ic = g.u(0, 0.2);
#endif
#ifdef HAS_POSITION
    yaw = c.position_yaw_init = g.u(-180, 180); c.position_noise_p_ip = g.u(0, 0.2);
#endif
#ifdef HAS_PRESSURE
    c.press_noise_bias_p = g.u(0, 0.2);
#endif
#ifdef HAS_SPHERICAL
    yaw = c.yaw_init = g.u(-180, 180); c.noise_p_ip = g.u(0, 0.2);
#endif
    msf_core::MSF_CoreConfig cc = A.coreserver().config(); cc.core_noise_acc = g.u(0, 1); cc.core_noise_gyr = g.u(0, 0.5); cc.core_noise_accbias = g.u(0, 0.2); cc.core_noise_gyrbias = g.u(0, 0.2); A.coreserver().update(cc);
    A.apply(); t = q9(t + g.u(0.01, 2)); ros::Time::fake() = stamp(t); long n0 = A.m->n_init; bool refused = false; std::string how = "checkbox";
    std::streambuf* o = std::cout.rdbuf(nullptr);
    int way = g.i(0, 3);
#ifdef HAS_POSE
    bool meas = last.count("pose"); double pz = meas ? last["pose"](2) : 0;
    if (meas && !(last["pose"].head(3).norm() > 0)) { std::cout.rdbuf(o); std::cout.clear(); return; }
    if (way == 1) {  // by height, reconfigure
      how = "height"; double h = g.u(0.1, 20); c.core_height = h; c.core_set_height = true; A.apply(); refused = !meas; scale = pz / h; if (refused) { c.core_set_height = false; A.apply(); } }
#ifdef APP_POSE
    else if (way == 2) { how = "scale service"; sensor_fusion_comm::InitScale::Request rq; sensor_fusion_comm::InitScale::Response rs; scale = g.p(0.1) ? g.pick(std::vector<double>{0, -1, 0.0005}) : g.logu(0.01, 50); rq.scale = scale; scale = rq.scale; if (!bus().services.count("/node/pose_sensor/initialize_msf_scale")) { violate("no_service", "scale service"); return; } bool ok = bus().services["/node/pose_sensor/initialize_msf_scale"](&rq, &rs); if (!ok) violate("service_result", "initialisation by scale refused"); }
    else if (way == 3) { how = "height service"; sensor_fusion_comm::InitHeight::Request rq; sensor_fusion_comm::InitHeight::Response rs; double h = g.p(0.3) ? g.u(-0.009, 0.009) : g.u(0.02, 10) * (g.p(0.3) ? -1 : 1); rq.height = h; h = rq.height; refused = !meas || std::fabs(h) <= 0.01; scale = pz / h; if (!bus().services.count("/node/pose_sensor/initialize_msf_height")) { violate("no_service", "height service"); return; } bool ok = bus().services["/node/pose_sensor/initialize_msf_height"](&rq, &rs); if (ok == refused) violate("service_result", cat("initialisation by height ", h, ok ? " accepted" : " refused")); }
#endif
    else
#endif
    { c.core_init_filter = true; A.apply(); if (A.server().config().core_init_filter) violate("checkbox", "the init checkbox was not reset"); }
    std::cout.rdbuf(o); std::cout.clear();
    if (scale < 0.001) scale = 1; count("how_" + how);
    if (refused) { if (A.m->n_init != n0) violate("init_refused", cat(how, " initialised the filter")); count("refused"); feed(2); continue; }
    if (A.m->n_init != n0 + 1) { violate("init_missing", cat(how, ": filter initialised ", A.m->n_init - n0, " times")); return; }
    SP s0 = A.at(t); RefState s = snap(*s0); const std::vector<VX>& x = s.x;
    if (s.t != t) { violate("init_time", cat("initial state at ", s.t, ", now is ", t)); return; }
    for (size_t i = 0; i < x.size(); i++) if (!vf::finite(x[i])) { violate("init_nonfinite", cat("variable ", i, " of the initial state")); return; }
    expect("init_velocity", x[1].norm() + x[3].norm() + x[4].norm(), 0, "velocity and biases");
    expect("init_readings", s.w.norm() + (s.a - toq(x[2]).conjugate() * V3(0, 0, 9.81)).norm(), 1e-12, "initial sensor readings");
    { S tmp; A.core().SetPCore(tmp.P); expect("init_cov", (s.P - tmp.P).cwiseAbs().maxCoeff(), 0, "initial covariance"); expect("default_cov", (s.P - default_cov(N)).cwiseAbs().maxCoeff(), 1e-12, "difference to the default covariance"); expect("init_cov_sym", asym(s.P), 0, "asymmetry"); expect("init_cov_psd", -mineig_scaled(s.P), 1e-12, "negative eigenvalue"); for (int i = 0; i < N; i++) if (i >= 15 && !(s.P(i, i) > 0)) violate("init_cov_aux", cat("variance ", i)); }
    for (size_t i = 0; i < x.size(); i++) if (A.L[i].quat) expect("init_unit", std::fabs(toq(x[i]).norm() - 1), 1e-12, cat("norm of quaternion ", i));
#ifdef HAS_POSE
    expect("init_scale", std::fabs(x[msf_updates::L](0) - scale), 1e-12 * scale, cat("scale ", scale, " by ", how));
    expect("init_calib", (V3(x[msf_updates::p_ic]) - p_ic_).norm() + qdist(toq(x[msf_updates::q_ic]), q_ic_), 1e-12, "p_ic, q_ic");
    double lim = 1e-9 * (1 + (meas ? last["pose"].norm() : 0) + scale * (1 + V3(x[0]).norm()));
    if (meas) { VX h = pose_h(x), z = last["pose"]; expect("init_pose_consistent", (h.head(3) - z.head(3)).norm() + qdist(zq(h), zq(z)), lim, cat("predicted pose against the latest measurement, scale ", scale)); }
#if !defined(HAS_POSITION)
    expect("init_frame", qdist(toq(x[msf_updates::q_wv]), Qd::Identity()) + x[msf_updates::p_wv].norm(), 0, "vision frame");
    if (!meas) expect("init_default", qdist(toq(x[2]), Qd::Identity()) + (V3(x[0]) + p_ic_).norm(), 1e-12, "pose without measurement");
#endif
#endif
#if defined(HAS_POSITION) || defined(HAS_SPHERICAL)
    expect("init_yaw", qdist(toq(x[2]), qexp(V3(0, 0, yaw * M_PI / 180))), 1e-12, cat("attitude for yaw ", yaw));
    expect("init_lever", (V3(x[msf_updates::p_ip]) - p_ip_).norm(), 0, "p_ip");
    V3 pt = V3(x[0]) + toq(x[2]) * V3(x[msf_updates::p_ip]);
#endif
#ifdef HAS_POSITION
    { V3 z = last.count("position") ? V3(last["position"]) : V3::Zero(); expect("init_position_consistent", (pt - z).norm(), 1e-7 * (1 + z.norm()), "predicted position against the latest measurement"); }
#endif
#ifdef HAS_SPHERICAL
    { double d = last.count("distance") ? last["distance"](0) : 0, th = last.count("angle") ? last["angle"](0) : 0, ph = last.count("angle") ? last["angle"](1) : 0;
      expect("init_position_consistent", (pt - d * V3(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th))).norm(), 1e-9 * (1 + d), cat("initial position, distance ", d, " angles ", th, " ", ph)); }
#endif
#ifdef HAS_PRESSURE
    { double z = last.count("pressure") ? last["pressure"](0) : 0; expect("init_pressure_consistent", std::fabs(x[0](2) - x[msf_updates::b_p](0) - z), lim, cat("predicted pressure height against ", z)); }
#endif
    vf::sig(way); sigd(scale); sigd(x[0](0)); nontrivial(); count("initialisations"); if (round == 0) sample(cat(how, " scale ", scale, " at ", t, " p0 ", x[0].transpose()));
    // process noise of the additional states, and the configured core noise
    const double dt = 0.01; int k = g.i(5, 12); double t0 = t; V3 am = s.a, wm = randv(g, 0.2);
    for (int i = 0; i < k; i++) { t = q9(t + dt); if (!A.imu(t, am, wm)) { violate("no_imu_handler", "the application does not listen to IMU messages"); return; } }
    if (A.at(t)->time != t) { violate("no_state", "filter does not run after initialisation"); return; }
    MX P1 = A.core().GetClosestState(t)->P, D = P1 - s.P; double T = t - t0;
    std::map<int, double> nz;
#ifdef HAS_POSE
    nz[msf_updates::L] = c.pose_noise_scale; nz[msf_updates::p_wv] = c.pose_noise_p_wv; nz[msf_updates::q_wv] = c.pose_noise_q_wv; nz[msf_updates::p_ic] = c.pose_noise_p_ic; nz[msf_updates::q_ic] = c.pose_noise_q_ic;
#endif
#ifdef HAS_POSITION
    nz[msf_updates::p_ip] = c.position_noise_p_ip;
#endif
#ifdef HAS_PRESSURE
    nz[msf_updates::b_p] = c.press_noise_bias_p;
#endif
#ifdef HAS_SPHERICAL
    nz[msf_updates::p_ip] = c.noise_p_ip;
#endif
    nz[3] = cc.core_noise_gyrbias; nz[4] = cc.core_noise_accbias;
    for (size_t i = 3; i < A.L.size(); i++) { int a = A.L[i].at_err, n = A.L[i].err; if (!nz.count(i)) continue; MX E = D.block(a, a, n, n) - MX::Identity(n, n) * nz[i] * nz[i] * T; expect(cat("noise_var"), E.cwiseAbs().maxCoeff(), 1e-10 + 1e-9 * T, cat("process noise of variable ", i, " with density ", nz[i], " over ", T, " s")); }
    if (N > 15) expect("noise_cross", D.block(15, 0, N - 15, 15).cwiseAbs().maxCoeff(), 0, "cross covariance of additional states after initialisation");
    // the core noise densities reach the propagation: with all of them zero nothing is added, and each contributes quadratically
    { auto add = [&](double na, double ng) { msf_core::MSF_CoreConfig q = cc; q.core_noise_acc = na; q.core_noise_gyr = ng; q.core_noise_accbias = q.core_noise_gyrbias = 0; A.coreserver().update(q); SP a(new S), b(new S); *a = *A.at(t0 == t ? t : t); *b = *a; a->P.setZero(); b->time = a->time + 0.01; A.core().PropagateState(a, b); A.core().PredictProcessCovariance(a, b); MX P = b->P.block(0, 0, 15, 15); A.coreserver().update(cc); return P; };
      MX z = add(0, 0), a1 = add(0.5, 0), a2 = add(1, 0), g1 = add(0, 0.5), g2 = add(0, 1);
      expect("core_noise_zero", z.cwiseAbs().maxCoeff(), 0, "noise added with all densities zero");
      expect("core_noise_acc", a1(3, 3) > 1e-7 && std::fabs(a2(3, 3) / a1(3, 3) - 4) < 1e-9 ? 0 : 1, 0, cat("velocity noise ", a1(3, 3), " ", a2(3, 3)));
      expect("core_noise_gyr", g1(6, 6) > 1e-4 && std::fabs(g2(6, 6) / g1(6, 6) - 4) < 1e-9 && std::fabs(g2(6, 6) / 0.01 - 1) < 0.05 ? 0 : 1, 0, cat("attitude noise ", g1(6, 6), " ", g2(6, 6)));
      expect("core_noise_separate", a1.block(6, 6, 3, 3).cwiseAbs().maxCoeff(), 0, "attitude noise from the accelerometer"); }
    if (round + 1 < rounds) feed(2);
  }
}
#endif

#if !defined(SELECT) || defined(W_stream)
#include "known_q.h"
// IMU readings and external messages through the application's ROS topics: the
// readings stored, the propagated mean, the transported covariance and the
// process noise with the application's configuration.
static void stream(Rng& g, uint64_t) {
  Setup u = random_setup(g, false); u.params(); if (g.p(0.3)) setParam<bool>("/node/core/data_playback", true);
  App A; double t = q9(g.u(100, 1000)); A.start(t); u.configure(A); Cfg& c = A.cfg; std::map<int, double> nz; auto dens = [&]() { return g.p(0.15) ? 0 : g.logu(1e-4, 0.2); };
#ifdef HAS_POSE
  nz[msf_updates::L] = c.pose_noise_scale = dens(); nz[msf_updates::p_wv] = c.pose_noise_p_wv = dens(); nz[msf_updates::q_wv] = c.pose_noise_q_wv = dens(); nz[msf_updates::p_ic] = c.pose_noise_p_ic = dens(); nz[msf_updates::q_ic] = c.pose_noise_q_ic = dens();
#endif
#ifdef HAS_POSITION
  nz[msf_updates::p_ip] = c.position_noise_p_ip = dens();
#endif
#ifdef HAS_PRESSURE
  nz[msf_updates::b_p] = c.press_noise_bias_p = dens();
#endif
#ifdef HAS_SPHERICAL
  nz[msf_updates::p_ip] = c.noise_p_ip = dens();
#endif
  msf_core::MSF_CoreConfig cc = A.coreserver().config(); auto core = [&]() { cc.core_noise_acc = g.logu(1e-3, 1); cc.core_noise_gyr = g.logu(1e-4, 0.5); cc.core_noise_accbias = g.logu(1e-7, 0.2); cc.core_noise_gyrbias = g.logu(1e-7, 0.2); cc.core_fixed_bias = g.p(0.2); A.coreserver().update(cc); }; core();
  A.apply(); A.init(t); if (!A.m->n_init) { violate("stream_init", "not initialised"); return; }
  { SP s = A.core().GetClosestState(t); std::vector<VX> x = A.randvars(g, 0.1); setvars(*s, x); s->P = randspd(g, N, g.logu(1e-4, 1)); }
  ImuGen sg(g, g.logu(0.1, 15), g.logu(0.01, 2)); int n = g.i(12, 40); bool ext = g.p(0.4); uint32_t seq = g.i(0, 1000);
  for (int k = 0; k < n; k++) {
    RefState o = snap(*A.at(t)); if (o.t != t) { violate("stream_lost", cat("state at ", t, " lost, the closest is at ", o.t)); return; }
    double d = g.logu(1e-3, 0.02); if (g.p(0.05)) d = g.u(0.02, 0.09); t = q9(t + d); V3 a = sg.a(t), w = sg.w(t); if (g.p(0.1)) { if (g.p(0.5)) w.setZero(); if (g.p(0.5)) a = V3(0, 0, 9.80834); if (g.p(0.3)) a(g.i(0, 2)) = 0; count("special_inputs"); }
    if (ext && k > 0) {
      sensor_fusion_comm::ExtEkf m; m.header.stamp = stamp(t); m.header.seq = seq++; m.state.resize(16); for (auto& f : m.state) f = g.n(); m.linear_acceleration.x = a.x(); m.linear_acceleration.y = a.y(); m.linear_acceleration.z = a.z(); m.angular_velocity.x = w.x(); m.angular_velocity.y = w.y(); m.angular_velocity.z = w.z(); m.flag = sensor_fusion_comm::ExtEkf::ignore_state;
      if (!deliver("/msf_core/hl_state_input", m)) { violate("no_imu_handler", "the application does not listen to external states"); return; } count("external_messages");
    } else { if (!A.imu(t, a, w)) { violate("no_imu_handler", "the application does not listen to IMU messages"); return; } count("imu_messages"); }
    SP s = A.at(t); RefState r = snap(*s); if (r.t != t) { violate("stream_no_state", cat("no state at the stamp of message ", k)); return; }
    if (r.a != a || r.w != w) { violate("stream_reading", cat("stored reading a ", r.a.transpose(), " w ", r.w.transpose(), " of message a ", a.transpose(), " w ", w.transpose())); return; }
    V3 p, v; Qd q; fine(o, r, p, v, q); double dt = r.t - o.t;
    double W = std::max((o.w - V3(o.x[3])).norm(), (r.w - V3(o.x[3])).norm()), dW = (r.w - o.w).norm(), M = std::max((o.a - V3(o.x[4])).norm(), (r.a - V3(o.x[4])).norm()), dA = (r.a - o.a).norm(), e = W * dt;
    double tq = 1e-9 + 0.02 * std::pow(e, 5) + 0.05 * e * e * dW * dt, tv = 1e-9 * (1 + M) + dt * ((W * W + dW / dt) * dt * dt * M + 2 * W * dt * dA) / 6 + M * dt * tq, tp = 1e-9 * (1 + M * dt) + dt * tv + dt * dt * (W * M * dt + dA) / 5, eps = 1e-9 * (V3(o.x[1]).norm() + M);
    double eq = qlog((q.conjugate() * toq(r.x[2]).normalized())).norm(), ev = (V3(r.x[1]) - v).norm(), ep = (V3(r.x[0]) - p).norm(); std::string at = cat(ext ? "external" : "imu", " message ", k, " dt=", dt, " |w|=", W, " |a|=", M);
    if (!(eq <= tq)) violate("stream_mean_attitude", cat(at, " attitude error ", eq, " budget ", tq)); if (!(ev <= tv + eps)) violate("stream_mean_velocity", cat(at, " velocity error ", ev, " budget ", tv)); if (!(ep <= tp + eps)) violate("stream_mean_position", cat(at, " position error ", ep, " budget ", tp));
    if (!near(r.x[2].norm(), 1, 1e-12)) violate("stream_mean_unit", cat("|q|=", r.x[2].norm()));
    for (size_t i = 3; i < r.x.size(); i++) if (r.x[i] != o.x[i]) violate("stream_mean_changed", cat("variable ", i, " changed during propagation"));
    count("steps"); nontrivial(); sigd(t); maxim("velocity_err_over_budget", ev / (tv + eps)); maxim("attitude_err_over_budget", eq / tq);
    // covariance: the transition against the matrix exponential, the noise isolated by a second step from zero covariance
    SP po(new S(*A.at(o.t))), pn(new S(*s)); if (po->time != o.t) continue; po->P.setZero(); pn->P.setZero(); A.core().PredictProcessCovariance(po, pn); MX Q = pn->P;
    V3 ew = r.w - V3(r.x[3]), ea = r.a - V3(r.x[4]); M3 C = toq(r.x[2]).toRotationMatrix(); MX Fc = ref_Fc(C, ea, ew), F = MX::Identity(N, N); F.topLeftCorner(15, 15) = expm(Fc * dt); MX want = F * o.P * F.transpose(); e = ew.norm() * dt; double rel = 1e-9 + 3 * e * e * e + 0.2 * e * e;
    if (k > 4) {  // before that the filter may not have propagated the covariance yet
    for (size_t i = 0; i < A.L.size(); i++) for (size_t j = 0; j < A.L.size(); j++) { auto bi = A.L[i], bj = A.L[j]; double sc = std::sqrt(want.block(bi.at_err, bi.at_err, bi.err, bi.err).diagonal().maxCoeff() * want.block(bj.at_err, bj.at_err, bj.err, bj.err).diagonal().maxCoeff()), er = (r.P - Q - want).block(bi.at_err, bj.at_err, bi.err, bj.err).cwiseAbs().maxCoeff(), tol = rel * sc + 1e-15 * (Q.diagonal().maxCoeff() + r.P.diagonal().maxCoeff()); maxim("transition_err_over_tol", er / tol);
      if (!(er <= tol)) violate(cat("stream_cov_", i, "_", j), cat("covariance block (", i, ",", j, ") after ", at, " off by ", er, " (scale ", sc, ", tolerance ", tol, ")")); }
    count("covariances"); }
    Noise z; z.acc = cc.core_noise_acc; z.accb = cc.core_noise_accbias; z.gyr = cc.core_noise_gyr; z.gyrb = cc.core_noise_gyrbias;
    MX Qe = ref_Qd(Fc, C, dt, z), Qk = known_Q(dt, toq(r.x[2]), ew, ea, z.acc, z.accb, z.gyr, z.gyrb);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
      if (i < 15 && j < 15) { double sc = std::sqrt(Qe(i, i) * Qe(j, j)), sk = std::sqrt(std::fabs(Qk(i, i) * Qk(j, j))); if (std::fabs(Q(i, j) - Qe(i, j)) <= (2e-3 + 3 * e) * sc * (e < 0.01 ? 1 : 0) || std::fabs(Q(i, j) - Qk(i, j)) <= 1e-9 * sk + 1e-9 * std::fabs(Qk(i, j))) { count("noise_entries"); continue; } violate(cat("stream_noise_", i, "_", j), cat("process noise (", i, ",", j, ") is ", Q(i, j), ", exact ", Qe(i, j), ", known deviation ", Qk(i, j), "; ", at)); }
      else { double wq = 0; int var = -1; if (i == j) for (size_t b = 5; b < A.L.size(); b++) if (i >= A.L[b].at_err && i < A.L[b].at_err + A.L[b].err) { var = b; wq = nz.count(b) ? nz[b] * nz[b] * dt : -1; } if (wq >= 0 && !near(Q(i, j), wq, 1e-12 * wq)) violate("stream_noise_aux", cat("process noise (", i, ",", j, ") of variable ", var, " is ", Q(i, j), " instead of ", wq)); } }
    if (g.p(0.05)) core();
  }
}
#endif
#if !defined(SELECT) || defined(W_publish)
// Every published message against the state it reports.
typedef sensor_fusion_comm::ExtEkf Ext;
static double rel(double a, double b) { return std::fabs(a - b) / (1 + std::fabs(b)); }
static void same(const std::string& key, double got, double want, double tol, const std::string& what) { if (!(rel(got, want) <= tol)) violate(key, cat(what, " is ", got, " instead of ", want)); else count("fields"); }
struct PubMon {
  App& A; std::string out = "world", child = "imu", target = "state"; double n_gyr = 0; bool playback = false; std::vector<float> hl; std::map<std::string, bool> sub; double now = 0;
  PubMon(App& a) : A(a) { hl.assign(16, 0); hl[6] = 1; }
  template<class M> std::vector<boost::shared_ptr<M> > got(const std::string& t) { return published<M>("/msf_core/" + t); }
  void head(const std::string& t, const std_msgs::Header& h, double time, const std::string& frame, bool chkframe = true) { if (std::fabs(h.stamp.toSec() - time) > 2e-9) violate("stamp", cat(t, " stamped ", h.stamp.toSec(), ", state of ", time)); else count("stamps"); if (chkframe && h.frame_id != frame) violate("frame", cat(t, " in frame '", h.frame_id, "' instead of '", frame, "'")); }
  template<class P, class O> void pose(const std::string& t, const P& p, const O& o, const RefState& s) {
    double a[7] = {p.x, p.y, p.z, o.w, o.x, o.y, o.z}; for (int i = 0; i < 7; i++) same(t, a[i], i < 3 ? s.x[0](i) : s.x[2](i - 3), 1e-12, cat(t, " pose entry ", i)); }
  template<class C> void posecov(const std::string& t, const C& c, const RefState& s) { for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) same(t + "_cov", c[i * 6 + j], s.P(i < 3 ? i : i + 3, j < 3 ? j : j + 3), 1e-12, cat(t, " covariance ", i, ",", j)); }
  void propagated(const RefState& s) {
    bool any = sub["pose"] || sub["odometry"] || sub["ext_state"];
    auto po = got<geometry_msgs::PoseWithCovarianceStamped>("pose"); auto od = got<nav_msgs::Odometry>("odometry"); auto ex = got<sensor_fusion_comm::ExtState>("ext_state");
    auto cnt = [&](const std::string& t, size_t n, bool s_) { if (s_ && n != 1) violate("missing", cat(t, " published ", n, " times for a propagated state")); if (n > 1) violate("missing", cat(t, " published ", n, " times")); };
    cnt("pose", po.size(), sub["pose"]); cnt("odometry", od.size(), sub["odometry"]); cnt("ext_state", ex.size(), sub["ext_state"]); (void)any;
    for (auto& m : po) { head("pose", m->header, s.t, out); pose("pose", m->pose.pose.position, m->pose.pose.orientation, s); posecov("pose", m->pose.covariance, s); count("pose"); }
    for (auto& m : ex) { head("ext_state", m->header, s.t, out); pose("ext_state", m->pose.position, m->pose.orientation, s); double v[3] = {m->velocity.x, m->velocity.y, m->velocity.z}; for (int i = 0; i < 3; i++) same("ext_state", v[i], s.x[1](i), 1e-12, "velocity"); count("ext_state"); }
    for (auto& m : od) {
      head("odometry", m->header, s.t, out); if (m->child_frame_id != child) violate("frame", "odometry child frame " + m->child_frame_id); pose("odometry", m->pose.pose.position, m->pose.pose.orientation, s); posecov("odometry", m->pose.covariance, s);
      M3 R = toq(s.x[2]).toRotationMatrix(); V3 v = R.transpose() * V3(s.x[1]), w = s.w - V3(s.x[3]); double l[3] = {m->twist.twist.linear.x, m->twist.twist.linear.y, m->twist.twist.linear.z}, an[3] = {m->twist.twist.angular.x, m->twist.twist.angular.y, m->twist.twist.angular.z};
      for (int i = 0; i < 3; i++) { same("odometry", l[i], v(i), 1e-11, cat("body velocity ", i)); same("odometry", an[i], w(i), 1e-12, cat("angular rate ", i)); }
      // body velocity v_I = R^T v_W: derivative with respect to the attitude error is [v_I]x
      MX J(3, 6); J << R.transpose(), sk(v); MX C(6, 6); C << s.P.block(3, 3, 3, 3), s.P.block(3, 6, 3, 3), s.P.block(6, 3, 3, 3), s.P.block(6, 6, 3, 3); MX T = MX::Zero(6, 6); T.block(0, 0, 3, 3) = J * C * J.transpose(); T.block(3, 3, 3, 3) = s.P.block(9, 9, 3, 3) + M3::Identity() * n_gyr * n_gyr;
      for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) same("odometry_twist_cov", m->twist.covariance[i * 6 + j], T(i, j), 1e-11, cat("twist covariance ", i, ",", j)); count("odometry");
    }
  }
  void updated(const RefState& s) {
    bool fin = true; for (auto& v : s.x) fin = fin && vf::finite(v);
    auto co = got<Ext>("correction"); auto st = got<sensor_fusion_comm::DoubleArrayStamped>("state_out"); auto pa = got<geometry_msgs::PoseWithCovarianceStamped>("pose_after_update");
    if (sub["correction"] && co.size() != (fin ? 1u : 0u)) violate("missing", cat("correction published ", co.size(), " times for an update"));
    for (auto& m : co) {
      head("correction", m->header, s.t, "", false); if (m->state.size() != 16) { violate("correction", cat("correction has ", m->state.size(), " entries")); continue; }
      if (playback) { if (m->flag != (int)Ext::initialization) violate("correction", "flag in playback"); for (int i = 0; i < 16; i++) same("correction", m->state[i], i == 6, 0, "entry in playback"); count("correction_playback"); }
      else { if (m->flag != (int)Ext::state_correction) violate("correction", cat("flag ", m->flag)); VX e(16); for (int i = 0; i < 3; i++) { e(i) = s.x[0](i) - hl[i]; e(3 + i) = s.x[1](i) - hl[3 + i]; e(10 + i) = s.x[3](i) - hl[10 + i]; e(13 + i) = s.x[4](i) - hl[13 + i]; }
        Qd h(hl[6], hl[7], hl[8], hl[9]); Qd q = h.inverse() * toq(s.x[2]); e(6) = q.w(); e(7) = q.x(); e(8) = q.y(); e(9) = q.z(); for (int i = 0; i < 16; i++) same("correction", m->state[i], e(i), 1e-6, cat("correction entry ", i)); count("correction"); }
    }
    if (st.size() != 1) violate("missing", cat("state_out published ", st.size(), " times for an update"));
    for (auto& m : st) { head("state_out", m->header, s.t, "", false); size_t n = A.L.back().at_state + A.L.back().n; if (m->data.size() != n) { violate("state_out", cat("state_out has ", m->data.size(), " entries")); continue; } for (size_t i = 0; i < A.L.size(); i++) for (int k = 0; k < A.L[i].n; k++) same("state_out", m->data[A.L[i].at_state + k], s.x[i](k), 1e-12, cat("state_out variable ", i, " entry ", k)); count("state_out"); }
    if (sub["pose_after_update"] && pa.size() != 1) violate("missing", cat("pose_after_update published ", pa.size(), " times"));
    for (auto& m : pa) { head("pose_after_update", m->header, s.t, out); pose("pose_after_update", m->pose.pose.position, m->pose.pose.orientation, s); posecov("pose_after_update", m->pose.covariance, s); count("pose_after_update"); }
    if (tf::sent().size() != 1) violate("missing", cat("transform broadcast ", tf::sent().size(), " times for an update"));
    for (auto& m : tf::sent()) { if (m.frame_id_ != out || m.child_frame_id_ != target) violate("frame", "transform " + m.frame_id_ + " to " + m.child_frame_id_); double a[7] = {m.o.x(), m.o.y(), m.o.z(), m.r.w(), m.r.x(), m.r.y(), m.r.z()}; for (int i = 0; i < 7; i++) same("tf", a[i], i < 3 ? s.x[0](i) : s.x[2](i - 3), 1e-12, "transform"); count("tf"); }
    struct { const char* t; int r0, c0, r, c; } M[3] = {{"cov_core", 0, 0, 15, 15}, {"cov_aux", 15, 15, N - 15, N - 15}, {"cov_core_aux", 0, 15, 15, N - 15}};
    for (auto& k : M) { auto v = got<sensor_fusion_comm::DoubleMatrixStamped>(k.t); if (sub[k.t] && v.size() != 1) violate("missing", cat(k.t, " published ", v.size(), " times")); for (auto& m : v) { head(k.t, m->header, s.t, "", false); if ((int)m->rows != k.r || (int)m->cols != k.c || (int)m->data.size() != k.r * k.c) { violate("cov_size", cat(k.t, " ", m->rows, "x", m->cols, " with ", m->data.size(), " entries")); continue; } for (int i = 0; i < k.r; i++) for (int j = 0; j < k.c; j++) same(k.t, m->data[i * k.c + j], s.P(k.r0 + i, k.c0 + j), 1e-12, cat(k.t, " entry ", i, ",", j)); count(k.t); } }
  }
  void initial(const RefState& s) {
    auto co = got<Ext>("correction"); if (co.size() != 1) violate("missing", cat("correction published ", co.size(), " times at initialisation"));
    for (auto& m : co) { head("correction", m->header, s.t, "", false); if (m->flag != (int)Ext::initialization || m->state.size() != 16) { violate("correction", "initialisation message"); continue; } int k = 0; for (int i = 0; i < 5; i++) for (int j = 0; j < A.L[i].n; j++) same("correction", m->state[k++], s.x[i](j), 1e-6, cat("initialisation message entry ", k)); count("correction_init"); }
  }
  void clear() { clearPublished(); tf::sent().clear(); }
};
static void publish(Rng& g, uint64_t) {
  Setup u = random_setup(g, false); u.mah = g.p(0.3); u.params(); App A; PubMon M(A); tf::sent().clear();
  if (g.p(0.5)) { M.out = "map"; setParam<std::string>("/node/core/msf_output_frame", M.out); } if (g.p(0.5)) { M.child = "body"; setParam<std::string>("/node/core/odometry_child_frame", M.child); } if (g.p(0.5)) { M.target = "fcu"; setParam<std::string>("/node/core/tf_target_frame", M.target); }
  if (g.p(0.25)) { M.playback = true; setParam<bool>("/node/core/data_playback", true); }
  double t = q9(g.u(100, 1000)); A.start(t); u.configure(A); Wire w; w.set_gps_reference(g);
  auto subs = [&](bool all) { for (std::string n : {"pose", "odometry", "ext_state", "correction", "pose_after_update", "cov_core", "cov_aux", "cov_core_aux", "state_out"}) { bool b = all || g.p(0.6); M.sub[n] = b; bus().topics["/msf_core/" + n].subscribers = b ? g.i(1, 3) : 0; } };
  subs(g.p(0.5)); M.clear();
  msf_core::MSF_CoreConfig cc = A.coreserver().config(); M.n_gyr = cc.core_noise_gyr = g.u(0, 0.5); A.coreserver().update(cc);
  std::vector<std::string> names = sensor_names(u.fixedcov); if (names.empty()) return;
  { std::vector<VX> x = A.randvars(g); for (auto& n : names) { if (n == "angle" || n == "distance") continue; w.send(n, u, model(n, x).z0, t - 1, g, g.i(0, 99), MX::Identity(6, 6).topLeftCorner(model(n, x).dim, model(n, x).dim) * 1e-4); } }
  std::vector<int> ev;  // what the base class was asked to report during one input
  A.m->on_init = [&](const SP&) { ev.push_back(0); }; A.m->on_prop = [&](const SP&) { ev.push_back(1); }; A.m->on_upd = [&](const SP&) { ev.push_back(2); };
  auto judge = [&](const char* what) { bool p = false, up = false; for (int e : ev) { if (e == 0) M.initial(A.m->last_init); if (e == 1) { if (p) violate("twice", what); p = true; M.propagated(A.m->last_prop); } if (e == 2) { if (up) { M.clear(); ev.clear(); return; } up = true; } }
    if (up) M.updated(A.m->last_upd); if (!p && !up && ev.empty()) for (auto& tp : bus().topics) if (!tp.second.out.empty()) violate("spurious", cat(tp.first, " published without a state (", what, ")"));
    M.clear(); ev.clear(); };
  A.init(t); judge("init"); ImuGen sg(g, 2, 0.5); int n = g.i(15, 40); bool ext = g.p(0.4);
  for (int k = 0; k < n; k++) {
    t = q9(t + 0.01);
    if (ext) { Ext m; m.header.stamp = stamp(t); m.header.seq = k; m.state.resize(16); for (auto& f : m.state) f = g.n(); V3 a = sg.a(t), ww = sg.w(t); m.linear_acceleration.x = a.x(); m.linear_acceleration.y = a.y(); m.linear_acceleration.z = a.z(); m.angular_velocity.x = ww.x(); m.angular_velocity.y = ww.y(); m.angular_velocity.z = ww.z(); m.flag = g.p(0.3) ? (int)Ext::current_state : (int)Ext::ignore_state;
      if (!deliver("/msf_core/hl_state_input", m)) { violate("no_handler", "hl_state_input"); return; } M.hl.assign(m.state.begin(), m.state.end()); count("external"); }
    else if (!A.imu(t, sg.a(t), sg.w(t))) { violate("no_imu_handler", "the application does not listen to IMU messages"); return; }
    if (!ev.empty()) nontrivial();
    judge("imu");
    if (g.p(0.1)) { subs(g.p(0.5)); } if (g.p(0.05)) { M.n_gyr = cc.core_noise_gyr = g.u(0, 0.5); A.coreserver().update(cc); }
    if (k > 6 && g.p(0.4)) {
      double T = q9(t - 0.01 * g.i(0, 3)); SP s = A.at(T); if (s->time != T) continue; std::string name = g.pick(names); Model m = model(name, getvars(*s)); if (!vf::finite(m.z0)) continue; VX d(m.dim); for (int i = 0; i < m.dim; i++) d(i) = g.n() * 0.02;
      VX z = m.plus(m.z0, d); w.send(name, u, z, T + u.delay(name), g, g.i(0, 99), MX::Identity(m.dim, m.dim) * 1e-4); count("measurements"); judge("measurement");
    }
  }
  // a state with a non-numeric quantity must not be sent to the external controller
  if (t - 0.01 > 0 && ext + (n & 1)) {
    SP s(new S(*A.at(t))); std::vector<VX> x = getvars(*s); int v = g.i(0, 4); x[v](g.i(0, (int)x[v].size() - 1)) = g.p(0.5) ? std::nan("") : INFINITY; setvars(*s, x); M.clear();
    A.m->PublishStateAfterUpdate(s); if (!M.got<Ext>("correction").empty()) violate("nonnumeric_correction", cat("a correction was sent to the external controller although variable ", v, " is not numeric")); count("nonnumeric_corrections"); M.clear();
  }
  vf::sig(n); sigd(t); if (M.playback) vf::sig(7);
}
#endif
#if !defined(SELECT) || defined(W_admission)
// Which sensor messages take effect, and where in time.
static void admission(Rng& g, uint64_t) {
  Setup u = random_setup(g, true); u.mah = false; u.min_dt = g.pick(std::vector<double>{0, 0.02, 0.05, 0.05, 0.12}); u.fixed.clear();
  u.params(); bool defaults = g.p(0.2);
  if (defaults) { bus().params.clear(); u.absolute = true; u.fixedcov = false; u.ptam = false; u.min_dt = 0.05; }  // documented defaults
  App A; double t = q9(g.u(100, 1000)); A.start(t); u.configure(A); Wire w; w.set_gps_reference(g); bool ready = false;
  A.init(t); ImuGen sg(g, 1, 0.3); uint32_t seq_tf = g.i(0, 4), seq_pr = g.i(0, 9), seq = 1; double last_pose = -1e9; double last_sent = 0;
  bool pos_abs = defaults ? false : u.absolute, sph_fixed = defaults ? true : u.fixedcov; int n = g.i(40, 90); (void)last_sent; (void)pos_abs; (void)sph_fixed; (void)seq_pr; (void)seq_tf;
  std::vector<double> ts; bool have_rel = false;
  for (int k = 0; k < n; k++) {
    t = q9(t + 0.01); if (!A.imu(t, sg.a(t), sg.w(t))) { violate("no_imu_handler", "the application does not listen to IMU messages"); return; } ts.push_back(t);
    ready = ts.size() > 8; if (!ready && ts.size() > 2) continue; if (!g.p(0.6)) continue;
    // a message whose effect falls on T
    double T = ready ? ts[ts.size() - 1 - g.i(1, 3)] : ts.back(); SP s = A.at(T); if (!s || s->time != T) { if (ready) violate("no_state", cat("no state at ", T)); continue; }
    std::vector<VX> x = getvars(*s); std::vector<std::string> topics;
#ifdef HAS_POSE
    topics.insert(topics.end(), {"pose_with_covariance_input", "odometry_input", "pose_input"});
#ifndef HAS_POSITION
    topics.push_back("transform_input");
#endif
#endif
#ifdef HAS_POSITION
    topics.insert(topics.end(), {"position_input", "navsatfix_input"});
#ifndef HAS_POSE
    topics.push_back("transform_input");
#endif
#endif
#ifdef HAS_PRESSURE
    topics.push_back("pressure_height");
#endif
#ifdef HAS_SPHERICAL
    topics.insert(topics.end(), {"angle_input", "distance_input"});
#endif
    std::string tp = g.pick(topics); bool admit = true, effect = true; double delay = 0, st = 0; std::function<size_t()> go; std::string full = "/msf_updates/" + tp;
    auto pt = [&](const V3& p) { geometry_msgs::PointStamped m; m.header.stamp = stamp(st); m.header.seq = seq; m.point.x = p.x(); m.point.y = p.y(); m.point.z = p.z(); return m; };
#ifdef HAS_POSE
    bool is_pose = tp == "pose_with_covariance_input" || tp == "odometry_input" || tp == "pose_input"
#ifndef HAS_POSITION
      || tp == "transform_input"
#endif
      ;
    if (is_pose) {
      delay = u.delay_pose; st = T + delay; Model m = model("pose", x); VX d(6); for (int i = 0; i < 6; i++) d(i) = g.n() * 0.05; VX z = m.plus(m.z0, d); if (u.ptam) { Qd q = zq(z).conjugate(); z.head(3) = -(q * V3(z.head(3))).eval(); z.tail(4) = q.coeffs(); }
      bool needcov = tp == "pose_input" || tp == "transform_input"; if (needcov && !u.fixedcov) admit = false;
      if (admit) { double gap = st - last_pose - (u.min_dt - 0.001); if (std::fabs(gap) < 1e-5) continue; if (gap <= 0) { admit = false; count("throttled"); } }
      if (st < last_pose - 0.0005 && u.min_dt <= 0.001) admit = false;
      if (admit) { last_pose = st; if (!u.absolute) { effect = have_rel; have_rel = ready || have_rel; if (!ready) have_rel = false; } }
      MX R = MX::Identity(6, 6) * 1e-3; int kind = tp[5] == 'w' ? 0 : tp[0] == 'o' ? 1 : tp == "pose_input" ? 2 : 3; uint32_t sq = seq++; double stt = st; go = [=] { send_pose(z, R, stt, sq, kind); return (size_t)1; };
      if (!u.absolute) effect = false;  // judged by the relative pose model
    }
#endif
#ifdef HAS_POSITION
    if (tp == "position_input" || tp == "navsatfix_input"
#ifndef HAS_POSE
        || tp == "transform_input"
#endif
    ) {
      delay = u.delay_pos; st = T + delay; V3 z = V3(pos_h(x)) + randv(g, 0.1); effect = pos_abs; 
      if (tp == "position_input") { seq++; admit = u.fixedcov; auto m = pt(z); go = [=] { return deliver(full, m); }; }
      else if (tp == "transform_input") { seq_tf += g.i(1, 3); geometry_msgs::TransformStamped m; m.header.stamp = stamp(st); m.header.seq = seq_tf; m.transform.translation.x = z.x(); m.transform.translation.y = z.y(); m.transform.translation.z = z.z(); m.transform.rotation.w = 1; admit = u.fixedcov && seq_tf % 5 == 0; go = [=] { return deliver(full, m); }; }
      else { sensor_msgs::NavSatFix m; m.header.stamp = stamp(st); m.header.seq = seq++; Geo geo(w.lat0, w.lon0, w.h0); geo.from(z, m.latitude, m.longitude, m.altitude); m.position_covariance_type = g.i(0, 3); for (int i = 0; i < 3; i++) m.position_covariance[4 * i] = 1e-2; bool zero = g.p(0.2); if (zero) for (auto& c : m.position_covariance) c = 0; admit = u.fixedcov || (m.position_covariance_type != 0 && !zero); go = [=] { return deliver(full, m); }; }
    }
#endif
#ifdef HAS_PRESSURE
    if (tp == "pressure_height") { st = T; seq_pr += g.i(1, 5); geometry_msgs::PointStamped m = pt(V3(g.n(), g.n(), x[0](2) - x[msf_updates::b_p](0) + g.n() * 0.3)); m.header.seq = seq_pr; admit = seq_pr % 10 == 0; go = [=] { return deliver(full, m); }; }
#endif
#ifdef HAS_SPHERICAL
    V3 sp = sph_p(x); if (std::hypot(sp.x(), sp.y()) < 0.05) continue;
    if (tp == "angle_input") { delay = u.delay_ang; st = T + delay; seq++; Model m = model("angle", x); admit = sph_fixed; effect = pos_abs; auto mm = pt(V3(m.z0(0) + g.n() * 0.01, m.z0(1) + g.n() * 0.05, g.n())); go = [=] { return deliver(full, mm); }; }
    if (tp == "distance_input") { delay = u.delay_dist; st = T + delay; seq++; admit = sph_fixed; effect = pos_abs; auto mm = pt(V3(g.n(), g.n(), sp.norm() + g.n() * 0.1)); go = [=] { return deliver(full, mm); }; }
#endif
    // the states the message may and may not touch
    std::vector<RefState> pre; A.core().GetClosestState(T); for (double a : ts) if (a >= T - 0.035) pre.push_back(snap(*A.at(a)));
    long u0 = A.m->n_upd; if (go() == 0) { violate("no_handler", cat("nothing listens to ", tp)); return; }
    count(admit ? "admitted" : "discarded"); count("topic_" + tp); if (admit && effect) nontrivial(); vf::sig(admit * 2 + effect); sigd(st);
    bool expect_update = admit && ready; std::string ctx = cat(tp, " stamped ", st, " (delay ", delay, ") for ", T, defaults ? ", default parameters" : "", u.fixedcov ? ", fixed covariance" : ", message covariance", ", minimum interval ", u.min_dt, ", seq ", seq_tf, "/", seq_pr);
    if (ready && A.m->n_upd - u0 != (expect_update ? 1 : 0)) { violate(admit ? "not_admitted" : "not_discarded", cat(ctx, ": ", A.m->n_upd - u0, " updates")); return; }
    for (auto& p : pre) {
      RefState q = snap(*A.at(p.t)); bool changed = false; for (size_t i = 0; i < q.x.size(); i++) if (q.x[i] != p.x[i]) changed = true;
      if (p.t < T - 1e-9 || !expect_update) { if (changed || (p.t <= T && q.P != p.P)) { violate(admit ? "wrong_time" : "discarded_effect", cat(ctx, ": the state at ", p.t, " changed")); return; } }
      else if (p.t == T) { if (effect && (!changed || q.P == p.P)) { violate("no_effect", ctx); return; }
        bool isrel = !u.absolute && !effect && tp != "pose_with_covariance_input" && tp != "odometry_input" && tp != "pose_input" && tp != "transform_input"; if (!effect && isrel && changed) { violate("relative_effect", ctx); return; } }
    }
    if (admit && effect && ready) count("effects"); if (!ready) count("before_ready");
  }
}
#endif
#if !defined(SELECT) || defined(W_ros_ext)
// Externally propagated states over the wire.
static void ros_ext(Rng& g, uint64_t) {
  typedef sensor_fusion_comm::ExtEkf Ext;
  Setup u = random_setup(g, false); u.params(); bool playback = g.p(0.3); if (playback) setParam<bool>("/node/core/data_playback", true);
  App A; double t = q9(g.u(100, 1000)); A.start(t); u.configure(A); A.init(t); ImuGen sg(g, 2, 0.5); int n = g.i(6, 25); RefState prev; bool have = false;
  for (int k = 0; k < n; k++) {
    t = q9(t + g.u(0.005, 0.02)); Ext m; m.header.stamp = stamp(t); m.header.seq = k; m.state.resize(16); for (int i = 0; i < 16; i++) m.state[i] = g.n(); double qs = g.p(0.3) ? g.u(0.5, 2) : 1; Qd q = randq(g); m.state[6] = q.w() * qs; m.state[7] = q.x() * qs; m.state[8] = q.y() * qs; m.state[9] = q.z() * qs;
    V3 a = sg.a(t), w = sg.w(t); m.linear_acceleration.x = a.x(); m.linear_acceleration.y = a.y(); m.linear_acceleration.z = a.z(); m.angular_velocity.x = w.x(); m.angular_velocity.y = w.y(); m.angular_velocity.z = w.z();
    int kind = g.i(0, 9); m.flag = kind < 6 ? (int)Ext::current_state : kind < 7 ? (int)Ext::ignore_state : kind < 8 ? (int)Ext::initialization : (int)Ext::current_state; bool take = kind < 6, ignore = false;
    if (kind == 8) { m.state[g.i(0, 9)] = g.p(0.5) ? std::nanf("") : INFINITY; } if (kind == 9) { m.state.resize(g.i(0, 15)); ignore = true; }
    if (playback) take = false; if (kind == 8) take = false;
    long p0 = A.m->n_prop; RefState before = A.m->last_prop; if (!deliver("/msf_core/hl_state_input", m)) { violate("no_handler", "hl_state_input"); return; }
    if (ignore) { if (A.m->n_prop != p0) violate("short_message", cat("a message with ", m.state.size(), " entries was used")); count("short"); continue; }
    SP s = A.at(t); if (!s || s->time != t) { violate("ext_missing", cat("no state for the external message at ", t)); return; }
    RefState c = snap(*s); count(take ? "taken" : playback ? "playback" : kind == 8 ? "nonnumeric" : "not_propagated");
    for (size_t i = 0; i < c.x.size(); i++) if (!vf::finite(c.x[i])) { violate("ext_nonfinite", cat("variable ", i)); return; }
    if (take) { double e = 0; for (int i = 0; i < 3; i++) e = std::max(e, std::max(std::fabs(c.x[0](i) - m.state[i]), std::fabs(c.x[1](i) - m.state[3 + i]))); Qd r(m.state[6], m.state[7], m.state[8], m.state[9]); r.normalize(); e = std::max(e, qdist(toq(c.x[2]), r)); if (!(e <= 1e-12)) violate("ext_taken", cat("external state not taken over, off by ", e)); }
    else if (have) { RefState r = c; ref_prop_mean(prev, r); double e = 0; for (int i = 0; i < 3; i++) e = std::max(e, (c.x[i] - r.x[i]).cwiseAbs().maxCoeff() / (1 + r.x[i].norm())); maxim("prop", e); if (!(e <= 1e-3)) violate("ext_not_propagated", cat("state without usable external propagation is off the internal one by ", e, playback ? " (playback)" : "")); }
    if (have) for (size_t i = 3; i < c.x.size(); i++) if (c.x[i] != prev.x[i]) violate("ext_other", cat("variable ", i, " changed by an external state"));
    if ((c.a - a).norm() + (c.w - w).norm() > 1e-9 && a.norm() < 50) violate("ext_readings", "IMU readings of the external message");
    prev = c; have = true; nontrivial(); vf::sig(kind); sigd(t);
  }
}
#endif
#if !defined(SELECT) || defined(W_converge)
// A simulated flight with known truth: noisy biased IMU, noisy delayed sensors,
// imperfect initial values. Everything enters through the ROS interface.
struct Flight {
  double A[6][2], f[6][2], ph[6][2], ramp = 3; V3 p0; Qd q0; double te;
  Flight(Rng& g, double amp, double tilt, double t0, bool level) {
    te = t0; p0 = randv(g, 2); q0 = qexp(V3(0, 0, g.u(-M_PI, M_PI))) * (level ? Qd::Identity() : qexp(randv(g, 0.15)));
    for (int i = 0; i < 6; i++) for (int k = 0; k < 2; k++) { f[i][k] = g.u(0.3, 2.2); A[i][k] = g.u(0.4, 1) * (i < 3 ? amp / f[i][k] : tilt); ph[i][k] = g.u(0, 6.28); }
  }
  double s(int i, double t) const { double u = t - te; if (u <= 0) return 0; double r = u > ramp ? 1 : 0.5 - 0.5 * std::cos(M_PI * u / ramp), o = 0; for (int k = 0; k < 2; k++) o += A[i][k] * (std::sin(f[i][k] * u + ph[i][k])); return r * r * o; }
  V3 p(double t) const { return p0 + V3(s(0, t), s(1, t), s(2, t)); }
  Qd q(double t) const { return (q0 * qexp(V3(0, 0, 1.5 * s(5, t))) * qexp(V3(0, s(4, t), 0)) * qexp(V3(s(3, t), 0, 0))).normalized(); }
  V3 v(double t) const { const double h = 1e-3; return (p(t + h) - p(t - h)) / (2 * h); }
  V3 a(double t) const { const double h = 2e-3; return (p(t + h) - 2 * p(t) + p(t - h)) / (h * h); }
  V3 w(double t) const { const double h = 1e-3; Qd d = q(t - h).conjugate() * q(t + h); if (d.w() < 0) d.coeffs() = -d.coeffs(); return V3(d.vec()) / h; }
};
static void converge(Rng& g, uint64_t idx) {
  Setup u; u.fixedcov = true; u.mah = g.p(0.5); u.mah_thr = 6; double outliers = u.mah ? 0.03 : 0;
  const double hz = g.pick(std::vector<double>{100, 200}), dt = 1 / hz, T = 40; double t = q9(g.u(100, 1000)), t0 = t;
  double dl = g.p(0.5) ? 0 : g.u(0, 0.05); u.delay_pose = u.delay_pos = u.delay_ang = u.delay_dist = dl;
  u.n_p = g.u(0.005, 0.03); u.n_q = g.u(0.005, 0.02); u.n_pos = g.u(0.01, 0.05); u.n_press = 0.1; u.n_ang = g.u(0.002, 0.01); u.n_dist = g.u(0.005, 0.03);
  int mode = 0;  // 0: world frame and scale known, 1: scale (and vision frame) unknown
#ifdef HAS_POSE
  mode = g.i(0, 1); u.ptam = g.p(0.3);
  if (mode == 0) u.fixed = {msf_updates::L, msf_updates::q_wv, msf_updates::p_wv}; else u.fixed = {msf_updates::p_ic, msf_updates::q_ic};
#ifndef HAS_POSITION
  if (mode == 1) u.fixed.insert(msf_updates::p_wv);
#else
  mode = 1; u.fixed = {msf_updates::p_ic, msf_updates::q_ic, msf_updates::p_ip};
#endif
#endif
  u.params();
  Flight F(g, 1.5, 0.25, t0 + 2,
#if defined(HAS_POSE) && !defined(HAS_POSITION)
    false
#else
    true
#endif
  );
#ifdef HAS_SPHERICAL
  F.p0 += V3(8, 5, 3);
#endif
  // truth
  App A; std::vector<VX> X(A.L.size()); for (size_t i = 0; i < X.size(); i++) { X[i] = VX::Zero(A.L[i].n); if (A.L[i].quat) X[i](0) = 1; }
  V3 bw = V3::Zero(), ba(g.n() * 0.03, g.n() * 0.03, g.n() * 0.01);
#ifdef HAS_POSE
  V3 pic = randv(g, 0.1); Qd qic = randq(g); X[msf_updates::p_ic] = pic; X[msf_updates::q_ic] = fromq(qic); double L = mode ? g.logu(0.3, 3) : 1; X[msf_updates::L](0) = L;
  if (mode == 1) X[msf_updates::q_wv] = fromq(qexp(randv(g, 0.01)));
#ifdef HAS_POSITION
  X[msf_updates::q_wv] = fromq(qexp(randv(g, 0.01)) * qexp(V3(0, 0, g.u(-3, 3)))); F.p0 *= 0.15; X[msf_updates::p_wv] = F.p0 + randv(g, 0.2);
#endif
  V3 picg = mode == 0 ? V3(pic + randv(g, 0.01)) : pic; Qd qicg = mode == 0 ? Qd(qic * qexp(randv(g, 0.01))) : qic;
  setp("/node/pose_sensor/init/p_ic", picg); for (int i = 0; i < 4; i++) setParam<double>(std::string("/node/pose_sensor/init/q_ic/") + "wxyz"[i], fromq(qicg)(i));
#endif
#if defined(HAS_POSITION) || defined(HAS_SPHERICAL)
  V3 pip = randv(g, 0.2); X[msf_updates::p_ip] = pip; bool fixip = u.fixed.count(msf_updates::p_ip) || g.p(0.5); if (fixip) u.fixed.insert(msf_updates::p_ip); setp("/node/position_sensor/init/p_ip", fixip ? pip : V3(pip + randv(g, 0.01)));
#endif
#ifdef HAS_PRESSURE
  X[msf_updates::b_p](0) = g.u(-5, 5);
#endif
  auto truth = [&](double s) { X[0] = F.p(s); X[1] = F.v(s); X[2] = fromq(F.q(s)); X[3] = bw; X[4] = ba; return X; };
  A.start(t); u.configure(A); Wire w; w.set_gps_reference(g);
  const double na = 0.02, ng = 0.002, nba = 1e-3, nbg = 3e-4;
  { msf_core::MSF_CoreConfig cc = A.coreserver().config(); cc.core_noise_acc = na; cc.core_noise_gyr = ng; cc.core_noise_accbias = nba; cc.core_noise_gyrbias = nbg; A.coreserver().update(cc); }
  std::vector<std::string> names = sensor_names(true); if (std::find(names.begin(), names.end(), "position") != names.end() && g.p(0.5)) names.erase(std::find(names.begin(), names.end(), g.p(0.5) ? "position" : "gps")); bool both = std::count(names.begin(), names.end(), "position") && std::count(names.begin(), names.end(), "gps"); if (both) names.erase(std::find(names.begin(), names.end(), "position"));
  auto sd = [&](const std::string& s, int i) { return s == "pose" ? (i < 3 ? u.n_p : u.n_q) : s == "pressure" ? u.n_press : s == "angle" ? u.n_ang : s == "distance" ? u.n_dist : u.n_pos; };
  auto meas = [&](const std::string& s, double ts, bool out) { std::vector<VX> x = truth(ts); Model m = model(s, x); VX d(m.dim); for (int i = 0; i < m.dim; i++) d(i) = g.n() * sd(s, i); if (out) for (int i = 0; i < m.dim; i++) d(i) += (g.p(0.5) ? 1 : -1) * g.u(40, 80) * sd(s, i); if (s == "pose" && d.tail(3).norm() > 2) d.tail(3) *= 2 / d.tail(3).norm(); return m.plus(m.z0, d); };
  // first measurements, then initialisation
  for (auto& s : names) w.send(s, u, meas(s, t, false), t + u.delay(s), g, 1, MX::Identity(6, 6) * 1e-4);
#ifdef HAS_POSE
  A.cfg.pose_initial_scale = L * (mode ? (1 + 0.01 * g.n()) : 1);
#endif
  double yaw = 2 * std::atan2(F.q0.z(), F.q0.w()) + 0.02 * g.n(); while (yaw > M_PI) yaw -= 2 * M_PI; while (yaw < -M_PI) yaw += 2 * M_PI;
#ifdef HAS_POSITION
  A.cfg.position_yaw_init = yaw * 180 / M_PI;
#endif
#ifdef HAS_SPHERICAL
  A.cfg.yaw_init = yaw * 180 / M_PI;
#endif
  A.apply(); A.init(t); if (!A.m->n_init) { violate("converge_init", "not initialised"); return; }
  // the flight
  struct Pend { double arrive, ts; std::string s; VX z; bool out; }; std::vector<Pend> pend; std::map<std::string, double> next; for (auto& s : names) next[s] = t + g.u(0.05, 0.15); long nm = 0, nout = 0; double outage0 = g.p(0.5) ? t0 + g.u(12, 22) : 1e300, outage1 = outage0 + g.u(0.5, 1.5);
  double ea = na / std::sqrt(dt), eg = ng / std::sqrt(dt); double nees = 0; int nn = 0; double worst[8] = {0}; long steps = 0;
  while (t < t0 + T) {
    t = q9(t + dt); steps++; bw += randv(g, nbg * std::sqrt(dt)); ba += randv(g, nba * std::sqrt(dt));
    V3 am = F.q(t).conjugate() * (F.a(t) + V3(0, 0, 9.81)) + ba + randv(g, ea), wm = F.w(t) + bw + randv(g, eg);
    if (!A.imu(t, am, wm)) { violate("no_imu_handler", ""); return; }
    for (auto& s : names) while (next[s] <= t) { double ts = q9(next[s]); next[s] += g.u(0.05, s == "pressure" ? 0.2 : 0.12); if (ts > outage0 && ts < outage1) continue; bool out = ts > t0 + 8 && g.p(outliers); pend.push_back({ts + (g.p(0.3) ? 0 : g.u(0, 0.2)), ts, s, meas(s, ts, out), out}); }
    std::stable_sort(pend.begin(), pend.end(), [](const Pend& a, const Pend& b) { return a.arrive < b.arrive; }); size_t k = 0;
    for (; k < pend.size() && pend[k].arrive <= t; k++) { w.send(pend[k].s, u, pend[k].z, pend[k].ts + u.delay(pend[k].s), g, 1, MX::Identity(6, 6) * 1e-4); nm++; nout += pend[k].out; }
    pend.erase(pend.begin(), pend.begin() + k);
    if (t > t0 + T - 8 && steps % 20 == 0) {
      RefState e = snap(*A.at(t)); std::vector<VX> x = truth(t); for (auto& y : e.x) if (!vf::finite(y)) { violate("converge_nonfinite", cat("state at ", t - t0, " s")); return; }
      Qd qe = toq(e.x[2]), qt = toq(x[2]); VX er(8); M3 Re = qe.toRotationMatrix(), Rt = qt.toRotationMatrix();
      er(0) = (V3(Re.transpose() * V3(0, 0, 1)) - V3(Rt.transpose() * V3(0, 0, 1))).norm();       // roll, pitch
      er(1) = (Re.transpose() * V3(e.x[1]) - Rt.transpose() * V3(x[1])).norm();                   // velocity as seen from the vehicle
      er(2) = (V3(e.x[3]) - bw).norm(); er(3) = (V3(e.x[4]) - ba).norm(); er(4) = er(5) = er(6) = er(7) = 0;
      bool gauge = false;  // position and yaw of the world are not observable
#if defined(HAS_POSE) && !defined(HAS_POSITION)
      gauge = mode == 1;
#endif
      if (!gauge) { er(4) = (V3(e.x[0]) - V3(x[0])).norm(); er(5) = qdist(qe, qt); }
#ifdef HAS_POSE
      er(6) = std::fabs(e.x[msf_updates::L](0) / L - 1);
#endif
      for (auto& s : names) { Model m = model(s, x); VX r = m.resid(e.x, m.z0); for (int i = 0; i < m.dim; i++) er(7) = std::max(er(7), std::fabs(r(i)) / sd(s, i)); }
      for (int i = 0; i < 8; i++) worst[i] = std::max(worst[i], er(i));
      if (!gauge) { VX d = ref_minus(x, e.x, A.L).head(15); MX P = e.P.topLeftCorner(15, 15); VX s = P.diagonal().cwiseSqrt(); MX C = s.cwiseInverse().asDiagonal() * P * s.cwiseInverse().asDiagonal(); nees += VX(d.cwiseQuotient(s)).dot(C.fullPivLu().solve(VX(d.cwiseQuotient(s)))) / 15; nn++; }
    }
  }
  static const char* nm_[8] = {"tilt_rad", "body_velocity", "gyro_bias", "acc_bias", "position", "attitude_rad", "scale", "predicted_measurement_sigmas"};
  std::string all = cat(APPNAME " mode ", mode, " hz ", hz, u.mah ? " outliers " : " ", nout, " of ", nm, ": "); for (int i = 0; i < 8; i++) { maxim(cat("error_", nm_[i], "_", APPNAME), worst[i]); all += cat(nm_[i], " ", worst[i], " "); } if (nn) { maxim("nees_" APPNAME, nees / nn); maxim("inverse_nees_" APPNAME, nn / nees); all += cat("nees ", nees / nn); }
  static const double lim[8] = {0.035, 0.5, 0.01, 0.16, 0.4, 0.06, 0.04, 100};  // about twice the largest met in 7500 flights
  for (int i = 0; i < 8; i++) if (!(worst[i] <= lim[i])) violate(cat("converge_", nm_[i]), all);
  if (nn && !(nees / nn <= 6 && nees / nn >= 0.15)) violate("converge_consistency", all);
  count("flights"); count("measurements", nm); count("outliers_sent", nout); if (outage0 < 1e300) count("outages"); count(mode ? "scale_unknown" : "frame_known"); nontrivial(); sigd(t0); sample(all);
}
#endif
#if defined(HAS_POSITION) && (!defined(SELECT) || defined(W_navsat))
// Fixes of a receiver anywhere on earth: the first one is the origin of the local frame for the whole session,
// across initialisations; every later one puts the antenna at its local East-North-Up coordinates.
static void navsat(Rng& g, uint64_t) {
  Setup u; u.fixedcov = g.p(0.5); u.n_pos = 1e-4; u.params(); V3 lever = g.p(0.5) ? randv(g, 0.5) : V3::Zero(); setp("/node/position_sensor/init/p_ip", lever);
  App A; double t = q9(g.u(100, 1000)); A.start(t); u.configure(A);
  const char* where = "anywhere"; double la, lo, h = g.u(-100, 9000); int w = g.i(0, 4);
  if (w == 0) { where = "pole"; la = (g.p(0.5) ? 1 : -1) * (90 - g.logu(1e-9, 1)); lo = g.u(-180, 180); } else if (w == 1) { where = "date line"; la = g.u(-80, 80); lo = (g.p(0.5) ? 1 : -1) * (180 - g.logu(1e-9, 1)); }
  else if (w == 2) { where = "equator"; la = g.u(-1e-3, 1e-3); lo = g.u(-1e-3, 1e-3); } else { la = g.u(-90, 90); lo = g.u(-180, 180); }
  count(cat("origin_", where)); Geo geo(la, lo, h); uint32_t seq = g.i(0, 5); uint64_t hsh = (uint64_t)(la * 1e6) * 31 + (uint64_t)(lo * 1e6); bool first = true;
#ifdef HAS_POSE
  { VX z(7); z << 1, 2, 3, 0, 0, 0, 1; send_pose(z, MX::Identity(6, 6) * 1e-4, t, 1, 0); }
#endif
  auto fix = [&](double st) {
    double a = la, o = lo, k = h; int far = first ? 0 : g.i(0, 3);
    if (far == 1) { a += g.n() * 1e-4; o += g.n() * 1e-4; k += g.n() * 5; } else if (far == 2) { a += g.n() * 0.1; o += g.n() * 0.1; k += g.n() * 300; } else if (far == 3) { a = g.u(-90, 90); o = g.u(-180, 180); k = g.u(-100, 20000); }
    a = std::max(-90.0, std::min(90.0, a)); if (o > 180) o -= 360; if (o < -180) o += 360; first = false;
    sensor_msgs::NavSatFix m; m.header.stamp = stamp(st); m.header.seq = seq++; m.latitude = a; m.longitude = o; m.altitude = k; m.position_covariance_type = g.i(1, 3); for (int i = 0; i < 3; i++) m.position_covariance[4 * i] = 1e-8;
    deliver("/msf_updates/navsatfix_input", m); count("fixes"); count(far == 3 ? "fixes_far" : "fixes_near"); return geo.to(a, o, k);
  };
  int rounds = g.i(1, 4);
  for (int r = 0; r < rounds; r++) {
    V3 z; int n = g.i(1, 4); for (int k = 0; k < n; k++) { t = q9(t + g.u(0.01, 1)); z = fix(t); }
    A.cfg.position_yaw_init = g.u(-180, 180); t = q9(t + g.u(0.01, 1)); long n0 = A.m->n_init; A.init(t);
    if (A.m->n_init != n0 + 1) { violate("navsat_init", "the filter was not initialised"); return; }
    V3 at = pos_h(A.m->last_init.x);
    expect("navsat_init_position", (at - z).norm() / (1e-6 + 1e-9 * z.norm()), 1, cat(where, ", origin ", la, " ", lo, " ", h, ": fix at ", z.transpose(), " antenna at ", at.transpose())); count("navsat_inits");
    if (lever.norm() > 0) continue;  // the attitude is corrected too: the antenna moves along a curve
    A.coreserver(); double big = 1e12; V3 acc = toq(A.m->last_init.x[2]).conjugate() * V3(0, 0, 9.81);
    for (int k = 0; k < 8; k++) { t = q9(t + 0.01); A.imu(t, acc, V3::Zero()); }
    SP s = A.at(t); if (!s || s->time != t) continue;
    MX P = MX::Identity(N, N) * 1e-4; P.topLeftCorner(3, 3) = M3::Identity() * big; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) s->P(i, j) = P(i, j);
    long u0 = A.m->n_upd; z = fix(t); if (A.m->n_upd == u0) { violate("navsat_update", "a fix at the time of the newest state changed nothing"); return; }
    at = pos_h(snap(*A.at(t)).x);
    expect("navsat_position", (at - z).norm() / (1e-6 + 1e-9 * z.norm()), 1, cat(where, ", origin ", la, " ", lo, " ", h, ": fix at ", z.transpose(), " antenna at ", at.transpose())); count("navsat_updates");
  }
  nontrivial(); vf::sig(hsh);
}
#endif
#if !defined(SELECT) || defined(W_arrival)
// The same flight twice through the application's topics: once with every message delivered at its own time, once
// with every sensor late or early by its own varying amount.  The estimate at the end has to be the same.
static void arrival(Rng& g, uint64_t) {
  Setup u = random_setup(g, true); u.mah = false; double lag = u.delay_pose, lag2 = u.delay_pos; u.delay_pose = u.delay_pos = u.delay_ang = u.delay_dist = 0; (void)lag; (void)lag2; u.fixedcov = u.fixedcov || !u.absolute;
  std::vector<std::string> names = sensor_names(u.fixedcov); if (names.empty()) return;
  struct Msg { std::string s; VX z; MX R; double t; int kind; uint64_t seed; double at; };
  double t0 = q9(g.u(100, 1000)); ImuGen sg(g, 0.5, 0.2); std::vector<double> ti; std::vector<V3> ai, wi; double t = t0; int n = g.i(40, 200);
  for (int k = 0; k < n; k++) { t = q9(t + g.u(0.005, 0.015)); ti.push_back(t); ai.push_back(sg.a(t)); wi.push_back(sg.w(t)); }
  std::vector<Msg> ms; RefState fin[2]; long upd[2] = {0, 0}; bool offgrid = g.p(0.5); double yaw = g.u(-180, 180); std::vector<VX> x0; MX P0 = randspd(g, N, g.logu(1e-4, 1e-2)); std::vector<double> spread; const int nmsg = g.p(0.3) ? g.i(3, 7) : g.i(8, 25);
  for (int pass = 0; pass < 2; pass++) {
    bus().reset(); u.params(); App A; A.start(t0); u.configure(A); Wire w; Rng gr(7, "gps", 0); w.set_gps_reference(gr);
#ifdef HAS_POSITION
    A.cfg.position_yaw_init = yaw; A.apply();
#endif
    (void)yaw; A.init(t0); if (!A.m->n_init) { violate("arrival_init", "not initialised"); return; }
    if (pass == 0) {
      x0 = A.randvars(g, 0.02);
#ifdef HAS_SPHERICAL
      { V3 p = sph_p(x0); if (std::hypot(p.x(), p.y()) < 0.5) return; }
#endif
    }
    // the safeguard against jumps of the drift-free rotation looks at the last 30 updates, replayed ones included: stay below, or keep that rotation perfectly known
#ifdef HAS_POSE
    if (nmsg > 7) { VarInfo v = layout<S>()[msf_updates::q_wv]; P0.middleRows(v.at_err, 3).setZero(); P0.middleCols(v.at_err, 3).setZero(); A.cfg.pose_noise_q_wv = 0; A.apply(); }
#endif
    { SP s = A.core().GetClosestState(t0); setvars(*s, x0); s->P = P0; }
    if (pass == 0) {
      int m = nmsg; std::set<double> used;
      for (int i = 0; i < m; i++) {
        int k = g.i(6, n - 8); double st = ti[k]; if (offgrid && g.p(0.7)) st = q9(g.u(ti[k], ti[k + 1]));
        bool close = false; for (double v : used) close = close || std::fabs(v - st) < 0.0025; if (close) continue;  // neither at the same time (their order is open then) nor an interpolation point of the other
        used.insert(st); Msg q; q.s = g.pick(names); q.t = st; q.kind = g.i(0, 100); q.seed = g.next(); ms.push_back(q);
      }
      std::stable_sort(ms.begin(), ms.end(), [](const Msg& a, const Msg& b) { return a.t < b.t; });
      std::map<std::string, double> last; std::vector<Msg> keep;
      for (Msg& q : ms) { std::string c = q.s == "gps" ? "position" : q.s; if (last.count(c) && q.t - last[c] < 0.02) continue; last[c] = q.t; q.at = q.t; keep.push_back(q); } ms = keep;
      for (size_t i = 1; i < ms.size(); i++) if (ms[i].t == ms[i - 1].t) ms[i].at = ms[i].t;
    } else {
      std::map<std::string, double> lastat; double maxd = g.pick(std::vector<double>{0.03, 0.3, 1.5});
      for (Msg& q : ms) { std::string c = q.s == "gps" ? "position" : q.s; double d = g.p(0.2) ? -g.u(0, 0.04) : g.u(0, maxd); q.at = q.t + d; if (c == "pose" && lastat.count(c)) q.at = std::max(q.at, lastat[c] + 1e-6);  // pose handlers drop messages older than the last
        lastat[c] = q.at; spread.push_back(q.at - q.t); }
      std::stable_sort(ms.begin(), ms.end(), [](const Msg& a, const Msg& b) { return a.at < b.at; });
    }
    size_t im = 0; auto send = [&](Msg& q) {
      Rng r(q.seed, "z", 0); if (pass == 0) { RefState s = snap(*A.at(q.t)); Model m = model(q.s, s.x); VX d(m.dim); for (int i = 0; i < m.dim; i++) d(i) = r.n() * 0.03; q.z = m.plus(m.z0, d); q.R = randspd(r, m.dim, 1e-3); }
      Rng r2(q.seed, "m", 0); w.send(q.s, u, q.z, q.t, r2, q.kind, q.R); };
    for (int k = 0; k < n; k++) {
      if (!A.imu(ti[k], ai[k], wi[k])) { violate("no_imu_handler", "the application does not listen to IMU messages"); return; }
      while (im < ms.size() && k >= 5 && ms[im].at <= ti[k] && (k + 2 < n || true)) send(ms[im++]);
    }
    for (int k = 0; k < 12; k++) { while (k == 0 && im < ms.size()) send(ms[im++]); A.imu(q9(ti[n - 1] + 0.01 * (k + 1)), ai[n - 1], wi[n - 1]); }
    fin[pass] = snap(*A.at(q9(ti[n - 1] + 0.12))); upd[pass] = A.m->n_upd;
  }
  double worst = 0; size_t wi_ = 0;
  for (size_t i = 0; i < fin[0].x.size(); i++) {
    VarInfo v = layout<S>()[i]; VX d = v.quat ? VX(qlog(toq(fin[0].x[i]).conjugate() * toq(fin[1].x[i]))) : VX(fin[1].x[i] - fin[0].x[i]);
    for (int k = 0; k < d.size(); k++) { double e = std::fabs(d(k)) / (std::sqrt(std::max(0.0, fin[0].P(v.at_err + k, v.at_err + k))) + 1e-9); if (!(e <= worst)) worst = e, wi_ = i; }
  }
  VX sd = fin[0].P.diagonal().cwiseMax(0).cwiseSqrt().array() + 1e-9; double wp = ((fin[1].P - fin[0].P).array() / (sd * sd.transpose()).array()).abs().maxCoeff();
  if (!std::isfinite(worst) || !std::isfinite(wp) || fin[0].P.cwiseAbs().maxCoeff() > 1e6) { count("diverged"); return; }
  maxim("arrival_state", worst); maxim("arrival_cov", wp);
  std::string what = cat(ms.size(), " messages, ", u.absolute ? "absolute" : "relative", offgrid ? ", between IMU stamps" : "", ", updates ", upd[0], " and ", upd[1], ", delays"); for (double d : spread) what += cat(" ", d);
  expect("estimate_differs", worst, 1e-4, cat("in-order against delayed arrival, variable ", wi_, ", ", what)); expect("estimate_differs_cov", wp, 1e-4, what);
  if (!ms.empty()) { nontrivial(); vf::sig(ms.size()); sigd(fin[0].x[0](0)); count("arrival_pairs"); count("arrival_messages", ms.size()); for (auto& q : ms) count("arrival_" + q.s); if (!u.absolute) count("arrival_relative"); }
}
#endif
#if !defined(SELECT) || defined(W_hostile)
#include <sensor_fusion_comm/InitScale.h>
#include <sensor_fusion_comm/InitHeight.h>
#include <sensor_msgs/NavSatFix.h>
// Anything a message, parameter, service or reconfigure request can carry, in
// any order, before and after initialisation. Judged by the sanitizers, Eigen's
// assertions and a few monitors on what is published.
static void hostile(Rng& g, uint64_t) {
  const double wild = g.pick(std::vector<double>{0, 0.002, 0.02, 0.2}); bool odd = g.p(0.5);
  auto hv = [&](double v) { if (!g.p(wild)) return v; count("hostile_values"); return g.pick(std::vector<double>{NAN, INFINITY, -INFINITY, 1e308, -1e308, 1e-320, 0.0, -0.0, 1e20, -1e-20, 1e6}); };
  Setup u = random_setup(g, true); if (g.p(0.2)) u.mah_thr = hv(0); u.params();
  if (g.p(0.3)) setParam<bool>("/node/core/data_playback", true); if (g.p(0.2)) setParam<double>("/node/pose_sensor/pose_measurement_minimum_dt", hv(g.u(0, 1)));
  if (g.p(0.5)) { setp("/node/pose_sensor/init/p_ic", V3(hv(g.n()), hv(g.n()), hv(g.n()))); for (int i = 0; i < 4; i++) setParam<double>(std::string("/node/pose_sensor/init/q_ic/") + "wxyz"[i], hv(g.n())); setp("/node/position_sensor/init/p_ip", V3(hv(g.n()), hv(g.n()), hv(g.n()))); }
  bus().default_subscribers = g.p(0.7) ? 1 : 0;
  App A; double t = q9(g.u(1, 1000)); A.start(t); u.configure(A); Wire w; w.set_gps_reference(g); ImuGen sg(g, 2, 0.5);
  auto when = [&]() { double s = t; if (g.p(0.15)) s = t + g.n() * 0.3; if (g.p(wild)) s = g.pick(std::vector<double>{0, t - 100, t + 100, 4e9, t - 7, t - 0.02}); return s < 0 ? 0.0 : s; };
  auto mat = [&](int n) { MX m = randspd(g, n, g.logu(1e-8, 1)); for (int i = 0; i < n * n; i++) m(i / n, i % n) = hv(m(i / n, i % n)); if (g.p(wild)) m.setZero(); return m; };
  int n = g.i(20, 150); std::streambuf *so = std::cout.rdbuf(nullptr), *se = std::cerr.rdbuf(nullptr);
  for (int k = 0; k < n; k++) {
    int op = g.i(0, 19); vf::sig(op); if (bus().topics.size() && g.p(0.02)) clearPublished();
    if (op <= 8) { t = q9(t + (g.p(0.05) ? g.logu(1e-9, 20) : 0.01)); ros::Time::fake() = stamp(t); V3 a = sg.a(t), v = sg.w(t); for (int i = 0; i < 3; i++) { a(i) = hv(a(i)); v(i) = hv(v(i)); } A.imu(when() == t ? t : when(), a, v); count("op_imu"); }
    else if (op == 9) {
      sensor_fusion_comm::ExtEkf m; m.header.stamp = stamp(when()); m.header.seq = (uint32_t)g.next(); m.state.resize(g.p(0.2) ? g.i(0, 30) : 16); for (auto& x : m.state) x = hv(g.n()); m.flag = g.p(0.2) ? (int)g.next() : g.i(0, 3);
      m.linear_acceleration.x = hv(g.n()); m.linear_acceleration.y = hv(g.n()); m.linear_acceleration.z = hv(9.8); m.angular_velocity.x = hv(g.n()); deliver("/msf_core/hl_state_input", m); count("op_ext"); }
    else if (op <= 14) {
      std::string s = g.pick(sensor_names(
#ifdef HAS_SPHERICAL
        true
#else
        g.p(0.5)
#endif
      )); std::vector<VX> x = A.randvars(g); Model m = model(s, x); VX z = m.z0; for (int i = 0; i < z.size(); i++) z(i) = hv(z(i) + (g.p(0.1) ? g.n() : 0)); Setup v = u; v.fixedcov = g.p(0.5); uint32_t q = w.seq; if (odd && g.p(0.2)) w.seq = (uint32_t)g.next();
      if (s == "gps") { for (int i = 0; i < 3; i++) if (!std::isfinite(z(i)) || std::fabs(z(i)) > 1e7) z(i) = 0; if (g.p(wild)) { sensor_msgs::NavSatFix f; f.header.stamp = stamp(when()); f.header.seq = w.seq; f.latitude = hv(g.u(-90, 90)); f.longitude = hv(g.u(-180, 180)); f.altitude = hv(g.n()); f.status.status = g.i(-1, 2); f.position_covariance_type = g.i(0, 3); for (auto& c : f.position_covariance) c = hv(g.n()); deliver("/msf_updates/navsatfix_input", f); continue; } }
      w.send(s, v, z, when() + u.delay(s), g, g.i(0, 100), mat(std::max(6, m.dim))); (void)q; count("op_" + s); }
    else if (op == 15) { ros::Time::fake() = stamp(g.p(0.8) ? t : std::max(1.0, when())); /* initialising needs a running clock */ A.cfg.core_init_filter = g.p(0.7);
#ifdef HAS_POSE
      A.cfg.core_height = hv(g.u(0.1, 20)); A.cfg.core_set_height = g.p(0.3); A.cfg.pose_initial_scale = hv(g.logu(0.1, 10));
#endif
      A.apply(); A.cfg.core_init_filter = false; count("op_init"); }
    else if (op == 16) { Setup v = random_setup(g, false); v.n_p = hv(v.n_p); v.n_q = hv(v.n_q); v.n_pos = hv(v.n_pos); v.delay_pose = hv(v.delay_pose); if (g.p(0.5)) v.configure(A); else { msf_core::MSF_CoreConfig cc = A.coreserver().config(); cc.core_noise_acc = hv(g.u(0, 0.5)); cc.core_noise_gyrbias = hv(g.u(0, 0.1)); cc.core_fixed_bias = g.p(0.5); A.coreserver().update(cc); } count("op_reconfigure"); }
    else if (op == 17) { for (auto& s : bus().services) { if (!g.p(0.5)) continue; if (s.first.find("scale") != std::string::npos) { sensor_fusion_comm::InitScale::Request rq; sensor_fusion_comm::InitScale::Response rs; rq.scale = hv(g.u(-1, 5)); s.second(&rq, &rs); } else { sensor_fusion_comm::InitHeight::Request rq; sensor_fusion_comm::InitHeight::Response rs; rq.height = hv(g.u(-1, 5)); s.second(&rq, &rs); } count("op_service"); } }
    else if (op == 18) { for (auto& tp : bus().topics) tp.second.subscribers = g.i(0, 2); }
    else { SP s = A.core().GetStateAtTime(when()); if (s) { std::string p = s->Print(); sensor_fusion_comm::DoubleArrayStamped m; s->ToFullStateMsg(m); MX q = s->P; count("op_query"); } }
  }
  std::cout.rdbuf(so); std::cerr.rdbuf(se); std::cout.clear(); std::cerr.clear();
  count("hostile_cases"); if (A.m->n_init) count("hostile_initialised"); if (A.m->n_prop > 10) count("hostile_propagated"); if (A.m->n_upd) count("hostile_updated"); nontrivial();
}
#endif
#ifndef NOMAIN
int main(int argc, char** argv) {
  std::vector<Suite> su;
#if !defined(SELECT) || defined(W_models)
  su.push_back({"models", models});
#endif
#if defined(HAS_POSE) && (!defined(SELECT) || defined(W_relpose))
  su.push_back({"relpose", relpose});
#endif
#if !defined(SELECT) || defined(W_init)
  su.push_back({"init", init});
#endif
#if !defined(SELECT) || defined(W_stream)
  su.push_back({"stream", stream});
#endif
#if !defined(SELECT) || defined(W_publish)
  su.push_back({"publish", publish});
#endif
#if !defined(SELECT) || defined(W_admission)
  su.push_back({"admission", admission});
#endif
#if !defined(SELECT) || defined(W_ros_ext)
  su.push_back({"ros_ext", ros_ext});
#endif
#if !defined(SELECT) || defined(W_converge)
  su.push_back({"converge", converge});
#endif
#if defined(HAS_POSITION) && (!defined(SELECT) || defined(W_navsat))
  su.push_back({"navsat", navsat});
#endif
#if !defined(SELECT) || defined(W_arrival)
  su.push_back({"arrival", arrival});
#endif
#if !defined(SELECT) || defined(W_hostile)
  su.push_back({"hostile", hostile});
#endif
  return run(argc, argv, su);
}
#endif
