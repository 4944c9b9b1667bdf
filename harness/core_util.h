// Test-side manager, IMU feeder, instrumented measurements and reference maths
// for the EKF core.  Include the app's msf_statedef.hpp (or a custom state
// definition) before this header.
#pragma once
#include "common.h"
#include <ros/ros.h>
#include <msf_core/msf_core.h>
#include <msf_core/msf_sensormanager.h>
#include <msf_core/msf_IMUHandler.h>
#include <msf_core/eigen_utils.h>
#include <boost/fusion/algorithm.hpp>
#include <boost/fusion/sequence.hpp>
#include <Eigen/Dense>
#include <unsupported/Eigen/MatrixFunctions>

// The core sleeps 110 ms per initialisation ("thread sync"); replays must not.
extern "C" int usleep(useconds_t) { return 0; }

namespace vf {
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Quaterniond Qd;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

inline M3 sk(const V3& a) { M3 m; m << 0, -a.z(), a.y(), a.z(), 0, -a.x(), -a.y(), a.x(), 0; return m; }
inline Qd qexp(const V3& phi) {  // rotation vector -> quaternion
  double a = phi.norm();
  if (a < 1e-12) return Qd(1, phi.x() / 2, phi.y() / 2, phi.z() / 2).normalized();
  V3 v = phi * (std::sin(a / 2) / a);
  return Qd(std::cos(a / 2), v.x(), v.y(), v.z());
}
inline V3 qlog(const Qd& qq) {
  Qd q = qq; if (q.w() < 0) q.coeffs() = -q.coeffs();
  double n = q.vec().norm();
  if (n < 1e-14) return 2 * q.vec();
  return q.vec() * (2 * std::atan2(n, q.w()) / n);
}
inline Qd randq(Rng& g) { Qd q(g.n(), g.n(), g.n(), g.n()); q.normalize(); return q; }
inline V3 randv(Rng& g, double s) { return V3(g.n(), g.n(), g.n()) * s; }
inline MX randspd(Rng& g, int n, double s) { MX a(n, n); for (int i = 0; i < n * n; i++) a(i / n, i % n) = g.n(); MX m = a * a.transpose() / n + 0.05 * MX::Identity(n, n); return m * s; }
inline double asym(const MX& P) { return (P - P.transpose()).cwiseAbs().maxCoeff(); }
// smallest eigenvalue of the symmetric part, relative to the diagonal scaling
inline double mineig_scaled(const MX& Pin) {
  MX P = 0.5 * (Pin + Pin.transpose());
  VX d = P.diagonal();
  for (int i = 0; i < d.size(); i++) d(i) = d(i) > 0 ? 1 / std::sqrt(d(i)) : 1.0;
  MX S = d.asDiagonal() * P * d.asDiagonal();
  return Eigen::SelfAdjointEigenSolver<MX>(S, Eigen::EigenvaluesOnly).eigenvalues().minCoeff();
}
inline double mineig_scaled_by(const MX& Pin, const MX& by) {
  MX P = 0.5 * (Pin + Pin.transpose());
  VX d = by.diagonal();
  for (int i = 0; i < d.size(); i++) d(i) = d(i) > 0 ? 1 / std::sqrt(d(i)) : 0.0;
  MX S = d.asDiagonal() * P * d.asDiagonal();
  return Eigen::SelfAdjointEigenSolver<MX>(S, Eigen::EigenvaluesOnly).eigenvalues().minCoeff();
}
inline bool finite(const MX& m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) if (!std::isfinite(m(i, j))) return false; return true; }

// ---- independent layout of a state type: walks the variables in order --------
struct VarInfo { bool quat; int n; int err; int at_err; int at_state; };
struct LayoutWalker {
  std::vector<VarInfo>& v;
  template<int N, class SV> static VarInfo mk(const Eigen::Matrix<double, N, 1>&) { return {false, N, N, 0, 0}; }
  void add(VarInfo i) const { if (!v.empty()) { i.at_err = v.back().at_err + v.back().err; i.at_state = v.back().at_state + v.back().n; } v.push_back(i); }
  template<class SV> void operator()(SV& s) const { go(s.state_); }
  template<int N> void go(Eigen::Matrix<double, N, 1>&) const { add({false, N, N, 0, 0}); }
  void go(Eigen::Quaterniond&) const { add({true, 4, 3, 0, 0}); }
};
template<class S> std::vector<VarInfo> layout() { std::vector<VarInfo> v; S s; boost::fusion::for_each(s.statevars, LayoutWalker{v}); return v; }

// Full state as vectors (quaternions w,x,y,z), read directly from the variables.
struct Reader {
  std::vector<VX>& o;
  template<class SV> void operator()(SV& s) const { go(s.state_); }
  template<int N> void go(Eigen::Matrix<double, N, 1>& x) const { o.push_back(VX(x)); }
  void go(Eigen::Quaterniond& q) const { VX x(4); x << q.w(), q.x(), q.y(), q.z(); o.push_back(x); }
};
struct Writer {
  const std::vector<VX>& o; mutable int k = 0;
  Writer(const std::vector<VX>& a) : o(a) {}
  template<class SV> void operator()(SV& s) const { go(s.state_); }
  template<int N> void go(Eigen::Matrix<double, N, 1>& x) const { x = o[k++]; }
  void go(Eigen::Quaterniond& q) const { const VX& x = o[k++]; q = Eigen::Quaterniond(x(0), x(1), x(2), x(3)); }
};
template<class S> std::vector<VX> getvars(const S& s) { std::vector<VX> o; Reader r{o}; boost::fusion::for_each(const_cast<S&>(s).statevars, r); return o; }
template<class S> void setvars(S& s, const std::vector<VX>& o) { int k = 0; (void)k; struct W { const std::vector<VX>* o; int* k;
    void operator()(...) const {} };
  const std::vector<VX>* po = &o; int idx = 0; int* pi = &idx;
  boost::fusion::for_each(s.statevars, [po, pi](auto& sv) {
    const VX& x = (*po)[(*pi)++];
    struct A { static void set(Eigen::Quaterniond& q, const VX& x) { q = Eigen::Quaterniond(x(0), x(1), x(2), x(3)); }
               static void setv(double* d, const VX& x) { for (int i = 0; i < x.size(); i++) d[i] = x(i); } };
    typedef typename std::decay<decltype(sv.state_)>::type T;
    if constexpr (std::is_same<T, Eigen::Quaterniond>::value) A::set(sv.state_, x); else A::setv(sv.state_.data(), x);
  });
}
inline Qd toq(const VX& x) { return Qd(x(0), x(1), x(2), x(3)); }
inline VX fromq(const Qd& q) { VX x(4); x << q.w(), q.x(), q.y(), q.z(); return x; }

// reference state: plain data, layout-driven
struct RefState {
  double t = 0; V3 a = V3::Zero(), w = V3::Zero(); std::vector<VX> x; MX P;
};
template<class S> RefState snap(const S& s) { RefState r; r.t = s.time; r.a = s.a_m; r.w = s.w_m; r.x = getvars(s); r.P = s.P; return r; }

inline void ref_correct(std::vector<VX>& x, const std::vector<VarInfo>& L, const VX& d) {
  for (size_t i = 0; i < L.size(); i++) {
    if (!L[i].quat) x[i] += d.segment(L[i].at_err, L[i].err);
    else {
      V3 th = d.segment(L[i].at_err, 3);
      double q2 = th.squaredNorm() / 4;
      Qd dq = q2 < 1 ? Qd(std::sqrt(1 - q2), th.x() / 2, th.y() / 2, th.z() / 2) : Qd(1, th.x() / 2, th.y() / 2, th.z() / 2).normalized();
      x[i] = fromq((toq(x[i]) * dq).normalized());
    }
  }
}
// error-state difference b - a in the filter's own error coordinates (local/right perturbation)
inline VX ref_minus(const std::vector<VX>& b, const std::vector<VX>& a, const std::vector<VarInfo>& L) {
  VX d(L.back().at_err + L.back().err);
  for (size_t i = 0; i < L.size(); i++)
    if (!L[i].quat) d.segment(L[i].at_err, L[i].err) = b[i] - a[i];
    else { Qd e = toq(a[i]).conjugate() * toq(b[i]); d.segment(L[i].at_err, 3) = qlog(e.normalized()); }
  return d;
}
static const double kG = 9.80834;

// Strapdown step, closed form: second-order Magnus attitude, trapezoidal v and p.
inline void ref_prop_mean(const RefState& o, RefState& n) {
  double dt = n.t - o.t;
  n.x = o.x;
  V3 wo = o.w - V3(o.x[3]), wn = n.w - V3(o.x[3]), ao = o.a - V3(o.x[4]), an = n.a - V3(o.x[4]);
  V3 wm = 0.5 * (wo + wn);
  Qd e = qexp(wm * dt);
  V3 c = wo.cross(wn) * (dt * dt / 24.0);
  Qd dq(e.w(), e.x() + c.x(), e.y() + c.y(), e.z() + c.z());
  Qd qo = toq(o.x[2]), qn = (qo * dq).normalized();
  V3 acc = 0.5 * (qn.toRotationMatrix() * an + qo.toRotationMatrix() * ao) - V3(0, 0, kG);
  V3 vn = V3(o.x[1]) + acc * dt;
  n.x[0] = V3(o.x[0]) + 0.5 * (V3(o.x[1]) + vn) * dt;
  n.x[1] = vn; n.x[2] = fromq(qn);
}
// a finely sub-stepped strapdown integration of the linearly interpolated, bias-corrected IMU signal
inline void fine(const RefState& o, const RefState& n, V3& p, V3& v, Qd& q) {
  const int K = 400; double dt = n.t - o.t, h = dt / K;
  V3 bw = o.x[3], ba = o.x[4]; p = o.x[0]; v = o.x[1]; q = toq(o.x[2]).normalized();
  auto W = [&](double s) { return V3(o.w - bw + (n.w - o.w) * (s / dt)); };
  auto A = [&](double s) { return V3(o.a - ba + (n.a - o.a) * (s / dt)); };
  for (int i = 0; i < K; i++) {
    double s = i * h;
    Qd qm = (q * qexp(W(s + h / 4) * (h / 2))).normalized(), qn = (q * qexp(W(s + h / 2) * h)).normalized();
    V3 g(0, 0, kG);
    V3 a0 = q * A(s) - g, a1 = qm * A(s + h / 2) - g, a2 = qn * A(s + h) - g;
    p += v * h + h * h / 6 * (a0 + 2 * a1);
    v += h / 6 * (a0 + 4 * a1 + a2);
    q = qn;
  }
}
struct Noise { double acc = 0.002, accb = 5e-8, gyr = 0.0004, gyrb = 3e-6; };

inline MX ref_Fc(const M3& C, const V3& ea, const V3& ew) {  // continuous error dynamics, core 15
  MX F = MX::Zero(15, 15);
  F.block(0, 3, 3, 3).setIdentity();
  F.block(3, 6, 3, 3) = -C * sk(ea);
  F.block(3, 12, 3, 3) = -C;
  F.block(6, 6, 3, 3) = -sk(ew);
  F.block(6, 9, 3, 3) = -M3::Identity();
  return F;
}
inline MX expm(const MX& A) {  // scaling and squaring Taylor
  double n = A.cwiseAbs().rowwise().sum().maxCoeff(); int s = 0; while (n > 0.1) { n /= 2; s++; }
  MX B = A / std::pow(2.0, s), T = MX::Identity(A.rows(), A.cols()), R = T;
  for (int k = 1; k < 14; k++) { T = T * B / k; R += T; }
  for (int i = 0; i < s; i++) R = R * R;
  return R;
}
// exact discrete noise: integral of e^{Fc s} Gc Qc Gc' e^{Fc s}' ds (Gauss-Legendre)
inline MX ref_Qd(const MX& Fc, const M3& C, double dt, const Noise& z) {
  MX G = MX::Zero(15, 12), Qc = MX::Zero(12, 12);
  G.block(3, 0, 3, 3) = -C; G.block(12, 3, 3, 3).setIdentity(); G.block(6, 6, 3, 3) = -M3::Identity(); G.block(9, 9, 3, 3).setIdentity();
  Qc.block(0, 0, 3, 3) = M3::Identity() * z.acc * z.acc; Qc.block(3, 3, 3, 3) = M3::Identity() * z.accb * z.accb;
  Qc.block(6, 6, 3, 3) = M3::Identity() * z.gyr * z.gyr; Qc.block(9, 9, 3, 3) = M3::Identity() * z.gyrb * z.gyrb;
  static const double xs[8] = {-0.9602898564975363, -0.7966664774136267, -0.5255324099163290, -0.1834346424956498, 0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363};
  static const double ws[8] = {0.1012285362903763, 0.2223810344533745, 0.3137066458778873, 0.3626837833783620, 0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
  MX W = G * Qc * G.transpose(), R = MX::Zero(15, 15);
  for (int i = 0; i < 8; i++) { MX E = expm(Fc * (dt * (1 + xs[i]) / 2)); R += ws[i] * dt / 2 * (E * W * E.transpose()); }
  return R;
}

// ---- test-side manager --------------------------------------------------------
template<class S> struct Mgr : msf_core::MSF_SensorManager<S> {
  typedef typename msf_core::MSF_Core<S>::ErrorStateCov Cov;
  typedef Eigen::Matrix<double, S::nErrorStatesAtCompileTime, 1> Err;
  Noise nz; bool fixed_bias = false; double aux_q = 0;  // aux_q: std. dev. of the k-th aux variable is aux_q*(k+1)
  std::function<void(Err&)> augment;
  std::function<void(S&, const S&, Err&)> sanity;
  mutable long n_init = 0, n_prop = 0, n_upd = 0;
  mutable RefState last_prop, last_upd, last_init;
  mutable std::function<void(const boost::shared_ptr<S>&)> on_prop, on_upd;
  virtual void Init(double) const {}
  virtual void InitState(S&) const {}
  virtual void ResetState(S&) const {}
  virtual void CalculateQAuxiliaryStates(S& s, double dt) const {
    int k = 0; double aq = aux_q; int* pk = &k;
    boost::fusion::for_each(s.statevars, [pk, aq, dt](auto& sv) {
      int i = (*pk)++;
      if (i < 5) return;
      double sd = aq * (i - 4);
      sv.Q.setIdentity(); sv.Q *= dt * sd * sd;
    });
  }
  virtual void SetStateCovariance(Cov&) const {}
  virtual void AugmentCorrectionVector(Err& e) const { if (augment) augment(e); }
  virtual void SanityCheckCorrection(S& a, const S& b, Err& e) const { if (sanity) sanity(a, b, e); }
  virtual bool GetParamFixedBias() const { return fixed_bias; }
  virtual double GetParamNoiseAcc() const { return nz.acc; }
  virtual double GetParamNoiseAccbias() const { return nz.accb; }
  virtual double GetParamNoiseGyr() const { return nz.gyr; }
  virtual double GetParamNoiseGyrbias() const { return nz.gyrb; }
  virtual double GetParamFuzzyTrackingThreshold() const { return 0.1; }
  virtual void PublishStateInitial(const boost::shared_ptr<S>& s) const { n_init++; last_init = snap(*s); }
  virtual void PublishStateAfterPropagation(const boost::shared_ptr<S>& s) const { n_prop++; last_prop = snap(*s); if (on_prop) on_prop(s); }
  virtual void PublishStateAfterUpdate(const boost::shared_ptr<S>& s) const { n_upd++; last_upd = snap(*s); if (on_upd) on_upd(s); }
};
template<class S> struct Imu : msf_core::IMUHandler<S> {
  Imu(msf_core::MSF_SensorManager<S>& m) : msf_core::IMUHandler<S>(m, "x", "y") {}
  virtual bool Initialize() { return true; }
};

// ---- instrumented measurement ----------------------------------------------
struct NoMsg {};
template<class S, int M> struct ProbeMeas : msf_core::MSF_Measurement<NoMsg, Eigen::Matrix<double, M, M>, S> {
  typedef msf_core::MSF_Measurement<NoMsg, Eigen::Matrix<double, M, M>, S> B;
  enum { N = S::nErrorStatesAtCompileTime };
  int id; Eigen::Matrix<double, M, N> H; bool dynamic = false;
  std::function<Eigen::Matrix<double, M, 1>(const S&)> residual;
  std::function<void(ProbeMeas&, S&, bool)> hook;   // (self, state, after)
  std::function<bool(ProbeMeas&, boost::shared_ptr<S>, msf_core::MSF_Core<S>&)> custom;
  ProbeMeas(int id_, double t, bool mah = false, double thr = 0, int sensor = 0, bool absolute = true) : B(absolute, sensor, mah, thr), id(id_) { this->time = t; H.setZero(); }
  Eigen::Matrix<double, M, M>& R() { return this->R_; }
  virtual void MakeFromSensorReadingImpl(const boost::shared_ptr<NoMsg const>) {}
  virtual std::string Type() { return "probe"; }
  void relative(boost::shared_ptr<S> a, boost::shared_ptr<S> b, msf_core::MSF_Core<S>& core, const Eigen::Matrix<double, M, N>& Ho, const Eigen::Matrix<double, M, N>& Hn, const Eigen::Matrix<double, M, 1>& r) {
    this->CalculateAndApplyCorrectionRelative(a, b, core, Ho, Hn, r, this->R_);
  }
  virtual void Apply(boost::shared_ptr<S> s, msf_core::MSF_Core<S>& core) {
    if (hook) hook(*this, *s, false);
    if (custom && custom(*this, s, core)) { if (hook) hook(*this, *s, true); return; }
    Eigen::Matrix<double, M, 1> r = residual(*s);
    if (dynamic) { MX h = H, rr = r, R = this->R_; this->CalculateAndApplyCorrection(s, core, h, rr, R); }
    else this->CalculateAndApplyCorrection(s, core, H, r, this->R_);
    if (hook) hook(*this, *s, true);
  }
};

template<class S> struct Rig {
  Mgr<S> mgr; Imu<S> imu; msf_core::MSF_Core<S>& core;
  std::vector<VarInfo> L;
  Rig() : imu(mgr), core(*mgr.msf_core_), L(layout<S>()) {}
  int N() const { return S::nErrorStatesAtCompileTime; }
  void init(double t, const std::vector<VX>& x, const V3& a, const V3& w, const MX* P = nullptr, bool readings = true) {
    boost::shared_ptr<msf_core::MSF_InitMeasurement<S> > m(new msf_core::MSF_InitMeasurement<S>(readings));
    initvars(*m, x, std::make_integer_sequence<int, S::nStateVarsAtCompileTime>());
    if (P) m->GetStateCovariance() = *P;
    m->Geta_m() = a; m->Getw_m() = w; m->time = t;
    std::streambuf* old = std::cout.rdbuf(nullptr);
    core.Init(m);
    std::cout.rdbuf(old); std::cout.clear();
  }
  template<int... I> void initvars(msf_core::MSF_InitMeasurement<S>& m, const std::vector<VX>& x, std::integer_sequence<int, I...>) { int d[] = {(one<I>(m, x[I]), 0)...}; (void)d; }
  template<int I> void one(msf_core::MSF_InitMeasurement<S>& m, const VX& x) {
    typedef typename std::decay<decltype(boost::fusion::at_c<I>(std::declval<S&>().statevars).state_)>::type T;
    if constexpr (std::is_same<T, Eigen::Quaterniond>::value) m.template SetStateInitValue<I>(toq(x)); else { T v = x; m.template SetStateInitValue<I>(v); }
  }
  std::vector<VX> randvars(Rng& g, double bias = 0.05) {
    std::vector<VX> x(L.size());
    for (size_t i = 0; i < L.size(); i++) {
      if (L[i].quat) x[i] = fromq(randq(g));
      else { x[i] = VX(L[i].n); for (int k = 0; k < L[i].n; k++) x[i](k) = g.n() * (i == 3 || i == 4 ? bias : 2.0); }
      if (L[i].n == 1) x[i](0) = g.u(0.3, 3);
    }
    return x;
  }
  void feed(double t, const V3& a, const V3& w) { imu.ProcessIMU(a, w, t, 0); }
};

// The code's own one-step operators on scratch states of a private core.
template<class S> void real_step(Rig<S>& scratch, const RefState& o, RefState& n) {
  boost::shared_ptr<S> a(new S), b(new S);
  setvars(*a, o.x); a->time = o.t; a->a_m = o.a; a->w_m = o.w; a->P = o.P;
  b->time = n.t; b->a_m = n.a; b->w_m = n.w;
  scratch.core.PropagateState(a, b);
  scratch.core.PredictProcessCovariance(a, b);
  n.x = getvars(*b); n.P = b->P;
}

// Smooth, exciting IMU signal: sums of sines per axis around gravity.
struct ImuGen {
  double f[6][2], A[6][2], ph[6][2]; double g0 = 9.8;
  ImuGen(Rng& r, double acc, double gyr) { for (int i = 0; i < 6; i++) for (int k = 0; k < 2; k++) { f[i][k] = r.u(0.2, 6); A[i][k] = r.u(0.2, 1) * (i < 3 ? acc : gyr); ph[i][k] = r.u(0, 6.28); } }
  V3 a(double t) const { V3 o; for (int i = 0; i < 3; i++) o(i) = A[i][0] * std::sin(f[i][0] * t + ph[i][0]) + A[i][1] * std::sin(f[i][1] * t + ph[i][1]); o.z() += g0; return o; }
  V3 w(double t) const { V3 o; for (int i = 0; i < 3; i++) o(i) = A[i + 3][0] * std::sin(f[i + 3][0] * t + ph[i + 3][0]) + A[i + 3][1] * std::sin(f[i + 3][1] * t + ph[i + 3][1]); return o; }
};

// ---- reference filter: batch, strictly in time order ---------------------------
struct RefMeas { double t; int id; std::function<VX(const RefState&)> residual; std::function<MX(const RefState&)> H; MX R; double mah = 0; };
struct RefFilter {
  std::vector<VarInfo> L; Noise nz; double aux_q = 0; int N;
  std::vector<RefState> nodes; std::vector<std::pair<double, int> > applied; long rejected = 0; double margin = 1e300;  // closest |d/threshold-1|
  std::function<void(VX&)> augment;
  // one-step mean/covariance propagation; by default the independent reference
  // maths, or the code's own one-step operators (checked on their own by C05/C06)
  std::function<void(const RefState&, RefState&)> step;
  explicit RefFilter(const std::vector<VarInfo>& l) : L(l), N(l.back().at_err + l.back().err) {}
  void cov(const RefState& o, RefState& n) {
    double dt = n.t - o.t;
    V3 ew = n.w - V3(n.x[3]), ea = n.a - V3(n.x[4]); M3 C = toq(n.x[2]).toRotationMatrix();
    MX Fc = ref_Fc(C, ea, ew), F = MX::Identity(N, N), Q = MX::Zero(N, N);
    F.topLeftCorner(15, 15) = discF(C, ea, ew, dt);
    Q.topLeftCorner(15, 15) = ref_Qd(Fc, C, dt, nz);
    for (size_t i = 5; i < L.size(); i++) { double sd = aux_q * (int(i) - 4); Q.block(L[i].at_err, L[i].at_err, L[i].err, L[i].err) = MX::Identity(L[i].err, L[i].err) * (dt * sd * sd); }
    n.P = F * o.P * F.transpose() + Q;
  }
  // transition matrix, power series in dt with the rotational parts kept to second order in w
  // (Weiss & Siegwart, ICRA 2011, eq. for A..F)
  static MX discF(const M3& C, const V3& ea, const V3& ew, double dt) {
    M3 I = M3::Identity(), W = sk(ew), Ca = C * sk(ea); MX F = MX::Identity(15, 15);
    double d2 = dt * dt / 2, d3 = d2 * dt / 3, d4 = d3 * dt / 4, d5 = d4 * dt / 5;
    M3 A = -Ca * (d2 * I - d3 * W + d4 * W * W);
    M3 B = Ca * (d3 * I - d4 * W + d5 * W * W);
    F.block(0, 3, 3, 3) = dt * I; F.block(0, 6, 3, 3) = A; F.block(0, 9, 3, 3) = B; F.block(0, 12, 3, 3) = -C * d2;
    F.block(3, 6, 3, 3) = Ca * (-dt * I + d2 * W - d3 * W * W); F.block(3, 9, 3, 3) = -A; F.block(3, 12, 3, 3) = -C * dt;
    F.block(6, 6, 3, 3) = I - dt * W + d2 * W * W; F.block(6, 9, 3, 3) = -dt * I + d2 * W - d3 * W * W;
    return F;
  }
  static bool update(RefState& s, const std::vector<VarInfo>& L, const MX& H, const VX& r, const MX& R, double mah, const std::function<void(VX&)>& augment, double* margin = nullptr) {
    MX S = H * s.P * H.transpose() + R;
    Eigen::FullPivLU<MX> lu(S);
    if (mah > 0) { double d = std::sqrt(r.dot(lu.solve(r))); if (margin) *margin = std::min(*margin, std::fabs(d / mah - 1)); if (d > mah) return false; }
    MX K = lu.solve(H * s.P).transpose();  // P symmetric, S symmetric
    VX d = K * r;
    if (augment) augment(d);
    MX A = MX::Identity(s.P.rows(), s.P.cols()) - K * H;
    s.P = A * s.P * A.transpose() + K * R * K.transpose();
    s.P = 0.5 * (s.P + s.P.transpose()).eval();
    ref_correct(s.x, L, d);
    return true;
  }
  // imu: samples after the initial state, increasing; meas: any order
  void run(const RefState& x0, const std::vector<RefState>& imu, std::vector<RefMeas> meas, double tol = 0.001) {
    std::stable_sort(meas.begin(), meas.end(), [](const RefMeas& a, const RefMeas& b) { return a.t < b.t; });
    std::vector<RefState> tl; tl.push_back(x0); for (auto& s : imu) tl.push_back(s);
    std::map<double, std::vector<const RefMeas*> > at;
    // place measurements on nodes: existing IMU node within tol, else a new interpolated node
    std::vector<RefState> extra;
    for (auto& m : meas) {
      if (m.t > tl.back().t || m.t < tl.front().t) continue;
      double bd = 1e300, bt = 0; for (auto& s : tl) if (std::fabs(s.t - m.t) < bd) { bd = std::fabs(s.t - m.t); bt = s.t; }
      if (bd <= tol) at[bt].push_back(&m);
      else {
        const RefState *lo = nullptr, *hi = nullptr;
        for (auto& s : tl) { if (s.t < m.t) lo = &s; if (s.t > m.t && !hi) hi = &s; }
        RefState n; n.t = m.t; double f = (m.t - lo->t) / (hi->t - lo->t);
        n.a = lo->a + f * (hi->a - lo->a); n.w = lo->w + f * (hi->w - lo->w);
        if (!at.count(m.t)) extra.push_back(n); at[m.t].push_back(&m);
      }
    }
    for (auto& e : extra) tl.push_back(e);
    std::sort(tl.begin(), tl.end(), [](const RefState& a, const RefState& b) { return a.t < b.t; });
    nodes.clear(); applied.clear();
    for (size_t i = 0; i < tl.size(); i++) {
      RefState s = tl[i];
      if (i) { if (step) step(nodes.back(), s); else { ref_prop_mean(nodes.back(), s); cov(nodes.back(), s); } }
      auto it = at.find(s.t);
      if (it != at.end()) for (const RefMeas* m : it->second) {
        applied.push_back(std::make_pair(m->t, m->id));
        if (!update(s, L, m->H(s), m->residual(s), m->R, m->mah, augment, &margin)) rejected++;
      }
      nodes.push_back(s);
    }
  }
};
}  // namespace vf
