// The parts of the repository around the filter: GPS conversion, similarity
// transform, numeric helpers, pose distorter, timing.
// One suite per W_<name>, all of them when SELECT is not defined.
#include "common.h"
#include <ros/ros.h>
#include <Eigen/Dense>
#include <set>
#include <sys/syscall.h>
#if !defined(SELECT)
#define W_gps
#define W_simtrans
#define W_numeric
#define W_distort
#define W_timer
#define W_accum
#define W_palette
#endif
using namespace vf;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef Eigen::Quaterniond Qd;
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
static std::vector<Suite> suites;
struct Add { Add(const char* n, CaseFn f) { suites.push_back({n, f}); } };
static Qd rq(Rng& g) { Qd q(g.n(), g.n(), g.n(), g.n()); q.normalize(); return q; }
static V3 rv(Rng& g, double s = 1) { return V3(g.n(), g.n(), g.n()) * s; }

// ---------------------------------------------------------------- GPS (C16)
#ifdef W_gps
#include <msf_core/gps_conversion.h>
namespace gps {
typedef long double LD;
struct P3 { LD x, y, z; };
static const LD PI = 3.14159265358979323846264338327950288L;
static P3 ecef(double lat, double lon, double alt) {
  LD a = 6378137.0L, e2 = 6.69437999014e-3L, sl = sinl(lat * PI / 180), cl = cosl(lat * PI / 180), so = sinl(lon * PI / 180), co = cosl(lon * PI / 180);
  LD n = a / sqrtl(1 - e2 * sl * sl);
  return {(n + alt) * cl * co, (n + alt) * cl * so, (n * (1 - e2) + alt) * sl};
}
struct Ref { bool set = false; P3 p{0, 0, 0}; LD R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  void init(double lat, double lon, double alt) {
    set = true; p = ecef(lat, lon, alt);
    LD sl = sinl(lat * PI / 180), cl = cosl(lat * PI / 180), so = sinl(lon * PI / 180), co = cosl(lon * PI / 180);
    LD e[3][3] = {{-so, co, 0}, {-sl * co, -sl * so, cl}, {cl * co, cl * so, sl}};
    memcpy(R, e, sizeof R);
  }
  P3 enu(P3 q) const { LD d[3] = {q.x - p.x, q.y - p.y, q.z - p.z}, o[3]; for (int i = 0; i < 3; i++) o[i] = R[i][0] * d[0] + R[i][1] * d[1] + R[i][2] * d[2]; return {o[0], o[1], o[2]}; }
  void adjust(double z) { p.x += R[2][0] * z; p.y += R[2][1] * z; p.z += R[2][2] * z; }
};
static double err(const msf_core::Vector3& a, P3 b) { return std::max({std::fabs((double)(a[0] - b.x)), std::fabs((double)(a[1] - b.y)), std::fabs((double)(a[2] - b.z))}); }
static double mag(P3 b) { return (double)sqrtl(b.x * b.x + b.y * b.y + b.z * b.z); }
static double lat(Rng& g) { int k = g.i(0, 11); if (k == 0) return 90; if (k == 1) return -90; if (k == 2) return 0; return k < 6 ? g.u(-90, 90) : g.u(-75, 75); }
static double lon(Rng& g) { int k = g.i(0, 11); if (k == 0) return 180; if (k == 1) return -180; if (k == 2) return 0; if (k == 3) return g.pick(std::vector<double>{90, -90}); if (k == 4) return g.u(-360, 360); return g.u(-180, 180); }
static double alt(Rng& g) { return g.p(0.2) ? 0.0 : g.p(0.1) ? g.u(-10000, 1e6) : g.u(-400, 9000); }
static void run(Rng& g, uint64_t) {
  msf_core::GPSConversion c; Ref r;
  double la = 0, lo = 0, al = 0; int n = g.i(3, 14); std::string log;
  for (int k = 0; k < n; k++) {
    int op = k == 0 && g.p(0.9) ? 0 : g.i(0, 5);
    sig(op);
    if (op == 0) {
      la = lat(g); lo = lon(g); al = alt(g); c.InitReference(la, lo, al); r.init(la, lo, al); count("references"); sigd(la);
      msf_core::Vector3 z = c.WGS84ToENU(la, lo, al);
      if (!(z.norm() < 1e-6)) violate("gps_reference_not_origin", cat("reference ", la, " ", lo, " ", al, " maps to ", z.transpose()));
      log += cat("init(", la, ",", lo, ",", al, ") ");
    } else if (op == 1) {
      double z = g.p(0.2) ? 0.0 : g.n() * 50; c.AdjustReference(z); r.adjust(z); count(r.set ? "adjustments" : "adjust_uninitialised"); log += cat("adjust(", z, ") ");
    } else {
      double a, b, h;
      if (r.set && g.p(0.7)) { double s = g.logu(1e-7, 1); a = la + s * g.n(); b = lo + s * g.n(); h = al + g.n() * g.logu(0.01, 1000); if (a > 90) a = 90; if (a < -90) a = -90; }
      else { a = lat(g); b = lon(g); h = alt(g); }
      if (g.p(0.1) && r.set) { a = la; b = lo; }
      P3 e = ecef(a, b, h);
      msf_core::Vector3 ce = c.WGS84ToECEF(a, b, h);
      double tol = 2e-8 + 1e-14 * (mag(e) + std::fabs(h));
      maxim("ecef_error_m", err(ce, e));
      if (!(err(ce, e) <= tol)) violate("gps_ecef", cat(log, " point ", a, " ", b, " ", h, " -> ", ce.transpose(), " expected ", (double)e.x, " ", (double)e.y, " ", (double)e.z));
      P3 u = r.enu(e);
      msf_core::Vector3 cu = c.WGS84ToENU(a, b, h), cv = c.ECEFToENU(ce);
      double tu = 4e-8 + 1e-14 * (mag(e) + mag(r.p) + std::fabs(h)) + 2e-15 * mag(u);
      maxim("enu_error_m", err(cu, u));
      if (!(err(cu, u) <= tu)) violate(r.set ? "gps_enu" : "gps_uninitialised", cat(log, " point ", a, " ", b, " ", h, " -> ", cu.transpose(), " expected ", (double)u.x, " ", (double)u.y, " ", (double)u.z));
      if (!(err(cv, u) <= tu)) violate("gps_ecef_to_enu", cat(log, " point ", a, " ", b, " ", h, " -> ", cv.transpose()));
      count(r.set ? "points" : "points_uninitialised"); sigd(a); nontrivial();
      if (k < 4) sample(cat(log, "(", a, ",", b, ",", h, ")->", cu.transpose(), " "));
    }
  }
}
static Add add("gps", run);
}
#endif

// ---------------------------------------------------- similarity transform (C17)
#ifdef W_simtrans
#include <msf_core/similaritytransform.h>
namespace simtrans {
typedef msf_core::similarity_transform::Pose Pose;
static Pose mk(const V3& p, const Qd& q, Rng& g) {
  Pose o; o.pose.position.x = p.x(); o.pose.position.y = p.y(); o.pose.position.z = p.z();
  o.pose.orientation.w = q.w(); o.pose.orientation.x = q.x(); o.pose.orientation.y = q.y(); o.pose.orientation.z = q.z();
  for (auto& c : o.covariance) c = g.n();
  return o;
}
static void run(Rng& g, uint64_t) {
  msf_core::similarity_transform::From6DoF sim;
  double noise = g.p(0.5) ? 0 : g.logu(1e-6, 0.5);
  int kind = g.i(0, 9);   // 0: no rotation, 1: no motion at all
  Qd q = rq(g); V3 p = rv(g, g.logu(0.01, 10)); double s = g.logu(0.1, 10);
  Qd base = rq(g); double spread = g.logu(0.05, 3), size = g.logu(0.1, 100);
  int m = g.i(0, 30); bool doubled = g.p(0.3);
  V3 t0 = rv(g, size);
  MX A(0, 4); VX b(0); Eigen::Matrix4d M = Eigen::Matrix4d::Zero();
  std::string sm;
  auto check = [&]() {
    Pose out = mk(V3(7, 7, 7), Qd(1, 0, 0, 0), g); Pose before = out; double sc = -77, cond = -77;
    double eps = kind <= 1 && g.p(0.7) ? 1e-8 * size * size : -1;
    int mm = A.rows() / 3;
    bool ok = eps > 0 ? sim.Compute(out, &sc, &cond, eps) : g.p(0.1) ? sim.Compute(out) : sim.Compute(out, &sc, &cond);
    count("computes");
    if (ok != (mm >= 2)) { violate("sim_return", cat(mm, " pairs, Compute returned ", ok)); return; }
    if (!ok) { count("too_few"); return; }
    nontrivial(); sig(mm); sigd(out.pose.position.x);
    V3 op(out.pose.position.x, out.pose.position.y, out.pose.position.z);
    Qd oq(out.pose.orientation.w, out.pose.orientation.x, out.pose.orientation.y, out.pose.orientation.z);
    if (!std::equal(out.covariance.begin(), out.covariance.end(), before.covariance.begin())) count("covariance_written");
    // orientation: maximises the sum of squared inner products, unit length
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(M / mm);
    double val = oq.coeffs().dot(M / mm * oq.coeffs());
    if (!near(oq.norm(), 1, 1e-9)) violate("sim_rotation_norm", cat("norm ", oq.norm()));
    if (!(val >= es.eigenvalues()(3) - 1e-9)) violate("sim_rotation", cat(mm, " pairs, mean of squared inner products ", val, " attainable ", es.eigenvalues()(3)));
    if (noise == 0) { double d = 1 - std::fabs(oq.dot(q)); maxim("rotation_error", d); if (!(d < 1e-9)) violate("sim_rotation_exact", cat("recovered ", oq.coeffs().transpose(), " true ", q.coeffs().transpose())); }
    if (sc == -77) return;
    Eigen::Matrix4d AA = A.transpose() * A; VX Ab = A.transpose() * b;
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> sv(AA);
    VX ev = sv.eigenvalues();
    double c = ev(3) / ev(0);
    bool rankdef = !(ev(0) > 1e-10 * ev(3));
    Eigen::Vector4d x; x << op, sc;
    if (!rankdef) {
      if (!(std::fabs(cond - c) <= 1e-9 * c + 1e-13 * c * c)) violate("sim_condition", cat("reported ", cond, " expected ", c));
      VX opt = AA.ldlt().solve(Ab);
      // compare through the cost: A'A is what the code inverts, so the error grows with its condition
      double tol = 1e-12 * c * (1 + opt.norm()) + 1e-9 * (1 + opt.norm());
      if (eps < 0 || eps < ev(0) * 0.1) {
        maxim("transform_error_over_tol", (x - opt).norm() / tol);
        if (!((x - opt).norm() <= tol)) violate("sim_least_squares", cat(mm, " pairs, position/scale ", x.transpose(), " least squares ", opt.transpose(), " cond ", c));
        count("well_posed");
        if (noise == 0 && c < 1e8) {
          double e = (op - p).norm() / (1 + p.norm()) + std::fabs(sc - s) / s;
          maxim("exact_error_over_cond", e / c);
          if (!(e <= 1e-11 * c + 1e-8)) violate("sim_exact", cat("recovered p ", op.transpose(), " scale ", sc, " true ", p.transpose(), " ", s));
          count("exact");
        }
      }
    } else {
      count("ill_posed");
      if (!(cond > 1e8) && std::isfinite(cond)) violate("sim_condition_ill", cat("ill posed, but condition reported as ", cond));
      if (eps > 0 && ev(1) > 1e-5 * ev(3) && eps < 0.1 * ev(1) && eps > 10 * std::fabs(ev(0))) {  // minimum-norm solution
        Eigen::Matrix4d V = sv.eigenvectors(); VX y = V.transpose() * Ab;
        for (int i = 0; i < 4; i++) y(i) = ev(i) < eps ? 0 : y(i) / ev(i);
        VX opt = V * y; double tol = 1e-7 * (1 + opt.norm()) + 1e-11 * ev(3) / ev(1) * (1 + opt.norm());
        if (!((x - opt).norm() <= tol)) violate("sim_pseudo_inverse", cat("position/scale ", x.transpose(), " minimum norm ", opt.transpose()));
        count("minimum_norm");
      }
    }
    sm = cat("pairs ", mm, " noise ", noise, " -> p ", op.transpose(), " scale ", sc, " cond ", cond);
  };
  for (int i = 0; i < m; i++) {
    Qd q1 = kind <= 1 ? base : base * Qd(Eigen::AngleAxisd(spread * g.n(), rv(g).normalized()));
    V3 t1 = kind == 1 ? t0 : V3(t0 + rv(g, size));
    V3 t2 = (t1 + q1 * p) / s + rv(g, noise);
    Qd e(1, 0.3 * noise * g.n(), 0.3 * noise * g.n(), 0.3 * noise * g.n()); e.normalize();
    Qd q2 = q1 * q * e; q2.normalize();
    if (doubled && g.p(0.5)) q2.coeffs() = -q2.coeffs();
    if (g.p(0.5)) sim.AddMeasurement(mk(t1, q1, g), mk(t2, q2, g)); else sim.AddMeasurement(std::make_pair(mk(t1, q1, g), mk(t2, q2, g)));
    // rows:  scale * R1' t2 - p = R1' t1
    M3 R1t = q1.toRotationMatrix().transpose();
    MX A2(A.rows() + 3, 4); A2 << A, MX::Zero(3, 4); A2.block(A.rows(), 0, 3, 3) = -M3::Identity(); A2.block(A.rows(), 3, 3, 1) = R1t * t2; A = A2;
    VX b2(b.size() + 3); b2 << b, V3(R1t * t1); b = b2;
    Eigen::Vector4d d = (q1.conjugate() * q2).coeffs(); M += d * d.transpose();
    if (g.p(0.1)) check();
  }
  check(); sample(sm);
}
static Add add("simtrans", run);
}
#endif

// ------------------------------------------------------- numeric helpers (C18)
#ifdef W_numeric
#include <msf_core/eigen_utils.h>
#include <msf_core/eigen_conversions.h>
#include <msf_core/similaritytransform.h>
#include <msf_core/msf_tools.h>
#include <geometry_msgs/Vector3.h>
namespace numeric {
static bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
template<class D> static void median(Rng& g, const D& v, const char* what) {
  std::vector<double> s(v.data(), v.data() + v.size()); std::sort(s.begin(), s.end());
  D c = v; double m = msf_core::GetMedian(v); int n = s.size();
  double lo = n ? s[(n - 1) / 2] : 0, hi = n ? s[n / 2] : 0;
  if (!(m >= lo && m <= hi)) violate(cat("median_", what), cat(n, " values, median reported ", m, " expected between ", lo, " and ", hi));
  if (!(c == v)) violate("median_modified_input", what);
  count(cat("medians_", what));
}
template<class D> static void checknum(Rng& g, D m, const char* what) {
  int bad = g.i(0, 2); if (m.size() == 0) bad = 0;
  int at = m.size() ? g.i(0, (int)m.size() - 1) : 0; double v = bad == 1 ? NAN : g.p(0.5) ? INFINITY : -INFINITY;
  if (bad) m.data()[at] = v;
  std::streambuf* o = std::cerr.rdbuf(nullptr);
  bool r = CheckForNumeric(m, "x"), r2 = true;
  if (m.rows() > 1) r2 = CheckForNumeric(m.block(0, 0, m.rows() - 1, m.cols()), "x");
  std::cerr.rdbuf(o); std::cerr.clear();
  bool inblock = bad && m.rows() > 1 && (int)(at % m.rows()) < m.rows() - 1;
  if (r != (bad == 0)) violate(cat("numeric_check_", what), cat("value ", v, " at ", at, " of ", m.rows(), "x", m.cols(), " reported numeric=", r));
  if (r2 != !inblock) violate(cat("numeric_check_block_", what), cat("value ", v, " at ", at, " of ", m.rows(), "x", m.cols(), " block reported numeric=", r2));
  count(bad ? cat("nonnumeric_", what) : cat("numeric_", what));
}
static void run(Rng& g, uint64_t) {
  double sc = g.logu(1e-6, 1e3);
  V3 a = rv(g, sc), b = rv(g, g.logu(1e-6, 1e3));
  if (g.p(0.1)) a.setZero();
  // cross product matrix
  { M3 S = Skew(a); V3 c(a.y() * b.z() - a.z() * b.y(), a.z() * b.x() - a.x() * b.z(), a.x() * b.y() - a.y() * b.x());
    if (!((S * b - c).norm() <= 1e-14 * (1e-300 + a.norm() * b.norm()))) violate("skew", cat(a.transpose(), " x ", b.transpose()));
    if (!((S + S.transpose()).norm() == 0)) violate("skew_antisymmetry", cat(a.transpose()));
    Eigen::Vector3f f(1.5f, -2.f, 0.25f); Eigen::Matrix3f F = Skew(f); if (F(2, 1) != 1.5f || F(0, 1) != -0.25f || F(2, 0) != 2.f) violate("skew_float", "");
    V3 e = Skew(V3(a - b)) * b; V3 e2 = Skew(a) * b; if (!((e - e2).norm() <= 1e-12 * (1e-300 + (a.norm() + b.norm()) * b.norm()))) violate("skew_expression", ""); }
  // quaternion rate matrices: Hamilton  dq/dt = 1/2 Omega(w) q  is  1/2 q*w (body rates); the JPL one is its conjugate convention
  { Qd q = rq(g); Eigen::Vector4d c(q.x(), q.y(), q.z(), q.w()); Qd w(0, a.x(), a.y(), a.z());
    Eigen::Vector4d hm = OmegaMatHamilton(a) * c, jp = OmegaMatJPL(a) * c;
    auto coeffs = [](const Qd& r) { return Eigen::Vector4d(r.x(), r.y(), r.z(), r.w()); };
    Eigen::Vector4d rh, rj;
    // vector*quaternion products written out by hand
    V3 v(q.x(), q.y(), q.z()); V3 av = q.w() * a;
    auto cross = [](const V3& x, const V3& y) { return V3(x.y() * y.z() - x.z() * y.y(), x.z() * y.x() - x.x() * y.z(), x.x() * y.y() - x.y() * y.x()); };
    rh << av + cross(a, v), -a.dot(v);   // w (x) q
    rj << av + cross(v, a), -a.dot(v);   // q (x) w
    if (!((hm - rh).norm() <= 1e-14 * (1e-300 + a.norm()))) violate("omega_hamilton", cat(hm.transpose(), " expected ", rh.transpose()));
    if (!((jp - rj).norm() <= 1e-14 * (1e-300 + a.norm()))) violate("omega_jpl", cat(jp.transpose(), " expected ", rj.transpose()));
    (void)coeffs;
    // Xi: [w I + [v]x ; -v'], columns orthonormal, orthogonal to q
    Eigen::Matrix<double, 4, 3> X = XiMat(c), XE; XE.setZero();
    M3 vx; vx << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0;
    XE.topRows(3) = q.w() * M3::Identity() + vx; XE.row(3) = -v.transpose();
    if (!((X - XE).norm() <= 1e-15)) violate("xi", cat("for ", c.transpose()));
    if (!((X.transpose() * X - M3::Identity()).norm() <= 1e-13) || !((X.transpose() * c).norm() <= 1e-14)) violate("xi_orthonormal", cat("for ", c.transpose())); }
  // small-angle quaternion
  { V3 t = rv(g, g.p(0.5) ? g.logu(1e-9, 0.3) : g.logu(0.3, 50)); if (g.p(0.05)) t.setZero(); else if (g.p(0.1)) t *= 2 / t.norm() * (1 + 1e-14 * g.n());
    Qd q = QuaternionFromSmallAngle(t); double n2 = t.squaredNorm() / 4;
    if (!near(q.norm(), 1, 1e-12)) violate("small_angle_norm", cat("angle ", t.transpose(), " norm ", q.norm()));
    if (!(q.w() >= 0)) violate("small_angle_sign", cat("angle ", t.transpose(), " w ", q.w()));
    if (t.norm() > 0 && !((q.vec().cross(t)).norm() <= 1e-12 * q.vec().norm() * t.norm() + 1e-300) ) violate("small_angle_axis", cat("angle ", t.transpose(), " q ", q.coeffs().transpose()));
    if (q.vec().dot(t) < 0) violate("small_angle_axis", cat("angle ", t.transpose(), " q ", q.coeffs().transpose()));
    double want = n2 < 1 ? std::sqrt(n2) : std::sqrt(n2) / std::sqrt(1 + n2);   // length of the vector part
    if (std::fabs(n2 - 1) > 1e-9 && !near(q.vec().norm(), want, 1e-12)) violate("small_angle_value", cat("angle ", t.transpose(), " vector part ", q.vec().norm(), " expected ", want));
    if (n2 < 0.01) { double rot = 2 * std::asin(std::min(1.0, q.vec().norm())); if (!near(rot, t.norm(), t.norm() * t.norm() * t.norm() / 20 + 1e-15)) violate("small_angle_rotation", cat("angle ", t.norm(), " rotation ", rot)); }
    count(n2 < 1 ? "small_angles" : "large_angles"); Eigen::Vector3f tf = t.cast<float>(); Eigen::Quaternionf qf = QuaternionFromSmallAngle(tf); if (!near(qf.norm(), 1, 1e-5)) violate("small_angle_float", cat(t.transpose())); }
  // numeric checks
  { MX d = MX::Random(g.i(1, 6), g.i(1, 6)); checknum(g, d, "dynamic"); VX dv = VX::Random(g.i(1, 9)); checknum(g, dv, "dynamic_vector");
    Eigen::Matrix<double, 4, 3> f = Eigen::Matrix<double, 4, 3>::Random(); checknum(g, f, "fixed"); Eigen::Matrix<double, 3, Eigen::Dynamic> h = MX::Random(3, g.i(1, 5)); checknum(g, h, "half_dynamic");
    Eigen::Matrix<double, 1, 1> one; one << 1; checknum(g, one, "scalar"); Eigen::Matrix<double, 25, 25> big; big.setRandom(); checknum(g, big, "covariance");
    Eigen::Matrix<double, 4, 3> hm = Eigen::Matrix<double, 4, 3>::Constant(g.p(0.5) ? 1e308 : -5e-324); checknum(g, hm, "extreme"); }
  // median
  { auto fill = [&](auto v) { bool ties = g.p(0.3); for (int i = 0; i < v.size(); i++) v(i) = ties ? g.i(-2, 2) : g.n() * sc; return v; };
    median(g, fill(Eigen::Matrix<double, 1, 1>()), "fixed"); median(g, fill(Eigen::Matrix<double, 2, 1>()), "fixed"); median(g, fill(Eigen::Matrix<double, 5, 1>()), "fixed");
    median(g, fill(Eigen::Matrix<double, 30, 1>()), "fixed"); median(g, fill(Eigen::Matrix<double, 31, 1>()), "fixed"); median(g, VX(fill(VX(g.i(1, 40)))), "dynamic");
    if (g.p(0.1)) median(g, VX(VX(0)), "dynamic"); }
  // time printing helper
  { double v = g.p(0.5) ? g.u(0, 2e9) : g.u(-2e5, 2e5); double r = msf_core::timehuman(v), k = (v - r) / 10000;
    if (!(r >= 0 && r < 10000 && near(k, std::round(k), 1e-9))) violate("timehuman", cat(v, " -> ", r)); }
  // messages
  { geometry_msgs::Point p; p.x = a.x(); p.y = a.y(); p.z = a.z(); V3 e = msf_core::GeometryMsgsToEigen(p); if (!(e == a)) violate("point_to_eigen", "");
    geometry_msgs::Point p2 = msf_core::EigenToGeometryMsgs(b); if (p2.x != b.x() || p2.y != b.y() || p2.z != b.z()) violate("eigen_to_point", "");
    MX row = b.transpose(); VX dyn = b; geometry_msgs::Point p4 = msf_core::EigenToGeometryMsgs(dyn); if (p4.x != b.x() || p4.y != b.y() || p4.z != b.z()) violate("eigen_to_point_dynamic", "");
    Qd q = rq(g); geometry_msgs::Quaternion m = msf_core::EigenToGeometryMsgs(q); if (m.w != q.w() || m.x != q.x() || m.y != q.y() || m.z != q.z()) violate("eigen_to_quaternion", "");
    Qd q2 = msf_core::GeometryMsgsToEigen(m); if (!(q2.coeffs() == q.coeffs())) violate("quaternion_to_eigen", "");
    geometry_msgs::Quaternion m3 = eigen_conversions::QuaternionToMsg(q), m4; eigen_conversions::QuaternionToMsg(q, m4);
    if (m3.w != q.w() || m3.x != q.x() || m3.y != q.y() || m3.z != q.z() || m4.w != q.w() || m4.x != q.x() || m4.y != q.y() || m4.z != q.z()) violate("quaternion_to_msg", "");
    geometry_msgs::Vector3 v; eigen_conversions::Vector3dToPoint(a, v); if (v.x != a.x() || v.y != a.y() || v.z != a.z()) violate("vector_to_point", "");
    Qd qf = q; Eigen::Quaternionf q5 = q.cast<float>(); geometry_msgs::Quaternion m5 = eigen_conversions::QuaternionToMsg(q5); if (std::fabs(m5.x - q.x()) > 1e-6) violate("quaternion_to_msg_float", ""); (void)qf;
    geometry_msgs::PoseWithCovariance pc; for (auto& c : pc.covariance) c = g.n(); auto before = pc.covariance;
    std::vector<int> st{0, 3}; int r = g.pick(st), c = g.pick(st);
    // symmetric message covariance: block(i,j) read as rows i.. columns j..
    Eigen::Matrix<double, 6, 6> C; for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) { C(i, j) = C(j, i) = g.n(); } for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) pc.covariance[i * 6 + j] = C(i, j);
    M3 blk = msf_core::GeometryMsgsCovBlockToEigen(pc.covariance, r, c); if (r == c && !(blk == C.block(r, c, 3, 3))) violate("covariance_block_read", cat("block ", r, ",", c));
    before = pc.covariance;
    M3 nb; for (int i = 0; i < 9; i++) nb(i / 3, i % 3) = g.n(); if (r == c) nb = (nb + nb.transpose()).eval();
    msf_core::EigenCovBlockToGeometryMsgs(pc.covariance, nb, r, c);
    M3 back = msf_core::GeometryMsgsCovBlockToEigen(pc.covariance, r, c); if (!(back == nb)) violate("covariance_block_roundtrip", cat("block ", r, ",", c));
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
      double got = pc.covariance[i * 6 + j], mir = pc.covariance[j * 6 + i]; bool in = (i / 3 == r / 3 && j / 3 == c / 3) || (i / 3 == c / 3 && j / 3 == r / 3);
      if (got != mir) violate("covariance_block_symmetry", cat("block ", r, ",", c, " entry ", i, ",", j));
      if (!in && got != before[i * 6 + j]) violate("covariance_block_neighbour", cat("block ", r, ",", c, " changed entry ", i, ",", j)); }
    count("covariance_blocks"); (void)eq; }
  nontrivial(); sigd(b.x()); sample(cat("vector ", a.transpose(), " "));
}
static Add add("numeric", run);
}
#endif

// ------------------------------------------------------------- distorter (C19)
#ifdef W_distort
#include <ros/ros.h>
#include <msf_core/msf_macros.h>
#include <msf_updates/PoseDistorter.h>
namespace distort {
static Qd smallq(const V3& t) { double n2 = t.squaredNorm() / 4; Qd q = n2 < 1 ? Qd(std::sqrt(1 - n2), t.x() / 2, t.y() / 2, t.z() / 2) : Qd(1, t.x() / 2, t.y() / 2, t.z() / 2); q.normalize(); return q; }
static void drift(Rng& g) {  // no randomness: the whole sequence is determined
  V3 mp = rv(g, g.logu(1e-3, 2)), ma = rv(g, g.logu(1e-3, 2)), z(0, 0, 0); double ms = g.n() * 0.05;
  if (g.p(0.2)) mp.setZero(); if (g.p(0.2)) ma.setZero(); if (g.p(0.2)) ms = 0;
  msf_updates::PoseDistorter d(mp, z, ma, z, ms, 0.0);
  V3 pd(0, 0, 0); Qd ad(1, 0, 0, 0); double sd = 1; int n = g.i(1, 40);
  for (int k = 0; k < n; k++) {
    double dt = g.p(0.1) ? 0 : g.logu(1e-3, 1); V3 p = rv(g, 5), op = p; Qd q = rq(g), oq = q; int form = g.i(0, 2);
    if (form == 0) d.Distort(p, q, dt); else if (form == 1) d.Distort(p, dt); else d.Distort(q, dt);
    if (form != 2) { pd += mp * dt; sd += ms * dt; }
    if (form != 1) { ad = ad * smallq(ma * dt); }
    V3 ep = form == 2 ? op : V3((op + pd) * sd); Qd eq = form == 1 ? oq : oq * ad;
    if (!((p - ep).norm() <= 1e-11 * (1 + ep.norm()))) violate("distort_position", cat("step ", k, " dt ", dt, " got ", p.transpose(), " expected ", ep.transpose()));
    if (!((q.coeffs() - eq.coeffs()).norm() <= 1e-11)) violate("distort_attitude", cat("step ", k, " got ", q.coeffs().transpose(), " expected ", eq.coeffs().transpose()));
    if (!near(q.norm(), 1, 1e-9)) violate("distort_attitude_norm", cat("norm ", q.norm()));
    count("deterministic_steps"); sig(form);
  }
  sigd(mp.x()); nontrivial();
}
// With noise: increments of the accumulated drift have mean m*dt and standard deviation s*dt.
static void noisy(Rng& g) {
  V3 mp = rv(g, 1), sp(g.logu(0.01, 2), g.logu(0.01, 2), g.logu(0.01, 2)), ma = rv(g, 0.05), sa(g.logu(0.001, 0.05), g.logu(0.001, 0.05), g.logu(0.001, 0.05));
  if (g.p(0.2)) sp(g.i(0, 2)) = 1e-9;
  msf_updates::PoseDistorter d(mp, sp, ma, sa, 0, 0);
  const int n = 3000; V3 last(0, 0, 0); Qd lq(1, 0, 0, 0); V3 m1(0, 0, 0), m2(0, 0, 0), a1(0, 0, 0), a2(0, 0, 0); M3 cross = M3::Zero(), acr = M3::Zero(); double dtmax = 0;
  double lag[3] = {0, 0, 0}; V3 pz(0, 0, 0);
  for (int k = 0; k < n; k++) {
    double dt = g.u(0.01, 0.5); dtmax = std::max(dtmax, dt); V3 p = rv(g, 3), o = p; Qd q = rq(g), oq = q; d.Distort(p, q, dt);
    V3 dr = p - o, inc = (dr - last) / dt; last = dr; V3 z = (inc - mp).cwiseQuotient(sp); m1 += z; m2 += z.cwiseProduct(z); cross += z * z.transpose();
    for (int i = 0; i < 3; i++) lag[i] += z(i) * pz(i); pz = z;
    Qd aq = oq.conjugate() * q, di = lq.conjugate() * aq; lq = aq; if (di.w() < 0) di.coeffs() = -di.coeffs();
    V3 ai = 2 * di.vec() / dt, y = (ai - ma).cwiseQuotient(sa); a1 += y; a2 += y.cwiseProduct(y); acr += y * y.transpose();
  }
  // a sum of n standard normals has standard deviation sqrt(n), of squares sqrt(2n), of products sqrt(n); 8 sigma
  double b = 8 * std::sqrt((double)n), b2 = 8 * std::sqrt(2.0 * n) + 30;
  for (int i = 0; i < 3; i++) {
    bool tiny = sp(i) < 1e-8;
    if (tiny) { if (!(std::fabs(last(i)) < 1e9)) violate("distort_nan", ""); continue; }
    if (!(std::fabs(m1(i)) < b)) violate("distort_position_mean", cat("axis ", i, " sum of normalised increments ", m1(i)));
    if (!(std::fabs(m2(i) - n) < b2)) violate("distort_position_stddev", cat("axis ", i, " mean square of normalised increments ", m2(i) / n));
    if (!(std::fabs(lag[i]) < b)) violate("distort_position_white", cat("axis ", i, " lag-1 sum ", lag[i]));
    if (!(std::fabs(a1(i)) < b + 0.02 * n)) violate("distort_attitude_mean", cat("axis ", i, " sum of normalised increments ", a1(i)));
    if (!(std::fabs(a2(i) - n) < b2 + 0.02 * n)) violate("distort_attitude_stddev", cat("axis ", i, " mean square of normalised increments ", a2(i) / n));
    for (int j = 0; j < i; j++) { if (sp(j) > 1e-8 && !(std::fabs(cross(i, j)) < b)) violate("distort_position_axes", cat("axes ", i, " ", j, " correlate: ", cross(i, j) / n)); if (!(std::fabs(acr(i, j)) < b + 0.02 * n)) violate("distort_attitude_axes", cat(acr(i, j) / n)); }
  }
  maxim("mean_dev_sigma", std::max(m1.cwiseAbs().maxCoeff(), a1.cwiseAbs().maxCoeff()) / std::sqrt((double)n)); count("noisy_increments", n); nontrivial(); sigd(mp.x());
  // scale walk
  double mss = g.n() * 0.2, ss = g.logu(0.01, 1); msf_updates::PoseDistorter e(V3(0, 0, 0), V3(0, 0, 0), V3(0, 0, 0), V3(0, 0, 0), mss, ss); double ls = 1, s1 = 0, s2 = 0;
  for (int k = 0; k < n; k++) { double dt = g.u(0.01, 0.5); V3 p(1, 2, -3); e.Distort(p, dt); if (!near(p.y(), 2 * p.x(), 1e-9 * (1 + std::fabs(p.x()))) || !near(p.z(), -3 * p.x(), 1e-9 * (1 + std::fabs(p.x())))) violate("distort_scale_shape", cat(p.transpose())); double z = ((p.x() - ls) / dt - mss) / ss; ls = p.x(); s1 += z; s2 += z * z; }
  if (!(std::fabs(s1) < b)) violate("distort_scale_mean", cat("sum ", s1)); if (!(std::fabs(s2 - n) < b2)) violate("distort_scale_stddev", cat("mean square ", s2 / n));
  // two distorters are independent of each other
  msf_updates::PoseDistorter f(mp, sp, ma, sa, 0, 0), h(mp, sp, ma, sa, 0, 0); int same = 0; for (int k = 0; k < 5; k++) { V3 x(0, 0, 0), y(0, 0, 0); f.Distort(x, 1); h.Distort(y, 1); same += x == y; } if (same == 5) violate("distort_same_stream", "two distorters produce the same random drift");
}
static void run(Rng& g, uint64_t idx) { if (idx % 8 == 0) noisy(g); else drift(g); }
static Add add("distort", run);
}
#endif

// -------------------------------------------------------------- timing (C20)
#if defined(W_timer)
// Fake clock: all clocks of this process advance only when the script says so.
static bool fake_clock = false; static int64_t fake_ns = 1700000000000000000ll;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (fake_clock) { t->tv_sec = fake_ns / 1000000000ll; t->tv_nsec = fake_ns % 1000000000ll; return 0; }
  return (int)syscall(SYS_clock_gettime, id, t);
}
#endif
#if defined(W_timer) || defined(W_accum)
#include <msf_timing/Timer.h>
#endif
#ifdef W_accum
namespace accum {
template<class T, int N> static void one(Rng& g, const char* what) {
  msf_timing::Accumulator<T, double, N> a; std::vector<double> all; int n = g.i(0, 4 * N + 3); double sc = g.logu(1e-3, 100); int shape = g.i(0, 3);
  double off = shape == 1 ? -1 : shape == 2 ? 1 : 0, big = 0;
  if (!(a.TotalSamples() == 0 && a.Sum() == 0 && a.LazyVariance() == 0)) violate("accumulator_empty", what);
  for (int i = 0; i < n; i++) {
    T v = (T)((std::fabs(g.n()) * (off == 0 ? (g.p(0.5) ? 1 : -1) : off)) * (std::is_integral<T>::value ? 1000 : sc)); a.Add(v); all.push_back(v); big = std::max(big, (double)std::fabs((double)v));
    if (!g.p(0.3) && i + 1 != n) continue;
    int m = all.size(), w = std::min(m, N); long double s = 0, ws = 0, mn = all[0], mx = all[0];
    for (double x : all) { s += x; mn = std::min<long double>(mn, x); mx = std::max<long double>(mx, x); } for (int k = m - w; k < m; k++) ws += all[k];
    long double mean = ws / w, var = 0; for (int k = m - w; k < m; k++) var += (all[k] - mean) * (all[k] - mean); var /= w;
    double tol = 1e-12 * big * m * (sizeof(T) == 4 && !std::is_integral<T>::value ? 2e5 : 1) + 1e-300;
    auto bad = [&](const char* k, double got, double want, double t) { if (!near(got, want, t)) violate(cat("accumulator_", k), cat(what, " window ", N, " after ", m, " samples: ", got, " expected ", want)); };
    if (a.TotalSamples() != m) violate("accumulator_count", cat(what, " ", a.TotalSamples(), " expected ", m));
    bad("sum", a.Sum(), s, tol); bad("mean", a.Mean(), s / m, tol); bad("rolling_mean", a.RollingMean(), mean, tol); bad("min", a.Min(), mn, 0); bad("max", a.Max(), mx, 0);
    bad("variance", a.LazyVariance(), var, tol * big * 4 + 1e-300); if (!(a.LazyVariance() >= 0)) violate("accumulator_variance_negative", what);
    count("accumulator_queries"); if (m > N) count("window_full"); if (mx < 0) count("all_negative");
  }
  sig(n); sigd(sc);
}
static void run(Rng& g, uint64_t) { one<double, 50>(g, "double"); one<double, 1>(g, "double"); one<double, 3>(g, "double"); one<float, 7>(g, "float"); one<int, 10>(g, "int"); one<long, 4>(g, "long"); nontrivial(); }
static Add add("accum", run);
}
#endif
#ifdef W_timer
namespace timer {
using msf_timing::Timing; using msf_timing::Timer;
struct Tag { size_t handle; std::vector<double> d; };
static void run(Rng& g, uint64_t) {
  fake_clock = true;
  std::map<std::string, Tag> tags; std::map<size_t, std::vector<double> > byh; std::map<size_t, std::string> names;
  struct Live { Timer* t; size_t h; bool on; int64_t at; }; std::vector<Live> live;
  auto adv = [&]() { fake_ns += g.p(0.05) ? 0 : (int64_t)g.logu(1, g.p(0.1) ? 4e10 : 5e8); };
  auto name = [&]() { return g.p(0.05) ? std::string() : cat("tag", g.p(0.2) ? "_with_a_long_name_" : "", g.i(0, 6)); };
  auto handle = [&](const std::string& n) {
    size_t h = Timing::GetHandle(n); auto it = tags.find(n);
    if (it == tags.end()) { if (byh.count(h)) violate("timer_handle_reused", cat("new tag ", n, " got the handle of ", names[h])); tags[n] = Tag{h, {}}; byh[h]; names[h] = n; count("tags"); }
    else if (it->second.handle != h) violate("timer_handle_changed", n);
    return h; };
  auto query = [&](const std::string& n) {
    size_t h = handle(n); auto& d = byh[h]; long double s = 0; for (double x : d) s += x; int m = d.size(); bool bytag = g.p(0.5);
    size_t k = bytag ? Timing::GetNumSamples(n) : Timing::GetNumSamples(h); if (k != (size_t)m) { violate("timer_count", cat(n, " ", k, " expected ", m)); return; }
    if (Timing::GetTag(h) != n) violate("timer_tag", cat("handle ", h, " of ", n, " names ", Timing::GetTag(h)));
    double tot = bytag ? Timing::GetTotalSeconds(n) : Timing::GetTotalSeconds(h); if (!near(tot, s, 1e-9 * s + 1e-12)) violate("timer_total", cat(n, " ", tot, " expected ", (double)s));
    if (!m) return;
    double mn = *std::min_element(d.begin(), d.end()), mx = *std::max_element(d.begin(), d.end()); int w = std::min(m, 50); long double ws = 0, var = 0; for (int i = m - w; i < m; i++) ws += d[i]; ws /= w; for (int i = m - w; i < m; i++) var += (d[i] - ws) * (d[i] - ws); var /= w;
    auto bad = [&](const char* q, double got, double want, double t) { if (!near(got, want, t)) violate(cat("timer_", q), cat(n, " ", got, " expected ", want, " after ", m, " samples")); };
    bad("mean", bytag ? Timing::GetMeanSeconds(n) : Timing::GetMeanSeconds(h), s / m, 1e-9 * s + 1e-12); bad("min", bytag ? Timing::GetMinSeconds(n) : Timing::GetMinSeconds(h), mn, 1e-12 + 1e-15 * mn); bad("max", bytag ? Timing::GetMaxSeconds(n) : Timing::GetMaxSeconds(h), mx, 1e-12 + 1e-15 * mx);
    bad("variance", bytag ? Timing::GetVarianceSeconds(n) : Timing::GetVarianceSeconds(h), var, 1e-11 * mx * mx * m + 1e-12); if (ws > 1e-6) bad("hz", bytag ? Timing::GetHz(n) : Timing::GetHz(h), 1 / ws, (1e-7 + 1e-12 * mx * m / ws) / ws); count("timer_queries"); };
  int n = g.i(10, 160);
  for (int k = 0; k < n; k++) {
    adv(); int op = g.i(0, 11); sig(op);
    if (op <= 2) { std::string nm = name(); bool st = g.p(0.3); Live l; l.on = !st; l.at = fake_ns; if (g.p(0.5)) { l.h = handle(nm); l.t = new Timer(l.h, st); } else { l.t = g.p(0.5) && !st ? new Timer(nm) : new Timer(nm, st); l.h = handle(nm); } live.push_back(l); if (l.t->IsTiming() != l.on) violate("timer_started", cat(nm, " constructed ", st ? "stopped" : "running")); }
    else if (op <= 5 && !live.empty()) { Live& l = live[g.i(0, live.size() - 1)]; if (l.on) { l.t->Stop(); byh[l.h].push_back((fake_ns - l.at) * 1e-9); l.on = false; count("intervals"); if (l.t->IsTiming()) violate("timer_stop", ""); } else { l.t->Start(); l.on = true; l.at = fake_ns; if (!l.t->IsTiming()) violate("timer_start", ""); } }
    else if (op == 6 && !live.empty()) { Live& l = live[g.i(0, live.size() - 1)]; l.t->Start(); l.on = true; l.at = fake_ns; count("restarts"); }
    else if (op == 7 && !live.empty()) { int i = g.i(0, live.size() - 1); Live l = live[i]; delete l.t; if (l.on) { byh[l.h].push_back((fake_ns - l.at) * 1e-9); count("intervals_by_scope"); } live.erase(live.begin() + i); }
    else if (op <= 9 && !tags.empty()) { auto it = tags.begin(); std::advance(it, g.i(0, tags.size() - 1)); query(it->first); }
    else if (op == 10) {
      if (g.p(0.2)) { Timing::Reset(); tags.clear(); count("resets"); if (!Timing::GetTimers().empty()) violate("timer_reset", "tags remain"); if (!Timing::Print().empty()) violate("timer_print_empty", Timing::Print()); }
      else if (Timing::GetTag(99999) != "") violate("timer_unknown_handle", ""); }
    else if (op == 11) {  // the printed table
      std::string out = Timing::Print(); std::stringstream s2; Timing::Print(s2); if (s2.str() != out) violate("timer_print_stream", "");
      std::vector<std::string> rows; std::stringstream ss(out); std::string line; while (std::getline(ss, line)) rows.push_back(line);
      if (tags.empty() ? !rows.empty() : rows.size() < tags.size()) { violate("timer_print_rows", cat(rows.size(), " rows for ", tags.size(), " tags")); continue; }
      size_t r = rows.size() - tags.size();
      for (auto& t : tags) {
        std::string row = rows[r++]; auto& d = byh[t.second.handle]; size_t tab = row.find('\t'); std::string nm = row.substr(0, tab); while (!nm.empty() && nm.back() == ' ') nm.pop_back();
        if (nm != t.first) { violate("timer_print_tag", cat("row '", row, "' for ", t.first)); continue; }
        std::vector<double> nums; std::string rest = row.substr(tab == std::string::npos ? row.size() : tab); for (char& c : rest) if (!strchr("0123456789.e", c)) c = ' '; std::stringstream rs(rest); double x; while (rs >> x) nums.push_back(x);
        long double s = 0; for (double v : d) s += v; double mx = d.empty() ? 0 : *std::max_element(d.begin(), d.end()), mn = d.empty() ? 0 : *std::min_element(d.begin(), d.end());
        if (nums.empty() || nums[0] != d.size()) { violate("timer_print_count", row); continue; }
        if (d.empty() || s > 59) { if (d.empty() && nums.size() != 1) violate("timer_print_empty_tag", row); continue; }
        int w = std::min<int>(d.size(), 50); long double ws = 0, var = 0; for (size_t i = d.size() - w; i < d.size(); i++) ws += d[i]; ws /= w; for (size_t i = d.size() - w; i < d.size(); i++) var += (d[i] - ws) * (d[i] - ws); var /= w;
        double want[5] = {(double)s, (double)(s / d.size()), (double)sqrtl(var), mn, mx};
        if (nums.size() != 6) { violate("timer_print_columns", row); continue; }
        for (int i = 0; i < 5; i++) if (!near(nums[i + 1], want[i], 1.1e-6)) violate("timer_print_value", cat("column ", i, " of '", row, "' expected ", want[i]));
        count("printed_rows");
      }
    }
  }
  for (auto& l : live) { adv(); delete l.t; if (l.on) byh[l.h].push_back((fake_ns - l.at) * 1e-9); }
  std::vector<std::string> ns; for (auto& t : tags) ns.push_back(t.first); for (auto& x : ns) query(x);
  double t0 = g.u(0, 59.9); if (std::fabs(atof(Timing::SecondsToTimeString(t0).c_str()) - t0) > 1.1e-6) violate("timer_time_string", cat(t0, " -> ", Timing::SecondsToTimeString(t0)));
  nontrivial(); fake_clock = false;
}
static Add add("timer", run);
}
#endif
#ifdef W_palette
#include <msf_core/falsecolor.h>
// Each palette against the colour map it is named after (one grey level of rounding allowed, for jet one of its 64 steps).
namespace colours {
static void run(Rng& g, uint64_t idx) {
  int k = idx % 10; palette p = GetPalette((palette::palettetypes)k);
  auto wave = [](double deg) { return (std::sin(deg * M_PI / 180) * 0.5 + 0.5) * 255; };
  auto jet = [](double j) { return 255 * std::max(0.0, std::min(1.0, std::min(j, 191 - j) / 64)); };
  for (int i = 0; i < 256; i++) {
    double d = i / 255.0 * 360, gl = std::log10(i / 255.0 * 9 + 1) * 255, w[3];
    double one = k % 3 == 0 ? i : k % 3 == 1 ? gl : 255 - i;
    if (k < 3) { w[0] = one; w[1] = w[2] = 0; }
    else if (k < 6) w[0] = w[1] = w[2] = one;
    else if (k == 6) { w[0] = wave(std::max(0.0, d - 120)); w[1] = wave(d + 60); w[2] = wave(d + 140); }
    else if (k == 7) { w[0] = wave(d + 120); w[1] = wave(d + 240); w[2] = wave(d); }
    else if (k == 8) { w[0] = wave(d + 240); w[1] = wave(d); w[2] = wave(d + 120); }
    else { w[0] = jet(i - 95); w[1] = jet(i - 31); w[2] = jet(i + 33); }
    double h[3] = {(double)p.colors[i].rgbRed, (double)p.colors[i].rgbGreen, (double)p.colors[i].rgbBlue};
    for (int c = 0; c < 3; c++) if (std::fabs(h[c] - w[c]) > (k == 9 ? 5 : 1.001)) violate("palette", cat("palette ", k, " entry ", i, " channel ", c, " is ", h[c], " expected ", w[c]));
  }
  count("palettes"); nontrivial(); vf::sig(k);
}
static Add add("palette", run);
}
#endif

int main(int argc, char** argv) { return run(argc, argv, suites); }
