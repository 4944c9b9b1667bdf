// EKF-core monitors: propagation, covariance, updates, measurement scheduling.
#include "common.h"
#include <set>
#include <ros/ros.h>
#include <msf_core/msf_core.h>
#include <msf_core/msf_sensormanager.h>
#ifdef STATE_POSITION
#include "position_msf/msf_statedef.hpp"
#else
#include "pose_msf/msf_statedef.hpp"
#endif
#include "core_util.h"
#include <boost/weak_ptr.hpp>
#include "known_q.h"
using namespace vf;
typedef msf_updates::EKFState S;
typedef boost::shared_ptr<S> SP;
enum { N = S::nErrorStatesAtCompileTime };
#ifdef STATE_POSITION
static const int kDriftFree = -1;
#else
static const int kDriftFree = msf_updates::q_wv;  // the variable the fuzzy-tracking safeguard watches
#endif

// ---------------------------------------------------------------- C05 ----------
// State propagation against a finely sub-stepped strapdown integration of the
// linearly interpolated, bias-corrected IMU signal.
#if !defined(SELECT) || defined(W_prop_mean)
static void prop_mean(Rng& g, uint64_t idx) {
  Rig<S> rig;
  for (int k = 0; k < 12; k++) {
    boost::shared_ptr<S> o(new S), n(new S);
    double dt = g.logu(5e-4, 0.05); if (k == 11) dt = g.u(0.05, 0.1);
    double wmag = g.logu(1e-3, 4.0), amag = g.logu(0.1, 30), dw = g.p(0.3) ? 0 : g.logu(1e-3, 2.0), da = g.p(0.3) ? 0 : g.logu(1e-3, 10.0);
    double t0 = g.p(0.5) ? g.u(1, 100) : 1.6e9 + g.u(0, 10);
    RefState ro; ro.t = t0; ro.x = rig.randvars(g, 0.3); if (g.p(0.2)) ro.x[3].setZero();
    ro.w = randv(g, wmag); ro.a = randv(g, amag) + V3(0, 0, 9.8);
    RefState rn; rn.t = t0 + dt; rn.w = ro.w + randv(g, dw); rn.a = ro.a + randv(g, da);
    // exactly vanishing rates, accelerations, velocities and attitudes occur: at rest, in free fall, after initialisation
    if (g.p(0.3)) { auto zap = [&](V3& v) { if (g.p(0.3)) v.setZero(); else if (g.p(0.4)) v(g.i(0, 2)) = 0; }; zap(ro.w); zap(rn.w); zap(ro.a); zap(rn.a); if (g.p(0.7)) { ro.x[3].setZero(); ro.x[4].setZero(); } if (g.p(0.3)) ro.x[1].setZero(); if (g.p(0.3)) ro.x[2] = fromq(Qd(1, 0, 0, 0)); count("special_inputs"); }
    setvars(*o, ro.x); o->time = ro.t; o->a_m = ro.a; o->w_m = ro.w;
    n->time = rn.t; n->a_m = rn.a; n->w_m = rn.w; dt = n->time - o->time;
    setvars(*n, rig.randvars(g));  // stale content must not leak into the result
    std::vector<VX> ob = getvars(*o);
    rig.core.PropagateState(o, n);
    V3 p, v; Qd q; fine(ro, rn, p, v, q);
    std::vector<VX> x = getvars(*n);
    V3 we = 0.5 * (ro.w + rn.w) - V3(ro.x[3]); double w = std::max((ro.w - V3(ro.x[3])).norm(), (rn.w - V3(ro.x[3])).norm()), dW = (rn.w - ro.w).norm();
    double a = std::max((ro.a - V3(ro.x[4])).norm(), (rn.a - V3(ro.x[4])).norm()), dA = (rn.a - ro.a).norm(), e = w * dt;
    // Error budgets of a scheme that is second-order in attitude rate variation and trapezoidal in v.
    // Leading neglected Magnus / exponential terms.
    double tq = 1e-9 + 0.02 * std::pow(e, 5) + 0.05 * e * e * dW * dt;
    double tv = 1e-9 * (1 + a) + dt * ((w * w + dW / dt) * dt * dt * a + 2 * w * dt * dA) / 6 + a * dt * tq;
    double tp = 1e-9 * (1 + a * dt) + dt * tv + dt * dt * (w * a * dt + dA) / 5;
    double eps_t = 1e-9 * (V3(ro.x[1]).norm() + a);
    double eq = qlog((q.conjugate() * toq(x[2]).normalized())).norm(), ev = (V3(x[1]) - v).norm(), ep = (V3(x[0]) - p).norm();
    if (!(eq <= tq)) violate("attitude", cat("dt=", dt, " |w|=", w, " |dw|=", dW, " attitude error ", eq, " rad, budget ", tq));
    if (!(ev <= tv + eps_t)) violate("velocity", cat("dt=", dt, " |w|=", w, " |a|=", a, " velocity error ", ev, " budget ", tv));
    if (!(ep <= tp + eps_t)) violate("position", cat("dt=", dt, " |w|=", w, " |a|=", a, " position error ", ep, " budget ", tp));
    if (!near(x[2].norm(), 1, 1e-12)) violate("unit_quaternion", cat("|q|=", x[2].norm(), " dt=", dt));
    for (size_t i = 3; i < x.size(); i++) if (x[i] != ro.x[i]) violate("nonpropagated_changed", cat("variable ", i, " changed during propagation"));
    std::vector<VX> oa = getvars(*o);
    for (size_t i = 0; i < oa.size(); i++) if (oa[i] != ob[i]) violate("source_changed", cat("propagation altered variable ", i, " of the source state"));
    maxim("attitude_err_over_budget", eq / tq); maxim("velocity_err_over_budget", ev / (tv + eps_t)); maxim("position_err_over_budget", ep / (tp + eps_t));
    count("propagations"); sigd(dt); nontrivial();
    if (k == 0) sample(cat("dt=", dt, " |w|=", w, " |a|=", a, " errors q ", eq, " v ", ev, " p ", ep));
  }
}
#endif

// ---------------------------------------------------------------- C06 ----------
#if !defined(SELECT) || defined(W_prop_cov)
static void prop_cov(Rng& g, uint64_t idx) {
  Rig<S> rig;
  for (int k = 0; k < 6; k++) {
    SP o(new S), n(new S), z(new S), n2(new S);
    double dt = g.logu(1e-3, 0.02), w = g.logu(0.01, 2.0), t0 = g.u(1, 50);
    rig.mgr.nz.acc = g.logu(1e-4, 0.5); rig.mgr.nz.accb = g.logu(1e-8, 0.1); rig.mgr.nz.gyr = g.logu(1e-4, 0.5); rig.mgr.nz.gyrb = g.logu(1e-7, 0.1);
    if (k % 3 == 0) { rig.mgr.nz = Noise(); }
    rig.mgr.aux_q = g.p(0.3) ? 0 : g.logu(1e-3, 1);
    setvars(*o, rig.randvars(g)); o->time = t0; o->a_m = randv(g, 5); o->w_m = randv(g, w);
    bool sp = g.p(0.2); 
    std::vector<VX> xn = rig.randvars(g, 0.1); setvars(*n, xn); n->time = t0 + dt; n->a_m = randv(g, 5); n->w_m = randv(g, w); dt = n->time - o->time;
    if (sp) { if (g.p(0.6)) { xn[3].setZero(); xn[4].setZero(); setvars(*n, xn); } if (g.p(0.5)) n->a_m.setZero(); else if (g.p(0.5)) n->a_m = V3(0, 0, 9.80834); if (g.p(0.5)) n->w_m.setZero(); if (g.p(0.5)) { xn[2] = fromq(Qd(1, 0, 0, 0)); setvars(*n, xn); } count("special_inputs"); }
    *z = *o; *n2 = *n;
    MX P0 = randspd(g, N, g.logu(1e-4, 1));
    // a second run from a zero covariance isolates the process noise: the step is linear in P
    o->P = P0; z->P.setZero(); n->P.setRandom(); n2->P.setRandom();
    rig.core.PredictProcessCovariance(o, n);
    rig.core.PredictProcessCovariance(z, n2);
    const Noise& q = rig.mgr.nz;
    V3 ew = n->w_m - V3(xn[3]), ea = n->a_m - V3(xn[4]); Qd qn = toq(xn[2]); M3 C = qn.toRotationMatrix();
    MX Fc = ref_Fc(C, ea, ew), F = MX::Identity(N, N), Q = MX::Zero(N, N);
    F.topLeftCorner(15, 15) = expm(Fc * dt);
    MX Qe = ref_Qd(Fc, C, dt, q), Qk = known_Q(dt, qn, ew, ea, q.acc, q.accb, q.gyr, q.gyrb);
    MX got = n->P, Qg = n2->P, want = F * P0 * F.transpose();
    double e = ew.norm() * dt, rel = 1e-9 + 3 * e * e * e + 0.2 * e * e;
    for (size_t i = 0; i < rig.L.size(); i++) for (size_t j = 0; j < rig.L.size(); j++) {
      auto bi = rig.L[i], bj = rig.L[j];
      MX a = (got - Qg).block(bi.at_err, bj.at_err, bi.err, bj.err), b = want.block(bi.at_err, bj.at_err, bi.err, bj.err);
      double sc = std::sqrt(want.block(bi.at_err, bi.at_err, bi.err, bi.err).diagonal().maxCoeff() * want.block(bj.at_err, bj.at_err, bj.err, bj.err).diagonal().maxCoeff());
      double er = (a - b).cwiseAbs().maxCoeff(), tol = rel * sc + 1e-15 * (Qg.diagonal().maxCoeff() + got.diagonal().maxCoeff());
      maxim("transition_err_over_tol", er / tol);
      if (!(er <= tol)) violate(cat("transition_block_", i, "_", j), cat("transported covariance block (", i, ",", j, ") off by ", er, " (scale ", sc, ", tol ", tol, ") dt=", dt, " |w|=", ew.norm()));
    }
    // the transition itself, entry by entry, from unit covariances without noise; tolerance: twice the first neglected terms
    if (k < 2) {
      Noise keep = rig.mgr.nz; double kq = rig.mgr.aux_q; rig.mgr.nz.acc = rig.mgr.nz.accb = rig.mgr.nz.gyr = rig.mgr.nz.gyrb = 0; rig.mgr.aux_q = 0;
      double W = ew.norm(), A = ea.norm(), w3 = W * W * W; auto bl = [](int i) { return i / 3; };
      auto negl = [&](int i, int j) { int a = bl(i), b = bl(j); double d3 = dt * dt * dt; if (a == 0 && b == 2) return A * w3 * d3 * dt * dt / 120; if (a == 1 && b == 2) return A * w3 * d3 * dt / 24; if (a == 0 && b == 3) return A * w3 * d3 * d3 / 720; if (a == 1 && b == 3) return A * w3 * d3 * dt * dt / 120; if (a == 2 && b == 2) return w3 * d3 / 6; if (a == 2 && b == 3) return w3 * d3 * dt / 24; return 0.0; };
      auto lead = [&](int i, int j) { int a = bl(i), b = bl(j); if (a == 0 && b == 2) return A * dt * dt; if (a == 1 && b == 2) return A * dt; if (a == 0 && b == 3) return A * dt * dt * dt; if (a == 1 && b == 3) return A * dt * dt; return 1.0; };
      for (int j = 0; j < N; j++) {
        SP u(new S(*z)), r(new S(*n)); u->P.setZero(); u->P(j, j) = 1; rig.core.PredictProcessCovariance(u, r); VX f = VX(r->P.col(j)) / std::sqrt(r->P(j, j));
        for (int i = 0; i < N; i++) { double tol = (i < 15 && j < 15) ? 2 * negl(i, j) + 1e-12 * lead(i, j) : 1e-15, er = std::fabs(f(i) - F(i, j)); maxim("transition_entry_err_over_tol", er / tol);
          if (!(er <= tol)) violate(cat("transition_entry_", i, "_", j), cat("transition entry (", i, ",", j, ") is ", f(i), " instead of ", F(i, j), " (tolerance ", tol, "); dt=", dt, " |w|=", W, " |a|=", A)); }
      }
      count("transition_entries", N * N); rig.mgr.nz = keep; rig.mgr.aux_q = kq;
    }
    // process noise: exact integral, or the one known deviation (core block only)
    long nk = 0, ne = 0;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
      if (i < 15 && j < 15) {
        double sc = std::sqrt(Qe(i, i) * Qe(j, j)), sk = std::sqrt(std::fabs(Qk(i, i) * Qk(j, j)));
        if (std::fabs(Qg(i, j) - Qe(i, j)) <= 2e-3 * sc) { ne++; continue; }
        if (std::fabs(Qg(i, j) - Qk(i, j)) <= 1e-9 * sk + 1e-9 * std::fabs(Qk(i, j))) { nk++; continue; }
        violate(cat("process_noise_", i, "_", j), cat("process noise (", i, ",", j, ") is ", Qg(i, j), ", exact ", Qe(i, j), ", known deviation ", Qk(i, j), "; dt=", dt, " |w|=", ew.norm(), " |a|=", ea.norm()));
      } else {
        double wantq = 0;
        if (i == j) for (size_t v = 5; v < rig.L.size(); v++) if (i >= rig.L[v].at_err && i < rig.L[v].at_err + rig.L[v].err) { double sd = rig.mgr.aux_q * (int(v) - 4); wantq = dt * sd * sd; }
        if (!near(Qg(i, j), wantq, 1e-12 * wantq)) violate("aux_process_noise", cat("auxiliary process noise (", i, ",", j, ") is ", Qg(i, j), " instead of ", wantq));
      }
    }
    count("process_noise_entries_exact", ne); count("process_noise_entries_known_deviation", nk);
    if (nk) violate("known_process_noise_deviation", cat(nk, " core process-noise entries carry the known deviation of the generated formula, e.g. velocity-x variance ", Qg(3, 3), " instead of ", Qe(3, 3), " at dt=", dt));
    double as = asym(got) / (got.diagonal().maxCoeff() + 1e-300), asq = asym(Qg) / (Qg.diagonal().maxCoeff() + 1e-300);
    if (!(as < 1e-9) || !(asq < 1e-9)) violate("asymmetric", cat("P asymmetric after propagation: ", as, ", process noise alone ", asq));
    std::vector<VX> xa = getvars(*n); for (size_t i = 0; i < xa.size(); i++) if (xa[i] != xn[i]) violate("state_changed", "covariance propagation altered the state estimate");
    maxim("most_negative_scaled_eigenvalue_of_process_noise", -mineig_scaled(Qg.topLeftCorner(15, 15)));
    count("cov_propagations"); sigd(dt); nontrivial();
    if (k == 0) sample(cat("dt=", dt, " |w|=", ew.norm(), " noise acc ", q.acc, " trace(P) ", got.trace(), " entries exact ", ne, " known-deviation ", nk));
  }
}
#endif

// --------------------------------------------- shared: full-pipeline histories ----
typedef ProbeMeas<S, 3> M3m;
struct Hist {
  double t0, dt; std::vector<RefState> imu; std::vector<double> mt; std::vector<int> var; std::vector<V3> z; std::vector<double> sd; double mah = 0; std::string kind;
};
// measurement of a vector-valued variable (p or b_w..): linear, so the reference is exact
static boost::shared_ptr<M3m> mkmeas(const Hist& h, int i, std::function<void(M3m&, S&, bool)> hook) {
  boost::shared_ptr<M3m> m(new M3m(i, h.mt[i], h.mah > 0, h.mah));
  auto L = layout<S>(); int var = h.var[i]; V3 z = h.z[i];
  m->H.block<3, 3>(0, L[var].at_err).setIdentity();
  m->R() = Eigen::Matrix3d::Identity() * h.sd[i] * h.sd[i];
  m->residual = [var, z](const S& s) -> V3 { return z - V3(getvars(s)[var]); };
  m->hook = hook;
  return m;
}
static RefMeas refmeas(const Hist& h, int i, int n) {
  auto L = layout<S>(); int var = h.var[i]; V3 z = h.z[i]; RefMeas r; r.t = h.mt[i]; r.id = i; r.mah = h.mah;
  MX H = MX::Zero(3, n); H.block(0, L[var].at_err, 3, 3).setIdentity();
  r.H = [H](const RefState&) { return H; }; r.R = M3::Identity() * h.sd[i] * h.sd[i];
  r.residual = [var, z](const RefState& s) -> VX { return VX(z - V3(s.x[var])); };
  return r;
}
// kind "spread": stamps anywhere (>= 2.2 ms apart); "cluster": several stamps within 1 ms of one IMU sample,
// some of them identical (there the order of application is defined by stamp, then arrival).
static Hist mkhist(Rng& g, const std::vector<VX>& x0, double t0, int nimu, int nmeas, bool cluster, double outliers) {
  Hist h; h.t0 = t0; h.dt = g.pick(std::vector<double>{0.002, 0.005, 0.01, 0.02});
  if (cluster && h.dt < 0.005) h.dt = 0.005;
  ImuGen sig(g, g.logu(0.1, 4), g.logu(0.05, 1.5)); double jit = g.p(0.5) ? 0.3 : 0;
  double t = t0, mind = 0.0022; h.kind = cluster ? "cluster" : "spread";
  for (int k = 0; k < nimu; k++) {
    t += h.dt * (1 + jit * g.u(-1, 1)); RefState s; s.t = t; s.a = sig.a(t - t0); s.w = sig.w(t - t0); h.imu.push_back(s);
  }
  double lo = t0 + 0.0011, hi = h.imu.back().t;
  for (int tries = 0; tries < nmeas * 40 && (int)h.mt.size() < nmeas; tries++) {
    double m = g.u(lo, hi);
    int mode = cluster ? 4 : g.i(0, 3);
    if (mode == 0) { m = h.imu[g.i(0, nimu - 1)].t; }                       // exactly on an IMU sample
    if (mode == 1) { m = h.imu[g.i(0, nimu - 1)].t + g.u(-0.0009, 0.0009); } // snaps to it
    if (mode == 4) {
      if (!h.mt.empty() && g.p(0.6)) { double o = g.pick(h.mt), c = o; for (auto& s : h.imu) if (std::fabs(s.t - o) < 0.001) c = s.t; m = g.p(0.4) ? o : c + g.u(-0.00095, 0.00095); }
      else m = h.imu[g.i(1, nimu - 1)].t + (g.p(0.3) ? 0 : g.u(-0.00095, 0.00095));
    }
    if (m < lo || m > hi) continue;
    bool ok = true; if (!cluster) for (double o : h.mt) if (std::fabs(o - m) < mind) ok = false;
    // equal stamps, or clearly different ones: a duplicate is kept up to a few representable numbers later
    for (double o : h.mt) if (o != m && std::fabs(o - m) < 1e-5) ok = false;
    // avoid the exact snapping boundary, where rounding decides
    for (auto& s : h.imu) if (std::fabs(std::fabs(s.t - m) - 0.001) < 2e-6) ok = false;
    if (!ok) continue;
    h.mt.push_back(m);
  }
  std::sort(h.mt.begin(), h.mt.end());
  if (outliers > 0) h.mah = 8;
  for (size_t i = 0; i < h.mt.size(); i++) {
    int v = g.p(0.7) ? 0 : g.p(0.5) ? 1 : 4; h.var.push_back(v); h.sd.push_back(g.logu(0.02, 1));
    V3 z = (v == 0 ? V3(x0[0]) : v == 1 ? V3(x0[1]) : V3(x0[4])) + randv(g, v == 4 ? 0.05 : 0.5);
    if (g.p(outliers)) z += randv(g, 1).normalized() * 300;
    h.z.push_back(z);
  }
  return h;
}
static double cmpstates(const RefState& a, const RefState& b, const std::vector<VarInfo>& L, std::string& what) {
  double worst = 0; what = "";
  VX d = ref_minus(a.x, b.x, L);
  for (int i = 0; i < d.size(); i++) {
    double sc = std::sqrt(std::max(b.P(i, i), 0.0));   // in standard deviations
    double e = std::fabs(d(i)) / (sc + 1e-6);
    if (!(e <= worst)) { worst = e; what = cat("error-state ", i, " differs by ", d(i), " (", e, " sigma)"); }
  }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
    double sc = std::sqrt(std::max(b.P(i, i), 0.0) * std::max(b.P(j, j), 0.0)) + 1e-14;
    double e = std::fabs(a.P(i, j) - b.P(i, j)) / sc;
    if (!(e <= worst)) { worst = e; what = cat("P(", i, ",", j, ") ", a.P(i, j), " vs ", b.P(i, j)); }
  }
  return worst;
}

// ----------------------------------------------------------- C02 + C03 ----------
// The same measurements delivered with arbitrary delays; ends in the batch estimate.
struct Deliver { double arrive; int id; };
#if !defined(SELECT) || defined(W_history)
static void history(Rng& g, uint64_t idx) {
  Rig<S> rig; rig.mgr.aux_q = g.p(0.5) ? 0 : 0.01; rig.mgr.nz.acc = g.logu(0.002, 0.2); rig.mgr.nz.gyr = g.logu(0.0004, 0.05);
  double t0 = g.p(0.5) ? g.u(5, 50) : 1.5e9 + g.u(0, 5);
  std::vector<VX> x0 = rig.randvars(g, 0.02);
  // Keep the drift-free frame rotation fixed: the fuzzy-tracking safeguard (C14) would
  // otherwise restore states depending on how often measurements were re-applied.
  if (kDriftFree >= 0) { int at = rig.L[kDriftFree].at_err; rig.mgr.augment = [at](Mgr<S>::Err& e) { e.segment<3>(at).setZero(); }; }
  int nimu = g.i(20, 90);
  bool cluster = (idx / 4) % 3 == 1; double outl = (idx / 12) % 2 ? 0.3 : 0;
  Hist h = mkhist(g, x0, t0, nimu, g.i(2, 14), cluster, outl);
  int nm = h.mt.size();
  MX P0; bool userP = g.p(0.7); if (userP) P0 = randspd(g, N, g.logu(0.001, 0.3));
  V3 a0 = h.imu[0].a, w0 = h.imu[0].w;
  rig.init(t0, x0, a0, w0, userP ? &P0 : nullptr);
  RefState r0 = rig.mgr.last_init;
  if (userP) r0.P = P0;
  // Arrival times: mode 0 in order right after; 1 random delay; 2 early (before the IMU reaches it); 3 burst at the end, shuffled
  int mode = idx % 4; std::vector<Deliver> q;
  for (int i = 0; i < nm; i++) {
    double a = h.mt[i];
    int m = mode == 3 ? (int)g.i(1, 3) : mode;
    if (m == 0) a += h.dt * 1.5; else if (m == 1) a += g.u(0, nimu * h.dt); else if (m == 2) a -= g.u(0, nimu * h.dt * 0.3); else a += 1e3 + g.u();
    // nothing is accepted before the filter has made its first predictions
    a = std::max(a, h.imu[3].t + 1e-9);
    q.push_back({a, i});
  }
  std::sort(q.begin(), q.end(), [](const Deliver& a, const Deliver& b) { return a.arrive < b.arrive; });
  // trace of Apply calls
  struct Ev { int id; double st; }; std::vector<Ev> tr; 
  auto hook = [&](M3m& m, S& s, bool after) { if (!after) tr.push_back({m.id, s.time}); };
  std::vector<char> accepted(nm, 0); std::vector<int> pend; double tnow = t0; struct Dn { double t; int seq, id; }; std::vector<Dn> done; std::vector<int> order;
  size_t at = 0; long upd = 0, expect_upd = 0;
  auto expectApply = [&](size_t from, int id, const char* when) {
    // applying measurement id must (re)apply exactly the known measurements from its own stamp on, in time
    // order; measurements sharing its state (all within 1 ms of it) may be applied again before it
    Dn me{h.mt[id], (int)done.size(), id}; size_t pos = done.size(); while (pos > 0 && done[pos - 1].t > me.t) pos--;
    done.insert(done.begin() + pos, me); order.push_back(id);
    std::vector<int> want; for (size_t k = pos; k < done.size(); k++) want.push_back(done[k].id);
    size_t extra = 0; while (extra < pos && tr.size() - from > want.size()) { const Dn& d = done[pos - 1 - extra]; if (std::fabs(d.t - me.t) > 0.002) break; want.insert(want.begin(), d.id); extra++; }
    if (extra) count("same_state_reapplied", extra);
    bool ok = tr.size() - from == want.size(); for (size_t k = 0; ok && k < want.size(); k++) ok = tr[from + k].id == want[k];
    if (!ok) { std::string gs, ws; for (size_t k = from; k < tr.size(); k++) gs += cat(tr[k].id, " "); for (int v : want) ws += cat(v, " "); violate("apply_sequence", cat(when, ": measurement ", id, " must apply [", ws, "] applied [", gs, "]")); }
    for (size_t k = from; k < tr.size(); k++) { double d = std::fabs(tr[k].st - h.mt[tr[k].id]); maxim("apply_time_offset", d); if (!(d <= 0.001 + 1e-9)) violate("apply_time", cat("measurement at ", h.mt[tr[k].id], " applied to a state ", d, " s away")); }
    count("measurements_applied"); if (want.size() > 1) count("late_measurements"); count("reapplied", (long)want.size() - 1);
  };
  size_t kimu = 0; std::vector<int> queued;
  // what has been published so far must be the batch estimate of the data so far
  Rig<S> scratch; scratch.mgr.nz = rig.mgr.nz; scratch.mgr.aux_q = rig.mgr.aux_q;
  auto batch = [&](RefFilter& rf, double upto) {
    rf.nz = rig.mgr.nz; rf.aux_q = rig.mgr.aux_q;
    if (kDriftFree >= 0) { int at = rig.L[kDriftFree].at_err; rf.augment = [at](VX& e) { e.segment(at, 3).setZero(); }; }
    rf.step = [&](const RefState& a, RefState& b) { real_step(scratch, a, b); };
    std::vector<RefState> iu; for (auto& s : h.imu) if (s.t <= upto) iu.push_back(s);
    std::vector<RefMeas> rm; for (int i : order) rm.push_back(refmeas(h, i, N));
    rf.run(r0, iu, rm);
  };
  bool stop = false;
  auto interim = [&](const RefState& pub, const char* when) {
    if (stop || !g.p(0.12)) return;
    RefFilter rf(rig.L); batch(rf, tnow); std::string what; double wd = cmpstates(pub, rf.nodes.back(), rig.L, what);
    if (rf.margin < 1e-6) { stop = true; return; }
    count(cat("published_", when, "_compared")); maxim("published_difference", wd);
    if (!(wd < 1e-6)) { stop = true; violate(cat("estimate_differs_", when), cat("published after ", order.size(), " measurements (arrival mode ", mode, ", ", h.kind, "): ", what)); }
    double as = asym(pub.P) / pub.P.diagonal().maxCoeff(); if (!(as < 1e-9)) { stop = true; violate("asymmetric", cat("published P asymmetric: ", as)); }
  };
  auto add = [&](int id) {
    size_t from = tr.size(); long u0 = rig.mgr.n_upd;
    rig.core.AddMeasurement(mkmeas(h, id, hook));
    if (h.mt[id] > tnow) { queued.push_back(id); count("future_measurements"); if (tr.size() != from || rig.mgr.n_upd != u0) violate("future_applied", cat("measurement ", h.mt[id], " applied before any IMU data covers it (", tnow, ")")); }
    else { expectApply(from, id, "on arrival"); if (rig.mgr.n_upd != u0 + 1) violate("update_publish", cat("expected one update publication, got ", rig.mgr.n_upd - u0)); else if (rig.mgr.last_upd.t != tnow) violate("update_publish_time", cat("published state of time ", rig.mgr.last_upd.t, " instead of the latest ", tnow)); else interim(rig.mgr.last_upd, "update"); }
  };
  auto imu = [&](const RefState& s) {
    size_t from = tr.size(); long u0 = rig.mgr.n_upd, p0 = rig.mgr.n_prop;
    tnow = s.t; rig.feed(s.t, s.a, s.w);
    if (rig.mgr.n_prop != p0 + 1 || rig.mgr.last_prop.t != s.t) violate("prop_publish", cat("IMU sample ", s.t, ": ", rig.mgr.n_prop - p0, " propagation publications, last ", rig.mgr.last_prop.t));
    // FIFO head may be consumed
    if (!queued.empty()) {
      int id = queued.front(); queued.erase(queued.begin());
      if (h.mt[id] > tnow) { queued.push_back(id); if (tr.size() != from) violate("future_applied", cat("queued measurement ", h.mt[id], " applied at ", tnow)); }
      else { expectApply(from, id, "from the pending queue"); count("queued_applied"); interim(rig.mgr.last_upd, "update"); }
    } else if (tr.size() != from) violate("spurious_apply", "IMU sample triggered a measurement update though none was pending");
    else if (g.p(0.1)) interim(rig.mgr.last_prop, "propagation");
    count("imu_samples");
  };
  for (auto& s : h.imu) {
    imu(s);
    while (at < q.size() && q[at].arrive <= s.t) add(q[at++].id);
  }
  while (at < q.size()) add(q[at++].id);
  // drain the queue with further IMU samples
  for (int k = 0; k < 3 * nm + 4 && !queued.empty(); k++) { RefState s = h.imu.back(); s.t += h.dt; h.imu.push_back(s); imu(s); }
  if (!queued.empty()) violate("queue_stuck", cat(queued.size(), " pending measurements never applied"));
  for (int k = 0; k < 2; k++) { RefState s = h.imu.back(); s.t += h.dt; h.imu.push_back(s); imu(s); }
  if ((int)done.size() != nm && queued.empty()) violate("lost", cat(nm - (int)done.size(), " measurements lost"));
  // Batch reference
  RefFilter rf(rig.L); batch(rf, 1e300);
  SP last = rig.core.GetClosestState(h.imu.back().t);
  if (last->time != h.imu.back().t) { violate("no_state", "latest state not retrievable"); return; }
  RefState got = snap(*last); std::string what;
  double wd = cmpstates(got, rf.nodes.back(), rig.L, what);
  if (rf.margin < 1e-6) { rep().inconclusive = true; count("outlier_decision_too_close"); return; }
  count("compared_with_batch"); count("outliers_rejected_in_batch", rf.rejected); count("cases_" + h.kind); maxim("final_difference", wd);
  if (!(wd < 1e-6)) violate("estimate_differs", cat("after ", nm, " measurements (arrival mode ", mode, ", ", h.kind, ", ", rf.rejected, " outliers) the estimate differs from strictly time-ordered processing: ", what));
  double as = asym(got.P) / got.P.diagonal().maxCoeff();
  if (!(as < 1e-9)) violate("asymmetric", cat("final P asymmetric: ", as));
  sig(nm); sig(mode); for (double t : h.mt) sigd(t - t0); for (auto& e : tr) sig(e.id); nontrivial();
  sample(cat("mode ", mode, ", ", nimu, " IMU at dt ", h.dt, ", ", nm, " measurements, ", tr.size(), " applications, final difference ", wd, " (sigma units)"));
}
#endif

// ---------------------------------------------------------------- shared bring-up --
// Initialise and feed a short smooth IMU stream; returns the sample times.
static std::vector<RefState> bringup(Rng& g, Rig<S>& rig, int n, double dt, const MX* P, std::vector<VX>* x0 = nullptr, double t0 = 10) {
  std::vector<VX> x = x0 ? *x0 : rig.randvars(g, 0.02);
  ImuGen sig(g, g.logu(0.1, 3), g.logu(0.05, 1));
  rig.init(t0, x, sig.a(0), sig.w(0), P);
  std::vector<RefState> r;
  for (int k = 1; k <= n; k++) { RefState s; s.t = t0 + k * dt; s.a = sig.a(k * dt); s.w = sig.w(k * dt); r.push_back(s); rig.feed(s.t, s.a, s.w); }
  return r;
}
static bool same_bits(const RefState& a, const RefState& b) {
  for (size_t i = 0; i < a.x.size(); i++) if (a.x[i] != b.x[i]) return false;
  return a.P == b.P && a.t == b.t;
}
// error between an updated real state and the reference, quaternions allowed the
// small-angle difference of second order conventions (third order in the correction)
static double post_err(const RefState& got, const RefState& ref, const RefState& pre, const std::vector<VarInfo>& L, std::string& what) {
  double worst = 0; VX d = ref_minus(got.x, ref.x, L), c = ref_minus(ref.x, pre.x, L);
  auto chk = [&](double e, double tol, const std::string& w) { double r = e / tol; if (!(r <= worst)) { worst = r; what = w; } };
  for (size_t v = 0; v < L.size(); v++) for (int k = 0; k < L[v].err; k++) {
    int i = L[v].at_err + k; double cn = c.segment(L[v].at_err, L[v].err).norm();
    chk(std::fabs(d(i)), 1e-8 * (1 + cn + ref.x[v].norm()) + (L[v].quat ? 0.2 * cn * cn * cn : 0), cat("error state ", i, " (variable ", v, ") off by ", d(i), ", correction ", c(i)));
    if (L[v].quat) chk(std::fabs(got.x[v].norm() - 1), 1e-9, cat("quaternion ", v, " has norm ", got.x[v].norm()));
  }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
    double sc = std::sqrt(std::max(pre.P(i, i), 0.0) * std::max(pre.P(j, j), 0.0)) + 1e-14;
    chk(std::fabs(got.P(i, j) - ref.P(i, j)), 1e-8 * sc, cat("P(", i, ",", j, ") is ", got.P(i, j), " expected ", ref.P(i, j), " before ", pre.P(i, j)));
    chk(std::fabs(got.P(i, j) - got.P(j, i)), 1e-12 * sc, cat("P(", i, ",", j, ") asymmetric by ", got.P(i, j) - got.P(j, i)));
  }
  return worst;
}

// ---------------------------------------------------------------- C07 ----------
template<int M> static void one_update(Rng& g, bool dynamic, const char* name) {
  Rig<S> rig; double dt = 0.01; MX P0 = randspd(g, N, g.logu(1e-4, 0.05)); rig.mgr.nz.acc = g.logu(0.002, 0.3); rig.mgr.nz.gyr = g.logu(0.0004, 0.1);
  double fix = g.p(0.2); rig.mgr.fixed_bias = fix;
  std::vector<RefState> r = bringup(g, rig, g.i(4, 9), dt, &P0);
  typedef ProbeMeas<S, M> Me;
  int rounds = g.i(1, 4);
  for (int k = 0; k < rounds; k++) {
    RefState nx = r.back(); nx.t += dt; rig.feed(nx.t, nx.a, nx.w); r.push_back(nx);
    bool mah = g.p(0.5); double thr = g.logu(0.5, 20);
    boost::shared_ptr<Me> m(new Me(k, r.back().t - (g.p(0.5) ? 0 : 0.0005), mah, thr));
    m->dynamic = dynamic;
    // dense, sparse or single-variable rows
    int kind = g.i(0, 2);
    // a precise reading of a few quantities about which little is known: the result is as precise as the reading
    bool precise = k == rounds - 1 && g.p(0.25); double blow = precise ? g.logu(1, 1e4) : 1; std::vector<int> sel;
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) m->H(i, j) = kind == 0 ? g.n() : kind == 1 ? (g.p(0.2) ? g.n() : 0) : (j == (int)(g.next() % N) ? 1 : 0);
    for (int i = 0; i < M; i++) if (m->H.row(i).norm() == 0) m->H(i, i) = 1;
    m->R() = randspd(g, M, g.logu(1e-3, 1)); if (g.p(0.2)) m->R() *= 100;
    if (precise) { m->R() *= g.logu(1e-10, 1e-6); m->H.setZero(); while ((int)sel.size() < M) { int c = g.i(0, N - 1); bool dup = false; for (int o : sel) dup |= o == c; if (!dup) { m->H(sel.size(), c) = 1; sel.push_back(c); } } }
    RefState pre, post; double want_d = thr * (g.p(0.5) ? g.u(0.05, 0.95) : g.u(1.05, 5)); bool expect_reject = false;
    Eigen::Matrix<double, M, 1> res; double scale = g.logu(0.05, 2);
    m->residual = [&](const S& s) { return res; };
    m->hook = [&](Me& me, S& s, bool after) {
      if (after) { post = snap(s); return; }
      if (precise) s.P *= blow * blow;
      pre = snap(s);
      MX Sx = MX(me.H) * pre.P * MX(me.H).transpose() + MX(me.R());
      Eigen::LLT<MX> llt(Sx); VX u(M); for (int i = 0; i < M; i++) u(i) = g.n();
      u = VX(llt.matrixL() * u.normalized());                      // Mahalanobis norm 1
      res = u * (mah ? want_d : scale);
      expect_reject = mah && want_d > thr;
    };
    long u0 = rig.mgr.n_upd;
    rig.core.AddMeasurement(m);
    if (post.x.empty()) { violate("not_applied", cat(name, ": measurement at ", m->time, " was not applied")); return; }
    if (rig.mgr.n_upd != u0 + 1) violate("update_publish", "update not published once");
    if (expect_reject) {
      count("outliers_rejected");
      if (!same_bits(pre, post)) violate("outlier_changed_state", cat(name, ": a reading at ", want_d, " sigma (threshold ", thr, ") altered the state or covariance"));
      continue;
    }
    RefState ref = pre; std::function<void(VX&)> aug;
    if (fix) aug = [](VX& d) { d.segment(9, 6).setZero(); };
    bool ok = RefFilter::update(ref, rig.L, MX(m->H), VX(res), MX(m->R()), 0, aug); (void)ok;
    std::string what; double e = post_err(post, ref, pre, rig.L, what); maxim("update_err_over_tol", e);
    if (!(e <= 1)) violate("update_wrong", cat(name, " dim ", M, mah ? " with outlier test, " : ", ", fix ? "fixed bias, " : "", what));
    if (precise) {
      typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> ML; ML Pc(M, M), Rc = MX(m->R()).cast<long double>(); for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) Pc(i, j) = pre.P(sel[i], sel[j]);
      ML W = Rc * Eigen::FullPivLU<ML>(Pc + Rc).solve(Pc); double pe = 0;
      for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) pe = std::max(pe, (double)(std::fabs(W(i, j) - (long double)post.P(sel[i], sel[j])) / std::sqrt(W(i, i) * W(j, j))));
      maxim("precise_update_err", pe); count("precise_updates"); if (!(pe <= 1e-3)) violate("precise_update", cat(name, " dim ", M, ": after a reading with variance ", m->R()(0, 0), " the variance of the quantity read, ", pre.P(sel[0], sel[0]), " before, is ", post.P(sel[0], sel[0]), " instead of ", (double)W(0, 0)));
    }
    if (precise) break;  // the eigenvalues of such a covariance drown in rounding
    if (same_bits(pre, post)) violate("update_ignored", cat(name, ": accepted reading had no effect"));
    // information never decreases: P_before - P_after is positive semidefinite
    MX D = pre.P - post.P; double me = mineig_scaled_by(D, pre.P); maxim("largest_information_loss", -me);
    if (!(me > -1e-7)) violate("information_loss", cat("variance increased in a measurement update, scaled eigenvalue ", me));
    double pe = mineig_scaled_by(post.P, pre.P);
    if (!(pe > -1e-9)) violate("not_psd", cat("covariance not positive semidefinite after the update, scaled eigenvalue ", pe));
    count("updates_checked"); count(cat("updates_dim", M, dynamic ? "_dynamic" : "_fixed")); nontrivial(); sigd(res(0)); sigd(post.P(0, 0));
    sample(cat(name, " dim ", M, " |res| ", res.norm(), " trace P ", pre.P.trace(), " -> ", post.P.trace(), " err/tol ", e));
    // the published state of the newest time
    if (rig.mgr.last_upd.t != r.back().t) violate("update_publish_time", "published state is not the newest");
  }
}
#if !defined(SELECT) || defined(W_update)
static void update(Rng& g, uint64_t idx) {
  switch (idx % 6) {
    case 0: one_update<1>(g, false, "fixed-size"); break;
    case 1: one_update<3>(g, false, "fixed-size"); break;
    case 2: one_update<6>(g, false, "fixed-size"); break;
    case 3: one_update<1>(g, true, "dynamic-size"); break;
    case 4: one_update<3>(g, true, "dynamic-size"); break;
    case 5: one_update<6>(g, true, "dynamic-size"); break;
  }
}
#endif

// ---------------------------------------------------------------- C15 ----------
#if !defined(SELECT) || defined(W_relative)
static void relative(Rng& g, uint64_t idx) {
  typedef ProbeMeas<S, 3> Me;
  Rig<S> rig; MX P0 = randspd(g, N, g.logu(1e-4, 0.05)); rig.mgr.aux_q = g.p(0.5) ? 0 : 0.01;
  double dt = g.pick(std::vector<double>{0.005, 0.01, 0.02});
  std::vector<RefState> r = bringup(g, rig, g.i(6, 20), dt, &P0);
  int n = r.size(), from = g.i(2, n - 1); // old state index; new state is the newest
  std::vector<RefState> st; for (auto& s : r) { SP p = rig.core.GetClosestState(s.t); st.push_back(snap(*p)); }
  // accumulated transition from the states' own values
  MX Phi = MX::Identity(N, N); double wdt = 0;
  for (int k = from + 1; k < n; k++) {
    const RefState& b = st[k]; V3 ew = b.w - V3(b.x[3]), ea = b.a - V3(b.x[4]); MX F = MX::Identity(N, N);
    F.topLeftCorner(15, 15) = RefFilter::discF(toq(b.x[2]).toRotationMatrix(), ea, ew, b.t - st[k - 1].t);
    Phi = F * Phi; wdt = std::max(wdt, ew.norm() * dt);
  }
  Eigen::Matrix<double, N, N> Fa; SP so = rig.core.GetClosestState(st[from].t), sn = rig.core.GetClosestState(st[n - 1].t);
  rig.core.GetAccumulatedStateTransitionStochasticCloning(so, sn, Fa);
  double e = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) e = std::max(e, std::fabs(Fa(i, j) - Phi(i, j)) / (std::fabs(Phi(i, j)) + 0.01 * dt));
  maxim("transition_err", e);
  if (!(e <= 1e-6)) violate("accumulated_transition", cat("transition over ", n - 1 - from, " steps of ", dt, " s differs by ", e, " (relative) from the ordered product of the one-step transitions"));
  count("transitions_checked"); if (n - 1 - from >= 2) count("multi_step_transitions");
  // relative measurement between old and new
  Me* pm = new Me(1, st[n - 1].t, false, 0, 7, false); boost::shared_ptr<Me> m(pm);
  Eigen::Matrix<double, 3, N> Ho, Hn; for (int i = 0; i < 3; i++) for (int j = 0; j < N; j++) { Ho(i, j) = g.p(0.3) ? g.n() : 0; Hn(i, j) = g.p(0.3) ? g.n() : 0; }
  Ho(0, 0) = -1; Hn(0, 0) = 1;
  m->R() = randspd(g, 3, g.logu(1e-3, 0.1)); Eigen::Matrix<double, 3, 1> res = randv(g, 0.1);
  RefState pre, post, opre = snap(*so), opost;
  m->custom = [&](Me& me, SP s, msf_core::MSF_Core<S>& core) { pre = snap(*s); me.relative(so, s, core, Ho, Hn, res); post = snap(*s); opost = snap(*so); return true; };
  rig.core.AddMeasurement(m);
  if (post.x.empty()) { violate("not_applied", "relative measurement not applied"); return; }
  MX J(2 * N, 2 * N); J.topLeftCorner(N, N) = opre.P; J.topRightCorner(N, N) = opre.P * Phi.transpose(); J.bottomLeftCorner(N, N) = Phi * opre.P; J.bottomRightCorner(N, N) = pre.P;
  MX H(3, 2 * N); H << Ho, Hn; MX Sx = H * J * H.transpose() + MX(m->R()); MX K = Eigen::FullPivLU<MX>(Sx).solve(H * J).transpose();
  MX Jp = J - K * Sx * K.transpose(); VX d = (K * VX(res)).tail(N);
  RefState ref = pre; ref_correct(ref.x, rig.L, d); ref.P = Jp.bottomRightCorner(N, N); ref.P = (0.5 * (ref.P + ref.P.transpose())).eval();
  std::string what; double pe = post_err(post, ref, pre, rig.L, what); maxim("relative_update_err_over_tol", pe);
  if (!(pe <= 10)) violate("relative_update", cat("relative update over ", n - 1 - from, " steps: ", what));
  if (from != n - 1 && !same_bits(opre, opost)) violate("relative_changed_old", "a relative measurement altered the older state");
  count("relative_updates"); nontrivial(); sigd(res(0)); sig(n - from);
  sample(cat(n - 1 - from, " steps of ", dt, " s, transition error ", e, ", update err/tol ", pe));
}
#endif
// previous measurement of the same sensor
#if !defined(SELECT) || defined(W_prevmeas)
static void prevmeas(Rng& g, uint64_t idx) {
  Rig<S> rig; std::vector<RefState> r = bringup(g, rig, 12, 0.01, nullptr);
  struct E { double t; int sensor; boost::shared_ptr<M3m> m; }; std::vector<E> ev;
  int n = g.i(1, 8);
  for (int k = 0; k < n; k++) {
    double t = r[0].t + 0.0025 + k * 0.012 + g.u(-0.002, 0.002); if (t > r.back().t) break;
    boost::shared_ptr<M3m> m(new M3m(k, t, false, 0, g.i(0, 2))); m->H.setZero(); m->H.leftCols<3>().setIdentity(); m->R().setIdentity();
    m->residual = [](const S&) { return V3(0, 0, 0); };
    ev.push_back({t, m->sensorID_, m});
  }
  std::vector<int> ord(ev.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i; for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[g.next() % i]);
  std::vector<E> in;
  for (int o : ord) {
    rig.core.AddMeasurement(ev[o].m); in.push_back(ev[o]);
    for (int q = 0; q < 4; q++) {
      const E& at = in[g.next() % in.size()]; int sid = g.i(0, 3); const E* want = nullptr;
      for (auto& e : in) if (e.t < at.t && e.sensor == sid && (!want || e.t > want->t)) want = &e;
      boost::shared_ptr<msf_core::MSF_MeasurementBase<S> > got = rig.core.GetPreviousMeasurement(at.t, sid);
      bool inval = !got || got->time == msf_core::constants::INVALID_TIME;
      if (!want) { if (!inval) violate("previous_measurement", cat("sensor ", sid, " before ", at.t, ": none exists, got one at ", got->time)); }
      else if (inval || got.get() != want->m.get()) violate("previous_measurement", cat("sensor ", sid, " before ", at.t, ": expected the one at ", want->t, ", got ", inval ? -1.0 : got->time));
      count(want ? "previous_found" : "previous_none");
    }
    boost::shared_ptr<msf_core::MSF_MeasurementBase<S> > none = rig.core.GetPreviousMeasurement(r[0].t + 0.5 + g.u(), 1);
    if (none && none->time != msf_core::constants::INVALID_TIME) violate("previous_measurement", "query at an unknown stamp returned a measurement");
  }
  nontrivial(); for (auto& e : ev) { sigd(e.t); sig(e.sensor); }
}
#endif

// ---------------------------------------------------------------- C09 ----------
// Random IMU streams with faults, judged against a model of the documented stream semantics.
#if !defined(SELECT) || defined(W_imu_faults)
static void imu_faults(Rng& g, uint64_t idx) {
  Rig<S> rig; double t0 = g.u(5, 50), dt = g.pick(std::vector<double>{0.005, 0.01, 0.02});
  ImuGen sig(g, g.logu(0.1, 3), g.logu(0.05, 1));
  bool init = false, pred = false; int nstates = 0; RefState last; std::vector<V3> acc;
  int epoch = 0; double first_t = 0;
  auto doinit = [&](double t) {
    std::vector<VX> x = rig.randvars(g, 0.02); MX P = randspd(g, N, 0.01); if (g.p(0.3)) P = MX(P.diagonal().asDiagonal());
    rig.init(t, x, sig.a(0), sig.w(0), &P); init = true; pred = false; nstates = 1; epoch++; first_t = t;
    last = rig.mgr.last_init; last.a = sig.a(0); last.w = sig.w(0); acc.push_back(last.a);
    if (rig.mgr.last_init.t != t) violate("init_time", "initial state has a wrong time");
    for (size_t i = 0; i < x.size(); i++) if ((rig.mgr.last_init.x[i] - x[i]).norm() > 1e-12) violate("init_value", cat("initial value of variable ", i, " not taken over"));
    if (rig.mgr.last_init.P != P) violate("init_cov", "initial covariance not taken over");
  };
  double t = t0; int ops = g.i(15, 60); std::string script; long napplied = 0; std::set<int> applied_epochs;
  Rig<S> scratch;
  for (int k = 0; k < ops; k++) {
    if (!init) {
      // uninitialised: nothing may come out
      if (g.p(0.3)) { t += dt; long p0 = rig.mgr.n_prop; rig.feed(t, sig.a(t), sig.w(t)); if (rig.mgr.n_prop != p0) violate("output_uninitialised", "IMU data produced output before initialisation"); script += "u"; continue; }
      if (g.p(0.2)) { long u0 = rig.mgr.n_upd; bool ap = false; boost::shared_ptr<M3m> m(new M3m(0, t)); m->H.leftCols<3>().setIdentity(); m->R().setIdentity(); m->residual = [&](const S&) { ap = true; return V3(1, 1, 1); }; rig.core.AddMeasurement(m); if (ap || rig.mgr.n_upd != u0) violate("update_uninitialised", "a measurement was applied without a valid filter"); script += "m"; continue; }
      t += g.u(0, 2); doinit(t); script += "I"; count("initialisations"); continue;
    }
    if (g.p(0.03)) { t = std::max(0.5, t + (g.p(0.3) ? -1 : 1) * g.logu(1e-3, 100)); doinit(t); script += "R"; count("initialisations_while_running"); continue; }
    if (g.p(0.12)) {  // interleave a measurement at, just after (pending) or long before the newest state
      int how = g.i(0, 2); double mt = how == 0 ? last.t : how == 1 ? last.t + g.u(0.5, 3) * dt : last.t - g.u(200, 1000);
      int my = epoch; long u0 = rig.mgr.n_upd; bool ap = false; boost::shared_ptr<M3m> m(new M3m(0, mt)); m->H.leftCols<3>().setIdentity(); m->R().setIdentity();
      m->residual = [](const S& st) { return V3(0.1, -0.1, 0.05); };
      bool* pap = &ap; std::set<int>* pq = &applied_epochs; int* pe = &epoch; m->hook = [my, pq, pe](M3m&, S&, bool after) { if (!after) { pq->insert(my); if (*pe != my) violate("stale_measurement_after_reset", "a measurement received before a re-initialisation was applied after it"); } };
      (void)pap; size_t n0 = applied_epochs.size(); (void)n0; long a0 = napplied; m->residual = [&napplied](const S&) { napplied++; return V3(0.1, -0.1, 0.05); };
      rig.core.AddMeasurement(m);
      bool applied = napplied > a0;
      if (!pred && (applied || rig.mgr.n_upd != u0)) violate("update_before_prediction", "a measurement was applied before the first prediction");
      if (pred && how == 0 && (!applied || rig.mgr.n_upd != u0 + 1)) violate("update_missed", "a measurement at the newest state was not applied and published");
      if (pred && how == 1 && applied) violate("future_applied", "a measurement ahead of the IMU data was applied at once");
      if (pred && how == 2 && mt < first_t && (applied || rig.mgr.n_upd != u0)) violate("too_old_applied", "a measurement older than all states had an effect");
      count(cat("interleaved_", how, pred ? "" : "_unpredicted")); script += "amo"[how];
      if (pred) { SP l = rig.core.GetClosestState(last.t); last = snap(*l); }
      continue;
    }
    double f = g.u(); double ts = t + dt * g.u(0.8, 1.2); V3 a = sig.a(t - t0), w = sig.w(t - t0); int kind = 0;
    if (f < 0.06) { ts = t; kind = 1; }                               // duplicate stamp
    else if (f < 0.12) { ts = t - g.u(1e-6, 0.0095); kind = 2; }       // slightly out of order
    else if (f < 0.15) { ts = t - g.logu(0.0105, 500); kind = 3; }     // far out of order
    else if (f < 0.21) { ts = t + g.logu(0.101, 100); kind = 4; }      // gap
    else if (f < 0.30) { a = randv(g, 1).normalized() * g.logu(51, 1e6); kind = 5; if (g.p(0.2)) a(g.i(0, 2)) = INFINITY; }  // spike
    else if (f < 0.33) { (g.p(0.5) ? a : w)(g.i(0, 2)) = NAN; kind = 6; }
    ts = std::max(ts, 0.5);
    long p0 = rig.mgr.n_prop, na0 = napplied; double since = ts - last.t;
    rig.feed(ts, a, w);
    bool published = rig.mgr.n_prop == p0 + 1; if (rig.mgr.n_prop > p0 + 1) violate("published_twice", "one IMU message published twice");
    script += "ndbBgsN"[kind]; count(cat("imu_kind_", "ndbBgsN"[kind]));
    if (kind == 3 && pred) {  // restart of the stream: filter must be off until re-initialised
      if (published) violate("out_of_order_published", cat("IMU message ", -since, " s before the last one produced output"));
      init = pred = false; count("resets"); continue;
    }
    if (kind == 1 || kind == 2 || (kind == 3 && since >= -0.1)) {
      if (published) violate("stale_imu_published", cat("IMU message ", since, " s after the last one produced output"));
      SP l = rig.core.GetClosestState(last.t); RefState now = snap(*l); if (now.t != last.t) violate("stale_imu_lost_state", "newest state vanished");
      for (size_t i = 0; i < now.x.size(); i++) if (now.x[i] != last.x[i]) violate("stale_imu_changed_state", cat("IMU message ", since, " s after the last one changed variable ", i));
      count("stale_ignored"); continue;
    }
    if (!pred && std::fabs(since) > 0.1) {  // before the first prediction a gap only re-times the initial state
      if (published) violate("gap_published", cat("gap of ", since, " s before the first prediction was propagated"));
      t = ts; last.t = ts; nstates = 1; first_t = ts; count("gap_retimed"); continue;
    }
    if (kind == 6) {
      if (published) { bool fin = true; for (auto& v : rig.mgr.last_prop.x) if (!v.allFinite()) fin = false; if (!fin) violate("nan_published", "a non-numeric state was published"); }
      init = pred = false; count("nan_resets");
      // the filter stays off
      long q0 = rig.mgr.n_prop; rig.feed(ts + dt, sig.a(0), sig.w(0)); if (rig.mgr.n_prop != q0) violate("output_after_reset", "output after a non-numeric state had reset the filter"); t = ts + dt; continue;
    }
    if (!published) { violate("imu_lost", cat("valid IMU message (kind ", kind, ", ", since, " s after the last) produced no output; script ", script)); return; }
    RefState o = last, n; n.t = ts; n.a = rig.mgr.last_prop.a; n.w = w;
    if (rig.mgr.last_prop.t != ts) violate("published_time", "published state has a wrong time");
    if (kind == 5) {
      bool ok = n.a.norm() == 0; for (auto& v : acc) if (v == n.a) ok = true;
      if (!(n.a.norm() <= 50) || !ok) violate("spike_not_removed", cat("an acceleration of ", a.norm(), " m/s2 was replaced by ", n.a.norm()));
      count("spikes_replaced");
    } else { if (n.a != a) violate("reading_altered", "acceleration reading altered"); acc.push_back(a); }
    if (napplied != na0) { SP l = rig.core.GetClosestState(ts); last = snap(*l); if (last.t != ts) violate("no_state", "newest state lost"); t = ts; nstates++; if (nstates > 3) pred = true; count("pending_applied"); continue; }
    scratch.mgr.nz = rig.mgr.nz; real_step(scratch, o, n);
    SP l = rig.core.GetClosestState(ts); RefState got = snap(*l);
    for (size_t i = 0; i < n.x.size(); i++) if (!(( got.x[i] - n.x[i]).norm() <= 1e-9 * (1 + n.x[i].norm()))) violate("propagation_basis", cat("state after IMU message does not continue from the last one, variable ", i, " off by ", (got.x[i] - n.x[i]).norm(), " script ", script));
    if (!got.P.allFinite() || !((got.P - n.P).cwiseAbs().maxCoeff() <= 1e-9 * (1e-12 + n.P.cwiseAbs().maxCoeff()))) violate("covariance_basis", cat("covariance after IMU message does not continue from the last one, off by ", (got.P - n.P).cwiseAbs().maxCoeff(), " of ", n.P.cwiseAbs().maxCoeff(), " dt ", ts - o.t, " script ", script));
    nstates++; if (nstates > 3) pred = true;
    last = got; t = ts; count("propagated");
  }
  nontrivial(); for (char c : script) vf::sig((uint64_t)c); sigd(t0); sample(cat("script ", script));
}
#endif

// ------------------------------------------------------------ C03 edge cases ----
static boost::shared_ptr<M3m> simple(int id, double t, V3 r, double sd, std::function<void(M3m&, S&, bool)> hook) {
  boost::shared_ptr<M3m> m(new M3m(id, t)); m->H.leftCols<3>().setIdentity(); m->R() = Eigen::Matrix3d::Identity() * sd * sd; m->residual = [r](const S&) { return r; }; m->hook = hook; return m;
}
// IMU gaps after the first predictions: measurements inside a gap have no close state
#if !defined(SELECT) || defined(W_sched_edges)
static void sched_edges(Rng& g, uint64_t idx) {
  Rig<S> rig; MX P0 = randspd(g, N, 0.01); double dt = 0.01, t0 = g.p(0.5) ? g.u(5, 50) : 1.6e9 + g.u();
  std::vector<VX> x0 = rig.randvars(g, 0.02); ImuGen sg(g, 1, 0.3);
  if (kDriftFree >= 0) { int at = rig.L[kDriftFree].at_err; rig.mgr.augment = [at](Mgr<S>::Err& e) { e.segment<3>(at).setZero(); }; }
  rig.init(t0, x0, sg.a(0), sg.w(0), &P0);
  long applied = 0; auto hook = [&](M3m&, S&, bool after) { if (!after) applied++; };
  // before the first predictions nothing is accepted, not even later on
  int early = 0; double t = t0; std::vector<double> times{t0};
  for (int k = 1; k <= 12; k++) {
    if (k <= 3 && g.p(0.7)) { double mt = t + g.u(-0.005, 0.015); rig.core.AddMeasurement(simple(900 + k, mt, V3(5, 5, 5), 0.1, hook)); early++; }
    t += dt; times.push_back(t); rig.feed(t, sg.a(t - t0), sg.w(t - t0));
  }
  if (applied) violate("applied_before_prediction", cat(applied, " measurements received before the filter was ready were applied"));
  count("early_ignored", early);
  // gap
  double gap = g.u(0.3, 3), tg = t; t += gap; times.push_back(t); rig.feed(t, sg.a(t - t0), sg.w(t - t0));
  for (int k = 0; k < 8; k++) { t += dt; times.push_back(t); rig.feed(t, sg.a(t - t0), sg.w(t - t0)); }
  auto newest = [&]() { SP l = rig.core.GetClosestState(t); return snap(*l); };
  std::set<double> ingap;
  for (int k = 0; k < 6; k++) {
    RefState pre = newest(); long a0 = applied, u0 = rig.mgr.n_upd;
    int kind = g.i(0, 3); double mt;
    if (kind == 0) mt = tg + g.u(0.11, gap - 0.11);                       // inside the gap: no state within 0.1 s
    else if (kind == 1) mt = t0 - g.logu(1e-4, 100);                      // older than everything
    else if (kind == 2) { int at = g.p(0.15) ? 0 : g.i(1, times.size() - 1); mt = times[at] + g.pick(std::vector<double>{at ? -0.0005 : 0, 0, 0.0005}); if (!at) count("at_first_state"); }  // normal
    else mt = g.p(0.5) ? tg + g.u(0.002, 0.09) : tg + gap - g.u(0.002, 0.09);  // inside the gap but close enough
    if (mt > t) mt = t; if (kind == 2 && mt < t0) mt = t0;
    if (kind == 0 || kind == 3) { double d = 1e9; for (double s : times) d = std::min(d, std::fabs(s - mt)); if (std::fabs(d - 0.1) < 5e-3) continue; kind = d > 0.1 ? 0 : 3; }
    // a refused measurement is kept, and taken up when a state close to it appears
    if (kind == 0) ingap.insert(mt);
    if (kind >= 2) { times.push_back(mt); bool amb = false; for (double q : ingap) if (q > mt) { double d = 1e9; for (double s : times) d = std::min(d, std::fabs(s - q)); if (std::fabs(d - 0.1) < 5e-3) amb = true; if (d < 0.1) times.push_back(q); } if (amb) break; }  // states are also created at measurement times
    rig.core.AddMeasurement(simple(k, mt, randv(g, 0.3), g.logu(0.05, 1), hook));
    RefState post = newest();
    if (kind <= 1) {
      if (applied != a0 && kind == 1) violate("too_old_applied", cat("measurement ", t0 - mt, " s older than the oldest state was applied"));
      if (kind == 0) { /* later ones may be applied again; the estimate must not change */ 
        VX d = ref_minus(post.x, pre.x, rig.L); double e = 0; for (int i = 0; i < N; i++) e = std::max(e, std::fabs(d(i)) / (std::sqrt(pre.P(i, i)) + 1e-9)); double pe = (post.P - pre.P).cwiseAbs().maxCoeff() / pre.P.cwiseAbs().maxCoeff();
        maxim("gap_measurement_effect", std::max(e, pe));
        if (!(e < 1e-6 && pe < 1e-6)) violate("gap_measurement_effect", cat("a measurement inside an IMU gap, without any state within 0.1 s, changed the estimate by ", e, " sigma, covariance by ", pe)); }
      else if (!same_bits(pre, post)) violate("too_old_effect", "a rejected old measurement changed the estimate");
      count(kind ? "too_old" : "in_gap");
    } else {
      if (applied == a0) violate("covered_not_applied", cat("a covered measurement (kind ", kind, ") was not applied"));
      if (rig.mgr.n_upd != u0 + 1) violate("update_publish", "not published exactly once");
      if (same_bits(pre, post)) violate("covered_no_effect", "an applied measurement had no effect");
      count(kind == 2 ? "covered" : "near_gap_edge");
    }
    if (!(asym(post.P) <= 1e-9 * post.P.cwiseAbs().maxCoeff())) violate("asymmetric", "covariance asymmetric");
  }
  nontrivial(); sigd(t0); sigd(gap); sample(cat("gap ", gap, " s, ", applied, " applications"));
}
#endif
// long operation: buffers are trimmed (about one minute is kept) without disturbing the estimate
#if !defined(SELECT) || defined(W_longrun)
static void longrun(Rng& g, uint64_t idx) {
  Rig<S> rig; double dt = 0.05, t0 = g.u(5, 50); std::vector<VX> x0 = rig.randvars(g, 0.01); MX P0 = randspd(g, N, 0.01);
  ImuGen sg(g, 0.3, 0.1); x0[2] = fromq(qexp(randv(g, 0.1))); x0[3].setZero(); x0[4].setZero();
  if (kDriftFree >= 0) { int at = rig.L[kDriftFree].at_err; rig.mgr.augment = [at](Mgr<S>::Err& e) { e.segment<3>(at).setZero(); }; }
  rig.init(t0, x0, sg.a(0), sg.w(0), &P0);
  Hist h; h.t0 = t0; h.dt = dt; int n = g.i(2200, 3000);
  for (int k = 1; k <= n; k++) { RefState s; s.t = t0 + k * dt; s.a = sg.a(k * dt); s.w = sg.w(k * dt); h.imu.push_back(s); }
  // truth: the same inputs integrated from a slightly different initial state
  Rig<S> scratch; RefState tr; tr.t = t0; tr.a = sg.a(0); tr.w = sg.w(0); tr.x = x0; tr.P = P0; tr.x[0] += randv(g, 0.03); tr.x[1] += randv(g, 0.03); tr.x[2] = fromq(toq(tr.x[2]) * qexp(randv(g, 0.01)));
  int every = g.i(4, 9);
  for (int k = 0; k < n; k++) {
    RefState nx; nx.t = h.imu[k].t; nx.a = h.imu[k].a; nx.w = h.imu[k].w; real_step(scratch, tr, nx); nx.P = P0;
    if (k >= 6 && k % every == 0) {
      double m = nx.t - (g.p(0.5) ? 0 : g.u(0.005, dt - 0.005)); int v = g.p(0.8) ? 0 : 1; double f = (m - tr.t) / (nx.t - tr.t);
      h.mt.push_back(m); h.var.push_back(v); h.z.push_back(V3(tr.x[v]) * (1 - f) + V3(nx.x[v]) * f + randv(g, 0.03)); h.sd.push_back(0.1);
    }
    tr = nx;
  }
  long applied = 0; std::vector<RefMeas> rm; size_t at = 0; auto hook = [&](M3m&, S&, bool after) { if (!after) applied++; };
  RefState r0 = rig.mgr.last_init; r0.P = P0; std::vector<int> late; long tries_old = 0;
  for (int k = 0; k < n; k++) {
    rig.feed(h.imu[k].t, h.imu[k].a, h.imu[k].w);
    while (at < h.mt.size() && h.mt[at] <= h.imu[k].t) {
      if (k < 6) { at++; continue; }
      int id = at++; rm.push_back(refmeas(h, id, N));
      if (g.p(0.15)) late.push_back(id);
      else rig.core.AddMeasurement(mkmeas(h, id, hook));
    }
    while (!late.empty() && (h.imu[k].t - h.mt[late.front()] > 1.0 || k == n - 1)) { rig.core.AddMeasurement(mkmeas(h, late.front(), hook)); late.erase(late.begin()); }
    if (k * dt > 63 + 104 * every * dt && g.p(0.01)) {  // older than what is kept
      long a0 = applied; RefState pre = snap(*rig.core.GetClosestState(h.imu[k].t));
      rig.core.AddMeasurement(simple(1 << 20, h.imu[0].t + 0.2 * g.u(), V3(3, 3, 3), 0.01, hook));
      RefState post = snap(*rig.core.GetClosestState(h.imu[k].t));
      if (applied != a0 || !same_bits(pre, post)) { violate("expired_applied", cat("a measurement ", h.imu[k].t - h.imu[0].t, " s old was still applied")); return; }
      tries_old++;
    }
  }
  RefFilter rf(rig.L); rf.nz = rig.mgr.nz; rf.step = [&](const RefState& a, RefState& b) { real_step(scratch, a, b); };
  if (kDriftFree >= 0) { int e = rig.L[kDriftFree].at_err; rf.augment = [e](VX& d) { d.segment(e, 3).setZero(); }; }
  rf.run(r0, h.imu, rm);
  RefState got = snap(*rig.core.GetClosestState(h.imu.back().t)); std::string what; double wd = cmpstates(got, rf.nodes.back(), rig.L, what);
  maxim("final_difference", wd); if (!(wd < 1e-6)) violate("estimate_differs", cat("after ", n * dt, " s and ", rm.size(), " measurements: ", what));
  // memory stays bounded: about a minute of states
  double keep_max = 62 + 104 * every * dt;  // trimmed at least every 102 measurements
  if (keep_max < n * dt) { SP old = rig.core.GetClosestState(h.imu.back().t - keep_max); if (old->time > 0) violate("buffer_not_trimmed", cat("states older than ", keep_max, " s are still kept")); count("trim_checked"); }
  { int hh = 0; for (int k = n - 1; k >= 0; k--) if (h.imu[k].t < h.imu.back().t - 55) { hh = k; break; } SP keep = rig.core.GetClosestState(h.imu[hh].t);
  if (!(keep->time == h.imu[hh].t)) violate("buffer_over_trimmed", "a state 55 s old is not available any more"); }
  count("long_runs"); count("old_rejected", tries_old); count("compared_with_batch"); nontrivial(); sigd(t0); sig(n); sample(cat(n * dt, " s, ", rm.size(), " measurements, final difference ", wd));
}
#endif

// ---------------------------------------------------------------- C13 ----------
// Operation over minutes: what the filter keeps alive. States are counted by weak pointers taken when they are
// published, measurements by a token held by each of them.
#if !defined(SELECT) || defined(W_soak)
static void soak(Rng& g, uint64_t idx) {
  Rig<S> rig; double dt = g.pick(std::vector<double>{0.03, 0.05, 0.08}), t0 = g.u(5, 50); MX P0 = randspd(g, N, 1e-3); std::vector<VX> x0 = rig.randvars(g, 0.01); x0[3].setZero(); x0[4].setZero();
  ImuGen sg(g, 0.3, 0.1); if (kDriftFree >= 0) { int at = rig.L[kDriftFree].at_err; rig.mgr.augment = [at](Mgr<S>::Err& e) { e.segment<3>(at).setZero(); }; }
  std::vector<std::pair<double, boost::weak_ptr<S> > > st; rig.mgr.on_prop = [&](const boost::shared_ptr<S>& s) { st.emplace_back(s->time, s); };
  struct Tok { double t; std::weak_ptr<int> w; }; std::vector<Tok> ms; int nid = 0;
  auto meas = [&](double t, V3 r, double sd) { std::shared_ptr<int> tok(new int(0)); ms.push_back({t, tok}); rig.core.AddMeasurement(simple(nid++, t, r, sd, [tok](M3m&, S&, bool) {})); };
  int mode = idx % 6; bool ext = idx / 6 % 3 == 2; const char* name[] = {"regular", "none", "late", "useless", "then_silent", "sparse"};
  // before initialisation nothing may pile up
  for (int k = 0; k < 200; k++) { rig.feed(t0 - 20 + k * dt, sg.a(0), sg.w(0)); meas(t0 - 20 + k * dt, V3(0, 0, 0), 1); }
  long live = 0; for (auto& m : ms) live += !m.w.expired(); if (live || !st.empty()) violate("kept_uninitialised", cat(live, " measurements kept before initialisation"));
  ms.clear();
  rig.init(t0, x0, sg.a(0), sg.w(0), &P0);
  int n = (int)(g.u(75, 160) / dt), every = g.i(2, 6); double t = t0; size_t maxs = 0, maxm = 0;
  for (int k = 1; k <= n; k++) {
    t = t0 + k * dt; if (ext) rig.imu.ProcessState(sg.a(k * dt), sg.w(k * dt), V3(x0[0]), V3(0, 0, 0), Qd(1, 0, 0, 0), true, t, k); else rig.feed(t, sg.a(k * dt), sg.w(k * dt));
    bool due = k % every == 0 && k > 6; if (mode == 5) due = k > 6 && g.p(0.01);
    if (mode == 4 && k * dt > 20) due = false;
    if (due && mode != 1) {
      if (mode == 3) { int w = g.i(0, 3); meas(w == 0 ? t - g.u(70, 500) : w == 1 ? NAN : w == 2 ? -g.u(0, 1e9) : INFINITY, V3(0, 0, 0), 1); }  // none of these can ever be used
      else { double mt = t - (mode == 2 ? g.p(0.1) ? g.u(0, 20) : g.u(0, 0.5) : 0); if (mt > t0 + 8 * dt) meas(mt, randv(g, 0.01), 0.5); }
    }
    if (k % 50 == 0) {
      double slack = 220 * dt, old_s = 0, old_m = 0; size_t ns = 0, nm = 0;
      for (auto& s : st) if (!s.second.expired()) { ns++; old_s = std::max(old_s, t - s.first); }
      double newest = -1e300; for (auto& m : ms) if (m.t <= t) newest = std::max(newest, m.t);
      for (auto& m : ms) if (!m.w.expired()) { nm++; if (mode == 3) { violate("useless_kept", cat("a measurement of time ", m.t, " that can never be used is kept at ", t)); return; } old_m = std::max(old_m, newest - m.t); }
      maxs = std::max(maxs, ns); maxm = std::max(maxm, nm); count("inspections");
      // one interpolated or interrupted state more does no harm; growth does
      if (old_s > 60 + slack) { violate("states_pile_up", cat("mode ", name[mode], ext ? " external" : "", ": a state ", old_s, " s old is still kept (", ns, " states)")); return; }
      if (old_m > 60 + slack + 25) { violate("measurements_pile_up", cat("mode ", name[mode], ": a measurement ", old_m, " s older than the newest one is still kept (", nm, ")")); return; }
      for (auto& s : st) if (t - s.first < 58 && t - s.first > dt && s.second.expired()) { violate("state_lost", cat("a state only ", t - s.first, " s old was dropped")); return; }
      for (auto& m : ms) if (mode != 3 && newest - m.t < 58 && t - m.t < 58 && m.w.expired()) { violate("measurement_lost", cat("a measurement only ", t - m.t, " s old was dropped")); return; }
      if (k * dt > 60 + slack) { count("inspections_after_a_minute"); count(cat("mode_", name[mode], ext ? "_external" : "")); }
    }
  }
  // a fresh start releases everything
  rig.init(t + 1, x0, sg.a(0), sg.w(0), &P0); size_t ls = 0, lm = 0; for (auto& s : st) ls += !s.second.expired(); for (auto& m : ms) lm += !m.w.expired();
  if (ls || lm) violate("kept_over_init", cat(ls, " states and ", lm, " measurements survive a new initialisation"));
  maxim("states_alive", maxs); maxim("measurements_alive", maxm); nontrivial(); sigd(t0); sig(mode); sample(cat(name[mode], ext ? " external, " : ", ", n * dt, " s, at most ", maxs, " states and ", maxm, " measurements alive"));
}
#endif

// ---------------------------------------------------------------- C12 ----------
#if !defined(SELECT) || defined(W_external)
static void external(Rng& g, uint64_t idx) {
  Rig<S> rig; double t0 = g.u(300, 900), dt = 0.01; MX P0 = randspd(g, N, 0.01); std::vector<VX> x0 = rig.randvars(g, 0.02); ImuGen sg(g, 1, 0.3);
  if (kDriftFree >= 0) { int at = rig.L[kDriftFree].at_err; rig.mgr.augment = [at](Mgr<S>::Err& e) { e.segment<3>(at).setZero(); }; }
  long p00 = rig.mgr.n_prop; rig.imu.ProcessState(V3(0, 0, 9), V3(0, 0, 0), V3(1, 2, 3), V3(0, 0, 0), Qd(1, 0, 0, 0), true, t0 - 1, 0);
  if (rig.mgr.n_prop != p00) violate("output_uninitialised", "external state produced output before initialisation");
  rig.init(t0, x0, sg.a(0), sg.w(0), &P0);
  RefState last = rig.mgr.last_init; last.a = sg.a(0); last.w = sg.w(0); bool first = true; double t = t0;
  Rig<S> scratch; std::string script; long napplied = 0; int ops = g.i(8, 40); double first_t = t0;
  // model: the states received, and which measurements were applied to each of them; a measurement is applied to the
  // state closest to it (within 1 ms, else one is interpolated), and everything after that is propagated on from there
  struct Mm { double t; V3 r; }; struct Node { RefState s; std::vector<Mm> m; }; std::vector<Node> nodes; std::vector<Mm> queue; std::vector<double> mts; long interp = 0;
  MX Hm = MX::Zero(3, N); Hm.leftCols(3).setIdentity(); MX Rm = MX::Identity(3, 3) * 0.09;
  auto upd = [&](Node& n, const V3& r) { RefFilter::update(n.s, rig.L, Hm, VX(r), Rm, 0, [&](VX& d) { if (kDriftFree >= 0) d.segment(rig.L[kDriftFree].at_err, 3).setZero(); }); };
  auto step = [&](const RefState& o, RefState& n) { scratch.mgr.nz = rig.mgr.nz; scratch.mgr.aux_q = rig.mgr.aux_q; real_step(scratch, o, n); };
  auto take = [&](double mt, V3 r) {
    size_t j = 0; for (size_t i = 1; i < nodes.size(); i++) if (std::fabs(nodes[i].s.t - mt) < std::fabs(nodes[j].s.t - mt)) j = i;
    if (std::fabs(nodes[j].s.t - mt) > 0.001) {
      size_t nx = 0; while (nodes[nx].s.t < mt) nx++;
      Node m; m.s.t = mt; const RefState &o = nodes[nx - 1].s, &e = nodes[nx].s; double f = (mt - o.t) / (e.t - o.t); m.s.a = o.a + (e.a - o.a) * f; m.s.w = o.w + (e.w - o.w) * f;
      step(o, m.s); nodes.insert(nodes.begin() + nx, m); j = nx; count("interpolated");
    }
    auto& ms = nodes[j].m; size_t at = ms.size(); while (at > 0 && ms[at - 1].t > mt) at--;
    bool anew = at < ms.size(); ms.insert(ms.begin() + at, {mt, r});
    if (anew) { step(nodes[j - 1].s, nodes[j].s); for (auto& x : ms) upd(nodes[j], x.r); count("applied_anew"); } else upd(nodes[j], r);
    for (size_t i = j + 1; i < nodes.size(); i++) { step(nodes[i - 1].s, nodes[i].s); for (auto& x : nodes[i].m) upd(nodes[i], x.r); if (i == nodes.size() - 1) count("updates_in_the_past"); }
  };
  auto same = [&](const char* when) {
    RefState now = snap(*rig.core.GetClosestState(last.t)); if (now.t != last.t) { violate("no_state", "newest state lost"); return false; }
    std::string what; double e = cmpstates(now, nodes.back().s, rig.L, what); maxim("update_difference", e);
    if (!(e <= 1e-6)) { violate("update_wrong", cat(when, ": ", what, " script ", script)); return false; }
    if (std::string(when) == "after an update" && (rig.mgr.last_upd.t != now.t || !same_bits(rig.mgr.last_upd, now))) violate("update_published_stale", "the published state is not the updated one");
    last = now; nodes.back().s = now; return true;
  };
  for (int k = 0; k < ops; k++) {
    if (g.p(0.25)) {   // measurement at, between, before or ahead of the states
      int how = g.i(0, 3); double mt = how == 0 ? last.t : how == 1 ? last.t - g.i(0, 3) * dt : how == 2 ? last.t - g.u(0, 8) * dt : last.t + g.u(0.1, 3) * dt;
      if (how == 1 && nodes.size() > 2) mt = nodes[g.i(1, nodes.size() - 1)].s.t;
      bool ok = true; for (auto& n : nodes) if (std::fabs(std::fabs(n.s.t - mt) - 0.001) < 2e-6) ok = false;  // rounding decides
      for (double o : mts) if (o != mt && std::fabs(o - mt) < 1e-5) ok = false;
      // a state interpolated for this one may be closer to another measurement than the state that one was applied to
      for (double o : mts) if (o != mt && std::fabs(o - mt) < 0.0021) ok = false;
      if (!first && mt < nodes[0].s.t + 0.0015 && mt >= nodes[0].s.t) ok = false;  // the very first state cannot be propagated anew
      if (!ok) continue;
      mts.push_back(mt);
      long a0 = napplied, u0 = rig.mgr.n_upd; V3 r = randv(g, 0.2); rig.core.AddMeasurement(simple(k, mt, r, 0.3, [&](M3m&, S&, bool after) { if (!after) napplied++; }));
      script += "maM"[mt > last.t ? 1 : 0];
      if (first) { if (napplied != a0) violate("update_before_prediction", "measurement applied before the first external state"); continue; }
      if (mt > last.t) { if (napplied != a0) violate("future_applied", "measurement ahead of the external states applied"); queue.push_back({mt, r}); continue; }
      if (mt < nodes[0].s.t) { if (napplied != a0 || rig.mgr.n_upd != u0) violate("too_old_applied", "a measurement older than all states had an effect"); count("too_old"); continue; }
      if (napplied == a0) { violate("update_missed", cat("covered measurement not applied with external propagation, ", last.t - mt, " s old")); return; }
      if (rig.mgr.n_upd != u0 + 1) violate("update_publish", "not published once"); count("updates");
      take(mt, r); if (!same("after an update")) return;
      continue;
    }
    double f = g.u(), ts = t + dt * g.u(0.8, 1.2); int kind = 0; bool prop = g.p(0.7);
    if (f < 0.08) { ts = t; kind = 1; } else if (f < 0.15) { ts = t - g.u(1e-6, 0.0095); kind = 2; } else if (f < 0.17) { ts = t - g.logu(0.0105, 5); kind = 3; } else if (f < 0.25 && first) { ts = t + (g.p(0.5) ? 1 : -1) * g.u(5.1, 40); kind = 4; } else if (f < 0.28) ts = t + g.u(0.02, 0.09);
    if (first && (kind >= 1 && kind <= 3)) { kind = 0; ts = t + dt; }
    V3 a = sg.a(t - t0), w = sg.w(t - t0), p = V3(last.x[0]) + randv(g, 0.05), v = V3(last.x[1]) + randv(g, 0.05); Qd q = (toq(last.x[2]) * qexp(randv(g, 0.02))).normalized();
    bool spike = g.p(0.06); if (spike) a = randv(g, 1).normalized() * g.logu(50.5, 1e5);
    bool bad = false; if (g.p(0.08) && prop) { bad = true; int wh = g.i(0, 2); if (wh == 0) p(g.i(0, 2)) = NAN; else if (wh == 1) v(g.i(0, 2)) = INFINITY; else q.x() = NAN; }
    long p0 = rig.mgr.n_prop, u0 = rig.mgr.n_upd; rig.imu.ProcessState(a, w, p, v, q, prop, ts, k); (void)u0;
    bool pub = rig.mgr.n_prop == p0 + 1; script += "ndbBg"[kind]; count(cat("ext_kind_", "ndbBg"[kind]));
    if (kind == 3) { if (pub) violate("out_of_order_published", "external state from the past produced output"); long q0 = rig.mgr.n_prop; rig.imu.ProcessState(a, w, p, v, q, prop, t + dt, k); if (rig.mgr.n_prop != q0) violate("output_after_reset", "output after a reset"); count("resets"); break; }
    if (kind == 1 || kind == 2) {
      if (pub) violate("stale_published", cat("external state ", t - ts, " s before the last one produced output"));
      RefState now = snap(*rig.core.GetClosestState(last.t)); for (size_t i = 0; i < now.x.size(); i++) if (now.x[i] != last.x[i]) violate("stale_changed_state", "stale external state changed the estimate");
      SP at = rig.core.GetStateAtTime(ts); if (at->time == ts && !(at->P.trace() > 0)) violate("stale_zero_covariance", "a stale external state left a state without covariance");
      count("stale_ignored"); continue;
    }
    if (kind == 4) { if (pub) violate("gap_published", "gap before the first external state was propagated");
      RefState now = snap(*rig.core.GetStateAtTime(ts)); if (now.t != ts) { violate("gap_not_retimed", cat("a gap of ", ts - t, " s before the first external state left no state at the new time")); return; }
      for (size_t i = 0; i < now.x.size(); i++) if (now.x[i] != last.x[i]) violate("gap_changed_state", cat("a gap of ", ts - t, " s changed variable ", i));
      t = ts; last.t = ts; first_t = ts; count("gap_retimed"); continue; }
    if (!pub) { violate("external_lost", cat("valid external state produced no output; script ", script)); return; }
    RefState got = rig.mgr.last_prop; if (got.t != ts) { violate("published_time", "published state has a wrong time"); return; }
    if (spike) { count("spikes"); if (!(got.a.norm() <= 50)) violate("spike_taken", cat("an acceleration of ", a.norm(), " m/s2 in an external state message was used")); a = got.a; }
    else if (got.a != a) violate("reading_changed", "a normal acceleration reading was altered");
    RefState n; n.t = ts; n.a = a; n.w = w;
    if (prop && !bad) {
      n.x = last.x; n.x[0] = VX(p); n.x[1] = VX(v); n.x[2] = fromq(q);
    } else { ref_prop_mean(last, n); }
    for (size_t i = 0; i < n.x.size(); i++) { double tol = (prop && !bad) ? 1e-12 : 1e-7; if (!((got.x[i] - n.x[i]).norm() <= tol * (1 + n.x[i].norm()))) violate(prop && !bad ? "external_not_taken" : "external_not_propagated", cat("variable ", i, " off by ", (got.x[i] - n.x[i]).norm(), bad ? " (non-numeric message)" : "", " script ", script)); }
    if (!first) { // covariance transported over the interval from the previous state
      SP A(new S), B(new S); setvars(*A, last.x); A->time = last.t; A->a_m = last.a; A->w_m = last.w; A->P = last.P; setvars(*B, got.x); B->time = ts; B->a_m = a; B->w_m = w;
      scratch.mgr.nz = rig.mgr.nz; scratch.core.PredictProcessCovariance(A, B);
      double e = (got.P - MX(B->P)).cwiseAbs().maxCoeff() / B->P.cwiseAbs().maxCoeff(); if (!(e <= 1e-9)) violate("external_covariance", cat("covariance off by ", e, " (relative)"));
    } else { double e = (got.P - P0).cwiseAbs().maxCoeff() / P0.cwiseAbs().maxCoeff(); if (!(e <= 1e-9)) violate("external_first_covariance", cat("initial covariance lost at the first external state, ", e)); first_t = ts; nodes.clear(); queue.clear(); mts.clear(); napplied = 0; }
    if (bad) count("nonnumeric_external"); else count(prop ? "external_taken" : "external_propagated_here");
    first = false; last = got; t = ts; { Node n; n.s = got; nodes.push_back(n); }
    // one pending measurement is looked at per message
    if (!queue.empty()) {
      Mm m = queue.front(); queue.erase(queue.begin());
      if (m.t > ts) { queue.push_back(m); if (rig.mgr.n_upd != u0) violate("future_applied", "measurement ahead of the external states applied"); }
      else { if (rig.mgr.n_upd != u0 + 1) { violate("pending_lost", cat("a pending measurement was not applied once it was covered, script ", script)); return; } take(m.t, m.r); count("pending_applied"); if (!same("after an update")) return; }
    } else if (rig.mgr.n_upd != u0) violate("spurious_update", "an update without a measurement");
    else if (!same("after a message")) return;
  }
  nontrivial(); for (char c : script) vf::sig((uint64_t)c); sigd(t0); sample(cat("script ", script));
}
#endif

// ---------------------------------------------------------------- C14 ----------
#if !defined(SELECT) || defined(W_fixed_states)
static void fixed_states(Rng& g, uint64_t idx) {
  Rig<S> rig; MX P0 = randspd(g, N, 0.02); bool fix = idx % 2; rig.mgr.fixed_bias = fix;
  std::vector<int> frozen; for (int v = 5; v < (int)rig.L.size(); v++) if (g.p(0.4)) frozen.push_back(v);
  auto L = rig.L; rig.mgr.augment = [&frozen, L](Mgr<S>::Err& e) { for (int v : frozen) e.segment(L[v].at_err, L[v].err).setZero(); };
  std::vector<RefState> r = bringup(g, rig, 6, 0.01, &P0);
  for (int k = 0; k < 8; k++) {
    RefState nx = r.back(); nx.t += 0.01; rig.feed(nx.t, nx.a, nx.w); r.push_back(nx);
    typedef ProbeMeas<S, 6> Me; boost::shared_ptr<Me> m(new Me(k, nx.t)); for (int i = 0; i < 6; i++) for (int j = 0; j < N; j++) m->H(i, j) = g.p(0.3) ? g.n() : 0; for (int i = 0; i < 6; i++) m->H(i, g.next() % N) = 1;
    m->R() = randspd(g, 6, 0.05); Eigen::Matrix<double, 6, 1> res; for (int i = 0; i < 6; i++) res(i) = 0.1 * g.n(); m->residual = [res](const S&) { return res; };
    RefState pre, post; m->hook = [&](Me&, S& s, bool after) { (after ? post : pre) = snap(s); };
    rig.core.AddMeasurement(m); if (post.x.empty()) { violate("not_applied", "measurement not applied"); return; }
    for (int v : frozen) if (!((post.x[v] - pre.x[v]).norm() <= (rig.L[v].quat ? 1e-14 : 0))) violate("frozen_changed", cat("a held-fixed variable (", v, ") changed in an update"));
    for (int v = 3; v <= 4; v++) { if (fix && post.x[v] != pre.x[v]) violate("fixed_bias_changed", cat("fixed bias (variable ", v, ") changed in an update")); if (!fix && post.x[v] == pre.x[v]) violate("bias_not_updated", cat("bias (variable ", v, ") not corrected although it is not fixed")); }
    RefState ref = pre; RefFilter::update(ref, rig.L, MX(m->H), VX(res), MX(m->R()), 0, [&](VX& d) { if (fix) d.segment(9, 6).setZero(); for (int v : frozen) d.segment(L[v].at_err, L[v].err).setZero(); });
    std::string what; double e = post_err(post, ref, pre, rig.L, what); if (!(e <= 1)) violate("free_states_wrong", cat("update with fixed states: ", what));
    count("fixed_updates");
  }
  nontrivial(); for (int v : frozen) vf::sig(v); sigd(r[0].a(0)); sample(cat("fixed bias ", fix, ", ", frozen.size(), " frozen variables"));
}
#endif
// Safeguard: once 30 updates have been seen, an update that throws the drift-free frame rotation off the
// median of the last 30 accepted ones does not alter any of the non-propagated states. Exact model: the ring of
// accepted rotations is kept here, the decision is demanded except within 0.2 % of the threshold.
#if !defined(SELECT) || defined(W_fuzzy)
static void fuzzy(Rng& g, uint64_t idx) {
  Rig<S> rig; MX P0 = randspd(g, N, 1e-4); const int dv = kDriftFree; const double thr = 0.1;
  std::vector<VX> x0 = rig.randvars(g, 0.02); double dt = 0.01, t = 10; ImuGen sg(g, 1, 0.2); rig.init(t, x0, sg.a(0), sg.w(0), &P0);
  for (int k = 0; k < 6; k++) { t += dt; rig.feed(t, sg.a(t), sg.w(t)); }
  typedef ProbeMeas<S, 6> Me; long applied = 0; std::string script; int epochs = g.p(0.5) ? 2 : 1;
  for (int ep = 0; ep < epochs; ep++) {
    if (ep) {  // a new initialisation starts with another frame rotation and an empty history
      x0 = rig.randvars(g, 0.02); t += g.u(0.5, 2); rig.init(t, x0, sg.a(0), sg.w(0), &P0); count("initialisations"); script += 'I';
      for (int k = 0; k < 6; k++) { t += dt; rig.feed(t, sg.a(t), sg.w(t)); }
    }
    int total = g.i(25, ep ? 90 : 130); std::vector<Qd> ring; size_t at = 0;
    Qd base = dv >= 0 ? toq(x0[dv]) : Qd(1, 0, 0, 0); double step = g.pick(std::vector<double>{0.0005, 0.003, 0.01, 0.02}), pj = g.u(0.1, 0.5); V3 trend = randv(g, g.p(0.5) ? 0.004 : 0); double early = g.pick(std::vector<double>{0, 0.2, 0.6});
    for (int k = 0; k < total; k++) {
      t += dt; rig.feed(t, sg.a(t), sg.w(t)); const bool armed = dv >= 0 && (int)ring.size() >= 30;
      Qd med(1, 0, 0, 0);
      if (armed) { Eigen::Vector4d c; for (int j = 0; j < 4; j++) { std::vector<double> s; for (auto& q : ring) s.push_back(q.coeffs()(j)); std::sort(s.begin(), s.end()); c(j) = s[15]; } med.coeffs() = c; }
      Qd target; bool jump = false; double mag = 0;
      if (g.p(0.05)) trend = randv(g, 0.004);
      if (armed && g.p(pj)) {
        V3 e = randv(g, 1); e /= e.cwiseAbs().maxCoeff(); mag = thr * (g.p(0.7) ? 1 + (g.p(0.5) ? 1 : -1) * g.logu(3e-3, 0.4) : g.u(1.5, 6)); jump = true;
        Qd eq(1, e(0) * mag / 2, e(1) * mag / 2, e(2) * mag / 2); target = (med.normalized() * eq.normalized().conjugate()).normalized();
      } else { base = (base * qexp(randv(g, step) + trend)).normalized(); target = base; if (!armed && g.p(early)) target = (base * qexp(randv(g, 0.3))).normalized(); }
      boost::shared_ptr<Me> m(new Me(k, t)); m->R().setIdentity(); m->R() *= 1e-6;
      RefState pre, post; Eigen::Matrix<double, 6, 1> res; res.setZero();
      // rows 0-2 move position, rows 3-5 the drift-free rotation by (almost) exactly the residual
      m->H.setZero(); m->H.leftCols<3>().topRows<3>().setIdentity(); if (dv >= 0) m->H.block<3, 3>(3, rig.L[dv].at_err).setIdentity();
      res.head<3>() = randv(g, 0.01);
      m->custom = [&](Me& me, SP s, msf_core::MSF_Core<S>& core) {
        // nothing is known about the frame rotation, so that the correction equals the residual
        if (dv >= 0) { s->P.block(rig.L[dv].at_err, 0, 3, N).setZero(); s->P.block(0, rig.L[dv].at_err, N, 3).setZero(); s->P.block(rig.L[dv].at_err, rig.L[dv].at_err, 3, 3) = Eigen::Matrix3d::Identity();
          Qd d = toq(getvars(*s)[dv]).conjugate() * target; if (d.w() < 0) d.coeffs() = -d.coeffs(); res.tail<3>() = 2 * d.vec(); }
        pre = snap(*s); me.residual = [&](const S&) { return res; }; return false; };
      m->residual = [&](const S&) { return res; };
      m->hook = [&](Me&, S& s, bool after) { if (after) { post = snap(s); applied++; } };
      rig.core.AddMeasurement(m);
      if (post.x.empty()) { violate("not_applied", "measurement not applied"); return; }
      RefState ref = pre; RefFilter::update(ref, rig.L, MX(m->H), VX(res), MX(m->R()), 0, nullptr);
      bool held = dv >= 0; for (size_t v = 3; v < rig.L.size(); v++) if (post.x[v] != pre.x[v]) held = false;
      for (int v = 0; v < 3; v++) if (!((ref_minus(post.x, ref.x, rig.L).segment(rig.L[v].at_err, 3)).norm() < 1e-6)) violate("propagated_state_wrong", cat("propagated variable ", v, " not corrected as in a normal update"));
      bool must_hold = false, may_hold = false; double off = 0;
      if (armed) {
        Qd e = toq(ref.x[dv]).conjugate() * med; off = 2 * e.vec().cwiseAbs().maxCoeff() / std::fabs(e.w()); double mv = res.tail<3>().norm(), z = 2e-3 * thr + 0.05 * mv * mv * mv;
        must_hold = off > thr + z; may_hold = off > thr - z;
        if (std::fabs(off - thr) < 0.1 * thr && must_hold == may_hold) count(must_hold ? "just_above" : "just_below");
      }
      if (must_hold && !held) violate("fuzzy_not_held", cat("update ", k, " put the drift-free rotation ", off, " rad off the median of the last 30 and was not held back"));
      if (held && !armed) violate("fuzzy_too_early", cat("update ", k, " was held back before 30 updates had been seen"));
      else if (held && !may_hold) violate("fuzzy_false_trigger", cat("update ", k, " put the drift-free rotation only ", off, " rad off the median of the last 30, but was held back"));
      if (!held) { std::string what; double pe = post_err(post, ref, pre, rig.L, what); if (!(pe <= 100)) violate("normal_update_wrong", what); }
      if (armed) { count(held ? "jumps_after_30" : "normal_updates_after_30"); } else count("updates_before_30");
      if (dv >= 0 && !held) { Qd q = toq(post.x[dv]); if (ring.size() < 30) ring.push_back(q); else { ring[at] = q; at = (at + 1) % 30; } }
      script += held ? 'J' : jump ? 'j' : '.';
    }
  }
  nontrivial(); for (char c : script) vf::sig((uint64_t)c); sigd(x0[0](0)); sample(script);
}
#endif
#ifndef NOMAIN
int main(int argc, char** argv) {
  std::vector<Suite> su;
#if !defined(SELECT) || defined(W_prop_mean)
  su.push_back({"prop_mean", prop_mean});
#endif
#if !defined(SELECT) || defined(W_prop_cov)
  su.push_back({"prop_cov", prop_cov});
#endif
#if !defined(SELECT) || defined(W_history)
  su.push_back({"history", history});
#endif
#if !defined(SELECT) || defined(W_update)
  su.push_back({"update", update});
#endif
#if !defined(SELECT) || defined(W_relative)
  su.push_back({"relative", relative});
#endif
#if !defined(SELECT) || defined(W_prevmeas)
  su.push_back({"prevmeas", prevmeas});
#endif
#if !defined(SELECT) || defined(W_imu_faults)
  su.push_back({"imu_faults", imu_faults});
#endif
#if !defined(SELECT) || defined(W_soak)
  su.push_back({"soak", soak});
#endif
#if !defined(SELECT) || defined(W_sched_edges)
  su.push_back({"sched_edges", sched_edges});
#endif
#if !defined(SELECT) || defined(W_longrun)
  su.push_back({"longrun", longrun});
#endif
#if !defined(SELECT) || defined(W_external)
  su.push_back({"external", external});
#endif
#if !defined(SELECT) || defined(W_fixed_states)
  su.push_back({"fixed_states", fixed_states});
#endif
#if !defined(SELECT) || defined(W_fuzzy)
  su.push_back({"fuzzy", fuzzy});
#endif
  return run(argc, argv, su);
}
#endif
