// State definitions of many shapes against layouts written out by hand: sizes,
// index tables, corrections, copies, resets, messages, initial values.
#include "common.h"
#include <ros/ros.h>
#include <msf_core/msf_core.h>
#include <msf_core/msf_sensormanager.h>
#include <boost/fusion/container.hpp>
#define V_(N) Eigen::Matrix<double, N, 1>
#define Q_ Eigen::Quaternion<double>
namespace mc = msf_core;
using mc::StateVar_T;
#define CORE5 StateVar_T<V_(3), p, mc::CoreStateWithPropagation>, StateVar_T<V_(3), v, mc::CoreStateWithPropagation>, StateVar_T<Q_, q, mc::CoreStateWithPropagation>, StateVar_T<V_(3), b_w, mc::CoreStateWithoutPropagation>, StateVar_T<V_(3), b_a, mc::CoreStateWithoutPropagation>
namespace plain { enum Def { p, v, q, b_w, b_a }; typedef boost::fusion::vector<CORE5> Seq; typedef mc::GenericState_T<Seq, Def> S; }
namespace mixed {
enum Def { p, v, q, b_w, b_a, a1, a2, a3, a4, a5, a6, a7 };
typedef boost::fusion::vector<CORE5, StateVar_T<V_(1), a1, mc::Auxiliary>, StateVar_T<Q_, a2, mc::Auxiliary>, StateVar_T<V_(2), a3, mc::AuxiliaryNonTemporalDrifting>, StateVar_T<Q_, a4, mc::AuxiliaryNonTemporalDrifting>, StateVar_T<V_(6), a5>, StateVar_T<V_(3), a6, mc::AuxiliaryNonTemporalDrifting>, StateVar_T<Q_, a7> > Seq;
typedef mc::GenericState_T<Seq, Def> S;
}
namespace mult {
enum Def { p, v, q, b_w, b_a, a1, a2, a3 };
typedef boost::fusion::vector<CORE5, StateVar_T<V_(3), a1, mc::Auxiliary, mc::correctionMultiplicative>, StateVar_T<V_(1), a2, mc::Auxiliary>, StateVar_T<V_(2), a3, mc::AuxiliaryNonTemporalDrifting, mc::correctionMultiplicative> > Seq;
typedef mc::GenericState_T<Seq, Def> S;
}
namespace quats {
enum Def { p, v, q, b_w, b_a, a1, a2, a3, a4 };
typedef boost::fusion::vector<CORE5, StateVar_T<Q_, a1, mc::AuxiliaryNonTemporalDrifting>, StateVar_T<V_(3), a2, mc::AuxiliaryNonTemporalDrifting>, StateVar_T<Q_, a3, mc::AuxiliaryNonTemporalDrifting>, StateVar_T<V_(4), a4, mc::AuxiliaryNonTemporalDrifting> > Seq;
typedef mc::GenericState_T<Seq, Def> S;
}
namespace odd {  // not the usual core at all
enum Def { x0, x1, x2, x3, x4, x5 };
typedef boost::fusion::vector<StateVar_T<V_(2), x0, mc::CoreStateWithPropagation>, StateVar_T<Q_, x1, mc::CoreStateWithoutPropagation>, StateVar_T<V_(5), x2, mc::CoreStateWithoutPropagation>, StateVar_T<Q_, x3, mc::CoreStateWithPropagation>, StateVar_T<V_(7), x4, mc::Auxiliary>, StateVar_T<V_(1), x5, mc::AuxiliaryNonTemporalDrifting> > Seq;
typedef mc::GenericState_T<Seq, Def> S;
}
#include "core_util.h"
using namespace vf;

enum Kind { CP, CN, AX, ND };
struct Spec { bool quat; int n; Kind k; bool mult; };
static const Spec P{false, 3, CP, false}, V{false, 3, CP, false}, QQ{true, 4, CP, false}, BW{false, 3, CN, false}, BA{false, 3, CN, false};
static Spec ve(int n, Kind k = AX, bool m = false) { return {false, n, k, m}; }
static Spec qu(Kind k = AX) { return {true, 4, k, false}; }
static int err(const Spec& s) { return s.quat ? 3 : s.n; }

template<class S> struct Layout {
  typedef typename S::StateSequence_T Seq;
  enum { N = S::nErrorStatesAtCompileTime, NV = S::nStateVarsAtCompileTime };
  std::string name; std::vector<Spec> L; std::vector<int> ae, as; int ne = 0, ns = 0, nc = 0, nce = 0, np = 0, npe = 0; bool usual;
  Layout(const char* n, std::vector<Spec> l, bool u = true) : name(n), L(l), usual(u) {
    for (auto& s : L) { ae.push_back(ne); as.push_back(ns); ne += err(s); ns += s.n; if (s.k == CP || s.k == CN) { nc += s.n; nce += err(s); } if (s.k == CP) { np += s.n; npe += err(s); } }
  }
  void bad(const char* k, const std::string& d) const { violate(cat("layout_", k), cat(name, ": ", d)); }
  // per-index compile-time tables
  template<int I> void tables() const {
    if constexpr (I < NV) {
      auto c = [&](const char* k, int got, int want) { if (got != want) bad(k, cat("variable ", I, ": ", got, " expected ", want)); };
      c("index_error", msf_tmp::GetStateIndexInErrorState<Seq, I>::value, ae[I]);
      c("index_correction", msf_tmp::GetStartIndexInCorrection<Seq, I>::value, ae[I]);
      c("index_state", msf_tmp::GetStateIndexInState<Seq, I>::value, as[I]);
      count("index_entries", 3); tables<I + 1>();
    }
  }
  template<int I> void clearcross(Rng& g) const {
    if constexpr (I < NV) {
      S s; s.P = randspd(g, N, 1); MX b = s.P; s.template ClearCrossCov<I>(); int o = ae[I], n = err(L[I]);
      for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) { bool ri = r >= o && r < o + n, ci = c >= o && c < o + n; double want = ri != ci ? 0 : b(r, c); if (s.P(r, c) != want) { bad("clear_cross", cat("variable ", I, " entry ", r, ",", c, " ", s.P(r, c), " expected ", want)); r = N; break; } }
      count("cross_cleared"); clearcross<I + 1>(g);
    }
  }
  std::vector<VX> rnd(Rng& g) const { std::vector<VX> x; for (auto& s : L) { if (s.quat) x.push_back(fromq(randq(g))); else { VX v(s.n); for (int i = 0; i < s.n; i++) v(i) = g.n() * 3; x.push_back(v); } } return x; }
  static bool same(const std::vector<VX>& a, const std::vector<VX>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
  template<int I> void access(S& s, const std::vector<VX>& x, Rng& g) const {
    if constexpr (I < NV) {
      const S& c = s; typedef typename std::decay<decltype(boost::fusion::at_c<I>(s.statevars).state_)>::type T;
      auto rd = [](const T& t) { if constexpr (std::is_same<T, Q_>::value) return fromq(t); else return VX(t); };
      if (!(rd(c.template Get<I>()) == x[I]) || !(rd(c.template GetStateVariable<I>().state_) == x[I])) bad("get", cat("variable ", I));
      T n; if constexpr (std::is_same<T, Q_>::value) n = randq(g); else for (int i = 0; i < n.size(); i++) n(i) = g.n();
      std::vector<VX> want = getvars(s); want[I] = rd(n); s.template Set<I>(n); if (!same(getvars(s), want)) bad("set", cat("variable ", I));
      if (L[I].k == AX || L[I].k == ND) { int m = err(L[I]); MX q = randspd(g, m, 1); s.template GetQBlock<I>() = q; if (!(MX(boost::fusion::at_c<I>(s.statevars).Q) == q)) bad("qblock", cat("variable ", I)); if (!(MX(c.template GetQBlock<I>()) == q)) bad("qblock_const", cat("variable ", I)); }
      count("accesses"); access<I + 1>(s, x, g);
    }
  }
  struct Visit : mc::StateVisitor<S> { mutable int n = 0; virtual void ResetState(S& s) const { n++; s.time = 42; } };
  void run(Rng& g) const {
    auto c = [&](const char* k, long got, long want) { if (got != want) bad(k, cat(got, " expected ", want)); };
    c("vars", NV, L.size()); c("states", S::nStatesAtCompileTime, ns); c("error_states", N, ne); c("core_states", S::nCoreStatesAtCompileTime, nc); c("core_error_states", S::nCoreErrorStatesAtCompileTime, nce); c("propagated_states", S::nPropagatedCoreStatesAtCompileTime, np); c("propagated_error_states", S::nPropagatedCoreErrorStatesAtCompileTime, npe);
    if (N != ne || NV != (int)L.size()) return;
    tables<0>();
    // the state without temporal drift: a quaternion if there is one
    { int b = msf_tmp::IndexOfBestNonTemporalDriftingState<Seq>::value; bool anyq = false, any = false; for (auto& s : L) if (s.k == ND) { any = true; anyq |= s.quat; }
      if (!any ? b != -1 : !(b >= 0 && b < (int)L.size() && L[b].k == ND && (L[b].quat || !anyq))) bad("nondrifting", cat("index ", b)); }
    S s;
    { std::vector<std::tuple<int, int, int> > v; s.CalculateIndicesInErrorState(v); if (v.size() != L.size()) bad("indices", cat(v.size(), " entries")); else for (size_t i = 0; i < L.size(); i++) if (std::get<0>(v[i]) != (int)i || std::get<1>(v[i]) != ae[i] || std::get<2>(v[i]) != err(L[i])) bad("indices", cat("variable ", i, ": ", std::get<0>(v[i]), ",", std::get<1>(v[i]), ",", std::get<2>(v[i]))); }
    // a fresh state
    auto zero = [&](const S& t, const char* w) { auto x = getvars(t); for (size_t i = 0; i < L.size(); i++) { VX z = VX::Zero(L[i].n); if (L[i].quat) z(0) = 1; if (!(x[i] == z)) bad(w, cat("variable ", i, " = ", x[i].transpose())); } if (!(t.P.norm() == 0) || !(t.w_m.norm() == 0) || !(t.a_m.norm() == 0)) bad(w, "covariance or readings not zero"); };
    zero(s, "fresh");
    auto x = rnd(g); setvars(s, x); s.P = randspd(g, N, 1); s.a_m = randv(g, 1); s.w_m = randv(g, 1); s.time = g.u(1, 1000);
    if (!same(getvars(S(s)), x)) bad("copy", "copied state differs");
    // as a message and as a vector
    sensor_fusion_comm::DoubleArrayStamped m; if (g.p(0.5)) m.data.assign(g.i(0, 60), 7); s.ToFullStateMsg(m); VX full(ns); for (size_t i = 0; i < L.size(); i++) full.segment(as[i], L[i].n) = x[i];
    if ((int)m.data.size() != ns) bad("full_message", "size"); else for (int i = 0; i < ns; i++) if (m.data[i] != full(i)) { bad("full_message", cat("entry ", i)); break; }
    sensor_fusion_comm::DoubleArrayStamped mc_; s.ToCoreStateMsg(mc_); if ((int)mc_.data.size() != nc) bad("core_message", "size"); else for (int i = 0; i < nc; i++) if (mc_.data[i] != full(i)) { bad("core_message", cat("entry ", i)); break; }
    VX ev = s.ToEigenVector(); if (ev.size() != nc || !(ev == full.head(nc))) bad("core_vector", cat(ev.transpose()));
    { sensor_fusion_comm::DoubleMatrixStamped a, b, d; s.GetCoreCovariance(a); s.GetAuxCovariance(b); s.GetCoreAuxCovariance(d);
      auto cmp = [&](const sensor_fusion_comm::DoubleMatrixStamped& w, int r0, int r, int c0, int cc, const char* k) { if ((int)w.rows != r || (int)w.cols != cc || (int)w.data.size() != r * cc) { bad(k, "size"); return; } for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) if (w.data[i * cc + j] != s.P(r0 + i, c0 + j)) { bad(k, cat("entry ", i, ",", j)); return; } };
      cmp(a, 0, nce, 0, nce, "core_covariance"); cmp(b, nce, ne - nce, nce, ne - nce, "aux_covariance"); cmp(d, 0, nce, nce, ne - nce, "core_aux_covariance"); }
    // printed form: one line per variable with its range and values
    { std::stringstream ss(s.Print()); std::string line; std::vector<std::string> rows; while (std::getline(ss, line)) rows.push_back(line); size_t k = 1; for (size_t i = 0; i < L.size(); i++, k++) { std::string want = cat("[", as[i], "-", as[i] + L[i].n - 1, "]"); if (k >= rows.size() || rows[k].find(want) == std::string::npos || atoi(rows[k].c_str()) != (int)i) { bad("print", cat("variable ", i, " line ", k < rows.size() ? rows[k] : "")); break; }
        std::string t = rows[k].substr(rows[k].rfind(':') + 1); for (char& ch : t) if (!strchr("0123456789.e+-", ch)) ch = ' '; std::stringstream rs(t); double d; int j = 0; while (rs >> d && j < L[i].n) { if (std::fabs(d - x[i](j)) > 1e-3 * (1 + std::fabs(x[i](j)))) bad("print_value", rows[k]); j++; } if (j != L[i].n) bad("print_value", rows[k]); } }
    // corrections
    { S t = s; VX d(N); double sc = g.pick(std::vector<double>{1e-6, 1e-2, 0.3, 3}); for (int i = 0; i < N; i++) d(i) = g.n() * sc; if (g.p(0.1)) d.setZero(); t.Correct(d); auto y = x;
      for (size_t i = 0; i < L.size(); i++) { if (L[i].quat) { V3 th = d.segment(ae[i], 3); double q2 = th.squaredNorm() / 4; Qd dq = q2 < 1 ? Qd(std::sqrt(1 - q2), th.x() / 2, th.y() / 2, th.z() / 2) : Qd(1, th.x() / 2, th.y() / 2, th.z() / 2).normalized(); y[i] = fromq((toq(x[i]) * dq).normalized()); } else if (L[i].mult) y[i] = x[i].cwiseProduct(d.segment(ae[i], L[i].n)); else y[i] = x[i] + d.segment(ae[i], L[i].n); }
      auto z = getvars(t); for (size_t i = 0; i < L.size(); i++) if (!((z[i] - y[i]).norm() <= 1e-13 * (1 + y[i].norm()))) bad(L[i].quat ? "correct_rotation" : L[i].mult ? "correct_multiplicative" : "correct_vector", cat("variable ", i, " ", z[i].transpose(), " expected ", y[i].transpose()));
      if (!(t.P == s.P)) bad("correct_covariance", "covariance changed"); count("corrections"); }
    clearcross<0>(g); { S t = s; access<0>(t, x, g); }
    // copies between states
    S o; auto ox = rnd(g); setvars(o, ox); boost::fusion::for_each(o.statevars, [&](auto& sv) { for (int i = 0; i < sv.Q.rows(); i++) for (int j = 0; j < sv.Q.cols(); j++) sv.Q(i, j) = g.n(); });
    auto Qs = [](const S& t) { std::vector<MX> r; boost::fusion::for_each(const_cast<S&>(t).statevars, [&](auto& sv) { r.push_back(MX(sv.Q)); }); return r; };
    { S t = s; boost::fusion::for_each(t.statevars, msf_tmp::CopyNonPropagationStates<S>(o)); auto y = getvars(t); auto q = Qs(t), qo = Qs(o), qs = Qs(s); for (size_t i = 0; i < L.size(); i++) { bool cp = L[i].k != CP; if (!(y[i] == (cp ? ox[i] : x[i])) || !(q[i] == (cp ? qo[i] : qs[i]))) bad("copy_nonpropagated", cat("variable ", i)); } count("copies"); }
    { std::vector<bool> has; boost::fusion::for_each(o.statevars, [&](auto& sv) { sv.hasResetValue = g.p(0.5); has.push_back(sv.hasResetValue); }); S t = s; boost::fusion::for_each(t.statevars, msf_tmp::CopyInitStates<S>(o)); auto y = getvars(t); for (size_t i = 0; i < L.size(); i++) if (!(y[i] == (has[i] ? ox[i] : x[i]))) bad("copy_initial", cat("variable ", i)); count("copies"); }
    { typename S::Q_type q; for (int i = 0; i < N * N; i++) q(i / N, i % N) = g.n(); MX w = q; boost::fusion::for_each(o.statevars, msf_tmp::CopyQBlocksFromAuxiliaryStatesToQ<Seq>(q)); auto qo = Qs(o); for (size_t i = 0; i < L.size(); i++) if (L[i].k == AX || L[i].k == ND) w.block(ae[i], ae[i], err(L[i]), err(L[i])) = qo[i]; if (!(MX(q) == w)) bad("copy_noise", cat("largest difference ", (MX(q) - w).cwiseAbs().maxCoeff())); count("copies"); }
    // numeric check of the core part
    { S t = s; std::streambuf* e = std::cerr.rdbuf(nullptr); bool ok = t.CheckStateForNumeric(); int i = g.i(0, (int)L.size() - 1); auto y = x; y[i](g.i(0, L[i].n - 1)) = g.p(0.5) ? NAN : g.p(0.5) ? INFINITY : -INFINITY; setvars(t, y); bool nok = t.CheckStateForNumeric(); std::cerr.rdbuf(e); std::cerr.clear(); if (!ok) bad("numeric", "finite state reported as not numeric"); if ((L[i].k == CP || L[i].k == CN) && nok) bad("numeric", cat("non-finite variable ", i, " reported as numeric")); }
    // reset
    { S t = s; t.Reset(); zero(t, "reset"); if (t.time != 0) bad("reset_time", cat(t.time)); Visit v; t = s; t.Reset(&v); zero(t, "reset"); if (v.n != 1 || t.time != 42) bad("reset_visitor", cat(v.n, " calls")); count("resets"); }
    initial(g, x); nontrivial(); sigd(x[0](0)); for (char ch : name) sig(ch);
  }
  // initial values of a measurement: set, read back, withdrawn
  template<int I> void inits(mc::MSF_InitMeasurement<S>& m, const std::vector<VX>& x, std::vector<int>& st, Rng& g) const {
    if constexpr (I < NV) {
      typedef typename std::decay<decltype(boost::fusion::at_c<I>(std::declval<S&>().statevars).state_)>::type T;
      const mc::MSF_InitMeasurement<S>& cm = m; auto rd = [](const T& t) { if constexpr (std::is_same<T, Q_>::value) return fromq(t); else return VX(t); };
      int what = g.i(0, 2); st.push_back(what);
      if (what) { T t; if constexpr (std::is_same<T, Q_>::value) t = toq(x[I]); else t = x[I]; m.template SetStateInitValue<I>(t); if (!(rd(cm.template GetStateInitValue<I>()) == x[I])) bad("init_get", cat("variable ", I)); }
      if (what == 2) m.template ResetStateInitValue<I>();
      inits<I + 1>(m, x, st, g);
    }
  }
  void initial(Rng& g, const std::vector<VX>& x) const {
    if (g.p(0.7)) return;
    bool rd = g.p(0.5); boost::shared_ptr<mc::MSF_InitMeasurement<S> > m(new mc::MSF_InitMeasurement<S>(rd)); std::vector<int> st; inits<0>(*m, x, st, g); count("init_values");
    through_core(m, x, st, g);
  }
  void through_core(boost::shared_ptr<mc::MSF_InitMeasurement<S> > m, const std::vector<VX>& x, const std::vector<int>& st, Rng& g) const {
    if constexpr (std::is_same<S, plain::S>::value || std::is_same<S, mixed::S>::value) {
      Rig<S> r; m->time = 1000; V3 a = randv(g, 3), w = randv(g, 1); m->Geta_m() = a; m->Getw_m() = w; MX P; int pk = g.i(0, 2); const int NE = S::nErrorStatesAtCompileTime; if (pk) { P = randspd(g, NE, 0.1); if (pk == 2) { P = MX(P.diagonal().asDiagonal()); if (g.p(0.5)) P(g.i(0, NE - 1), 0) = 0; } m->GetStateCovariance() = P; } else { S tmp; r.core.SetPCore(tmp.P); P = tmp.P; }
      std::streambuf* o = std::cout.rdbuf(nullptr); r.core.Init(m); std::cout.rdbuf(o); std::cout.clear();
      if (r.mgr.n_init != 1) { bad("init_publish", cat(r.mgr.n_init)); return; }
      for (size_t i = 0; i < L.size(); i++) { VX z = VX::Zero(L[i].n); if (L[i].quat) z(0) = 1; VX want = st[i] == 1 ? x[i] : z; if (!((r.mgr.last_init.x[i] - want).norm() <= 1e-14)) bad(st[i] == 2 ? "init_withdrawn" : "init_value", cat("variable ", i, " ", r.mgr.last_init.x[i].transpose(), " expected ", want.transpose())); }
      if (!((r.mgr.last_init.P - P).cwiseAbs().maxCoeff() == 0)) bad("init_covariance", cat(pk == 0 ? "default" : pk == 1 ? "given" : "given diagonal", " initial covariance not taken over"));
      count("initialised_through_core");
    }
  }
};
static void layouts(Rng& g, uint64_t idx) {
  static const Layout<plain::S> a("plain", {P, V, QQ, BW, BA});
  static const Layout<mixed::S> b("mixed", {P, V, QQ, BW, BA, ve(1), qu(), ve(2, ND), qu(ND), ve(6), ve(3, ND), qu()});
  static const Layout<mult::S> c("multiplicative", {P, V, QQ, BW, BA, ve(3, AX, true), ve(1), ve(2, ND, true)});
  static const Layout<quats::S> d("rotations", {P, V, QQ, BW, BA, qu(ND), ve(3, ND), qu(ND), ve(4, ND)});
  static const Layout<odd::S> e("unusual", {ve(2, CP), qu(CN), ve(5, CN), qu(CP), ve(7), ve(1, ND)}, false);
  switch (idx % 5) { case 0: a.run(g); break; case 1: b.run(g); break; case 2: c.run(g); break; case 3: d.run(g); break; default: e.run(g); }
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"layout", layouts}}); }
