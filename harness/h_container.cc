// C04: time-indexed buffer vs. an ordered-map reference.
#include "common.h"
#include <msf_core/msf_types.h>
#include <msf_core/msf_macros.h>
#include <msf_core/msf_tools.h>
#include <msf_core/msf_sortedContainer.h>
using namespace vf;
namespace {
struct Obj { double time; int id; Obj() : time(0), id(-1) {} Obj(double t, int i) : time(t), id(i) {} virtual ~Obj() {} };
struct Inv : Obj { Inv() { id = -7; } };
typedef msf_core::SortedContainer<Obj, Inv> C;
typedef std::map<double, boost::shared_ptr<Obj> > Ref;

bool isInvalid(const boost::shared_ptr<Obj>& p, C& c) { return p == c.GetInvalid(); }
std::string show(const Ref& r) { std::string s = "{"; int k = 0; for (auto& e : r) { if (k++ > 12) { s += "..."; break; } s += cat(e.first, " "); } return s + "}"; }

void checkQueries(C& c, Ref& r, double t) {
  auto fail = [&](const char* what, const std::string& got) { violate(cat("query:", what), cat(what, "(", t, ") on ", show(r), " -> ", got)); };
  if (c.Size() != r.size()) fail("Size", cat(c.Size()));
  { auto p = c.GetLast(); bool ok = r.empty() ? isInvalid(p, c) : p == r.rbegin()->second; if (!ok) fail("GetLast", cat(p->time)); }
  { auto p = c.GetFirst(); bool ok = r.empty() ? isInvalid(p, c) : p == r.begin()->second; if (!ok) fail("GetFirst", cat(p->time)); }
  { auto p = c.GetValueAt(t); auto it = r.find(t); bool ok = it == r.end() ? isInvalid(p, c) : p == it->second; if (!ok) fail("GetValueAt", cat(p->time)); }
  // strictly before; the first element when nothing is before it
  { auto p = c.GetClosestBefore(t); bool ok; if (r.empty()) ok = isInvalid(p, c); else { auto it = r.lower_bound(t); if (it != r.begin()) --it; ok = p == it->second; } if (!ok) fail("GetClosestBefore", cat(p->time)); }
  { auto p = c.GetClosestAfter(t); auto it = r.upper_bound(t); bool ok = it == r.end() ? isInvalid(p, c) : p == it->second; if (!ok) fail("GetClosestAfter", cat(p->time)); }
  // nearest
  {
    auto p = c.GetClosest(t);
    if (r.empty()) { if (!isInvalid(p, c)) fail("GetClosest", cat(p->time)); }
    else {
      double best = 1e300; for (auto& e : r) best = std::min(best, std::fabs(e.first - t));
      if (isInvalid(p, c) || std::fabs(p->time - t) != best || r.find(p->time) == r.end() || r[p->time] != p) fail("GetClosest", cat(p->time, " best distance ", best));
    }
  }
  if (!r.empty()) {
    auto it = c.GetIteratorClosest(t);
    double best = 1e300; for (auto& e : r) best = std::min(best, std::fabs(e.first - t));
    if (it == c.GetIteratorEnd()) fail("GetIteratorClosest", "end");
    else if (std::fabs(it->second->time - t) != best) fail("GetIteratorClosest", cat(it->second->time, " best distance ", best));
  } else if (c.GetIteratorBegin() != c.GetIteratorEnd()) fail("Begin", "not end on empty");
  {
    auto it = c.GetIteratorClosestAfter(t); auto rt = r.upper_bound(t);
    bool ok = rt == r.end() ? it == c.GetIteratorEnd() : (it != c.GetIteratorEnd() && it->second == rt->second);
    if (!ok) fail("GetIteratorClosestAfter", "mismatch");
  }
  {
    auto rt = r.lower_bound(t);
    if (rt != r.begin()) { --rt; auto it = c.GetIteratorClosestBefore(t); if (it == c.GetIteratorEnd() || it->second != rt->second) fail("GetIteratorClosestBefore", "mismatch"); }
  }
  {
    auto rt = r.lower_bound(t);  // exact value, else first element after
    auto it = c.GetIteratorAtValue(t, false);
    bool ok = rt == r.end() ? it == c.GetIteratorEnd() : (it != c.GetIteratorEnd() && it->second == rt->second);
    if (!ok) fail("GetIteratorAtValue", "mismatch");
    boost::shared_ptr<Obj> probe(new Obj(t, -3));
    auto it2 = c.GetIteratorAtValue(probe, false);
    if (it2 != it) fail("GetIteratorAtValue(obj)", "differs from the time overload");
  }
  count("queries", 11);
}

void order(C& c, Ref& r) {
  auto rt = r.begin(); double prev = -1e300; size_t n = 0;
  for (auto it = c.GetIteratorBegin(); it != c.GetIteratorEnd(); ++it, ++n) {
    if (!(it->second->time > prev)) violate("order", cat("not strictly increasing at ", it->second->time));
    prev = it->second->time;
    if (rt == r.end() || rt->second != it->second) { violate("content", cat("element ", it->second->time, " differs from reference ", show(r))); return; }
    ++rt;
  }
  if (rt != r.end()) violate("content", cat("missing elements; reference ", show(r)));
  count("walks");
}

void caseFn(Rng& g, uint64_t idx) {
  C c; Ref r; int id = 0;
  // Regimes: tiny containers, coarse grid (many ties/duplicates), realistic stamps.
  int regime = idx % 4;
  double base = regime == 3 ? 1.6e9 + g.u(0, 100) : regime == 2 ? 100 : 0.5;
  double grid = regime == 0 ? 1.0 : regime == 1 ? 0.5 : regime == 2 ? 0.001 : 0.005;
  int span = regime == 0 ? 4 : regime == 1 ? 12 : 400;
  double scale = regime == 2 && g.p(0.5) ? 500 : 1;  // long span: ClearOlderThan really cuts
  int maxn = regime == 0 ? 3 : 300, ops = regime == 0 ? 60 : 250;
  auto tm = [&]() { double t = base + grid * scale * g.i(0, span); if (g.p(0.3)) t += grid * scale * g.u(); return t; };
  checkQueries(c, r, base);
  for (int k = 0; k < ops; k++) {
    int op = g.i(0, 99);
    sig(op / 10); sig(r.size());
    if (op < 50 && (int)r.size() < maxn) {
      boost::shared_ptr<Obj> o(new Obj(g.p(0.15) && !r.empty() ? r.rbegin()->first : tm(), id++));
      bool dup = r.count(o->time) > 0;
      auto it = c.Insert(o);
      if (!dup) r[o->time] = o; else count("duplicate_inserts");
      if (it == c.GetIteratorEnd() || it->second != r[o->time]) violate("insert", cat("Insert(", o->time, ") dup=", dup, " returned wrong position"));
      count("inserts");
    } else if (op < 60 && !r.empty()) {
      auto rt = r.begin(); std::advance(rt, g.i(0, (int)r.size() - 1));
      double to = tm(), from = rt->first; boost::shared_ptr<Obj> o = rt->second;
      if (r.count(to) && to != from) { count("update_collisions_skipped"); continue; }
      boost::shared_ptr<Obj> got = c.UpdateTime(from, to);
      r.erase(from); r[to] = o;
      if (got != o || o->time != to) violate("update_time", cat("UpdateTime(", from, ",", to, ")"));
      count("update_times");
    } else if (op < 63) {
      double to = tm(), miss = base - 17.25;  // nothing stored there
      boost::shared_ptr<Obj> got = c.UpdateTime(miss, to);
      if (r.empty() ? !isInvalid(got, c) : r.find(got->time) == r.end()) violate("update_missing", "UpdateTime on a missing time returned a foreign object");
      count("update_missing");
    } else if (op < 70) {
      double age = g.p(0.5) ? grid * scale * g.u(0.1, span) : 60;
      std::vector<double> before; for (auto& e : r) before.push_back(e.first);
      c.ClearOlderThan(age);
      std::map<double, int> left; for (auto it = c.GetIteratorBegin(); it != c.GetIteratorEnd(); ++it) left[it->second->time] = 1;
      if (!before.empty()) {
        double cut = before.back() - age, best = 1e300;
        for (double t : before) best = std::min(best, std::fabs(t - cut));
        for (double t : before) {
          bool in = left.count(t);
          if (t >= cut && !in) { violate("clear_lost_recent", cat("ClearOlderThan(", age, ") dropped ", t, " with newest ", before.back(), " from ", show(r))); break; }
          // anything further from the cut than the nearest element, on the old side, must go
          if (t < cut && (cut - t) > best && in && before.back() - before.front() >= age) { violate("clear_kept_old", cat("ClearOlderThan(", age, ") kept ", t, " newest ", before.back(), " from ", show(r))); break; }
        }
        for (auto& e : left) if (!r.count(e.first)) violate("clear_invented", cat(e.first));
        for (double t : before) if (!left.count(t)) { r.erase(t); count("expired"); }
      }
      count("clears");
    } else if (op < 71) { c.Clear(); r.clear(); count("full_clears"); }
    else if (op < 90) {
      double t = tm();
      if (!r.empty() && g.p(0.4)) { auto rt = r.begin(); std::advance(rt, g.i(0, (int)r.size() - 1)); t = rt->first; if (g.p(0.5)) { auto nx = rt; ++nx; if (nx != r.end()) t = rt->first + (nx->first - rt->first) * g.pick(std::vector<double>{0.1, 0.499, 0.501, 0.9}); } }
      if (g.p(0.1)) t = base - 5; if (g.p(0.1)) t = base + grid * scale * (span + 7);
      checkQueries(c, r, t);
    } else order(c, r);
  }
  order(c, r);
  std::string e = c.EchoBufferContentTimes();
  size_t lines = 0; for (char ch : e) lines += ch == '\n';
  if (lines != r.size()) violate("echo", cat(lines, " lines for ", r.size(), " entries"));
  if (r.size() > 0 || rep().counts["inserts"] > 5) nontrivial();
  sample(cat("regime ", regime, ": ", rep().counts["inserts"], " inserts, ", rep().counts["queries"], " queries, ", rep().counts["expired"], " expired, final size ", r.size()));
}
}
int main(int argc, char** argv) { return run(argc, argv, {{"container", caseFn}}); }
