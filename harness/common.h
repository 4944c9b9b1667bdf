// Case runner shared by all harnesses: every case runs in its own forked child
// (isolation from crashes, sanitizer reports and function-local statics), and
// reports through a pipe.  The parent aggregates what the monitors observed.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <valgrind/memcheck.h>

namespace vf {

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  Rng(uint64_t seed, const std::string& tag, uint64_t idx) {
    uint64_t x = seed * 0x100000001b3ull + 7;
    for (unsigned char c : tag) x = (x ^ c) * 0x100000001b3ull;
    x ^= idx * 0xd1342543de82ef95ull + 1;
    s[0] = mix(x); s[1] = mix(x);
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b; a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool p(double pr) { return u() < pr; }
  double n() {
    double a = u(), b = u();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
  }
  template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

// ---- what a case reports -------------------------------------------------
struct Report {
  std::map<std::string, long> counts;
  std::map<std::string, double> maxes;
  std::vector<std::pair<std::string, std::string> > violations;  // key, detail
  std::string sample;
  uint64_t sig = 1469598103934665603ull;  // signature of what this case exercised
  bool nontrivial = false;
  bool inconclusive = false;
};
inline Report& rep() { static Report r; return r; }
inline void count(const std::string& k, long n = 1) { rep().counts[k] += n; }
inline void maxim(const std::string& k, double v) { double& m = rep().maxes[k]; if (!(v <= m)) m = v; }
inline void sig(uint64_t v) { rep().sig = (rep().sig ^ v) * 1099511628211ull; }
inline void sigd(double v) { uint64_t x; std::memcpy(&x, &v, 8); sig(x); }
inline void nontrivial() { rep().nontrivial = true; }
inline void sample(const std::string& s) { if (rep().sample.size() < 1500) rep().sample += s; }
inline void violate(const std::string& key, const std::string& detail) {
  if (rep().violations.size() < 20) rep().violations.push_back(std::make_pair(key, detail.substr(0, 3000)));
}
template<class... A> std::string cat(const A&... a) {
  std::ostringstream o; o.precision(17);
  using sw = int[]; (void)sw{0, ((void)(o << a), 0)...};
  return o.str();
}
// true if a==b within tol, both finite
inline bool near(double a, double b, double tol) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol; }

// ---- serialisation over the pipe ----------------------------------------
inline void put(std::string& o, const std::string& s) { uint32_t n = s.size(); o.append((char*)&n, 4); o += s; }
inline void put64(std::string& o, uint64_t v) { o.append((char*)&v, 8); }
struct Rd {
  const std::string& b; size_t at = 0; bool ok = true;
  Rd(const std::string& s) : b(s) {}
  uint64_t u64() { if (at + 8 > b.size()) { ok = false; return 0; } uint64_t v; memcpy(&v, &b[at], 8); at += 8; return v; }
  std::string str() { if (at + 4 > b.size()) { ok = false; return ""; } uint32_t n; memcpy(&n, &b[at], 4); at += 4; if (at + n > b.size()) { ok = false; return ""; } std::string s = b.substr(at, n); at += n; return s; }
};
inline std::string pack(const Report& r) {
  std::string o;
  put64(o, r.counts.size()); for (auto& e : r.counts) { put(o, e.first); put64(o, (uint64_t)e.second); }
  put64(o, r.maxes.size()); for (auto& e : r.maxes) { put(o, e.first); uint64_t x; memcpy(&x, &e.second, 8); put64(o, x); }
  put64(o, r.violations.size()); for (auto& e : r.violations) { put(o, e.first); put(o, e.second); }
  put(o, r.sample); put64(o, r.sig); put64(o, r.nontrivial); put64(o, r.inconclusive);
  put64(o, 0x600dull);
  return o;
}
inline bool unpack(const std::string& b, Report& r) {
  Rd d(b); uint64_t n;
  n = d.u64(); for (uint64_t i = 0; i < n && d.ok; i++) { std::string k = d.str(); r.counts[k] = (long)d.u64(); }
  n = d.u64(); for (uint64_t i = 0; i < n && d.ok; i++) { std::string k = d.str(); uint64_t x = d.u64(); double v; memcpy(&v, &x, 8); r.maxes[k] = v; }
  n = d.u64(); for (uint64_t i = 0; i < n && d.ok; i++) { std::string k = d.str(), v = d.str(); r.violations.push_back(std::make_pair(k, v)); }
  r.sample = d.str(); r.sig = d.u64(); r.nontrivial = d.u64(); r.inconclusive = d.u64();
  return d.ok && d.u64() == 0x600dull;
}

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

typedef std::function<void(Rng&, uint64_t)> CaseFn;
struct Suite { std::string name; CaseFn fn; };

struct Total {
  long cases = 0, nontriv = 0, distinct = 0, crashes = 0, inconclusive = 0;
  std::map<std::string, long> counts;
  std::map<std::string, double> maxes;
  std::map<uint64_t, int> sigs;
  std::vector<std::string> samples;
  struct V { std::string suite; uint64_t idx; std::string key, detail; };
  std::vector<V> viol;
};

// The part of a sanitizer report that identifies the call site.
inline std::string crash_key(const std::string& err, int status) {
  std::string kind = "signal";
  if (WIFSIGNALED(status)) kind = cat("signal", WTERMSIG(status)); else kind = cat("exit", WEXITSTATUS(status));
  size_t p = err.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) { size_t e = err.find_first_of(" \n", p + 25); kind = "asan:" + err.substr(p + 25, e - p - 25); }
  else if ((p = err.find("runtime error: ")) != std::string::npos) { size_t e = err.find_first_of("\n", p); kind = "ubsan:" + err.substr(p + 15, std::min<size_t>(60, e - p - 15)); }
  else if ((p = err.find("Assertion `")) != std::string::npos) { size_t e = err.find_first_of("\n", p); kind = "assert:" + err.substr(p, std::min<size_t>(80, e - p)); }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 97 && (p = err.find("== ")) != std::string::npos) { size_t e = err.find_first_of("\n", p); kind = "memcheck:" + err.substr(p + 3, std::min<size_t>(60, e - p - 3)); }
  // First frame inside /repo.
  std::string where;
  size_t f = err.find("/repo/");
  if (f != std::string::npos) { size_t e = err.find_first_of(":\n ", f); where = err.substr(f + 6, e - f - 6); }
  for (char& c : kind) if (c == ' ') c = '_';
  return "crash:" + kind + (where.empty() ? "" : "@" + where);
}

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Job { pid_t pid; int fd, efd; std::string buf, err; const Suite* su; uint64_t idx; double start; int tries; };

inline void run_child(const Suite& su, uint64_t seed, uint64_t idx, int fd, int efd) {
  dup2(efd, 2);
  if (!getenv("VF_KEEP_STDOUT")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
  rep() = Report();
  Rng r(seed, su.name, idx);
  unsigned vg0 = VALGRIND_COUNT_ERRORS;
  su.fn(r, idx);
  if (RUNNING_ON_VALGRIND) {  // memcheck's report (uninitialised or freed memory used) is on stderr
    count("memcheck_cases");
    if (VALGRIND_COUNT_ERRORS != vg0) _exit(97);
  }
  std::string o = pack(rep());
  size_t at = 0;
  while (at < o.size()) { ssize_t w = write(fd, o.data() + at, o.size() - at); if (w <= 0) break; at += w; }
  close(fd);
  _exit(0);
}

struct Options {
  uint64_t seed = 1; int jobs = 8; double case_timeout = 60; std::string out;
  std::map<std::string, long> cases; std::string only_suite; long only_idx = -1; std::string list;
};

inline int run(int argc, char** argv, const std::vector<Suite>& suites) {
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--jobs") o.jobs = atoi(val().c_str());
    else if (a == "--out") o.out = val();
    else if (a == "--suite") { std::string s = val(); size_t c = s.find(':'); o.cases[s.substr(0, c)] = atol(s.substr(c + 1).c_str()); }
    else if (a == "--only") { std::string s = val(); size_t c = s.find(':'); o.only_suite = s.substr(0, c); o.only_idx = atol(s.substr(c + 1).c_str()); }
    else if (a == "--timeout") o.case_timeout = atof(val().c_str());
    else if (a == "--list") { for (auto& s : suites) puts(s.name.c_str()); return 0; }
  }
  if (o.only_idx >= 0) {  // replay in the foreground
    for (auto& s : suites) if (s.name == o.only_suite) {
      if (getenv("VF_INPROC")) {
        Rng r(o.seed, s.name, o.only_idx); s.fn(r, o.only_idx);
        for (auto& v : rep().violations) fprintf(stderr, "VIOLATION-DETAIL %s :: %s\n", v.first.c_str(), v.second.c_str());
        fprintf(stderr, "sample: %s\n", rep().sample.c_str());
        for (auto& m : rep().counts) fprintf(stderr, "  %s=%ld\n", m.first.c_str(), m.second);
        for (auto& m : rep().maxes) fprintf(stderr, "  max %s=%.6g\n", m.first.c_str(), m.second);
        return rep().violations.empty() ? 0 : 1;
      }
    }
  }
  Total T;
  struct Task { const Suite* su; uint64_t idx; int tries; };
  std::vector<Task> todo;
  for (auto& c : o.cases) {
    bool found = false;
    for (auto& s : suites) if (s.name == c.first) {
      found = true;
      for (long i = 0; i < c.second; i++) todo.push_back(Task{&s, (uint64_t)i, 0});
    }
    if (!found) { fprintf(stderr, "no suite %s\n", c.first.c_str()); return 3; }
  }
  if (o.only_idx >= 0) for (auto& s : suites) if (s.name == o.only_suite) todo.push_back(Task{&s, (uint64_t)o.only_idx, 0});
  std::vector<Job> live;
  size_t at = 0;
  auto launch = [&](const Task& t) {
    int p[2], e[2];
    if (pipe(p) || pipe(e)) { perror("pipe"); exit(3); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) { close(p[0]); close(e[0]); run_child(*t.su, o.seed, t.idx, p[1], e[1]); }
    close(p[1]); close(e[1]);
    Job j; j.pid = pid; j.fd = p[0]; j.efd = e[0]; j.su = t.su; j.idx = t.idx; j.start = now(); j.tries = t.tries;
    live.push_back(j);
  };
  while (at < todo.size() || !live.empty()) {
    while ((int)live.size() < o.jobs && at < todo.size()) { Task t = todo[at++]; launch(t); }
    std::vector<struct pollfd> pf;
    for (auto& j : live) { pf.push_back({j.fd, POLLIN, 0}); pf.push_back({j.efd, POLLIN, 0}); }
    poll(pf.data(), pf.size(), 500);
    for (size_t k = 0; k < live.size();) {
      Job& j = live[k];
      bool done = false;
      char b[65536];
      struct pollfd q[2] = {{j.fd, POLLIN, 0}, {j.efd, POLLIN, 0}};
      while (poll(q, 2, 0) > 0) {
        bool prog = false;
        if (q[0].fd >= 0 && (q[0].revents & (POLLIN | POLLHUP))) { ssize_t n = read(j.fd, b, sizeof b); if (n > 0) { j.buf.append(b, n); prog = true; } else q[0].fd = -1; }
        if (q[1].fd >= 0 && (q[1].revents & (POLLIN | POLLHUP))) { ssize_t n = read(j.efd, b, sizeof b); if (n > 0) { if (j.err.size() < 200000) j.err.append(b, n); prog = true; } else q[1].fd = -1; }
        if (q[0].fd < 0 && q[1].fd < 0) { done = true; break; }
        if (!prog && q[0].fd >= 0 && q[1].fd >= 0) break;
      }
      bool hung = false;
      if (!done && now() - j.start > o.case_timeout) { kill(j.pid, SIGKILL); hung = true; done = true; }
      if (!done) { k++; continue; }
      int st = 0; waitpid(j.pid, &st, 0);
      close(j.fd); close(j.efd);
      Report r;
      if (hung) {
        if (j.tries == 0) todo.push_back(Task{j.su, j.idx, 1});
        else { T.cases++; T.viol.push_back({j.su->name, j.idx, "hang:" + j.su->name, cat("no result after ", o.case_timeout, " s, twice")}); }
      } else {
        T.cases++;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && unpack(j.buf, r)) {
          for (auto& e : r.counts) T.counts[e.first] += e.second;
          for (auto& e : r.maxes) { double& m = T.maxes[e.first]; if (!(e.second <= m)) m = e.second; }
          for (auto& v : r.violations) T.viol.push_back({j.su->name, j.idx, v.first, v.second});
          if (r.inconclusive) T.inconclusive++;
          if (r.nontrivial) { T.nontriv++; uint64_t sg = r.sig; for (unsigned char c : j.su->name) sg = (sg ^ c) * 1099511628211ull; if (T.sigs[sg]++ == 0) T.distinct++; }
          if (T.samples.size() < 6 && !r.sample.empty() && (T.cases % 7 == 1 || T.samples.empty())) T.samples.push_back(cat(j.su->name, ":", j.idx, " ", r.sample));
        } else {
          T.crashes++;
          T.viol.push_back({j.su->name, j.idx, crash_key(j.err, st), j.err.substr(0, 6000)});
        }
      }
      live.erase(live.begin() + k);
    }
  }
  FILE* f = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
  if (!f) { perror("out"); return 3; }
  fprintf(f, "{\"cases\":%ld,\"nontrivial\":%ld,\"distinct\":%ld,\"crashes\":%ld,\"inconclusive\":%ld,\"counts\":{", T.cases, T.nontriv, T.distinct, T.crashes, T.inconclusive);
  const char* sep = "";
  for (auto& e : T.counts) { fprintf(f, "%s\"%s\":%ld", sep, jesc(e.first).c_str(), e.second); sep = ","; }
  fprintf(f, "},\"maxes\":{"); sep = "";
  for (auto& e : T.maxes) { if (std::isfinite(e.second)) fprintf(f, "%s\"%s\":%.6g", sep, jesc(e.first).c_str(), e.second); else fprintf(f, "%s\"%s\":\"nonfinite\"", sep, jesc(e.first).c_str()); sep = ","; }
  fprintf(f, "},\"samples\":["); sep = "";
  for (auto& s : T.samples) { fprintf(f, "%s\"%s\"", sep, jesc(s).c_str()); sep = ","; }
  fprintf(f, "],\"violations\":["); sep = "";
  size_t lim = 0;
  std::map<std::string, int> per;
  for (auto& v : T.viol) {
    if (per[v.key]++ >= 5 || lim++ > 200) continue;
    fprintf(f, "%s{\"suite\":\"%s\",\"case\":%llu,\"key\":\"%s\",\"detail\":\"%s\"}", sep, jesc(v.suite).c_str(), (unsigned long long)v.idx, jesc(v.key).c_str(), jesc(v.detail).c_str()); sep = ",";
  }
  fprintf(f, "],\"violation_total\":%zu}\n", T.viol.size());
  if (f != stdout) fclose(f);
  return 0;
}

}  // namespace vf
