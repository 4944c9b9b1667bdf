// Offline stand-in for the parts of roscpp that msf uses.  In-process message
// bus: publishers append to a per-topic record, subscribers register a callback
// that a harness invokes with deliver<M>(topic, msg).
#pragma once
#include <any>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <typeindex>
#include <vector>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <ros/console.h>
#include <ros/time.h>
namespace ros {
typedef std::vector<std::string> V_string;
namespace verif {
struct Record { boost::shared_ptr<void> msg; std::type_index type; Record(boost::shared_ptr<void> m, std::type_index t) : msg(m), type(t) {} };
struct Topic {
  std::vector<Record> out;
  uint32_t subscribers = 0;
  std::map<std::type_index, std::vector<std::function<void(boost::shared_ptr<void>)> > > in;
};
struct Bus {
  std::map<std::string, Topic> topics;
  std::map<std::string, std::any> params;
  uint32_t default_subscribers = 1;
  std::map<std::string, std::function<bool(void*, void*)> > services;
  void reset() { topics.clear(); params.clear(); services.clear(); default_subscribers = 1; }
};
inline Bus& bus() { static Bus b; return b; }
inline std::string join(const std::string& a, const std::string& b) {
  if (a.empty()) return "/" + b;
  if (a.back() == '/') return a + b;
  return a + "/" + b;
}
inline std::string resolve(std::string n) {
  if (n.empty()) return "";
  while (n.size() > 1 && n.back() == '/') n.pop_back();
  if (n[0] == '~') { n.erase(0, 1); if (!n.empty() && n[0] == '/') n.erase(0, 1); return n.empty() ? "/node" : "/node/" + n; }
  if (n[0] == '/') return n;
  return "/" + n;
}
template<class T> void setParam(const std::string& fq, const T& v) { bus().params[fq] = v; }
template<class M> size_t deliver(const std::string& topic, const M& m) {
  auto it = bus().topics.find(topic);
  if (it == bus().topics.end()) return 0;
  auto jt = it->second.in.find(std::type_index(typeid(M)));
  if (jt == it->second.in.end()) return 0;
  boost::shared_ptr<M> c = boost::make_shared<M>(m);
  for (auto& f : jt->second) f(c);
  return jt->second.size();
}
template<class M> std::vector<boost::shared_ptr<M> > published(const std::string& topic) {
  std::vector<boost::shared_ptr<M> > r;
  auto it = bus().topics.find(topic);
  if (it == bus().topics.end()) return r;
  for (auto& e : it->second.out)
    if (e.type == std::type_index(typeid(M))) r.push_back(boost::static_pointer_cast<M>(e.msg));
  return r;
}
// what happens while a node's main() spins
inline std::function<void()>& on_spin() { static std::function<void()> f; return f; }
inline void clearPublished() { for (auto& t : bus().topics) t.second.out.clear(); }
}  // namespace verif

struct TransportHints { TransportHints& tcpNoDelay(bool = true) { return *this; } };
class Subscriber {
  std::string topic_;
 public:
  Subscriber() {}
  explicit Subscriber(const std::string& t) : topic_(t) {}
  std::string getTopic() const { return topic_; }
  void shutdown() {}
  operator bool() const { return !topic_.empty(); }
};
class Publisher {
  std::string topic_; int subs_ = -1;
 public:
  Publisher() {}
  explicit Publisher(const std::string& t) : topic_(t) {}
  template<class M> void publish(const boost::shared_ptr<M>& m) const { store<typename std::remove_const<M>::type>(*m); }
  template<class M> void publish(const M& m) const { store<M>(m); }
  uint32_t getNumSubscribers() const {
    auto it = verif::bus().topics.find(topic_);
    return it == verif::bus().topics.end() ? 0 : it->second.subscribers;
  }
  std::string getTopic() const { return topic_; }
  void shutdown() {}
  operator bool() const { return !topic_.empty(); }
 private:
  template<class M> void store(const M& m) const {
    if (topic_.empty()) return;
    verif::bus().topics[topic_].out.push_back(verif::Record(boost::make_shared<M>(m), std::type_index(typeid(M))));
  }
};
struct ServiceServer { std::string name; };
class NodeHandle {
  std::string ns_;
 public:
  NodeHandle(const std::string& ns = "") : ns_(verif::resolve(ns)) {}
  NodeHandle(const NodeHandle& p, const std::string& ns) : ns_(verif::join(p.ns_, ns)) {}
  std::string getNamespace() const { return ns_; }
  std::string resolveName(const std::string& n) const {
    if (!n.empty() && (n[0] == '/' || n[0] == '~')) return verif::resolve(n);
    return verif::join(ns_, n);
  }
  template<class T> static bool get(const std::any& a, T& v) {
    if (const T* p = std::any_cast<T>(&a)) { v = *p; return true; }
    if constexpr (std::is_floating_point<T>::value) {  // the parameter server converts int to double
      if (const int* p = std::any_cast<int>(&a)) { v = *p; return true; }
    }
    return false;
  }
  template<class T> bool getParam(const std::string& name, T& v) const {
    auto it = verif::bus().params.find(resolveName(name));
    return it != verif::bus().params.end() && get(it->second, v);
  }
  template<class T> bool getParamCached(const std::string& name, T& v) const { return getParam(name, v); }
  template<class T> bool param(const std::string& name, T& v, const T& def) const {
    if (getParam(name, v)) return true;
    v = def; return false;
  }
  template<class T> T param(const std::string& name, const T& def) const { T v; return getParam(name, v) ? v : def; }
  bool hasParam(const std::string& name) const { return verif::bus().params.count(resolveName(name)) > 0; }
  template<class T> void setParam(const std::string& name, const T& v) const { verif::bus().params[resolveName(name)] = v; }
  template<class M> Publisher advertise(const std::string& t, uint32_t, bool = false) {
    std::string fq = resolveName(t);
    verif::bus().topics[fq].subscribers = verif::bus().default_subscribers;
    return Publisher(fq);
  }
  template<class M> Subscriber hook(const std::string& t, std::function<void(const boost::shared_ptr<M const>&)> f) {
    std::string fq = resolveName(t);
    verif::bus().topics[fq].in[std::type_index(typeid(M))].push_back(
        [f](boost::shared_ptr<void> m) { f(boost::shared_ptr<M const>(boost::static_pointer_cast<M>(m))); });
    return Subscriber(fq);
  }
  // The callback forms of roscpp.
  template<class M, class T> Subscriber subscribe(const std::string& t, uint32_t, void (T::*fp)(const boost::shared_ptr<M const>&), T* obj, const TransportHints& = TransportHints()) {
    return hook<M>(t, [fp, obj](const boost::shared_ptr<M const>& m) { (obj->*fp)(m); });
  }
  template<class M, class T> Subscriber subscribe(const std::string& t, uint32_t, void (T::*fp)(const boost::shared_ptr<M const>&) const, T* obj, const TransportHints& = TransportHints()) {
    return hook<M>(t, [fp, obj](const boost::shared_ptr<M const>& m) { (obj->*fp)(m); });
  }
  template<class M, class T> Subscriber subscribe(const std::string& t, uint32_t, void (T::*fp)(boost::shared_ptr<M const>), T* obj, const TransportHints& = TransportHints()) {
    return hook<M>(t, [fp, obj](const boost::shared_ptr<M const>& m) { (obj->*fp)(m); });
  }
  template<class M, class T, class = typename M::ConstPtr> Subscriber subscribe(const std::string& t, uint32_t, void (T::*fp)(const M&), T* obj, const TransportHints& = TransportHints()) {
    return hook<M>(t, [fp, obj](const boost::shared_ptr<M const>& m) { (obj->*fp)(*m); });
  }
  template<class M> Subscriber subscribe(const std::string& t, uint32_t, void (*fp)(const boost::shared_ptr<M const>&), const TransportHints& = TransportHints()) {
    return hook<M>(t, [fp](const boost::shared_ptr<M const>& m) { fp(m); });
  }
  template<class M> Subscriber subscribe(const std::string& t, uint32_t, const boost::function<void(const boost::shared_ptr<M const>&)>& f, const boost::shared_ptr<void const>& = boost::shared_ptr<void const>(), const TransportHints& = TransportHints()) {
    return hook<M>(t, [f](const boost::shared_ptr<M const>& m) { f(m); });
  }
  template<class T, class Req, class Res> ServiceServer advertiseService(const std::string& n, bool (T::*fp)(Req&, Res&), T* obj) {
    std::string fq = resolveName(n);
    verif::bus().services[fq] = [fp, obj](void* a, void* b) { return (obj->*fp)(*static_cast<Req*>(a), *static_cast<Res*>(b)); };
    ServiceServer s; s.name = fq; return s;
  }
};
namespace this_node {
inline std::string getName() { return "/node"; }
inline void getSubscribedTopics(V_string& v) { v.clear(); for (auto& t : verif::bus().topics) if (!t.second.in.empty()) v.push_back(t.first); }
inline void getAdvertisedTopics(V_string& v) { v.clear(); for (auto& t : verif::bus().topics) v.push_back(t.first); }
}
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void spin() { if (verif::on_spin()) verif::on_spin()(); }
inline void spinOnce() {}
inline bool ok() { return true; }
inline void shutdown() {}
struct Rate { explicit Rate(double) {} bool sleep() { return true; } };
}  // namespace ros
