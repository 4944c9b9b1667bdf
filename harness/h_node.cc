// The republishing node of msf_distort, run through its own main() (which falls
// off its end, so it cannot simply be renamed): this harness runs from a static
// constructor and calls main once per case, acting while it spins.
#include "common.h"
#include <ros/ros.h>
#include <fstream>
using namespace vf;
// ---------------------------------------------------------- distort node (C19)
#include <msf_distort.cc>
namespace node {
using namespace ros::verif;
static void hdr(Rng& g, std_msgs::Header& h) { h.seq = (uint32_t)g.next(); h.stamp = ros::Time((uint32_t)g.i(1, 2000000000), (uint32_t)g.i(0, 999999999)); h.frame_id = cat("f", g.i(0, 999)); }
static bool same(const std_msgs::Header& a, const std_msgs::Header& b) { return a.seq == b.seq && a.stamp == b.stamp && a.frame_id == b.frame_id; }
static void fill(Rng& g, geometry_msgs::Pose& p) { p.position.x = g.n(); p.position.y = g.n(); p.position.z = g.n(); p.orientation.w = g.n(); p.orientation.x = g.n(); p.orientation.y = g.n(); p.orientation.z = g.n(); }
static bool same(const geometry_msgs::Pose& a, const geometry_msgs::Pose& b) { return !memcmp(&a.position.x, &b.position.x, 8) && a.position.y == b.position.y && a.position.z == b.position.z && a.orientation.w == b.orientation.w && a.orientation.x == b.orientation.x && a.orientation.y == b.orientation.y && a.orientation.z == b.orientation.z; }
template<class M> static size_t outs(const std::string& t) { return published<M>(t).size(); }
static size_t total() { size_t n = 0; for (auto& t : bus().topics) n += t.second.out.size(); return n; }
static void script(Rng& g) {
  typedef msf_distort::MSF_DistortConfig C; const std::string N = "/msf_distort/";
  C cur = C::__getDefault__(); bool reconf = dynamic_reconfigure::Server<C>::last() != nullptr;
  if (!reconf) violate("node_no_reconfigure", "");
  int n = g.i(5, 60); size_t want = total();
  auto judge = [&](const char* what, bool enabled, size_t handled, bool equal, bool there) {
    if (handled != 1) violate(cat("node_subscriber_", what), cat(handled, " callbacks"));
    want += enabled ? 1 : 0;
    if (total() != want) { violate(cat("node_forward_", what), cat("enabled ", enabled, " outputs ", total(), " expected ", want)); want = total(); }
    else if (enabled && !there) violate(cat("node_topic_", what), "not published on its own output");
    else if (enabled && !equal) violate(cat("node_content_", what), "message changed");
    count(cat(enabled ? "forwarded_" : "suppressed_", what));
  };
  for (int k = 0; k < n; k++) {
    int op = g.i(0, 6); sig(op);
    if (op == 5 || op == 6) { C c; c.publish_pose = g.p(0.5); c.publish_position = g.p(0.5); if (reconf) { dynamic_reconfigure::Server<C>::last()->update(c); cur = c; count("reconfigures"); } continue; }
    if (op == 0) { geometry_msgs::PoseWithCovarianceStamped m; hdr(g, m.header); fill(g, m.pose.pose); for (auto& c : m.pose.covariance) c = g.n(); size_t h = deliver(N + "pose_with_covariance_input", m); auto o = published<geometry_msgs::PoseWithCovarianceStamped>(N + "pose_with_covariance_output");
      judge("pose_with_covariance", cur.publish_pose, h, !o.empty() && same(o.back()->header, m.header) && same(o.back()->pose.pose, m.pose.pose) && o.back()->pose.covariance == m.pose.covariance, !o.empty()); }
    if (op == 1) { geometry_msgs::TransformStamped m; hdr(g, m.header); m.child_frame_id = "c"; m.transform.translation.x = g.n(); m.transform.translation.y = g.n(); m.transform.translation.z = g.n(); m.transform.rotation.w = g.n(); m.transform.rotation.x = g.n(); m.transform.rotation.y = g.n(); m.transform.rotation.z = g.n(); size_t h = deliver(N + "transform_input", m); auto o = published<geometry_msgs::TransformStamped>(N + "transform_output");
      bool e = !o.empty() && same(o.back()->header, m.header) && o.back()->child_frame_id == m.child_frame_id; if (e) { auto& a = o.back()->transform; auto& b = m.transform; e = a.translation.x == b.translation.x && a.translation.y == b.translation.y && a.translation.z == b.translation.z && a.rotation.w == b.rotation.w && a.rotation.x == b.rotation.x && a.rotation.y == b.rotation.y && a.rotation.z == b.rotation.z; }
      judge("transform", cur.publish_pose, h, e, !o.empty()); }
    if (op == 2) { geometry_msgs::PoseStamped m; hdr(g, m.header); fill(g, m.pose); size_t h = deliver(N + "pose_input", m); auto o = published<geometry_msgs::PoseStamped>(N + "pose_output"); judge("pose", cur.publish_pose, h, !o.empty() && same(o.back()->header, m.header) && same(o.back()->pose, m.pose), !o.empty()); }
    if (op == 3) { sensor_msgs::NavSatFix m; hdr(g, m.header); m.latitude = g.n(); m.longitude = g.n(); m.altitude = g.n(); m.status.status = (int8_t)g.i(-1, 2); for (auto& c : m.position_covariance) c = g.n(); m.position_covariance_type = g.i(0, 3); size_t h = deliver(N + "navsatfix_input", m); auto o = published<sensor_msgs::NavSatFix>(N + "navsatfix_output");
      bool e = !o.empty() && same(o.back()->header, m.header) && o.back()->latitude == m.latitude && o.back()->longitude == m.longitude && o.back()->altitude == m.altitude && o.back()->status.status == m.status.status && o.back()->position_covariance == m.position_covariance && o.back()->position_covariance_type == m.position_covariance_type; judge("navsatfix", cur.publish_position, h, e, !o.empty()); }
    if (op == 4) { geometry_msgs::PointStamped m; hdr(g, m.header); m.point.x = g.n(); m.point.y = g.n(); m.point.z = g.n(); size_t h = deliver(N + "point_input", m); auto o = published<geometry_msgs::PointStamped>(N + "point_output"); judge("point", cur.publish_position, h, !o.empty() && same(o.back()->header, m.header) && o.back()->point.x == m.point.x && o.back()->point.y == m.point.y && o.back()->point.z == m.point.z, !o.empty()); }
  }
}
static void run(Rng& g, uint64_t) {
  bool spun = false;
  on_spin() = [&]() { spun = true; script(g); };
  char name[] = "msf_distort"; char* argv[] = {name, nullptr};
  ::main(1, argv);
  if (!spun) violate("node_no_spin", "main returned without processing messages");
  nontrivial();
}
}

struct Start { Start() {
  std::ifstream f("/proc/self/cmdline"); std::vector<std::string> a; std::string s; while (std::getline(f, s, '\0')) a.push_back(s);
  std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
  int rc = vf::run(a.size(), v.data(), {{"node", node::run}}); fflush(stdout); _exit(rc);
} };
static Start start;
