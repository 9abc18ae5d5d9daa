// C20: ROS messages in, ROS messages out (the wrapper, compiled against stand-in ROS headers).
#include <boost/make_shared.hpp>
#include <unsupported/Eigen/MatrixFunctions>
#include "communication/ros_publisher.h"
#include "communication/ros_subscriber.h"

#include "rossrc.hpp"
using namespace rossrc;

namespace {
const double INF = std::numeric_limits<double>::infinity();

void subscribers(mc::MC& m) {
  ros::NodeHandle nh;
  std::vector<Source> src;
  int k = m.choose(KINDS, "kind");
  int second = m.choose(3, "second source");  // none, same kind, the next kind
  src.push_back(Source{(Kind)k});
  if (second == 1) src.push_back(Source{(Kind)k});
  if (second == 2) src.push_back(Source{(Kind)((k + 1) % KINDS)});
  {
    ros_wrapper::ROSSubscriber sub(&nh);
    bool late = second && m.flag("second source is added after the first message");
    src[0].add(sub, 0);
    if (second && !late) src[1].add(sub, 1);
    std::set<void*> mutexes;
    int depth = m.thorough ? 5 : 4;
    if (!second && m.flag("many messages")) {      // nobody reads for a while
      int v = m.choose(Source::variants((Kind)k), "message"), n = m.thorough ? 1500 : 400;
      for (int i = 0; i < n; i++) src[0].send(m, i, i % 5 ? v : (v + 1) % Source::variants((Kind)k));
      std::string d = src[0].check();
      m.check(d.empty(), std::string(kName[k]) + "-queue", d);
      depth = 1;
    }
    for (int i = 0; i < depth; i++) {
      bool only = !second || (late && i == 0);
      Source& s = src[only ? 0 : m.choose(2, "source")];
      s.send(m, i, m.choose(Source::variants(s.k), "message"));
      if (late && i == 0) src[1].add(sub, 1);
      for (auto& x : src) {
        std::string d = x.check();
        m.check(d.empty(), std::string(kName[x.k]) + "-queue", d);
      }
    }
    size_t locks = 0;
    for (auto& x : src) { mutexes.insert(x.m1.get()); locks++; if (x.m2) { mutexes.insert(x.m2.get()); locks++; } }
    m.check(mutexes.size() == locks && !mutexes.count(nullptr), "locks", "two queues share one lock or have none");
    for (void* p : mutexes) m.check(((std::mutex*)p)->try_lock(), "locks", "a queue's lock is still held"), ((std::mutex*)p)->unlock();
    if (m.flag("with a spinning thread")) sub.StartSubscribingThread();
    ros::stub::world()->shutdown();
  }
  for (auto& x : src) m.check(x.check().empty(), "queue-after", "the queue changed when the subscriber was destroyed");
  m.state(mc::fnv(m.seq_.data(), m.seq_.size() * sizeof(short)));
  m.validated();
}

// ---------------------------------------------------------------- publisher
bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
std::shared_ptr<RobotState> make_state(int i) {
  auto s = std::make_shared<RobotState>();
  const V3 w[] = {V3(0.3, -0.5, 0.7), V3(0, 0, 3.1), V3(-2, 1, 0.5), V3(0, 0, 0), V3(0, 3.14159, 0)};
  s->set_rotation(ref::exp_so3(w[i % 5]));
  s->set_position(V3(val(i, 0), 100 * val(i, 1), val(i, 2)));
  s->set_velocity(V3(val(i, 3), val(i, 4), val(i, 5)));
  const double t[] = {0.0, 1.25, 1700000000.5, 7.9999999999, 12.000000250};
  s->set_time(t[i % 5]);
  s->set_propagate_time(999);
  int n = 15;
  if (i % 2) {  // with a tracked contact
    Mat P = Mat::Identity(18, 18);
    s->add_aug_state(V3(1, 2, 3), P, M3::Identity(), std::make_shared<int>(5));
    n = 18;
  }
  Mat A(n, n);
  for (int r = 0; r < n; r++)
    for (int c = 0; c < n; c++) A(r, c) = val(i + 3 * r, c);
  s->set_P(A * A.transpose());
  return s;
}
std::string cmp_pose(const std_msgs::Header& h, const geometry_msgs::Pose& p, const RobotState& s, uint32_t seq, const std::string& frame) {
  if (h.seq != seq) return mc::fmt("sequence number %u instead of %u", h.seq, seq);
  if (h.frame_id != frame) return "frame '" + h.frame_id + "' instead of '" + frame + "'";
  if (!(h.stamp == ros::Time(s.get_time()))) return mc::fmt("stamp %.9f instead of %.9f", h.stamp.toSec(), s.get_time());
  V3 x = s.get_world_position();
  if (!close(p.position.x, x(0)) || !close(p.position.y, x(1)) || !close(p.position.z, x(2))) return "wrong position";
  Eigen::Quaterniond q(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z);
  if (!(std::fabs(q.norm() - 1) < 1e-9)) return "the orientation is not a unit quaternion";
  if ((q.toRotationMatrix() - s.get_world_rotation()).norm() > 1e-6) return "wrong orientation";
  return "";
}
void publisher(mc::MC& m) {
  auto& w = *ros::stub::world();
  ros::NodeHandle nh;
  const int cfgi = m.choose(6, "rates");
  const double pr[] = {100, 100, 90, 1000, 50, 70}, ar[] = {50, 70, 30, 10, 20, 40};
  const int every[] = {2, 1, 3, 100, 2, 1};
  std::string frame = cfgi == 3 ? "/odom" : "/world", ptopic = "/robot/inekf_estimation/pose", atopic = "/robot/inekf_estimation/path";
  auto q = std::make_shared<std::queue<std::shared_ptr<RobotState>>>();
  auto mu = std::make_shared<std::mutex>();
  std::unique_ptr<ros_wrapper::ROSPublisher> pub;
  bool slip = false;
  if (cfgi == 3) {
    pub.reset(new ros_wrapper::ROSPublisher(&nh, q, mu));
  } else {
    slip = m.flag("slip publisher");
    ptopic = "/a/pose"; atopic = "/b/path";
    std::string f = scratch() + mc::fmt("/ros%d%d.yaml", cfgi, (int)slip);
    std::ofstream(f) << "publishers:\n  pose_publish_topic: \"/a/pose\"\n  path_publish_topic: \"/b/path\"\n  pose_frame: \"/world\"\n  pose_publish_rate: "
                     << pr[cfgi] << "\n  path_publish_rate: " << ar[cfgi] << "\n" << (slip ? "  enable_slip_publisher: true\n" : "");
    pub.reset(new ros_wrapper::ROSPublisher(&nh, q, mu, f));
  }
  struct Down {
    ros::stub::World& w;
    ~Down() { w.shutdown(); }  // also when an execution is cut short
  } down{w};
  pub->StartPublishingThread();
  std::vector<std::shared_ptr<RobotState>> all, sent, path;
  std::deque<std::shared_ptr<RobotState>> pending;
  uint32_t path_seq = 0;
  size_t seen = 0;
  std::string err;
  auto push = [&] {
    auto s = make_state(all.size() % 10);
    all.push_back(s);
    pending.push_back(s);
    std::lock_guard<std::mutex> l(*mu);
    q->push(s);
  };
  auto expect_pose = [&]() -> std::string {
    bool alive = w.iterate(pr[cfgi]);
    if (!alive) return "the pose loop does not run";
    size_t n = w.out.size() - seen;
    if (pending.empty()) return n ? "a message was published though no state was waiting" : "";
    if (n != 1) return mc::fmt("%d messages published for one waiting state", (int)n);
    auto& o = w.out[seen++];
    auto s = pending.front();
    pending.pop_front();
    if (o.topic != ptopic) return "published on topic " + o.topic;
    auto* msg = std::any_cast<geometry_msgs::PoseWithCovarianceStamped>(&o.msg);
    if (!msg) return "wrong message type on the pose topic";
    std::string e = cmp_pose(msg->header, msg->pose.pose, *s, (uint32_t)sent.size(), frame);
    if (!e.empty()) return e;
    Mat P = s->get_P();
    const int at[6] = {6, 7, 8, 0, 1, 2};
    for (int i = 0; i < 6; i++)
      for (int j = 0; j < 6; j++)
        if (!close(msg->pose.covariance[6 * i + j], P(at[i], at[j])))
          return mc::fmt("covariance entry (%d,%d) is %g instead of %g (position first, then rotation)", i, j, msg->pose.covariance[6 * i + j], P(at[i], at[j]));
    sent.push_back(s);
    if (sent.size() % every[cfgi] == 0) path.push_back(s);
    if (q->size() != pending.size()) return "more than one state taken from the queue";
    return "";
  };
  auto expect_path = [&]() -> std::string {
    if (!w.iterate(ar[cfgi])) return "the path loop does not run";
    size_t n = w.out.size() - seen;
    if (path.empty()) return n ? "an empty path was published" : "";
    if (n != 1) return mc::fmt("%d path messages published", (int)n);
    auto& o = w.out[seen++];
    if (o.topic != atopic) return "path published on topic " + o.topic;
    auto* msg = std::any_cast<nav_msgs::Path>(&o.msg);
    if (!msg) return "wrong message type on the path topic";
    if (msg->header.seq != path_seq++) return "path messages are not numbered consecutively";
    if (msg->header.frame_id != frame) return "wrong frame of the path";
    if (!(msg->header.stamp == ros::Time(path.back()->get_time()))) return "wrong stamp of the path";
    if (msg->poses.size() != path.size()) return mc::fmt("the path has %d poses instead of %d", (int)msg->poses.size(), (int)path.size());
    for (size_t i = 0; i < path.size(); i++) {
      std::string e = cmp_pose(msg->poses[i].header, msg->poses[i].pose, *path[i], (uint32_t)((i + 1) * every[cfgi] - 1), frame);
      if (!e.empty()) return mc::fmt("path pose %d: ", (int)i) + e;
    }
    return "";
  };
  bool lots = cfgi != 3 && m.flag("a long run");
  if (lots) {          // hundreds of states, waiting or not, and a path that long
    int n = (m.thorough ? 2000 : 400) + m.choose(2, "odd"), lag = m.choose(3, "backlog");
    for (int i = 0; i < n && err.empty(); i++) {
      push();
      if (lag == 0 || (lag == 1 && i % 3)) err = expect_pose();
      if (err.empty() && i % 97 == 96) err = expect_path();
    }
    while (err.empty() && !pending.empty()) err = expect_pose();
    if (err.empty()) err = expect_path();
    m.step();
  }
  int depth = cfgi == 3 || lots ? 3 : (m.thorough ? 9 : 7);
  for (int i = 0; i < depth && err.empty(); i++) {
    int op = m.choose(cfgi == 3 ? 2 : 4, "op");
    if (cfgi == 3) {
      if (op == 0) for (int j = 0; j < 75 && err.empty(); j++) { push(); err = expect_pose(); }
      else err = expect_path();
    } else if (op == 0) push();
    else if (op == 1) err = expect_pose();
    else if (op == 2) err = expect_path();
    else { push(); push(); err = expect_pose(); if (err.empty()) err = expect_pose(); }
    m.step();
  }
  bool clean = err.empty();
  uint64_t h = mc::hash_mix(sent.size(), path.size());
  w.shutdown();
  pub.reset();
  m.check(clean, err.find("covariance") == 0 ? "covariance" : "publish", err);
  m.state(mc::hash_mix(h, mc::fnv(m.seq_.data(), m.seq_.size() * sizeof(short))));
  m.validated();
}
}  // namespace

static void program(mc::MC& m) {
  ros::stub::World w;
  ros::stub::world() = &w;
  if (m.choose(2, "direction") == 0) subscribers(m);
  else publisher(m);
}
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.what = "one history of messages delivered to one or two subscriptions, or of arriving states and turns of the pose and path loops; every queue and every published message is compared with the specified conversion";
  o.bounds = "10 subscription kinds x {alone (also with 400 (1500) messages unread), with a second of the same kind, with another kind, added before/after the first message} x all sequences of 4 (5) messages out of 2-5 variants (including short arrays, absent and invalid orientation, repeated stamps); publisher: 6 rate settings (whole, fractional below and above one half, default) x all sequences of 7 (9) of {state arrives, pose turn, path turn, two states with two turns} and runs of 400 (2000) states";
  return o;
}
MC_MAIN(options)
