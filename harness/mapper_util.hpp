// The whole node in its closed environment: messages in, transforms and storage decided by the
// harness, everything it emits recorded, and a scan matcher plugin whose answers are dictated.
#ifndef VERIF_MAPPER_UTIL_HPP
#define VERIF_MAPPER_UTIL_HPP
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/pose_array.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <ndt_2d/ndt_mapper.hpp>
#include <pluginlib/class_list_macros.hpp>
#include <verif_world.hpp>
#include "mc.hpp"
#include "ref.hpp"
#include "sched.hpp"

using namespace ndt_2d;
typedef ref::Pose RP;

// ---------------------------------------------------------------- the dictated scan matcher
struct Known { size_t id; Pose2d pose; int tag; };
// Scans are told apart by the distance of their first point, in eighths of a metre (0: no points)
inline int tag_of(const std::vector<Point> & p) { return p.empty() ? 0 : static_cast<int>(std::lround(8 * std::hypot(p[0].x, p[0].y))); }
struct Answer { double score = -0.5; Pose2d correction; Eigen::Matrix3d cov = Eigen::Matrix3d::Identity() * 0.01; };
struct MatchEvent
{
  std::string name;
  std::vector<Known> known;    // what the matcher held
  size_t id;
  Pose2d pose;
  std::vector<Point> points;
  Answer answer;
  int thread;
  uint64_t seq;
};
struct MockWorld
{
  std::function<Answer(const std::string & name, const std::vector<Known> &, const ScanPtr &)> answer;
  std::function<double(const Pose2d &)> score_points;
  std::vector<MatchEvent> matches;
  struct Scored { std::vector<Known> known; Pose2d pose; int thread; std::vector<Point> points; };
  std::vector<Scored> scored;    // what the matcher held at each scorePoints
  size_t inits = 0;
  double range_max = -1;
  std::map<std::string, double> ranges;    // told to each of the matchers
};
inline MockWorld & mock() { static MockWorld * m = new MockWorld(); return *m; }

class DictatedMatcher : public ScanMatcher
{
public:
  void initialize(const std::string & name, rclcpp::Node *, double range_max) override
  {
    sched::Quiet q;
    name_ = name;
    mock().inits++;
    mock().range_max = range_max;
    mock().ranges[name] = range_max;
  }
  void addScans(const std::vector<ScanPtr>::const_iterator & b, const std::vector<ScanPtr>::const_iterator & e) override
  {
    content_++;
    for (auto i = b; i != e; ++i) {
      const ScanPtr & s = *i;
      Pose2d p = s->getPose();
      std::vector<Point> pts = s->getPoints();
      sched::Quiet q;
      known_.push_back({s->getId(), p, tag_of(pts)});
    }
  }
  double matchScan(const ScanPtr & scan, Pose2d & pose, Eigen::Matrix3d & cov) const override
  {
    int c = content_;
    Pose2d p = scan->getPose();
    std::vector<Point> pts = scan->getPoints();
    Answer a;
    {
      sched::Quiet q;
      if (mock().answer) a = mock().answer(name_, known_, scan);
      MatchEvent ev{name_, known_, scan->getId(), p, pts, a, sched::self(), verif::world().seq};
      mock().matches.push_back(ev);
    }
    sched::point();      // matching is slow
    if (c != content_) sched::fail("the scan matcher was given other scans while it was matching");
    pose = a.correction;
    cov = a.cov;
    return a.score;
  }
  double scoreScan(const ScanPtr & scan) const override { return scorePoints(scan->getPoints(), scan->getPose()); }
  double scorePoints(const std::vector<Point> & pts, const Pose2d & pose) const override
  {
    int c = content_;
    sched::Quiet q;
    mock().scored.push_back({known_, pose, sched::self(), pts});
    (void)c;
    return mock().score_points ? mock().score_points(pose) : -0.25;
  }
  void reset() override
  {
    content_++;
    sched::Quiet q;
    known_.clear();
  }

private:
  std::string name_;
  std::vector<Known> known_;
  int content_ = 0;      // stands for the matcher's data in the eyes of the race detector
};

// ---------------------------------------------------------------- the node and its environment
struct Rig
{
  // odometry as a function of time
  std::function<RP(int64_t)> odom = [](int64_t) { return RP{0, 0, 0}; };
  verif::TfAnswer mount;              // laser in the robot frame
  std::function<bool(const std::string &, const std::string &, int64_t)> tf_fails;
  int64_t latest = 0;
  std::shared_ptr<Mapper> node;
  int saves = 0;

  Rig()
  {
    sched::Quiet q;
    verif::world_reset();
    mock() = MockWorld();
    // plugin registration is idempotent
    pluginlib::verif_registry<ScanMatcher>()["verif::Dictated"] = []() {return std::make_shared<DictatedMatcher>();};
    verif::world().params["scan_matcher_type"] = std::string("verif::Dictated");
    verif::world().params["resolution"] = 0.5;
    verif::world().params["max_range"] = 10.0;
    mount.qw = 1;
    verif::world().tf = [this](const std::string & target, const std::string & source, int64_t t, verif::TfAnswer & a) {
        if (tf_fails && tf_fails(target, source, t)) return false;
        if (target == "odom" && source == "base_link") {
          RP p = odom(t < 0 ? latest : t);
          a.x = p.x; a.y = p.y; a.z = 0;
          a.qx = a.qy = 0; a.qz = std::sin(p.th / 2); a.qw = std::cos(p.th / 2);
          return true;
        }
        if (target == "base_link" && source == "laser") { a = mount; return true; }
        return false;
      };
  }
  void param(const std::string & n, double v) { verif::world().params[n] = v; }
  void parami(const std::string & n, int64_t v) { verif::world().params[n] = v; }
  void paramb(const std::string & n, bool v) { verif::world().params[n] = v; }
  void params(const std::string & n, const std::string & v) { verif::world().params[n] = v; }

  void start() { node = std::make_shared<Mapper>(rclcpp::NodeOptions()); }
  void shutdown(bool ok_false = true)
  {
    if (ok_false) verif::w_set_ok(false);
    node.reset();
  }
  std::shared_ptr<sensor_msgs::msg::LaserScan> message(int64_t t, const std::vector<float> & ranges)
  {
    sched::Quiet q;
    auto m = std::make_shared<sensor_msgs::msg::LaserScan>();
    m->header.stamp = rclcpp::Time(t);
    m->header.frame_id = "laser";
    m->angle_min = -1.0f;
    m->angle_increment = 0.5f;
    m->angle_max = 1.0f;
    m->range_min = 0.1f;
    m->range_max = 10.0f;
    m->time_increment = 0.0f;
    m->ranges = ranges;
    return m;
  }
  void send(std::shared_ptr<sensor_msgs::msg::LaserScan> m)
  {
    latest = rclcpp::Time(m->header.stamp).nanoseconds();
    auto f = verif::world().subs.at("scan");
    f(m);
  }
  void scan(int64_t t, const std::vector<float> & ranges = {1.0f, 2.0f, 3.0f}) { send(message(t, ranges)); }
  void initialpose(const RP & p, const RP & var = RP{0.01, 0.01, 0.01}, const std::string & frame = "map")
  {
    std::shared_ptr<geometry_msgs::msg::PoseWithCovarianceStamped> m;
    {
      sched::Quiet q;
      m = std::make_shared<geometry_msgs::msg::PoseWithCovarianceStamped>();
      m->header.frame_id = frame;
      m->pose.pose.position.x = p.x;
      m->pose.pose.position.y = p.y;
      m->pose.pose.orientation.z = std::sin(p.th / 2);
      m->pose.pose.orientation.w = std::cos(p.th / 2);
      m->pose.covariance[0] = var.x;
      m->pose.covariance[7] = var.y;
      m->pose.covariance[35] = var.th;
    }
    verif::world().subs.at("initialpose")(m);
  }
  void configure(int action, const std::string & file = "")
  {
    std::shared_ptr<ndt_2d::srv::Configure::Request> q;
    std::shared_ptr<ndt_2d::srv::Configure::Response> r;
    {
      sched::Quiet z;
      q = std::make_shared<ndt_2d::srv::Configure::Request>();
      r = std::make_shared<ndt_2d::srv::Configure::Response>();
      q->action = action;
      q->filename = file;
    }
    verif::world().srvs.at("configure")(q, r);
  }
  void enable() { configure(ndt_2d::srv::Configure::Request::ENABLE_MAPPING); }
  void disable() { configure(ndt_2d::srv::Configure::Request::DISABLE_MAPPING); }
  void load(const std::string & f) { configure(ndt_2d::srv::Configure::Request::LOAD_FROM_FILE, f); }
  void save(const std::string & f) { configure(ndt_2d::srv::Configure::Request::SAVE_TO_FILE, f); }
  // The map as saved right now
  std::shared_ptr<Graph> map()
  {
    std::string f = "peek" + std::to_string(saves++);
    save(f);
    sched::Quiet q;
    auto g = std::make_shared<Graph>(true, f);
    verif::world().disk.erase(f);
    return g;
  }
  // last of a topic
  template <class M>
  std::shared_ptr<M> last(const std::string & topic)
  {
    auto & v = verif::world().published;
    for (auto i = v.rbegin(); i != v.rend(); ++i) if (i->topic == topic) return std::static_pointer_cast<M>(i->msg);
    return nullptr;
  }
  size_t count(const std::string & topic)
  {
    size_t n = 0;
    for (auto & o : verif::world().published) n += o.topic == topic;
    return n;
  }
};

inline RP rp(const Pose2d & p) { return RP{p.x, p.y, p.theta}; }
inline Pose2d p2(const RP & p) { return Pose2d(p.x, p.y, p.th); }
inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }
inline bool same_pose(const RP & a, const RP & b, double tol = 1e-6)
{
  return std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol && std::fabs(wrap(a.th - b.th)) <= tol;
}
inline RP of_tf(const geometry_msgs::msg::TransformStamped & t)
{
  return {t.transform.translation.x, t.transform.translation.y, 2 * std::atan2(t.transform.rotation.z, t.transform.rotation.w)};
}

// A map file on the in-memory disk: scans in a row, each connected to its predecessor
inline void make_map(const std::string & file, size_t n, double x0, double y, double step = 0.5, int tag = 8)
{
  sched::Quiet q;
  Graph g(true);
  Eigen::Matrix3d cov = Eigen::Matrix3d::Identity() * 0.01;
  for (size_t i = 0; i < n; ++i) {
    auto s = std::make_shared<Scan>(i);
    s->setPose(Pose2d(x0 + step * i, y, 0));
    double d = tag / 8.0;
    s->setPoints({Point(0.6 * d, 0.8 * d), Point(2, 0), Point(1, -0.25)});
    g.scans.push_back(s);
    if (i) g.constraints.push_back(makeConstraint(g.scans[i - 1], s, cov));
  }
  g.save(file);
}

// The map and the markers published last show the given map
inline void check_published(mc::Ctx & c, Rig & r, const std::shared_ptr<Graph> & g, double resolution, double threshold, const char * when)
{
  sched::Quiet q;
  auto m = r.last<nav_msgs::msg::OccupancyGrid>("map");
  auto k = r.last<visualization_msgs::msg::MarkerArray>("graph");
  c.check(m && k, "%s: no map has been published", when);
  OccupancyGrid fresh(resolution, threshold);
  nav_msgs::msg::OccupancyGrid want;
  want.info.resolution = resolution;
  fresh.getMsg(g->scans, want);
  bool same = m->info.width == want.info.width && m->info.height == want.info.height && m->data == want.data &&
    std::fabs(m->info.origin.position.x - want.info.origin.position.x) < 1e-6 && std::fabs(m->info.origin.position.y - want.info.origin.position.y) < 1e-6;
  c.check(same, "%s: the map published last is not that of the current %zu scans", when, g->scans.size());
  visualization_msgs::msg::MarkerArray wk;
  rclcpp::Time t(0);
  g->getMsg(wk, t);
  auto key = [](const visualization_msgs::msg::Marker & a) {
      std::string s = a.ns + "/" + std::to_string(a.id);
      char b[200];
      snprintf(b, sizeof(b), " %.5f %.5f %.3f %.3f %.3f", a.pose.position.x, a.pose.position.y, a.color.r, a.color.g, a.color.b);
      s += b;
      for (auto & p : a.points) { snprintf(b, sizeof(b), " (%.5f %.5f)", p.x, p.y); s += b; }
      return s;
    };
  std::vector<std::string> x, y;
  for (auto & a : k->markers) x.push_back(key(a));
  for (auto & a : wk.markers) y.push_back(key(a));
  std::sort(x.begin(), x.end());
  std::sort(y.begin(), y.end());
  c.check(x == y, "%s: the graph published last (%zu markers) is not that of the current map (%zu markers)", when, x.size(), y.size());
}

inline uint64_t hash_map(const Graph & g)
{
  uint64_t h = 5;
  for (auto & s : g.scans) { auto p = s->getPose(); h = mc::mix(h, ref::hpose(p.x, p.y, p.theta)); }
  for (auto & k : g.constraints) h = mc::mix(h, mc::mix(k->begin * 64 + k->end, mc::hd(k->transform(0))));
  return h;
}
#endif
