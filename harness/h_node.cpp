// C18, C22, C23: histories of the whole node against the reference model of node_ref.hpp.
// The background threads run only when told to (settle), so every history is deterministic.
#include "node_ref.hpp"

static std::vector<mc::Suite> suites;

static void run_sim(mc::Ctx & c, const NodeCfg & k, const std::function<void(Sim &)> & body)
{
  sched::run(c, [&]() {
      Sim s(c, k);
      s.file("start", 4, 0.0, 0.0, 8, 0.53125);
      s.file("other", 3, 2.0, 4.0, 16, 0.59375);
      body(s);
      c.observe(s.map.scans.size() * 64 + s.map.edges.size());
      c.observe(ref::hpose(s.robot.x, s.robot.y, s.robot.th));
      s.r.shutdown(true);
    });
}

// ------------------------------------------------------------------------------------- C18
enum Ev { FAR, CREEP, TURN, BACK, NEARPOSE, FARPOSE, ODDPOSE, LOAD, DISABLE, ENABLE, EMPTY, SAVE, LOAD_ON, LOAD_OFF, SAVE_ON, SAVE_OFF, RELOAD, NEV };

static bool apply(Sim & s, int e)
{
  switch (e) {
    case FAR: s.scan(RP{0.5, 0.125, 0.25}); break;
    case CREEP: s.scan(RP{0.0625, 0, 0.5625}); break;
    case TURN: s.scan(RP{0, 0, 1.125}); break;
    case BACK: s.scan(RP{-0.75, 0.25, -2.5}); break;
    case NEARPOSE:
      if (s.map.scans.empty() && !s.mapping) return false;      // localising needs a map
      s.pose(RP{1.25, 2.5, 2.75}, {0.25, 0.5, 0.125});
      break;
    case FARPOSE:
      if (s.map.scans.empty() || !s.mapping || s.k.pf) return false;
      s.pose(RP{40, -30, 0});
      break;
    case ODDPOSE: s.pose(RP{0.5, 0, 0}, {0.01, 0.01, 0.01}, false); break;
    case LOAD: s.load("other"); break;
    case DISABLE: s.disable(); break;
    case ENABLE: s.enable(); break;
    case EMPTY: s.scan(RP{0.5, 0, 0}, Sim::EMPTY); break;
    case LOAD_ON: s.combined(true, true, "other"); break;
    case LOAD_OFF: s.combined(false, true, "other"); break;
    case SAVE_ON: s.combined(true, false, s.last_saved = "saved" + std::to_string(s.saves++)); break;
    case SAVE_OFF: s.combined(false, false, s.last_saved = "saved" + std::to_string(s.saves++)); break;
    case RELOAD: s.load(s.last_saved); break;
    case SAVE: {
        static int n = 0;
        std::string f = "at" + std::to_string(n++);
        s.save(f);
        break;
      }
  }
  s.c.step();
  return true;
}

static void histories(mc::Ctx & c, const NodeCfg & k, const std::vector<int> & pre, const std::vector<int> & alpha, int len)
{
  std::vector<int> ev;
  for (int i = 0; i < len; ++i) ev.push_back(alpha[c.choose(alpha.size(), "event")]);
  run_sim(c, k, [&](Sim & s) {
      s.start();
      if (!k.map_file.empty()) s.pose(RP{0.25, 0.125, -0.375});
      for (int e : pre) apply(s, e);
      for (int e : ev) if (!apply(s, e)) return;
      s.check_map("at the end");
      s.settle(2);
      s.check_tf();
      s.check_tf_newest();
      s.check_map("after publishing");
    });
}
static void add_histories(const char * name, const char * bound, NodeCfg k, const std::vector<int> & pre, const std::vector<int> & alpha, int len, int deep)
{
  k.limit = 0;
  suites.push_back({name, bound, 2, [=](mc::Ctx & c) { histories(c, k, pre, alpha, c.thorough ? deep : len); }});
}

// Corrections of all sizes, covariances of all shapes
static std::vector<Answer> answers(double score)
{
  std::vector<Answer> v;
  auto add = [&](double x, double y, double th, double sc, double vx, double vy, double vth, double xy = 0, double xth = 0, double yth = 0) {
      Answer a;
      a.score = sc;
      a.correction = Pose2d(x, y, th);
      a.cov << vx, xy, xth, xy, vy, yth, xth, yth, vth;
      v.push_back(a);
    };
  add(0, 0, 0, score, 0.01, 0.02, 0.04);
  add(1.75, -0.0625, 0.02, score * 0.875, 1e-6, 1e-7, 1e-5);
  add(-0.125, 6.5, -0.25, score, 0.5, 0.25, 0.125, 0.1, -0.05, 0.02);
  add(0.0625, 0.03125, 2.75, score, 4.0, 1e-4, 25.0, 1e-3);
  add(0.03125, -0.03125, 0.0625, score * 0.0078125, 0.04, 0.02, 0.01, 0, 1e-3);
  add(-12.0, -9.0, -3.0, score * 0.9375, 90.0, 40.0, 9.0, -20.0, 3.0, 1.0);
  return v;
}
static void corrections(mc::Ctx & c, const NodeCfg & k, int len)
{
  auto list = answers(-0.5);
  list[0].score = 0;
  run_sim(c, k, [&](Sim & s) {
      s.answer = [&](bool, const std::vector<Known> &, int) { return list[sched::decide(list.size(), "answer")]; };
      s.start();
      if (!k.map_file.empty()) s.pose(RP{0.25, 0.125, -0.375});
      else s.scan(RP{0.5, 0, 0});
      for (int i = 0; i < len; ++i) { s.scan(i % 2 ? RP{0.5, 0.125, 0.25} : RP{-0.25, 0.5, -1.5}); c.step(); }
      s.check_map("at the end");
      s.settle(2);
      s.check_tf();
      s.check_tf_newest();
    });
}

// ------------------------------------------------------------------------------------- C22
struct LoopSetup
{
  NodeCfg node;
  std::vector<RP> motions;
  std::vector<double> scores;      // answers of the matcher to a loop closure
  std::vector<Answer> answers;     // or these instead
  std::vector<int> others;         // further events
  int len = 4;
  bool wait_each = false;          // background threads run after each event, instead of being an event
};
static void loops(mc::Ctx & c, const LoopSetup & k, int len)
{
  run_sim(c, k.node, [&](Sim & s) {
      s.answer = [&](bool loop, const std::vector<Known> & known, int tag) {
          Answer a = s.standard(loop, known, tag);
          if (loop && !k.answers.empty()) return k.answers[sched::decide(k.answers.size(), "answer")];
          if (loop) {
            size_t i = sched::decide(k.scores.size(), "score");
            a.score = k.scores[i];
            a.correction = Pose2d(0.03125, -0.0625 + 0.01 * (tag % 4), 0.01);
          }
          return a;
        };
      s.start();
      if (!k.node.map_file.empty()) s.pose(RP{0.25, 0.125, -0.375});
      int nm = k.motions.size(), no = k.others.size();
      for (int i = 0; i < len; ++i) {
        int e = sched::decide(nm + no + (k.wait_each ? 0 : 1), "event");
        if (e < nm) s.scan(k.motions[e]);
        else if (e < nm + no) { if (!apply(s, k.others[e - nm])) return; }
        else s.settle(1);
        if (k.wait_each) s.settle(1);
        c.step();
      }
      s.settle(2);
      s.check_map("at the end");
      size_t before = mock().matches.size();
      s.settle(2);
      c.check(mock().matches.size() == before, "scans are considered again");
      c.observe(s.optimised);
    });
}
static void add_loops(const char * name, const char * bound, const LoopSetup & k, int deep, bool thorough_only = false)
{
  suites.push_back({name, bound, 3, [=](mc::Ctx & c) { loops(c, k, c.thorough ? deep : k.len); }, thorough_only});
}

// ------------------------------------------------------------------------------------- C23
enum FaultEv { F_SCAN, F_TURN, F_POSE, F_LOAD, F_SAVE, F_LOAD_SAVED };
static void faults(mc::Ctx & c, const NodeCfg & k, int pre, int len, int max_faults)
{
  int kind = c.choose(4, "kind of failure");
  run_sim(c, k, [&](Sim & s) {
      verif::world().tf_error = kind;
      verif::world().bag_error = kind % 2;
      int left = max_faults;
      int lookups = 0, fail_lookup = -1;
      bool failed = false;
      s.r.tf_fails = [&](const std::string &, const std::string &, int64_t) {
          bool f = lookups++ == fail_lookup;
          failed |= f;
          return f;
        };
      s.start();
      if (!k.map_file.empty()) s.pose(RP{0.25, 0.125, -0.375});
      for (int i = 0; i < pre; ++i) s.scan(RP{0.5, 0.125, 0.25});
      int files = 0;
      std::string good;          // what a failed save leaves behind is not a map
      for (int i = 0; i < len; ++i) {
        int e = sched::decide(6, "event");
        lookups = 0;
        failed = false;
        fail_lookup = -1;
        int64_t fail_bag = -1;
        bool io = e == F_LOAD || e == F_SAVE || e == F_LOAD_SAVED;
        if (left > 0) {
          int f = sched::decide(io ? 16 : 5, "fault");      // 0: none
          if (f) {
            if (io) fail_bag = f - 1;
            else fail_lookup = f - 1;
          }
        }
        auto & w = verif::world();
        w.bag_ops = 0;
        w.bag_fail_at = fail_bag;
        auto io_failed = [&]() { bool f = fail_bag >= 0 && w.bag_ops > fail_bag; w.bag_fail_at = -1; w.bag_ops = 0; return f; };
        switch (e) {
          case F_SCAN:
          case F_TURN:
            s.scan_with(e == F_SCAN ? RP{0.5, 0.125, 0.25} : RP{0.03125, 0, 0.625}, [&]() { return failed; });
            break;
          case F_POSE: s.pose_with(RP{1.25, 0.5, 2.75}, [&]() { return !failed; }); break;
          case F_LOAD: s.load_with("other", [&]() { return !io_failed(); }); break;
          case F_LOAD_SAVED: s.load_with(good.empty() ? "missing" : good, [&]() { return !io_failed(); }); break;
          case F_SAVE: {
              std::string f = "f" + std::to_string(files++);
              s.save_with(f, [&]() { bool ok = !io_failed(); if (ok) good = f; return ok; });
              break;
            }
        }
        w.bag_fail_at = -1;
        if (failed || (fail_bag >= 0 && io)) --left;
        c.step();
        fail_lookup = -1;
        s.check_map("after the event");
      }
      s.settle(2);
      s.check_tf();
      s.check_map("at the end");
    });
}
// every record of a file cut short
static void broken_file(mc::Ctx & c, const NodeCfg & k)
{
  int record = c.choose(7, "record"), how = c.choose(4, "cut");
  bool runtime = c.flip("load at runtime");
  run_sim(c, k, [&](Sim & s) {
      s.start();
      if (!k.map_file.empty()) s.pose(RP{0.25, 0.125, -0.375});
      s.scan(RP{0.5, 0.125, 0.25});
      s.scan(RP{0.5, 0.125, 0.25});
      bool cut = false;
      {
        sched::Quiet q;
        auto & bag = verif::world().disk["other"];
        if (record < static_cast<int>(bag.size())) {
          auto & d = bag[record].data;
          cut = true;
          if (how == 0) d.clear();
          else if (how == 1) d.resize(d.size() / 2);
          else if (how == 2) d.resize(d.size() - 1);
          else d.resize(3);
        }
      }
      (void)runtime;
      if (cut) { s.load_with("other", []() { return false; }); }
      s.check_map("after a file that is damaged");
      s.scan(RP{0.5, 0.125, 0.25});
      s.settle(1);
      s.check_map("at the end");
    });
}

// ------------------------------------------------------------------------------------- C17
struct Laser
{
  NodeCfg node;
  RP mount;
  bool inverted = false;
  double pitch = 0;
  float angle_min = -1, inc = 0.5, ti = 0;
  float rmin = 0.125f, rmax = 6.0f;
  double max_range = -1;
  std::vector<float> ranges;
  double heading = 0;
  RP velocity;            // of the robot in the odometry frame
  bool first = false;     // it is the first scan of the map
  bool long_scan = false;
};
static void laser(mc::Ctx & c, const Laser & k)
{
  NodeCfg node = k.node;
  node.odom0 = RP{5, -3, k.heading};
  run_sim(c, node, [&](Sim & s) {
      auto & m = s.r.mount;
      m.x = k.mount.x; m.y = k.mount.y; m.z = 0.25;
      // yaw about z, then pitch about y, then roll by pi about x if upside down
      double cy = std::cos(k.mount.th / 2), sy = std::sin(k.mount.th / 2), cp = std::cos(k.pitch / 2), sp = std::sin(k.pitch / 2), cr = k.inverted ? 0 : 1, sr = k.inverted ? 1 : 0;
      m.qw = cr * cp * cy + sr * sp * sy; m.qx = sr * cp * cy - cr * sp * sy; m.qy = cr * sp * cy + sr * cp * sy; m.qz = cr * cp * sy - sr * sp * cy;
      s.r.param("max_range", k.max_range);
      s.r.odom = [&](int64_t ns) {
          if (ns < 0) ns = s.r.latest;
          double dt = (ns - 10000000000LL) * 1e-9;
          if (dt < -1) return RP{5, -3, k.heading};
          return RP{5.5 + k.velocity.x * dt, -3.25 + k.velocity.y * dt, k.heading + k.velocity.th * dt};
        };
      s.prepare();
      s.r.start();
      sched::settle(1);
      if (!node.map_file.empty()) s.r.initialpose(RP{0.25, 0.125, -0.375});
      if (!k.first) {
        auto b = s.r.message(2000000000LL, {1.0f, 2.0f});
        b->range_min = k.rmin;
        b->range_max = k.rmax;
        s.r.send(b);
      }
      auto msg = s.r.message(10000000000LL, k.ranges);
      msg->angle_min = k.angle_min;
      msg->angle_increment = k.inc;
      msg->angle_max = k.angle_min + k.inc * (k.ranges.empty() ? 0 : k.ranges.size() - 1);
      msg->time_increment = k.ti;
      msg->range_min = k.rmin;
      msg->range_max = k.rmax;
      size_t nm = mock().matches.size();
      s.r.send(msg);
      std::vector<Point> got;
      double tol = 1e-9;
      if (k.first) {
        auto g = s.r.map();
        c.check(g->scans.size() == 1, "the map has %zu scans after its first message", g->scans.size());
        got = g->scans[0]->getPoints();
        tol = 1e-6;
      } else if (node.pf) {
        c.check(!mock().scored.empty(), "the message was not used");
        got = mock().scored.back().points;
      } else {
        c.check(mock().matches.size() == nm + 1, "the message was not used");
        got = mock().matches.back().points;
      }
      sched::Quiet q;
      if (k.pitch != 0) tol = 0.02;
      if (k.long_scan) tol = 2e-4;
      size_t n = k.ranges.size();
      double end = (n > 1 ? n - 1 : 0) * static_cast<double>(k.ti);
      // the robot's motion between first and last reading, in its own frame at the first
      RP a{5.5, -3.25, k.heading}, b{5.5 + k.velocity.x * end, -3.25 + k.velocity.y * end, k.heading + k.velocity.th * end};
      RP rel = relative(a, b);
      size_t at = 0;
      for (size_t i = 0; i < n; ++i) {
        double r = k.ranges[i], max = k.max_range < 0 ? k.rmax : k.max_range;
        if (std::isnan(r) || r < k.rmin || r > max) continue;
        double f = n > 1 ? double(i) / (n - 1) : 0, al = double(k.angle_min) + i * double(k.inc);
        ref::P lp{r * std::cos(al), r * std::sin(al)};
        if (k.inverted) lp.y = -lp.y;
        ref::P p = ref::apply(RP{k.mount.x, k.mount.y, k.mount.th}, lp);
        p = ref::apply(RP{rel.x * f, rel.y * f, rel.th * f}, p);
        c.check(at < got.size(), "reading %zu (%g) is missing: %zu points", i, r, got.size());
        c.check(std::fabs(got[at].x - p.x) <= tol && std::fabs(got[at].y - p.y) <= tol, "reading %zu (%g) became point (%.6f %.6f), the obstacle was at (%.6f %.6f)", i, r, got[at].x, got[at].y, p.x, p.y);
        c.observe(ref::hpose(got[at].x, got[at].y, 0));
        ++at;
      }
      c.check(at == got.size(), "%zu points for %zu usable readings", got.size(), at);
      c.step();
      c.state(mc::mix(at, c.outcome));
    });
}

// ------------------------------------------------------------------------------------- C29
static bool unit(const geometry_msgs::msg::Quaternion & q)
{
  return std::fabs(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w - 1) < 1e-6 && std::fabs(q.x) < 1e-9 && std::fabs(q.y) < 1e-9;
}
// Everything published from the given message on
static size_t check_usable(mc::Ctx & c, size_t from)
{
  auto & v = verif::world().published;
  size_t tfs = 0;
  for (size_t i = from; i < v.size(); ++i) {
    const int64_t clock = v[i].clock;
    auto header = [&](const std_msgs::msg::Header & h, const char * what) {
        c.check(h.frame_id == "map", "%s is published in frame '%s'", what, h.frame_id.c_str());
        int64_t t = rclcpp::Time(h.stamp).nanoseconds();
        c.check(t <= clock && t >= clock - 200000000, "%s is published at %.3f s with the time %.3f s", what, clock * 1e-9, t * 1e-9);
      };
    if (v[i].topic == "map") {
      auto & m = *std::static_pointer_cast<nav_msgs::msg::OccupancyGrid>(v[i].msg);
      header(m.header, "the map");
      c.check(m.data.size() == static_cast<size_t>(m.info.width) * m.info.height && m.info.resolution > 0, "the map has %zu cells, %ux%u", m.data.size(), m.info.width, m.info.height);
      auto & q = m.info.origin.orientation;
      c.check(unit(q) && std::fabs(q.z) < 1e-9 && std::fabs(m.info.origin.position.z) < 1e-9, "the origin of the map is turned by (%g %g %g %g)", q.x, q.y, q.z, q.w);
      int64_t t = rclcpp::Time(m.info.map_load_time).nanoseconds();
      c.check(t > 0 && t <= clock, "the map was loaded at %.3f s, published at %.3f s", t * 1e-9, clock * 1e-9);
    } else if (v[i].topic == "graph") {
      auto & m = *std::static_pointer_cast<visualization_msgs::msg::MarkerArray>(v[i].msg);
      for (auto & k : m.markers) header(k.header, "a marker");
    } else if (v[i].topic == "particlecloud") {
      auto & m = *std::static_pointer_cast<geometry_msgs::msg::PoseArray>(v[i].msg);
      header(m.header, "the particle cloud");
      c.check(!m.poses.empty(), "no particles are published");
      for (auto & k : m.poses) c.check(unit(k.orientation), "the orientation of a particle is (%g %g %g %g)", k.orientation.x, k.orientation.y, k.orientation.z, k.orientation.w);
    } else if (v[i].topic == "/tf") {
      auto & m = *std::static_pointer_cast<geometry_msgs::msg::TransformStamped>(v[i].msg);
      header(m.header, "the transform");
      c.check(m.child_frame_id == "odom", "the transform is to frame '%s'", m.child_frame_id.c_str());
      c.check(unit(m.transform.rotation) && std::fabs(m.transform.translation.z) < 1e-9, "the rotation published is (%g %g %g %g)", m.transform.rotation.x, m.transform.rotation.y, m.transform.rotation.z, m.transform.rotation.w);
      ++tfs;
    }
  }
  return tfs;
}
static void published(mc::Ctx & c, const NodeCfg & k, const std::vector<int> & alpha, int len)
{
  bool each = c.flip("background threads run after each event");
  std::vector<int> ev;
  const int n = alpha.size();
  for (int i = 0; i < len; ++i) ev.push_back(c.choose(n + 1, "event"));
  run_sim(c, k, [&](Sim & s) {
      s.start();
      if (!k.map_file.empty()) s.pose(RP{0.25, 0.125, -0.375});
      for (int e : ev) {
        if (e == n) verif::world().clock_ns += 10000000000LL;
        else if (!apply(s, alpha[e])) return;
        if (each) s.settle(1);
        c.step();
      }
      s.settle(2);
      s.check_tf();
      s.check_tf_newest();
      sched::Quiet q;
      size_t tfs = check_usable(c, 0), from = verif::world().published.size();
      auto o = verif::world().offered.find("map");
      c.check(o != verif::world().offered.end() && o->second.transient_local && o->second.reliable, "who subscribes late does not receive the map");
      verif::world().clock_ns += 10000000000LL;
      for (int i = 0; i < 12; ++i) sched::settle(1);
      size_t more = check_usable(c, from);
      if (!s.map.scans.empty()) c.check(more >= 3, "the transform is no longer published: %zu times in 12 rounds", more);
      s.check_tf();
      s.check_tf_newest();
      c.observe(tfs * 64 + verif::world().published.size());
      c.state(mc::mix(tfs, verif::world().published.size()) + ref::hpose(s.robot.x, s.robot.y, s.robot.th));
    });
}
static void add_published(const char * name, const char * bound, NodeCfg k, const std::vector<int> & alpha, int len, int deep)
{
  suites.push_back({name, bound, 2, [=](mc::Ctx & c) { published(c, k, alpha, c.thorough ? deep : len); }});
}

int main(int argc, char ** argv)
{
  sched::race_detection = false;
  NodeCfg fresh;
  NodeCfg cont;
  cont.map_file = "start";
  NodeCfg pf = cont;
  pf.pf = true;
  NodeCfg loc = cont;
  loc.mapping = false;
  (void)fresh;
#if defined(PROP_C18)
  const std::vector<int> all{FAR, CREEP, TURN, BACK, NEARPOSE, FARPOSE, ODDPOSE, LOAD, DISABLE, ENABLE, EMPTY};
  const std::vector<int> few{FAR, CREEP, NEARPOSE, LOAD, DISABLE, ENABLE};
  {
    NodeCfg k = fresh;
    k.depth = 2;
    add_histories("fresh", "fresh map, window 2: all histories of 5 (thorough 6) of 11 events", k, {}, all, 5, 6);
    add_histories("fresh-long", "fresh map, window 2: all histories of 6 (thorough 8) of 6 events after two scans", k, {FAR, FAR}, few, 6, 8);
    k.depth = 3;
    add_histories("window", "fresh map, window 3: all sequences of 7 (thorough 9) of 4 motions", k, {}, {FAR, CREEP, TURN, BACK}, 7, 9);
    k.depth = 0;
    add_histories("window-0", "fresh map, window 0: all sequences of 3 of 4 motions", k, {}, {FAR, CREEP, TURN, BACK}, 3, 5);
    k.depth = 10;
    add_histories("window-10", "fresh map of 11 scans, window 10: all sequences of 3 of 4 motions", k, {FAR, FAR, BACK, FAR, FAR, BACK, FAR, FAR, FAR, FAR, FAR}, {FAR, CREEP, TURN, BACK}, 3, 5);
  }
  {
    NodeCfg k = cont;
    add_histories("continued", "mapping in a loaded map, window 1: all histories of 5 (thorough 6) of 11 events", k, {}, all, 5, 6);
    k.barycenter = false;
    k.depth = 2;
    add_histories("continued-poses", "the same without barycenters, window 2: all histories of 6 (thorough 7) of 6 events", k, {}, few, 6, 7);
  }
  add_histories("particle-filter", "particle filter in a loaded map: all histories of 5 (thorough 6) of 11 events", pf, {}, all, 5, 6);
  add_histories("localisation", "localisation in a loaded map: all histories of 5 (thorough 6) of 11 events", loc, {}, all, 5, 6);
  {
    NodeCfg k = cont;
    k.depth = 1;
    const std::vector<int> sw{FAR, NEARPOSE, DISABLE, ENABLE, LOAD};
    add_histories("switched", "a map made, used for localisation and extended again: all histories of 5 (thorough 6) of 5 events", k,
      {FAR, FAR, DISABLE, NEARPOSE, FAR, ENABLE, NEARPOSE, FAR}, sw, 5, 6);
    add_histories("switched-back", "the same, then localisation again: all histories of 5 (thorough 6) of 5 events", k,
      {FAR, DISABLE, NEARPOSE, FAR, ENABLE, FAR, CREEP, FAR, DISABLE, NEARPOSE, FAR}, sw, 5, 6);
    add_histories("combined", "requests that switch mapping and load or save a file at once: all histories of 5 (thorough 6) of 7 events", k,
      {FAR}, {FAR, NEARPOSE, LOAD_ON, LOAD_OFF, SAVE_ON, SAVE_OFF, RELOAD}, 5, 6);
  }
  for (int m = 0; m < 3; ++m) {
    NodeCfg k = m == 0 ? fresh : m == 1 ? cont : loc;
    k.limit = 0;
    static const char * n[] = {"corrections", "corrections-continued", "corrections-localising"};
    suites.push_back({n[m], "5 (thorough 7) scans, each corrected in one of 6 ways (none to 15 m, half a turn, scores from 0, covariances of several sizes and shapes)", 2, [=](mc::Ctx & c) { corrections(c, k, c.thorough ? 7 : 5); }});
  }
  {
    // thresholds, exactly representable
    suites.push_back({"threshold", "motions below, at and above the minimum distance and angle, in all sequences of 5 (thorough 6)", 2, [=](mc::Ctx & c) {
          const std::vector<RP> m{{0.125, 0, 0}, {0, -0.125, 0}, {0.0625, 0, 0}, {0, 0, 0.5}, {0.124, 0, 0.4}, {-0.0625, 0.0625, 0}, {0, 0, -0.2505}, {0.03125, 0, 0.2495}};
          std::vector<int> ev;
          for (int i = 0; i < (c.thorough ? 6 : 5); ++i) ev.push_back(c.choose(m.size(), "motion"));
          NodeCfg k = fresh;
          k.limit = 0;
          k.mind = 0.125;
          k.minr = 0.25;
          k.odom0 = RP{0, 0, 0};
          k.depth = 2;
          run_sim(c, k, [&](Sim & s) {
              s.start();
              s.scan(RP{0, 0, 0});
              // headings stay zero in these sequences unless a turn was made: then distances are inexact, but far from the limit or repeated exactly
              for (int e : ev) { s.scan_world(m[e]); c.step(); }
              s.check_map("at the end");
            });
        }});
  }
  return mc::run(argc, argv, "C18", suites);
#endif
#if defined(PROP_C17)
  const std::vector<float> values{1.0f, 2.5f, 4.0f, 4.5f, 0.0625f, NAN, INFINITY, -INFINITY, 0.125f, 6.0f, 7.0f, -1.0f, 0.0f};
  const std::vector<RP> mounts{{0, 0, 0}, {0.25, -0.125, 0}, {0.25, 0.125, 1.5}, {-0.5, 0.25, 3.0}, {0.0, -0.25, -2.0}};
  const std::vector<RP> moves{{0, 0, 0}, {0.5, 0, 0}, {0, -0.75, 0}, {0, 0, 1.25}, {0.5, 0.25, -1.5}, {-0.25, 0.5, 0.75}};
  const std::vector<double> headings{0, 1.5, 3.125, -2.25};
  suites.push_back({"values", "all sequences of 3 (thorough 4) of 13 readings, sensor's or configured range, upright or upside down", 2, [=](mc::Ctx & c) {
        Laser k;
        for (int i = 0; i < (c.thorough ? 4 : 3); ++i) k.ranges.push_back(c.pick(values, "reading"));
        k.max_range = c.flip("configured") ? 4.0 : -1;
        k.inverted = c.flip("inverted");
        k.velocity = {0.5, 0.25, -1.5};
        k.ti = 0.125f;
        laser(c, k);
      }});
  suites.push_back({"geometry", "5 mountings, upright or upside down, 2 first angles, 2 increments, 1 to 5 readings, 6 motions, 4 headings, with and without time between readings", 3, [=](mc::Ctx & c) {
        Laser k;
        k.mount = c.pick(mounts, "mount");
        k.inverted = c.flip("inverted");
        k.angle_min = c.flip("angle") ? 0.75f : -1.0f;
        k.inc = c.flip("increment") ? -0.25f : 0.5f;
        k.velocity = c.pick(moves, "motion");
        k.heading = c.pick(headings, "heading");
        k.ti = c.flip("time") ? 0.25f : 0.0f;
        size_t n = c.pick(std::vector<int>{1, 2, 3, 5}, "readings");
        for (size_t i = 0; i < n; ++i) k.ranges.push_back(1.0f + 0.75f * i);
        laser(c, k);
      }});
  suites.push_back({"modes", "the same message as first scan, while mapping, localising and with the particle filter, with dropped readings in all 32 patterns", 2, [=](mc::Ctx & c) {
        Laser k;
        int mode = c.choose(4, "mode");
        k.first = mode == 0;
        if (mode >= 2) { k.node.map_file = "start"; k.node.mapping = mode == 3; k.node.pf = mode == 3; }
        k.mount = c.pick(mounts, "mount");
        k.inverted = c.flip("inverted");
        k.velocity = c.pick(moves, "motion");
        k.heading = c.pick(headings, "heading");
        k.ti = 0.25f;
        int mask = c.choose(32, "readings kept");
        const float out[] = {NAN, 0.0f, 9.0f, -INFINITY, INFINITY};
        for (int i = 0; i < 5; ++i) k.ranges.push_back((mask >> i) & 1 ? 1.0f + 0.5f * i : out[i]);
        laser(c, k);
      }});
  suites.push_back({"long", "scans of 180, 361, 1081 and 4000 readings, none, every third or all in the last quarter dropped, 2 mountings, upright or upside down, 3 motions, 3 times between readings", 3, [=](mc::Ctx & c) {
        Laser k;
        size_t n = c.pick(std::vector<int>{180, 361, 1081, 4000}, "readings");
        int drop = c.choose(3, "dropped");
        k.mount = mounts[c.choose(2, "mount") * 2];
        k.inverted = c.flip("inverted");
        k.velocity = moves[c.choose(3, "motion") * 2];
        k.angle_min = -2.35f;
        k.inc = 4.7f / (n - 1);
        k.ti = c.pick(std::vector<float>{0.0f, 2e-5f, 0.000244140625f}, "time");
        k.long_scan = true;
        for (size_t i = 0; i < n; ++i) {
          float r = 1.0f + 4.0f * ((i * 37) % n) / n;
          if (drop == 1 && i % 3 == 1) r = i % 2 ? NAN : 0.0f;
          if (drop == 2 && i > n - n / 4) r = 7.0f;
          k.ranges.push_back(r);
        }
        laser(c, k);
      }});
  suites.push_back({"pitched", "a laser pitched by a few degrees is not mirrored", 1, [=](mc::Ctx & c) {
        Laser k;
        k.pitch = c.pick(std::vector<double>{0.05, -0.05, 0.01, -0.1}, "pitch");
        k.inverted = c.flip("inverted");
        k.mount = c.pick(mounts, "mount");
        k.ranges = {1.0f, 1.5f, 2.0f};
        laser(c, k);
      }});
  suites.push_back({"empty", "messages without readings, in any place of a history of 4 (thorough 6)", 1, [=](mc::Ctx & c) {
        std::vector<int> ev;
        for (int i = 0; i < (c.thorough ? 6 : 4); ++i) ev.push_back(c.choose(3, "event"));
        int mode = c.choose(4, "mode");
        NodeCfg k;
        k.limit = 0;
        if (mode) k.map_file = "start";
        k.mapping = mode != 2;
        k.pf = mode == 3;
        run_sim(c, k, [&](Sim & s) {
            s.start();
            if (mode) s.pose(RP{0.25, 0.125, -0.375});
            for (int e : ev) { apply(s, e == 0 ? EMPTY : e == 1 ? FAR : CREEP); }
            s.check_map("at the end");
            s.settle(1);
            s.check_tf();
          });
      }});
  return mc::run(argc, argv, "C17", suites);
#endif
#if defined(PROP_C29)
  const std::vector<int> some{FAR, TURN, NEARPOSE, LOAD, DISABLE, ENABLE};
  add_published("fresh", "mapping from nothing: all histories of 4 (thorough 6) of {2 motions, initial pose, load, disable, enable, ten seconds pass}, background threads run after each event or at the end", fresh, some, 4, 6);
  add_published("continued", "mapping in a loaded map: the same", cont, some, 4, 6);
  add_published("localisation", "localisation by matching: the same", loc, some, 4, 6);
  add_published("particle-filter", "localisation by particle filter: the same", pf, some, 4, 6);
  return mc::run(argc, argv, "C29", suites);
#endif
#if defined(PROP_C22)
  const RP fwd{0.53125, 0.125, 0.25}, back{-0.40625, 0.0625, -0.375}, away{3.0, 0.5, 0.5};
  {
    LoopSetup k;
    k.node.depth = 1;
    k.node.limit = 2;
    k.motions = {fwd, back};
    k.scores = {-0.9, -0.1};
    k.len = 6;
    add_loops("accept-reject", "window 1, limit 2: 6 (thorough 7) of {two motions, background threads run}, each match good or bad", k, 7);
  }
  {
    LoopSetup k;
    k.node.depth = 1;
    k.node.limit = 1;
    k.motions = {fwd};
    k.scores = {-0.9, -0.1, -0.5, std::nan(""), -INFINITY, INFINITY};
    k.len = 6;
    k.wait_each = true;
    add_loops("scores", "window 1, limit 1: 6 scans, each match one of 6 scores (good, bad, just typical, nan, -inf, inf)", k, 7);
  }
  {
    LoopSetup k;
    k.node.depth = 1;
    k.node.limit = 1;
    k.node.search = 3.0;
    k.motions = {fwd};
    k.answers = answers(-0.9);
    k.answers.push_back(k.answers[2]);
    k.answers.back().score = -0.1;
    k.len = 5;
    k.wait_each = true;
    add_loops("corrections", "window 1, limit 1, radius 3: 5 (thorough 7) scans, each closed in one of 6 ways (corrections from none to 15 m and half a turn, covariances of several sizes and shapes) or not", k, 7);
    k.wait_each = false;
    k.len = 6;
    k.node.search = 50;
    add_loops("corrections-later", "the same with radius 50: 6 (thorough 7) events", k, 7);
  }
  for (int limit : {0, 1, 3}) {
    LoopSetup k;
    k.node.depth = limit == 3 ? 0 : 2;
    k.node.limit = limit;
    k.node.search = limit == 3 ? 0.75 : 2.0;
    k.motions = {fwd, back, away};
    k.scores = {-0.9};
    k.len = 7;
    static const char * n[] = {"limit-0", "limit-1", "", "limit-3"};
    static const char * b[] = {"window 2, limit 0: 7 events (thorough 9)", "window 2, limit 1, radius 2", "", "window 0, limit 3, radius 0.75"};
    add_loops(n[limit], b[limit], k, 9);
  }
  {
    LoopSetup k;
    k.node.depth = 1;
    k.node.limit = 2;
    k.node.search = 1.25;
    k.node.barycenter = false;
    k.motions = {fwd, back};
    k.scores = {-0.9};
    k.len = 8;
    add_loops("poses", "distances between poses; window 1, limit 2, radius 1.25: 8 (thorough 10) events", k, 10);
  }
  for (int nl : {0, 2}) {
    LoopSetup k;
    k.node.depth = 1;
    k.node.limit = 1;
    k.node.node_limit = nl;
    k.motions = {fwd, back};
    k.scores = {-0.9, -0.1};
    k.len = 6;
    k.wait_each = false;
    add_loops(nl ? "optimise-2" : "optimise-0", nl ? "optimiser after 2 more nodes: 6 (thorough 7) events, each match good or bad" : "optimiser after every new match: 6 (thorough 7) events", k, 7);
  }
  {
    LoopSetup k;
    k.node.depth = 1;
    k.node.limit = 2;
    k.motions = {fwd};
    k.scores = {-0.9, -0.1};
    k.others = {NEARPOSE, LOAD, DISABLE, ENABLE};
    k.len = 5;
    add_loops("modes", "window 1, limit 2: 5 (thorough 6) of {scan, initial pose, load, disable, enable, background threads run}", k, 6);
    k.node.map_file = "start";
    k.scores = {-0.9};
    k.len = 6;
    add_loops("continued", "the same in a loaded map: 6 (thorough 7)", k, 7);
    k.node.node_limit = 1;
    k.len = 6;
    add_loops("continued-optimise", "the same with the optimiser: 6 (thorough 7)", k, 7);
  }
  {
    LoopSetup k;
    k.node.depth = 1;
    k.node.map_file = "start";
    k.node.mapping = false;
    k.motions = {fwd};
    k.scores = {-0.9};
    k.others = {NEARPOSE, LOAD, DISABLE, ENABLE};
    k.len = 6;
    add_loops("localisation", "localisation by matching: 6 (thorough 7) events", k, 7);
    k.node.mapping = true;
    k.node.pf = true;
    add_loops("particle-filter", "localisation by particle filter: 6 (thorough 7) events", k, 7);
  }
  for (int limit : {1, 2}) {
    suites.push_back({limit == 1 ? "threads-1" : "threads-2", limit == 1 ? "limit 1; up to 2 scans while loop closure and publishing run in any order; 1 (thorough 2) preemption, threads wake once (twice)" : "limit 2; the same", 4, [=](mc::Ctx & c) {
          NodeCfg k;
          k.depth = 1;
          k.limit = limit;
          int n = 1 + c.choose(2, "scans"), with_pose = c.choose(2, "initial pose in between");
          run_sim(c, k, [&](Sim & s) {
              s.exact = false;
              s.start();
              for (int i = 0; i < 3; ++i) s.scan(fwd);
              sched::explore(c.thorough ? 2 : 1, c.thorough ? 2 : 1);
              for (int i = 0; i < n; ++i) {
                sched::idle();
                s.scan(fwd);
                if (with_pose) { sched::idle(); s.pose(RP{1, 1, 1}); }
                c.step();
              }
              sched::idle();
              sched::stop();
              sched::settle(3);
              auto g = s.r.map();
              sched::Quiet q;
              s.check_map_structure(*g, false);
              std::vector<int> loops(s.map.scans.size());
              for (auto & e : g->constraints) if (e->switchable) loops[e->end]++;
              for (size_t i = 2; i < loops.size(); ++i) {
                c.check(loops[i] == std::min<int>(limit, i - 1), "scan %zu has %d loop closures, must have been considered against its %d nearest", i, loops[i], std::min<int>(limit, i - 1));
              }
            });
        }});
  }
  for (int limit : {1, 2}) {
    suites.push_back({limit == 1 ? "threads-off-1" : "threads-off-2", limit == 1 ? "limit 1; mapping is disabled and enabled again while loop closure is under way; 1 (thorough 2) preemption, threads wake once (twice)" : "limit 2; the same", 4, [=](mc::Ctx & c) {
          NodeCfg k;
          k.depth = 1;
          k.limit = limit;
          int n = c.choose(2, "scans in between");
          run_sim(c, k, [&](Sim & s) {
              s.exact = false;
              s.start();
              for (int i = 0; i < 3; ++i) s.scan(fwd);
              sched::explore(c.thorough ? 2 : 1, c.thorough ? 2 : 1);
              for (int i = 0; i < n; ++i) { sched::idle(); s.scan(fwd); }
              sched::idle();
              s.disable();
              sched::idle();
              s.enable();
              sched::idle();
              sched::stop();
              sched::settle(3);
              auto g = s.r.map();
              sched::Quiet q;
              s.check_map_structure(*g, false);
              std::vector<std::set<size_t>> loops(s.map.scans.size());
              for (auto & e : g->constraints) if (e->switchable) loops[e->end].insert(e->begin);
              for (size_t i = 2; i < loops.size(); ++i) {
                c.check(loops[i].size() == std::min<size_t>(limit, i - 1), "scan %zu has loop closures with %zu others, must have been considered against its %zu nearest", i, loops[i].size(), std::min<size_t>(limit, i - 1));
              }
            });
        }});
  }
  suites.push_back({"long", "260 scans, background threads run after each, after 50 or only at the end; limit 0, 1 or 20; the sequential score changes after none, 60 or 120 scans", 2, [=](mc::Ctx & c) {
        int every = c.pick(std::vector<int>{1, 50, 1000}, "background"), limit = c.pick(std::vector<int>{0, 1, 20}, "limit"), from = c.pick(std::vector<int>{0, 60, 120}, "change");
        int i = 0;
        NodeCfg k;
        k.depth = limit == 20 ? 60 : 1;
        k.limit = limit;
        run_sim(c, k, [&](Sim & s) {
            s.sensor_max = 100.0f;
            s.r.param("max_range", 100.0);
            s.answer = [&](bool l, const std::vector<Known> & known, int tag) {
                Answer a = s.standard(l, known, tag);
                a.score = l ? -0.5 : i < from ? -0.9 : -0.2;
                return a;
              };
            s.start();
            for (; i < 260; ++i) { s.scan(RP{0.53125, 0.03125, 0.0625}); if (i % every == every - 1) s.settle(1); c.step(); }
            s.settle(2);
            s.check_map("at the end");
            c.observe(s.map.edges.size());
          });
      }});
  suites.push_back({"typical", "30 scans; the typical score moves through the score of the loop closures, for all pairs of scores", 1, [=](mc::Ctx & c) {
        double local = c.pick(std::vector<double>{-0.9, -0.6, -0.25}, "sequential"), loop = c.pick(std::vector<double>{-0.7, -0.55, -0.52, -0.45, -0.3}, "loop");
        NodeCfg k;
        k.depth = 1;
        k.limit = 1;
        run_sim(c, k, [&](Sim & s) {
            s.answer = [&](bool l, const std::vector<Known> & known, int tag) {
                Answer a = s.standard(l, known, tag);
                a.score = l ? loop : local;
                return a;
              };
            s.start();
            for (int i = 0; i < 30; ++i) { s.scan(fwd); s.settle(1); c.step(); }
            s.check_map("at the end");
          });
      }});
  suites.push_back({"typical-switched", "the same while mapping, localising in that or a loaded map and mapping again: all combinations of three sequential, two localisation and four loop closure scores x 3 ways to get there", 1, [=](mc::Ctx & c) {
        double first = c.pick(std::vector<double>{-0.9, -0.25}, "sequential"), there = c.pick(std::vector<double>{-0.95, -0.1}, "localising"), then = c.pick(std::vector<double>{-0.9, -0.5, -0.25}, "sequential again"), loop = c.pick(std::vector<double>{-0.7, -0.6, -0.45, -0.3}, "loop");
        int how = c.choose(3, "how");
        NodeCfg k;
        k.depth = 1;
        k.limit = 1;
        run_sim(c, k, [&](Sim & s) {
            double local = first;
            s.answer = [&](bool l, const std::vector<Known> & known, int tag) {
                Answer a = s.standard(l, known, tag);
                a.score = l ? loop : local;
                return a;
              };
            s.start();
            for (int i = 0; i < 8; ++i) { s.scan(fwd); c.step(); }
            local = there;
            if (how) s.disable();
            if (how == 2) s.load("other");
            if (how) s.pose(RP{1.25, 2.5, 2.75});
            for (int i = 0; how && i < 12; ++i) { s.scan(fwd); c.step(); }
            local = then;
            if (how) s.enable();
            if (how) s.pose(RP{1.25, 2.5, 2.75});
            for (int i = 0; i < 8; ++i) { s.scan(fwd); s.settle(1); c.step(); }
            s.check_map("at the end");
            c.observe(s.map.edges.size());
          });
      }});
  return mc::run(argc, argv, "C22", suites);
#endif
#if defined(PROP_C23)
  fresh.limit = cont.limit = pf.limit = loc.limit = 0;
  fresh.depth = cont.depth = 2;
  auto f = [](const char * name, const char * bound, NodeCfg k, int pre, int len, int n, int deep, int deep_n) {
      suites.push_back({name, bound, 3, [=](mc::Ctx & c) { faults(c, k, pre, c.thorough ? deep : len, c.thorough ? deep_n : n); }});
    };
  f("fresh", "fresh map: all histories of 3 events with up to 2 faults at any operation", fresh, 0, 3, 1, 4, 2);
  f("fresh-2", "map of two scans: all histories of 3 events with up to 2 faults at any operation", fresh, 2, 3, 1, 4, 2);
  f("continued", "mapping in a loaded map", cont, 1, 3, 1, 4, 2);
  f("particle-filter", "particle filter", pf, 1, 3, 1, 4, 2);
  f("localisation", "localisation", loc, 0, 3, 1, 4, 2);
  f("localisation-2", "localisation after two scans, two faults", loc, 2, 2, 2, 3, 3);
  for (int i = 0; i < 4; ++i) {
    NodeCfg k = i == 0 ? fresh : i == 1 ? cont : i == 2 ? pf : loc;
    static const char * n[] = {"damaged-fresh", "damaged-continued", "damaged-particle-filter", "damaged-localisation"};
    suites.push_back({n[i], "loading a file of which each record is cut short in each of 4 ways", 1, [=](mc::Ctx & c) { broken_file(c, k); }});
  }
  return mc::run(argc, argv, "C23", suites);
#endif
}
