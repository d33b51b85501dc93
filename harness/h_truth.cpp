// C30: the whole node with its own matcher in a world whose truth is known: a room traced by rays,
// a robot that moves in it, also while the laser turns, and odometry that errs. Whatever the robot
// does within the bounds, the map made and the poses found must be those of the room.
#include <algorithm>
#include "mapper_util.hpp"

struct Box { double x0, y0, x1, y1; };
static const std::vector<Box> g_boxes{{-3.1, -2.3, 4.2, 3.6}, {1.6, 1.3, 2.4, 2.2}, {-1.9, -1.4, -1.2, -0.3}, {2.7, -1.7, 3.2, -1.1}};
static double ray(const RP & p, double a)
{
  double dx = std::cos(p.th + a), dy = std::sin(p.th + a), best = 1e9;
  for (auto & b : g_boxes) {
    const double e[4][4] = {{b.x0, b.y0, b.x1, b.y0}, {b.x1, b.y0, b.x1, b.y1}, {b.x1, b.y1, b.x0, b.y1}, {b.x0, b.y1, b.x0, b.y0}};
    for (auto & l : e) {
      double ex = l[2] - l[0], ey = l[3] - l[1], den = dx * ey - dy * ex;
      if (std::fabs(den) < 1e-12) continue;
      double t = ((l[0] - p.x) * ey - (l[1] - p.y) * ex) / den, u = ((l[0] - p.x) * dy - (l[1] - p.y) * dx) / den;
      if (t > 0.01 && u >= 0 && u <= 1) best = std::min(best, t);
    }
  }
  return best;
}
static double to_wall(double x, double y)
{
  double best = 1e9;
  for (auto & b : g_boxes) {
    const double e[4][4] = {{b.x0, b.y0, b.x1, b.y0}, {b.x1, b.y0, b.x1, b.y1}, {b.x1, b.y1, b.x0, b.y1}, {b.x0, b.y1, b.x0, b.y0}};
    for (auto & l : e) {
      double ex = l[2] - l[0], ey = l[3] - l[1];
      double u = std::max(0.0, std::min(1.0, ((x - l[0]) * ex + (y - l[1]) * ey) / (ex * ex + ey * ey)));
      best = std::min(best, std::hypot(l[0] + u * ex - x, l[1] + u * ey - y));
    }
  }
  return best;
}

enum { BEAMS = 400 };
static const float FIRST = -3.1f, STEP = 6.2f / BEAMS;
static const RP ODOM0{5, 2, 1};

struct Truth
{
  mc::Ctx & c;
  Rig r;
  RP robot{0, 0, 0}, odom = ODOM0, vel{0, 0, 0}, mount{0, 0, 0};
  bool inverted = false;
  int64_t t = 0;
  std::map<int64_t, std::pair<RP, RP>> at;      // odometry pose at the start of a message, velocity
  std::vector<RP> stops;

  explicit Truth(mc::Ctx & ctx, const RP & start = RP{0, 0, 0}) : c(ctx), robot(start)
  {
    sched::Quiet q;
    verif::world().params["scan_matcher_type"] = std::string("ndt_2d::ScanMatcherNDT");
    r.param("max_range", 9.0);
    r.param("resolution", 0.1);
    matcher("local_scan_matcher", 0.1, 0.02, 0.08, 0.016);
    matcher("global_scan_matcher", 0.1, 0.02, 0.08, 0.016);
    r.parami("global_search_limit", 0);
    r.odom = [this](int64_t ns) {
        auto i = at.upper_bound(ns);
        if (i == at.begin()) return odom;
        --i;
        double s = std::min(0.5, (ns - i->first) * 1e-9);
        auto & v = i->second.second;
        return ref::compose(i->second.first, RP{v.x * s, v.y * s, v.th * s});
      };
  }
  void matcher(const std::string & n, double ls, double lr, double as, double ar)
  {
    r.param(n + ".ndt_resolution", 0.5);
    r.param(n + ".search_angular_size", as);
    r.param(n + ".search_angular_resolution", ar);
    r.param(n + ".search_linear_size", ls);
    r.param(n + ".search_linear_resolution", lr);
    r.parami(n + ".laser_max_beams", 60);
  }
  void start()
  {
    if (inverted) r.mount = verif::TfAnswer{mount.x, mount.y, 0, std::cos(mount.th / 2), std::sin(mount.th / 2), 0, 0};
    else r.mount = verif::TfAnswer{mount.x, mount.y, 0, 0, 0, std::sin(mount.th / 2), std::cos(mount.th / 2)};
    r.start();
    sched::settle(1);
  }
  // readings of a turn of the laser
  std::vector<float> look(const RP & p, double ti) const
  {
    std::vector<float> v;
    for (int i = 0; i < BEAMS; ++i) {
      double s = ti * i, a = FIRST + i * STEP;
      RP now = ref::compose(p, RP{vel.x * s, vel.y * s, vel.th * s});
      v.push_back(static_cast<float>(ray(ref::compose(now, mount), inverted ? -a : a) + 0.008 * std::sin(5.0 * i + p.x)));
    }
    return v;
  }
  // The robot moves, and odometry says it moved differently
  void move(const RP & motion, const RP & error)
  {
    sched::Quiet q;
    RP rest{0, 0, 0};
    if (t) {
      // what it moved while the laser turned
      double s = ti() * (BEAMS - 1);
      rest = RP{vel.x * s, vel.y * s, vel.th * s};
    }
    RP m = ref::compose(rest, motion);
    robot = ref::compose(robot, m);
    odom = ref::compose(odom, RP{m.x + error.x, m.y + error.y, m.th + error.th});
  }
  double ti() const { return vel.x || vel.y || vel.th ? static_cast<double>(0.0006f) : 0; }
  void scan()
  {
    std::shared_ptr<sensor_msgs::msg::LaserScan> m;
    {
      sched::Quiet q;
      t += 1000000000LL;
      at[t] = {odom, vel};
      m = r.message(t, look(robot, ti()));
      m->angle_min = FIRST;
      m->angle_increment = STEP;
      m->angle_max = FIRST + STEP * (BEAMS - 1);
      m->range_max = 9.0f;
      m->time_increment = static_cast<float>(ti());
      stops.push_back(robot);
    }
    r.send(m);
  }
  void near(const RP & got, const RP & want, double d, double a, const char * what)
  {
    c.observe(ref::hpose(got.x, got.y, got.th));
    c.check(std::hypot(got.x - want.x, got.y - want.y) < d && std::fabs(wrap(got.th - want.th)) < a, "%s is thought to be at (%.3f %.3f %.3f), really it is at (%.3f %.3f %.3f)",
      what, got.x, got.y, wrap(got.th), want.x, want.y, wrap(want.th));
  }
  // where others find the robot
  void check_robot(double d, double a)
  {
    sched::Quiet q;
    auto tf = r.last<geometry_msgs::msg::TransformStamped>("/tf");
    c.check(tf != nullptr, "no transform is published");
    near(ref::compose(of_tf(*tf), odom), robot, d, a, "the robot");
  }
  void check_scans(const std::vector<RP> & want, double d, double a)
  {
    auto g = r.map();
    sched::Quiet q;
    c.check(g->scans.size() == want.size(), "the map has %zu scans, must have %zu", g->scans.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) {
      near(rp(g->scans[i]->getPose()), want[i], d, a, ("scan " + std::to_string(i)).c_str());
    }
  }
  // The map published: obstacles only at walls, walls that were seen are there, and the robot's way is free
  void check_grid(double d)
  {
    sched::Quiet q;
    auto m = r.last<nav_msgs::msg::OccupancyGrid>("map");
    c.check(m != nullptr, "no map is published");
    const double res = m->info.resolution;
    const int w = m->info.width, h = m->info.height;
    auto cell = [&](int i, int j) { return i < 0 || j < 0 || i >= w || j >= h ? -1 : m->data[static_cast<size_t>(j) * w + i]; };
    size_t occupied = 0;
    for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) {
      if (cell(i, j) != 100) continue;
      ++occupied;
      double x = m->info.origin.position.x + (i + 0.5) * res, y = m->info.origin.position.y + (j + 0.5) * res;
      c.check(to_wall(x, y) < d + 1.5 * res, "the map shows an obstacle at (%.2f %.2f), %.2f m from any wall", x, y, to_wall(x, y));
    }
    auto find = [&](double x, double y, int value) {
        int i0 = std::floor((x - m->info.origin.position.x) / res), j0 = std::floor((y - m->info.origin.position.y) / res);
        int n = std::ceil(d / res);
        for (int j = j0 - n; j <= j0 + n; ++j) for (int i = i0 - n; i <= i0 + n; ++i) if (cell(i, j) == value) return true;
        return false;
      };
    for (auto & s : stops) {
      c.check(find(s.x, s.y, 0), "the map does not show that the robot was at (%.2f %.2f)", s.x, s.y);
      for (int i = 0; i < 16; ++i) {
        double a = i * M_PI / 8, l = ray(s, a);
        double x = s.x + l * std::cos(s.th + a), y = s.y + l * std::sin(s.th + a);
        double hx = s.x + l / 2 * std::cos(s.th + a), hy = s.y + l / 2 * std::sin(s.th + a);
        // seen from straight ahead, by more than one reading
        bool wall = l < 2.5;
        for (double e : {-0.08, 0.08}) wall = wall && std::fabs(ray(s, a + e) - l) < 0.1;
        if (wall) c.check(find(x, y, 100), "the map does not show the wall at (%.2f %.2f)", x, y);
        if (l < 2.5) c.check(find(hx, hy, 0), "the map does not show that there is nothing at (%.2f %.2f)", hx, hy);
      }
    }
    c.check(occupied > 50, "the map shows %zu obstacles", occupied);
  }
  void end()
  {
    sched::Quiet q;
    c.state(c.outcome);
    r.shutdown(true);
  }
};
static const std::vector<RP> g_motions{{0.45, 0.05, 0.1}, {0.25, 0, 0.4}, {-0.3, 0.15, -0.3}, {0.03, 0.02, -0.05}};
static const std::vector<RP> g_errors{{0.05, -0.04, 0.03}, {-0.06, 0.03, -0.045}, {0, 0, 0}};
// the smallest motion comes with little error
static RP error(int motion, int e) { double s = motion == 3 ? 0.125 : 1; return RP{s * g_errors[e].x, s * g_errors[e].y, s * g_errors[e].th}; }
static bool far_enough(const RP & a, const RP & b) { return std::hypot(a.x - b.x, a.y - b.y) >= 0.1 || std::fabs(wrap(a.th - b.th)) >= 1; }


static const double D = 0.05, A = 0.035;      // half as much again as is reached; odometry errs by more in each step

static void mapping(mc::Ctx & c)
{
  const int n = c.thorough ? 6 : 4;
  std::vector<int> mv, er;
  for (int i = 0; i < n; ++i) { mv.push_back(c.choose(g_motions.size(), "motion")); er.push_back(c.choose(2, "odometry error")); }
  sched::run(c, [&]() {
      Truth w(c);
      w.start();
      w.scan();
      std::vector<RP> want{w.robot};
      RP o = w.odom;
      for (int i = 0; i < n; ++i) {
        w.move(g_motions[mv[i]], error(mv[i], er[i]));
        w.scan();
        if (far_enough(o, w.odom)) { want.push_back(w.robot); o = w.odom; }
        c.step();
      }
      sched::settle(3);
      w.check_robot(D, A);
      w.check_scans(want, D, A);
      w.check_grid(D);
      w.end();
    });
}
// Mounted anywhere, either way up, moving or not while the laser turns
static void mounted(mc::Ctx & c)
{
  static const std::vector<RP> mounts{{0, 0, 0}, {0.3, -0.15, 0}, {-0.2, 0.1, 2.5}, {0.1, 0.2, -1.25}};
  static const std::vector<RP> vels{{0, 0, 0}, {0.8, 0, 0}, {0.3, 0, 0.9}, {-0.4, 0.3, -0.7}};
  int mt = c.choose(mounts.size(), "mount");
  bool inv = c.flip("upside down");
  const int n = c.thorough ? 3 : 2;
  std::vector<int> mv, ve{static_cast<int>(c.choose(vels.size(), "velocity"))};
  for (int i = 0; i < n; ++i) { mv.push_back(c.choose(3, "motion")); ve.push_back(c.choose(vels.size(), "velocity")); }
  sched::run(c, [&]() {
      Truth w(c);
      w.mount = mounts[mt];
      w.inverted = inv;
      w.start();
      w.vel = vels[ve[0]];
      w.scan();
      std::vector<RP> want{w.robot};
      for (int i = 0; i < n; ++i) {
        w.move(g_motions[mv[i]], error(mv[i], i % 2));
        w.vel = vels[ve[i + 1]];
        w.scan();
        want.push_back(w.robot);
        c.step();
      }
      sched::settle(3);
      w.check_robot(D, A);
      w.check_scans(want, D, A);
      w.check_grid(D);
      w.end();
    });
}
// The room as mapped on another day: three scans taken from known places, moved to where that map's origin was
static const std::vector<RP> room_poses{{0, 0, 0}, {0.7, 0.2, 0.3}, {-0.4, 0.9, -0.6}};
static void room(Truth & w, const std::string & file)
{
  sched::Quiet q;
  Graph g(true);
  Eigen::Matrix3d cov = Eigen::Matrix3d::Identity() * 1e-4;
  const RP keep = w.vel;
  w.vel = RP{0, 0, 0};
  const auto & from = room_poses;
  for (size_t i = 0; i < from.size(); ++i) {
    auto s = std::make_shared<Scan>(i);
    auto l = w.look(from[i], 0);
    std::vector<Point> v;
    for (int k = 0; k < BEAMS; ++k) {
      double a = (FIRST + k * STEP) * (w.inverted ? -1 : 1);
      RP m = w.mount;
      v.push_back(Point(m.x + l[k] * std::cos(m.th + a), m.y + l[k] * std::sin(m.th + a)));
    }
    s->setPoints(v);
    s->setPose(p2(from[i]));
    g.scans.push_back(s);
    if (i) g.constraints.push_back(makeConstraint(g.scans[i - 1], s, cov));
  }
  g.save(file);
  w.vel = keep;
}
enum How { MATCHING, DISABLED, CONTINUED };
// Localising in that room: from a pose that is not exactly right
static void localising(mc::Ctx & c, How how)
{
  static const std::vector<RP> places{{0.3, 0.2, 0.4}, {-0.5, 0.6, -2.0}};
  static const std::vector<RP> off{{0.05, -0.05, 0.04}, {-0.06, -0.03, -0.05}, {0.02, 0.07, 0}};
  const int n = c.thorough ? 4 : 3;
  int pl = c.choose(places.size(), "place"), of = c.choose(off.size(), "initial error");
  bool runtime = c.flip("map loaded at runtime");
  std::vector<int> mv, er;
  for (int i = 0; i < n; ++i) { mv.push_back(c.choose(3, "motion")); er.push_back(c.choose(2, "odometry error")); }
  sched::run(c, [&]() {
      Truth w(c, places[pl]);
      room(w, "room");
      {
        sched::Quiet q;
        if (!runtime) w.r.params("map_file", "room");
        w.r.paramb("enable_mapping", how == DISABLED || how == CONTINUED);
      }
      w.start();
      if (runtime) w.r.load("room");
      if (how == DISABLED) w.r.disable();
      RP guess{w.robot.x + off[of].x, w.robot.y + off[of].y, w.robot.th + off[of].th};
      w.r.initialpose(guess, RP{0.02, 0.02, 0.01});
      std::vector<RP> want;
      for (int i = 0; i < n; ++i) {
        w.move(g_motions[mv[i]], g_errors[i ? er[i] : 2]);
        w.scan();
        want.push_back(w.robot);
        c.step();
      }
      sched::settle(3);
      w.check_robot(D, A);
      std::vector<RP> all = room_poses;
      if (how == CONTINUED) {
        all.push_back(guess);
        all.insert(all.end(), want.begin(), want.end());
      }
      w.check_scans(all, D, A);
      if (how == CONTINUED) w.check_grid(D);
      w.end();
    });
}

// A way out and back to where it began, with odometry that nobody corrects on the way
static void loops(mc::Ctx & c)
{
  static const std::vector<std::vector<RP>> ways{
    {{0.5, 0.1, 0.3}, {0.4, -0.1, 1.2}, {0.5, 0.2, 1.4}},
    {{0.6, 0, 0}, {0.5, 0.1, -0.4}, {-0.4, 0.2, 0.5}},
    {{-0.3, 0.4, -0.7}, {-0.5, 0, 0.6}, {0.4, -0.5, 1.5}}};
  static const std::vector<RP> last{{0, 0, 0}, {0.06, -0.04, 0.08}, {-0.05, 0.08, -0.05}};
  auto & way = ways[c.choose(ways.size(), "way")];
  RP goal = last[c.choose(last.size(), "end")];
  std::vector<int> er;
  for (size_t i = 0; i <= way.size(); ++i) er.push_back(c.choose(2, "odometry error"));
  bool each = c.flip("background threads run after each scan"), bary = c.flip("use_barycenter");
  sched::run(c, [&]() {
      Truth w(c);
      {
        sched::Quiet q;
        w.matcher("local_scan_matcher", 0.004, 0.003, 0.004, 0.003);
        w.matcher("global_scan_matcher", 0.24, 0.02, 0.2, 0.02);
        w.r.parami("rolling_depth", 1);
        w.r.parami("global_search_limit", 1);
        w.r.param("global_search_size", 0.6);
        w.r.parami("optimization_node_limit", 1000);
        w.r.paramb("use_barycenter", bary);
      }
      w.start();
      w.scan();
      double drift = 0;
      for (size_t i = 0; i <= way.size(); ++i) {
        RP m = i < way.size() ? way[i] : ref::compose(ref::inverse(w.robot), goal);
        w.move(RP{m.x, m.y, wrap(m.th)}, g_errors[er[i]]);
        w.scan();
        if (each) sched::settle(1);
        c.step();
      }
      sched::settle(3);
      {
        sched::Quiet q;
        RP o = ref::compose(ref::inverse(ODOM0), w.odom);
        drift = std::max(std::fabs(o.x - goal.x), std::fabs(o.y - goal.y));
      }
      auto g = w.r.map();
      {
        sched::Quiet q;
        c.check(g->scans.size() == way.size() + 2, "the map has %zu scans", g->scans.size());
        if (drift < 0.2) w.near(rp(g->scans.back()->getPose()), goal, 0.1, 0.07, "the scan that closes the loop");
      }
      w.end();
    });
}

int main(int argc, char ** argv)
{
  sched::race_detection = false;
  return mc::run(argc, argv, "C30", {
    {"mapping", "all sequences of 4 (thorough 6) of 4 motions x 2 errors of odometry (5-7 cm and 2-3 degrees each) in a room traced by rays", 3, mapping},
    {"mounted", "4 mountings x upright or upside down x all sequences of 2 (thorough 3) of 3 motions x 4 velocities during each turn of the laser", 3, mounted},
    {"localising", "localisation by matching in a map of three scans loaded at the start or later: 2 places x 3 errors of the initial pose x all sequences of 3 (thorough 4) of 3 motions x 2 errors", 3, [](mc::Ctx & c) { localising(c, MATCHING); }},
    {"disabled", "the same with mapping disabled at runtime", 3, [](mc::Ctx & c) { localising(c, DISABLED); }},
    {"continued", "the same, extending the loaded map", 3, [](mc::Ctx & c) { localising(c, CONTINUED); }},
    {"loops", "3 ways out and back x 3 final poses x 2 errors of odometry at each of 4 steps (adding up to 20 cm) x background threads run after each scan or at the end x use_barycenter", 3, loops},
  });
}
