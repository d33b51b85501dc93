// C28: every combination of parameter values; the whole node must behave as the values say.
#include <algorithm>
#include "mapper_util.hpp"
#include "match_util.hpp"


// ---------------------------------------------------------------- frames
static void frames(mc::Ctx & c)
{
  std::string robot = c.pick(std::vector<std::string>{"base_link", "base_footprint", "robot/base"}, "robot_frame");
  std::string odom = c.pick(std::vector<std::string>{"odom", "odom_combined", "robot/odom"}, "odom_frame");
  std::string laser = c.pick(std::vector<std::string>{"laser", "base_link", "scan/frame"}, "laser frame");
  bool given = c.flip("given or default");
  bool loaded = c.flip("map loaded");
  bool mapping = c.flip("mapping");
  if (!mapping && !loaded) throw mc::Skip();
  if (!given && (robot != "base_link" || odom != "odom")) throw mc::Skip();
  sched::run(c, [&]() {
      Rig r;
      {
        sched::Quiet q;
        if (given) { r.params("robot_frame", robot); r.params("odom_frame", odom); }
        r.paramb("enable_mapping", mapping);
        if (loaded) { make_map("m", 2, 0, 0); r.params("map_file", "m"); }
        verif::world().tf = [&](const std::string & target, const std::string & source, int64_t, verif::TfAnswer & a) {
            if (target == odom && source == robot) { a.x = 2; a.y = 1; a.qw = std::cos(0.25); a.qz = std::sin(0.25); return true; }
            if (target == robot && source == laser) { a.x = 0.25; return true; }
            return false;
          };
      }
      r.start();
      sched::settle(1);
      if (loaded) r.initialpose(RP{0.125, 0.0625, 0.375});
      mock().answer = [](const std::string &, const std::vector<Known> &, const ScanPtr &) { return Answer(); };
      auto m = r.message(1000000000LL, {1, 2, 3});
      m->header.frame_id = laser;
      // travelled since the initial pose
      verif::TfAnswer moved;
      {
        sched::Quiet q;
        auto old = verif::world().tf;
        verif::world().tf = [old, odom, robot](const std::string & target, const std::string & source, int64_t t, verif::TfAnswer & a) {
            if (!old(target, source, t, a)) return false;
            if (target == odom && source == robot) a.x += 1;
            return true;
          };
      }
      r.send(m);
      sched::settle(1);
      c.step(3);
      sched::Quiet q;
      if (loaded) c.check(!mock().matches.empty(), "the message was not used: frames %s, %s and %s", odom.c_str(), robot.c_str(), laser.c_str());
      auto t = r.last<geometry_msgs::msg::TransformStamped>("/tf");
      c.check(t && t->header.frame_id == "map" && t->child_frame_id == odom, "published %s -> %s, must be map -> %s", t ? t->header.frame_id.c_str() : "", t ? t->child_frame_id.c_str() : "nothing", odom.c_str());
      auto g = r.map();
      size_t want = (loaded ? 2 : 0) + (mapping ? 1 + loaded : 0);
      c.check(g->scans.size() == want, "the map has %zu scans, must have %zu", g->scans.size(), want);
      for (auto & o : verif::world().published) {
        if (o.topic == "map") c.check(std::static_pointer_cast<nav_msgs::msg::OccupancyGrid>(o.msg)->header.frame_id == "map", "the map is not in the map frame");
      }
      c.observe(std::hash<std::string>()(t->child_frame_id + robot + laser));
      c.state(c.outcome);
      r.shutdown(true);
    });
}

// ---------------------------------------------------------------- transform_timeout
static void timeout(mc::Ctx & c)
{
  double limit = c.pick(std::vector<double>{-1, 0.0, 0.05, 0.3, 1.5}, "transform_timeout");
  static const std::vector<double> delays{0.0, 0.03, 0.1, 0.25, 0.7, 2.0};
  double d0 = c.pick(delays, "delay of the start"), d1 = c.pick(delays, "delay of the end");
  bool mapping = c.flip("mapping");
  bool pf = !mapping && c.flip("particle filter");
  double used = limit < 0 ? 0.2 : limit;
  sched::run(c, [&]() {
      Rig r;
      {
        sched::Quiet q;
        if (limit >= 0) r.param("transform_timeout", limit);
        r.paramb("enable_mapping", mapping);
        r.paramb("use_particle_filter", pf);
        if (pf) { r.parami("min_particles", 2); r.parami("max_particles", 2); }
        make_map("m", 2, 0, 0);
        r.params("map_file", "m");
        const int64_t t0 = 1000000000LL;
        r.odom = [](int64_t t) { return t < 500000000LL ? RP{0, 0, 0} : RP{1, 0, 0}; };
        r.latest = 0;
        r.tf_fails = [=](const std::string & target, const std::string &, int64_t t) {
            if (target != "odom" || t < 0) return false;
            double d = t == t0 ? d0 : d1;
            return d > verif::world().tf_wait + 1e-9;
          };
      }
      r.start();
      sched::settle(1);
      r.initialpose(RP{0.125, 0.0625, 0.375});
      auto m = r.message(1000000000LL, {1, 2, 3});
      m->time_increment = 0.125f;
      size_t n0 = mock().matches.size() + mock().scored.size();
      r.send(m);
      c.step(3);
      sched::Quiet q;
      bool was = mock().matches.size() + mock().scored.size() > n0;
      bool must = d0 <= used && d1 <= used;
      c.check(was == must, "transforms known %.2f s and %.2f s after the message, transform_timeout %.2f s: the message was %s", d0, d1, used, was ? "used" : "not used");
      c.observe(was);
      c.state(mc::mix(was, mc::hd(d0) + mc::hd(d1) + mc::hd(used)));
      r.shutdown(true);
    });
}

// ---------------------------------------------------------------- resolution, occupancy_threshold
static void drawing(mc::Ctx & c)
{
  double res = c.pick(std::vector<double>{0.05, 0.1, 0.25, 0.5, 1.0}, "resolution");
  double thr = c.pick(std::vector<double>{-1, 0.05, 0.25, 0.4, 0.6, 0.95}, "occupancy_threshold");
  bool bary = c.flip("use_barycenter");
  bool load = c.flip("loaded at runtime");
  size_t n = 1 + c.choose(3, "scans");
  sched::run(c, [&]() {
      Rig r;
      {
        sched::Quiet q;
        r.param("resolution", res);
        if (thr >= 0) r.param("occupancy_threshold", thr);
        r.paramb("use_barycenter", bary);
        make_map("m", n, 0.3, -0.2, 0.21, 8);
        if (!load) r.params("map_file", "m");
      }
      r.start();
      sched::settle(2);
      if (load) { r.load("m"); sched::settle(2); }
      c.step(2);
      sched::Quiet q;
      auto g = r.map();
      c.check(g->scans.size() == n, "the map has %zu scans, must have %zu", g->scans.size(), n);
      check_published(c, r, g, res, thr < 0 ? 0.25 : thr, "once loaded");
      auto m = r.last<nav_msgs::msg::OccupancyGrid>("map");
      c.check(std::fabs(m->info.resolution - res) < 1e-6, "the resolution published is %.4f, must be %.4f", m->info.resolution, res);
      uint64_t h = 3;
      for (auto v : m->data) h = mc::mix(h, static_cast<uint64_t>(v));
      c.observe(h);
      c.state(h);
      r.shutdown(true);
    });
}

// Cells hit by a part of the rays that touch them
static void mixed(mc::Ctx & c)
{
  double thr = c.pick(std::vector<double>{0.0, 0.03, 0.12, 0.28, 0.52, 0.73, 0.88, 0.93, 0.97, 1.0}, "occupancy_threshold");
  int n = 20, hit = c.choose(n + 1, "scans that see the near obstacle");
  sched::run(c, [&]() {
      Rig r;
      {
        sched::Quiet q;
        r.param("occupancy_threshold", thr);
        r.param("resolution", 0.05);
        Graph g(true);
        Eigen::Matrix3d cov = Eigen::Matrix3d::Identity() * 0.01;
        for (int i = 0; i < n; ++i) {
          auto s = std::make_shared<Scan>(i);
          s->setPose(Pose2d(0.01, 0.02, 0));
          s->setPoints({Point(i < hit ? 1.0 : 2.0, 0.0), Point(0.2, 1.5), Point(-0.5, -1)});
          g.scans.push_back(s);
          if (i) g.constraints.push_back(makeConstraint(g.scans[i - 1], s, cov));
        }
        g.save("m");
        r.params("map_file", "m");
      }
      r.start();
      sched::settle(2);
      c.step(2);
      sched::Quiet q;
      auto m = r.last<nav_msgs::msg::OccupancyGrid>("map");
      c.check(m != nullptr, "no map has been published");
      auto cell = [&](double x, double y) {
          int cx = std::floor((x - m->info.origin.position.x) / m->info.resolution), cy = std::floor((y - m->info.origin.position.y) / m->info.resolution);
          return static_cast<int>(m->data.at(cy * m->info.width + cx));
        };
      // of all rays that touch the cell of the near obstacle, those of hit scans end there
      int got = cell(1.01, 0.02), want = hit > thr * n ? 100 : 0;
      c.check(got == want, "threshold %.2f, %d of %d rays end in a cell: its value is %d, must be %d", thr, hit, n, got, want);
      check_published(c, r, r.map(), 0.05, thr, "once loaded");
      c.observe(got + 1000 * hit);
      c.state(got + 1000 * hit);
      r.shutdown(true);
    });
}

// ---------------------------------------------------------------- max_range
static void range(mc::Ctx & c)
{
  double max = c.pick(std::vector<double>{-1, 0, 0.75, 2.5, 6, 40}, "max_range");
  float m1 = c.pick(std::vector<float>{0.875f, 2.25f, 5, 30}, "range_max"), m2 = c.pick(std::vector<float>{1.5f, 30}, "range_max of the next");
  bool given = c.flip("given or default");
  if (!given && max >= 0) throw mc::Skip();
  double want = max < 0 ? m1 : max;
  sched::run(c, [&]() {
      Rig r;
      {
        sched::Quiet q;
        verif::world().params.erase("max_range");
        if (given) r.param("max_range", max);
        r.odom = [](int64_t t) { return RP{t * 1e-9, 0, 0}; };
      }
      r.start();
      sched::settle(1);
      const std::vector<float> ranges{0.5f, 0.8f, 1, 2, 2.5f, 3, 5, 6, 8, 20, 35};
      for (int i = 0; i < 2; ++i) {
        auto m = r.message((i + 1) * 1000000000LL, ranges);
        m->range_max = i ? m2 : m1;
        r.send(m);
      }
      c.step(2);
      sched::Quiet q;
      c.check(mock().ranges.size() == 2, "%zu scan matchers, must be a local and a global one", mock().ranges.size());
      for (auto & m : mock().ranges) c.check(std::fabs(m.second - want) < 1e-6, "%s is told a range of %.3f, must be %.3f", m.first.c_str(), m.second, want);
      auto g = r.map();
      c.check(g->scans.size() == 2, "the map has %zu scans, must have 2", g->scans.size());
      size_t n = 0;
      for (float f : ranges) n += f <= want;
      for (auto & s : g->scans) c.check(s->getPoints().size() == n, "%zu readings were used, must be the %zu up to %.3f", s->getPoints().size(), n, want);
      c.observe(n * 100 + mc::hd(want));
      c.state(c.outcome);
      r.shutdown(true);
    });
}

// ---------------------------------------------------------------- the matchers' own parameters
struct Box { double x0, y0, x1, y1; };
static double ray(const RP & p, double a)
{
  static const std::vector<Box> boxes{{-3.1, -2.3, 4.2, 3.6}, {1.6, 1.3, 2.4, 2.2}, {-1.9, -1.4, -1.2, -0.3}, {2.7, -1.7, 3.2, -1.1}};
  double dx = std::cos(p.th + a), dy = std::sin(p.th + a), best = 1e9;
  for (auto & b : boxes) {
    const double e[4][4] = {{b.x0, b.y0, b.x1, b.y0}, {b.x1, b.y0, b.x1, b.y1}, {b.x1, b.y1, b.x0, b.y1}, {b.x0, b.y1, b.x0, b.y0}};
    for (auto & l : e) {
      double ex = l[2] - l[0], ey = l[3] - l[1], den = dx * ey - dy * ex;
      if (std::fabs(den) < 1e-12) continue;
      double t = ((l[0] - p.x) * ey - (l[1] - p.y) * ex) / den, u = ((l[0] - p.x) * dy - (l[1] - p.y) * dx) / den;
      if (t > 0.01 && u >= 0 && u <= 1) best = std::min(best, t);
    }
  }
  return best;
}
enum { BEAMS = 320 };
static std::vector<float> look(const RP & p)
{
  std::vector<float> v;
  for (int i = 0; i < BEAMS; ++i) v.push_back(static_cast<float>(ray(p, -3.1 + i * 0.019375) + 0.01 * std::sin(5.0 * i)));
  return v;
}
static std::shared_ptr<sensor_msgs::msg::LaserScan> seen(Rig & r, int64_t t, const RP & p)
{
  auto m = r.message(t, look(p));
  m->angle_min = -3.1f;
  m->angle_increment = 0.019375f;
  m->angle_max = -3.1f + 0.019375f * (BEAMS - 1);
  m->range_max = 9.0f;
  return m;
}
static ScanPtr seen_scan(size_t id, const RP & pose, const RP & truth)
{
  auto s = std::make_shared<Scan>(id);
  std::vector<Point> v;
  auto l = look(truth);
  const float a0 = -3.1f, da = 0.019375f;
  for (int i = 0; i < BEAMS; ++i) { double a = a0 + i * da; v.push_back(Point(std::cos(a) * l[i], std::sin(a) * l[i])); }
  s->setPoints(v);
  s->setPose(p2(pose));
  return s;
}
static Params one(bool alt)
{
  Params p;
  p.ndt = alt ? 0.9 : 0.6; p.as = alt ? 0.17 : 0.09; p.ar = alt ? 0.065 : 0.04; p.ls = alt ? 0.21 : 0.11; p.lr = alt ? 0.085 : 0.05; p.beams = alt ? 90 : 200; p.range = 9;
  return p;
}
static Params any(mc::Ctx & c, const char * who)
{
  Params a = one(false), b = one(true), p = a;
  if (c.flip(who)) p.ndt = b.ndt;
  if (c.flip("search_angular_size")) p.as = b.as;
  if (c.flip("search_angular_resolution")) p.ar = b.ar;
  if (c.flip("search_linear_size")) p.ls = b.ls;
  if (c.flip("search_linear_resolution")) p.lr = b.lr;
  if (c.flip("laser_max_beams")) p.beams = b.beams;
  return p;
}
static void give(Rig & r, const std::string & n, const Params & p)
{
  r.param(n + ".ndt_resolution", p.ndt);
  r.param(n + ".search_angular_size", p.as);
  r.param(n + ".search_angular_resolution", p.ar);
  r.param(n + ".search_linear_size", p.ls);
  r.param(n + ".search_linear_resolution", p.lr);
  r.parami(n + ".laser_max_beams", p.beams);
}
static RP predict(const RP & robot, const RP & o0, const RP & o1) { return ref::compose(robot, ref::compose(ref::inverse(o0), o1)); }
static RP corrected(const RP & p, const Pose2d & d) { return RP{p.x + d.x, p.y + d.y, p.th + d.theta}; }
static void same_constraint(mc::Ctx & c, const ConstraintPtr & k, const Eigen::Matrix3d & want, const Params & p, const char * what)
{
  // the spread of the candidates, known no better than their spacing
  Eigen::Matrix3d got = k->information.inverse();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double res = i < 2 ? p.lr : p.ar, d = got(i, j) - want(i, j);
    c.check(i == j ? d > -1e-6 && d < res * res : std::fabs(d) < 1e-6, "%s: its covariance (%d, %d) is %.8f, with the parameters given it must be %.8f", what, i, j, got(i, j), want(i, j));
  }
}
// What a scan matcher with these parameters does (no window is a multiple of its resolution)
struct RefMatcher
{
  Params p;
  std::shared_ptr<NDT> ndt;
  void reset() { ndt.reset(); }
  typedef std::vector<ScanPtr>::const_iterator It;
  void addScans(It b, It e)
  {
    double x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9;
    for (auto i = b; i != e; ++i) {
      auto q = (*i)->getPose();
      x0 = std::min(x0, q.x - p.range); x1 = std::max(x1, q.x + p.range); y0 = std::min(y0, q.y - p.range); y1 = std::max(y1, q.y + p.range);
    }
    ndt = std::make_shared<NDT>(p.ndt, x1 - x0, y1 - y0, x0, y0);
    for (auto i = b; i != e; ++i) ndt->addScan(*i);
    ndt->compute();
  }
  double matchScan(const ScanPtr & s, Pose2d & best, Eigen::Matrix3d & cov)
  {
    auto all = s->getPoints();
    auto at = s->getPose();
    size_t n = std::min<size_t>(p.beams, all.size());
    std::vector<Point> pts(n), q(n);
    for (size_t i = 0; i < n; ++i) pts[i] = all[static_cast<size_t>(i * (static_cast<double>(all.size()) / n))];
    double top = 0, sum = 0;
    Eigen::Matrix3d k = Eigen::Matrix3d::Zero();
    Eigen::Vector3d u = Eigen::Vector3d::Zero();
    best = Pose2d();
    for (int a = 0; a * p.ar < 2 * p.as; ++a) {
      double t = a * p.ar - p.as, co = std::cos(at.theta + t), si = std::sin(at.theta + t);
      for (int i = 0; i * p.lr < 2 * p.ls; ++i) for (int j = 0; j * p.lr < 2 * p.ls; ++j) {
        double dx = i * p.lr - p.ls, dy = j * p.lr - p.ls;
        for (size_t m = 0; m < n; ++m) q[m] = Point(pts[m].x * co - pts[m].y * si + at.x + dx, pts[m].x * si + pts[m].y * co + at.y + dy);
        double score = -ndt->likelihood(q);
        if (score < top) { top = score; best = Pose2d(dx, dy, t); }
        Eigen::Vector3d x(dx, dy, t);
        k += score * x * x.transpose();
        u += score * x;
        sum += score;
      }
    }
    cov = k / sum - (u / sum) * (u / sum).transpose();
    return top / n;
  }
};
struct MatcherRig
{
  Rig r;
  std::shared_ptr<RefMatcher> local, global;
  std::map<int64_t, RP> odoms;
  RP odom{0, 0, 0};
  MatcherRig(const Params & l, const Params & g)
  {
    sched::Quiet q;
    local = std::make_shared<RefMatcher>();
    global = std::make_shared<RefMatcher>();
    local->p = l;
    global->p = g;
    verif::world().params["scan_matcher_type"] = std::string("ndt_2d::ScanMatcherNDT");
    r.param("max_range", 9.0);
    give(r, "local_scan_matcher", l);
    give(r, "global_scan_matcher", g);
    r.paramb("use_barycenter", false);
    r.odom = [this](int64_t t) { auto i = odoms.find(t); return i == odoms.end() ? odom : i->second; };
  }
};
// true poses (rounds through the room), and what odometry makes of them
static std::vector<RP> truth(size_t n)
{
  static const std::vector<RP> round{{0, 0, 0}, {0.45, 0.1, 0.2}, {0.8, -0.15, -0.1}, {0.3, 0.05, 0.15}};
  std::vector<RP> v;
  for (size_t i = 0; i < n; ++i) { RP p = round[i % 4]; v.push_back(RP{p.x + 0.02 * i, p.y - 0.013 * i, p.th + 0.01 * i}); }
  return v;
}
static std::vector<RP> odometry(const std::vector<RP> & t)
{
  std::vector<RP> v;
  for (size_t i = 0; i < t.size(); ++i) { RP p = ref::compose(RP{5, 2, 1}, t[i]); v.push_back(RP{p.x + 0.05 * std::sin(3.0 * i), p.y + 0.05 * std::cos(2.0 * i), p.th + 0.04 * std::sin(1.0 * i)}); }
  return v;
}

static void mapping(mc::Ctx & c, bool loops)
{
  Params l, g;
  if (loops) { g = any(c, "global ndt_resolution"); l = one(c.flip("local parameters")); }
  else { l = any(c, "local ndt_resolution"); g = one(c.flip("global parameters")); }
  if (loops) { l.ls *= 0.3; l.as *= 0.3; }      // odometry is not well corrected
  const std::vector<RP> g_true = truth(loops ? 9 : 4), g_odom = odometry(g_true);
  size_t depth = loops ? 1 : c.pick(std::vector<size_t>{1, 2, 10}, "rolling_depth");
  sched::run(c, [&]() {
      MatcherRig m(l, g);
      {
        sched::Quiet q;
        m.r.parami("rolling_depth", depth);
        m.r.param("global_search_size", 0.4);
        m.r.parami("global_search_limit", loops ? 1 : 0);
        m.r.parami("optimization_node_limit", 1000);
      }
      m.r.start();
      sched::settle(1);
      std::vector<ScanPtr> map;
      struct Edge { std::pair<size_t, size_t> first; Eigen::Matrix3d second; Params p; };
      std::vector<Edge> edges;
      RP robot{0, 0, 0};
      double typical = -0.5;
      size_t closed = 0;
      for (size_t i = 0; i < g_true.size(); ++i) {
        const int64_t t = (i + 1) * 1000000000LL;
        {
          sched::Quiet q;
          m.odoms[t] = m.odom = g_odom[i];
        }
        m.r.send(seen(m.r, t, g_true[i]));
        {
          sched::Quiet q;
          RP p = i ? predict(robot, g_odom[i - 1], g_odom[i]) : RP{0, 0, 0};
          auto s = seen_scan(i, p, g_true[i]);
          if (i) {
            size_t from = map.size() > depth ? map.size() - depth : 0;
            m.local->reset();
            m.local->addScans(map.begin() + from, map.end());
            Pose2d d;
            Eigen::Matrix3d cov;
            double score = m.local->matchScan(s, d, cov);
            typical = 0.95 * typical + 0.05 * score;
            s->setPose(p2(corrected(p, d)));
            edges.push_back({{i - 1, i}, cov, l});
          }
          robot = rp(s->getPose());
          map.push_back(s);
        }
        sched::settle(1);
        sched::Quiet q;
        if (loops && i > depth) {
          // the nearest of those that are not in the rolling window
          double best = 0.4;
          int at = -1;
          for (size_t k = 0; k < i - depth; ++k) {
            double dd = std::hypot(map[k]->getPose().x - map[i]->getPose().x, map[k]->getPose().y - map[i]->getPose().y);
            if (dd < best) { best = dd; at = k; }
          }
          if (at >= 0) {
            m.global->reset();
            m.global->addScans(map.begin() + (at > 0 ? at - 1 : 0), map.begin() + std::min<size_t>(at + 1, map.size() - 1) + 1);
            Pose2d d;
            Eigen::Matrix3d cov;
            double score = m.global->matchScan(map[i], d, cov);
            if (std::fabs(score - typical) < 1e-6) throw mc::Skip();
            if (score < typical) {
              map[i]->setPose(p2(corrected(rp(map[i]->getPose()), d)));
              edges.push_back({{static_cast<size_t>(at), i}, cov, g});
              ++closed;
            }
          }
        }
      }
      c.step(g_true.size());
      auto got = m.r.map();
      sched::Quiet q;
      c.check(got->scans.size() == map.size(), "the map has %zu scans, must have %zu", got->scans.size(), map.size());
      for (size_t i = 0; i < map.size(); ++i) {
        RP a = rp(got->scans[i]->getPose()), b = rp(map[i]->getPose());
        c.check(same_pose(a, b, 1e-5), "scan %zu is at (%.5f %.5f %.5f), with the parameters given it must be at (%.5f %.5f %.5f)", i, a.x, a.y, a.th, b.x, b.y, b.th);
        c.observe(ref::hpose(a.x, a.y, a.th));
      }
      c.check(got->constraints.size() == edges.size(), "the map has %zu constraints, must have %zu", got->constraints.size(), edges.size());
      for (auto & e : edges) {
        bool found = false;
        for (auto & k : got->constraints) if (k->begin == e.first.first && k->end == e.first.second) {
          found = true;
          same_constraint(c, k, e.second, e.p, "constraint");
        }
        c.check(found, "constraint from %zu to %zu is missing", e.first.first, e.first.second);
        c.observe(mc::hd(e.second(0, 0)));
      }
      c.log("%zu loops closed", closed);
      c.state(c.outcome);
      m.r.shutdown(true);
    });
}
static void localising(mc::Ctx & c)
{
  Params g = any(c, "global ndt_resolution"), l = one(c.flip("local parameters"));
  bool disabled = c.flip("disabled at runtime");
  const std::vector<RP> g_true = truth(8), g_odom = odometry(g_true);
  size_t n = 1 + c.choose(2, "scans of the map");
  sched::run(c, [&]() {
      MatcherRig m(l, g);
      std::vector<ScanPtr> map;
      {
        sched::Quiet q;
        m.r.paramb("enable_mapping", disabled);
        Graph gr(true);
        for (size_t i = 0; i < n; ++i) map.push_back(seen_scan(i, g_true[2 * i], g_true[2 * i]));
        gr.scans = map;
        gr.save("m");
        m.r.params("map_file", "m");
        m.odom = g_odom[0];
      }
      m.r.start();
      sched::settle(1);
      if (disabled) m.r.disable();
      m.r.initialpose(RP{0.02, -0.03, 0.01});
      RP robot{0.02, -0.03, 0.01};
      m.global->addScans(map.begin(), map.end());
      for (size_t i = 1; i < g_true.size(); ++i) {
        const int64_t t = (i + 1) * 1000000000LL;
        {
          sched::Quiet q;
          m.odoms[t] = m.odom = g_odom[i];
        }
        m.r.send(seen(m.r, t, g_true[i]));
        sched::settle(1);
        sched::Quiet q;
        RP p = predict(robot, g_odom[i - 1], g_odom[i]);
        auto s = seen_scan(9, p, g_true[i]);
        Pose2d d;
        Eigen::Matrix3d cov;
        m.global->matchScan(s, d, cov);
        robot = corrected(p, d);
        auto tf = m.r.last<geometry_msgs::msg::TransformStamped>("/tf");
        RP got = ref::compose(of_tf(*tf), g_odom[i]);
        c.check(same_pose(got, robot, 1e-4), "the robot is thought to be at (%.5f %.5f %.5f), with the parameters given it must be (%.5f %.5f %.5f)", got.x, got.y, got.th, robot.x, robot.y, robot.th);
        c.observe(ref::hpose(got.x, got.y, got.th));
      }
      c.step(3);
      sched::Quiet q;
      c.state(c.outcome);
      m.r.shutdown(true);
    });
}
int main(int argc, char ** argv)
{
  sched::race_detection = false;
  return mc::run(argc, argv, "C28", {
    {"frames", "3 robot frames x 3 odometry frames x 3 laser frames, given or default, with or without a map, mapping or localising", 2, frames},
    {"timeout", "5 values of transform_timeout (incl. default) x 6 delays of the transform at the start x 6 at the end of the message; mapping, localising with and without particle filter", 3, timeout},
    {"drawing", "5 resolutions x 6 thresholds (incl. default) x use_barycenter x loaded at the start or at runtime x maps of 1 to 3 scans", 3, drawing},
    {"mixed", "10 thresholds from 0 to 1 x 0 to 20 of 20 rays ending in the cell of an obstacle", 2, mixed},
    {"range", "6 values of max_range (incl. 0), given or default, x 4 range_max of the first message x 2 of the second", 2, range},
    {"local", "all 64 combinations of two values of each local_scan_matcher parameter x 2 sets of global ones x 3 rolling depths; four messages seen in a room with odometry errors", 6, [](mc::Ctx & c) { mapping(c, false); }},
    {"global", "all 64 combinations of two values of each global_scan_matcher parameter x 2 sets of local ones; nine messages seen in a room, loop closures", 6, [](mc::Ctx & c) { mapping(c, true); }},
    {"localising", "all 64 combinations of two values of each global_scan_matcher parameter x 2 sets of local ones x localising from the start or once disabled x maps of 1 or 2 scans; seven messages", 6, localising},
  });
}
