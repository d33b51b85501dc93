// C27: the node as a particle filter, in all short histories, for all outcomes of its random draws
// from a small set. The oracle drives a filter of its own (whose parts C08-C10 decide) with what
// the node must tell it, under the same draws, and compares particles, pose and weights.
#include <algorithm>
#include <set>
#include "mapper_util.hpp"
#include "pf_util.hpp"

static std::vector<double> g_offs;
static size_t g_n, g_d;
static std::vector<int> g_draws;
static double normal(double m, double s) { return m + s * g_offs[g_n++ % g_offs.size()]; }
static size_t discrete(const std::vector<double> & w)
{
  std::vector<size_t> ok;
  for (size_t i = 0; i < w.size(); ++i) if (w[i] > 0) ok.push_back(i);
  if (ok.empty()) return 0;
  return ok[g_draws[g_d++ % g_draws.size()] % ok.size()];
}
static void rewind_draws() { g_n = g_d = 0; }

struct FilterCfg
{
  double a[5] = {0.2, 0.2, 0.2, 0.2, 0.2};
  int min = 3, max = 6;
  double err = 0.05, z = 1.5;
};
struct Local
{
  mc::Ctx & c;
  Rig r;
  FilterCfg k;
  std::shared_ptr<ParticleFilter> ref;
  std::shared_ptr<TableMatcher> table = std::make_shared<TableMatcher>();
  bool localised = false;
  RP robot{0, 0, 0}, used{0, 0, 0}, odom{5, -3, 0.5};
  std::map<int64_t, RP> odoms;
  std::vector<int> tags;       // of the map
  int64_t t = 0;
  size_t clouds = 0;

  Local(mc::Ctx & ctx, const FilterCfg & f, bool mapping) : c(ctx), k(f)
  {
    sched::Quiet q;
    make_map("start", 3, 0, 0, 0.53125, 8);
    make_map("other", 2, 2, 4, 0.59375, 16);
    tags = {8, 8, 8};
    r.params("map_file", "start");
    r.paramb("use_particle_filter", true);
    r.paramb("enable_mapping", mapping);
    const char * n[] = {"odom_alpha1", "odom_alpha2", "odom_alpha3", "odom_alpha4", "odom_alpha5"};
    for (int i = 0; i < 5; ++i) r.param(n[i], k.a[i]);
    r.parami("min_particles", k.min);
    r.parami("max_particles", k.max);
    r.param("kld_err", k.err);
    r.param("kld_z", k.z);
    r.odom = [this](int64_t ns) { auto i = odoms.find(ns); return i == odoms.end() ? odom : i->second; };
    rewind_draws();
    auto m = std::make_shared<MotionModel>(k.a[0], k.a[1], k.a[2], k.a[3], k.a[4]);
    ref = std::make_shared<ParticleFilter>(k.min, k.max, m);
  }
  void compare(const char * when)
  {
    ++clouds;
    size_t n = r.count("particlecloud");
    c.check(n >= clouds, "%s: the particles were not published", when);
    clouds = n;
    auto m = r.last<geometry_msgs::msg::PoseArray>("particlecloud");
    c.check(m->header.frame_id == "map", "particles are published in frame %s", m->header.frame_id.c_str());
    auto want = particles(*ref);
    c.check(m->poses.size() == want.size(), "%s: %zu particles, must be %zu", when, m->poses.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) {
      auto & p = m->poses[i];
      RP got{p.position.x, p.position.y, 2 * std::atan2(p.orientation.z, p.orientation.w)};
      c.check(same_pose(got, RP{want[i](0), want[i](1), want[i](2)}, 1e-5), "%s: particle %zu is at (%.5f %.5f %.5f), must be at (%.5f %.5f %.5f)", when, i, got.x, got.y, got.th, want[i](0), want[i](1), want[i](2));
      c.observe(ref::hpose(got.x, got.y, got.th));
    }
  }
  void tf(const char * when)
  {
    sched::settle(1);
    sched::Quiet q;
    auto m = r.last<geometry_msgs::msg::TransformStamped>("/tf");
    c.check(m != nullptr, "%s: no transform", when);
    RP got = of_tf(*m), want = ref::compose(robot, ref::inverse(used));
    c.check(same_pose(got, want, 1e-4), "%s: map to odometry is (%.5f %.5f %.5f), must be (%.5f %.5f %.5f)", when, got.x, got.y, got.th, want.x, want.y, want.th);
  }
  void pose(const RP & p, const RP & var, bool map_frame = true)
  {
    rewind_draws();
    r.initialpose(p, var, map_frame ? "map" : "odom");
    sched::Quiet q;
    if (!map_frame) { c.check(r.count("particlecloud") == clouds, "an initial pose in another frame changed the particles"); return; }
    rewind_draws();
    ref->init(p.x, p.y, p.th, std::sqrt(var.x), std::sqrt(var.y), std::sqrt(var.th));
    compare("initial pose");
    robot = p;
    used = odom;
    localised = true;
  }
  void scan(const RP & motion, bool empty = false)
  {
    {
      sched::Quiet q;
      t += 1000000000LL;
      odom = ref::compose(odom, motion);
      odom.th = wrap(odom.th);
      odoms[t] = odom;
    }
    int tag = 32 + static_cast<int>(t / 1000000000LL);
    std::vector<float> ranges;
    if (!empty) ranges = {tag / 8.0f, 2.0f, 3.0f};
    auto msg = r.message(t, ranges);
    size_t s0 = mock().scored.size();
    rewind_draws();
    r.send(msg);
    sched::Quiet q;
    RP d = ref::compose(ref::inverse(used), odom);
    d.th = wrap(d.th);
    bool use = localised && !empty && (std::hypot(d.x, d.y) >= 0.1 || std::fabs(d.th) >= 1.0);
    std::vector<MockWorld::Scored> sc(mock().scored.begin() + s0, mock().scored.end());
    if (!use) {
      c.check(sc.empty() && r.count("particlecloud") == clouds, "a message that must not be used reached the particle filter");
      return;
    }
    rewind_draws();
    ref->update(d.x, d.y, d.th);
    auto before = particles(*ref);
    for (auto & p : before) {
      bool found = false;
      for (auto & s : sc) found |= same_pose(rp(s.pose), RP{p(0), p(1), p(2)}, 1e-5);
      c.check(found, "the message was not scored at the particle at (%.5f %.5f %.5f)", p(0), p(1), p(2));
    }
    for (auto & s : sc) {
      c.check(tag_of(s.points) == tag && s.points.size() == 3, "particles are scored with the points of another message");
      std::vector<int> got;
      for (auto & x : s.known) got.push_back(x.tag);
      c.check(got == tags, "particles are scored against %zu scans, the map has %zu (or other ones)", got.size(), tags.size());
      bool found = false;
      for (auto & p : before) found |= same_pose(rp(s.pose), RP{p(0), p(1), p(2)}, 1e-5);
      c.check(found, "the message was scored at (%.5f %.5f %.5f), where no particle is", s.pose.x, s.pose.y, s.pose.theta);
    }
    auto s = std::make_shared<Scan>(0);
    s->setPoints({Point(1, 0)});
    ref->measure(table, s);
    ref->resample(k.err, k.z);
    compare("message");
    auto m = ref->getMean();
    robot = RP{m(0), m(1), m(2)};
    used = odom;
  }
  void load()
  {
    r.load("other");
    tags = {16, 16};
    localised = false;
  }
};

enum { POSE, POSE2, FWD, TURN, BACK, CREEP, EMPTY, LOAD, ODD, NEV };
static void histories(mc::Ctx & c, int len, bool few)
{
  static const std::vector<FilterCfg> cfgs{
    {{0.1, 0.03, 0.3, 0.02, 0.2}, 3, 6, 0.05, 1.5},
    {{0.0, 0.0, 0.0, 0.0, 0.0}, 2, 4, 0.01, 2.3},
    {{0.02, 0.4, 0.05, 0.3, 0.1}, 1, 12, 0.5, 0.75}};
  FilterCfg k = c.pick(cfgs, "configuration");
  g_offs = c.pick(std::vector<std::vector<double>>{{0.37, -1.13, 0.71, 1.57, -0.43, 0.19, -2.11}, {0.0}, {1.9, -1.7, 0.3}}, "noise");
  g_draws = c.pick(std::vector<std::vector<int>>{{0}, {0, 1, 2, 3, 4, 5}, {2, 0, 0, 1}}, "draws");
  int score = c.choose(few ? 2 : 4, "scores");
  std::function<double(const Pose2d &)> f;
  if (score == 0) f = [](const Pose2d & p) { return std::exp(-0.25 * ((p.x - 1) * (p.x - 1) + (p.y + 0.5) * (p.y + 0.5)) - 0.1 * std::fabs(wrap(p.theta - 1))); };
  if (score == 1) f = [](const Pose2d & p) { return p.x > 0.4 ? 0.0 : 0.75 + 0.1 * std::cos(p.theta); };
  if (score == 2) f = [](const Pose2d &) { return 0.0; };
  if (score == 3) f = [](const Pose2d &) { return 0.3; };
  std::vector<int> ev;
  for (int i = 0; i < len; ++i) ev.push_back(few ? c.pick(std::vector<int>{POSE2, FWD, BACK, CREEP}, "event") : c.choose(NEV, "event"));
  bool mapping = c.flip("mapping enabled");
  verif::normal_hook = normal;
  verif::discrete_hook = discrete;
  sched::run(c, [&]() {
      Local s(c, k, mapping);
      mock().score_points = f;
      s.table->f = f;
      rewind_draws();
      s.r.start();
      sched::settle(1);
      for (size_t i = 0; i < ev.size(); ++i) {
        switch (ev[i]) {
          case POSE: s.pose(RP{0.25, 0.125, -0.375}, RP{0.25, 0.0625, 0.16}); break;
          case POSE2: s.pose(RP{1.5, -2, 3.0}, RP{1.0, 2.25, 0.5}); break;
          case FWD: s.scan(RP{0.53125, 0.125, 0.25}); break;
          case TURN: s.scan(RP{0.0078125, 0, 2.125}); break;
          case BACK: s.scan(RP{-0.75, -0.25, -0.5}); break;
          case CREEP: s.scan(RP{0.0625, 0, 0.4375}); break;
          case EMPTY: s.scan(RP{0.5, 0, 0}, true); break;
          case LOAD: s.load(); break;
          case ODD: s.pose(RP{1, 1, 1}, RP{1, 1, 1}, false); break;
        }
        c.step();
        if (s.localised) s.tf("after an event");
      }
      c.state(c.outcome);
      sched::Quiet q;
      auto g = s.r.map();
      c.check(g->scans.size() == s.tags.size(), "localising added scans to the map");
      s.r.shutdown(true);
    });
  verif::normal_hook = nullptr;
  verif::discrete_hook = nullptr;
}
static void first(mc::Ctx & c, int len)
{
  // begins with an initial pose, and then only moves
  histories(c, len, true);
}
// Many or few particles, spread far or not at all
static void sizes(mc::Ctx & c)
{
  static const std::vector<std::pair<int, int>> n{{1, 1}, {1, 2}, {1, 40}, {10, 10}, {100, 600}, {1200, 2500}, {3000, 3000}};
  static const std::vector<RP> vars{{1e-10, 1e-10, 1e-10}, {1e-6, 4e-6, 1e-6}, {0.0004, 0.0001, 0.0025}, {0.25, 0.0625, 0.16}, {100, 25, 4}, {1e-8, 9, 1e-8}};
  static const std::vector<std::pair<double, double>> kld{{0.05, 1.5}, {0.001, 3}, {0.9, 0.5}};
  auto k = c.pick(n, "particles");
  auto var = c.pick(vars, "variances");
  auto ez = c.pick(kld, "kld");
  bool spread = c.flip("motion noise");
  FilterCfg f;
  if (!spread) for (auto & a : f.a) a = 0;
  f.min = k.first;
  f.max = k.second;
  f.err = ez.first;
  f.z = ez.second;
  g_offs.clear();
  g_draws.clear();
  for (int i = 0; i < 997; ++i) g_offs.push_back(3.0 * std::sin(1.7 * i) * std::cos(0.31 * i));
  for (int i = 0; i < 991; ++i) g_draws.push_back((i * 7919) % 10007);
  verif::normal_hook = normal;
  verif::discrete_hook = discrete;
  sched::run(c, [&]() {
      Local s(c, f, false);
      auto w = [](const Pose2d & p) { return 0.2 + 0.6 * std::exp(-0.25 * ((p.x - 1) * (p.x - 1) + (p.y + 0.5) * (p.y + 0.5))); };
      mock().score_points = w;
      s.table->f = w;
      rewind_draws();
      s.r.start();
      sched::settle(1);
      s.pose(RP{0.25, 0.125, -0.375}, var);
      s.scan(RP{0.53125, 0.125, 0.25});
      s.tf("after a scan");
      s.scan(RP{-0.75, -0.25, -0.5});
      s.tf("after two scans");
      c.step(3);
      c.state(c.outcome);
      s.r.shutdown(true);
    });
  verif::normal_hook = nullptr;
  verif::discrete_hook = nullptr;
}
int main(int argc, char ** argv)
{
  sched::race_detection = false;
  return mc::run(argc, argv, "C27", {
    {"histories", "3 configurations x 3 noises x 3 draws x 4 score functions x mapping enabled or not: all histories of 3 (thorough 4) of {two initial poses, three motions, no motion, no readings, load, pose in another frame}", 3, [](mc::Ctx & c) { histories(c, c.thorough ? 4 : 3, false); }},
    {"longer", "3 configurations x 3 noises x 3 draws x 2 score functions: all histories of 5 (thorough 7) of {initial pose, two motions, no motion}", 3, [](mc::Ctx & c) { first(c, c.thorough ? 7 : 5); }},
    {"sizes", "1 to 3000 particles x 6 spreads from 1e-5 to 10 m x 3 settings of the resampler x with and without motion noise: initial pose and two motions", 2, sizes},
  });
}
