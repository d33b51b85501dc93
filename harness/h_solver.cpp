// C05: optimising a pose graph reaches the minimum of the information-weighted error; the first pose stays.
#include "solver_util.hpp"
using namespace ndt_2d;
typedef Eigen::Vector3d V3;

// true trajectories; the last turns across +-pi on the way
static std::vector<V3> truth(int k, int n)
{
  std::vector<V3> t;
  for (int i = 0; i < n; ++i) {
    if (k == 0) t.push_back(V3(0.9 * i, 0.1 * i * i, 0.25 * i));
    else if (k == 1) { double a = 2 * M_PI * i / n; t.push_back(V3(2 * std::cos(a) - 5, 2 * std::sin(a) + 3, ref::wrap(a + M_PI / 2))); }
    else t.push_back(V3(-8 - 0.7 * i, 4 + 0.2 * i, ref::wrap(2.9 + 0.2 * i)));
  }
  return t;
}
static V3 noise(int seed, double s)     // fixed, hand-made disturbance
{
  static const double t[] = {0.5, -0.8, 0.3, -0.2, 0.9, -0.6, 0.7, 0.1, -0.4, -0.9, 0.4, 0.8, -0.3};
  return V3(s * t[seed % 13], s * t[(seed * 3 + 5) % 13], 0.5 * s * t[(seed * 5 + 2) % 13]);
}

static void compare(mc::Ctx & c, PoseGraph & g, const std::vector<V3> & start, const std::vector<ScanPtr> & scans, const char * what)
{
  g.x = start;
  std::vector<V3> best = g.solve(), got = poses_of(scans);
  for (auto & p : got) c.check(p.allFinite(), "%s: a pose is not finite", what);
  c.check(got[0] == start[0], "%s: the first pose moved from (%g %g %g) to (%g %g %g)", what, start[0](0), start[0](1), start[0](2), got[0](0), got[0](1), got[0](2));
  double a = g.cost(got), b = g.cost(best), s = g.cost(start);
  c.log("%s: error %.6g -> %.6g, minimum %.6g", what, s, a, b);
  c.check(a <= b * 1.002 + 1e-5 * (1 + s * 1e-4), "%s: error %.9g, the minimum is %.9g (at the start: %.9g)", what, a, b, s);
  c.check(a <= s + 1e-9, "%s: optimising made the error grow from %.9g to %.9g", what, s, a);
  uint64_t h = mc::mix(g.e.size(), mc::hd(b));
  c.state(h);
  c.observe(h);
}

static void body(mc::Ctx & c, bool incremental)
{
  int n = incremental ? 4 : 3 + c.choose(c.thorough ? 3 : 2, "poses");
  int tk = c.choose(3, "trajectory");
  auto T = truth(tk, n);
  PoseGraph g;
  int in = c.choose(4, "information"), nz = c.choose(3, "measurement noise"), st = c.choose(3, "start");
  for (int i = 0; i + 1 < n; ++i) {
    Edge k{size_t(i), size_t(i + 1), relative(T[i], T[i + 1]) + noise(i + 1, nz == 0 ? 0 : nz == 1 ? 0.05 : 0.2), info_of((in + i) % 4)};
    k.z(2) = ref::wrap(k.z(2));
    g.e.push_back(k);
  }
  // every subset of the other pairs closes a loop, in either direction
  std::vector<std::pair<int, int>> pairs;
  for (int a = 0; a < n; ++a) for (int b = a + 2; b < n; ++b) pairs.push_back({a, b});
  int mask = c.choose(1 << std::min<size_t>(pairs.size(), 4), "loop closures");
  for (size_t i = 0; i < pairs.size() && i < 4; ++i) {
    if (!(mask >> i & 1)) continue;
    size_t a = pairs[i].first, b = pairs[i].second;
    if ((i + in) % 2) std::swap(a, b);
    Edge k{a, b, relative(T[a], T[b]) + noise(7 + i, nz == 0 ? 0 : nz == 1 ? 0.08 : 0.25), info_of((in + 1 + i) % 4)};
    k.z(2) = ref::wrap(k.z(2));
    g.e.push_back(k);
  }
  std::vector<V3> start = T;
  for (int i = 1; i < n; ++i) { start[i] += noise(i * 2 + st, st == 0 ? 0.0 : st == 1 ? 0.1 : 0.35); if (st == 2) start[i](2) += 2 * M_PI * (i % 2); }
  std::vector<ScanPtr> scans;
  std::vector<ConstraintPtr> cons;
  CeresSolver solver;
  if (!incremental) {
    for (int i = 0; i < n; ++i) scans.push_back(node_of(i, start[i]));
    for (auto & k : g.e) cons.push_back(constraint_of(k, k.b != k.a + 1));
    c.step();
    c.check(solver.optimize(cons, scans), "a regular graph was not optimised");
    compare(c, g, start, scans, "batch");
    // a second run changes nothing that matters
    auto p1 = poses_of(scans);
    c.check(solver.optimize(cons, scans), "the second run failed");
    compare(c, g, p1, scans, "again");
  } else {
    // scans and constraints arrive in pieces; a pose is disturbed from outside in between
    int cut1 = 1 + c.choose(n - 2 + 1, "first run after"), moved = c.choose(6, "disturbed");
    auto all = g.e;
    g.e.clear();
    for (int i = 0; i <= cut1 && i < n; ++i) scans.push_back(node_of(i, start[i]));
    for (auto & k : all) if (k.a < scans.size() && k.b < scans.size()) { g.e.push_back(k); cons.push_back(constraint_of(k)); }
    auto s0 = poses_of(scans);
    c.step();
    c.check(solver.optimize(cons, scans), "first run failed");
    compare(c, g, s0, scans, "first run");
    for (int i = cut1 + 1; i < n; ++i) scans.push_back(node_of(i, start[i]));
    for (auto & k : all) {
      bool have = false;
      for (auto & q : g.e) have = have || (q.a == k.a && q.b == k.b);
      if (!have) { g.e.push_back(k); cons.push_back(constraint_of(k)); }
    }
    if (moved == 1) scans[1]->setPose(Pose2d(start[1](0) + 0.2, start[1](1) - 0.1, start[1](2) + 0.05));
    if (moved == 2) scans[0]->setPose(Pose2d(start[0](0) - 0.3, start[0](1) + 0.4, start[0](2) + 0.2));
    if (moved == 3) scans[0]->setPose(Pose2d(start[0](0) + 0.015, start[0](1) - 0.01, start[0](2) + 0.004));
    if (moved == 4) scans[0]->setPose(Pose2d(start[0](0) + 2e-4, start[0](1) - 1e-4, start[0](2) + 1e-4));
    if (moved == 5) { Pose2d p = scans[1]->getPose(); scans[1]->setPose(Pose2d(p.x + 0.004, p.y - 0.002, p.theta + 0.001)); }
    auto s1 = poses_of(scans);
    c.step();
    c.check(solver.optimize(cons, scans), "second run failed");
    compare(c, g, s1, scans, "second run");
  }
  for (size_t i = 0; i < cons.size(); ++i)
    c.check(cons[i]->transform == g.e[i].z && cons[i]->information == g.e[i].info && cons[i]->begin == static_cast<int64_t>(g.e[i].a) && cons[i]->end == static_cast<int64_t>(g.e[i].b),
      "optimising changed constraint %zu", i);
  for (size_t i = 0; i < scans.size(); ++i) c.check(scans[i]->getId() == i && scans[i]->getPoints().size() == 2, "optimising changed scan %zu", i);
}
// long trajectories
static void large(mc::Ctx & c)
{
  static const int ns[] = {12, 30, 60};
  int n = ns[c.choose(c.thorough ? 3 : 2, "poses")], kind = c.choose(2, "trajectory"), loops = c.choose(3, "loops"), in = c.choose(4, "information"), st = c.choose(2, "start");
  std::vector<V3> T;
  for (int i = 0; i < n; ++i) {
    if (kind == 0) { double a = 2 * M_PI * i / n * 2; T.push_back(V3(6 * std::cos(a) + 0.05 * i, 6 * std::sin(a), ref::wrap(a + M_PI / 2))); }
    else T.push_back(V3(0.6 * i - 20, 2 * std::sin(0.4 * i), ref::wrap(0.9 * std::sin(0.3 * i) + 3)));
  }
  PoseGraph g;
  for (int i = 0; i + 1 < n; ++i) g.e.push_back({size_t(i), size_t(i + 1), relative(T[i], T[i + 1]) + noise(i + 1, 0.03), info_of((in + i) % 4)});
  for (int i = 0; i + 7 < n && loops; i += loops == 1 ? 9 : 2) {
    size_t a = i, b = i + 6;
    if (i % 2) std::swap(a, b);
    g.e.push_back({a, b, relative(T[a], T[b]) + noise(5 + i, 0.05), info_of((in + 1 + i) % 4)});
  }
  if (loops) g.e.push_back({size_t(n - 1), 0, relative(T[n - 1], T[0]) + noise(3, 0.05), info_of(in)});
  for (auto & k : g.e) k.z(2) = ref::wrap(k.z(2));
  std::vector<V3> start = T;
  for (int i = 1; i < n; ++i) { if (st) start[i] += noise(i * 2, 0.15); else start[i] = T[i] + V3(0.01 * i, -0.004 * i, 0.002 * i); }
  std::vector<ScanPtr> scans;
  std::vector<ConstraintPtr> cons;
  for (int i = 0; i < n; ++i) scans.push_back(node_of(i, start[i]));
  for (auto & k : g.e) cons.push_back(constraint_of(k, k.b != k.a + 1));
  CeresSolver solver;
  c.step();
  c.check(solver.optimize(cons, scans), "a regular graph was not optimised");
  compare(c, g, start, scans, "long");
}
// several constraints between the same two scans, saying different things, given at once or in pieces; failed runs in between
static void parallel(mc::Ctx & c)
{
  const int n = 3;
  int tk = c.choose(3, "trajectory"), in = c.choose(4, "information"), split = c.choose(4, "second run from"), failed = c.choose(4, "failed run");
  auto T = truth(tk, n);
  PoseGraph g;
  std::vector<Edge> all;
  for (int i = 0; i + 1 < n; ++i) all.push_back({size_t(i), size_t(i + 1), relative(T[i], T[i + 1]) + noise(i + 1, 0.05), info_of((in + i) % 4)});
  static const int pairs[3][2] = {{0, 1}, {1, 2}, {0, 2}};
  for (int i = 0; i < 3; ++i) {
    size_t a = pairs[i][0], b = pairs[i][1];
    int k = c.choose(5, "more between");      // none, one, one the other way, two, both ways
    if (k == 1 || k >= 3) all.push_back({a, b, relative(T[a], T[b]) + noise(4 + i, 0.2), info_of((in + i + 1) % 4)});
    if (k == 2 || k == 4) all.push_back({b, a, relative(T[b], T[a]) + noise(8 + i, 0.15), info_of((in + i + 2) % 4)});
    if (k == 3) all.push_back({a, b, relative(T[a], T[b]) + noise(10 + i, 0.1), info_of(in)});
  }
  for (auto & k : all) k.z(2) = ref::wrap(k.z(2));
  std::vector<ScanPtr> scans;
  std::vector<ConstraintPtr> cons;
  for (int i = 0; i < n; ++i) scans.push_back(node_of(i, i ? T[i] + noise(i * 2, 0.1) : T[i]));
  CeresSolver solver;
  size_t cut = split == 0 ? all.size() : std::min(all.size(), size_t(split + 1));
  auto run = [&](const char * what) {
      auto s = poses_of(scans);
      c.step();
      c.check(solver.optimize(cons, scans), "%s: a regular graph was not optimised", what);
      compare(c, g, s, scans, what);
    };
  auto fail = [&]() {
      Pose2d p = scans[2]->getPose();
      scans[2]->setPose(Pose2d(NAN, p.y, p.theta));
      c.step();
      solver.optimize(cons, scans);        // C06 says what has to happen here
      scans[2]->setPose(p);
    };
  for (size_t i = 0; i < cut; ++i) { g.e.push_back(all[i]); cons.push_back(constraint_of(all[i])); }
  if (failed == 1) fail();
  run("first");
  if (failed == 3) fail();
  for (size_t i = cut; i < all.size(); ++i) { g.e.push_back(all[i]); cons.push_back(constraint_of(all[i])); }
  if (failed == 2) fail();
  run("second");
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C05", {
    {"parallel", "3 poses x 3 trajectories x 4 information matrices x 5 ways of having more constraints (either direction) between each pair x where the second run starts x a failing run before the first or second, or before the last constraints came", 3, parallel},
    {"batch", "3..4 (5) poses x 3 trajectories (across +-pi) x 4 information matrices x 3 noises x 3 starts x all sets of up to 4 loop closures, two runs each", 3,
      [](mc::Ctx & c) { body(c, false); }},
    {"large", "12, 30 (60) poses x 2 trajectories x {no, few, many} loops x 4 information matrices x 2 starts", 2, large},
    {"incremental", "4 poses x the same choices x every split into two runs x {none, an inner pose, the first pose disturbed in between, by much or little}", 3,
      [](mc::Ctx & c) { body(c, true); }},
  });
}
