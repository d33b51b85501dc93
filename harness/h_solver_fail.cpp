// C06: the optimiser on degenerate input: it reports failure or succeeds, never breaks the map or the process.
#include "solver_util.hpp"
#include <limits>
using namespace ndt_2d;
typedef Eigen::Vector3d V3;

static bool same(const std::vector<V3> & a, const std::vector<V3> & b)
{
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false;
  return a.size() == b.size();
}
static bool bits(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static void body(mc::Ctx & c)
{
  int n = c.choose(5, "scans");        // 0..4
  static const V3 at[] = {V3(0.5, -1, 0.3), V3(1.4, 0.2, 0.9), V3(2.2, 1.5, -3.0), V3(-1, -1, 2.0)};
  std::vector<ScanPtr> scans;
  for (int i = 0; i < n; ++i) scans.push_back(node_of(i, at[i]));
  // any graph: each pair has no edge, a good one, or one with a defect
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  std::vector<ConstraintPtr> cons;
  PoseGraph g;
  g.x = poses_of(scans);
  bool bad = false;
  std::vector<bool> touched(n, false);
  int defects = 0;
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b) {
      int k = c.choose(defects >= (c.thorough ? 2 : 1) ? 2 : 9, "edge");
      if (k == 0) continue;
      Edge e{size_t(a), size_t(b), relative(at[a], at[b]) + V3(0.1, -0.05, 0.02), info_of((a + b) % 4)};
      if (k > 1) ++defects;
      if (k == 2) { e.info(0, 0) = nan; bad = true; }
      if (k == 3) { e.info = Eigen::Matrix3d::Constant(inf); bad = true; }
      if (k == 4) e.info.setZero();
      if (k == 5) { e.z(0) = nan; bad = true; }
      if (k == 6) { e.z(2) = inf; bad = true; }
      if (k == 7) e.info *= 1e14;
      if (k == 8) e.z(2) += (a + b) % 2 ? 2 * M_PI : -2 * M_PI;      // the same heading, unwrapped
      g.e.push_back(e);
      cons.push_back(constraint_of(e));
      touched[a] = touched[b] = true;
    }
  int first = n >= 3 ? c.choose(3, "where") : 0;
  if (first == 1) scans[1]->setPose(Pose2d(nan, 0, 0));
  if (first == 2) scans[n - 1]->setPose(Pose2d(1e9, -1e9, 1e3));
  auto before = poses_of(scans);
  CeresSolver solver;
  for (int run = 0; run < 2; ++run) {
    c.step();
    bool ok = solver.optimize(cons, scans);
    auto after = poses_of(scans);
    c.log("run %d: %zu scans, %zu constraints: %s", run, scans.size(), cons.size(), ok ? "optimised" : "refused");
    for (size_t i = 0; i < cons.size(); ++i) {
      bool eq = cons[i]->begin == g.e[i].a && cons[i]->end == g.e[i].b && !cons[i]->switchable;
      for (int j = 0; j < 3; ++j) {
        eq = eq && bits(cons[i]->transform(j), g.e[i].z(j));
        for (int l = 0; l < 3; ++l) eq = eq && bits(cons[i]->information(j, l), g.e[i].info(j, l));
      }
      c.check(eq, "optimising changed constraint %zu -> %zu", g.e[i].a, g.e[i].b);
    }
    if (n == 0) c.check(!ok, "an empty graph was reported as optimised");
    if (!ok) {
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < 3; ++j) c.check(after[i](j) == before[i](j) || (std::isnan(after[i](j)) && std::isnan(before[i](j))), "the run failed, yet scan %d moved", i);
    } else {
      for (int i = 0; i < n; ++i) {
        if (first != 1) c.check(after[i].allFinite(), "scan %d has a pose that is not finite after a run reported as good", i);
        if (!touched[i]) for (int j = 0; j < 3; ++j) c.check(after[i](j) == before[i](j) || std::isnan(before[i](j)), "scan %d has no constraint, yet it moved", i);
      }
      if (n > 0 && first == 0) c.check(after[0] == before[0], "the first scan moved");
      if (first == 0 && !bad) { g.x = before; c.check(g.cost(after) <= g.cost(before) * (1 + 1e-9) + 1e-9, "a run reported as good made the error grow"); }
    }
    uint64_t h = mc::mix(ok, mc::mix(n, cons.size()));
    for (auto & p : after) h = mc::mix(h, ref::hpose(p(0), p(1), p(2)));
    c.state(h);
    c.observe(h);
    if (ok && !bad && first == 0) before = after;
    else if (!same(before, after)) before = after;
  }
  // Once the scan is back where it was, the optimiser does what it would have done
  if (first == 1 && !bad && defects == 0) {
    for (int i = 0; i < n; ++i) scans[i]->setPose(Pose2d(at[i](0), at[i](1), at[i](2)));
    g.x = poses_of(scans);
    c.step();
    bool ok = solver.optimize(cons, scans);
    auto after = poses_of(scans);
    c.check(ok, "a good graph cannot be optimised any more after a run that failed");
    double best = g.cost(g.solve());
    c.check(g.cost(after) <= best * (1 + 1e-3) + 1e-6, "after a run that failed the error is %.9g, the minimum is %.9g", g.cost(after), best);
    c.check(after[0] == g.x[0], "after a run that failed the first scan moved");
  }
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C06", {
    {"graphs", "0..4 scans x every graph over them, with up to 1 (2) edges of 7 kinds of defect (NaN, infinite, zero, huge, unwrapped), x {regular, NaN pose, far pose}; two runs each; a repaired pose optimised again", 3, body},
  });
}
