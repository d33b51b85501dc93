// C08: the motion model. Every random draw is owned: the stand-in for the normal distribution
// returns mean + k * stddev with k taken from a script, and all scripts over {-1, 0, 1} are run.
#include "mc.hpp"
#include "ref.hpp"
#include <algorithm>
#include <verif_world.hpp>
#include <ndt_2d/motion_model.hpp>
using namespace ndt_2d;

static std::vector<int> g_script;
static size_t g_at;
static bool g_bad;
static double scripted(double m, double s)
{
  if (!std::isfinite(m) || !std::isfinite(s) || s < 0) g_bad = true;
  int k = g_at < g_script.size() ? g_script[g_at] : 0;
  ++g_at;
  return m + k * s;
}
struct V { double x, y, th; };
static bool lt(const V & a, const V & b)
{
  if (std::fabs(a.x - b.x) > 1e-4) return a.x < b.x;
  if (std::fabs(a.y - b.y) > 1e-4) return a.y < b.y;
  return a.th < b.th;
}
static double posdeg(double a) { a = std::remainder(a, 2 * M_PI); return a < -3.14 ? a + 2 * M_PI : a; }   // +-pi is one value

static void body(mc::Ctx & c)
{
  static const double as[][4] = {{0.2, 0.2, 0.2, 0.2}, {0.1, 0, 0, 0}, {0, 0.1, 0, 0}, {0, 0, 0.3, 0}, {0, 0, 0, 0.3}, {0.05, 0.1, 0.2, 0.4}, {0, 0, 0, 0}};
  static const double ds[][3] = {{0, 0, 0}, {0.5, 0, 0}, {-0.5, 0, 0}, {0.3, 0.4, 0.2}, {0.3, -0.4, -1.2}, {-0.3, 0.2, 0.1}, {-0.3, -0.2, -0.4},
    {0, 0.6, 0}, {0, -0.6, 1.0}, {0, 0, 1.1}, {0, 0, -2.9}, {0.005, 0.003, 0.4}, {1.5, 0.1, 3.1}, {-2.0, 0.0, -3.1}, {0.02, 0, 0},
    {0, 0.0001, 0}, {-0.0005, 0.0002, 0.3}, {0.001, -0.006, -0.2}};
  static const double ps[][3] = {{0, 0, 0}, {2, -3, 1.2}, {-10, 5, -3.0}, {0.5, 0.5, 3.1}};
  const double * a = as[c.choose(7)];
  const double * d = ds[c.choose(18)];
  const double * p = ps[c.choose(4)];
  MotionModel mm(a[0], a[1], a[2], a[3], 0.2);
  // reference: rotate - translate - rotate
  double trans = std::hypot(d[0], d[1]);
  double rot1 = trans > 0.01 ? std::atan2(d[1], d[0]) : 0.0;
  double rot2 = ref::wrap(d[2] - rot1);
  auto fold = [](double r) { r = std::fabs(ref::wrap(r)); return std::min(r, M_PI - r); };
  double f1 = fold(rot1), f2 = fold(rot2);
  double s1 = std::sqrt(a[0] * f1 * f1 + a[1] * trans * trans);
  double st = std::sqrt(a[2] * trans * trans + a[3] * (f1 * f1 + f2 * f2));
  double s2 = std::sqrt(a[0] * f2 * f2 + a[1] * trans * trans);
  std::vector<V> want, got;
  for (int i = 0; i < 27; ++i) {
    int k1 = i % 3 - 1, k2 = i / 3 % 3 - 1, k3 = i / 9 - 1;
    double r1 = rot1 + k1 * s1, t = trans + k2 * st, r2 = rot2 + k3 * s2;
    want.push_back({p[0] + t * std::cos(p[2] + r1), p[1] + t * std::sin(p[2] + r1), posdeg(p[2] + r1 + r2)});
  }
  verif::normal_hook = scripted;
  g_bad = false;
  auto go = [&](std::vector<int> script, std::vector<Eigen::Vector3d> poses) {
      g_script = script;
      g_at = 0;
      mm.sample(d[0], d[1], d[2], poses);
      c.step(poses.size());
      for (auto & q : poses) {
        c.check(q.allFinite(), "pose (%g %g %g) after the motion", q(0), q(1), q(2));
        c.check(q(2) > -M_PI - 1e-9 && q(2) <= M_PI + 1e-9, "heading %g is not normalised", q(2));
      }
      return poses;
    };
  Eigen::Vector3d start(p[0], p[1], p[2]);
  // without noise: the pose moves by exactly the odometry
  auto q0 = go({0, 0, 0}, {start})[0];
  ref::Pose e = ref::compose({p[0], p[1], p[2]}, {d[0], d[1], d[2]});
  double slack = trans > 0.0101 ? 1e-5 : 2.01 * trans + 1e-6;
  c.check(std::hypot(q0(0) - e.x, q0(1) - e.y) <= slack, "noise-free motion ends at (%g %g), odometry says (%g %g)", q0(0), q0(1), e.x, e.y);
  c.check(ref::same_angle(q0(2), e.th, 1e-5), "noise-free heading %g, odometry says %g", q0(2), e.th);
  if (trans > 0.0101 || trans < 0.0099) {
    size_t draws = g_at;
    for (int i = 0; i < 27; ++i) {
      auto q = go({i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1}, {start})[0];
      got.push_back({q(0), q(1), posdeg(q(2))});
    }
    std::sort(want.begin(), want.end(), lt);
    std::sort(got.begin(), got.end(), lt);
    uint64_t h = 1;
    for (int i = 0; i < 27; ++i) {
      // the nearest unmatched outcome must coincide
      bool hit = false;
      for (size_t j = 0; j < want.size(); ++j) {
        if (std::fabs(got[i].x - want[j].x) < 2e-4 && std::fabs(got[i].y - want[j].y) < 2e-4 && ref::same_angle(got[i].th, want[j].th, 2e-4)) {
          want.erase(want.begin() + j);
          hit = true;
          break;
        }
      }
      c.check(hit, "odometry (%g %g %g), alphas (%g %g %g %g), pose (%g %g %g): one-sigma outcome (%g %g %g) is not one the model allows",
        d[0], d[1], d[2], a[0], a[1], a[2], a[3], p[0], p[1], p[2], got[i].x, got[i].y, got[i].th);
      h = mc::mix(h, mc::mix(mc::hd(std::round(got[i].x * 1e3)), mc::hd(std::round(got[i].y * 1e3))));
    }
    c.state(h);
    c.observe(h);
    // every particle gets noise of its own: with noise in the draws of one, the others move noise-free
    size_t n = 3;
    std::vector<Eigen::Vector3d> three(n, start);
    std::vector<int> script(draws * n, 0);
    auto base = go(script, three);
    for (auto & q : base) c.check((q - q0).norm() < 1e-5, "particles of one set do not move alike without noise");
    c.check(g_at == draws * n, "%zu draws for %zu particles, %zu for one", g_at, n, draws);
    std::vector<int> hits(n, 0);
    for (size_t j = 0; j < draws * n; ++j) {
      script.assign(draws * n, 0);
      script[j] = 1;
      auto q = go(script, three);
      int moved = 0;
      for (size_t k = 0; k < n; ++k) if ((q[k] - q0).norm() > 1e-6) { ++moved; ++hits[k]; }
      c.check(moved <= 1, "one draw moved %d particles", moved);
    }
    for (size_t k = 0; k < n; ++k) {
      if (s1 > 1e-3 || st > 1e-3 || s2 > 1e-3) c.check(hits[k] > 0, "particle %zu ignores its noise", k);
      c.check(hits[k] == hits[0], "particle %zu is moved by %d draws, the first by %d", k, hits[k], hits[0]);
    }
    // different start poses: same motion in each particle's own frame, and history does not matter
    std::vector<Eigen::Vector3d> two = {start, Eigen::Vector3d(4, 4, -2)};
    auto q2 = go({}, two);
    ref::Pose e2 = ref::compose({4, 4, -2}, {d[0], d[1], d[2]});
    c.check((q2[0] - q0).norm() < 1e-5, "the same motion applied again differs");
    c.check(std::hypot(q2[1](0) - e2.x, q2[1](1) - e2.y) <= slack && ref::same_angle(q2[1](2), e2.th, 1e-5), "second particle moves differently in its own frame");
  }
  c.check(!g_bad, "a distribution was built with a negative or undefined deviation");
  go({}, {});
  c.log("odometry (%g %g %g) alphas (%g %g %g %g) from (%g %g %g) -> (%g %g %g)", d[0], d[1], d[2], a[0], a[1], a[2], a[3], p[0], p[1], p[2], q0(0), q0(1), q0(2));
  verif::normal_hook = nullptr;
}
// many particles: each its own draws, and all of them moved
static size_t g_noisy;
static bool g_all;
static double one_noisy(double m, double s)
{
  size_t i = g_at++;
  return m + (g_all || i == g_noisy ? 1 : 0) * s;
}
static void many(mc::Ctx & c)
{
  static const int ns[] = {1, 2, 255, 256, 257, 500, 1000, 5000};
  static const double ds[][3] = {{0.5, 0, 0}, {-0.3, 0.2, 0.1}, {0, 0, -2.9}, {0.3, -0.4, -1.2}};
  size_t n = ns[c.choose(8, "particles")];
  const double * d = ds[c.choose(4, "motion")];
  int where = c.choose(6, "noisy draw");
  MotionModel mm(0.2, 0.2, 0.2, 0.2, 0.2);
  std::vector<Eigen::Vector3d> start;
  for (size_t i = 0; i < n; ++i) start.push_back(Eigen::Vector3d(0.1 * (i % 37), -0.2 * (i % 11), ref::wrap(0.37 * i)));
  verif::normal_hook = one_noisy;
  g_all = false;
  g_noisy = -1;
  g_at = 0;
  auto p = start;
  mm.sample(d[0], d[1], d[2], p);
  size_t draws = g_at;
  c.check(p.size() == n, "%zu particles became %zu", n, p.size());
  c.check(draws % n == 0, "%zu draws for %zu particles", draws, n);
  for (size_t i = 0; i < n; ++i) {
    ref::Pose e = ref::compose({start[i](0), start[i](1), start[i](2)}, {d[0], d[1], d[2]});
    c.check(std::hypot(p[i](0) - e.x, p[i](1) - e.y) < 1e-4 && ref::same_angle(p[i](2), e.th, 1e-4), "particle %zu of %zu moves to (%g %g %g), odometry says (%g %g %g)", i, n, p[i](0), p[i](1), p[i](2), e.x, e.y, e.th);
  }
  size_t at[] = {0, draws / 2, draws - 1, draws > 256 ? 256 : 0, draws > 64 ? 63 : 0, draws / 3};
  g_noisy = at[where];
  g_at = 0;
  auto q = start;
  mm.sample(d[0], d[1], d[2], q);
  size_t moved = 0;
  for (size_t i = 0; i < n; ++i) moved += (q[i] - p[i]).norm() > 1e-6;
  c.check(moved <= 1, "one draw, number %zu of %zu, moved %zu of %zu particles", at[where], draws, moved, n);
  g_all = true;
  g_at = 0;
  auto r = start;
  mm.sample(d[0], d[1], d[2], r);
  c.step(3);
  for (size_t i = 0; i < n; ++i) c.check((r[i] - p[i]).norm() > 1e-6, "particle %zu of %zu ignores its noise", i, n);
  verif::normal_hook = nullptr;
  c.log("%zu particles, draw %zu with noise", n, at[where]);
  uint64_t h = mc::mix(n, mc::mix(at[where], mc::hd(q[0](0))));
  c.state(h);
  c.observe(h);
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C08", {
    {"outcomes", "7 noise settings x 18 odometry motions x 4 start poses; in each all 27 combinations of -1/0/+1 sigma draws, plus per-particle independence over 3 particles", 2, body},
    {"many", "8 numbers of particles (1 to 5000) x 4 motions x 6 single draws", 2, many},
  });
}
