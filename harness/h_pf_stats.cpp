// C09: mean and covariance are those of the current weighted particle set, and always finite.
#include "pf_util.hpp"
using namespace ndt_2d;

static mc::Ctx * g_c;
static std::vector<double> g_norm;      // offsets in sigmas handed out in turn
static size_t g_ni;
static double normal_seq(double m, double s) { double k = g_norm[g_ni++ % g_norm.size()]; return m + k * s; }
static std::vector<size_t> g_drawn;
static std::vector<double> g_weights;
static int g_pick;                      // which positive-weight index comes next, in rotation
static size_t discrete_seq(const std::vector<double> & w)
{
  g_weights = w;
  std::vector<size_t> pos;
  for (size_t i = 0; i < w.size(); ++i) if (w[i] > 0) pos.push_back(i);
  if (pos.empty()) return 0;
  size_t r = pos[g_pick++ % pos.size()];
  g_drawn.push_back(r);
  return r;
}

static void stats(mc::Ctx & c, ParticleFilter & f, const std::vector<double> & w, const char * after)
{
  auto P = particles(f);
  c.check(P.size() == w.size(), "%zu particles, expected %zu (after %s)", P.size(), w.size(), after);
  double sw = 0;
  for (double x : w) sw += x;
  double mx = 0, my = 0, cs = 0, sn = 0;
  for (size_t i = 0; i < P.size(); ++i) {
    mx += w[i] / sw * P[i](0);
    my += w[i] / sw * P[i](1);
    cs += w[i] / sw * std::cos(P[i](2));
    sn += w[i] / sw * std::sin(P[i](2));
  }
  double th = std::atan2(sn, cs), xx = 0, xy = 0, yy = 0, tt = 0;
  for (size_t i = 0; i < P.size(); ++i) {
    double k = w[i] / sw, dx = P[i](0) - mx, dy = P[i](1) - my, dt = ref::wrap(P[i](2) - th);
    xx += k * dx * dx; xy += k * dx * dy; yy += k * dy * dy; tt += k * dt * dt;
  }
  Eigen::Vector3d m = f.getMean();
  Eigen::Matrix3d C = f.getCovariance();
  c.check(m.allFinite() && C.allFinite(), "mean or covariance is not finite after %s", after);
  std::string what = std::string(" after ") + after;
  c.near(m(0), mx, 1e-6, ("mean x" + what).c_str());
  c.near(m(1), my, 1e-6, ("mean y" + what).c_str());
  bool th_defined = std::hypot(cs, sn) > 1e-3;
  if (th_defined) c.check(ref::same_angle(m(2), th, 1e-5), "mean heading %g, the particles have %g%s", m(2), th, what.c_str());
  c.near(C(0, 0), xx, 1e-5, ("variance of x" + what).c_str());
  c.near(C(0, 1), xy, 1e-5, ("covariance of x, y" + what).c_str());
  c.near(C(1, 0), xy, 1e-5, ("covariance of y, x" + what).c_str());
  c.near(C(1, 1), yy, 1e-5, ("variance of y" + what).c_str());
  // near +-pi from the mean a particle's sign is free, its square is not
  if (th_defined) c.near(C(2, 2), tt, 1e-4, ("variance of the heading" + what).c_str());
  uint64_t h = mc::mix(ref::hpose(mx, my, th), mc::mix(mc::hd(xx), mc::mix(mc::hd(yy), mc::hd(tt))));
  c.state(h);
  c.observe(h);
}

static void body(mc::Ctx & c, int depth)
{
  g_c = &c;
  verif::normal_hook = normal_seq;
  verif::discrete_hook = discrete_seq;
  g_ni = 0;
  g_pick = 0;
  static const std::vector<double> patterns[] = {{0}, {-1, 0.5, 1, -0.25, 0.75, 0, 1.5}, {1, -1}};
  int minp = c.choose(2) ? 4 : 3, maxp = minp + (minp == 4 ? 0 : 3);
  MotionModelPtr mm = std::make_shared<MotionModel>(0.2, 0.2, 0.2, 0.2, 0.2);
  ParticleFilter f(minp, maxp, mm);
  std::vector<double> w(minp, 1.0);
  bool uniform = true;
  stats(c, f, w, "construction");
  auto tm = std::make_shared<TableMatcher>();
  ScanMatcherPtr matcher = tm;
  ScanPtr scan = std::make_shared<Scan>(0);
  scan->setPoints({Point(1, 0), Point(2, 0)});
  scan->setPose(Pose2d(50, 50, 1));
  for (int i = 0; i < depth; ++i) {
    int op = c.choose(13, "op"), mv = -1;
    if (op == 11) { op = 3; mv = 3; }     // turns on the spot
    if (op == 12) { op = 3; mv = 4; }
    c.step();
    std::string name;
    if (op < 3) {
      static const double in[][6] = {{1, -2, 0.5, 0.3, 0.2, 0.1}, {-4, 7, 3.1, 0.5, 0.1, 0.4}, {0, 0, -1.5, 0, 0, 0}};
      g_norm = patterns[op == 2 ? 0 : 1];
      f.init(in[op][0], in[op][1], in[op][2], in[op][3], in[op][4], in[op][5]);
      name = "init " + std::to_string(op);
      size_t n = particles(f).size();
      w.assign(n, 1.0);
      uniform = true;
      c.check(n >= static_cast<size_t>(minp) && n <= static_cast<size_t>(maxp), "init left %zu particles", n);
      auto P = particles(f);
      for (auto & q : P) {
        c.check(std::fabs(q(0) - in[op][0]) <= 1.5 * in[op][3] + 1e-5 && std::fabs(q(1) - in[op][1]) <= 1.5 * in[op][4] + 1e-5 &&
          ref::same_angle(q(2), in[op][2], 1.5 * in[op][5] + 1e-5), "particle (%g %g %g) is not within the spread asked for", q(0), q(1), q(2));
      }
    } else if (op < 6) {
      static const double d[][3] = {{0.5, 0, 0.1}, {-0.3, 0.4, -2.5}, {0, 0, 0}, {0, 0, 0.4}, {0, 0, -3.0}};
      if (mv < 0) mv = op - 3;
      g_norm = patterns[op == 4 ? 2 : 1];
      auto before = particles(f);
      f.update(d[mv][0], d[mv][1], d[mv][2]);
      name = "update " + std::to_string(mv);
      c.check(particles(f).size() == before.size(), "a control update changed the number of particles");
    } else if (op < 10) {
      // scores are minus the likelihood; 8: all zero, 9: only the first particle fits
      if (!uniform) { c.log("(skipped: weights are not uniform)"); continue; }
      auto P = particles(f);
      size_t idx = 0;
      bool dup = false;
      for (size_t a = 0; a < P.size(); ++a) for (size_t b = 0; b < a; ++b) dup = dup || (P[a] - P[b]).norm() < 1e-6;
      (void)dup;
      auto score = [op](size_t k, const Pose2d & p) {
          switch (op) {
            case 6: return -0.1 - 0.05 * (k % 4);
            case 7: return -1.0 / (1.0 + p.x * p.x + 0.5 * p.y * p.y);
            case 8: return 0.0;
            default: return k == 0 ? -0.7 : 0.0;
          }
        };
      tm->f = [&](const Pose2d & p) { return score(idx++, p); };
      tm->calls = 0;
      tm->sizes.clear();
      f.measure(matcher, scan);
      name = "measure " + std::to_string(op - 6);
      c.check(tm->calls == P.size(), "%zu scores were asked for %zu particles", tm->calls, P.size());
      for (auto s : tm->sizes) c.check(s == 2, "a score was asked for %zu of 2 points", s);
      double sum = 0;
      for (size_t k = 0; k < P.size(); ++k) { w[k] = std::fabs(score(k, Pose2d(P[k](0), P[k](1), P[k](2)))); sum += w[k]; }
      if (sum == 0) w.assign(P.size(), 1.0);       // a scan that fits nowhere tells nothing
      uniform = sum == 0;
      auto Q = particles(f);
      for (size_t k = 0; k < P.size(); ++k) c.check((P[k] - Q[k]).norm() < 1e-9, "measuring moved a particle");
      c.check(scan->getPose().x == 50 && scan->getPoints().size() == 2, "measuring changed the scan");
    } else {
      auto P = particles(f);
      g_drawn.clear();
      f.resample(0.2, 1.0);
      name = "resample";
      auto Q = particles(f);
      for (auto & q : Q) {
        bool found = false;
        for (size_t k = 0; k < P.size(); ++k) found = found || ((P[k] - q).norm() < 1e-9 && w[k] > 0);
        c.check(found, "resampling made a particle that had no weight before");
      }
      w.assign(Q.size(), 1.0);
      uniform = true;
    }
    c.log("%s: %zu particles", name.c_str(), w.size());
    stats(c, f, w, name.c_str());
  }
  verif::normal_hook = nullptr;
  verif::discrete_hook = nullptr;
}
// hundreds of particles, and few
static double normal_many(double m, double s)
{
  static const double t[] = {0.1, -1.2, 0.7, 0.45, -0.3, 1.9, -0.85, 0.25, 1.1, -1.6, -0.05};
  size_t i = g_ni++;
  return m + s * (t[i % 11] + 0.013 * ((i * 7) % 17));
}
static void large(mc::Ctx & c)
{
  g_c = &c;
  verif::normal_hook = normal_many;
  verif::discrete_hook = discrete_seq;
  g_ni = 0;
  g_pick = 0;
  static const int mm[][2] = {{1, 1}, {1, 700}, {2, 2}, {100, 600}, {500, 500}, {3000, 5000}};
  int b = c.choose(6, "bounds");
  size_t minp = mm[b][0], maxp = mm[b][1];
  MotionModelPtr mo = std::make_shared<MotionModel>(0.2, 0.2, 0.2, 0.2, 0.2);
  ParticleFilter f(minp, maxp, mo);
  static const double in[][6] = {{1, -2, 0.5, 0.3, 0.2, 0.1}, {-4, 7, 3.1, 0.5, 0.1, 0.4}, {800, -700, -1.5, 0.01, 2, 0.2}};
  int k = c.choose(3, "initial");
  f.init(in[k][0], in[k][1], in[k][2], in[k][3], in[k][4], in[k][5]);
  std::vector<double> w(particles(f).size(), 1.0);
  stats(c, f, w, "init");
  auto P = particles(f);
  for (auto & q : P)
    c.check(std::fabs(q(0) - in[k][0]) <= 2.3 * in[k][3] + 1e-4 && std::fabs(q(1) - in[k][1]) <= 2.3 * in[k][4] + 1e-4 &&
      ref::same_angle(q(2), in[k][2], 2.3 * in[k][5] + 1e-5), "particle (%g %g %g) is not within the spread asked for", q(0), q(1), q(2));
  auto tm = std::make_shared<TableMatcher>();
  ScanMatcherPtr matcher = tm;
  ScanPtr scan = std::make_shared<Scan>(0);
  scan->setPoints({Point(1, 0), Point(2, 0)});
  int plan = c.choose(6, "weights");
  for (int round = 0; round < 3; ++round) {
    f.update(0.5, 0.1 * round, -0.4);
    w.assign(particles(f).size(), 1.0);
    c.step();
    stats(c, f, w, "update");
    auto Q = particles(f);
    size_t idx = 0;
    auto score = [&](size_t i) { return plan == 0 ? -0.5 : plan == 1 ? -0.001 * (1 + i % 97) : plan == 2 ? (i + 1 == Q.size() ? -0.9 : i ? -1e-7 : -0.1) : plan == 3 ? (i % 2 ? 0.0 : -0.2) : plan == 4 ? -1e-15 * (1 + i % 7) : -1e-120 * (1 + i % 5); };
    tm->f = [&](const Pose2d &) { return score(idx++); };
    tm->calls = 0;
    f.measure(matcher, scan);
    c.check(tm->calls == Q.size(), "%zu scores were asked for %zu particles", tm->calls, Q.size());
    double sum = 0;
    for (size_t i = 0; i < Q.size(); ++i) sum += w[i] = std::fabs(score(i));
    if (sum == 0) w.assign(Q.size(), 1.0);
    stats(c, f, w, "measure");
    g_drawn.clear();
    f.resample(0.02, 2.3);
    w.assign(particles(f).size(), 1.0);
    c.check(w.size() >= minp && w.size() <= maxp, "%zu particles, the bounds are %zu and %zu", w.size(), minp, maxp);
    stats(c, f, w, "resample");
    c.log("round %d: %zu particles", round, w.size());
  }
  verif::normal_hook = nullptr;
  verif::discrete_hook = nullptr;
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C09", {
    {"histories", "all histories of 5 (6 thorough) operations from {3 inits, 5 updates, 4 measurements (graded, by place, all zero, one particle only), resample}, "
      "2 particle bounds", 2, [](mc::Ctx & c) { body(c, c.thorough ? 6 : 5); }},
    {"large", "6 particle bounds (1 to 5000) x 3 initial poses x 6 weightings (down to 1e-120), three rounds of motion, measurement and resampling", 1, large},
  });
}
