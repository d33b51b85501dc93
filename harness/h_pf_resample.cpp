// C10: adaptive (KLD) resampling. Every draw is a choice point: all outcomes are run.
#include "pf_util.hpp"
#include <set>
#include <array>
using namespace ndt_2d;

static mc::Ctx * g_c;
static std::vector<double> g_place;
static size_t g_ni;
static double place_seq(double m, double) { return g_ni < g_place.size() ? g_place[g_ni++] : m; }
static std::vector<size_t> g_drawn;
static std::vector<std::vector<double>> g_w;
static size_t g_limit;
static size_t draw(const std::vector<double> & w)
{
  std::vector<size_t> pos;
  for (size_t i = 0; i < w.size(); ++i) if (w[i] > 0) pos.push_back(i);
  if (g_w.empty() || g_w.back() != w) g_w.push_back(w);
  if (g_drawn.size() > 100) g_c->fail("resampling does not stop: over 100 draws for at most %zu particles", g_limit);
  if (pos.empty()) { g_drawn.push_back(0); return 0; }
  size_t r = pos[g_c->choose(pos.size(), "draw")];
  g_drawn.push_back(r);
  return r;
}
static double unit() { return (g_c->choose(8, "unit") + 0.5) / 8; }

static long bound(size_t k, double err, double z)
{
  double b = 2.0 / (9.0 * (k - 1)), q = 1 - b + std::sqrt(b) * z;
  return static_cast<long>((k - 1) / (2 * err) * q * q * q);
}

static void body(mc::Ctx & c, bool big)
{
  g_c = &c;
  verif::normal_hook = place_seq;
  verif::discrete_hook = draw;
  verif::unit_hook = unit;
  // places: near together (one bin), two bins, all apart
  static const double layouts[][4][3] = {
    {{1.1, 1.1, 0.05}, {1.2, 1.2, 0.1}, {1.3, 1.3, 0.15}, {1.4, 1.1, 0.2}},
    {{1.1, 1.1, 0.05}, {1.2, 1.2, 0.1}, {-3.3, 1.3, 0.15}, {-3.4, 1.1, 0.2}},
    {{1.1, 1.1, 0.05}, {1.1, 1.1, 0.6}, {-1.1, 2.2, 0.1}, {4.3, -4.1, -0.9}},
    {{0.2, 0.2, 0.1}, {-0.2, 0.2, 0.1}, {0.2, -0.2, 0.1}, {0.2, 0.2, -0.1}}};
  static const double weights[][4] = {{1, 1, 1, 1}, {4, 2, 1, 1}, {1, 0, 0, 1}, {0, 0, 1, 0}, {0, 0, 0, 0}, {1e-7, 1, 1e-12, 0.5}};
  static const size_t mm[][2] = {{2, 5}, {3, 3}, {1, 6}, {4, 6}, {2, 8}};
  static const double kld[][2] = {{0.3, 1.0}, {0.05, 2.3}, {0.6, 2.3}};
  int li = c.choose(4, "layout"), wi = c.choose(6, "weights"), mi = c.choose(big ? 5 : 4, "bounds"), ki = c.choose(3, "kld");
  size_t minp = mm[mi][0], maxp = mm[mi][1];
  MotionModelPtr model = std::make_shared<MotionModel>(0.0, 0.0, 0.0, 0.0, 0.0);
  ParticleFilter f(minp, maxp, model);
  // place the first particles by an init whose draws are dictated
  auto P0 = particles(f);
  g_place.clear();
  for (size_t i = 0; i < P0.size(); ++i) for (int j = 0; j < 3; ++j) g_place.push_back(layouts[li][i % 4][j]);
  g_ni = 0;
  f.init(0, 0, 0, 1, 1, 1);
  auto P = particles(f);
  for (size_t i = 0; i < P.size(); ++i)
    for (int j = 0; j < 3; ++j) if (std::fabs(P[i](j) - layouts[li][i % 4][j]) > 1e-5) throw mc::Skip();   // draws are consumed in another order
  auto tm = std::make_shared<TableMatcher>();
  size_t idx = 0;
  tm->f = [&](const Pose2d &) { return -weights[wi][idx++ % 4]; };
  ScanMatcherPtr matcher = tm;
  ScanPtr scan = std::make_shared<Scan>(0);
  scan->setPoints({Point(1, 0)});
  f.measure(matcher, scan);
  std::vector<double> w(P.size());
  double sw = 0;
  for (size_t i = 0; i < P.size(); ++i) sw += w[i] = weights[wi][i % 4];
  if (sw == 0) { w.assign(P.size(), 1.0); sw = P.size(); }
  int rounds = big ? 1 : 1;
  for (int r = 0; r < rounds; ++r) {
    g_drawn.clear();
    g_w.clear();
    g_limit = maxp;
    f.resample(kld[ki][0], kld[ki][1]);
    c.step(g_drawn.size());
    auto Q = particles(f);
    c.check(Q.size() >= minp && Q.size() <= maxp, "%zu particles, the bounds are %zu and %zu", Q.size(), minp, maxp);
    for (auto & q : Q) {
      bool ok = false;
      for (size_t i = 0; i < P.size(); ++i) ok = ok || ((P[i] - q).norm() < 1e-9 && w[i] > 0);
      c.check(ok, "particle (%g %g %g) was made from none with a positive weight", q(0), q(1), q(2));
    }
    // the draws are made with the particles' weights
    for (auto & gw : g_w) {
      c.check(gw.size() == w.size(), "drawn from %zu weights, there are %zu particles", gw.size(), w.size());
      double s = 0;
      for (double x : gw) s += x;
      for (size_t i = 0; i < w.size(); ++i) c.near(gw[i] / s, w[i] / sw, 1e-9, "probability of drawing a particle");
    }
    // whoever was drawn is taken
    if (!g_w.empty() && g_drawn.size() == Q.size()) {
      std::vector<bool> used(Q.size(), false);
      for (size_t d : g_drawn) {
        size_t k = 0;
        while (k < Q.size() && (used[k] || (P[d] - Q[k]).norm() > 1e-9)) ++k;
        c.check(k < Q.size(), "particle %zu was drawn, but is not among those kept as often", d);
        used[k] = true;
      }
    }
    // stop rule, along the sequence of particles taken
    auto key = [](const Eigen::Vector3d & q) {
        return std::array<long, 3>{(long)std::floor(q(0) / 0.5), (long)std::floor(q(1) / 0.5), (long)std::floor(q(2) / 0.2671)};
      };
    std::set<std::array<long, 3>> bins;
    for (size_t n = 1; n <= Q.size(); ++n) {
      bins.insert(key(Q[n - 1]));
      long need = bins.size() > 1 ? bound(bins.size(), kld[ki][0], kld[ki][1]) : static_cast<long>(maxp);
      long stop = std::min<long>(maxp, std::max<long>(minp, need));
      if (n < Q.size()) c.check(static_cast<long>(n) < stop + 1, "went on after %zu particles in %zu bins: %ld are enough", n, bins.size(), stop);
      else c.check(static_cast<long>(n) >= stop || n == maxp, "stopped at %zu particles in %zu bins: %ld are needed", n, bins.size(), stop);
    }
    // all particles weigh the same afterwards
    Eigen::Vector3d m = f.getMean();
    double mx = 0, my = 0;
    for (auto & q : Q) { mx += q(0) / Q.size(); my += q(1) / Q.size(); }
    c.near(m(0), mx, 1e-6, "mean x after resampling");
    c.near(m(1), my, 1e-6, "mean y after resampling");
    uint64_t h = mc::mix(Q.size(), bins.size());
    for (auto & q : Q) h = mc::mix(h, ref::hpose(q(0), q(1), q(2)));
    c.state(h);
    c.observe(h);
    c.log("layout %d weights %d bounds %zu..%zu kld (%g %g): %zu draws -> %zu particles in %zu bins", li, wi, minp, maxp, kld[ki][0], kld[ki][1], g_drawn.size(), Q.size(), bins.size());
  }
}

// resampling again, without a measurement in between: the weights are those of the particles there
// are now. Scripts of 4 operations; draws in rotation among the positive weights
static std::vector<double> g_lastw;
static size_t rot_pos(const std::vector<double> & w)
{
  g_lastw = w;
  if (g_drawn.size() > 100) g_c->fail("resampling does not stop");
  for (size_t k = 0; k < w.size(); ++k) {
    size_t i = (g_drawn.size() * 3 + k) % w.size();
    if (w[i] > 0) { g_drawn.push_back(i); return i; }
  }
  g_drawn.push_back(0);
  return 0;
}
static double place_row(double m, double)
{
  static const double v[3] = {1.3, -0.7, 0.1};
  size_t i = g_ni++;
  return m + (i % 3 == 2 ? 0.05 : (double(i / 3) - 1.5) * v[i % 3]);
}
static void scripts(mc::Ctx & c)
{
  g_c = &c;
  verif::normal_hook = place_row;
  verif::discrete_hook = rot_pos;
  verif::unit_hook = nullptr;
  static const size_t mm[][2] = {{5, 5}, {3, 3}, {2, 6}};
  int mi = c.choose(3, "bounds");
  MotionModelPtr model = std::make_shared<MotionModel>(0.0, 0.0, 0.0, 0.0, 0.0);
  ParticleFilter f(mm[mi][0], mm[mi][1], model);
  auto tm = std::make_shared<TableMatcher>();
  ScanMatcherPtr matcher = tm;
  ScanPtr scan = std::make_shared<Scan>(0);
  scan->setPoints({Point(1, 0)});
  std::vector<double> w;      // weights as they should be
  auto uniform = [&] { w.assign(particles(f).size(), 1.0); };
  uniform();
  for (int i = 0; i < (c.thorough ? 6 : 5); ++i) {
    int op = c.choose(5, "op");
    c.step();
    if (op == 0) { g_ni = 0; f.init(1.25 * i, 0.5, 0, 1, 1, 1); uniform(); c.log("init"); }
    else if (op == 1 || op == 2) {
      static const double tab[2][4] = {{4, 2, 0, 1}, {0, 1, 5, 3}};
      size_t idx = 0;
      w.clear();
      tm->f = [&](const Pose2d &) { return -tab[op - 1][idx++ % 4]; };
      f.measure(matcher, scan);
      for (size_t k = 0; k < particles(f).size(); ++k) w.push_back(tab[op - 1][k % 4]);
      c.log("measure %d", op);
    } else if (op == 3) { f.update(0.7, 0.1, 0.2); c.log("update"); }
    else {
      auto P = particles(f);
      g_drawn.clear();
      g_lastw.clear();
      f.resample(0.3, 1.0);
      auto Q = particles(f);
      c.log("resample: %zu -> %zu", P.size(), Q.size());
      c.check(Q.size() >= mm[mi][0] && Q.size() <= mm[mi][1], "%zu particles, the bounds are %zu and %zu", Q.size(), mm[mi][0], mm[mi][1]);
      if (!g_lastw.empty()) {
        double s = 0, sw = 0;
        for (double x : g_lastw) s += x;
        for (double x : w) sw += x;
        c.check(g_lastw.size() == w.size(), "drawn from %zu weights, there are %zu particles", g_lastw.size(), w.size());
        for (size_t k = 0; k < w.size(); ++k) c.near(g_lastw[k] / s, w[k] / sw, 1e-9, "probability of drawing a particle");
      }
      for (auto & q : Q) {
        bool ok = false;
        for (size_t k = 0; k < P.size(); ++k) ok = ok || ((P[k] - q).norm() < 1e-9 && w[k] > 0);
        c.check(ok, "particle (%g %g %g) was made from none with a positive weight", q(0), q(1), q(2));
      }
      uniform();
    }
    auto Q = particles(f);
    Eigen::Vector3d m = f.getMean();
    double mx = 0, my = 0, sw = 0;
    for (size_t k = 0; k < Q.size(); ++k) { mx += w[k] * Q[k](0); my += w[k] * Q[k](1); sw += w[k]; }
    if (op == 1 || op == 2 || op == 4 || op == 0) {
      c.near(m(0), mx / sw, 1e-6, "mean x");
      c.near(m(1), my / sw, 1e-6, "mean y");
    }
    uint64_t h = Q.size();
    for (auto & q : Q) h = mc::mix(h, ref::hpose(q(0), q(1), q(2)));
    for (double x : w) h = mc::mix(h, mc::hd(x));
    c.state(h);
    c.observe(h);
  }
}

// large populations: a fixed rotation of draws, all bounds and spreads
static size_t rot(const std::vector<double> & w)
{
  size_t n = g_drawn.size();
  if (n > 5000) g_c->fail("resampling does not stop");
  g_drawn.push_back(n % w.size());
  return n % w.size();
}
static void large(mc::Ctx & c)
{
  g_c = &c;
  verif::normal_hook = place_seq;
  verif::discrete_hook = rot;
  static const size_t mm[][2] = {{10, 500}, {100, 500}, {50, 60}, {200, 200}};
  static const double errs[] = {0.01, 0.05, 0.2}, zs[] = {0.0, 1.0, 2.3}, pitch[] = {0.02, 0.3, 0.9, 4.0};
  int mi = c.choose(4);
  double err = errs[c.choose(3)], z = zs[c.choose(3)], pi = pitch[c.choose(4)];
  size_t minp = mm[mi][0], maxp = mm[mi][1];
  MotionModelPtr model = std::make_shared<MotionModel>(0.0, 0.0, 0.0, 0.0, 0.0);
  ParticleFilter f(minp, maxp, model);
  for (int round = 0; round < 3; ++round) {
    size_t n0 = particles(f).size();
    g_place.clear();
    double far = 37.3 * round;      // other bins in each round
    for (size_t i = 0; i < n0; ++i) { g_place.push_back((int(i % 7) - 3.3) * pi + far); g_place.push_back((int(i / 7) - 2.4) * pi); g_place.push_back(0.1); }
    g_ni = 0;
    f.init(0, 0, 0, 1, 1, 1);
    // ... once as initialised, then moved on as a whole, twice
    size_t bins_n = 0;
    for (int again = 0; again < 3; ++again) {
      if (again) { f.update(61.7, again == 2 ? 9.3 : 0, 0); }
      auto P = particles(f);
      g_drawn.clear();
      f.resample(err, z);
      c.step(g_drawn.size());
      auto Q = particles(f);
      c.check(Q.size() >= minp && Q.size() <= maxp, "%zu particles, the bounds are %zu and %zu", Q.size(), minp, maxp);
      std::set<std::pair<long, long>> bins;
      for (size_t n = 1; n <= Q.size(); ++n) {
        bins.insert({(long)std::floor(Q[n - 1](0) / 0.5), (long)std::floor(Q[n - 1](1) / 0.5)});
        long need = bins.size() > 1 ? bound(bins.size(), err, z) : static_cast<long>(maxp);
        long stop = std::min<long>(maxp, std::max<long>(minp, need));
        if (n < Q.size()) c.check(static_cast<long>(n) < stop + 1, "went on after %zu particles in %zu bins: %ld are enough", n, bins.size(), stop);
        else c.check(static_cast<long>(n) >= stop || n == maxp, "stopped at %zu particles in %zu bins: %ld are needed", n, bins.size(), stop);
      }
      bins_n = bins.size();
    }
    auto Q = particles(f);
    c.log("bounds %zu..%zu err %g z %g pitch %g: %zu -> %zu particles in %zu bins", minp, maxp, err, z, pi, n0, Q.size(), bins_n);
    uint64_t h = mc::mix(Q.size(), bins_n);
    c.state(h);
    c.observe(h);
  }
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C10", {
    {"all_draws", "4 layouts (one bin .. all apart, around zero) x 6 weightings (zero and tiny weights, none) x 4 particle bounds x 3 KLD settings, every sequence of draws", 3,
      [](mc::Ctx & c) { body(c, false); }},
    {"all_draws_8", "as all_draws, with bounds up to 8 particles", 3, [](mc::Ctx & c) { body(c, true); }, true},
    {"scripts", "all sequences of 5 (6) operations from {init, 2 measurements, motion, resample} x 3 bounds: the weights drawn from are those of the present particles", 2, scripts},
    {"large", "4 bounds (to 500) x 3 errors x 3 quantiles x 4 spreads, three rounds of initialising, resampling, and twice moving on and resampling again", 1, large},
  });
}
