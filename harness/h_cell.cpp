// C01: the statistics and score of one NDT cell.
#include "mc.hpp"
#include "ref.hpp"
#include <ndt_2d/ndt_model.hpp>
using namespace ndt_2d;
using ref::P;

static void judge(mc::Ctx & c, Cell & cell, const std::vector<P> & pts, double scale)
{
  ref::Stats st(pts);
  const double tol = 1e-9 * std::max(1.0, scale);
  c.check(cell.n == static_cast<double>(pts.size()), "cell counts %g points, %zu were added", cell.n, pts.size());
  if (!pts.empty()) {
    c.near(cell.mean(0), st.mx, tol, "mean x");
    c.near(cell.mean(1), st.my, tol, "mean y");
  }
  double ctol = 1e-9 * std::max(1.0, scale * scale);
  if (pts.size() >= 3) {
    c.near(cell.covariance(0, 0), st.cxx, ctol, "covariance xx");
    c.near(cell.covariance(0, 1), st.cxy, ctol, "covariance xy");
    c.near(cell.covariance(1, 0), st.cxy, ctol, "covariance yx");
    c.near(cell.covariance(1, 1), st.cyy, ctol, "covariance yy");
  }
  uint64_t h = mc::mix(pts.size(), mc::mix(mc::hd(st.mx), mc::mix(mc::hd(st.my), mc::mix(mc::hd(st.cxx), mc::hd(st.cyy)))));
  c.state(h);
  // probes: a lattice around the mean, and along the principal directions
  double r = std::sqrt(std::max(1e-6, static_cast<double>(st.large)));
  double ang = 0.5 * std::atan2(2 * static_cast<double>(st.cxy), static_cast<double>(st.cxx - st.cyy));
  std::vector<P> probes;
  for (int i = -2; i <= 2; ++i)
    for (int j = -2; j <= 2; ++j)
      probes.push_back({static_cast<double>(st.mx) + 0.6 * i * r, static_cast<double>(st.my) + 0.7 * j * r});
  probes.push_back({static_cast<double>(st.mx) + 1e3, static_cast<double>(st.my)});
  probes.push_back({static_cast<double>(st.mx), static_cast<double>(st.my) - 1e5});
  for (size_t i = 0; i < pts.size(); i += 1 + pts.size() / 500) probes.push_back(pts[i]);
  uint64_t o = h;
  for (auto & p : probes) {
    double s = cell.score(Eigen::Vector2d(p.x, p.y));
    c.check(std::isfinite(s) && s >= 0.0 && s <= 1.0 + 1e-12, "score(%.17g, %.17g) = %.17g is not a value in [0, 1]", p.x, p.y, s);
    if (pts.size() < 5) c.check(s == 0.0, "score %g from %zu points (fewer than five)", s, pts.size());
    else if (st.regular()) c.near(s, st.gauss(p.x, p.y), 1e-6 + 2e-14 * scale * scale / static_cast<double>(st.small), "Gaussian score");
    o = mc::mix(o, mc::hd(s));
  }
  if (pts.size() >= 5 && st.thin() && !st.flat() && scale < 100) {
    // the smaller variance is raised to a thousandth of the larger one
    for (double k : {-3.0, -1.0, 0.5, 1.0, 2.0}) {
      double d = k * std::sqrt(0.001 * static_cast<double>(st.large));
      double s = cell.score(Eigen::Vector2d(static_cast<double>(st.mx) - std::sin(ang) * d, static_cast<double>(st.my) + std::cos(ang) * d));
      c.near(s, std::exp(-0.5 * k * k), 1e-3, "score across a line of points");
      double l = k * std::sqrt(static_cast<double>(st.large));
      s = cell.score(Eigen::Vector2d(static_cast<double>(st.mx) + std::cos(ang) * l, static_cast<double>(st.my) + std::sin(ang) * l));
      c.check(s >= std::exp(-0.5 * k * k) - 1e-3, "score %g along a line of points, at %g deviations", s, k);
    }
  }
  if (pts.size() >= 5 && !st.flat()) {
    double s = cell.score(Eigen::Vector2d(static_cast<double>(st.mx), static_cast<double>(st.my)));
    if ((st.regular() || st.thin()) && scale < 2000) c.near(s, 1.0, 1e-6, "score at the mean");
  }
  c.observe(o);
}

static void sequences(mc::Ctx & c, const std::vector<P> & alpha, int depth, double ox, double oy)
{
  Cell cell;
  std::vector<P> pts;
  for (int i = 0; i < depth; ++i) {
    int op = c.choose(alpha.size() + 1, "op");
    c.step();
    if (op == static_cast<int>(alpha.size())) {
      cell.compute();
      c.log("compute");
      judge(c, cell, pts, std::fabs(ox) + std::fabs(oy));
    } else {
      P p{alpha[op].x + ox, alpha[op].y + oy};
      cell.addPoint(Eigen::Vector2d(p.x, p.y));
      pts.push_back(p);
      c.log("addPoint(%g,%g)", p.x, p.y);
    }
  }
  cell.compute();
  judge(c, cell, pts, std::fabs(ox) + std::fabs(oy));
}

static void shapes(mc::Ctx & c)
{
  // counts x shape x offset x recompute position; shapes include lines and coincident points
  static const int counts[] = {1, 2, 3, 4, 5, 6, 7, 17, 100, 300};
  static const double offs[][2] = {{0, 0}, {0.1, 0.3}, {12.7, -3.3}, {-30.3, -20.9}, {511.13, 1023.7}, {-4000.1, 3000.7}};
  int n = counts[c.choose(10)];
  int shape = c.choose(9);
  int o = c.choose(6);
  int half = c.choose(3);        // also compute after none / half / all but one of the points
  double ang = shape >= 3 && shape <= 5 ? std::vector<double>{0, M_PI / 4, 1.2}[shape - 3] : 0.0;
  Cell cell;
  std::vector<P> pts;
  for (int i = 0; i < n; ++i) {
    double a = ((i * 7) % 11 - 5) / 20.0, b = ((i * 5) % 7 - 3) / 25.0;
    double x, y;
    switch (shape) {
      case 0: x = a; y = b; break;                       // cloud
      case 1: x = a; y = a * 0.5 + b * 0.1; break;        // oblique cloud
      case 2: x = a * 0.05; y = b; break;                 // tall
      case 3: case 4: case 5: x = a * std::cos(ang); y = a * std::sin(ang); break;   // line
      case 6: x = 0; y = 0; break;                        // coincident
      case 7: x = a; y = b * 0.001; break;                // very thin cloud
      default: x = i % 2 ? 0.2 : -0.2; y = 0.1; break;    // two places
    }
    P p{x + offs[o][0], y + offs[o][1]};
    cell.addPoint(Eigen::Vector2d(p.x, p.y));
    pts.push_back(p);
    c.step();
    if ((half == 1 && i == n / 2) || (half == 2 && i == n - 2)) cell.compute();
  }
  cell.compute();
  c.step();
  c.log("%d points, shape %d, offset %d", n, shape, o);
  judge(c, cell, pts, std::fabs(offs[o][0]) + std::fabs(offs[o][1]));
}

// many points, whose distribution changes on the way
static void large(mc::Ctx & c)
{
  static const int counts[] = {300, 1000, 1001, 4097, 33000, 70000, 200000};
  static const double offs[][2] = {{0, 0}, {12.7, -3.3}, {-130.3, 220.9}};
  int n = counts[c.choose(c.thorough ? 7 : 6, "points")];
  int change = c.choose(4, "change"), o = c.choose(3, "offset");
  int often = c.choose(2, "compute often");
  Cell cell;
  std::vector<P> pts;
  for (int i = 0; i < n; ++i) {
    double a = ((i * 7ll) % 101 - 50) / 200.0, b = ((i * 5ll) % 67 - 33) / 250.0;
    bool late = change == 0 ? false : change == 1 ? i >= n / 2 : change == 2 ? i >= n - 30 : i < 30;
    P p = late ? P{0.4 - b * 0.3 + offs[o][0], 0.3 + a * 0.4 + offs[o][1]} : P{a + offs[o][0], b + offs[o][1]};
    cell.addPoint(Eigen::Vector2d(p.x, p.y));
    pts.push_back(p);
    if (often && i % 997 == 5) cell.compute();
  }
  c.step(n);
  cell.compute();
  c.log("%d points, change %d, offset %d", n, change, o);
  judge(c, cell, pts, std::fabs(offs[o][0]) + std::fabs(offs[o][1]));
}

int main(int argc, char ** argv)
{
  std::vector<P> a3 = {{0, 0}, {0.2, 0}, {0, 0.15}, {-0.1, -0.1}};
  std::vector<P> a2 = {{0, 0}, {0.2, 0.1}, {-0.1, 0.25}};
  return mc::run(argc, argv, "C01", {
    {"shapes", "10 counts (1..300) x 9 shapes (clouds, thin clouds, lines at 3 angles, coincident) x 6 offsets (to 5 km) x 3 recompute points", 2, shapes},
    {"large", "6 counts (300 to 70000; 200000 thorough) x 4 changes of distribution on the way x 3 offsets x computed once or often", 1, large},
    {"sequences", "all sequences of 7 operations (8 thorough) from {add one of 4 points, compute}, at the origin", 2,
      [&](mc::Ctx & c) { sequences(c, a3, c.thorough ? 8 : 7, 0, 0); }},
    {"sequences_offset", "all sequences of 8 operations (9 thorough) from {add one of 3 points, compute}, at (3.5, -7.25)", 2,
      [&](mc::Ctx & c) { sequences(c, a2, c.thorough ? 9 : 8, 3.5, -7.25); }},
  });
}
