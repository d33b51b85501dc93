// C02: the NDT grid: which cell a point belongs to, what is outside, and what a query returns.
#include "mc.hpp"
#include "ref.hpp"
#include <algorithm>
#include <limits>
#include <ndt_2d/ndt_model.hpp>
using namespace ndt_2d;
using ref::P;

struct Geo { double cs, sx, sy, ox, oy; };
struct Model
{
  Geo g;
  long nx, ny;
  std::map<std::pair<long, long>, std::vector<P>> cells;
  explicit Model(const Geo & geo) : g(geo), nx(std::floor(g.sx / g.cs + 1e-9) + 1), ny(std::floor(g.sy / g.cs + 1e-9) + 1) {}
  bool cell(const P & p, std::pair<long, long> & k) const
  {
    if (!std::isfinite(p.x) || !std::isfinite(p.y)) return false;
    double fx = std::floor((p.x - g.ox) / g.cs), fy = std::floor((p.y - g.oy) / g.cs);
    if (fx < 0 || fy < 0 || fx >= nx || fy >= ny) return false;
    k = {static_cast<long>(fx), static_cast<long>(fy)};
    return true;
  }
  void add(const P & p) { std::pair<long, long> k; if (cell(p, k)) cells[k].push_back(p); }
  double score(const P & p, bool & defined) const
  {
    defined = true;
    std::pair<long, long> k;
    if (!cell(p, k)) return 0;
    auto it = cells.find(k);
    if (it == cells.end() || it->second.size() < 5) return 0;
    ref::Stats st(it->second);
    defined = st.regular();
    return defined ? static_cast<double>(st.gauss(p.x, p.y)) : 0;
  }
};

static const std::vector<P> shape7 = {{0.31, 0.42}, {0.55, 0.61}, {0.44, 0.22}, {0.72, 0.51}, {0.61, 0.33}, {0.35, 0.68}, {0.52, 0.47}};
static const std::vector<P> shape5 = {{0.21, 0.62}, {0.45, 0.71}, {0.64, 0.32}, {0.52, 0.41}, {0.33, 0.55}};

static void body(mc::Ctx & c)
{
  static const Geo geos[] = {
    {1.0, 4.0, 3.0, -2.0, -1.0}, {0.25, 1.0, 1.25, 0.5, -3.0}, {0.5, 2.2, 1.7, -0.75, 10.0}, {1.0, 5.0, 2.0, -7.0, -8.0}};
  int gi = c.choose(4, "grid");
  const Geo g = geos[gi];
  Model m(g);
  NDT ndt(g.cs, g.sx, g.sy, g.ox, g.oy);
  static const ref::Pose poses[] = {{0, 0, 0}, {0.4, -0.7, M_PI / 2}, {-1.3, 2.2, 2.5}, {6.0, 0.1, -0.6}};
  int plan = c.choose(4, "plan");    // how scans and compute calls are interleaved
  int nsc = plan == 0 ? 1 : 2;
  // the cells targeted: every pair among a corner, the far corner, the middle, one outside
  auto target = [&](int k) {
      switch (k) {
        case 0: return std::pair<long, long>(0, 0);
        case 1: return std::pair<long, long>(m.nx - 1, m.ny - 1);
        case 2: return std::pair<long, long>(1, 0);
        case 3: return std::pair<long, long>(0, 1);
        case 4: return std::pair<long, long>(m.nx - 1, 0);
        case 5: return std::pair<long, long>(m.nx, 0);        // outside
        case 6: return std::pair<long, long>(-1, 1);          // outside
        default: return std::pair<long, long>(0, m.ny);       // outside
      }
    };
  std::vector<ScanPtr> scans;
  for (int s = 0; s < nsc; ++s) {
    int pi = c.choose(4, "pose");
    ref::Pose pose = poses[pi];
    std::vector<P> world;
    int t1 = c.choose(8, "cell"), sh = s;
    auto put = [&](std::pair<long, long> k, const std::vector<P> & shape) {
        for (auto & q : shape) world.push_back({g.ox + (k.first + q.x) * g.cs, g.oy + (k.second + q.y) * g.cs});
      };
    put(target(t1), sh ? shape5 : shape7);
    put(target((t1 + 1) % 8), shape5);
    world.push_back({pose.x, pose.y});       // right where the scan was taken, among others
    world.push_back({pose.x, pose.y});
    std::pair<long, long> at;
    if (m.cell({pose.x, pose.y}, at)) put(at, shape5);
    world.push_back({g.ox - 1000, g.oy + 1e6});
    std::vector<Point> local;
    ref::Pose inv = ref::inverse(pose);
    for (auto & w : world) { P l = ref::apply(inv, w); local.push_back(Point(l.x, l.y)); }
    ScanPtr scan = std::make_shared<Scan>(s);
    scan->setPose(Pose2d(pose.x, pose.y, pose.th));
    scan->setPoints(local);
    scans.push_back(scan);
    ndt.addScan(scan);
    c.step();
    c.log("addScan pose %d cells %d,%d", pi, t1, (t1 + 1) % 8);
    for (auto & w : world) m.add(w);
    if (plan == 2) { ndt.compute(); c.step(); }
  }
  ndt.compute();
  if (plan == 3) ndt.compute();
  // queries: the corners and inside of every cell of the grid and a ring around it
  uint64_t h = mc::mix(gi, plan);
  std::vector<P> probes;
  for (long i = -2; i <= m.nx + 1; ++i)
    for (long j = -2; j <= m.ny + 1; ++j)
      for (auto & f : {P{0.0625, 0.0625}, P{0.5, 0.46875}, P{0.9375, 0.9375}, P{0.5, 0.0}})
        probes.push_back({g.ox + (i + f.x) * g.cs, g.oy + (j + f.y) * g.cs});
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  for (double v : {1e9, 5e9, 1e12, 1e19, 1e300, -1e9, -1e300, inf, -inf, nan}) {
    probes.push_back({v, g.oy + 0.5 * g.cs});
    probes.push_back({g.ox + 0.5 * g.cs, v});
  }
  // 2^32 cells away: an index that wraps lands back inside
  probes.push_back({g.ox + (4294967296.0 + 0.5) * g.cs, g.oy + 0.45 * g.cs});
  probes.push_back({g.ox + 0.5 * g.cs, g.oy + (4294967296.0 + 0.45) * g.cs});
  double sum = 0;
  std::vector<Point> finite;
  size_t hits = 0;
  for (auto & p : probes) {
    bool def;
    double want = m.score(p, def);
    double got = ndt.likelihood(Eigen::Vector2d(p.x, p.y));
    c.check(std::isfinite(got) && got >= 0 && got <= 1 + 1e-12, "likelihood(%g, %g) = %g", p.x, p.y, got);
    if (def) {
      if (!(std::fabs(got - want) <= 1e-6)) c.fail("likelihood(%.12g, %.12g) = %.9g, the points added to its cell give %.9g", p.x, p.y, got, want);
    }
    double g3 = ndt.likelihood(Eigen::Vector3d(p.x, p.y, 1.0));
    c.check(g3 == got || std::fabs(g3 - got) < 1e-12, "3d and 2d queries differ: %g %g", g3, got);
    if (want > 0) ++hits;
    h = mc::mix(h, mc::hd(got));
    if (std::isfinite(p.x) && std::isfinite(p.y) && std::fabs(p.x) < 1e6 && std::fabs(p.y) < 1e6) {
      finite.push_back(Point(p.x, p.y));
      sum += got;
    }
  }
  c.near(ndt.likelihood(finite), sum, 1e-9, "likelihood of a set of points");
  c.near(ndt.likelihood(std::vector<Point>()), 0.0, 1e-12, "likelihood of no points");
  for (auto & s : scans) {
    double want = 0;
    bool ok = true;
    Pose2d p = s->getPose();
    for (auto & q : s->getPoints()) {
      bool def;
      want += m.score(ref::apply({p.x, p.y, p.theta}, {q.x, q.y}), def);
      ok = ok && def;
    }
    double got = ndt.likelihood(s);
    if (ok) c.near(got, want, 1e-6, "likelihood of a scan at its pose");
  }
  // ... and of scans that were not added: each place next to the ones before and after it, in either order, at any pose
  for (auto & ps : poses) {
    ref::Pose inv = ref::inverse(ps);
    double want = 0;
    std::vector<Point> fwd;
    for (auto & p : probes) {
      if (!(std::fabs(p.x) < 1e6 && std::fabs(p.y) < 1e6)) continue;
      double fy = (p.y - g.oy) / g.cs, fx = (p.x - g.ox) / g.cs;
      if (std::fabs(fy - std::round(fy)) < 0.01 || std::fabs(fx - std::round(fx)) < 0.01) continue;     // an edge: rounding decides
      P l = ref::apply(inv, p);
      fwd.push_back(Point(l.x, l.y));
      want += ndt.likelihood(Eigen::Vector2d(p.x, p.y));
    }
    for (int rev = 0; rev < 3; ++rev) {
      std::vector<Point> v = fwd;
      if (rev == 1) std::reverse(v.begin(), v.end());
      double w = want;
      if (rev == 2) {      // far places in between
        v.clear();
        for (auto & p : fwd) { v.push_back(p); v.push_back(Point(1e7, -1e7)); }
      }
      ScanPtr q = std::make_shared<Scan>(9);
      q->setPose(Pose2d(ps.x, ps.y, ps.th));
      q->setPoints(v);
      c.near(ndt.likelihood(q), w, 1e-7, "likelihood of a scan that was not added");
    }
  }
  // the query is a function of the map only
  double again = ndt.likelihood(finite);
  c.near(again, sum, 1e-9, "likelihood asked twice");
  c.state(h);
  c.observe(mc::mix(h, hits));
}

// big maps: many cells, many points per cell, many scans
static void large(mc::Ctx & c)
{
  static const Geo geos[] = {{0.25, 60, 45, -30.0, -22.0}, {1.0, 300, 20, 100, -10}, {0.5, 7, 400, -3.25, 0}, {0.125, 10, 10, -5, -5},
    {0.25, 2500, 2, -1200, 3}, {0.5, 1, 6000, 40, -2500}};
  const Geo g = geos[c.choose(6, "grid")];
  int per = std::vector<int>{6, 40, 700}[c.choose(3, "points per cell")], plan = c.choose(3, "plan"), stride = 1 + c.choose(3, "stride") * 6;
  Model m(g);
  NDT ndt(g.cs, g.sx, g.sy, g.ox, g.oy);
  std::vector<P> world;
  std::vector<std::pair<long, long>> cells;
  for (long k = 0; k < m.nx * m.ny; k += stride) cells.push_back({k % m.nx, k / m.nx});
  size_t cap = 400000 / per;
  if (cells.size() > cap) { std::vector<std::pair<long, long>> v; for (size_t i = 0; i < cap; ++i) v.push_back(cells[i * cells.size() / cap]); cells = v; }
  for (auto & k : cells)
    for (int i = 0; i < per; ++i) {
      double a = (i * 7 + k.first) % 11 / 16.0, b = (i * 5 + k.second * 3) % 13 / 18.0;
      world.push_back({g.ox + (k.first + 0.13 + 0.9 * a + (i > per / 2 ? 0.1 : 0)) * g.cs, g.oy + (k.second + 0.17 + 0.8 * b) * g.cs});
    }
  size_t scans = plan == 0 ? 1 : plan == 1 ? 7 : 150;
  std::vector<std::vector<P>> parts(scans);
  for (size_t i = 0; i < world.size(); ++i) parts[i % scans].push_back(world[i]);
  for (size_t s = 0; s < scans; ++s) {
    ref::Pose pose{0.3 * s, -0.2 * s, 0.7 * s}, inv = ref::inverse(pose);
    std::vector<Point> local;
    for (auto & w : parts[s]) { P l = ref::apply(inv, w); local.push_back(Point(l.x, l.y)); }
    ScanPtr scan = std::make_shared<Scan>(s);
    scan->setPose(Pose2d(pose.x, pose.y, pose.th));
    scan->setPoints(local);
    ndt.addScan(scan);
    if (plan == 1) ndt.compute();
    c.step();
  }
  ndt.compute();
  for (auto & w : world) m.add(w);
  uint64_t h = 0;
  std::vector<Point> q;
  double sum = 0;
  size_t n = 0;
  for (size_t i = 0; i < cells.size(); i += 1 + cells.size() / 1500) {
    for (auto & f : {P{0.4, 0.45}, P{0.7, 0.3}, P{1.5, 0.5}}) {
      P p{g.ox + (cells[i].first + f.x) * g.cs, g.oy + (cells[i].second + f.y) * g.cs};
      bool def;
      double want = m.score(p, def), got = ndt.likelihood(Eigen::Vector2d(p.x, p.y));
      if (def && !(std::fabs(got - want) <= 1e-6 * (1 + (p.x * p.x + p.y * p.y) * 1e-5))) c.fail("likelihood(%.12g, %.12g) = %.9g, the points added to its cell give %.9g", p.x, p.y, got, want);
      q.push_back(Point(p.x, p.y));
      sum += got;
      h = mc::mix(h, mc::hd(got));
      ++n;
    }
  }
  c.near(ndt.likelihood(q), sum, 1e-8, "likelihood of a set of points");
  c.log("%ld x %ld cells, %zu points in %zu scans: %zu places asked", m.nx, m.ny, world.size(), scans, n);
  c.state(h);
  c.observe(h);
}

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C02", {
    {"grids", "4 grids x {1 scan, 2 scans, compute between, compute twice} x 4 scan poses x 8 target cells (inside, edge, outside) per scan; "
      "every cell corner/inside plus a ring and far, infinite and NaN places queried, one by one and as scans in 3 orders at 4 poses", 3, body},
    {"large", "6 grids (to 43000 cells, to 12000 in one direction) x 3 densities (to 700 points per cell) x {1, 7, 150 scans} x 3 strides, up to 400000 points", 2, large},
  });
}
