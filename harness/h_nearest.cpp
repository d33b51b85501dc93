// C16: the search for nearby scans returns exactly those within the distance, nearest first.
#include "mc.hpp"
#include "ref.hpp"
#include <algorithm>
#include <ndt_2d/graph.hpp>
using namespace ndt_2d;
using ref::P;

static P center(const ScanPtr & s, bool bary)
{
  Pose2d p = s->getPose();
  if (!bary || s->getPoints().empty()) return {p.x, p.y};
  double x = 0, y = 0;
  auto pts = s->getPoints();
  for (auto & q : pts) { P w = ref::apply({p.x, p.y, p.theta}, {q.x, q.y}); x += w.x; y += w.y; }
  return {x / pts.size(), y / pts.size()};
}
static void judge(mc::Ctx & c, Graph & g, bool bary, const ScanPtr & q, double dist, int limit, int how, uint64_t & h)
{
  std::vector<size_t> got = how == 0 ? g.findNearest(q, dist, limit) : how == 1 ? g.findNearest(q, dist) : g.findNearest(q);
  if (how == 1) limit = -1;
  if (how == 2) { limit = -1; dist = 10.0; }
  c.step();
  size_t n = limit > 0 ? std::min<size_t>(limit, g.scans.size()) : g.scans.size();
  P at = center(q, bary);
  std::vector<bool> in(g.scans.size(), false);
  double last = -1;
  for (size_t i : got) {
    c.check(i < g.scans.size(), "index %zu of %zu scans", i, g.scans.size());
    c.check(!in[i], "scan %zu is returned twice", i);
    in[i] = true;
    c.check(i < n, "scan %zu is returned, only the first %zu were asked for", i, n);
    P p = center(g.scans[i], bary);
    double d = std::hypot(p.x - at.x, p.y - at.y);
    c.check(d <= dist + 1e-9, "scan %zu is %g away, asked for %g", i, d, dist);
    c.check(d >= last - 1e-9, "scan %zu, %g away, comes after one at %g", i, d, last);
    last = d;
  }
  for (size_t i = 0; i < n; ++i) {
    P p = center(g.scans[i], bary);
    double d = std::hypot(p.x - at.x, p.y - at.y);
    if (d < dist - 1e-9) c.check(in[i], "scan %zu is %g away, asked for %g, but is not returned", i, d, dist);
  }
  h = mc::mix(h, got.size());
  for (size_t i : got) h = mc::mix(h, i);
}
static ScanPtr scan(size_t id, double x, double y, double th, int shape)
{
  auto s = std::make_shared<Scan>(id);
  std::vector<Point> p;
  if (shape == 1) p = {Point(2, 0), Point(4, 0)};
  if (shape == 2) p = {Point(0, 1), Point(0, 3), Point(3, 2)};
  if (shape == 3) p = {Point(-1.75, 2.25)};
  if (shape == 4) for (int i = 0; i < 40; ++i) p.push_back(Point(0.1 * i, 2 - 0.15 * i));
  s->setPoints(p);
  s->setPose(Pose2d(x, y, th));
  return s;
}
static void small(mc::Ctx & c)
{
  bool bary = c.flip("barycenter");
  Graph g(bary);
  static const double xy[][2] = {{0, 0}, {0.3, 0}, {-2, 0.5}, {1.5, -3}, {40, 9}};
  static const double th[] = {0, M_PI / 2, 2.5};
  int n = c.choose(4, "scans");
  for (int i = 0; i < n; ++i) {
    int k = c.choose(5, "place"), sh = c.choose(3, "shape");
    g.scans.push_back(scan(i, xy[k][0], xy[k][1], th[(k + i) % 3], sh));
  }
  int k = c.choose(3, "query");
  auto q = scan(77, xy[k][0] + 0.21, xy[k][1] - 0.13, th[k], c.choose(5, "query shape"));
  uint64_t h = bary;
  for (double d : {0.2, 0.45, 2.6, 4.0, 9.0, 60.0})
    for (int lim = -1; lim <= n; ++lim) judge(c, g, bary, q, d, lim, 0, h);
  judge(c, g, bary, q, 3.0, 0, 1, h);
  judge(c, g, bary, q, 0, 0, 2, h);
  // asking for a scan of the map itself
  for (int i = 0; i < n; ++i) for (int lim : {-1, i, i + 1}) judge(c, g, bary, g.scans[i], 2.6, lim, 0, h);
  // the search follows scans that have moved since
  if (n > 0) {
    Pose2d p = g.scans[0]->getPose();
    g.scans[0]->setPose(Pose2d(p.x + 5.5, p.y - 4.5, p.theta + 1));
    judge(c, g, bary, q, 4.0, -1, 0, h);
    g.scans[n - 1]->setPoints({Point(1, 1)});
    judge(c, g, bary, q, 4.0, -1, 0, h);
  }
  c.state(h);
  c.observe(h);
}
// enough scans for the search tree to branch
static void larger(mc::Ctx & c)
{
  bool bary = c.flip("barycenter");
  int k = c.choose(c.thorough ? 43 : 25, "scans"), most = c.thorough ? 40 : 22, n = k < most ? 4 + k : std::vector<int>{64, 200, 700}[k - most], lay = c.choose(4, "layout");
  Graph g(bary);
  for (int i = 0; i < n; ++i) {
    double x, y;
    if (lay == 0) { x = (i % 5) * 1.01; y = (i / 5) * 0.97; }
    else if (lay == 1) { x = 0.31 * i; y = 0; }
    else if (lay == 2) { x = 2; y = -3; }
    else { x = 3 * std::cos(i * 0.5); y = 3 * std::sin(i * 0.5); }
    g.scans.push_back(scan(i, x, y, 0.4 * i, (i * i) % 5));
  }
  uint64_t h = mc::mix(n, lay);
  int qi = c.choose(3, "query");
  static const double qs[][2] = {{1.9, 1.4}, {2.01, -2.98}, {-6, 3}};
  auto q = scan(500, qs[qi][0], qs[qi][1], 0.7, c.choose(5, "query shape"));
  for (double d : {0.3, 1.2, 2.4, 5.5, 20.0})
    for (int lim : {-1, 0, 1, 3, n / 2, n - 1, n}) judge(c, g, bary, q, d, lim, 0, h);
  judge(c, g, bary, q, 0, 0, 2, h);
  c.state(h);
  c.observe(h);
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C16", {
    {"small", "2 modes x 0..3 scans at 5 places x 3 shapes x 3 queries of 5 shapes x 6 distances x every limit; scans moved and searched again", 3, small},
    {"larger", "2 modes x 4..25 (43) and 64, 200, 700 scans x 4 layouts x 3 queries of 5 shapes x 5 distances x 7 limits", 2, larger},
  });
}
