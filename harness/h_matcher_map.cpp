// C12: what a matcher knows is exactly the last set of scans it was given.
#include "match_util.hpp"
using namespace ndt_2d;
using ref::P;

struct Kit
{
  std::vector<ScanPtr> scans;
  std::vector<std::vector<P>> own;       // places only this scan saw, in the world
};
// Scans in all quadrants; each sees blobs of its own, one at the end of the sensor's range
static Kit kit(double range)
{
  Kit k;
  static const ref::Pose poses[] = {{-9.30317, -7.20731, 0.4}, {-12.10111, -15.40909, 2.8}, {6.20653, 3.90413, -1.3}, {-4.40229, 8.80443, 1.1}, {0.07871, -0.30587, -2.6}};
  for (int i = 0; i < 5; ++i) {
    std::vector<P> w;
    blob(w, poses[i].x + 0.8313, poses[i].y - 0.4127, 0.2, 6);
    blob(w, poses[i].x - range + 0.1637, poses[i].y + 0.1223, 0.2, 6);
    blob(w, poses[i].x + 0.1223, poses[i].y + range - 0.1637, 0.2, 6);
    blob(w, poses[i].x - 0.1437, poses[i].y - range + 0.1437, 0.2, 6);
    blob(w, poses[i].x + range - 0.1437, poses[i].y - 0.1437, 0.2, 6);
    k.scans.push_back(scan_at(i, poses[i], w));
    k.own.push_back(w);
  }
  return k;
}

static void body(mc::Ctx & c, int depth)
{
  Params p;
  p.range = 3.0;
  auto m = make_matcher(p);
  Kit k = kit(p.range);
  int from = 0, to = 0;      // the scans the matcher should know
  std::vector<ScanPtr> kept = k.scans;
  static const int ranges[][2] = {{0, 5}, {0, 2}, {1, 2}, {2, 5}, {3, 3}, {4, 5}};
  for (int step = 0; step < depth; ++step) {
    int op = c.choose(10, "op");
    c.step();
    if (op < 6) {
      from = ranges[op][0];
      to = ranges[op][1];
      m->addScans(k.scans.begin() + from, k.scans.begin() + to);
      c.log("addScans [%d, %d)", from, to);
    } else if (op == 6) {
      m->reset();
      from = to = 0;
      c.log("reset");
    } else if (op == 7) {
      std::vector<ScanPtr> none;
      m->addScans(none.begin(), none.end());
      from = to = 0;
      c.log("addScans of an empty vector");
    } else if (op == 8) {
      Pose2d q;
      Eigen::Matrix3d cov;
      m->matchScan(k.scans[2], q, cov);
      c.log("matchScan");
    } else {
      m->scoreScan(k.scans[0]);
      c.log("scoreScan");
    }
    auto fresh = make_matcher(p);
    if (to > from) fresh->addScans(k.scans.begin() + from, k.scans.begin() + to);
    uint64_t h = mc::mix(from, to);
    for (int i = 0; i < 5; ++i) {
      auto pts = k.scans[i]->getPoints();
      double a = m->scoreScan(k.scans[i]), b = fresh->scoreScan(k.scans[i]);
      c.check(std::isfinite(a) && std::fabs(a - b) < 1e-9, "scan %d scores %.9g, with a matcher made from the same scans %.9g", i, a, b);
      c.near(m->scorePoints(pts, k.scans[i]->getPose()), a, 1e-9, "scorePoints at the pose of the scan");
      // every place a known scan saw is known, no place only others saw is
      for (int q = 0; q < 5; ++q) {
        double best = 0;
        for (int j = 36 * q; j < 36 * (q + 1); ++j)
          best = std::min(best, m->scorePoints({Point(k.own[i][j].x, k.own[i][j].y)}, Pose2d(0, 0, 0)));
        bool known = i >= from && i < to;
        if (known) c.check(best < -0.2, "scan %d was added, but the place %d it saw scores %g", i, q, best);
        else c.check(best > -1e-3, "scan %d is not in the map, but the place %d only it saw scores %g", i, q, best);
        h = mc::mix(h, mc::hd(best));
      }
      Pose2d x, y;
      Eigen::Matrix3d cx, cy;
      double sx = m->matchScan(k.scans[i], x, cx), sy = fresh->matchScan(k.scans[i], y, cy);
      c.check(std::fabs(sx - sy) < 1e-9 && std::fabs(x.x - y.x) < 1e-9 && std::fabs(x.y - y.y) < 1e-9 && std::fabs(x.theta - y.theta) < 1e-9 &&
        (cx - cy).norm() < 1e-9, "matching scan %d gives another result than with a matcher made from the same scans", i);
    }
    c.state(h);
    c.observe(h);
  }
  for (int i = 0; i < 5; ++i) c.check(k.scans[i]->getId() == static_cast<size_t>(i) && k.scans[i]->getPoints().size() == 180, "scan %d was changed", i);
}

// the pose given to scorePoints, not the pose of the scan, decides; and transforms are exact
static void poses(mc::Ctx & c)
{
  Params p;
  p.range = 3.0;
  p.beams = 1000;
  auto m = make_matcher(p);
  Kit k = kit(p.range);
  static const int ranges[][2] = {{0, 5}, {1, 2}, {2, 5}};
  int r = c.choose(3);
  m->addScans(k.scans.begin() + ranges[r][0], k.scans.begin() + ranges[r][1]);
  int i = c.choose(5, "scan");
  static const double a[] = {0, 0.7, -2.4, 3.1}, xy[] = {0, -3.25, 11.5};
  ref::Pose t{xy[c.choose(3)], xy[c.choose(3)], a[c.choose(4)]};
  Pose2d at = k.scans[i]->getPose();
  double want = m->scoreScan(k.scans[i]);
  // the same places, expressed from another pose
  ref::Pose inv = ref::inverse(t);
  std::vector<Point> pts;
  double sum = 0;
  for (auto & q : k.own[i]) {
    ref::P l = ref::apply(inv, q);
    pts.push_back(Point(l.x, l.y));
    sum += m->scorePoints({Point(q.x, q.y)}, Pose2d(0, 0, 0));
  }
  for (size_t j = 0; j < pts.size(); ++j) {
    double u = m->scorePoints({pts[j]}, Pose2d(t.x, t.y, t.th)), v = m->scorePoints({Point(k.own[i][j].x, k.own[i][j].y)}, Pose2d(0, 0, 0));
    if (std::fabs(u - v) > 1e-6) c.log("point %zu (%.9f %.9f): %g from there, %g", j, k.own[i][j].x, k.own[i][j].y, u, v);
  }
  double got = m->scorePoints(pts, Pose2d(t.x, t.y, t.th));
  c.step(2);
  c.near(got, want, 1e-6, "score of the same places seen from another pose");
  c.near(got, sum / k.own[i].size(), 1e-6, "score is the mean over the points");
  auto s = scan_of(7, t, {});
  s->setPoints(pts);
  c.near(m->scoreScan(s), want, 1e-6, "score of a scan at its pose");
  (void)at;
  uint64_t h = mc::hd(got);
  c.state(h);
  c.observe(mc::mix(h, ref::hpose(t.x, t.y, t.th)));
}
// many scans, scans far apart, scans taken from one place
static void many(mc::Ctx & c)
{
  static const size_t ns[] = {2, 3, 11, 60, 130, 400};
  size_t n = ns[c.choose(6, "scans")];
  int layout = c.choose(6, "layout"), again = c.choose(3, "given before"), res = c.choose(2, "cells");
  Params p;
  p.range = 3.0;
  p.ndt = res ? 1.0 : 0.25;
  auto m = make_matcher(p);
  std::vector<ScanPtr> scans;
  std::vector<P> own;
  std::vector<std::vector<P>> seen;
  for (size_t i = 0; i < n; ++i) {
    ref::Pose at{-7.3, 4.1, 0.3};
    double t = n > 1 ? i * 1.0 / (n - 1) : 0, far = n > 100 ? 900 : 350;
    double a = 6.28 * i / n, r = 0.9 + (i % 3) * 0.9;
    if (layout == 0) at = {-7.3 + 0.9 * i, 4.1, 0.01 * i};             // a walk
    if (layout == 1) at = {far * t - 20.3, 2.2, 3 - 0.02 * i};         // far apart
    if (layout == 2) at = {5.4, -far * t + 11.7, 0.4};
    if (layout == 4) at.th = 0.7 * i;                                  // one place, another heading each (3: the same one)
    if (layout == 5) at = {110.3 * t, -120.7 * t, 1.2};                // across
    P w{at.x + r * std::cos(a), at.y + r * std::sin(a)};
    std::vector<P> pts;
    blob(pts, w.x, w.y, 0.2, 6);
    seen.push_back(pts);
    scans.push_back(scan_at(i, at, pts));
    own.push_back(w);
  }
  if (again == 1) m->addScans(scans.begin(), scans.begin() + n / 2);
  if (again == 2) { m->addScans(scans.begin() + n / 2, scans.end()); m->reset(); }
  m->addScans(scans.begin(), scans.end());
  c.step(n);
  uint64_t h = mc::mix(n, layout);
  size_t unknown = 0;
  for (size_t i = 0; i < n; ++i) {
    // wherever the borders of cells are: some of the places it saw share a cell with enough others
    double best = 0;
    for (auto & q : seen[i]) best = std::min(best, m->scorePoints({Point(q.x, q.y)}, Pose2d(0, 0, 0)));
    c.check(std::isfinite(best) && best >= -1 - 1e-9, "scan %zu of %zu scores %g", i, n, best);
    c.check(best < -0.1, "scan %zu of %zu was added, but the place it saw scores %g", i, n, best);
    h = mc::mix(h, mc::hd(best));
    // places nobody saw anything near of
    for (auto & d : {P{0, 2.9 * p.ndt}, P{-3.3 * p.ndt, 0.4}, P{1.7, -4.1}}) {
      P q{own[i].x + d.x, own[i].y + d.y};
      double near = 1e9;
      for (auto & o : own) near = std::min(near, std::max(std::fabs(o.x - q.x), std::fabs(o.y - q.y)));
      if (near < p.ndt + 0.15) continue;
      ++unknown;
      double got = m->scorePoints({Point(q.x, q.y)}, Pose2d(0, 0, 0));
      c.check(std::fabs(got) < 1e-9, "nobody saw the place (%g %g) near that of scan %zu, it scores %g", q.x, q.y, i, got);
    }
  }
  c.log("%zu scans, %zu places nobody saw", n, unknown);
  c.state(h);
  c.observe(h);
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C12", {
    {"many", "2 to 400 scans x {walk, far apart along either axis or across, all from one place with one or several headings} x 2 cell sizes x 3 histories", 2, many},
    {"histories", "all histories of 3 (4 thorough) operations from {addScans of 6 ranges, reset, addScans of nothing, match, score}; after each, 5 scans in all quadrants compared "
      "with a fresh matcher, and 25 places with the scans that saw them", 1, [](mc::Ctx & c) { body(c, c.thorough ? 4 : 3); }},
    {"poses", "3 maps x 5 scans x 36 poses", 1, poses},
  });
}
