// C11: a scan match returns the best candidate of the search window, its score and a usable covariance.
#include "match_util.hpp"
#include <Eigen/Eigenvalues>
using namespace ndt_2d;
using ref::P;

static std::vector<double> steps(double size, double res, bool closed)
{
  std::vector<double> v;
  for (int i = 0; -size + i * res < size - 1e-9 || (closed && -size + i * res < size + 1e-9); ++i) v.push_back(-size + i * res);
  return v;
}

struct Ref
{
  double best = 0, total = 0;
  Eigen::Matrix3d cov = Eigen::Matrix3d::Zero();
};
static Ref enumerate(const ScanMatcherPtr & m, const ScanPtr & scan, const Params & p, bool closed, uint64_t & n)
{
  Ref r;
  Eigen::Matrix3d k = Eigen::Matrix3d::Zero();
  Eigen::Vector3d u = Eigen::Vector3d::Zero();
  Pose2d at = scan->getPose();
  auto pts = scan->getPoints();
  double s = 0;
  auto lin = steps(p.ls, p.lr, closed), ang = steps(p.as, p.ar, closed);
  for (double dt : ang) for (double dx : lin) for (double dy : lin) {
    double sc = m->scorePoints(pts, Pose2d(at.x + dx, at.y + dy, at.theta + dt));
    ++n;
    if (sc < r.best) r.best = sc;
    Eigen::Vector3d x(dx, dy, dt);
    k += sc * x * x.transpose();
    u += sc * x;
    s += sc;
  }
  r.total = s;
  if (s < 0) r.cov = k / s - (u / s) * (u / s).transpose();
  return r;
}

static void usable(mc::Ctx & c, double score, const Pose2d & pose, const Eigen::Matrix3d & cov, const Params & p)
{
  c.check(std::isfinite(score) && score <= 1e-12 && score >= -1 - 1e-9, "score %g is not within [-1, 0]", score);
  c.check(std::isfinite(pose.x) && std::isfinite(pose.y) && std::isfinite(pose.theta), "correction (%g, %g, %g)", pose.x, pose.y, pose.theta);
  c.check(std::fabs(pose.x) <= p.ls + 1e-9 && std::fabs(pose.y) <= p.ls + 1e-9 && std::fabs(pose.theta) <= p.as + 1e-9,
    "correction (%g, %g, %g) is outside of the search window", pose.x, pose.y, pose.theta);
  c.check(cov.allFinite(), "covariance is not finite");
  c.check((cov - cov.transpose()).norm() < 1e-9, "covariance is not symmetric");
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(cov);
  c.check(es.eigenvalues()(0) > 0, "covariance has the eigenvalue %g", es.eigenvalues()(0));
  Eigen::Matrix3d inf = cov.inverse();
  c.check(inf.allFinite() && inf(0, 0) > 0 && inf(1, 1) > 0 && inf(2, 2) > 0, "covariance cannot be turned into an information matrix");
}

static void judge(mc::Ctx & c, const ScanMatcherPtr & m, const ScanPtr & scan, const Params & p, uint64_t & h)
{
  Pose2d before = scan->getPose();
  size_t npts = scan->getPoints().size();
  Pose2d pose(77, 78, 79);
  Eigen::Matrix3d cov = Eigen::Matrix3d::Constant(-5);
  double at_zero = m->scoreScan(scan);
  double score = m->matchScan(scan, pose, cov);
  c.step();
  usable(c, score, pose, cov, p);
  Pose2d after = scan->getPose();
  c.check(after.x == before.x && after.y == before.y && after.theta == before.theta && scan->getPoints().size() == npts, "matching changed the scan");
  c.near(m->scoreScan(scan), at_zero, 1e-12, "score of the scan after matching it");
  uint64_t n = 0;
  Ref half = enumerate(m, scan, p, false, n), full = enumerate(m, scan, p, true, n);
  c.log("score %.6f correction (%g %g %g), at zero %.6f, best of window %.6f", score, pose.x, pose.y, pose.theta, at_zero, half.best);
  c.check(score <= half.best + 1e-6, "score %.9g, a candidate of the window scores %.9g", score, half.best);
  c.check(score >= full.best - 1e-6, "score %.9g, no candidate of the window is better than %.9g", score, full.best);
  if (score < -1e-9) {
    double there = m->scorePoints(scan->getPoints(), Pose2d(before.x + pose.x, before.y + pose.y, before.theta + pose.theta));
    c.near(there, score, 1e-6, "score at the returned correction");
    c.check(score <= at_zero + 1e-6, "the correction scores %g, no correction at all %g", score, at_zero);
  } else if (score == 0) {
    c.check(std::fabs(pose.x) < 1e-12 && std::fabs(pose.y) < 1e-12 && std::fabs(pose.theta) < 1e-12,
      "nothing overlaps, yet the correction is (%g, %g, %g)", pose.x, pose.y, pose.theta);
  }
  // covariance: the score-weighted spread of the candidates, known no better than their spacing
  if (half.total < -1e-3) {
    auto like = [&](const Ref & r) {
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
          double res = i < 2 ? p.lr : p.ar, d = cov(i, j) - r.cov(i, j);
          if (i == j ? (d < -1e-7 || d > res * res) : std::fabs(d) > 1e-7) return false;
        }
        return true;
      };
    c.check(like(half) || like(full), "covariance (%g %g %g / %g %g / %g) is not the spread of the candidates (%g %g %g / %g %g / %g)",
      cov(0, 0), cov(0, 1), cov(0, 2), cov(1, 1), cov(1, 2), cov(2, 2),
      half.cov(0, 0), half.cov(0, 1), half.cov(0, 2), half.cov(1, 1), half.cov(1, 2), half.cov(2, 2));
  }
  h = mc::mix(h, mc::mix(mc::hd(score), mc::mix(ref::hpose(pose.x, pose.y, pose.theta), mc::mix(mc::hd(cov(0, 0)), mc::hd(cov(2, 2))))));
}

static std::vector<P> layout(int k)
{
  std::vector<P> v;
  if (k == 0) { wall(v, 1.03, -1, 1.03, 1.2, 40); wall(v, -1, 1.27, 1, 1.27, 40); }
  else if (k == 1) { blob(v, 0.63, 0.4, 0.2); blob(v, -0.8, 0.9, 0.17); blob(v, 0.1, -1.1, 0.2); }
  else if (k == 2) { wall(v, -2, -2.37, 2, -2.37, 60); }
  else { blob(v, 1.4, 0.03, 0.23); }
  return v;
}
static const ref::Pose bases[] = {{0.011, 0.023, 0.05}, {-7.3, -9.1, 2.9}, {5.2, -4.4, -1.7}};
static const Params params[] = {
  {0.25, 0.125, 0.0625, 0.125, 0.0625, 100, 6.0},
  {0.5, 0.25, 0.125, 0.0625, 0.0625, 100, 6.0},
  {0.25, 0.125, 0.03125, 0.125, 0.125, 9, 6.0},
  {0.25, 0.0625, 0.0625, 0.25, 0.0625, 1000, 4.0}};

static void search(mc::Ctx & c)
{
  int li = c.choose(4, "map"), bi = c.choose(3, "place"), pi = c.choose(4, "parameters");
  const Params & p = params[pi];
  ref::Pose base = bases[bi];
  std::vector<P> local = layout(li), world;
  for (auto & q : local) world.push_back(ref::apply(base, q));
  std::vector<ScanPtr> map = {scan_at(0, base, world)};
  if (c.choose(2, "scans in the map")) map.push_back(scan_at(1, ref::compose(base, {0.31, -0.2, 0.4}), world));
  auto m = make_matcher(p);
  m->addScans(map.begin(), map.end());
  // the new scan sees the same, its pose is off by a bit (within and beyond the window)
  static const double off[] = {0, 0.06, -0.11, 0.3}, offt[] = {0, -0.07, 0.12};
  double ex = off[c.choose(4, "dx")], ey = off[c.choose(c.thorough ? 4 : 3, "dy")], et = offt[c.choose(3, "dtheta")];
  auto scan = scan_of(2, {base.x + ex, base.y + ey, base.th + et}, local);
  uint64_t h = 0;
  judge(c, m, scan, p, h);
  c.state(h);
  c.observe(h);
}

static void beams(mc::Ctx & c)
{
  // which points of a long scan are used: at most laser_max_beams, spread over the whole scan
  Params p;
  p.beams = 1 + c.choose(6, "beams");
  int n = 1 + c.choose(9, "points");
  std::vector<P> world;
  blob(world, 0.4, 0.4, 0.21, 6);
  std::vector<ScanPtr> map = {scan_at(0, {0, 0, 0}, world)};
  auto m = make_matcher(p);
  m->addScans(map.begin(), map.end());
  // points with scores that tell them apart
  int rot = c.choose(3, "order");
  std::vector<Point> pts;
  std::vector<double> single;
  for (int i = 0; i < n; ++i) pts.push_back(Point(0.4 + 0.013 * ((i * (rot == 1 ? 5 : 1) + rot) % 9), 0.4 + 0.007 * ((i * 4 + rot) % 9)));
  Params one = p;
  one.beams = 1000;
  auto m1 = make_matcher(one);
  m1->addScans(map.begin(), map.end());
  for (auto & q : pts) single.push_back(m1->scorePoints({q}, Pose2d(0, 0, 0)));
  double got = m->scorePoints(pts, Pose2d(0, 0, 0));
  c.step();
  int k = std::min(n, p.beams);
  bool found = false;
  for (int mask = 1; mask < (1 << n) && !found; ++mask) {
    if (__builtin_popcount(mask) != k) continue;
    // spread: every run of consecutive unused points is shorter than two strides
    int gap = 0, worst = 0;
    for (int i = 0; i < n; ++i) { gap = (mask >> i & 1) ? 0 : gap + 1; worst = std::max(worst, gap); }
    if (worst > (n + k - 1) / k) continue;
    double s = 0;
    for (int i = 0; i < n; ++i) if (mask >> i & 1) s += single[i];
    found = std::fabs(s / k - got) < 1e-9;
  }
  c.check(found, "score %.9g of %d points with %d beams is not the mean over %d points spread over the scan", got, n, p.beams, k);
  auto scan = std::make_shared<Scan>(1);
  scan->setPoints(pts);
  uint64_t h = mc::mix(n, p.beams);
  judge(c, m, scan, p, h);
  c.state(h);
  c.observe(h);
}

static void degenerate(mc::Ctx & c)
{
  Params p = params[c.choose(4, "parameters")];
  auto m = make_matcher(p);
  int map = c.choose(6, "map"), sc = c.choose(6, "scan");
  std::vector<P> world;
  std::vector<ScanPtr> scans;
  switch (map) {
    case 1: scans = {scan_of(0, {0, 0, 0}, {})}; break;                            // a scan without points
    case 2: blob(world, 1, 1, 0.2); scans = {scan_at(0, {0, 0, 0}, world)}; break;
    case 3: for (int i = 0; i < 7; ++i) world.push_back({1.01, 1.02}); scans = {scan_at(0, {0, 0, 0}, world)}; break;   // one spot
    case 4: for (int i = 0; i < 9; ++i) world.push_back({0.9 + 0.02 * i, 1.07}); scans = {scan_at(0, {0, 0, 0}, world)}; break;   // exactly on a line
    case 5: blob(world, 1, 1, 0.004); scans = {scan_at(0, {0, 0, 0}, world)}; break;   // tiny: at most one candidate hits
  }
  if (map) m->addScans(scans.begin(), scans.end());
  if (map == 2 && c.flip("reset")) m->reset();
  std::vector<P> pts;
  ref::Pose at{0, 0, 0};
  switch (sc) {
    case 0: break;
    case 1: blob(pts, 1, 1, 0.2); break;
    case 2: pts = {{1.01, 1.02}}; break;
    case 3: blob(pts, 40, 40, 0.2); break;                                        // far off the map
    case 4: for (int i = 0; i < 9; ++i) pts.push_back({0.9 + 0.02 * i, 1.16}); break;  // beside the line: hardly any overlap
    case 5: blob(pts, 1, 1, 0.2); at = {1e7, -1e7, 0.3}; break;
  }
  auto scan = scan_of(9, at, pts);
  uint64_t h = mc::mix(map, sc);
  judge(c, m, scan, p, h);
  double s = m->scorePoints(scan->getPoints(), Pose2d(0.1, 0, 0.2));
  c.check(std::isfinite(s) && s <= 0 && s >= -1 - 1e-9, "score %g", s);
  c.state(h);
  c.observe(h);
}
// scans as long as those of real scanners
static void large(mc::Ctx & c)
{
  Params p;
  static const int ns[] = {180, 361, 720, 1081, 5000}, bs[] = {30, 100, 1000};
  int n = ns[c.choose(5, "points")];
  p.beams = bs[c.choose(3, "beams")];
  if (c.choose(2, "search")) { p.ls = 0.05; p.lr = 0.005; p.as = 0.1; p.ar = 0.0025; }   // the defaults of the node
  ref::Pose base = bases[c.choose(3, "place")];
  std::vector<P> room, world;
  wall(room, 1.03, -1, 1.03, 1.2, n / 2);
  wall(room, -1, 1.27, 1, 1.27, n - n / 2);
  for (auto & q : room) world.push_back(ref::apply(base, q));
  std::vector<ScanPtr> map = {scan_at(0, base, world)};
  auto m = make_matcher(p);
  m->addScans(map.begin(), map.end());
  // every stretch of the scan counts: the score is the mean over points spread over it
  Params one = p;
  one.beams = 100000;
  auto m1 = make_matcher(one);
  m1->addScans(map.begin(), map.end());
  auto scan = scan_of(2, {base.x + 0.06, base.y - 0.03, base.th + 0.02}, room);
  auto pts = scan->getPoints();
  Pose2d at = scan->getPose();
  size_t k = std::min(n, p.beams), stride = (n + k - 1) / k;
  // (all at one place, and one stretch moved out of the map: its share of the points used is lost)
  P well{0, 0};
  double best = 0;
  for (auto & q : pts) { double v = m1->scorePoints({q}, at); if (v < best) { best = v; well = {q.x, q.y}; } }
  if (best > -0.1) throw mc::Skip();
  std::vector<Point> same(n, Point(well.x, well.y));
  c.near(m->scorePoints(same, at), best, 1e-9, "score of a scan of which all points are at one place");
  for (int parts : {3, 8}) for (int part = 0; part < parts; ++part) {
    auto v = same;
    size_t a = part * n / parts, b = (part + 1) * n / parts;
    for (size_t i = a; i < b; ++i) v[i] = Point(500, 500);
    double used = k * (1 - m->scorePoints(v, at) / best), share = double(b - a) / stride;
    c.check(std::fabs(used - std::round(used)) < 1e-5 && used >= share / 2 - 1.001 && used <= 2 * share + 1.001,
      "%g points are used of %zu in stretch %d of a scan of %d, with %d beams", used, b - a, part, n, p.beams);
  }
  uint64_t h = mc::mix(n, p.beams);
  if (p.lr < 0.01 && n > 400) {
    // too many candidates to score them all: the result is no worse than a coarse sub-lattice
    Pose2d pose;
    Eigen::Matrix3d cov;
    double score = m->matchScan(scan, pose, cov);
    usable(c, score, pose, cov, p);
    for (int i = -4; i <= 4; ++i) for (int j = -4; j <= 4; ++j) for (int t = -4; t <= 4; ++t) {
      double sc = m->scorePoints(pts, Pose2d(at.x + 2 * i * p.lr, at.y + 2 * j * p.lr, at.theta + 8 * t * p.ar));
      c.check(score <= sc + 1e-6, "score %.9g, the candidate (%g %g %g) scores %.9g", score, 2 * i * p.lr, 2 * j * p.lr, 8 * t * p.ar, sc);
    }
    c.near(m->scorePoints(pts, Pose2d(at.x + pose.x, at.y + pose.y, at.theta + pose.theta)), score, 1e-6, "score at the returned correction");
    h = mc::mix(h, mc::mix(mc::hd(score), ref::hpose(pose.x, pose.y, pose.theta)));
    c.step();
  } else if (p.lr > 0.01) judge(c, m, scan, p, h);
  c.state(h);
  c.observe(h);
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C11", {
    {"search", "4 maps x 3 places (all quadrants) x 4 parameter sets x 1..2 map scans x 36 (48) pose errors; every candidate of the window scored", 3, search},
    {"beams", "1..6 beams x 1..9 points x 3 orders", 2, beams},
    {"large", "5 sizes of scan (180 to 5000 points) x {30, 100, 1000} beams x 2 search windows x 3 places", 2, large},
    {"degenerate", "4 parameter sets x 6 maps (none, empty, one spot, line, tiny) x 6 scans (empty, one point, far, marginal)", 2, degenerate},
  });
}
