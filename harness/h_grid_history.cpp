// C14: the published map is a function of the current scans, whatever was rendered before.
#include "grid_util.hpp"
using namespace ndt_2d;

static ScanPtr fresh_scan(int kind, int pose, double res)
{
  static const double poses[][3] = {{0, 0, 0}, {31, 12, M_PI / 2}, {-45, -60, 3.0}, {7, 80, -1.0}};
  static const std::vector<ref::P> pts[] = {{{20, 0}, {0, 10}}, {{-33, -21}}, {}, {{90, 5}, {4, 4}, {-60, 40}}};
  auto s = std::make_shared<Scan>(kind);
  std::vector<Point> v;
  for (auto & p : pts[kind]) v.push_back(Point(p.x * res, p.y * res));
  s->setPoints(v);
  s->setPose(Pose2d((poses[pose][0] + 0.5) * res, (poses[pose][1] + 0.5) * res, poses[pose][2]));
  return s;
}

static void body(mc::Ctx & c, int depth)
{
  const double res = 0.1, thr = 0.25;
  OccupancyGrid og(res, thr);
  nav_msgs::msg::OccupancyGrid msg;       // reused, as stale content must not survive
  std::vector<ScanPtr> scans;
  for (int i = 0; i < depth; ++i) {
    int op = c.choose(8, "op");
    c.step();
    if (op < 3) {
      static const int kp[][2] = {{0, 0}, {1, 1}, {3, 2}};
      scans.push_back(fresh_scan(kp[op][0], kp[op][1], res));
      c.log("add scan kind %d at pose %d", kp[op][0], kp[op][1]);
    } else if (op == 3) {
      if (!scans.empty()) scans.pop_back();
      c.log("remove the last scan");
    } else if (op == 4) {
      for (auto & s : scans) {
        Pose2d p = s->getPose();
        s->setPose(Pose2d(p.x + 70 * res, p.y - 45 * res, p.theta + 0.9));
      }
      c.log("move all scans");
    } else if (op == 5) {
      size_t n = scans.size();
      scans.clear();
      for (size_t k = 0; k < n; ++k) scans.push_back(fresh_scan((k + 1) % 4, (k + 3) % 4, res));
      c.log("replace by another graph of the same size");
    } else if (op == 6) {
      scans.clear();
      scans.push_back(fresh_scan(2, 3, res));
      c.log("replace by one scan without points");
    } else {
      if (!scans.empty()) { Pose2d p = scans.back()->getPose(); scans.back()->setPose(Pose2d(-p.x - 200 * res, p.y + 120 * res, 0.2)); }
      c.log("move the last scan far away");
    }
    // render now or let changes accumulate
    if (i + 1 < depth && c.flip("render")) continue;
    std::vector<Pose2d> before;
    for (auto & s : scans) before.push_back(s->getPose());
    og.getMsg(scans, msg);
    Cells got = decode(c, msg, res);
    nav_msgs::msg::OccupancyGrid fmsg;
    OccupancyGrid fresh(res, thr);
    fresh.getMsg(scans, fmsg);
    Cells want = decode(c, fmsg, res);
    c.check(got == want, "the map has %zu known cells, a map made from the same scans alone has %zu (or other values)", got.size(), want.size());
    for (size_t k = 0; k < scans.size(); ++k) {
      Pose2d p = scans[k]->getPose();
      c.check(p.x == before[k].x && p.y == before[k].y && p.theta == before[k].theta, "rendering moved a scan");
      covers(c, msg, res, p.x, p.y, "the pose of a scan");
      bool many = false;
      for (auto & q : scans[k]->getPoints()) {
        ref::P w = ref::apply({p.x, p.y, p.theta}, {q.x, q.y});
        covers(c, msg, res, w.x, w.y, "a point");
        auto it = got.find({cell_of(w.x, res), cell_of(w.y, res)});
        // rotated points may lie on a cell edge; their cell or a neighbour is known
        bool known = it != got.end();
        for (int a = -1; a <= 1 && !known; ++a) for (int b = -1; b <= 1; ++b)
          known = known || got.count({cell_of(w.x, res) + a, cell_of(w.y, res) + b});
        c.check(known, "a point of the current scans is missing from the map");
        many = true;
      }
      (void)many;
    }
    uint64_t h = got.size();
    for (auto & k : got) h = mc::mix(h, mc::mix(k.first.first + 5000, mc::mix(k.first.second + 5000, k.second)));
    c.state(h);
    c.observe(h);
  }
}
// Maps of one size, one after the other: only what is in them differs
static void same_size(mc::Ctx & c)
{
  const double res = 0.1, thr = 0.25;
  OccupancyGrid og(res, thr);
  nav_msgs::msg::OccupancyGrid msg;
  int depth = c.thorough ? 4 : 3;
  uint32_t w = 0, hgt = 0;
  for (int i = 0; i < depth; ++i) {
    static const double px[] = {-12, 0, 13};
    double x = px[c.choose(3, "scanner")];
    int mask = c.choose(4, "inner points");
    double y = c.flip("upside down") ? -1 : 1, dx = c.flip("shifted") ? 40 : 0;
    std::vector<ref::P> world = {{-25, -15 * y}, {25, -15 * y}};
    if (mask & 1) world.push_back({4, 6 * y});
    if (mask & 2) { world.push_back({-9, 11 * y}); world.push_back({-9, 11 * y}); }
    for (auto & p : world) { p.x = (p.x + dx + 0.5) * res; p.y = (p.y + 0.5) * res; }
    std::vector<ScanPtr> scans = {make_scan(i, (x + dx + 0.5) * res, (20 * y + 0.5) * res, 0.0, world)};
    og.getMsg(scans, msg);
    c.step();
    c.log("scanner at (%g, %g), %zu points: %u x %u cells", x + dx, 20 * y, world.size(), msg.info.width, msg.info.height);
    nav_msgs::msg::OccupancyGrid fmsg;
    OccupancyGrid fresh(res, thr);
    fresh.getMsg(scans, fmsg);
    Cells got = decode(c, msg, res), want = decode(c, fmsg, res);
    c.check(got == want, "the map has %zu known cells, a map made from the same scan alone has %zu (or other values)", got.size(), want.size());
    if (i && (w != msg.info.width || hgt != msg.info.height)) c.state(7);
    w = msg.info.width; hgt = msg.info.height;
    uint64_t h = got.size();
    for (auto & k : got) h = mc::mix(h, mc::mix(k.first.first + 5000, mc::mix(k.first.second + 5000, k.second)));
    c.state(h);
    c.observe(h);
  }
}
// Whatever is the outermost thing seen, near to its scanner or far, the map holds it
static void extents(mc::Ctx & c)
{
  const double res = 0.25;
  static const double poses[][3] = {{0, 0, 0}, {100, 60, 0.4}, {-80, 90, 2.0}, {-110, -70, -2.4}, {60, -120, -0.9}};
  static const double reach[] = {0.4, 1.3, 3.4, 5.3, 6.4, 7.7, 11.3, 40.2};
  OccupancyGrid og(res, 0.25);
  int n = 1 + c.choose(2, "scans");
  std::vector<ScanPtr> scans;
  for (int i = 0; i < n; ++i) {
    int p = c.choose(5, "pose"), d = c.choose(8, "distance"), dirs = c.choose(6, "directions");
    std::vector<Point> v;
    for (int k = 0; k < 8; ++k) {
      if (dirs < 4 ? k % 4 != dirs : dirs == 4 ? k % 2 : false) continue;
      double a = k * M_PI / 4 - poses[p][2];
      v.push_back(Point(reach[d] * res * std::cos(a), reach[d] * res * std::sin(a)));
    }
    auto s = std::make_shared<Scan>(i);
    s->setPoints(v);
    s->setPose(Pose2d((poses[p][0] + 0.5) * res, (poses[p][1] + 0.5) * res, poses[p][2]));
    scans.push_back(s);
  }
  nav_msgs::msg::OccupancyGrid msg;
  og.getMsg(scans, msg);
  c.step();
  Cells got = decode(c, msg, res);
  for (auto & s : scans) {
    Pose2d p = s->getPose();
    covers(c, msg, res, p.x, p.y, "the pose of a scan");
    for (auto & q : s->getPoints()) {
      ref::P w = ref::apply({p.x, p.y, p.theta}, {q.x, q.y});
      covers(c, msg, res, w.x, w.y, "a point");
      bool known = false;
      for (int a = -1; a <= 1 && !known; ++a) for (int b = -1; b <= 1; ++b) known = known || got.count({cell_of(w.x, res) + a, cell_of(w.y, res) + b});
      c.check(known, "a point is missing from the map");
    }
  }
  uint64_t h = got.size();
  for (auto & k : got) h = mc::mix(h, mc::mix(k.first.first + 5000, mc::mix(k.first.second + 5000, k.second)));
  c.state(h);
  c.observe(h);
}
// maps of many cells made from many scans, after other ones
static void large(mc::Ctx & c)
{
  const double res = 0.05;
  static const double ext[] = {90, 3300, 9000};
  static const size_t ns[] = {1, 300};
  OccupancyGrid og(res, 0.25);
  nav_msgs::msg::OccupancyGrid msg;
  for (int round = 0; round < 2; ++round) {
    double e = ext[c.choose(3, "extent")];
    int shape = c.choose(4, "shape");
    size_t n = ns[c.choose(2, "scans")];
    double ex = shape == 1 ? 30 : e, ey = shape == 0 ? 30 : shape == 1 ? e : shape == 2 ? -25 : -0.1 * e;
    if (shape == 2) ex = -e;
    std::vector<ScanPtr> scans;
    for (size_t i = 0; i < n; ++i) {
      double t = n > 1 ? i * 1.0 / (n - 1) : 0.5, x = std::floor(ex * t) + 0.5, y = std::floor(ey * t) + 0.5;
      std::vector<ref::P> w = {{(x + 17) * res, (y - 9) * res}, {(x - 6) * res, (y + 13) * res}};
      if (n == 1) w = {{0.5 * res, 0.5 * res}, {(std::floor(ex) + 0.5) * res, (std::floor(ey) + 0.5) * res}};
      scans.push_back(make_scan(i, x * res, y * res, n == 1 ? 0.0 : 0.01 * i, w));
    }
    og.getMsg(scans, msg);
    c.step(n);
    nav_msgs::msg::OccupancyGrid fmsg;
    OccupancyGrid fresh(res, 0.25);
    fresh.getMsg(scans, fmsg);
    Cells got = decode(c, msg, res), want = decode(c, fmsg, res);
    c.log("%zu scans: %u x %u cells, %zu known", n, msg.info.width, msg.info.height, got.size());
    c.check(got == want, "the map has %zu known cells, a map made from the same scans alone has %zu (or other values)", got.size(), want.size());
    for (auto & s : scans) {
      Pose2d p = s->getPose();
      covers(c, msg, res, p.x, p.y, "the pose of a scan");
      for (auto & q : s->getPoints()) {
        ref::P w = ref::apply({p.x, p.y, p.theta}, {q.x, q.y});
        covers(c, msg, res, w.x, w.y, "a point");
        bool known = false;
        for (int a = -1; a <= 1 && !known; ++a) for (int b = -1; b <= 1; ++b) known = known || got.count({cell_of(w.x, res) + a, cell_of(w.y, res) + b});
        c.check(known, "a point of scan %zu is missing from the map", s->getId());
      }
    }
    uint64_t h = got.size();
    for (auto & k : got) h = mc::mix(h, mc::mix(k.first.first + 50000, mc::mix(k.first.second + 50000, k.second)));
    c.state(h);
    c.observe(h);
  }
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C14", {
    {"histories", "all histories of 4 (5 thorough) changes from {add 3 kinds of scan, remove, move all, move one far, replace graph, replace by empty scan}, "
      "with and without a render after each", 2, [](mc::Ctx & c) { body(c, c.thorough ? 5 : 4); }},
    {"large", "two maps in a row, of 3 extents (90 to 9000 cells) x 4 shapes x {1, 300} scans each", 2, large},
    {"same_size", "all sequences of 3 (4) maps of the same size from 3 scanner positions x 4 sets of inner points x {upright, upside down} x {here, shifted}", 2, same_size},
    {"extents", "1..2 scans x 5 poses in all quadrants x 8 reaches (0.4 to 40 cells) x 6 sets of directions each", 2, extents},
  });
}
