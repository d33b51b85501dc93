// C15: a saved map loads as the same map.
#include "mc.hpp"
#include "ref.hpp"
#include <limits>
#include <verif_world.hpp>
#include <ndt_2d/graph.hpp>
using namespace ndt_2d;

struct SScan { size_t id; Pose2d pose; std::vector<Point> pts; };
struct SCons { size_t a, b; Eigen::Vector3d t; Eigen::Matrix3d i; bool sw; };
struct Snap { std::vector<SScan> s; std::vector<SCons> c; };
static Snap snap(const Graph & g)
{
  Snap r;
  for (auto & s : g.scans) r.s.push_back({s->getId(), s->getPose(), s->getPoints()});
  for (auto & k : g.constraints) r.c.push_back({size_t(k->begin), size_t(k->end), k->transform, k->information, k->switchable});
  return r;
}
static bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static void same(mc::Ctx & c, const Snap & a, const Snap & b, const char * what)
{
  c.check(a.s.size() == b.s.size(), "%s: %zu scans, expected %zu", what, a.s.size(), b.s.size());
  c.check(a.c.size() == b.c.size(), "%s: %zu constraints, expected %zu", what, a.c.size(), b.c.size());
  for (size_t i = 0; i < a.s.size(); ++i) {
    auto & x = a.s[i]; auto & y = b.s[i];
    c.check(x.id == y.id, "%s: scan %zu has id %zu, expected %zu", what, i, x.id, y.id);
    c.check(eq(x.pose.x, y.pose.x) && eq(x.pose.y, y.pose.y), "%s: scan %zu is at (%.17g %.17g), expected (%.17g %.17g)", what, i, x.pose.x, x.pose.y, y.pose.x, y.pose.y);
    c.check(eq(x.pose.theta, y.pose.theta) || ref::same_angle(x.pose.theta, y.pose.theta, 1e-12), "%s: scan %zu has heading %.17g, expected %.17g", what, i, x.pose.theta, y.pose.theta);
    c.check(x.pts.size() == y.pts.size(), "%s: scan %zu has %zu points, expected %zu", what, i, x.pts.size(), y.pts.size());
    for (size_t j = 0; j < x.pts.size(); ++j)
      c.check(eq(x.pts[j].x, y.pts[j].x) && eq(x.pts[j].y, y.pts[j].y), "%s: point %zu of scan %zu is (%.17g %.17g), expected (%.17g %.17g)", what, j, i, x.pts[j].x, x.pts[j].y, y.pts[j].x, y.pts[j].y);
  }
  for (size_t i = 0; i < a.c.size(); ++i) {
    auto & x = a.c[i]; auto & y = b.c[i];
    c.check(x.a == y.a && x.b == y.b, "%s: constraint %zu joins %zu, %zu, expected %zu, %zu", what, i, x.a, x.b, y.a, y.b);
    for (int j = 0; j < 3; ++j) {
      c.check(eq(x.t(j), y.t(j)), "%s: constraint %zu, transform %d is %.17g, expected %.17g", what, i, j, x.t(j), y.t(j));
      for (int k = 0; k < 3; ++k) c.check(eq(x.i(j, k), y.i(j, k)), "%s: constraint %zu, information %d %d is %.17g, expected %.17g", what, i, j, k, x.i(j, k), y.i(j, k));
    }
    c.check(x.sw == y.sw, "%s: constraint %zu has switchable %d, expected %d", what, i, x.sw, y.sw);
  }
}
static uint64_t hash(const Snap & a)
{
  uint64_t h = mc::mix(a.s.size(), a.c.size());
  for (auto & s : a.s) { h = mc::mix(h, mc::mix(s.id, ref::hpose(s.pose.x, s.pose.y, s.pose.theta))); for (auto & p : s.pts) h = mc::mix(h, mc::mix(mc::hd(p.x), mc::hd(p.y))); }
  for (auto & k : a.c) h = mc::mix(h, mc::mix(k.a * 64 + k.b * 2 + k.sw, mc::hd(k.t(0))));
  return h;
}
static ScanPtr scan(size_t id, int kind)
{
  static const double big = 12345.678901234567, tiny = 4.9e-324;
  static const Pose2d poses[] = {Pose2d(0, 0, 0), Pose2d(-1.0 / 3, 2.0 / 7, -3.1), Pose2d(1e-9, big, 3.9), Pose2d(-7.25, tiny, -12.0)};
  auto s = std::make_shared<Scan>(id);
  s->setPose(poses[kind % 4]);
  std::vector<Point> p;
  for (int i = 0; i < (kind * 2) % 7; ++i) p.push_back(Point(i / 3.0 - kind, -i * 0.1 + id));
  if (kind == 3) p = {Point(-0.0, 1e300), Point(tiny, -big)};
  s->setPoints(p);
  return s;
}
static ConstraintPtr cons(size_t a, size_t b, int kind)
{
  auto k = std::make_shared<Constraint>();
  k->begin = a; k->end = b;
  k->transform = Eigen::Vector3d(1.0 / 3 + kind, -2.0 / 7 * kind, 3.0 - 2 * kind);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) k->information(i, j) = (kind + 1) * (10 * i + j + 1) / 3.0;   // tells every entry from the others
  if (kind == 2) k->information *= 1e12;
  k->switchable = kind % 2;
  return k;
}

static void round_trip(mc::Ctx & c)
{
  verif::world_reset();
  bool bary = c.flip("barycenter");
  Graph g(bary);
  int n = c.choose(4, "scans");
  static const size_t ids[][3] = {{0, 1, 2}, {7, 3, 1000000}};    // not always numbered from zero
  int idset = n ? c.choose(2, "ids") : 0;
  for (int i = 0; i < n; ++i) g.scans.push_back(scan(ids[idset][i], c.choose(4, "scan")));
  int m = n < 1 ? 0 : c.choose(4, "constraints");
  for (int i = 0; i < m; ++i) {
    int k = c.choose(n * 3, "constraint");
    g.constraints.push_back(cons(k / 3, (k / 3 + 1 + i) % n, k % 3));
  }
  Snap before = snap(g);
  c.check(g.save("m1"), "saving failed");
  c.step();
  same(c, snap(g), before, "after saving");
  Graph l(bary, "m1");
  c.step();
  same(c, snap(l), before, "loaded");
  // and again, from the loaded one, into another file
  c.check(l.save("m2"), "saving the loaded map failed");
  Graph l2(!bary, "m2");
  c.step(2);
  same(c, snap(l2), before, "loaded twice");
  c.check(verif::world().disk["m1"].size() == verif::world().disk["m2"].size(), "the second file has another number of records");
  c.state(hash(before));
  c.observe(hash(before));
}

// several maps, changed in between: a file holds the state at the time it was saved
static void histories(mc::Ctx & c, int depth)
{
  verif::world_reset();
  std::shared_ptr<Graph> g = std::make_shared<Graph>(true);
  std::map<std::string, Snap> files;
  Snap model;
  int next = 0;
  size_t first = c.flip("first id") ? 5 : 0;
  for (int i = 0; i < depth; ++i) {
    int op = c.choose(7, "op");
    c.step();
    if (op == 0) { g->scans.push_back(scan(g->scans.size() + first, i % 4)); c.log("add scan"); }
    else if (op == 1) {
      if (g->scans.size() < 2) continue;
      g->constraints.push_back(cons(g->scans.size() - 2, g->scans.size() - 1, i % 3));
      c.log("add constraint");
    } else if (op == 2) {
      for (auto & s : g->scans) { Pose2d p = s->getPose(); s->setPose(Pose2d(p.x + 0.5, p.y - 0.25, p.theta + 0.125)); }
      c.log("move the scans");
    } else if (op == 3) {
      std::string f = "f" + std::to_string(next++);
      c.check(g->save(f), "saving failed");
      files[f] = snap(*g);
      c.log("save %s", f.c_str());
    } else if (op == 4 || op == 5) {
      if (files.empty()) continue;
      auto it = op == 4 ? files.begin() : std::prev(files.end());
      g = std::make_shared<Graph>(op == 4, it->first);
      same(c, snap(*g), it->second, "loaded");
      c.log("load %s", it->first.c_str());
    } else {
      // refuses to overwrite (or overwrites): either way the file then loads as what save reported
      if (files.empty()) continue;
      std::string f = files.begin()->first;
      bool ok = false;
      try { ok = g->save(f); } catch (const std::exception &) {}
      if (ok) files[f] = snap(*g);
      c.log("save over %s: %d", f.c_str(), ok);
    }
    uint64_t h = hash(snap(*g));
    c.state(h);
    c.observe(h);
  }
  for (auto & f : files) { Graph l(true, f.first); same(c, snap(l), f.second, f.first.c_str()); }
}
// large maps
static void large(mc::Ctx & c)
{
  verif::world_reset();
  static const int ns[] = {1, 12, 130, 300, 1100}, ps[] = {0, 1, 360, 3000, 70000};
  int n = ns[c.choose(5, "scans")], p = ps[c.choose(5, "points")];
  if (static_cast<long>(n) * p > 400000) throw mc::Skip();
  int m = c.choose(3, "constraints") * n / 2 * 3;
  Graph g(true);
  for (int i = 0; i < n; ++i) {
    auto s = std::make_shared<Scan>(i);
    s->setPose(Pose2d(i * 0.7, -i * 0.31, i * 0.1));
    std::vector<Point> v;
    for (int j = 0; j < p; ++j) v.push_back(Point(j / 3.0 + i, -j / 7.0));
    s->setPoints(v);
    g.scans.push_back(s);
  }
  for (int i = 0; i < m; ++i) g.constraints.push_back(cons(i % n, (i * 7 + 1) % n, i % 3));
  Snap before = snap(g);
  c.check(g.save("m1"), "saving failed");
  same(c, snap(g), before, "after saving");
  Graph l(true, "m1");
  c.step(2);
  same(c, snap(l), before, "loaded");
  c.log("%d scans of %d points, %d constraints", n, p, m);
  c.state(hash(before));
  c.observe(hash(before));
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C15", {
    {"round_trip", "0..3 scans x 4 kinds each x 2 numberings x up to 3 constraints of every kind, 2 modes; saved, loaded, saved and loaded again", 4, round_trip},
    {"large", "5 numbers of scans (1 to 1100) x 5 numbers of points (to 70000) x 3 numbers of constraints (to 3300)", 2, large},
    {"histories", "2 numberings x all histories of 6 (7) operations from {add scan, add constraint, move, save, load first, load last, save over}", 2,
      [](mc::Ctx & c) { histories(c, c.thorough ? 7 : 6); }},
  });
}
