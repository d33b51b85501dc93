// C03: a scan's pose, points and barycenter always agree, whatever was set in whatever order.
#include "mc.hpp"
#include <ndt_2d/scan.hpp>
using namespace ndt_2d;

static void body(mc::Ctx & c, int depth, const std::vector<Pose2d> & poses, const std::vector<std::vector<Point>> & sets)
{
  static const size_t ids[3] = {0, 7, (1ull << 40) + 3};
  size_t id = ids[c.choose(2)];
  Scan s(id);
  Pose2d pose;                 // reference model: last value set
  std::vector<Point> pts;
  auto ref_bary = [&](double & x, double & y) {
      long double cx = 0, cy = 0;
      for (auto & p : pts) { cx += p.x; cy += p.y; }
      if (!pts.empty()) { cx /= pts.size(); cy /= pts.size(); }
      x = pose.x + cosl(pose.theta) * cx - sinl(pose.theta) * cy;
      y = pose.y + sinl(pose.theta) * cx + cosl(pose.theta) * cy;
    };
  auto verify = [&](bool bary) {
      Pose2d p = s.getPose();
      c.check(p.x == pose.x && p.y == pose.y && p.theta == pose.theta,
        "getPose (%g %g %g) is not the last pose set (%g %g %g)", p.x, p.y, p.theta, pose.x, pose.y, pose.theta);
      auto v = s.getPoints();
      c.check(v.size() == pts.size(), "getPoints: %zu points, %zu were set", v.size(), pts.size());
      for (size_t i = 0; i < v.size(); ++i)
        c.check(v[i].x == pts[i].x && v[i].y == pts[i].y, "point %zu differs from the one set", i);
      c.check(s.getId() == id, "id changed");
      if (!bary) return;
      double x, y;
      ref_bary(x, y);
      Pose2d b = s.getBarycenterPose();
      c.near(b.x, x, 1e-9, "barycenter x");
      c.near(b.y, y, 1e-9, "barycenter y");
      c.near(std::remainder(b.theta - pose.theta, 2 * M_PI), 0, 1e-9, "barycenter heading");
      uint64_t h = mc::mix(mc::hd(b.x), mc::mix(mc::hd(b.y), mc::hd(b.theta)));
      c.state(mc::mix(h, pts.size()));
      c.observe(h);
    };
  for (int i = 0; i < depth; ++i) {
    size_t n = poses.size() + sets.size() + 4;
    size_t op = c.choose(n, "op");
    c.step();
    if (op < poses.size()) {
      pose = poses[op];
      s.setPose(pose);
      c.log("setPose(%g,%g,%g)", pose.x, pose.y, pose.theta);
    } else if (op < poses.size() + sets.size()) {
      pts = sets[op - poses.size()];
      s.setPoints(pts);
      c.log("setPoints(%zu points)", pts.size());
    } else if (op == n - 4 || op == n - 3) {
      // a small correction, and one too small to notice
      double k = op == n - 4 ? 1 : 1e-4;
      pose = Pose2d(pose.x + k * 1e-3, pose.y - k * 5e-4, pose.theta + k * 4e-4);
      s.setPose(pose);
      c.log("setPose, moved by %g", k * 1e-3);
    } else if (op == n - 2) {
      verify(true);
      c.log("getBarycenterPose()");
    } else {
      // what a getter returned is the caller's own: editing it changes nothing
      auto v = s.getPoints();
      for (auto & p : v) p.x += 5;
      v.push_back(Point(9, 9));
      Pose2d p = s.getPose();
      p.x += 3;
      verify(false);
      c.log("edit copies");
    }
  }
  verify(false);
  verify(true);
  verify(true);
}

// long scans
static void large(mc::Ctx & c)
{
  static const size_t counts[] = {255, 256, 257, 1000, 1081, 4096, 10000, 65537, 100000};
  auto make = [&](int n, int pattern) {
      std::vector<Point> v;
      for (size_t i = 0; i < counts[n]; ++i) {
        double t = i * 1.0 / counts[n];
        if (pattern == 0) v.push_back(Point(10 * std::cos(6 * t), 10 * std::sin(5 * t)));
        else if (pattern == 1) v.push_back(Point(i % 7 == 3 ? 20.5 : -1.25, i % 5 == 1 ? -9.0 : i % 64 ? 0.5 : 30.0));
        else v.push_back(i + 40 < counts[n] ? Point(1.5, 2) : Point(-29.5, 29));   // another value at the very end
      }
      return v;
    };
  std::vector<std::vector<Point>> sets = {make(c.choose(9, "points"), c.choose(3, "pattern"))};
  sets.push_back(make(c.choose(9, "points"), c.choose(3, "pattern")));
  Scan s(3);
  Pose2d pose(1, -2, 0.7);
  s.setPose(pose);
  for (auto & pts : sets) {
    s.setPoints(pts);
    c.step();
    auto v = s.getPoints();
    c.check(v.size() == pts.size(), "getPoints: %zu points, %zu were set", v.size(), pts.size());
    long double cx = 0, cy = 0;
    for (size_t i = 0; i < v.size(); ++i) {
      c.check(v[i].x == pts[i].x && v[i].y == pts[i].y, "point %zu of %zu differs from the one set", i, pts.size());
      cx += pts[i].x; cy += pts[i].y;
    }
    cx /= pts.size(); cy /= pts.size();
    Pose2d b = s.getBarycenterPose();
    c.near(b.x, pose.x + cosl(pose.theta) * cx - sinl(pose.theta) * cy, 1e-9, "barycenter x");
    c.near(b.y, pose.y + sinl(pose.theta) * cx + cosl(pose.theta) * cy, 1e-9, "barycenter y");
    uint64_t h = mc::mix(mc::hd(b.x), mc::mix(mc::hd(b.y), pts.size()));
    c.state(h);
    c.observe(h);
    pose.x += 4; pose.theta -= 2;
    s.setPose(pose);
  }
}

int main(int argc, char ** argv)
{
  std::vector<Pose2d> poses = {{0, 0, 0}, {1, -2, M_PI / 2}, {-30.25, 4, 3.0}, {1, -2, -2.5}, {1, -2, 2.5}, {1, 5, 2.5}};
  std::vector<std::vector<Point>> sets = {{}, {{1, 0}}, {{1, 0}, {0, 2}, {-3, 0.5}}, {{1, 0}, {0, 2}, {-3, 0.5001}}, {{100, -100}, {0.01, 0.02}}, {{1, 0}, {0, -7}, {-3, 4.5}}};
  return mc::run(argc, argv, "C03", {
    {"op_sequences", "all sequences of 4 operations from {6 poses, 2 small moves, 6 point sets, read barycenter, edit copies}, 2 ids", 2,
      [&](mc::Ctx & c) { body(c, c.thorough ? 6 : 4, poses, sets); }},
    {"large", "9 sizes of scan (255 to 100000 points) x 3 patterns, twice in a row", 2, large},
  });
}
