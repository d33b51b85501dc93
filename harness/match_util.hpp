#ifndef MATCH_UTIL_HPP
#define MATCH_UTIL_HPP
#include "mc.hpp"
#include "ref.hpp"
#include <verif_world.hpp>
#include <ndt_2d/scan_matcher_ndt.hpp>
struct Params { double ndt = 0.25, ls = 0.125, lr = 0.0625, as = 0.125, ar = 0.0625; int beams = 100; double range = 6.0; };
inline std::shared_ptr<ndt_2d::ScanMatcher> make_matcher(const Params & p, const std::string & name = "m")
{
  auto & w = verif::world();
  w.params.clear();
  w.params[name + ".ndt_resolution"] = p.ndt;
  w.params[name + ".search_angular_resolution"] = p.ar;
  w.params[name + ".search_angular_size"] = p.as;
  w.params[name + ".search_linear_resolution"] = p.lr;
  w.params[name + ".search_linear_size"] = p.ls;
  w.params[name + ".laser_max_beams"] = static_cast<int64_t>(p.beams);
  rclcpp::Node node("n");
  std::shared_ptr<ndt_2d::ScanMatcher> m = std::make_shared<ndt_2d::ScanMatcherNDT>();
  m->initialize(name, &node, p.range);
  return m;
}
inline ndt_2d::ScanPtr scan_of(size_t id, const ref::Pose & pose, const std::vector<ref::P> & local)
{
  auto s = std::make_shared<ndt_2d::Scan>(id);
  s->setPose(ndt_2d::Pose2d(pose.x, pose.y, pose.th));
  std::vector<ndt_2d::Point> v;
  for (auto & q : local) v.push_back(ndt_2d::Point(q.x, q.y));
  s->setPoints(v);
  return s;
}
// the same places in the world, seen from a pose
inline ndt_2d::ScanPtr scan_at(size_t id, const ref::Pose & pose, const std::vector<ref::P> & world)
{
  std::vector<ref::P> l;
  ref::Pose inv = ref::inverse(pose);
  for (auto & q : world) l.push_back(ref::apply(inv, q));
  return scan_of(id, pose, l);
}
// n x n points, well spread
inline void blob(std::vector<ref::P> & v, double x, double y, double r, int n = 5)
{
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      v.push_back({x + r * ((i + 0.013 * j) / (n - 1) - 0.5), y + r * ((j + 0.021 * i) / (n - 1) - 0.5)});
}
inline void wall(std::vector<ref::P> & v, double x0, double y0, double x1, double y1, int n)
{
  for (int i = 0; i < n; ++i) {
    double t = (i + 0.37) / n, w = 0.012 * std::sin(7.3 * i);
    v.push_back({x0 + t * (x1 - x0) + w * (y1 - y0), y0 + t * (y1 - y0) - w * (x1 - x0)});
  }
}
#endif
