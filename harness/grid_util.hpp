#ifndef GRID_UTIL_HPP
#define GRID_UTIL_HPP
#include "mc.hpp"
#include "ref.hpp"
#include <map>
#include <nav_msgs/msg/occupancy_grid.hpp>
#include <ndt_2d/occupancy_grid.hpp>
// A rendered map as absolute cell -> value (unknown cells left out)
typedef std::pair<long, long> CellId;
typedef std::map<CellId, int> Cells;
inline long cell_of(double v, double res) { return static_cast<long>(std::floor(v / res)); }
inline Cells decode(mc::Ctx & c, const nav_msgs::msg::OccupancyGrid & g, double res)
{
  Cells out;
  c.near(g.info.resolution, res, 1e-6, "map resolution");
  c.check(g.data.size() == static_cast<size_t>(g.info.width) * g.info.height, "map has %zu cells, %u x %u announced",
    g.data.size(), g.info.width, g.info.height);
  double bx = g.info.origin.position.x / res, by = g.info.origin.position.y / res;
  long ox = std::lround(bx), oy = std::lround(by);
  c.check(std::fabs(bx - ox) < 1e-3 && std::fabs(by - oy) < 1e-3, "map origin is not on the cell lattice");
  c.near(g.info.origin.orientation.w, 1, 1e-12, "map orientation");
  for (size_t i = 0; i < g.data.size(); ++i) {
    int v = g.data[i];
    c.check(v == -1 || v == 0 || v == 100, "map value %d", v);
    if (v != -1) out[{ox + static_cast<long>(i % g.info.width), oy + static_cast<long>(i / g.info.width)}] = v;
  }
  return out;
}
inline void covers(mc::Ctx & c, const nav_msgs::msg::OccupancyGrid & g, double res, double x, double y, const char * what)
{
  double x0 = g.info.origin.position.x, y0 = g.info.origin.position.y;
  c.check(x >= x0 && y >= y0 && x < x0 + g.info.width * res && y < y0 + g.info.height * res,
    "%s (%g, %g) is outside of the map [%g %g] + %u x %u cells", what, x, y, x0, y0, g.info.width, g.info.height);
}
inline ndt_2d::ScanPtr make_scan(size_t id, double x, double y, double th, const std::vector<ref::P> & world)
{
  auto s = std::make_shared<ndt_2d::Scan>(id);
  s->setPose(ndt_2d::Pose2d(x, y, th));
  std::vector<ndt_2d::Point> pts;
  ref::Pose inv = ref::inverse({x, y, th});
  for (auto & w : world) { ref::P l = ref::apply(inv, w); pts.push_back(ndt_2d::Point(l.x, l.y)); }
  s->setPoints(pts);
  return s;
}
#endif
