// C24: the published graph shows every scan and every constraint, where they are now.
#include "mc.hpp"
#include "ref.hpp"
#include <set>
#include <ndt_2d/graph.hpp>
using namespace ndt_2d;
typedef visualization_msgs::msg::Marker M;
static void body(mc::Ctx & c, bool large)
{
  Graph g(c.flip("barycenter"));
  int n = large ? std::vector<int>{10, 99, 130, 300}[c.choose(4, "scans")] : c.choose(c.thorough ? 5 : 4, "scans");
  static const double xy[][2] = {{0.25, -1.5}, {3.5, 2.25}, {-7.125, 0.5}, {11, 12}, {-3, -4}};
  for (int i = 0; i < n; ++i) {
    auto s = std::make_shared<Scan>(i);
    s->setPose(large ? Pose2d(0.31 * i, 0.07 * i * (i % 5), 0.4 * i) : Pose2d(xy[i][0], xy[i][1], 0.4 * i));
    s->setPoints({Point(5, 5)});
    g.scans.push_back(s);
  }
  int m = n < 2 ? 0 : large ? std::vector<int>{0, 9, 120, 700}[c.choose(4, "constraints")] : c.choose(4, "constraints");
  for (int i = 0; i < m; ++i) {
    int k = large ? (i * 7) % (2 * n) : c.choose(2 * n, "constraint");
    auto e = std::make_shared<Constraint>();
    e->begin = k / 2;
    e->end = (k / 2 + 1 + i % (n - 1)) % n;
    e->switchable = k % 2;
    e->transform = Eigen::Vector3d::Zero();
    e->information = Eigen::Matrix3d::Identity();
    g.constraints.push_back(e);
  }
  uint64_t h = mc::mix(n, m);
  for (int round = 0; round < 2; ++round) {
    visualization_msgs::msg::MarkerArray msg;
    rclcpp::Time t(5, 7u);
    g.getMsg(msg, t);
    c.step();
    std::set<std::pair<std::string, int>> ids;
    std::vector<int> node(n, 0), edge(m, 0);
    for (auto & k : msg.markers) {
      c.check(k.header.frame_id == "map", "frame '%s'", k.header.frame_id.c_str());
      c.check(k.header.stamp.sec == 5 && k.header.stamp.nanosec == 7u, "stamp is not the time given");
      c.check(ids.insert({k.ns, k.id}).second, "marker %s %d appears twice", k.ns.c_str(), k.id);
      if (k.action != M::ADD) continue;
      if (k.type == M::LINE_STRIP || k.type == M::LINE_LIST || k.type == M::ARROW) {
        c.check(k.points.size() == 2, "an edge has %zu ends", k.points.size());
        c.check(k.color.a > 0 && k.scale.x > 0, "an edge cannot be seen");
        c.check(std::fabs(k.pose.position.x) < 1e-9 && std::fabs(k.pose.position.y) < 1e-9, "an edge is shifted by (%g %g)", k.pose.position.x, k.pose.position.y);
        bool found = false;
        for (int e = 0; e < m && !found; ++e) {
          if (edge[e]) continue;
          Pose2d a = g.scans[g.constraints[e]->begin]->getPose(), b = g.scans[g.constraints[e]->end]->getPose();
          if (std::fabs(k.points[0].x - a.x) + std::fabs(k.points[0].y - a.y) + std::fabs(k.points[1].x - b.x) + std::fabs(k.points[1].y - b.y) > 1e-9) continue;
          bool green = k.color.g > 0.5 && k.color.b < 0.5 && k.color.r < 0.5, blue = k.color.b > 0.5 && k.color.g < 0.5 && k.color.r < 0.5;
          if (g.constraints[e]->switchable ? !green : !blue) continue;
          edge[e] = 1;
          found = true;
        }
        c.check(found, "an edge from (%g %g) to (%g %g), colour %g %g %g, belongs to no constraint", k.points[0].x, k.points[0].y, k.points[1].x, k.points[1].y, k.color.r, k.color.g, k.color.b);
      } else {
        c.check(k.id >= 0 && k.id < n, "a node has the id %d", k.id);
        Pose2d p = g.scans[k.id]->getPose();
        c.check(std::fabs(k.pose.position.x - p.x) + std::fabs(k.pose.position.y - p.y) < 1e-9, "node %d is shown at (%g %g), it is at (%g %g)", k.id, k.pose.position.x, k.pose.position.y, p.x, p.y);
        c.check(k.color.r > 0.5 && k.color.a > 0 && k.scale.x > 0, "node %d cannot be seen", k.id);
        ++node[k.id];
      }
    }
    for (int i = 0; i < n; ++i) c.check(node[i] == 1, "scan %d is shown %d times", i, node[i]);
    for (int i = 0; i < m; ++i) c.check(edge[i] == 1, "constraint %d is not shown", i);
    for (auto & s : g.scans) h = mc::mix(h, ref::hpose(s->getPose().x, s->getPose().y, 0));
    for (auto & k : g.constraints) h = mc::mix(h, k->begin * 100 + k->end * 10 + k->switchable);
    for (auto & s : g.scans) { Pose2d p = s->getPose(); s->setPose(Pose2d(p.x + 1.5, p.y - 2.5, p.theta)); }
  }
  c.state(h);
  c.observe(h);
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C24", {
    {"graphs", "0..3 (4) scans x up to 3 constraints between any of them, of both kinds; shown, moved, shown again", 3, [](mc::Ctx & c) { body(c, false); }},
    {"large", "10..300 scans x 0..700 constraints", 2, [](mc::Ctx & c) { body(c, true); }},
  });
}
