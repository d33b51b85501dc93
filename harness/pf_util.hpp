#ifndef PF_UTIL_HPP
#define PF_UTIL_HPP
#include "mc.hpp"
#include "ref.hpp"
#include <verif_world.hpp>
#include <ndt_2d/particle_filter.hpp>
// A scan matcher whose answers the harness writes down beforehand, by place
struct TableMatcher : public ndt_2d::ScanMatcher
{
  std::function<double(const ndt_2d::Pose2d &)> f;
  mutable size_t calls = 0;
  mutable std::vector<size_t> sizes;
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator &, const std::vector<ndt_2d::ScanPtr>::const_iterator &) override {}
  double matchScan(const ndt_2d::ScanPtr &, ndt_2d::Pose2d &, Eigen::Matrix3d &) const override { return 0; }
  double scoreScan(const ndt_2d::ScanPtr & s) const override { return scorePoints(s->getPoints(), s->getPose()); }
  double scorePoints(const std::vector<ndt_2d::Point> & p, const ndt_2d::Pose2d & pose) const override
  {
    ++calls;
    sizes.push_back(p.size());
    return f(pose);
  }
  void reset() override {}
};
inline std::vector<Eigen::Vector3d> particles(ndt_2d::ParticleFilter & f)
{
  geometry_msgs::msg::PoseArray m;
  f.getMsg(m);
  std::vector<Eigen::Vector3d> v;
  for (auto & p : m.poses) v.push_back(Eigen::Vector3d(p.position.x, p.position.y, 2 * std::atan2(p.orientation.z, p.orientation.w)));
  return v;
}
#endif
