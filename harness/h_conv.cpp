// C25: message <-> planar pose conversions.
#include "mc.hpp"
#include "ref.hpp"
#include <ndt_2d/conversions.hpp>
#include "pf_util.hpp"
using namespace ndt_2d;
static void from(mc::Ctx & c)
{
  int n = c.thorough ? 48 : 24;
  double yaw = (c.choose(n, "yaw") - n / 2) * 2 * M_PI / n + 0.001 * c.choose(2), tilt = c.pick(std::vector<double>{0, 0.01, -0.3, 0.9}, "tilt");
  int axis = c.choose(5, "axis"), how = c.choose(4, "message"), neg = c.choose(2, "sign");
  double x = c.pick(std::vector<double>{0, -3.25, 1e6}, "x"), y = 7.5 - x / 3, z = 42;
  // yaw then pitch then roll
  double r = axis == 0 || axis == 3 ? tilt : axis == 2 || axis == 4 ? M_PI * (tilt != 0) : 0, p = axis == 1 ? tilt : axis == 3 ? -0.75 * tilt : axis == 4 ? tilt : 0;
  double cy = std::cos(yaw / 2), sy = std::sin(yaw / 2), cp = std::cos(p / 2), sp = std::sin(p / 2), cr = std::cos(r / 2), sr = std::sin(r / 2);
  if (r == M_PI) { cr = 0; sr = 1; }      // exactly
  geometry_msgs::msg::Quaternion q;
  q.w = cr * cp * cy + sr * sp * sy; q.x = sr * cp * cy - cr * sp * sy; q.y = cr * sp * cy + sr * cp * sy; q.z = cr * cp * sy - sr * sp * cy;
  if (neg) { q.w = -q.w; q.x = -q.x; q.y = -q.y; q.z = -q.z; }
  Pose2d got;
  c.step();
  if (how < 2) {
    geometry_msgs::msg::PoseStamped m;
    m.pose.position.x = x; m.pose.position.y = y; m.pose.position.z = z; m.pose.orientation = q;
    got = how ? fromMsg(m) : fromMsg(m.pose);
  } else {
    geometry_msgs::msg::TransformStamped m;
    m.transform.translation.x = x; m.transform.translation.y = y; m.transform.translation.z = z; m.transform.rotation = q;
    got = how == 2 ? fromMsg(m) : fromMsg(m.transform);
  }
  c.check(got.x == x && got.y == y, "position (%g %g) became (%g %g)", x, y, got.x, got.y);
  c.check(ref::same_angle(got.theta, yaw, 1e-9), "yaw %.12g became %.12g (roll %g pitch %g)", yaw, got.theta, r, p);
  c.state(ref::hpose(got.x, got.y, got.theta));
  c.observe(ref::hpose(got.x, got.y, got.theta));
}
static void to(mc::Ctx & c)
{
  int n = c.thorough ? 64 : 32;
  double th = (c.choose(n, "theta") - n / 2) * 4 * M_PI / n, x = c.pick(std::vector<double>{0, -3.25, 1e3}), y = c.pick(std::vector<double>{0, 2.5, -77});
  Eigen::Isometry3d t = toEigen(Pose2d(x, y, th));
  for (int i = 0; i < 5; ++i) {
    ref::P p{1.5 * i - 2, 0.7 * i * i - 1}, w = ref::apply({x, y, th}, p);
    Eigen::Vector3d got = t * Eigen::Vector3d(p.x, p.y, 1.0);
    c.step();
    c.check(std::fabs(got(0) - w.x) < 1e-6 && std::fabs(got(1) - w.y) < 1e-6 && std::fabs(got(2) - 1.0) < 1e-9, "(%g %g) is taken to (%g %g %g), expected (%g %g 1)", p.x, p.y, got(0), got(1), got(2), w.x, w.y);
    Eigen::Vector3d back = t.inverse() * got;
    c.check(std::fabs(back(0) - p.x) < 1e-6 && std::fabs(back(1) - p.y) < 1e-6, "the inverse does not lead back");
  }
  c.state(ref::hpose(x, y, th));
  c.observe(ref::hpose(x, y, th));
}
// the particle cloud message shows each particle's planar pose as a unit quaternion
static std::vector<double> g_v;
static size_t g_i;
static double seq(double, double) { return g_v[g_i++ % g_v.size()]; }
static void cloud(mc::Ctx & c)
{
  int n = 1 + c.choose(3, "particles");
  g_v.clear();
  g_i = 0;
  for (int i = 0; i < n; ++i) { g_v.push_back(1.5 * i - 2); g_v.push_back(0.25 - i); g_v.push_back((c.choose(17, "heading") - 8) * M_PI / 8 * 0.999); }
  verif::normal_hook = seq;
  MotionModelPtr mm = std::make_shared<MotionModel>(0.0, 0.0, 0.0, 0.0, 0.0);
  ParticleFilter f(n, n, mm);
  f.init(0, 0, 0, 1, 1, 1);
  verif::normal_hook = nullptr;
  geometry_msgs::msg::PoseArray m;
  f.getMsg(m);
  c.step();
  c.check(m.poses.size() == static_cast<size_t>(n), "%zu poses for %d particles", m.poses.size(), n);
  uint64_t h = n;
  for (int i = 0; i < n; ++i) {
    auto & p = m.poses[i];
    auto & q = p.orientation;
    c.near(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, 1, 1e-9, "norm of the quaternion");
    Pose2d b = fromMsg(p);
    c.check(std::fabs(b.x - (float)g_v[3 * i]) < 1e-6 && std::fabs(b.y - (float)g_v[3 * i + 1]) < 1e-6 && ref::same_angle(b.theta, g_v[3 * i + 2], 1e-5),
      "particle (%g %g %g) is shown at (%g %g %g)", g_v[3 * i], g_v[3 * i + 1], g_v[3 * i + 2], b.x, b.y, b.theta);
    h = mc::mix(h, ref::hpose(b.x, b.y, b.theta));
  }
  c.state(h);
  c.observe(h);
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C25", {
    {"from_message", "24 (48) yaws, two offsets x 4 tilts x {roll, pitch, upside down, both, upside down and pitched} x 4 message types x both signs x 3 places", 2, from},
    {"to_transform", "32 (64) headings over two turns x 9 places x 5 points, and back", 1, to},
    {"cloud", "1..3 particles x 17 headings each", 2, cloud},
  });
}
