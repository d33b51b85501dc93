// C04: a constraint between two scans is their relative pose.
#include "mc.hpp"
#include "ref.hpp"
#include <Eigen/LU>
#include <ndt_2d/constraint.hpp>
using namespace ndt_2d;

static void body(mc::Ctx & c)
{
  static const double xs[] = {0, 1.5, -20.25}, ys[] = {0, -3}, ths[] = {0, 0.3, M_PI / 2, 3.1, -3.1, -M_PI / 2, 7.0};
  static const size_t ids[][2] = {{0, 1}, {5, 2}, {7, 7}, {(1ull << 33) + 1, 3}};
  int idk = c.choose(4);
  ref::Pose a{xs[c.choose(3)], ys[c.choose(2)], ths[c.choose(7)]};
  ref::Pose b{xs[c.choose(3)], ys[c.choose(2)], ths[c.choose(7)]};
  int ck = c.choose(9);
  int pk = c.choose(2);
  Eigen::Matrix3d cov;
  switch (ck) {
    case 0: cov = Eigen::Matrix3d::Identity(); break;
    case 1: cov << 0.04, 0, 0, 0, 0.01, 0, 0, 0, 0.0025; break;
    case 2: cov << 0.04, 0.01, 0.002, 0.01, 0.02, -0.003, 0.002, -0.003, 0.01; break;
    case 4: cov.setZero(); cov.diagonal() << 4e-6, 9e-6, 1e-6; break;
    case 5: cov.setZero(); cov.diagonal() << 1e-9, 1e-7, 1e-10; break;
    case 6: cov.setZero(); cov.diagonal() << 1e4, 1e6, 900; break;
    case 7: cov << 2e-7, 5e-8, -1e-8, 5e-8, 1e-7, 2e-8, -1e-8, 2e-8, 4e-8; break;
    default: cov << 1e-4, 2e-5, 0, 2e-5, 5e-5, 1e-6, 0, 1e-6, 1e-6; break;
  }
  Eigen::Matrix3d cov0 = cov;
  ScanPtr from = std::make_shared<Scan>(ids[idk][0]), to = std::make_shared<Scan>(ids[idk][1]);
  if (pk) {
    from->setPoints({Point(3, 4), Point(-1, 9)});
    to->setPoints({Point(8, 1)});
  }
  // an earlier pose must not leak into the constraint
  from->setPose(Pose2d(99, 99, 1));
  from->getBarycenterPose();
  to->setPose(Pose2d(-99, 9, 2));
  from->setPose(Pose2d(a.x, a.y, a.th));
  to->setPose(Pose2d(b.x, b.y, b.th));
  ConstraintPtr k = makeConstraint(from, to, cov);
  c.step();
  c.log("(%g %g %g) -> (%g %g %g): %g %g %g", a.x, a.y, a.th, b.x, b.y, b.th, k->transform(0), k->transform(1), k->transform(2));
  c.check(k->begin == ids[idk][0] && k->end == ids[idk][1], "constraint joins %zu -> %zu, not %zu -> %zu", k->begin, k->end, ids[idk][0], ids[idk][1]);
  c.check(!k->switchable, "constraint is switchable by default");
  ref::Pose e = ref::compose(a, {k->transform(0), k->transform(1), k->transform(2)});
  c.near(e.x, b.x, 1e-9, "begin (+) transform: x");
  c.near(e.y, b.y, 1e-9, "begin (+) transform: y");
  c.check(ref::same_angle(e.th, b.th, 1e-9), "begin (+) transform: heading %g, end has %g", e.th, b.th);
  Eigen::Matrix3d id = k->information * cov0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.near(id(i, j), i == j, 1e-7, "information x covariance");
  c.check((cov - cov0).norm() == 0, "covariance argument was modified");
  auto pa = from->getPose(), pb = to->getPose();
  c.check(pa.x == a.x && pa.y == a.y && pa.theta == a.th && pb.x == b.x && pb.y == b.y && pb.theta == b.th, "scan poses were modified");
  // moving a scan later leaves the constraint as it was
  Eigen::Vector3d t0 = k->transform;
  to->setPose(Pose2d(0, 0, 0));
  c.check((k->transform - t0).norm() == 0, "constraint changed when a scan moved");
  uint64_t h = mc::mix(ref::hpose(t0(0), t0(1), ref::wrap(t0(2))), ck);
  c.state(h);
  c.observe(h);
}
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C04", {
    {"pairs", "all pairs of poses from 3 x 2 x 7 values, 4 id pairs, 9 covariances (diagonal, full, tiny, huge), with and without points", 3, body},
  });
}
