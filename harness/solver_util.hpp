#ifndef SOLVER_UTIL_HPP
#define SOLVER_UTIL_HPP
#include "mc.hpp"
#include "ref.hpp"
#include <Eigen/Dense>
#include <ndt_2d/ceres_solver.hpp>
struct Edge { size_t a, b; Eigen::Vector3d z; Eigen::Matrix3d info; };
// Weighted squared error of a pose graph, and its minimum by Levenberg-Marquardt; the first pose stays
struct PoseGraph
{
  std::vector<Eigen::Vector3d> x;
  std::vector<Edge> e;
  static Eigen::Vector3d err(const Edge & k, const Eigen::Vector3d & a, const Eigen::Vector3d & b)
  {
    ref::Pose d = ref::compose(ref::inverse({a(0), a(1), a(2)}), {b(0), b(1), b(2)});
    return Eigen::Vector3d(d.x - k.z(0), d.y - k.z(1), ref::wrap(d.th - k.z(2)));
  }
  double cost(const std::vector<Eigen::Vector3d> & p) const
  {
    double s = 0;
    for (auto & k : e) { auto r = err(k, p[k.a], p[k.b]); s += r.dot(k.info * r); }
    return s;
  }
  std::vector<Eigen::Vector3d> solve() const
  {
    std::vector<Eigen::Vector3d> p = x;
    const int n = 3 * (p.size() - 1);
    double lambda = 1e-4, c0 = cost(p);
    for (int it = 0; it < 200 && n > 0; ++it) {
      Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n);
      Eigen::VectorXd g = Eigen::VectorXd::Zero(n);
      for (auto & k : e) {
        const auto & A = p[k.a]; const auto & B = p[k.b];
        double cs = std::cos(A(2)), sn = std::sin(A(2)), dx = B(0) - A(0), dy = B(1) - A(1);
        Eigen::Matrix3d Ja, Jb;
        Ja << -cs, -sn, -sn * dx + cs * dy, sn, -cs, -cs * dx - sn * dy, 0, 0, -1;
        Jb << cs, sn, 0, -sn, cs, 0, 0, 0, 1;
        Eigen::Vector3d r = err(k, A, B);
        int ia = 3 * (static_cast<int>(k.a) - 1), ib = 3 * (static_cast<int>(k.b) - 1);
        if (ia >= 0) { H.block<3, 3>(ia, ia) += Ja.transpose() * k.info * Ja; g.segment<3>(ia) += Ja.transpose() * k.info * r; }
        if (ib >= 0) { H.block<3, 3>(ib, ib) += Jb.transpose() * k.info * Jb; g.segment<3>(ib) += Jb.transpose() * k.info * r; }
        if (ia >= 0 && ib >= 0) {
          H.block<3, 3>(ia, ib) += Ja.transpose() * k.info * Jb;
          H.block<3, 3>(ib, ia) += Jb.transpose() * k.info * Ja;
        }
      }
      Eigen::MatrixXd D = H;
      for (int i = 0; i < n; ++i) D(i, i) += lambda * (H(i, i) + 1e-9);
      Eigen::VectorXd d = D.ldlt().solve(-g);
      std::vector<Eigen::Vector3d> q = p;
      for (size_t i = 1; i < q.size(); ++i) q[i] += d.segment<3>(3 * (i - 1));
      double c1 = cost(q);
      if (c1 <= c0) { p = q; lambda = std::max(1e-12, lambda / 10); bool done = d.norm() < 1e-12; c0 = c1; if (done) break; }
      else { lambda *= 10; if (lambda > 1e12) break; }
    }
    return p;
  }
};
inline ndt_2d::ConstraintPtr constraint_of(const Edge & k, bool sw = false)
{
  auto c = std::make_shared<ndt_2d::Constraint>();
  c->begin = k.a; c->end = k.b; c->transform = k.z; c->information = k.info; c->switchable = sw;
  return c;
}
inline ndt_2d::ScanPtr node_of(size_t id, const Eigen::Vector3d & p)
{
  auto s = std::make_shared<ndt_2d::Scan>(id);
  s->setPose(ndt_2d::Pose2d(p(0), p(1), p(2)));
  s->setPoints({ndt_2d::Point(1, 2), ndt_2d::Point(id, 3)});
  return s;
}
inline std::vector<Eigen::Vector3d> poses_of(const std::vector<ndt_2d::ScanPtr> & v)
{
  std::vector<Eigen::Vector3d> r;
  for (auto & s : v) r.push_back(Eigen::Vector3d(s->getPose().x, s->getPose().y, s->getPose().theta));
  return r;
}
inline Eigen::Matrix3d info_of(int k)
{
  Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
  switch (k) {
    case 0: m.diagonal() << 400, 400, 900; break;
    case 1: m << 500, 420, -130, 420, 600, 90, -130, 90, 350; break;                  // strongly correlated
    case 2: m << 5000, -60, 200, -60, 3, -4, 200, -4, 40; break;                       // anisotropic
    case 3: m.diagonal() << 30, 2000, 8; break;
  }
  return m;
}
inline Eigen::Vector3d relative(const Eigen::Vector3d & a, const Eigen::Vector3d & b)
{
  ref::Pose d = ref::compose(ref::inverse({a(0), a(1), a(2)}), {b(0), b(1), b(2)});
  return Eigen::Vector3d(d.x, d.y, ref::wrap(d.th));
}
#endif
