// Reference models shared by the harnesses: plain, slow, independent of the code under test.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <cmath>
#include <map>
#include <utility>
#include <vector>
#include "mc.hpp"

namespace ref
{
typedef long double LD;
struct P { double x, y; };

inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }
inline bool same_angle(double a, double b, double tol) { return std::fabs(wrap(a - b)) <= tol; }

struct Pose { double x = 0, y = 0, th = 0; };
inline Pose compose(const Pose & a, const Pose & b)
{
  return {static_cast<double>(a.x + cosl(a.th) * b.x - sinl(a.th) * b.y),
    static_cast<double>(a.y + sinl(a.th) * b.x + cosl(a.th) * b.y), a.th + b.th};
}
inline Pose inverse(const Pose & a)
{
  return {static_cast<double>(-(cosl(a.th) * a.x + sinl(a.th) * a.y)),
    static_cast<double>(-(-sinl(a.th) * a.x + cosl(a.th) * a.y)), -a.th};
}
inline P apply(const Pose & a, const P & p)
{
  return {static_cast<double>(a.x + cosl(a.th) * p.x - sinl(a.th) * p.y),
    static_cast<double>(a.y + sinl(a.th) * p.x + cosl(a.th) * p.y)};
}

// Two-pass statistics of a set of points
struct Stats
{
  size_t n = 0;
  LD mx = 0, my = 0, cxx = 0, cxy = 0, cyy = 0;
  LD small = 0, large = 0;      // eigenvalues of the unbiased covariance
  explicit Stats(const std::vector<P> & v)
  {
    n = v.size();
    if (!n) return;
    for (auto & p : v) { mx += p.x; my += p.y; }
    mx /= n; my /= n;
    for (auto & p : v) {
      cxx += (p.x - mx) * (p.x - mx);
      cxy += (p.x - mx) * (p.y - my);
      cyy += (p.y - my) * (p.y - my);
    }
    if (n > 1) { cxx /= (n - 1); cxy /= (n - 1); cyy /= (n - 1); }
    LD t = (cxx + cyy) / 2, d = sqrtl((cxx - cyy) * (cxx - cyy) / 4 + cxy * cxy);
    large = t + d;
    small = t - d;
  }
  bool regular() const { return n >= 3 && small >= 0.0011L * large && large > 1e-8L; }
  bool thin() const { return n >= 3 && small <= 0.0009L * large && large > 1e-6L; }
  bool flat() const { return large < 1e-14L; }
  LD gauss(LD x, LD y) const
  {
    LD det = cxx * cyy - cxy * cxy, dx = x - mx, dy = y - my;
    return expl(-0.5L * (cyy * dx * dx - 2 * cxy * dx * dy + cxx * dy * dy) / det);
  }
};
inline uint64_t hpose(double x, double y, double t) { return mc::mix(mc::hd(x), mc::mix(mc::hd(y), mc::hd(t))); }
}  // namespace ref
#endif
