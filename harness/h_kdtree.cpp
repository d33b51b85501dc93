// C07: the tree counts distinct occupied bins.
#include "mc.hpp"
#include <set>
#include <array>
#include <ndt_2d/kd_tree.hpp>

static void run(mc::Ctx & c, int depth, const std::vector<std::array<double, 3>> & cells, int variants, bool with_clear,
  double sx, double sy, double st, size_t reserve)
{
  ndt_2d::KDTree<double> t(sx, sy, st, reserve);
  std::set<std::array<long, 3>> model;
  uint64_t h = 1;
  for (int i = 0; i < depth; ++i) {
    int n = cells.size() * variants + (with_clear ? 1 : 0);
    int op = c.choose(n, "op");
    c.step();
    if (op == static_cast<int>(cells.size()) * variants) {
      t.clear();
      model.clear();
      c.log("clear");
    } else {
      auto & cell = cells[op / variants];
      double f = op % variants ? 0.8125 : 0.125;       // two places in the same bin
      Eigen::Vector3d p((cell[0] + f) * sx, (cell[1] + 1 - f) * sy, (cell[2] + 0.5) * st);
      double w = 0.25 * (1 + op % 3);
      double w0 = w;
      t.insert(p, w);
      c.check(w == w0, "insert changed the value passed in");
      model.insert({static_cast<long>(cell[0]), static_cast<long>(cell[1]), static_cast<long>(cell[2])});
      c.log("insert bin (%g %g %g)", cell[0], cell[1], cell[2]);
    }
    c.check(t.getLeafCount() == model.size(), "%zu bins counted, %zu are occupied after %d operations", t.getLeafCount(), model.size(), i + 1);
    h = 1;
    for (auto & m : model) h = mc::mix(h, mc::mix(m[0] + 1000, mc::mix(m[1] + 1000, m[2] + 1000)));
    c.state(h);
  }
  c.observe(mc::mix(h, model.size()));
}

// boundaries: a value exactly on a bin edge belongs to the upper bin (exact in binary sizes)
static void edges(mc::Ctx & c)
{
  ndt_2d::KDTree<double> t(0.5, 0.25, 1.0, 4);
  std::set<std::array<long, 3>> model;
  for (int i = 0; i < 4; ++i) {
    int ax = c.choose(3);
    static const double v[] = {-1.0, -0.5, -0.25, -0.0, 0.0, 0.2, 0.5, 0.75, -0.1};
    double x = v[c.choose(9)];
    Eigen::Vector3d p(0.1, 0.1, 0.1);
    p(ax) = x;
    double w = 1;
    t.insert(p, w);
    c.step();
    model.insert({static_cast<long>(std::floor(p(0) / 0.5)), static_cast<long>(std::floor(p(1) / 0.25)), static_cast<long>(std::floor(p(2)))});
    c.log("insert (%g %g %g)", p(0), p(1), p(2));
    c.check(t.getLeafCount() == model.size(), "%zu bins counted, %zu are occupied", t.getLeafCount(), model.size());
    uint64_t h = 3;
    for (auto & m : model) h = mc::mix(h, mc::mix(m[0] + 1000, mc::mix(m[1] + 1000, m[2] + 1000)));
    c.state(h);
    c.observe(h);
  }
}

// many insertions, in orders that are hard on a tree, into a tree that is cleared and used again
static void large(mc::Ctx & c)
{
  static const int ns[] = {200, 5000, 70000};
  static const size_t rs[] = {0, 100, 100000};
  int n = ns[c.choose(3, "insertions")], spread = c.choose(4, "spread"), order = c.choose(3, "order");
  ndt_2d::KDTree<double> t(0.5, 0.5, 0.2671, rs[c.choose(3, "reserve")]);
  if (spread == 3 && n > 5000) n = 5000;      // a row of bins in order: the tree may become a list
  for (int round = 0; round < 2; ++round) {
    std::set<std::array<long, 3>> model;
    for (int i = 0; i < n; ++i) {
      int k = order == 0 ? i : order == 1 ? n - 1 - i : static_cast<int>((i * 7919ll) % n);
      std::array<long, 3> b;
      if (spread == 0) b = {k % 7 - 3, k / 7 % 5 - 2, k / 35 % 3 - 1};                 // few bins
      else if (spread == 1) b = {(k * 31ll) % 211 - 100, (k * 17ll) % 97 - 50, k % 20 - 10};
      else if (spread == 2) b = {(k * 1009ll) % 100003 - 50000, (k * 31ll) % 99991 - 50000, k % 24 - 12};   // all apart
      else b = {k - n / 2, 0, 0};
      if (round) for (auto & v : b) v += 1;
      Eigen::Vector3d p((b[0] + (i % 2 ? 0.25 : 0.75)) * 0.5, (b[1] + 0.5) * 0.5, (b[2] + 0.5) * 0.2671);
      double w = 1.0 / n;
      t.insert(p, w);
      model.insert(b);
      if (i < 300 || i % 251 == 0 || i + 1 == n)
        c.check(t.getLeafCount() == model.size(), "%zu bins counted, %zu are occupied after %d insertions", t.getLeafCount(), model.size(), i + 1);
    }
    c.step(n);
    c.log("%d insertions: %zu bins", n, t.getLeafCount());
    uint64_t h = mc::mix(n, mc::mix(model.size(), spread));
    c.state(h);
    c.observe(h);
    t.clear();
    c.check(t.getLeafCount() == 0, "%zu bins counted after clearing", t.getLeafCount());
  }
}

int main(int argc, char ** argv)
{
  std::vector<std::array<double, 3>> cube, line, mix;
  for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) for (int d = -1; d <= 1; ++d) cube.push_back({double(a), double(b), double(d)});
  for (int a = -2; a <= 2; ++a) line.push_back({double(a), 0, 0});
  line.push_back({0, 1, 0});
  line.push_back({0, 0, -1});
  mix = {{0, 0, 0}, {1, 0, 0}, {3, 3, 3}, {-40, 7, 2}, {-40, 8, 2}, {1000, -1000, 5}};
  return mc::run(argc, argv, "C07", {
    {"cube", "all insertion sequences of length 3 (4 thorough) over the 27 bins around zero, bins 0.5 x 0.5 x 0.2671", 2,
      [&](mc::Ctx & c) { run(c, c.thorough ? 4 : 3, cube, 1, false, 0.5, 0.5, 0.2671, 2); }},
    {"line", "all sequences of 6 (7 thorough) operations over 7 bins, clear included", 2,
      [&](mc::Ctx & c) { run(c, c.thorough ? 7 : 6, line, 1, true, 0.5, 0.5, 0.25, 100); }},
    {"spread", "all sequences of 5 (6 thorough) operations over 6 near and far bins x 2 places in the bin, clear included", 2,
      [&](mc::Ctx & c) { run(c, c.thorough ? 6 : 5, mix, 2, true, 0.25, 1.0, 0.5, 0); }},
    {"edges", "all sequences of 4 insertions of 9 values on and around bin edges on each of 3 axes", 2, edges},
    {"large", "200, 5000, 70000 insertions x {few bins, crowded, all apart, a row} x 3 orders x 3 reserved sizes, twice with a clear between", 2, large},
  });
}
