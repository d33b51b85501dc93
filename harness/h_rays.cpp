// C13: what one beam, and a set of beams, leave in the occupancy grid.
#include "grid_util.hpp"
using namespace ndt_2d;

static Cells render(mc::Ctx & c, std::vector<ScanPtr> scans, double res, double thr, bool must_cover = true)
{
  OccupancyGrid og(res, thr);
  nav_msgs::msg::OccupancyGrid g;
  og.getMsg(scans, g);
  c.step();
  for (auto & s : scans) {
    Pose2d p = s->getPose();
    if (s->getPoints().empty()) continue;
    if (must_cover) covers(c, g, res, p.x, p.y, "the pose of a scan");
    for (auto & q : s->getPoints()) {
      ref::P w = ref::apply({p.x, p.y, p.theta}, {q.x, q.y});
      covers(c, g, res, w.x, w.y, "a point");
    }
  }
  return decode(c, g, res);
}

static void beam_oracle(mc::Ctx & c, const Cells & m, CellId s, CellId e)
{
  auto it = m.find(e);
  c.check(it != m.end() && it->second == 100, "the end (%ld %ld) of a beam from (%ld %ld) is not marked occupied", e.first, e.second, s.first, s.second);
  double dx = e.first - s.first, dy = e.second - s.second, len = std::hypot(dx, dy);
  for (auto & k : m) {
    if (k.first == e) continue;
    c.check(k.second == 0, "cell (%ld %ld) is occupied; the beam from (%ld %ld) ends at (%ld %ld)", k.first.first, k.first.second, s.first, s.second, e.first, e.second);
    double px = k.first.first - s.first, py = k.first.second - s.second;
    double t = len > 0 ? (px * dx + py * dy) / len : 0, d = len > 0 ? std::fabs(px * dy - py * dx) / len : std::hypot(px, py);
    c.check(d <= 1.0 && t >= -1.0 && t <= len + 1.0, "cell (%ld %ld) is off the beam from (%ld %ld) to (%ld %ld)", k.first.first, k.first.second, s.first, s.second, e.first, e.second);
  }
  if (s == e) return;
  c.check(m.count(s), "the cell of the scanner (%ld %ld) is not marked free by the beam to (%ld %ld)", s.first, s.second, e.first, e.second);
  // the cells form a connected line from the scanner to the end
  Cells left = m;
  std::vector<CellId> q{s};
  left.erase(s);
  bool reached = false;
  while (!q.empty()) {
    CellId a = q.back();
    q.pop_back();
    if (a == e) reached = true;
    for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) {
      CellId b{a.first + i, a.second + j};
      if (left.erase(b)) q.push_back(b);
    }
  }
  c.check(reached && left.empty(), "the beam from (%ld %ld) to (%ld %ld) has gaps", s.first, s.second, e.first, e.second);
}

static void single(mc::Ctx & c)
{
  static const double ress[] = {0.05, 0.25};
  static const double starts[][2] = {{0, 0}, {40, 3}, {-17, -90}};
  static const double ths[] = {0, 2.2};
  int R = c.thorough ? 60 : 30;
  double res = ress[c.choose(2)];
  int si = c.choose(3), ti = c.choose(2);
  int dx = c.choose(2 * R + 1) - R, dy = c.choose(2 * R + 1) - R;
  CellId s{starts[si][0], starts[si][1]}, e{s.first + dx, s.second + dy};
  auto scan = make_scan(3, (s.first + 0.5) * res, (s.second + 0.5) * res, ths[ti], {{(e.first + 0.45) * res, (e.second + 0.55) * res}});
  Cells m = render(c, {scan}, res, 0.25);
  beam_oracle(c, m, s, e);
  c.log("beam (%ld %ld) -> (%ld %ld): %zu cells", s.first, s.second, e.first, e.second, m.size());
  uint64_t h = mc::mix(dx + 100, dy + 100);
  for (auto & k : m) h = mc::mix(h, mc::mix(k.first.first - s.first + 500, k.first.second - s.second + 500));
  c.state(h);
  c.observe(h);
}

static void ratio(mc::Ctx & c, const std::vector<int> & ks, bool corners)
{
  // one cell hit k times and passed m times, in the same scan or in different ones
  static const double thrs[] = {0.0, 0.25, 0.5, 0.75, 0.9};
  double thr = thrs[c.choose(5)];
  int k = c.pick(ks), m = c.pick(ks), split = c.choose(2), order = c.choose(2);
  static const int dirs[][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {-1, 1}};
  int d = corners ? c.choose(2) * 5 : c.choose(6);
  double res = 0.1;
  CellId s{2, -3}, e{2 + 4 * dirs[d][0], -3 + 4 * dirs[d][1]}, f{2 + 9 * dirs[d][0], -3 + 9 * dirs[d][1]};
  std::vector<ref::P> A(k, {(e.first + 0.5) * res, (e.second + 0.5) * res}), B(m, {(f.first + 0.5) * res, (f.second + 0.5) * res});
  std::vector<ScanPtr> scans;
  auto at = [&](size_t id, const std::vector<ref::P> & v) { return make_scan(id, (s.first + 0.5) * res, (s.second + 0.5) * res, 0.7, v); };
  if (split) {
    scans = {at(0, A), at(1, B)};
    if (order) std::swap(scans[0], scans[1]);
  } else {
    std::vector<ref::P> all = A;
    all.insert(all.end(), B.begin(), B.end());
    if (order) std::reverse(all.begin(), all.end());
    scans = {at(0, all)};
  }
  Cells r = render(c, scans, res, thr);
  auto val = [&](CellId i) { auto it = r.find(i); return it == r.end() ? -1 : it->second; };
  int want = k + m == 0 ? -1 : (static_cast<double>(k) / (k + m) > thr ? 100 : 0);
  c.log("threshold %g: %d hits, %d passes -> %d", thr, k, m, val(e));
  c.check(val(e) == want, "%d hits and %d passes at threshold %g: value %d, expected %d", k, m, thr, val(e), want);
  c.check(val(f) == (m ? 100 : -1), "the far end hit %d times has value %d", m, val(f));
  c.check(val({f.first + dirs[d][0], f.second + dirs[d][1]}) == -1, "a cell behind the end of all beams is known");
  if (k + m) c.check(val({s.first + dirs[d][0], s.second + dirs[d][1]}) == 0, "a cell crossed by every beam is not free");
  uint64_t h = mc::mix(mc::mix(k, m), mc::mix(want + 5, d));
  c.state(h);
  c.observe(h);
}

static void several(mc::Ctx & c)
{
  // all pairs of beams from two scans: the map must be the sum of what each leaves alone
  double res = 0.1, thr = 0.45;
  static const int ends[][2] = {{6, 0}, {6, 2}, {3, 1}, {0, 5}, {-4, 4}, {-7, -2}, {1, -6}, {0, 0}, {12, 4}};
  CellId s0{0, 0}, s1{5, 3};
  int sc[3], en[3];
  for (int i = 0; i < 3; ++i) { sc[i] = c.choose(2); en[i] = c.choose(9); }
  std::vector<ref::P> w[2];
  std::map<CellId, std::pair<int, int>> sum;
  for (int i = 0; i < 3; ++i) {
    CellId s = sc[i] ? s1 : s0;
    ref::P p{(s.first + ends[en[i]][0] + 0.5) * res, (s.second + ends[en[i]][1] + 0.5) * res};
    w[sc[i]].push_back(p);
    for (auto & k : render(c, {make_scan(0, (s.first + 0.5) * res, (s.second + 0.5) * res, 0.3 * sc[i], {p})}, res, thr))
      (k.second == 100 ? sum[k.first].first : sum[k.first].second)++;
  }
  std::vector<ScanPtr> scans = {make_scan(0, (s0.first + 0.5) * res, (s0.second + 0.5) * res, 0, w[0]),
    make_scan(1, (s1.first + 0.5) * res, (s1.second + 0.5) * res, 0.3, w[1])};
  Cells r = render(c, scans, res, thr);
  c.check(r.size() == sum.size(), "%zu cells known, the beams touch %zu", r.size(), sum.size());
  uint64_t h = 1;
  for (auto & k : sum) {
    int want = static_cast<double>(k.second.first) / (k.second.first + k.second.second) > thr ? 100 : 0;
    auto it = r.find(k.first);
    c.check(it != r.end() && it->second == want, "cell (%ld %ld): %d hits %d passes gives %d", k.first.first, k.first.second,
      k.second.first, k.second.second, it == r.end() ? -1 : it->second);
    h = mc::mix(h, mc::mix(k.first.first + 500, mc::mix(k.first.second + 500, want)));
  }
  c.state(h);
  c.observe(h);
}

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C13", {
    {"single_beam", "every end cell within 30 cells (60 thorough) of the scanner x 3 scanner places x 2 resolutions x 2 headings", 3, single},
    {"ratio", "0..5 hits x 0..5 passes x 5 thresholds x 6 directions, in one scan or two, both orders", 3,
      [](mc::Ctx & c) { ratio(c, {0, 1, 2, 3, 4, 5}, false); }},
    {"many", "9 numbers of hits and of passes (0 to 70000) x 5 thresholds x 2 directions, in one scan or two, both orders", 3,
      [](mc::Ctx & c) { ratio(c, {0, 1, 127, 128, 255, 256, 300, 32768, 70000}, true); }},
    {"several_beams", "all triples of beams from 2 scans x 9 ends", 2, several},
  });
}
