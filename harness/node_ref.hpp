// Reference model of the node: what the map, the poses and the matches must be after every event.
// Drives the real node and the model side by side.
#ifndef VERIF_NODE_REF_HPP
#define VERIF_NODE_REF_HPP
#include <map>
#include <set>
#include "mapper_util.hpp"

struct MScan { RP pose; int tag; RP base; };      // base: before loop closures moved it
struct Cov
{
  double m[9];
  Cov(double x, double y, double th) : m{x, 0, 0, 0, y, 0, 0, 0, th} {}
  explicit Cov(const Eigen::Matrix3d & c) { for (int i = 0; i < 9; ++i) m[i] = c(i / 3, i % 3); }
  Eigen::Matrix3d information() const { Eigen::Matrix3d c; for (int i = 0; i < 9; ++i) c(i / 3, i % 3) = m[i]; return c.fullPivLu().inverse(); }
};
struct MEdge { size_t a, b; bool sw; RP rel; Cov var; bool known_rel; };
struct MMap { std::vector<MScan> scans; std::vector<MEdge> edges; };

struct NodeCfg
{
  bool pf = false, mapping = true;
  std::string map_file;
  int depth = 1;
  int limit = 2;
  double search = 50.0;
  int node_limit = 1000;
  double mind = 0.1, minr = 1.0;
  bool barycenter = true;
  RP odom0{5.0, -3.0, 0.5};
};

inline RP relative(const RP & a, const RP & b)
{
  RP r = ref::compose(ref::inverse(a), b);
  r.th = wrap(r.th);
  return r;
}

struct Sim
{
  mc::Ctx & c;
  Rig r;
  NodeCfg k;
  bool exact = true;          // the background threads only run in settle()
  // model
  bool mapping, localised, built = false, handled = false;
  MMap map;
  std::map<std::string, MMap> disk;
  RP robot, odom_used;
  double typical = -0.5;
  int64_t t = 0;
  RP odom;
  std::map<int64_t, RP> odoms;
  size_t generation = 0;      // of the map
  // loop closure
  size_t loop_generation = 0, processed = 0, opt_last = 0;
  // consistent pairs of robot and odometry pose, oldest first
  struct Pair { RP tf; };
  std::vector<Pair> pairs;
  size_t seen = 0, seen_scored = 0, seen_tf = 0, tf_at = 0;
  size_t changes = 0;
  std::function<Answer(bool loop, const std::vector<Known> &, int tag)> answer;
  RP loop_correction{0.03125, -0.0625, 0.01};
  std::function<bool(int tag, const std::vector<Known> &)> loop_ok = [](int, const std::vector<Known> &) { return true; };
  double loop_score = -0.9;

  Answer standard(bool loop, const std::vector<Known> & known, int tag)
  {
    Answer a;
    if (loop) {
      a.correction = p2(loop_correction);
      a.score = loop_ok(tag, known) ? loop_score : -0.1;
      a.cov = Eigen::Vector3d(0.25, 0.5, 0.125).asDiagonal();
    } else {
      a.correction = Pose2d(0.0625 * (tag % 3), 0.03125, 0.02);
      a.score = -0.5;
      a.cov = Eigen::Vector3d(0.01, 0.02, 0.04).asDiagonal();
    }
    return a;
  }

  Sim(mc::Ctx & ctx, const NodeCfg & cfg) : c(ctx), k(cfg)
  {
    sched::Quiet q;
    mapping = k.mapping;
    localised = k.map_file.empty();
    odom = k.odom0;
    odoms[-1] = odom;
    r.odom = [this](int64_t ns) {
        auto it = odoms.find(ns);
        return it == odoms.end() ? odom : it->second;
      };
    r.parami("rolling_depth", k.depth);
    r.parami("global_search_limit", k.limit);
    r.param("global_search_size", k.search);
    r.parami("optimization_node_limit", k.node_limit);
    r.paramb("enable_mapping", k.mapping);
    r.paramb("use_particle_filter", k.pf);
    r.param("minimum_travel_distance", k.mind);
    r.param("minimum_travel_rotation", k.minr);
    r.paramb("use_barycenter", k.barycenter);
    if (k.pf) { r.parami("min_particles", 3); r.parami("max_particles", 3); }
    answer = [this](bool l, const std::vector<Known> & n, int tag) { return standard(l, n, tag); };
    mock().answer = [this](const std::string &, const std::vector<Known> & known, const ScanPtr & s) {
        return answer(sched::self() != 0, known, tag_of(s->getPoints()));
      };
  }
  void file(const std::string & name, size_t n, double x0, double y, int tag, double step = 0.5)
  {
    sched::Quiet q;
    make_map(name, n, x0, y, step, tag);
    MMap m;
    for (size_t i = 0; i < n; ++i) {
      RP p{x0 + step * i, y, 0};
      m.scans.push_back({p, tag, p});
      if (i) m.edges.push_back({i - 1, i, false, relative(m.scans[i - 1].pose, p), {0.01, 0.01, 0.01}, true});
    }
    disk[name] = m;
  }
  void start()
  {
    prepare();
    r.start();
    sched::settle(1);     // every thread gets to its first sleep
  }
  void prepare()
  {
    sched::Quiet q;
    if (!k.map_file.empty()) { r.params("map_file", k.map_file); map = disk.at(k.map_file); ++changes; }
    pairs.push_back({RP{0, 0, 0}});
  }

  void pair(const RP & rob, const RP & od)
  {
    robot = rob;
    odom_used = od;
    pairs.push_back({ref::compose(rob, ref::inverse(od))});
  }
  static std::string tags(const std::vector<Known> & v)
  {
    std::string s;
    for (auto & x : v) s += (s.empty() ? "" : " ") + std::to_string(x.tag);
    return "[" + s + "]";
  }
  std::string tags(size_t from, size_t to) const
  {
    std::string s;
    for (size_t i = from; i < to; ++i) s += (s.empty() ? "" : " ") + std::to_string(map.scans[i].tag);
    return "[" + s + "]";
  }
  // the matcher held exactly the scans [from, to) of the map
  void holds(const std::vector<Known> & known, size_t from, size_t to, const char * what)
  {
    bool ok = known.size() == to - from;
    for (size_t i = 0; ok && i < known.size(); ++i) {
      ok = known[i].tag == map.scans[from + i].tag;
      if (exact) ok = ok && same_pose(rp(known[i].pose), map.scans[from + i].pose);
    }
    if (!ok) {
      std::string got = tags(known), want = tags(from, to);
      for (auto & x : known) { char b[99]; snprintf(b, sizeof(b), " (%.3f %.3f %.3f)", x.pose.x, x.pose.y, x.pose.theta); got += b; }
      for (size_t i = from; i < to; ++i) { char b[99]; auto & p = map.scans[i].pose; snprintf(b, sizeof(b), " (%.3f %.3f %.3f)", p.x, p.y, p.th); want += b; }
      sched::fail("%s: matched against scans %s, must be %s", what, got.c_str(), want.c_str());
    }
  }
  std::vector<MatchEvent> own_matches()
  {
    std::vector<MatchEvent> v;
    for (; seen < mock().matches.size(); ++seen) if (mock().matches[seen].thread == 0) v.push_back(mock().matches[seen]);
    return v;
  }

  enum Fault { NONE, EMPTY, DROP };
  int next_tag() const { return 32 + static_cast<int>(t / 1000000000LL) + 1; }
  // A laser message after the robot moved (in its own frame); dropped: the environment fails it
  void scan(const RP & motion, Fault fault = NONE)
  {
    RP to = ref::compose(odom, motion);
    to.th = wrap(to.th);
    scan_at(to, fault, []() { return false; });
  }
  // motion in the odometry frame
  void scan_world(const RP & d) { scan_at(RP{odom.x + d.x, odom.y + d.y, odom.th + d.th}, NONE, []() { return false; }); }
  void scan_with(const RP & motion, const std::function<bool()> & dropped)
  {
    RP to = ref::compose(odom, motion);
    to.th = wrap(to.th);
    scan_at(to, NONE, dropped);
  }
  void scan_at(const RP & to, Fault fault, const std::function<bool()> & dropped)
  {
    {
      sched::Quiet q;
      t += 1000000000LL;
      odom = to;
      odoms[t] = odom;
      r.latest = t;
    }
    int tag = 32 + static_cast<int>(t / 1000000000LL);
    std::vector<float> ranges;
    if (fault != EMPTY) ranges = {tag / 8.0f, 2.0f, 3.0f};
    auto m = r.message(t, ranges);
    m->range_max = sensor_max;
    size_t scored0 = mock().scored.size();
    r.send(m);
    sched::Quiet q;
    if (dropped()) fault = DROP;
    handled_message(tag, fault, scored0);
  }
  void handled_message(int tag, Fault fault, size_t scored0)
  {
    auto got = own_matches();
    bool localising = k.pf || !mapping;
    bool used = fault == NONE && localised;
    if (fault == NONE) handled = true;
    RP guess{0, 0, 0};
    if (used && !map.scans.empty()) {
      double dx = odom.x - odom_used.x, dy = odom.y - odom_used.y, dth = wrap(odom.th - odom_used.th);
      used = std::hypot(dx, dy) >= k.mind || std::fabs(dth) >= k.minr;
      double h = robot.th - odom_used.th;
      guess = RP{robot.x + std::cos(h) * dx - std::sin(h) * dy, robot.y + std::sin(h) * dx + std::cos(h) * dy, robot.th + dth};
    }
    std::vector<MockWorld::Scored> sc(mock().scored.begin() + scored0, mock().scored.end());
    if (!used) {
      c.check(got.empty(), "a message that must not be used (%s) was matched", fault ? "dropped" : !localised ? "not localised" : "not moved enough");
      return;
    }
    size_t n = map.scans.size();
    if (k.pf) {
      size_t own = 0;
      for (auto & s : sc) if (s.thread == 0) { ++own; holds(s.known, 0, n, "particle filter"); }
      c.check(own > 0, "the particle filter did not measure a message that must be used");
      pair(guess, odom);
      return;
    }
    if (mapping && n == 0) {
      c.check(got.empty(), "the first scan of an empty map was matched");
      map.scans.push_back({guess, tag, guess});
      ++changes;
      pair(guess, odom);
      return;
    }
    c.check(got.size() == 1, "a message that must be used was matched %zu times", got.size());
    const MatchEvent & e = got[0];
    c.check(tag_of(e.points) == tag, "the scan matched has tag %d, that of the message %d", tag_of(e.points), tag);
    c.check(same_pose(rp(e.pose), guess), "initial pose (%.4f %.4f %.4f), must be the last pose plus the odometry since (%.4f %.4f %.4f)", e.pose.x, e.pose.y, e.pose.theta, guess.x, guess.y, guess.th);
    RP p{guess.x + e.answer.correction.x, guess.y + e.answer.correction.y, guess.th + e.answer.correction.theta};
    if (localising) {
      holds(e.known, 0, n, "localisation");
    } else {
      size_t from = n > static_cast<size_t>(k.depth) ? n - k.depth : 0;
      holds(e.known, from, n, "mapping");
      typical = 0.95 * typical + 0.05 * e.answer.score;
      map.scans.push_back({p, tag, p});
      map.edges.push_back({n - 1, n, false, relative(map.scans[n - 1].pose, p), Cov(e.answer.cov), exact});
      ++changes;
    }
    pair(p, odom);
  }
  RP centre(size_t i) const
  {
    const MScan & s = map.scans[i];
    if (!k.barycenter || s.tag == 0) return s.pose;
    if (s.tag < 32) {
      double d = s.tag / 8.0;
      ref::P m = ref::apply(s.pose, ref::P{(0.6 * d + 2 + 1) / 3, (0.8 * d - 0.25) / 3});
      return {m.x, m.y, 0};
    }
    double rr[3] = {s.tag / 8.0, 2, 3}, x = 0, y = 0;
    for (int i = 0; i < 3; ++i) { double a = -1.0 + 0.5 * i; x += rr[i] * std::cos(a) / 3; y += rr[i] * std::sin(a) / 3; }
    ref::P m = ref::apply(s.pose, ref::P{x, y});
    return {m.x, m.y, 0};
  }
  void pose(const RP & p, const RP & var = {0.01, 0.01, 0.01}, bool map_frame = true) { pose_with(p, []() { return true; }, var, map_frame); }
  void pose_with(const RP & p, const std::function<bool()> & tf, const RP & var = {0.01, 0.01, 0.01}, bool map_frame = true)
  {
    r.initialpose(p, var, map_frame ? "map" : "odom");
    sched::Quiet q;
    bool tf_ok = tf();
    auto got = own_matches();
    c.check(got.empty(), "an initial pose was matched");
    if (mapping && !k.pf && localised) return;
    if (!map_frame || !tf_ok) return;
    if (!k.pf && mapping) {
      size_t best = 0;
      double bd = 1e9;
      for (size_t i = 0; i < map.scans.size(); ++i) {
        RP b = centre(i);
        double d = std::hypot(b.x - p.x, b.y - p.y);
        if (d < bd) { bd = d; best = i; }
      }
      if (bd > 10.0) return;
      size_t n = map.scans.size();
      map.scans.push_back({p, 0, p});
      map.edges.push_back({best, n, false, relative(map.scans[best].pose, p), {std::max(1e-6, var.x), std::max(1e-6, var.y), std::max(1e-6, var.th)}, exact});
      ++changes;
    }
    pair(p, odom);
    localised = true;
  }
  void enable() { r.enable(); mapping = true; }
  void disable() { r.disable(); mapping = false; localised = false; }
  void load(const std::string & f) { load_with(f, []() { return true; }); }
  void load_with(const std::string & f, const std::function<bool()> & ok)
  {
    r.load(f);
    sched::Quiet q;
    if (!ok() || !disk.count(f)) return;
    map = disk.at(f);
    localised = false;
    ++generation;
    ++changes;
  }
  float sensor_max = 10.0f;      // tags are coded as ranges: more than that allows about 50 scans
  std::string last_saved = "none";
  int saves = 0;
  // One request that switches mapping and loads or saves a file
  void combined(bool on, bool is_load, const std::string & f)
  {
    typedef ndt_2d::srv::Configure::Request Q;
    r.configure((on ? Q::ENABLE_MAPPING : Q::DISABLE_MAPPING) | (is_load ? Q::LOAD_FROM_FILE : Q::SAVE_TO_FILE), f);
    sched::Quiet q;
    mapping = on;
    if (!on) localised = false;
    if (!is_load) { disk[f] = map; return; }
    if (!disk.count(f)) return;
    map = disk.at(f);
    localised = false;
    ++generation;
    ++changes;
  }
  void save(const std::string & f) { save_with(f, []() { return true; }); }
  void save_with(const std::string & f, const std::function<bool()> & ok)
  {
    r.save(f);
    sched::Quiet q;
    if (ok()) disk[f] = map;
    else disk.erase(f);
  }
  // one iteration of loop closure, when exact
  void loop_model()
  {
    sched::Quiet q;
    if (!mapping || k.pf) return;
    if (loop_generation != generation) { loop_generation = generation; processed = 0; opt_last = 0; }
    size_t n = map.scans.size(), d = k.depth;
    if (!handled || n <= d) return;
    if (processed <= d) processed = d + 1;
    bool fresh = false;
    std::vector<MatchEvent> got;
    for (; seen < mock().matches.size(); ++seen) if (mock().matches[seen].thread != 0) got.push_back(mock().matches[seen]);
    size_t g = 0;
    for (; processed < n; ++processed) {
      size_t s = processed;
      std::vector<std::pair<double, size_t>> near;
      RP a = centre(s);
      for (size_t i = 0; i < s - d; ++i) {
        RP b = centre(i);
        double dist = std::hypot(a.x - b.x, a.y - b.y);
        if (dist < k.search) near.push_back({dist, i});
      }
      std::sort(near.begin(), near.end());
      int left = k.limit;
      for (auto & cand : near) {
        if (left == 0) break;
        size_t i = cand.second;
        if (map.scans[i].tag == 0) continue;
        --left;
        c.check(g < got.size(), "scan %zu was not matched against its neighbour %zu", s, i);
        const MatchEvent & e = got[g++];
        c.check(tag_of(e.points) == map.scans[s].tag && same_pose(rp(e.pose), map.scans[s].pose), "the scan considered for loop closure has tag %d at (%.4f %.4f), must be %d, scan %zu at (%.4f %.4f)",
          tag_of(e.points), e.pose.x, e.pose.y, map.scans[s].tag, s, map.scans[s].pose.x, map.scans[s].pose.y);
        holds(e.known, i ? i - 1 : 0, std::min(i + 2, n), "loop closure");
        if (std::isfinite(e.answer.score) && e.answer.score < typical) {
          RP & p = map.scans[s].pose;
          p = RP{p.x + e.answer.correction.x, p.y + e.answer.correction.y, p.th + e.answer.correction.theta};
          map.edges.push_back({i, s, true, relative(map.scans[i].pose, p), Cov(e.answer.cov), true});
          fresh = true;
          ++changes;
        }
      }
    }
    c.check(g == got.size(), "%zu more loop closure matches than there should be: scan with tag %d", got.size() - g, got.size() > g ? tag_of(got[g].points) : 0);
    if (fresh && n - opt_last > static_cast<size_t>(k.node_limit)) {
      opt_last = n;
      optimise();
      adopt();
      ++changes;
      ++optimised;
    }
  }
  size_t optimised = 0;
  // the reference for the optimiser is a fresh one on a copy (its correctness is C05)
  void optimise()
  {
    std::vector<ScanPtr> s;
    std::vector<ConstraintPtr> e;
    for (size_t i = 0; i < map.scans.size(); ++i) { auto x = std::make_shared<Scan>(i); x->setPose(p2(map.scans[i].pose)); s.push_back(x); }
    for (auto & m : map.edges) {
      auto x = std::make_shared<Constraint>();
      x->begin = m.a; x->end = m.b; x->switchable = m.sw;
      x->transform = Eigen::Vector3d(m.rel.x, m.rel.y, m.rel.th);
      x->information = m.var.information();
      e.push_back(x);
    }
    CeresSolver().optimize(e, s);
    for (size_t i = 0; i < s.size(); ++i) map.scans[i].pose = rp(s[i]->getPose());
  }
  // within the optimiser's tolerance the poses may differ: check, then follow the real ones
  void adopt()
  {
    auto g = r.map();
    c.check(g->scans.size() == map.scans.size(), "the map has %zu scans, must have %zu", g->scans.size(), map.scans.size());
    for (size_t i = 0; i < map.scans.size(); ++i) {
      RP p = rp(g->scans[i]->getPose()), w = map.scans[i].pose;
      c.check(same_pose(p, w, 2e-3), "after optimisation scan %zu is at (%.4f %.4f %.4f), must be at (%.4f %.4f %.4f)", i, p.x, p.y, p.th, w.x, w.y, w.th);
      map.scans[i].pose = p;
    }
  }
  void settle(int rounds = 1)
  {
    for (int i = 0; i < rounds; ++i) {
      sched::settle(1);
      if (exact) loop_model();
    }
  }
  // What is saved now is the model's map
  void check_map(const char * when, double tol = 1e-5)
  {
    auto g = r.map();
    sched::Quiet q;
    c.check(g->scans.size() == map.scans.size(), "%s: the map has %zu scans, must have %zu", when, g->scans.size(), map.scans.size());
    for (size_t i = 0; i < map.scans.size(); ++i) {
      c.check(tag_of(g->scans[i]->getPoints()) == map.scans[i].tag, "%s: scan %zu has the points of another scan", when, i);
      RP p = rp(g->scans[i]->getPose()), w = map.scans[i].pose;
      c.check(g->scans[i]->getId() == i, "%s: scan %zu has id %zu", when, i, g->scans[i]->getId());
      if (exact) c.check(same_pose(p, w, tol), "%s: scan %zu is at (%.4f %.4f %.4f), must be at (%.4f %.4f %.4f)", when, i, p.x, p.y, p.th, w.x, w.y, w.th);
    }
    if (exact) c.check(g->constraints.size() == map.edges.size(), "%s: the map has %zu constraints, must have %zu", when, g->constraints.size(), map.edges.size());
    std::vector<bool> used(g->constraints.size());
    for (auto & e : map.edges) {
      bool found = false;
      std::string why = "none";
      for (size_t i = 0; i < g->constraints.size() && !found; ++i) {
        auto & x = *g->constraints[i];
        if (used[i] || x.begin != e.a || x.end != e.b || x.switchable != e.sw) continue;
        RP w = e.rel, p{x.transform(0), x.transform(1), x.transform(2)};
        if (e.known_rel && !same_pose(p, w, tol)) { char b[200]; snprintf(b, sizeof(b), "transform (%.4f %.4f %.4f), must be (%.4f %.4f %.4f)", p.x, p.y, p.th, w.x, w.y, w.th); why = b; continue; }
        Eigen::Matrix3d want = e.var.information();
        if (!((x.information - want).cwiseAbs().maxCoeff() <= 1e-5 * want.maxCoeff())) { why = "other information"; continue; }
        used[i] = found = true;
      }
      c.check(found, "%s: there is no %s constraint %zu -> %zu as it must be (%s)", when, e.sw ? "loop closure" : "odometry", e.a, e.b, why.c_str());
    }
    c.state(mc::mix(hash_map(*g), mc::mix(localised * 2 + mapping, ref::hpose(robot.x, robot.y, robot.th))));
  }
  // The map when background threads ran in between: everything that does not depend on when they did
  void check_map_structure(const Graph & g, bool optimised)
  {
    c.check(g.scans.size() == map.scans.size(), "the map has %zu scans, must have %zu", g.scans.size(), map.scans.size());
    size_t n = map.scans.size();
    std::vector<int> moved(n, 0);
    std::set<std::pair<size_t, size_t>> seen_loops;
    std::vector<bool> used(map.edges.size());
    for (auto & x : g.constraints) {
      c.check(x->begin < n && x->end < n, "constraint between scans %zu and %zu of %zu", x->begin, x->end, n);
      if (x->switchable) {
        moved[x->end]++;
        c.check(x->begin + k.depth < x->end, "loop closure from scan %zu to %zu is inside of the rolling window", x->begin, x->end);
        c.check(x->end > static_cast<size_t>(k.depth), "loop closure of scan %zu of the initial rolling window", x->end);
        c.check(moved[x->end] <= k.limit, "scan %zu has more than %d loop closures", x->end, k.limit);
        c.check(seen_loops.insert({x->begin, x->end}).second, "two loop closures between scans %zu and %zu", x->begin, x->end);
        c.check(map.scans[x->begin].tag != 0, "loop closure with scan %zu, which has no points", x->begin);
        continue;
      }
      bool found = false;
      for (size_t i = 0; i < map.edges.size() && !found; ++i) {
        auto & e = map.edges[i];
        if (used[i] || e.sw || e.a != x->begin || e.b != x->end) continue;
        if (e.known_rel && !same_pose(RP{x->transform(0), x->transform(1), x->transform(2)}, e.rel, 1e-5)) continue;
        used[i] = found = true;
      }
      c.check(found, "constraint between scans %zu and %zu belongs to another map", x->begin, x->end);
    }
    for (size_t i = 0; i < used.size(); ++i) c.check(used[i] || map.edges[i].sw, "the constraint between scans %zu and %zu is missing", map.edges[i].a, map.edges[i].b);
    for (size_t i = 0; i < n; ++i) {
      c.check(g.scans[i]->getId() == i, "scan %zu has id %zu", i, g.scans[i]->getId());
      c.check(tag_of(g.scans[i]->getPoints()) == map.scans[i].tag, "scan %zu has the points of another scan", i);
      RP p = rp(g.scans[i]->getPose()), w = map.scans[i].base;
      c.check(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.th), "scan %zu is at (%g %g %g)", i, p.x, p.y, p.th);
      if (optimised) continue;
      w.x += moved[i] * loop_correction.x; w.y += moved[i] * loop_correction.y; w.th += moved[i] * loop_correction.th;
      c.check(same_pose(p, w, 1e-5), "scan %zu is at (%.4f %.4f %.4f), %d loop closures place it at (%.4f %.4f %.4f)", i, p.x, p.y, p.th, moved[i], w.x, w.y, w.th);
    }
  }
  // All transforms published so far combine poses that belong together, in the order of time
  void check_tf()
  {
    sched::Quiet q;
    auto & v = verif::world().published;
    for (; seen_tf < v.size(); ++seen_tf) {
      if (v[seen_tf].topic != "/tf") continue;
      auto & m = *std::static_pointer_cast<geometry_msgs::msg::TransformStamped>(v[seen_tf].msg);
      RP p = of_tf(m);
      c.check(m.header.frame_id == "map" && m.child_frame_id == "odom", "transform from %s to %s", m.header.frame_id.c_str(), m.child_frame_id.c_str());
      size_t at = tf_at;
      if (at == 0 && k.map_file.empty() && !generation) at = 1;      // before the first scan there is no pose
      while (at < pairs.size() && !same_pose(p, pairs[at].tf, 1e-5)) ++at;
      c.check(at < pairs.size(), "the transform published (%.4f %.4f %.4f) is not that of a robot and an odometry pose of the same moment (newest: %.4f %.4f %.4f of %zu)",
        p.x, p.y, p.th, pairs.back().tf.x, pairs.back().tf.y, pairs.back().tf.th, pairs.size());
      tf_at = at;
    }
  }
  // ... and the newest one is being published
  void check_tf_newest()
  {
    sched::Quiet q;
    auto m = r.last<geometry_msgs::msg::TransformStamped>("/tf");
    if (map.scans.empty() && !generation) { c.check(!m, "a transform is published although there is no map"); return; }
    c.check(m != nullptr, "no transform is published");
    c.check(same_pose(of_tf(*m), pairs.back().tf, 1e-5), "the transform published last is not that of the current pose");
  }
};
#endif
