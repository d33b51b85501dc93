// C19, C20, C21: the node's three threads under all interleavings up to a number of preemptions.
#include "node_ref.hpp"

enum { SCAN, LOAD, DISABLE, ENABLE, POSE, SAVE, NEVENTS };
typedef std::vector<std::vector<int>> Events;

struct Cfg
{
  NodeCfg node;
  int before = 3;                // scans handled before the exploration
  bool from_start = false;       // explore from the start of the node
  Events events;
  int preemptions = 1, wakes = 1;
  bool unload = false;           // component unloaded instead of a system shutdown
  bool accept = true;            // loop closures match well
};

// A map another thread or a file shows must be a whole
static void whole(mc::Ctx & c, Sim & s, const Graph & g, const char * what, bool optimised)
{
  size_t n = g.scans.size();
  std::vector<int> linked(n, 0), moved(n, 0);
  for (auto & k : g.constraints) {
    c.check(k->begin < n && k->end < n, "%s: a constraint connects scans %zu and %zu, there are only %zu scans", what, k->begin, k->end, n);
    if (!k->switchable) linked[k->end] = 1;
    else moved[k->end]++;
    for (int i = 0; i < 3; ++i) c.check(std::isfinite(k->transform(i)), "%s: constraint with transform %g", what, k->transform(i));
  }
  for (size_t i = 1; i < n; ++i) c.check(linked[i], "%s: scan %zu has no constraint connecting it to the map", what, i);
  // a scan is moved together with adding the constraint that moved it
  if (optimised) return;
  const MMap * m = &s.map;
  for (size_t i = 0; i < n; ++i) {
    int tag = tag_of(g.scans[i]->getPoints());
    if (tag < 32) continue;
    if (i >= m->scans.size() || m->scans[i].tag != tag) continue;
    RP w = m->scans[i].base, p = rp(g.scans[i]->getPose());
    w.x += moved[i] * s.loop_correction.x; w.y += moved[i] * s.loop_correction.y; w.th += moved[i] * s.loop_correction.th;
    c.check(same_pose(p, w, 1e-5), "%s: scan %zu is at (%.4f %.4f %.4f) although %d loop closures place it at (%.4f %.4f %.4f)", what, i, p.x, p.y, p.th, moved[i], w.x, w.y, w.th);
  }
}
static void whole_markers(mc::Ctx & c, const visualization_msgs::msg::MarkerArray & a)
{
  std::vector<std::pair<double, double>> at;
  for (auto & m : a.markers) if (m.type == visualization_msgs::msg::Marker::SPHERE) at.push_back({m.pose.position.x, m.pose.position.y});
  std::vector<int> linked(at.size(), 0);
  for (auto & m : a.markers) {
    if (m.type == visualization_msgs::msg::Marker::SPHERE) continue;
    for (size_t i = 0; i + 1 < m.points.size(); i += 2) {
      int ends[2] = {0, 0};
      for (int e = 0; e < 2; ++e) {
        for (size_t k = 0; k < at.size(); ++k) {
          if (std::fabs(at[k].first - m.points[i + e].x) < 1e-6 && std::fabs(at[k].second - m.points[i + e].y) < 1e-6) { ++ends[e]; linked[k]++; }
        }
      }
      c.check(ends[0] && ends[1], "a graph was published with a constraint that ends at no scan");
    }
  }
  if (at.size() > 1) for (size_t k = 0; k < at.size(); ++k) c.check(linked[k] > 0, "a graph was published in which scan %zu of %zu is not connected", k, at.size());
}

static void scenario(mc::Ctx & c, const Cfg & k)
{
  std::vector<int> ev = c.pick(k.events, "events");
  bool optimised = k.node.node_limit < 100;
  sched::run(c, [&]() {
      Sim s(c, k.node);
      s.exact = false;
      s.loop_ok = [&](int, const std::vector<Known> &) { return k.accept; };
      s.file("other", 3, 2.0, 4.0, 16);
      if (!k.node.map_file.empty()) s.file(k.node.map_file, 4, 0.0, 0.0, 8);
      s.prepare();
      if (k.from_start) { sched::explore(k.preemptions, k.wakes); }
      s.r.start();
      const RP step{0.5, 0.125, 0.25};
      if (!k.from_start) {
        if (!k.node.map_file.empty()) s.pose(RP{0.5, 0, 0});
        for (int i = 0; i + 1 < k.before; ++i) s.scan(step);
        sched::settle(1);
        if (k.before) s.scan(step);
        sched::explore(k.preemptions, k.wakes);
      }
      int files = 0;
      for (int e : ev) {
        sched::idle();
        switch (e) {
          case SCAN: s.scan(step); break;
          case LOAD:
            s.load("other");
            break;
          case DISABLE: s.disable(); break;
          case ENABLE: s.enable(); break;
          case POSE: s.pose(RP{2.25, 4.0, 0.5}); break;
          case SAVE: {
              std::string f = "saved" + std::to_string(files++);
              s.r.save(f);
              sched::Quiet q;
              Graph g(true, f);
              whole(c, s, g, "a file saved", optimised);
              break;
            }
        }
        c.step();
      }
      sched::idle();
#if defined(PROP_C20) || defined(PROP_C21)
      sched::stop();
      sched::settle(3);
#endif
#if defined(PROP_C20)
      auto g = s.r.map();
      if (!s.map.scans.empty()) check_published(c, s.r, g, 0.5, 0.25, "after the last change");
      size_t n = s.r.count("map") + s.r.count("graph");
      sched::settle(2);
      c.check(s.r.count("map") + s.r.count("graph") == n, "the map is published again although nothing changed");
      s.check_tf();
      s.check_tf_newest();
#elif defined(PROP_C21)
      {
        sched::Quiet q;
        // what the background threads were matching belongs together
        for (auto & m : mock().matches) {
          bool from_old = false, from_other = false;
          for (auto & x : m.known) { from_old |= x.tag == 8; from_other |= x.tag == 16; }
          c.check(!(from_old && from_other), "a scan was matched against scans of both maps");
        }
      }
      {
        auto g = s.r.map();
        sched::Quiet q;
        s.check_map_structure(*g, optimised);
      }
      // and on it goes
      s.pose(RP{2.25, 4.0, 0.5});
      s.scan(step);
      sched::settle(2);
      s.scan(step);
      sched::settle(2);
      {
        auto g = s.r.map();
        sched::Quiet q;
        s.check_map_structure(*g, optimised);
        c.observe(hash_map(*g));
      }
#endif
      s.r.shutdown(!k.unload);
      sched::stop();
      sched::Quiet q;
      for (auto & o : verif::world().published) {
        if (o.topic == "graph") {
          auto & a = *std::static_pointer_cast<visualization_msgs::msg::MarkerArray>(o.msg);
          if (!optimised) whole_markers(c, a);
          c.observe(a.markers.size());
        }
      }
      c.observe(mock().matches.size());
    });
}

static Events seqs(const std::vector<int> & alpha, int n)
{
  Events r{{}};
  for (int i = 0; i < n; ++i) {
    Events o;
    for (auto & s : r) for (int a : alpha) { auto x = s; x.push_back(a); o.push_back(x); }
    r = o;
  }
  return r;
}

static std::vector<mc::Suite> suites;
static void add(const char * name, const char * bound, const Cfg & k, const Cfg * deep = nullptr, bool thorough_only = false)
{
  Cfg d = deep ? *deep : k;
  suites.push_back({name, bound, 5, [k, d](mc::Ctx & c) { scenario(c, c.thorough ? d : k); }, thorough_only});
}

static Events upto(const std::vector<int> & alpha, int n)
{
  Events r;
  for (int i = 1; i <= n; ++i) for (auto & x : seqs(alpha, i)) r.push_back(x);
  return r;
}

int main(int argc, char ** argv)
{
#if defined(PROP_C20)
  sched::race_detection = false;
#endif
  Cfg mapping;
  Cfg pf;
  pf.node.pf = true;
  pf.node.map_file = "start";
  pf.before = 2;
  Cfg loc;
  loc.node.mapping = false;
  loc.node.map_file = "start";
  loc.before = 2;
  Cfg continued;               // mapping goes on in a loaded map
  continued.node.map_file = "start";
  continued.before = 1;
  auto with = [](Cfg k, const Events & e, int p, int w = 1) { k.events = e; k.preemptions = p; k.wakes = w; return k; };

#if defined(PROP_C19)
  const std::vector<int> all{SCAN, LOAD, DISABLE, ENABLE, POSE, SAVE};
  {
    Cfg d = with(mapping, upto(all, 3), 1);
    add("mapping", "fresh map of 3 scans; all event sequences up to 2 of {scan, load, disable, enable, initial pose, save}; 1 preemption, each thread wakes once", with(mapping, upto(all, 2), 1), &d);
  }
  {
    Cfg a = with(mapping, {{SCAN}, {SAVE}, {LOAD}, {DISABLE}}, 2), d = with(mapping, {{SCAN}, {LOAD}, {SCAN, SCAN}}, 3);
    add("mapping-deep", "fresh map of 3 scans; one event of {scan, save, load, disable}; 2 preemptions", a, &d);
  }
  {
    Cfg a = with(mapping, {{SCAN}, {SCAN, SCAN}, {SCAN, SAVE}, {SCAN, LOAD}, {SAVE, SCAN}, {DISABLE, ENABLE}}, 1);
    a.node.node_limit = 0;
    Cfg d = a;
    d.preemptions = 2;
    add("optimising", "the optimiser runs after every loop closure; 6 event sequences of up to 2; 1 preemption", a, &d);
  }
  {
    Cfg a = with(mapping, {{SCAN}, {SCAN, SCAN}, {SCAN, LOAD}}, 1, 2);
    a.accept = false;
    Cfg d = a;
    d.preemptions = 2;
    add("rejecting", "loop closures match badly; 3 event sequences; 1 preemption, threads wake twice", a, &d);
  }
  {
    Cfg d = with(pf, upto({SCAN, LOAD, POSE, SAVE, DISABLE}, 3), 2);
    add("particle-filter", "localisation by particle filter in a map of 4 scans; all sequences up to 2 of {scan, load, initial pose, save}; 1 preemption", with(pf, upto({SCAN, LOAD, POSE, SAVE}, 2), 1), &d);
  }
  {
    Cfg d = with(loc, upto(all, 3), 2);
    add("localisation", "localisation by matching in a map of 4 scans; all sequences up to 2 of the 6 events; 1 preemption", with(loc, upto(all, 2), 1), &d);
  }
  {
    Cfg d = with(continued, upto(all, 3), 1);
    add("continued", "mapping continued in a loaded map of 4 scans; all sequences up to 2 of the 6 events; 1 preemption", with(continued, upto(all, 2), 1), &d);
  }
  {
    Cfg a = with(mapping, {{SCAN}, {LOAD}}, 2), d = with(mapping, {{SCAN}, {SCAN, SCAN}, {SCAN, SCAN, SCAN}}, 2, 2);
    a.from_start = d.from_start = true;
    a.before = d.before = 0;
    a.node.depth = d.node.depth = 0;
    add("from-start", "exploration begins with the node; one event of {scan, load}; 2 preemptions", a, &d);
    Cfg e = with(mapping, {{SCAN, SCAN}, {SAVE, SCAN}, {SCAN, LOAD}}, 1);
    e.from_start = true;
    e.before = 0;
    e.node.depth = 0;
    add("from-start-2", "exploration begins with the node; two events; 1 preemption", e);
  }
  {
    Cfg a = with(continued, {{POSE}, {POSE, SCAN}, {SCAN, POSE}, {LOAD, POSE}}, 1), d = with(continued, {{POSE}, {POSE, SCAN}, {LOAD, POSE}}, 2);
    a.from_start = d.from_start = true;
    add("from-start-map", "exploration begins with the node, which loads a map; up to 2 events; 1 preemption", a, &d);
  }
  {
    Cfg a = with(mapping, {{}, {SCAN}, {SCAN, LOAD}}, 2), d = with(mapping, {{}, {SCAN}, {LOAD}}, 3);
    a.unload = d.unload = true;
    add("unload", "the component is unloaded while its threads are in any state; 2 preemptions", a, &d);
  }
  return mc::run(argc, argv, "C19", suites);
#endif
#if defined(PROP_C20)
  const std::vector<int> all{SCAN, LOAD, DISABLE, ENABLE, POSE, SAVE};
  {
    Cfg d = with(mapping, upto(all, 3), 1);
    add("mapping", "fresh map of 3 scans; all event sequences up to 2; 1 preemption", with(mapping, upto(all, 2), 1), &d);
  }
  {
    Cfg d = with(mapping, {{SCAN}, {LOAD}, {SCAN, SCAN}}, 3);
    add("mapping-deep", "one event; 2 preemptions", with(mapping, {{SCAN}, {LOAD}, {SAVE}, {DISABLE}}, 2), &d);
  }
  {
    Cfg a = with(mapping, {{SCAN}, {SCAN, SCAN}, {SCAN, LOAD}, {SAVE}}, 1, 2);
    a.node.node_limit = 0;
    Cfg d = a;
    d.preemptions = 2;
    add("optimising", "the optimiser runs after every loop closure; 1 preemption, threads wake twice", a, &d);
  }
  {
    Cfg a = with(mapping, {{SCAN}, {SCAN, SCAN}}, 2);
    a.accept = false;
    Cfg d = a;
    d.preemptions = 3;
    add("rejecting", "loop closures match badly: only the callback changes the map; 2 preemptions", a, &d);
  }
  {
    Cfg d = with(pf, upto({SCAN, LOAD, POSE, SAVE}, 3), 2);
    add("particle-filter", "sequences up to 2 of {scan, load, initial pose, save}; 1 preemption", with(pf, upto({SCAN, LOAD, POSE, SAVE}, 2), 1), &d);
  }
  {
    Cfg d = with(loc, upto(all, 3), 1);
    add("localisation", "all sequences up to 2 of the 6 events; 1 preemption", with(loc, upto(all, 2), 1), &d);
  }
  {
    Cfg d = with(continued, upto(all, 3), 1);
    add("continued", "mapping continued in a loaded map; all sequences up to 2; 1 preemption", with(continued, upto(all, 2), 1), &d);
    Cfg a = with(continued, {{LOAD, POSE}, {DISABLE, POSE}, {LOAD, POSE, SCAN}, {DISABLE, ENABLE, POSE}}, 1);
    a.accept = false;
    Cfg e = a;
    e.preemptions = 2;
    add("continued-rejecting", "mapping continued in a map after an initial pose, loop closures match badly; 1 preemption", a, &e);
  }
  {
    Cfg a = with(mapping, {{}, {SCAN}, {LOAD}}, 2), d = with(mapping, {{SCAN}, {SCAN, SCAN}, {SCAN, SCAN, SCAN}}, 2, 2);
    a.from_start = d.from_start = true;
    a.before = d.before = 0;
    add("from-start", "exploration begins with the node; up to 1 event; 2 preemptions", a, &d);
    Cfg e = with(mapping, {{SCAN, SCAN}, {SAVE, SCAN}}, 1);
    e.from_start = true;
    e.before = 0;
    add("from-start-2", "exploration begins with the node; two events; 1 preemption", e);
  }
  {
    Cfg a = with(continued, {{}, {POSE}, {POSE, SCAN}, {SCAN, POSE}, {LOAD, POSE}}, 1), d = with(continued, {{POSE}, {POSE, SCAN}, {LOAD, POSE}}, 2);
    a.from_start = d.from_start = true;
    add("from-start-map", "exploration begins with the node, which loads a map; 1 preemption", a, &d);
  }
  return mc::run(argc, argv, "C20", suites);
#endif
#if defined(PROP_C21)
  Events after;       // a map is loaded at any moment, and what comes next
  for (auto & x : seqs({SCAN, LOAD, POSE, DISABLE, ENABLE}, 1)) { after.push_back({LOAD, x[0]}); after.push_back({x[0], LOAD}); }
  after.push_back({LOAD});
  Events longer = after;
  for (auto & x : seqs({SCAN, POSE, LOAD, DISABLE, ENABLE}, 2)) longer.push_back({LOAD, x[0], x[1]});
  {
    Cfg d = with(mapping, longer, 2);
    add("mapping", "a map is loaded while mapping, before or after another event; 1 preemption; then localised and continued", with(mapping, after, 1), &d);
  }
  {
    Cfg a = with(mapping, {{LOAD, POSE, SCAN}, {SCAN, LOAD, POSE}, {LOAD, LOAD, POSE}}, 1), d = with(mapping, {{LOAD, POSE, SCAN}}, 2);
    add("mapping-on", "load, initial pose and scan while mapping; 1 preemption", a, &d);
  }
  {
    Cfg d = with(mapping, {{LOAD}}, 3);
    add("mapping-deep", "a map is loaded while mapping; 2 preemptions", with(mapping, {{LOAD}}, 2), &d);
  }
  {
    Cfg a = with(mapping, after, 1);
    a.node.node_limit = 0;
    Cfg d = a;
    d.preemptions = 2;
    add("optimising", "a map is loaded while mapping with the optimiser; 1 preemption", a, &d);
  }
  {
    Cfg a = with(mapping, {{DISABLE, LOAD, POSE}, {LOAD, DISABLE, POSE}, {DISABLE, POSE, LOAD}, {DISABLE, POSE, SCAN}}, 1), d = a;
    d.preemptions = 2;
    add("mapping-to-localisation", "mapping is disabled and a map is loaded; 1 preemption", a, &d);
  }
  {
    Cfg d = with(pf, longer, 1);
    add("particle-filter", "a map is loaded while localised by particle filter; 1 preemption", with(pf, {{LOAD}, {LOAD, SCAN}, {LOAD, POSE}, {SCAN, LOAD}, {LOAD, POSE, SCAN}, {POSE, LOAD}}, 1), &d);
  }
  {
    Cfg d = with(loc, longer, 1);
    add("localisation", "a map is loaded while localised by matching; 1 preemption", with(loc, {{LOAD}, {LOAD, SCAN}, {LOAD, POSE}, {SCAN, LOAD}, {LOAD, POSE, SCAN}, {LOAD, ENABLE}, {ENABLE, LOAD}, {ENABLE, SCAN, LOAD}}, 1), &d);
  }
  {
    Cfg d = with(continued, longer, 1);
    add("continued", "another map is loaded while mapping in a loaded one; 1 preemption", with(continued, after, 1), &d);
  }
  return mc::run(argc, argv, "C21", suites);
#endif
}
