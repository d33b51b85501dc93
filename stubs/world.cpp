#include <verif_world.hpp>
#include <cstdio>
#include <new>
#include <set>
#include <algorithm>
namespace verif
{
static World * g_world = nullptr;
static bool g_ok = true;
static std::set<std::string> g_declared;
bool (*ok_hook)() = nullptr;
void (*ignore_begin)() = nullptr;
void (*ignore_end)() = nullptr;
void (*publish_hook)(const std::string &, void *) = nullptr;

World & world() { if (!g_world) g_world = new World(); return *g_world; }
void world_reset() { Ignore i; delete g_world; g_world = new World(); g_ok = true; g_declared.clear(); }
void w_publish(const std::string & t, std::shared_ptr<void> m)
{
  Ignore i;
  if (publish_hook) publish_hook(t, m.get());
  world().published.push_back({t, m, ++world().seq, world().clock_ns});
}
void w_offer(const std::string & t, bool tl, bool rel) { Ignore i; world().offered[t] = {tl, rel}; }
void w_subscribe(const std::string & t, std::function<void(std::shared_ptr<void>)> cb) { Ignore i; world().subs[t] = cb; }
void w_service(const std::string & n, std::function<void(std::shared_ptr<void>, std::shared_ptr<void>)> cb) { Ignore i; world().srvs[n] = cb; }
bool w_param(const std::string & n, Param & out)
{
  Ignore i;
  auto it = world().params.find(n);
  if (it == world().params.end()) return false;
  out = it->second;
  return true;
}
bool w_declare(const std::string & n) { Ignore i; return g_declared.insert(n).second; }
void w_undeclare_all() { Ignore i; g_declared.clear(); }
bool w_tf(const std::string & a, const std::string & b, int64_t t, TfAnswer & out)
{
  Ignore i;
  if (a == b) { out = TfAnswer(); return true; }
  if (!world().tf) return false;
  return world().tf(a, b, t, out);
}
int w_tf_error() { return world().tf_error; }
bool w_ok() { if (ok_hook) return ok_hook(); return g_ok; }
void w_set_ok(bool ok) { g_ok = ok; }
int64_t w_now() { Ignore i; return world().clock_ns; }
void w_log(const char * l, const std::string & s)
{
  Ignore i;
  if (!world().quiet) fprintf(stderr, "[%s] %s\n", l, s.c_str());
}
static void tick()
{
  if (world().bag_fail_at >= 0 && world().bag_ops++ == world().bag_fail_at)
  {
    if (world().bag_error == 1) throw std::bad_alloc();
    throw std::runtime_error("injected storage failure");
  }
  else if (world().bag_fail_at < 0) world().bag_ops++;
}
void w_bag_open_write(const std::string & f)
{
  Ignore i;
  tick();
  if (f.empty()) throw std::runtime_error("empty bag name");
  if (world().disk.count(f) && world().bag_refuse_existing)
    throw std::runtime_error("Bag directory already exists (" + f + "), can't overwrite existing bag");
  world().disk[f] = Bag();
}
void w_bag_write(const std::string & f, BagMsg m) { Ignore i; tick(); world().disk[f].push_back(std::move(m)); }
void w_bag_close(const std::string &) { Ignore i; }
bool w_bag_exists(const std::string & f) { Ignore i; return world().disk.count(f) > 0; }
Bag w_bag_open_read(const std::string & f)
{
  Ignore i;
  tick();
  auto it = world().disk.find(f);
  if (it == world().disk.end()) throw std::runtime_error("No storage could be initialized from " + f);
  Bag b = it->second;
  std::stable_sort(b.begin(), b.end(), [](const BagMsg & x, const BagMsg & y) {return x.stamp < y.stamp;});
  return b;
}
void w_bag_read_tick() { Ignore i; tick(); }

// Randomness: decided by the harness through these hooks; without a hook, the most likely outcome.
double (*normal_hook)(double, double) = nullptr;
size_t (*discrete_hook)(const std::vector<double> &) = nullptr;
double (*unit_hook)() = nullptr;
double rnd_normal(double m, double s) { return normal_hook ? normal_hook(m, s) : m; }
size_t rnd_discrete(const std::vector<double> & w)
{
  if (discrete_hook) return discrete_hook(w);
  size_t b = 0;
  for (size_t i = 1; i < w.size(); ++i) if (w[i] > w[b]) b = i;
  return b;
}
double rnd_unit() { return unit_hook ? unit_hook() : 0.5; }
long long rnd_int(long long a, long long b) { return a + static_cast<long long>((unit_hook ? unit_hook() : 0.0) * (b - a + 1)); }
unsigned rnd_device() { return 42u; }
}  // namespace verif
