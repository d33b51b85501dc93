// The closed environment that replaces ROS: everything a node can ask of it is decided by the
// harness and everything it emits is recorded.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

namespace verif
{
using Param = std::variant<bool, int64_t, double, std::string>;

struct TfAnswer
{
  double x = 0, y = 0, z = 0;
  double qx = 0, qy = 0, qz = 0, qw = 1;
};

struct BagMsg
{
  std::string topic, type;
  std::vector<uint8_t> data;
  int64_t stamp = 0;
};
using Bag = std::vector<BagMsg>;

struct World
{
  // --- answers of the environment, set by the harness
  std::map<std::string, Param> params;
  // target, source, time in ns (-1: latest) -> answer, or false for "not available"
  std::function<bool(const std::string &, const std::string &, int64_t, TfAnswer &)> tf;
  double tf_wait = 0;        // how long the lookup being answered is prepared to wait, in seconds
  int tf_error = 0;          // kind of exception when a transform is not available
  int bag_error = 0;         // kind of exception of the storage: 0 runtime_error, 1 bad_alloc
  // -1: never fail; n: the n-th bag operation from now on throws
  int64_t bag_fail_at = -1;
  bool bag_refuse_existing = true;
  int64_t clock_ns = 1000000000;
  bool quiet = true;
  // --- what the node did
  std::map<std::string, Bag> disk;
  int64_t bag_ops = 0;
  struct Out { std::string topic; std::shared_ptr<void> msg; uint64_t seq; int64_t clock; };
  struct Offered { bool transient_local, reliable; };
  std::map<std::string, Offered> offered;    // how a topic is published
  std::vector<Out> published;
  uint64_t seq = 0;
  std::map<std::string, std::function<void(std::shared_ptr<void>)>> subs;
  std::map<std::string, std::function<void(std::shared_ptr<void>, std::shared_ptr<void>)>> srvs;
  std::vector<std::string> log;
};

World & world();
void world_reset();

// Entry points used by the stand-ins (they hide the bookkeeping from the race detector)
void w_publish(const std::string & topic, std::shared_ptr<void> msg);
void w_offer(const std::string & topic, bool transient_local, bool reliable);
void w_subscribe(const std::string & topic, std::function<void(std::shared_ptr<void>)> cb);
void w_service(const std::string & name, std::function<void(std::shared_ptr<void>, std::shared_ptr<void>)> cb);
bool w_param(const std::string & name, Param & out);
bool w_declare(const std::string & name);   // false if already declared
bool w_tf(const std::string & target, const std::string & source, int64_t t, TfAnswer & out);
int w_tf_error();
bool w_ok();
void w_set_ok(bool ok);
int64_t w_now();
void w_log(const char * level, const std::string & text);
void w_bag_open_write(const std::string & file);
void w_bag_write(const std::string & file, BagMsg msg);
void w_bag_close(const std::string & file);
Bag w_bag_open_read(const std::string & file);
void w_bag_read_tick();
bool w_bag_exists(const std::string & file);
void w_undeclare_all();

// Overridable by the controlled scheduler
extern bool (*ok_hook)();
extern void (*ignore_begin)();
extern void (*ignore_end)();
struct Ignore
{
  Ignore() { if (ignore_begin) ignore_begin(); }
  ~Ignore() { if (ignore_end) ignore_end(); }
};
extern void (*publish_hook)(const std::string & topic, void * msg);
extern double (*normal_hook)(double mean, double sd);
extern size_t (*discrete_hook)(const std::vector<double> & weights);
extern double (*unit_hook)();
}  // namespace verif
#endif
