#include "sched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <cxxabi.h>
#include <algorithm>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>
#include <verif_world.hpp>

extern "C" char __libc_single_threaded;

namespace sched
{
static const int MAXT = 5;
static const size_t STACK = 1 << 20;
struct VC
{
  uint32_t c[MAXT] = {0};
  void join(const VC & o) { for (int i = 0; i < MAXT; ++i) c[i] = std::max(c[i], o.c[i]); }
};
enum State { FREE, RUN, MUTEX, JOIN, COND, SLEEP, SETTLE, DONE };
struct Thread
{
  State st = FREE;
  ucontext_t ctx;
  char * stack = nullptr;
  const void * obj = nullptr;
  int join_on = -1;
  bool timed = false;        // COND with a timeout: may also be woken up like a sleeper
  bool timed_out = false;
  int64_t deadline = 0;      // on the virtual clock, for a sleeper
  bool detached = false;
  VC vc;
  void * (*fn)(void *) = nullptr;
  void * arg = nullptr;
  void * ret = nullptr;
  struct { void * a; unsigned b; } eh = {nullptr, 0};
  int quiet = 0;
  int wakes = 0;             // left while exploring
  uint64_t ops = 0, slept = 0, last_woken = 0;
  int settle_left = 0;
};
static Thread T[MAXT];
static int nthreads = 0, cur = -1;
static bool active = false, exploring = false;
static int budget = 0, bound = 0;
static int forced = 0;                    // wake-ups beyond what was asked for
static mc::Ctx * ctx = nullptr;
static ucontext_t main_ctx;
static const std::function<void()> * driver_body = nullptr;
static enum { NONE, FAILED, SKIPPED, DRIVER_FAILED } abandoned = NONE;
static int settle_target = -1;
static uint64_t tick = 0;
// Time for the threads: stands still, except that it is at least the deadline of whoever was woken up by it
static int64_t vclock = 0;
static const int64_t MONOTONIC0 = 1000000000000ll, REALTIME0 = 1700000000000000000ll;
static int64_t base_of(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REALTIME0 : MONOTONIC0; }
static int64_t ns(const timespec * t) { return int64_t(t->tv_sec) * 1000000000ll + t->tv_nsec; }
bool race_detection = true;
uint64_t n_points = 0, n_accesses = 0;

struct Mutex { int owner = -1; int count = 0; VC vc; std::vector<int> readers; VC rvc; };
static std::unordered_map<const void *, Mutex> * mutexes;
static std::unordered_map<const void *, VC> * atomics;

// ---------------------------------------------------------------- shadow memory
struct Shadow
{
  uintptr_t granule;
  uint32_t gen;
  uint8_t freed;
  uint8_t wmask[MAXT], rmask[MAXT];
  uint32_t wclk[MAXT], rclk[MAXT];
  uint32_t wpc[MAXT], rpc[MAXT];    // relative to code_base
};
static const size_t NSH = 1 << 18;
static uintptr_t code_base = 0;
static Shadow * shadow = nullptr;
static uint32_t gen = 0;
static size_t shadow_used = 0;
static std::vector<std::pair<void *, bool>> * quarantine;   // bool: from operator new

static Shadow * slot(uintptr_t g, bool create)
{
  size_t h = (g * 0x9E3779B97F4A7C15ULL) >> 46;
  for (size_t i = 0; i < 64; ++i) {
    Shadow * s = &shadow[(h + i) & (NSH - 1)];
    if (s->gen != gen) {
      if (!create) return nullptr;
      memset(s, 0, sizeof(*s));
      s->gen = gen;
      s->granule = g;
      ++shadow_used;
      return s;
    }
    if (s->granule == g) return s;
  }
  return nullptr;
}

static std::string where(uintptr_t pc)
{
  Dl_info di;
  uintptr_t base = 0;
  if (dladdr(reinterpret_cast<void *>(pc), &di)) base = reinterpret_cast<uintptr_t>(di.dli_fbase);
  char cmd[256], exe[200];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
  if (n <= 0) return "?";
  exe[n] = 0;
  snprintf(cmd, sizeof(cmd), "addr2line -C -f -i -e '%s' 0x%lx 2>/dev/null", exe, static_cast<unsigned long>(pc - base - 1));
  std::string out, best;
  FILE * f = popen(cmd, "r");
  if (!f) return "?";
  char b[512];
  std::string fn;
  bool odd = true;
  while (fgets(b, sizeof(b), f)) {
    std::string l(b);
    while (!l.empty() && l.back() == '\n') l.pop_back();
    if (odd) fn = l;
    else {
      out = fn + " at " + l;
      if (best.empty() && l.find("/usr/") == std::string::npos) best = out;
    }
    odd = !odd;
  }
  pclose(f);
  return best.empty() ? out : best;
}
static const char * tname(int t)
{
  static const char * n[] = {"callback thread", "background thread 1", "background thread 2", "background thread 3",
    "background thread 4", "background thread 5", "background thread 6", "background thread 7"};
  return n[t];
}

static void to_main()
{
  active = false;
  setcontext(&main_ctx);
  abort();
}

void fail(const char * fmt, ...)
{
  char b[3500];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof(b), fmt, a);
  va_end(a);
  active = false;
  if (!ctx->failed) { ctx->failed = true; ctx->message = b; }
  abandoned = FAILED;
  to_main();
  abort();
}

static void race(const char * what, Shadow *, int other, bool owrite, uintptr_t opc, bool write, uintptr_t pc)
{
  active = false;
  std::string a = where(pc), b = where(opc);
  fail("%s: %s %s in %s, and %s %s in %s, without synchronisation", what, tname(cur), write ? "writes" : "reads", a.c_str(),
    tname(other), owrite ? "wrote" : "read", b.c_str());
}

static inline void one(uintptr_t g, uint8_t mask, bool write, uintptr_t pc)
{
  Shadow * s = slot(g, true);
  if (!s) return;
  if (s->freed & mask) {
    std::string a = (active = false, where(pc));
    fail("use after free: %s %s memory that was freed, in %s", tname(cur), write ? "writes" : "reads", a.c_str());
  }
  const VC & v = T[cur].vc;
  for (int t = 0; t < nthreads; ++t) {
    if (t == cur) continue;
    if ((s->wmask[t] & mask) && s->wclk[t] > v.c[t]) race("data race", s, t, true, s->wpc[t] + code_base, write, pc);
    if (write && (s->rmask[t] & mask) && s->rclk[t] > v.c[t]) race("data race", s, t, false, s->rpc[t] + code_base, write, pc);
  }
  uint8_t * m = write ? s->wmask : s->rmask;
  uint32_t * k = write ? s->wclk : s->rclk;
  uint32_t * p = write ? s->wpc : s->rpc;
  if (k[cur] == v.c[cur]) m[cur] |= mask;
  else { m[cur] = mask; k[cur] = v.c[cur]; }
  p[cur] = static_cast<uint32_t>(pc - code_base);
}

static inline bool hidden() { return !active || cur < 0 || T[cur].quiet > 0; }

static void acc(const void * p, size_t n, bool write, void * pcv)
{
  if (hidden() || !race_detection || n == 0) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  uintptr_t lo = reinterpret_cast<uintptr_t>(T[cur].stack);
  if (a >= lo && a < lo + STACK) return;     // own stack
  ++n_accesses;
  uintptr_t pc = reinterpret_cast<uintptr_t>(pcv), e = a + n;
  while (a < e) {
    uintptr_t g = a >> 3;
    unsigned from = a & 7, to = std::min<uintptr_t>(8, from + (e - a));
    one(g, static_cast<uint8_t>(((1u << to) - 1) & ~((1u << from) - 1)), write, pc);
    a += to - from;
  }
}

// ---------------------------------------------------------------- switching
static void save_eh(Thread & t) { memcpy(&t.eh, abi::__cxa_get_globals(), sizeof(t.eh)); }
static void load_eh(Thread & t) { memcpy(static_cast<void *>(abi::__cxa_get_globals()), &t.eh, sizeof(t.eh)); }

static void switch_to(int n)
{
  if (n == cur) return;
  int me = cur;
  int e = errno;
  save_eh(T[me]);
  cur = n;
  load_eh(T[n]);
  swapcontext(&T[me].ctx, &T[n].ctx);
  errno = e;
}

static int choose(int n, const char * what)
{
  try {
    return ctx->choose(n, what);
  } catch (mc::Skip &) {
    abandoned = SKIPPED;
  }
  to_main();
  return 0;
}

// The runtime's own work is nobody's memory access (it shares template instances with the harness)
struct RT
{
  int t;
  RT() : t(cur) { T[t].quiet++; }
  ~RT() { T[t].quiet--; }
};

int decide(int n, const char * what)
{
  RT rt;
  return choose(n, what);
}
static bool can_wake(const Thread & t)
{
  return (t.st == SLEEP || (t.st == COND && t.timed)) && t.wakes > 0;
}
static void wake(int t, bool charge)
{
  if (T[t].st == SLEEP || T[t].st == COND) {
    if (charge) T[t].wakes--;
    if (T[t].st == COND) T[t].timed_out = true;
    T[t].st = RUN;
    T[t].last_woken = ++tick;
    verif::world().clock_ns += 1000000;
    vclock = std::max(vclock, T[t].deadline);
  }
}
static void go(int t)
{
  if (T[t].st != RUN) wake(t, true);
  switch_to(t);
}
static std::string describe()
{
  std::string s;
  static const char * n[] = {"-", "can run", "waits for a lock", "waits for a thread to end", "waits for a condition", "sleeps", "waits", "ended"};
  for (int t = 0; t < nthreads; ++t) {
    s += std::string(t ? ", " : "") + tname(t) + " " + n[T[t].st];
    if (T[t].st == MUTEX) {
      auto it = mutexes->find(T[t].obj);
      if (it != mutexes->end() && it->second.owner >= 0) s += std::string(" held by ") + (it->second.owner == t ? "itself" : tname(it->second.owner));
    }
  }
  return s;
}

static void hash_state()
{
  uint64_t h = 17;
  for (int t = 0; t < nthreads; ++t) h = mc::mix(h, T[t].ops * 16 + T[t].st);
  ctx->state(mc::mix(h, cur));
}

// The current thread cannot (or will not) continue: who does?
static void resched()
{
  std::vector<int> cand;
  for (int t = 0; t < nthreads; ++t) if (T[t].st == RUN) cand.push_back(t);
  if (exploring) {
    for (int t = 0; t < nthreads; ++t) if (can_wake(T[t])) cand.push_back(t);
    if (!cand.empty()) {
      int k = cand.size() > 1 ? choose(static_cast<int>(cand.size()), "who runs next") : 0;
      go(cand[k]);
      return;
    }
  } else if (!cand.empty()) {
    // one that is being waited for, otherwise the first
    for (int t : cand) if (t == settle_target) { switch_to(t); return; }
    switch_to(cand[0]);
    return;
  }
  // only sleepers: time passes
  int best = -1;
  for (int t = 0; t < nthreads; ++t) {
    if (T[t].st == SLEEP || (T[t].st == COND && T[t].timed)) {
      if (best < 0 || T[t].last_woken < T[best].last_woken) best = t;
    }
  }
  if (best < 0) fail("deadlock: %s", describe().c_str());
  if (++forced > 200) fail("waits for ever: %s", describe().c_str());
  wake(best, false);
  switch_to(best);
}

static void point_()
{
  Thread & me = T[cur];
  me.ops++;
  ++n_points;
  ctx->transitions++;
  if (!exploring) return;
  hash_state();
  if (budget <= 0) return;
  int cand[MAXT], n = 0;
  for (int t = 0; t < nthreads; ++t) {
    if (t != cur && (T[t].st == RUN || can_wake(T[t]))) cand[n++] = t;
  }
  if (!n) return;
  int k = choose(n + 1, "preempt");
  if (k) { --budget; go(cand[k - 1]); }
}

void point(int)
{
  if (hidden()) return;
  RT rt;
  point_();
}

void idle()
{
  if (!active) return;
  RT rt;
  Thread & me = T[cur];
  me.ops++;
  ctx->transitions++;
  if (!exploring) return;
  hash_state();
  int cand[MAXT], n = 0;
  for (int t = 0; t < nthreads; ++t) {
    if (t != cur && (T[t].st == RUN || can_wake(T[t]))) cand[n++] = t;
  }
  if (!n) return;
  int k = choose(n + 1, "who runs");
  if (k) go(cand[k - 1]);
}

void explore(int p, int w)
{
  exploring = true;
  bound = budget = p;
  for (int t = 0; t < nthreads; ++t) T[t].wakes = w;
}
void stop() { exploring = false; }
int self() { return cur; }
int preemptions_used() { return bound - budget; }
int alive()
{
  int n = 0;
  for (int t = 1; t < nthreads; ++t) if (T[t].st != DONE) ++n;
  return n;
}

static void settled()
{
  // called by a thread that sleeps or ends
  if (settle_target == cur && (T[cur].st == DONE || --T[cur].settle_left <= 0)) {
    settle_target = -1;
    if (T[0].st == SETTLE) T[0].st = RUN;
  }
}

void settle(int rounds)
{
  RT rt;
  bool was = exploring;
  exploring = false;
  for (int r = 0; r < rounds; ++r) {
    for (int t = 1; t < nthreads; ++t) {
      if (T[t].st == DONE) continue;
      T[t].settle_left = 1;
      settle_target = t;
      T[0].st = SETTLE;
      if (T[t].st == SLEEP || (T[t].st == COND && T[t].timed)) wake(t, false);
      if (T[t].st == RUN) switch_to(t);
      else resched();
      // back when it has slept
    }
  }
  exploring = was;
}

static void do_sleep(int64_t deadline)
{
  RT rt;
  Thread & me = T[cur];
  me.deadline = deadline;
  me.ops++;
  ctx->transitions++;
  me.slept++;
  me.st = SLEEP;
  settled();
  if (T[0].st == RUN && !exploring && cur != 0) { switch_to(0); return; }
  resched();
}

static void finish_thread()
{
  T[cur].quiet++;
  Thread & me = T[cur];
  me.st = DONE;
  for (int t = 0; t < nthreads; ++t) if (T[t].st == JOIN && T[t].join_on == cur) T[t].st = RUN;
  settled();
  if (cur == 0) { to_main(); }
  resched();
  abort();
}

static void trampoline()
{
  if (cur == 0) {
    try {
      (*driver_body)();
      if (alive()) { ctx->failed = true; ctx->message = "threads are still running: " + describe(); abandoned = FAILED; }
    } catch (mc::Failed &) {
      abandoned = DRIVER_FAILED;
    } catch (mc::Skip &) {
      abandoned = SKIPPED;
    } catch (std::exception & e) {
      if (!ctx->failed) { ctx->failed = true; ctx->message = std::string("uncaught exception: ") + e.what(); }
      abandoned = FAILED;
    }
    to_main();
  }
  try {
    T[cur].ret = T[cur].fn(T[cur].arg);
  } catch (std::exception & e) {
    fail("uncaught exception in %s: %s", tname(cur), e.what());
  }
  finish_thread();
}

static int spawn(void * (*fn)(void *), void * arg)
{
  if (nthreads >= MAXT) return -1;
  int t = nthreads++;
  Thread & n = T[t];
  char * stack = n.stack;
  n.~Thread();
  new (&n) Thread();
  n.stack = stack;
  if (!n.stack) {
    n.stack = static_cast<char *>(mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(n.stack, 4096, PROT_NONE);
    n.stack += 4096;
  }
  n.fn = fn;
  n.arg = arg;
  getcontext(&n.ctx);
  n.ctx.uc_stack.ss_sp = n.stack;
  n.ctx.uc_stack.ss_size = STACK;
  n.ctx.uc_link = nullptr;
  makecontext(&n.ctx, trampoline, 0);
  if (cur >= 0) {
    n.vc = T[cur].vc;
    T[cur].vc.c[cur]++;
    n.wakes = T[cur].wakes;
  }
  n.vc.c[t] = 1;
  n.st = RUN;
  return t;
}

static void ign_begin() { if (active && cur >= 0) T[cur].quiet++; }
static void ign_end() { if (active && cur >= 0) T[cur].quiet--; }
Quiet::Quiet() { ign_begin(); }
Quiet::~Quiet() { ign_end(); }

static void free_quarantine();

void run(mc::Ctx & c, const std::function<void()> & body)
{
  __libc_single_threaded = 0;
  Dl_info di;
  if (!code_base && dladdr(reinterpret_cast<void *>(&where), &di)) code_base = reinterpret_cast<uintptr_t>(di.dli_fbase);
  if (!shadow) shadow = static_cast<Shadow *>(mmap(nullptr, NSH * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  ++gen;
  shadow_used = 0;
  verif::ignore_begin = ign_begin;
  verif::ignore_end = ign_end;
  delete mutexes; mutexes = new std::unordered_map<const void *, Mutex>();
  delete atomics; atomics = new std::unordered_map<const void *, VC>();
  if (!quarantine) quarantine = new std::vector<std::pair<void *, bool>>();
  ctx = &c;
  driver_body = &body;
  abandoned = NONE;
  nthreads = 0;
  cur = -1;
  exploring = false;
  budget = forced = 0;
  settle_target = -1;
  tick = 0;
  vclock = 0;
  int t = spawn(nullptr, nullptr);
  struct { void * a; unsigned b; } eh;
  memcpy(&eh, abi::__cxa_get_globals(), sizeof(eh));
  volatile bool back = false;
  getcontext(&main_ctx);
  if (!back) {
    back = true;
    cur = t;
    active = true;
    load_eh(T[t]);
    setcontext(&T[t].ctx);
  }
  active = false;
  cur = -1;
  memcpy(static_cast<void *>(abi::__cxa_get_globals()), &eh, sizeof(eh));
  free_quarantine();
  if (abandoned == SKIPPED) throw mc::Skip();
  if (abandoned == FAILED || abandoned == DRIVER_FAILED) throw mc::Failed();
}

// ---------------------------------------------------------------- memory
static void clear_range(void * p, size_t n)
{
  if (!race_detection) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + n + 7) >> 3;
  for (; a < e; ++a) {
    Shadow * s = slot(a, false);
    if (s) { memset(s->wmask, 0, sizeof(s->wmask)); memset(s->rmask, 0, sizeof(s->rmask)); s->freed = 0; }
  }
}
static bool retire(void * p, bool cxx, size_t n, void * pc)
{
  // true: kept in quarantine, do not free now
  if (!active || cur < 0 || !p) return false;
  if (!hidden() && race_detection && n <= 1024) {
    acc(p, n & ~7ull ? n & ~7ull : n, true, pc);
    uintptr_t a = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + n) >> 3;
    for (; a < e; ++a) { Shadow * s = slot(a, true); if (s) s->freed = 0xff; }
  } else {
    return false;
  }
  int q = T[cur].quiet++;
  quarantine->push_back({p, cxx});
  T[cur].quiet = q;
  return true;
}
}  // namespace sched

#include <malloc.h>
extern "C" void * __real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" void * __real_calloc(size_t, size_t);
extern "C" void * __real_realloc(void *, size_t);
namespace sched
{
static void free_quarantine()
{
  for (auto & q : *quarantine) __real_free(q.first);
  quarantine->clear();
}
static void * fresh(void * p)
{
  if (p && active && cur >= 0) clear_range(p, malloc_usable_size(p));
  return p;
}
}
extern "C" void * __wrap_malloc(size_t n) { return sched::fresh(__real_malloc(n)); }
extern "C" void * __wrap_calloc(size_t a, size_t b) { return sched::fresh(__real_calloc(a, b)); }
extern "C" void * __wrap_realloc(void * p, size_t n) { return sched::fresh(__real_realloc(p, n)); }
extern "C" void __wrap_free(void * p)
{
  if (p && sched::active && sched::retire(p, false, malloc_usable_size(p), __builtin_return_address(0))) return;
  __real_free(p);
}
static void * cxx_new(size_t n)
{
  void * p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return sched::fresh(p);
}
static void cxx_delete(void * p, void * pc)
{
  if (p && sched::active && sched::retire(p, true, malloc_usable_size(p), pc)) return;
  __real_free(p);
}
static void * cxx_new_al(size_t n, size_t al)
{
  void * p = nullptr;
  if (posix_memalign(&p, al < 16 ? 16 : al, n ? n : 1)) throw std::bad_alloc();
  return sched::fresh(p);
}
void * operator new(size_t n) { return cxx_new(n); }
void * operator new[](size_t n) { return cxx_new(n); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return sched::fresh(__real_malloc(n)); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return sched::fresh(__real_malloc(n)); }
void * operator new(size_t n, std::align_val_t a) { return cxx_new_al(n, size_t(a)); }
void * operator new[](size_t n, std::align_val_t a) { return cxx_new_al(n, size_t(a)); }
#define PC __builtin_return_address(0)
void operator delete(void * p) noexcept { cxx_delete(p, PC); }
void operator delete[](void * p) noexcept { cxx_delete(p, PC); }
void operator delete(void * p, size_t) noexcept { cxx_delete(p, PC); }
void operator delete[](void * p, size_t) noexcept { cxx_delete(p, PC); }
void operator delete(void * p, std::align_val_t) noexcept { cxx_delete(p, PC); }
void operator delete[](void * p, std::align_val_t) noexcept { cxx_delete(p, PC); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { cxx_delete(p, PC); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { cxx_delete(p, PC); }
void operator delete(void * p, const std::nothrow_t &) noexcept { cxx_delete(p, PC); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { cxx_delete(p, PC); }

// ---------------------------------------------------------------- what the compiler calls
using sched::acc;
extern "C" {
void * __real_memcpy(void *, const void *, size_t);
void * __real_memmove(void *, const void *, size_t);
void * __real_memset(void *, int, size_t);
void * __wrap_memcpy(void * d, const void * s, size_t n) { acc(s, n, false, PC); acc(d, n, true, PC); return __real_memcpy(d, s, n); }
void * __wrap_memmove(void * d, const void * s, size_t n) { acc(s, n, false, PC); acc(d, n, true, PC); return __real_memmove(d, s, n); }
void * __wrap_memset(void * d, int v, size_t n) { acc(d, n, true, PC); return __real_memset(d, v, n); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void * p) { acc(p, n, false, PC); } \
  void __tsan_write##n(void * p) { acc(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void * p) { acc(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void * p) { acc(p, n, true, PC); } \
  void __tsan_volatile_read##n(void * p) { acc(p, n, false, PC); } \
  void __tsan_volatile_write##n(void * p) { acc(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void * p) { acc(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void * p) { acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, long n) { acc(p, n, false, PC); }
void __tsan_write_range(void * p, long n) { acc(p, n, true, PC); }
void __tsan_vptr_read(void ** p) { acc(p, 8, false, PC); }
void __tsan_vptr_update(void ** p, void * v) { if (*p != v) acc(p, 8, true, PC); }
}

// ---------------------------------------------------------------- atomics
namespace sched
{
static void a_acquire(const void * p, int mo)
{
  if (hidden() || mo == __ATOMIC_RELAXED) return;
  T[cur].quiet++;
  auto it = atomics->find(p);
  if (it != atomics->end()) T[cur].vc.join(it->second);
  T[cur].quiet--;
}
static void a_release(const void * p, int mo, bool rmw)
{
  if (hidden()) return;
  T[cur].quiet++;
  if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME) {
    if (!rmw) (*atomics)[p] = VC();    // a relaxed store ends the release sequence
  } else {
    VC & v = (*atomics)[p];
    if (rmw) v.join(T[cur].vc);
    else v = T[cur].vc;
    T[cur].vc.c[cur]++;
  }
  T[cur].quiet--;
}
static void uaf(const void * p, size_t n, void * pc)
{
  if (hidden() || !race_detection) return;
  Shadow * s = slot(reinterpret_cast<uintptr_t>(p) >> 3, false);
  if (s && s->freed) {
    std::string a = (active = false, where(reinterpret_cast<uintptr_t>(pc)));
    fail("use after free: %s uses an atomic in memory that was freed, in %s", tname(cur), a.c_str());
  }
}
}
#define ATOMICS(bits, type) \
  extern "C" type __tsan_atomic##bits##_load(const volatile type * p, int mo) \
  { sched::point(); sched::uaf((const void *)p, bits / 8, PC); sched::a_acquire((const void *)p, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  extern "C" void __tsan_atomic##bits##_store(volatile type * p, type v, int mo) \
  { sched::point(); sched::uaf((const void *)p, bits / 8, PC); sched::a_release((const void *)p, mo, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" type __tsan_atomic##bits##_exchange(volatile type * p, type v, int mo) \
  { sched::point(); sched::uaf((const void *)p, bits / 8, PC); sched::a_acquire((const void *)p, mo); sched::a_release((const void *)p, mo, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" type __tsan_atomic##bits##_fetch_add(volatile type * p, type v, int mo) \
  { sched::uaf((const void *)p, bits / 8, PC); sched::a_acquire((const void *)p, mo); sched::a_release((const void *)p, mo, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" type __tsan_atomic##bits##_fetch_sub(volatile type * p, type v, int mo) \
  { sched::uaf((const void *)p, bits / 8, PC); sched::a_acquire((const void *)p, mo); sched::a_release((const void *)p, mo, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" type __tsan_atomic##bits##_fetch_and(volatile type * p, type v, int mo) \
  { sched::point(); sched::a_acquire((const void *)p, mo); sched::a_release((const void *)p, mo, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" type __tsan_atomic##bits##_fetch_or(volatile type * p, type v, int mo) \
  { sched::point(); sched::a_acquire((const void *)p, mo); sched::a_release((const void *)p, mo, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" type __tsan_atomic##bits##_fetch_xor(volatile type * p, type v, int mo) \
  { sched::point(); sched::a_acquire((const void *)p, mo); sched::a_release((const void *)p, mo, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" type __tsan_atomic##bits##_fetch_nand(volatile type * p, type v, int mo) \
  { sched::point(); sched::a_acquire((const void *)p, mo); sched::a_release((const void *)p, mo, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  static bool cas##bits(volatile type * p, type * e, type v, int mo) \
  { sched::point(); type old = *e; bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); (void)old; \
    sched::a_acquire((const void *)p, mo); if (ok) sched::a_release((const void *)p, mo, true); return ok; } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile type * p, type * e, type v, int mo, int) { return cas##bits(p, e, v, mo); } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile type * p, type * e, type v, int mo, int) { return cas##bits(p, e, v, mo); } \
  extern "C" type __tsan_atomic##bits##_compare_exchange_val(volatile type * p, type e, type v, int mo, int) { cas##bits(p, &e, v, mo); return e; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- pthread
template <class F> static F real(const char * n)
{
  void * p = dlsym(RTLD_NEXT, n);
  return reinterpret_cast<F>(p);
}
// Locks inside of other libraries are none of our business
static bool foreign(void * pc)
{
  static std::map<void *, bool> * cache = new std::map<void *, bool>();
  auto it = cache->find(pc);
  if (it != cache->end()) return it->second;
  Dl_info di, me;
  bool f = false;
  if (dladdr(pc, &di) && dladdr(reinterpret_cast<void *>(&foreign), &me)) {
    f = di.dli_fbase != me.dli_fbase && !(di.dli_fname && strstr(di.dli_fname, "libstdc++"));
  }
  (*cache)[pc] = f;
  return f;
}
namespace sched
{
static bool mine(void * pc)
{
  if (hidden()) return false;
  T[cur].quiet++;
  bool m = !foreign(pc);
  T[cur].quiet--;
  return m;
}
static Mutex & mx(const void * m)
{
  T[cur].quiet++;
  Mutex & r = (*mutexes)[m];
  T[cur].quiet--;
  return r;
}
static void wake_waiters(const void * m) { for (int t = 0; t < nthreads; ++t) if (T[t].st == MUTEX && T[t].obj == m) T[t].st = RUN; }
static void lock(const void * m, bool recursive, bool do_point = true)
{
  RT rt;
  if (recursive && mx(m).owner == cur) do_point = false;    // nobody can get in between
  if (do_point) point_();
  while (true) {
    Mutex & x = mx(m);
    if ((x.owner < 0 && x.readers.empty()) || (recursive && x.owner == cur)) break;
    T[cur].st = MUTEX;
    T[cur].obj = m;
    resched();
  }
  Mutex & x = mx(m);
  x.owner = cur;
  x.count++;
  T[cur].vc.join(x.vc);
  T[cur].vc.join(x.rvc);
}
static bool trylock(const void * m, bool recursive)
{
  RT rt;
  point_();
  Mutex & x = mx(m);
  if (!((x.owner < 0 && x.readers.empty()) || (recursive && x.owner == cur))) return false;
  x.owner = cur;
  x.count++;
  T[cur].vc.join(x.vc);
  T[cur].vc.join(x.rvc);
  return true;
}
static void unlock(const void * m)
{
  RT rt;
  Mutex & x = mx(m);
  if (x.owner != cur) {
    // shared owner?
    for (size_t i = 0; i < x.readers.size(); ++i) {
      if (x.readers[i] == cur) {
        T[cur].quiet++;
        x.readers.erase(x.readers.begin() + i);
        x.rvc.join(T[cur].vc);
        T[cur].quiet--;
        T[cur].vc.c[cur]++;
        wake_waiters(m);
        return;
      }
    }
    fail("%s releases a lock it does not hold", tname(cur));
  }
  if (--x.count > 0) return;
  x.owner = -1;
  x.vc = T[cur].vc;
  T[cur].vc.c[cur]++;
  wake_waiters(m);
}
static void rdlock(const void * m)
{
  RT rt;
  point_();
  while (true) {
    Mutex & x = mx(m);
    if (x.owner < 0) break;
    T[cur].st = MUTEX;
    T[cur].obj = m;
    resched();
  }
  Mutex & x = mx(m);
  T[cur].quiet++;
  x.readers.push_back(cur);
  T[cur].quiet--;
  T[cur].vc.join(x.vc);
}
static int cond_wait(const void * c, const void * m, bool timed, int64_t deadline = 0)
{
  RT rt;
  unlock(m);
  T[cur].obj = c;
  T[cur].timed = timed;
  T[cur].deadline = deadline;
  T[cur].timed_out = false;
  T[cur].st = COND;
  T[cur].ops++;
  if (timed) { T[cur].slept++; settled(); }
  if (timed && T[0].st == RUN && !exploring && cur != 0) switch_to(0);
  else resched();
  bool to = T[cur].timed_out;
  lock(m, false, false);
  return to ? ETIMEDOUT : 0;
}
static void cond_wake(const void * c, bool all)
{
  RT rt;
  point_();
  // HB: through the mutex
  for (int t = 0; t < nthreads; ++t) {
    if (T[t].st == COND && T[t].obj == c) { T[t].st = RUN; T[t].timed_out = false; if (!all) break; }
  }
}
}  // namespace sched
static bool rec(pthread_mutex_t * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t * m)
{
  if (sched::mine(PC)) { sched::lock(m, rec(m)); return 0; }
  if (sched::active && sched::cur >= 0 && !foreign(PC)) return 0;    // hidden bookkeeping
  static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  if (sched::mine(PC)) return sched::trylock(m, rec(m)) ? 0 : EBUSY;
  if (sched::active && sched::cur >= 0 && !foreign(PC)) return 0;
  static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  return f(m);
}
int pthread_mutex_timedlock(pthread_mutex_t * m, const timespec * t)
{
  if (sched::mine(PC)) return sched::trylock(m, rec(m)) ? 0 : ETIMEDOUT;
  static auto f = real<int (*)(pthread_mutex_t *, const timespec *)>("pthread_mutex_timedlock");
  return f(m, t);
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  if (sched::mine(PC)) { sched::unlock(m); return 0; }
  if (sched::active && sched::cur >= 0 && !foreign(PC)) return 0;
  static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  return f(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t * m)
{
  if (sched::mine(PC)) { sched::rdlock(m); return 0; }
  static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
  return f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m)
{
  if (sched::mine(PC)) { sched::lock(m, false); return 0; }
  static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
  return f(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t * m)
{
  if (sched::mine(PC)) return sched::trylock(m, false) ? 0 : EBUSY;
  static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
  return f(m);
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const timespec * t)
{
  if (sched::mine(PC)) return sched::trylock(m, rec(m)) ? 0 : ETIMEDOUT;
  static auto f = real<int (*)(pthread_mutex_t *, clockid_t, const timespec *)>("pthread_mutex_clocklock");
  return f(m, c, t);
}
int pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  if (sched::mine(PC)) { sched::unlock(m); return 0; }
  static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
  return f(m);
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  if (sched::mine(PC)) return sched::cond_wait(c, m, false);
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
  return f(c, m);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t)
{
  if (sched::mine(PC)) return sched::cond_wait(c, m, true, sched::ns(t) - sched::REALTIME0);
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait");
  return f(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const timespec * t)
{
  if (sched::mine(PC)) return sched::cond_wait(c, m, true, sched::ns(t) - sched::base_of(k));
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>("pthread_cond_clockwait");
  return f(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t * c)
{
  if (sched::mine(PC)) { sched::cond_wake(c, false); return 0; }
  static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  return f(c);
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
  if (sched::mine(PC)) { sched::cond_wake(c, true); return 0; }
  static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  return f(c);
}
int pthread_create(pthread_t * id, const pthread_attr_t * a, void * (*fn)(void *), void * arg)
{
  if (sched::active && sched::cur >= 0) {
    sched::RT rt;
    int t = sched::spawn(fn, arg);
    if (t < 0) return EAGAIN;
    *id = static_cast<pthread_t>(0x1000 + t);
    sched::point_();
    return 0;
  }
  static auto f = real<int (*)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *)>("pthread_create");
  return f(id, a, fn, arg);
}
int pthread_join(pthread_t id, void ** ret)
{
  if (sched::active && sched::cur >= 0 && id >= 0x1000 && id < 0x1000 + sched::MAXT) {
    sched::RT rt;
    sched::point_();
    int t = static_cast<int>(id - 0x1000);
    while (sched::T[t].st != sched::DONE) {
      sched::T[sched::cur].st = sched::JOIN;
      sched::T[sched::cur].join_on = t;
      sched::resched();
    }
    sched::T[sched::cur].vc.join(sched::T[t].vc);
    if (ret) *ret = sched::T[t].ret;
    return 0;
  }
  static auto f = real<int (*)(pthread_t, void **)>("pthread_join");
  return f(id, ret);
}
int pthread_detach(pthread_t id)
{
  if (sched::active && sched::cur >= 0 && id >= 0x1000 && id < 0x1000 + sched::MAXT) return 0;
  static auto f = real<int (*)(pthread_t)>("pthread_detach");
  return f(id);
}
int nanosleep(const timespec * t, timespec * r)
{
  if (!sched::hidden()) { sched::do_sleep(sched::vclock + sched::ns(t)); return 0; }
  static auto f = real<int (*)(const timespec *, timespec *)>("nanosleep");
  return f(t, r);
}
int clock_nanosleep(clockid_t c, int fl, const timespec * t, timespec * r)
{
  if (!sched::hidden()) {
    sched::do_sleep((fl & TIMER_ABSTIME) ? sched::ns(t) - sched::base_of(c) : sched::vclock + sched::ns(t));
    return 0;
  }
  static auto f = real<int (*)(clockid_t, int, const timespec *, timespec *)>("clock_nanosleep");
  return f(c, fl, t, r);
}
int clock_gettime(clockid_t c, timespec * t)
{
  if (!sched::hidden() && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) {
    sched::vclock += 1000;       // whoever looks at the clock until it has moved gets somewhere
    int64_t v = sched::base_of(c) + sched::vclock;
    t->tv_sec = v / 1000000000ll;
    t->tv_nsec = v % 1000000000ll;
    return 0;
  }
  static auto f = real<int (*)(clockid_t, timespec *)>("clock_gettime");
  return f(c, t);
}
int usleep(useconds_t u)
{
  if (!sched::hidden()) { sched::do_sleep(sched::vclock + 1000ll * u); return 0; }
  static auto f = real<int (*)(useconds_t)>("usleep");
  return f(u);
}
int sched_yield()
{
  if (!sched::hidden()) { sched::do_sleep(sched::vclock); return 0; }
  return 0;
}
}
