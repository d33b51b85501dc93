#include "mc.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

extern "C" const char * __asan_default_options()
{
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_segv=0:handle_abort=0:"
         "handle_sigfpe=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:quarantine_size_mb=16:symbolize=0";
}

namespace mc
{
static const size_t MAXC = 16384;
struct Shared
{
  volatile uint64_t execs;      // finished executions
  volatile uint64_t started;
  volatile uint32_t nchoices;
  volatile uint16_t choices[MAXC];
  volatile uint32_t done;       // 1 finished, 2 violation found
  volatile uint32_t stop;       // out of time: end after this execution
  char message[4096];
};
struct Engine
{
  Shared * sh = nullptr;
  int worker = 0, workers = 1;
  uint64_t shard_counter = 0;
  std::vector<int> last_shard;
  bool last_mine = false;
  std::unordered_set<uint64_t> states;
  std::unordered_set<uint64_t> outcomes;
  std::map<std::string, uint64_t> known_hits;
  uint64_t transitions = 0, execs = 0, maxdepth = 0;
  std::vector<std::string> samples;
  bool capped_states = false;
};
static std::vector<std::string> g_known;
static std::string g_prop;

static double now_s()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

int Ctx::choose(int n, const char * what)
{
  Engine * e = static_cast<Engine *>(engine);
  if (n < 1) { fprintf(stderr, "choose(%d) %s\n", n, what); abort(); }
  size_t d = choices.size();
  int c = 0;
  if (d < prefix.size()) {
    c = prefix[d];
    if (c < 0 || c >= n) {
      // A divergence while replaying a prefix: the system under test has nondeterminism we do not own.
      fprintf(stderr, "DIVERGENCE at choice %zu (%s): wanted %d of %d\n", d, what, c, n);
      _exit(77);
    }
  }
  choices.push_back(c);
  fanout.push_back(n);
  if (e && e->sh && d < MAXC) {
    e->sh->choices[d] = static_cast<uint16_t>(c);
    e->sh->nchoices = d + 1;
  }
  if (e && !replaying && shard_depth && choices.size() == shard_depth) {
    if (choices != e->last_shard || e->shard_counter == 0) {
      e->last_shard = choices;
      e->last_mine = (static_cast<int>(e->shard_counter % e->workers) == e->worker);
      e->shard_counter++;
    }
    if (!e->last_mine) throw Skip();
  }
  return c;
}

void Ctx::state(uint64_t h)
{
  Engine * e = static_cast<Engine *>(engine);
  if (!e) return;
  if (e->states.size() < 3000000) e->states.insert(h);
  else e->capped_states = true;
}

void Ctx::log(const char * fmt, ...)
{
  if (!tracing) return;
  char buf[2048];
  va_list a;
  va_start(a, fmt);
  vsnprintf(buf, sizeof(buf), fmt, a);
  va_end(a);
  if (trace.size() < 200000) { trace += buf; trace += "\n"; }
}

void Ctx::fail(const char * fmt, ...)
{
  char buf[4000];
  va_list a;
  va_start(a, fmt);
  vsnprintf(buf, sizeof(buf), fmt, a);
  va_end(a);
  if (!failed) message = buf;
  failed = true;
  throw Failed();
}

void Ctx::check(bool ok, const char * fmt, ...)
{
  if (ok) return;
  char buf[4000];
  va_list a;
  va_start(a, fmt);
  vsnprintf(buf, sizeof(buf), fmt, a);
  va_end(a);
  fail("%s", buf);
}

void Ctx::near(double a, double b, double tol, const char * what)
{
  if (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b))) return;
  fail("%s: got %.17g, expected %.17g (tolerance %g)", what, a, b, tol);
}

bool Ctx::known(const std::string & s)
{
  for (auto & k : g_known) {
    if (k == s) {
      if (engine) static_cast<Engine *>(engine)->known_hits[s]++;
      return true;
    }
  }
  return false;
}

// Runs one execution; true when it ended without a violation
static bool execute(const Suite & s, Ctx & c)
{
  try {
    s.body(c);
  } catch (Skip &) {
    throw;
  } catch (Failed &) {
  } catch (std::exception & e) {
    if (!c.failed) { c.failed = true; c.message = std::string("uncaught exception: ") + e.what(); }
  }
  return !c.failed;
}

static void worker_main(const Suite & s, Engine & e, bool thorough, const std::string & out)
{
  std::vector<int> prefix;
  while (true) {
    Ctx c;
    c.engine = &e;
    c.thorough = thorough;
    c.prefix = prefix;
    c.shard_depth = e.workers > 1 ? s.shard_depth : 0;
    uint64_t k = e.execs;
    c.tracing = (k == 0 || k == 7 || k == 200) && e.samples.size() < 3;
    e.sh->nchoices = 0;
    e.sh->started = e.sh->started + 1;
    bool skipped = false;
    try {
      if (!execute(s, c)) {
        snprintf(e.sh->message, sizeof(e.sh->message), "%s", c.message.c_str());
        e.sh->done = 2;
        _exit(3);
      }
    } catch (Skip &) {
      skipped = true;
    }
    bool mine = !skipped && (c.shard_depth == 0 || c.choices.size() >= c.shard_depth || e.worker == 0);
    if (mine) {
      e.execs++;
      e.transitions += c.transitions;
      e.maxdepth = std::max<uint64_t>(e.maxdepth, c.choices.size());
      if (c.outcome && e.outcomes.size() < 2000000) e.outcomes.insert(c.outcome);
      if (c.tracing && !c.trace.empty()) e.samples.push_back(c.trace.substr(0, 3000));
    }
    e.sh->execs = e.sh->execs + 1;
    // next choice sequence
    prefix = c.choices;
    std::vector<int> fan = c.fanout;
    while (!prefix.empty() && prefix.back() + 1 >= fan[prefix.size() - 1]) prefix.pop_back();
    if (prefix.empty()) break;
    prefix.back()++;
    if (e.sh->stop) break;
  }
  std::ofstream f(out, std::ios::binary);
  auto w = [&f](uint64_t v) {f.write(reinterpret_cast<char *>(&v), 8);};
  auto ws = [&](const std::string & v) {w(v.size()); f.write(v.data(), v.size());};
  w(e.execs); w(e.transitions); w(e.maxdepth); w(e.capped_states);
  w(e.states.size());
  for (auto v : e.states) w(v);
  w(e.outcomes.size());
  for (auto v : e.outcomes) w(v);
  w(e.samples.size());
  for (auto & v : e.samples) ws(v);
  w(e.known_hits.size());
  for (auto & v : e.known_hits) { ws(v.first); w(v.second); }
  f.close();
  e.sh->done = 1;
  _exit(0);
}

struct Replayed { int kind; std::string message, trace; };  // 0 ok, 1 violation, 2 crash, 3 hang, 4 divergence

static Replayed replay_once(const Suite & s, const std::vector<int> & choices, bool thorough, int limit_s)
{
  int p[2];
  if (pipe(p)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    Engine e;
    e.sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    Ctx c;
    c.engine = &e;
    c.thorough = thorough;
    c.tracing = true;
    c.replaying = true;
    c.prefix = choices;
    bool ok = true;
    try { ok = execute(s, c); } catch (Skip &) {}
    std::string o = c.message + std::string(1, '\0') + c.trace;
    size_t at = 0;
    while (at < o.size()) {
      ssize_t k = write(p[1], o.data() + at, o.size() - at);
      if (k <= 0) break;
      at += k;
    }
    close(p[1]);
    _exit(ok ? 0 : 3);
  }
  close(p[1]);
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  std::string data;
  double t0 = now_s();
  int status = 0;
  bool ended = false, hang = false;
  while (true) {
    char buf[65536];
    ssize_t k = read(p[0], buf, sizeof(buf));
    if (k > 0) { data.append(buf, k); continue; }
    if (!ended && waitpid(pid, &status, WNOHANG) == pid) { ended = true; continue; }
    if (ended && k <= 0) break;
    if (now_s() - t0 > limit_s) { kill(pid, SIGKILL); waitpid(pid, &status, 0); hang = true; break; }
    usleep(2000);
  }
  close(p[0]);
  Replayed r;
  size_t z = data.find('\0');
  r.message = data.substr(0, z);
  r.trace = z == std::string::npos ? "" : data.substr(z + 1);
  if (hang) { r.kind = 3; r.message = "execution does not end (limit " + std::to_string(limit_s) + " s)"; }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) r.kind = 0;
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 3) r.kind = 1;
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) r.kind = 4;
  else {
    r.kind = 2;
    char b[128];
    if (WIFSIGNALED(status)) snprintf(b, sizeof(b), "the code under test crashed: signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
    else snprintf(b, sizeof(b), "the code under test ended the process, exit status %d", WEXITSTATUS(status));
    r.message = b;
  }
  return r;
}

static std::string js(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

// All executions of one worker again, in one process: for code that remembers something between them
static Replayed replay_worker(const Suite & s, int worker, int workers, bool thorough, int limit_s, uint64_t & n)
{
  auto sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    Engine e;
    e.sh = sh;
    e.worker = worker;
    e.workers = workers;
    worker_main(s, e, thorough, "/dev/null");
  }
  double t0 = now_s();
  int st = 0;
  bool ended = true;
  while (waitpid(pid, &st, WNOHANG) != pid) {
    if (now_s() - t0 > limit_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); ended = false; break; }
    usleep(2000);
  }
  Replayed r;
  n = sh->started;
  if (ended && WIFEXITED(st) && WEXITSTATUS(st) == 3) { r.kind = 1; r.message = sh->message; }
  else r.kind = 0;
  munmap(sh, sizeof(Shared));
  return r;
}

static std::string write_replay(const std::string & dir, const Suite & s, const std::vector<int> & choices,
                                bool thorough, const Replayed & r, int worker = -1, int workers = 0)
{
  std::string path = dir + "/" + g_prop + "_" + s.name + ".replay";
  std::ofstream f(path);
  f << "property " << g_prop << "\nsuite " << s.name << "\ntier " << (thorough ? "thorough" : "quick");
  if (worker >= 0) f << "\nworker " << worker << " " << workers;
  f << "\nchoices";
  for (int c : choices) f << " " << c;
  f << "\nmessage " << r.message << "\n--- trace (last execution)\n" << r.trace
    << "\n--- replay with: python3 /verif/check.py " << g_prop << " --replay " << path << "\n";
  return path;
}

int run(int argc, char ** argv, const char * property, std::vector<Suite> suites)
{
  g_prop = property;
  bool thorough = false;
  std::string out = "/tmp/mc_out.json", replay, only, rdir = ".", known;
  double soft_s = 1e9;
  int workers = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
  if (workers < 1) workers = 1;
  if (workers > 8) workers = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--thorough") thorough = true;
    else if (a == "--out") out = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--suite") only = argv[++i];
    else if (a == "--replays") rdir = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--known") known = argv[++i];
    else if (a == "--soft") soft_s = atof(argv[++i]);
  }
  if (!known.empty()) {
    std::ifstream f(known);
    std::string line;
    while (std::getline(f, line)) if (!line.empty()) g_known.push_back(line);
  }
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line, suite;
    std::vector<int> ch;
    int worker = -1, of = 0;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "suite") is >> suite;
      else if (k == "tier") { is >> k; thorough = k == "thorough"; }
      else if (k == "worker") is >> worker >> of;
      else if (k == "choices") { int c; while (is >> c) ch.push_back(c); break; }
    }
    for (auto & s : suites) {
      if (suite != s.name) continue;
      uint64_t n = 0;
      Replayed r = worker >= 0 ? replay_worker(s, worker, of, thorough, 600, n) : replay_once(s, ch, thorough, 120);
      printf("%s\nkind=%d %s\n", r.trace.c_str(), r.kind, r.message.c_str());
      if (r.kind) { printf("VIOLATION property=%s replay=%s\n", property, replay.c_str()); return 1; }
      printf("replay: no violation\n");
      return 0;
    }
    fprintf(stderr, "no suite %s\n", suite.c_str());
    return 2;
  }

  std::ostringstream J;
  J << "{\"suites\":[";
  uint64_t tot_exec = 0, tot_tr = 0, tot_states = 0, tot_out = 0;
  bool first = true, bad = false;
  std::vector<std::string> all_samples;
  std::map<std::string, uint64_t> known_hits;
  const double begin_s = now_s();
  int suites_left = 0;
  for (auto & s : suites) if (!(s.thorough_only && !thorough) && (only.empty() || only == s.name)) ++suites_left;
  for (auto & s : suites) {
    if (s.thorough_only && !thorough) continue;
    if (!only.empty() && only != s.name) continue;
    double t0 = now_s();
    // Far more than is needed; code with many more scheduling points than today gets as far as it gets
    const double allowance = std::max(20.0, 3.0 * (soft_s - (t0 - begin_s)) / (2.0 + suites_left));
    --suites_left;
    bool truncated = false;
    int W = s.shard_depth ? workers : 1;
    std::vector<Shared *> sh(W);
    std::vector<pid_t> pid(W);
    std::vector<std::string> files(W);
    std::vector<bool> alive(W, true);
    std::vector<double> last_t(W, t0);
    std::vector<uint64_t> last_started(W, 0);
    fflush(nullptr);
    for (int w = 0; w < W; ++w) {
      sh[w] = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      files[w] = out + "." + s.name + "." + std::to_string(w);
      pid[w] = fork();
      if (pid[w] == 0) {
        Engine e;
        e.sh = sh[w];
        e.worker = w;
        e.workers = W;
        worker_main(s, e, thorough, files[w]);
      }
    }
    int bad_worker = -1;
    bool hang = false;
    int left = W;
    while (left > 0 && bad_worker < 0) {
      bool moved = false;
      for (int w = 0; w < W && bad_worker < 0; ++w) {
        if (!alive[w]) continue;
        int st;
        if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
          alive[w] = false;
          --left;
          moved = true;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad_worker = w;
          continue;
        }
        if (sh[w]->started != last_started[w]) { last_started[w] = sh[w]->started; last_t[w] = now_s(); }
        else if (now_s() - last_t[w] > s.hang_s) { bad_worker = w; hang = true; }
      }
      if (!truncated && now_s() - t0 > allowance) {
        truncated = true;
        for (int w = 0; w < W; ++w) sh[w]->stop = 1;
      }
      if (!moved) usleep(1000);
    }
    if (bad_worker >= 0) {
      for (int w = 0; w < W; ++w) if (alive[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }
      std::vector<int> ch;
      for (uint32_t i = 0; i < sh[bad_worker]->nchoices; ++i) ch.push_back(sh[bad_worker]->choices[i]);
      // Replay before report (a hang gets three times the limit, alone on the machine)
      Replayed a = replay_once(s, ch, thorough, hang ? 3 * s.hang_s : 120);
      for (int again = 0; again < 9 && !hang && a.kind == 0; ++again) a = replay_once(s, ch, thorough, 120);
      int worker = -1;
      if (a.kind == 0 && !hang && sh[bad_worker]->done == 2) {
        // Alone it is fine: then something was left over from the executions before, in the same process
        uint64_t n = 0;
        a = replay_worker(s, bad_worker, W, thorough, static_cast<int>(60 + 4 * (now_s() - t0)), n);
        a.message += " (in execution " + std::to_string(n) + " of a process, not when run alone)";
        worker = bad_worker;
      }
      if (a.kind == 0 || a.kind == 4) {
        fprintf(stderr, "suite %s: worker %d ended badly (%s) but its last execution replays clean (kind %d): error of the check\n",
                s.name, bad_worker, sh[bad_worker]->message, a.kind);
        fprintf(stderr, "choices:"); for (int c : ch) fprintf(stderr, " %d", c); fprintf(stderr, "\n");
        return 2;
      }
      std::string path = write_replay(rdir, s, ch, thorough, a, worker, W);
      printf("suite %s: %s\n", s.name, a.message.c_str());
      printf("VIOLATION property=%s replay=%s\n", property, path.c_str());
      fflush(stdout);
      bad = true;
      J << (first ? "" : ",") << "{\"name\":" << js(s.name) << ",\"bound\":" << js(s.bound) << ",\"violation\":" << js(a.message) << "}";
      first = false;
      break;
    }
    uint64_t execs = 0, tr = 0, depth = 0;
    bool capped = false;
    std::vector<uint64_t> st, oc;
    for (int w = 0; w < W; ++w) {
      std::ifstream f(files[w], std::ios::binary);
      auto r = [&f]() {uint64_t v = 0; f.read(reinterpret_cast<char *>(&v), 8); return v;};
      auto rs = [&]() {uint64_t n = r(); std::string v(n, 0); f.read(&v[0], n); return v;};
      execs += r(); tr += r(); depth = std::max(depth, r()); capped = capped || r();
      for (uint64_t n = r(); n > 0; --n) st.push_back(r());
      for (uint64_t n = r(); n > 0; --n) oc.push_back(r());
      for (uint64_t n = r(); n > 0; --n) {
        std::string v = rs();
        if (w == 0 || all_samples.empty()) all_samples.push_back(std::string(s.name) + ": " + v);
      }
      for (uint64_t n = r(); n > 0; --n) { std::string k = rs(); known_hits[k] += r(); }
      f.close();
      unlink(files[w].c_str());
    }
    std::sort(st.begin(), st.end());
    st.erase(std::unique(st.begin(), st.end()), st.end());
    std::sort(oc.begin(), oc.end());
    oc.erase(std::unique(oc.begin(), oc.end()), oc.end());
    tot_exec += execs; tot_tr += tr; tot_states += st.size(); tot_out += oc.size();
    J << (first ? "" : ",") << "{\"name\":" << js(s.name) << ",\"bound\":" << js(s.bound) << ",\"executions\":" << execs
      << ",\"transitions\":" << tr << ",\"states\":" << st.size() << ",\"state_set_capped\":" << (capped ? "true" : "false")
      << ",\"distinct_outcomes\":" << oc.size() << ",\"complete\":" << (truncated ? "false" : "true") << ",\"max_choices\":" << depth << ",\"wall_s\":" << (now_s() - t0) << "}";
    first = false;
    fprintf(stderr, "  %-28s execs=%-9lu transitions=%-10lu states=%-8zu outcomes=%-7zu %.1fs%s\n", s.name, execs, tr, st.size(), oc.size(), now_s() - t0, truncated ? " (ended early: out of time)" : "");
  }
  J << "],\"executions\":" << tot_exec << ",\"transitions\":" << tot_tr << ",\"states\":" << tot_states
    << ",\"outcomes\":" << tot_out << ",\"violations\":" << (bad ? 1 : 0) << ",\"known\":[";
  first = true;
  for (auto & k : known_hits) { J << (first ? "" : ",") << js(k.first); first = false; }
  J << "],\"samples\":[";
  for (size_t i = 0; i < all_samples.size() && i < 12; ++i) J << (i ? "," : "") << js(all_samples[i]);
  J << "]}";
  std::ofstream f(out);
  f << J.str() << "\n";
  return bad ? 1 : 0;
}
}  // namespace mc
