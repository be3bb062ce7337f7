#include "explorer.h"

#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <deque>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

namespace mc {
namespace {
struct StopExpansion {};
struct Divergence {
  std::string what;
};

std::vector<Scenario> g_scenarios;
bool g_thorough = false;
std::string g_scratch;        // per-process scratch
std::string g_base_scratch;

const size_t kSetBits = 25;
const size_t kMaxChoices = 16384;
const size_t kMsg = 8192;

struct Slot {
  std::atomic<uint64_t> execs;  // progress counter
  std::atomic<int> len;
  uint16_t choices[kMaxChoices];
  std::atomic<int> done;        // unit finished normally
  std::atomic<int> violated;
  std::atomic<int> diverged;
  char sig[256];
  char msg[kMsg];
  char desc[kMsg];
  char sample[2048];
};
struct Shared {
  std::atomic<uint64_t> execs, skips, ops, states, rechecks, known_hits;
  std::atomic<int> set_full;
  std::atomic<uint64_t> max_depth;
  Slot slots[64];
  std::atomic<uint64_t> set[1ull << kSetBits];
};
Shared *g_sh = nullptr;
Slot *g_slot = nullptr;
std::vector<std::string> g_known;
std::atomic<uint64_t> *g_known_counts = nullptr;

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

void insert_state(uint64_t fp) {
  if (fp == 0) fp = 1;
  const uint64_t mask = (1ull << kSetBits) - 1;
  if (g_sh->set_full.load(std::memory_order_relaxed)) return;
  uint64_t i = (fp * 0x9e3779b97f4a7c15ull) >> (64 - kSetBits);
  for (int n = 0; n < 512; n++, i = (i + 1) & mask) {
    uint64_t cur = g_sh->set[i].load(std::memory_order_relaxed);
    if (cur == fp) return;
    if (cur == 0) {
      if (g_sh->set[i].compare_exchange_strong(cur, fp)) {
        g_sh->states++;
        return;
      }
      if (cur == fp) return;
    }
  }
  g_sh->set_full = 1;
}

std::string vfmt(const char *fmt, va_list ap) {
  char buf[kMsg];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}
}  // namespace

void add(const std::string &name, std::function<void(Chooser &)> body) { g_scenarios.push_back({name, body}); }

void fail(const char *sig, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string m = vfmt(fmt, ap);
  va_end(ap);
  throw Violation{sig, m};
}

int Chooser::choose(int n, const char *label) {
  if (n <= 0) throw Divergence{std::string("choose(") + std::to_string(n) + ") " + label};
  size_t pos = choices.size();
  if (stop_at >= 0 && (int)pos >= stop_at) throw StopExpansion();
  int c = 0;
  if (pos < prefix.size()) {
    c = prefix[pos];
    if (c >= n) throw Divergence{"replayed choice out of range at " + std::to_string(pos) + " " + label};
  }
  choices.push_back(c);
  arity.push_back(n);
  if (pos < kMaxChoices && g_slot) {
    g_slot->choices[pos] = (uint16_t)c;
    g_slot->len = (int)pos + 1;
  }
  if (describing_ && label && *label) description += std::string(label) + "=" + std::to_string(c) + " ";
  if (describing_) publish();
  return c;
}
void Chooser::state(uint64_t fp) {
  digest = mix(digest, fp);
  if (stop_at < 0) insert_state(fp);
}
bool Chooser::thorough() const { return g_thorough; }
const std::string &Chooser::scratch() const { return g_scratch; }
void Chooser::describef(const char *fmt, ...) {
  if (!describing_) return;
  va_list ap;
  va_start(ap, fmt);
  std::string m = vfmt(fmt, ap);
  va_end(ap);
  describe(m);
}
void Chooser::describe(const std::string &s) {
  if (!describing_) return;
  description += s + "\n";
  publish();
}
// so that it survives a crash
void Chooser::publish() {
  if (g_slot && stop_at < 0) snprintf(g_slot->desc, sizeof g_slot->desc, "%s", description.c_str());
}

std::string read_file(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
void write_file(const std::string &path, const std::string &content) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) {
    perror(path.c_str());
    abort();
  }
  size_t off = 0;
  while (off < content.size()) {
    ssize_t k = write(fd, content.data() + off, content.size() - off);
    if (k <= 0) abort();
    off += k;
  }
  close(fd);
}

static ForkResult supervise(pid_t pid, int fo, int fe, int timeout_s) {
  ForkResult r;
  double end = now() + timeout_s;
  pollfd fds[2] = {{fo, POLLIN, 0}, {fe, POLLIN, 0}};
  int open_fds = 2;
  char buf[65536];
  while (open_fds > 0) {
    double left = end - now();
    if (left <= 0) {
      r.timeout = true;
      kill(pid, SIGKILL);
      break;
    }
    int k = poll(fds, 2, (int)(left * 1000) + 1);
    if (k < 0 && errno == EINTR) continue;
    for (int i = 0; i < 2; i++) {
      if (fds[i].fd >= 0 && (fds[i].revents & (POLLIN | POLLHUP | POLLERR))) {
        ssize_t n = read(fds[i].fd, buf, sizeof buf);
        if (n > 0) {
          std::string &dst = i == 0 ? r.out : r.err;
          if (dst.size() < (8u << 20)) dst.append(buf, n);
        } else {
          fds[i].fd = -1;
          open_fds--;
        }
      }
    }
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  close(fo);
  close(fe);
  if (WIFEXITED(st)) {
    r.exited = true;
    r.code = WEXITSTATUS(st);
  } else {
    r.code = WTERMSIG(st);
  }
  return r;
}

ForkResult run_forked(const std::function<int()> &fn, int timeout_s) {
  int po[2], pe[2];
  if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(po[1], 1);
    dup2(pe[1], 2);
    std::cout.clear();
    std::cerr.clear();
    int rc = fn();
    std::cout.flush();
    fflush(nullptr);
    _exit(rc);
  }
  close(po[1]);
  close(pe[1]);
  return supervise(pid, po[0], pe[0], timeout_s);
}
ForkResult run_program(const std::vector<std::string> &argv, const std::string &cwd, int timeout_s) {
  int po[2], pe[2];
  if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) abort();
  std::vector<char *> av;
  for (auto &a : argv) av.push_back(const_cast<char *>(a.c_str()));
  av.push_back(nullptr);
  pid_t pid = vfork();
  if (pid == 0) {
    dup2(po[1], 1);
    dup2(pe[1], 2);
    if (!cwd.empty() && chdir(cwd.c_str())) _exit(126);
    execv(av[0], av.data());
    _exit(127);
  }
  close(po[1]);
  close(pe[1]);
  return supervise(pid, po[0], pe[0], timeout_s);
}

namespace {

struct Unit {
  int scenario;
  std::vector<int> prefix;
};

// Runs one execution. Returns 0 ok, 1 skip; throws Violation / Divergence / StopExpansion.
int run_once(const Scenario &s, Chooser &c) {
  if (g_slot) g_slot->len = 0;
  try {
    s.body(c);
  } catch (SkipExecution &) {
    return 1;
  } catch (Violation &) {
    throw;
  } catch (StopExpansion &) {
    throw;
  } catch (Divergence &) {
    throw;
  } catch (std::exception &e) {
    throw Violation{std::string("exception"), std::string("uncaught exception: ") + e.what()};
  }
  return 0;
}

void copy_str(char *dst, size_t n, const std::string &s) {
  size_t k = std::min(n - 1, s.size());
  memcpy(dst, s.data(), k);
  dst[k] = 0;
}

void child_setup(int worker) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_slot = &g_sh->slots[worker];
  g_scratch = g_base_scratch + "/w" + std::to_string(worker);
  mkdir(g_scratch.c_str(), 0755);
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  int fe = open((g_scratch + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  dup2(fe, 2);
  std::cout.setstate(std::ios::badbit);
  std::cerr.setstate(std::ios::badbit);
#ifndef MC_SANITIZE
  rlimit rl = {3ull << 30, 3ull << 30};
  setrlimit(RLIMIT_DATA, &rl);
#endif
  rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
}

void record_violation(const Violation &v, const std::string &desc) {
  copy_str(g_slot->sig, sizeof g_slot->sig, v.sig);
  copy_str(g_slot->msg, sizeof g_slot->msg, v.msg);
  copy_str(g_slot->desc, sizeof g_slot->desc, desc);
  g_slot->violated = 1;
}

bool is_known(const std::string &sig) {
  for (size_t i = 0; i < g_known.size(); i++)
    if (g_known[i] == sig) {
      g_known_counts[i]++;
      return true;
    }
  return false;
}

// Explores all extensions of the prefix. Never returns.
[[noreturn]] void run_unit(const Unit &u, int worker, bool exact, bool describe_all) {
  child_setup(worker);
  const Scenario &s = g_scenarios[u.scenario];
  std::vector<int> prefix = u.prefix;
  bool first = true;
  uint64_t n = 0;
  while (true) {
    if ((n++ & 1023) == 1023) {
      if (ftruncate(2, 0)) {
      }
    }
    Chooser c;
    c.prefix = prefix;
    c.describing_ = describe_all || first;
    g_slot->desc[0] = 0;
    int rc = 0;
    try {
      rc = run_once(s, c);
    } catch (Violation &v) {
      if (!is_known(v.sig)) {
        record_violation(v, c.description);
        _exit(10);
      }
      rc = 2;
    } catch (Divergence &d) {
      copy_str(g_slot->msg, sizeof g_slot->msg, d.what);
      g_slot->diverged = 1;
      _exit(11);
    }
    g_slot->execs++;
    if (rc == 1)
      g_sh->skips++;
    else
      g_sh->execs++;
    g_sh->ops += c.ops;
    uint64_t d = c.choices.size(), m = g_sh->max_depth;
    while (d > m && !g_sh->max_depth.compare_exchange_weak(m, d)) {
    }
    if (first && rc == 0 && !describe_all) {
      copy_str(g_slot->sample, sizeof g_slot->sample, c.description);
      // determinism recheck: the same choices again must observe the same things
      Chooser c2;
      c2.prefix = c.choices;
      try {
        run_once(s, c2);
      } catch (Violation &v) {
        record_violation(Violation{"nondeterministic:" + v.sig, "fails only when repeated: " + v.msg}, c.description);
        _exit(10);
      } catch (Divergence &dv) {
        record_violation(Violation{"nondeterministic", "repeating the execution diverged: " + dv.what}, c.description);
        _exit(10);
      }
      if (c2.choices != c.choices || c2.digest != c.digest || c2.ops != c.ops) {
        record_violation(Violation{"nondeterministic", "repeating the same execution observed something else"},
                         c.description);
        _exit(10);
      }
      g_sh->rechecks++;
    }
    if (rc == 0) first = false;
    if (exact) break;
    // next choice sequence
    int i = (int)c.choices.size() - 1;
    while (i >= (int)u.prefix.size() && c.choices[i] + 1 >= c.arity[i]) i--;
    if (i < (int)u.prefix.size()) break;
    prefix.assign(c.choices.begin(), c.choices.begin() + i + 1);
    prefix[i]++;
  }
  g_slot->done = 1;
  _exit(0);
}

// Lists all prefixes of length <= depth. Returns false if the child crashed.
bool expand(int scenario, int depth, std::vector<std::vector<int>> &out) {
  int p[2];
  if (pipe2(p, O_CLOEXEC)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(63);
    close(p[0]);
    std::vector<int> prefix;
    FILE *f = fdopen(p[1], "w");
    double flushed = now();
    while (true) {
      Chooser c;
      c.prefix = prefix;
      c.stop_at = depth;
      try {
        run_once(g_scenarios[scenario], c);
      } catch (StopExpansion &) {
      } catch (Violation &) {
      } catch (Divergence &) {
      }
      fprintf(f, "%zu", c.choices.size());
      for (int x : c.choices) fprintf(f, " %d", x);
      fprintf(f, "\n");
      if (now() - flushed > 1) fflush(f), flushed = now();
      int i = (int)c.choices.size() - 1;
      while (i >= 0 && c.choices[i] + 1 >= c.arity[i]) i--;
      if (i < 0) break;
      prefix.assign(c.choices.begin(), c.choices.begin() + i + 1);
      prefix[i]++;
    }
    fprintf(f, "end\n");
    fflush(f);
    _exit(0);
  }
  close(p[1]);
  out.clear();
  bool ok = false;
  std::string text;
  size_t used = 0;
  // an execution that does not end is met (and reported) when its unit is run
  double deadline = now() + 60, idle = now() + 10;
  while (!ok && now() < deadline && now() < idle && out.size() <= 200000) {
    pollfd pf{p[0], POLLIN, 0};
    if (poll(&pf, 1, 200) <= 0) continue;
    char buf[65536];
    ssize_t k = read(p[0], buf, sizeof buf);
    if (k <= 0) break;
    idle = now() + 10;
    text.append(buf, (size_t)k);
    size_t e;
    while (!ok && (e = text.find('\n', used)) != std::string::npos) {
      std::istringstream line(text.substr(used, e - used));
      used = e + 1;
      size_t n;
      if (!(line >> n)) {
        ok = true;  // "end"
        break;
      }
      std::vector<int> v(n);
      for (auto &x : v) line >> x;
      out.push_back(v);
    }
  }
  close(p[0]);
  kill(pid, SIGKILL);
  int st;
  waitpid(pid, &st, 0);
  return ok;
}

std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 0x20 || ch >= 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}
std::string jints(const std::vector<int> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}

struct Failure {
  int scenario;
  std::vector<int> unit_prefix, choices;
  std::string sig, msg, desc, kind;  // kind: oracle, crash, hang
  bool reproduced_alone = false, reproduced_unit = false;
};

struct ChildEnd {
  bool ok = false, diverged = false, violated = false, hang = false, crash = false;
  std::string msg;
};

void reset_slot(int w) {
  Slot &s = g_sh->slots[w];
  s.len = 0;
  s.done = 0;
  s.violated = 0;
  s.diverged = 0;
  s.sig[0] = s.msg[0] = s.desc[0] = s.sample[0] = 0;
}

std::string tail(const std::string &s, size_t n) { return s.size() <= n ? s : s.substr(s.size() - n); }

std::string crash_message(int st, int worker) {
  std::string m;
  if (WIFSIGNALED(st))
    m = std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  else
    m = "the code under test ended the process with exit code " + std::to_string(WEXITSTATUS(st));
  std::string err = read_file(g_base_scratch + "/w" + std::to_string(worker) + "/stderr");
  size_t p = err.find("runtime error:");
  if (p == std::string::npos) p = err.find("Error: ");
  if (p == std::string::npos) p = err.find("==ERROR");
  if (p != std::string::npos)
    m += "; " + err.substr(p, 1500);
  else
    m += "; stderr: " + tail(err, 600);
  return m;
}

// Runs a unit synchronously in worker slot w.
ChildEnd run_sync(const Unit &u, int w, bool exact, double exec_timeout, Failure *f) {
  reset_slot(w);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) run_unit(u, w, exact, exact);
  ChildEnd e;
  Slot &s = g_sh->slots[w];
  uint64_t last = s.execs;
  double t = now();
  int st = 0;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (s.execs != last) {
      last = s.execs;
      t = now();
    }
    if (now() - t > exec_timeout) {
      e.hang = true;
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
    usleep(2000);
  }
  if (s.done) {
    e.ok = true;
  } else if (e.hang) {
    e.msg = "no progress";
  } else if (s.violated) {
    e.violated = true;
    e.msg = s.msg;
  } else if (s.diverged) {
    e.diverged = true;
    e.msg = s.msg;
  } else {
    e.crash = true;
    e.msg = crash_message(st, w);
  }
  if (f && !e.ok) {
    f->choices.assign(s.choices, s.choices + s.len);
    if (e.violated) f->sig = s.sig;
    f->msg = e.msg;
    if (s.desc[0]) f->desc = s.desc;
  }
  return e;
}
}  // namespace
}  // namespace mc

using namespace mc;

#ifndef MC_SANITIZE
// Objects the code under test makes or has deleted hold garbage.  (Not M_PERTURB: it would touch every page of
// the large tables of libsdd.)
static void *dirty(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  memset(p, 0xa5, n);
  return p;
}
static void drop(void *p) {
  if (p) memset(p, 0x5a, malloc_usable_size(p));
  free(p);
}
void *operator new(size_t n) { return dirty(n); }
void *operator new[](size_t n) { return dirty(n); }
void operator delete(void *p) noexcept { drop(p); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }
#endif

int main(int argc, char **argv) {
  std::string out, replay, prop = "?", only, scratch_root = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  int jobs = 8;
  double exec_timeout = 30, time_limit = 1e9;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--tier") g_thorough = next() == "thorough";
    else if (a == "--out") out = next();
    else if (a == "--property") prop = next();
    else if (a == "--replay") replay = next();
    else if (a == "--only") only = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--exec-timeout") exec_timeout = atof(next().c_str());
    else if (a == "--time-limit") time_limit = atof(next().c_str());
    else if (a == "--known") g_known.push_back(next());
    else if (a == "--scratch") scratch_root = next();
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  // same addresses in every process: a schedule fails the same way each time
  if (!getenv("MC_NOASLR")) {
    setenv("MC_NOASLR", "1", 1);
    int old = personality(0xffffffff);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  signal(SIGPIPE, SIG_IGN);
  if (jobs > 60) jobs = 60;
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                        -1, 0);
  g_known_counts = (std::atomic<uint64_t> *)mmap(nullptr, 8 * (g_known.size() + 1), PROT_READ | PROT_WRITE,
                                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char tmpl[4096];
  snprintf(tmpl, sizeof tmpl, "%s/mc_%s_XXXXXX", scratch_root.c_str(), prop.c_str());
  if (!mkdtemp(tmpl)) {
    perror(tmpl);
    return 3;
  }
  g_base_scratch = tmpl;
  auto cleanup = [&] {
    std::string cmd = "rm -rf " + g_base_scratch;
    if (g_base_scratch.find("/mc_") != std::string::npos && system(cmd.c_str())) {
    }
  };
  register_scenarios(g_thorough);

  if (!replay.empty()) {
    // replay file: first line scenario name, second line "unit n c1..cn", third line "exec n c1..cn"
    std::ifstream f(replay);
    std::string line, scen, mode;
    std::vector<int> unit, exec;
    bool alone = true;
    while (getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "scenario") is >> scen;
      if (k == "tier") {
        is >> k;
        if ((k == "thorough") != g_thorough) {
          fprintf(stderr, "replay needs --tier %s\n", k.c_str());
          return 3;
        }
      }
      if (k == "mode") {
        is >> mode;
        alone = mode == "execution";
      }
      int x;
      if (k == "unit")
        while (is >> x) unit.push_back(x);
      if (k == "execution")
        while (is >> x) exec.push_back(x);
    }
    int si = -1;
    for (size_t i = 0; i < g_scenarios.size(); i++)
      if (g_scenarios[i].name == scen) si = (int)i;
    if (si < 0) {
      fprintf(stderr, "no scenario %s\n", scen.c_str());
      return 3;
    }
    Failure fl;
    ChildEnd e = run_sync(Unit{si, alone ? exec : unit}, 0, alone, 120, &fl);
    cleanup();
    if (e.ok) {
      printf("replay: the property holds on this execution\n");
      return 0;
    }
    printf("replay: %s: %s\n%s\n", fl.sig.c_str(), fl.msg.c_str(), fl.desc.c_str());
    return e.diverged ? 2 : 1;
  }

  double t0 = now();
  // --- split into units
  std::deque<Unit> queue;
  size_t units = 0;
  std::vector<std::pair<std::string, size_t>> per_scenario;
  for (size_t si = 0; si < g_scenarios.size(); si++) {
    if (!only.empty() && g_scenarios[si].name != only) continue;
    std::vector<std::vector<int>> best = {{}};
    for (int depth = 1; depth <= 12; depth++) {
      std::vector<std::vector<int>> cur;
      double te = now();
      if (!expand((int)si, depth, cur)) break;
      if (cur.size() > 3000) break;
      bool more = cur.size() > best.size();
      best = cur;
      if (best.size() >= 96 || now() - te > 3) break;
      if (!more && depth > 6) break;
    }
    for (auto &p : best) queue.push_back(Unit{(int)si, p});
    per_scenario.push_back({g_scenarios[si].name, best.size()});
    units += best.size();
  }
  // --- run them
  struct W {
    pid_t pid = 0;
    Unit u;
    uint64_t last = 0;
    double t = 0;
  };
  std::vector<W> ws(jobs);
  std::vector<Failure> failures;
  std::vector<std::string> samples;
  std::string divergence;
  bool capped = false;
  size_t finished = 0;
  int active = 0;
  std::vector<Failure> hangs;
  std::vector<Unit> hung_units;
  auto stop = [&] { return !failures.empty() || !divergence.empty() || hangs.size() >= 2; };
  // An execution that seems to hang is run again alone with five times the patience.  When it ends then, it was
  // slow: its unit is explored again with that patience.
  for (int round = 0; round < 2; round++) {
  while (true) {
    for (int w = 0; w < jobs; w++) {
      if (ws[w].pid || queue.empty() || stop() || capped) continue;
      if (now() - t0 > time_limit) {
        capped = true;
        break;
      }
      ws[w].u = queue.front();
      queue.pop_front();
      reset_slot(w);
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) run_unit(ws[w].u, w, false, false);
      ws[w].pid = pid;
      ws[w].last = g_sh->slots[w].execs;
      ws[w].t = now();
      active++;
    }
    if (!active) break;
    bool progressed = false;
    for (int w = 0; w < jobs; w++) {
      if (!ws[w].pid) continue;
      Slot &s = g_sh->slots[w];
      int st = 0;
      bool hang = false;
      pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
      if (r == 0) {
        if (s.execs != ws[w].last) {
          ws[w].last = s.execs;
          ws[w].t = now();
        }
        if (now() - ws[w].t > exec_timeout) {
          hang = true;
          kill(ws[w].pid, SIGKILL);
          waitpid(ws[w].pid, &st, 0);
        } else if (now() - t0 > time_limit + 30) {
          capped = true;
          kill(ws[w].pid, SIGKILL);
          waitpid(ws[w].pid, &st, 0);
          ws[w].pid = 0;
          active--;
          continue;
        } else
          continue;
      }
      progressed = true;
      ws[w].pid = 0;
      active--;
      finished++;
      if (s.done) {
        if (s.sample[0] && (samples.size() < 3 || finished % 97 == 0) && samples.size() < 8)
          samples.push_back(g_scenarios[ws[w].u.scenario].name + ": " + s.sample);
        continue;
      }
      Failure f;
      f.scenario = ws[w].u.scenario;
      f.unit_prefix = ws[w].u.prefix;
      f.choices.assign(s.choices, s.choices + s.len);
      if (hang) {
        f.kind = "hang";
        f.sig = "hang";
        f.msg = "execution did not end within " + std::to_string((int)exec_timeout) + " s";
        hangs.push_back(f);
        hung_units.push_back(ws[w].u);
        continue;
      }
      if (s.diverged) {
        divergence = g_scenarios[f.scenario].name + ": " + s.msg;
        continue;
      }
      if (s.violated) {
        f.kind = "oracle";
        f.sig = s.sig;
        f.msg = s.msg;
        f.desc = s.desc;
      } else {
        f.kind = "crash";
        f.sig = "crash";
        f.msg = crash_message(st, w);
        if (is_known("crash:" + g_scenarios[f.scenario].name)) continue;
      }
      failures.push_back(f);
    }
    if (!progressed) usleep(1000);
  }
  if (hangs.empty() || !failures.empty() || !divergence.empty()) break;
  for (auto &h : hangs) {
    if (!failures.empty()) break;
    ChildEnd e = run_sync(Unit{h.scenario, h.choices}, 0, true, 5 * exec_timeout, nullptr);
    if (e.ok) continue;
    if (e.hang) {
      h.reproduced_alone = true;
      h.msg = "execution did not end within " + std::to_string((int)(5 * exec_timeout)) + " s";
    }
    failures.push_back(h);
  }
  if (!failures.empty()) break;
  hangs.clear();
  if (round == 1) {
    capped = true;
    break;
  }
  exec_timeout *= 5;
  for (auto &u : hung_units) queue.push_back(u);
  finished -= hung_units.size();
  hung_units.clear();
  }
  // --- confirm by replay
  bool violation = false, unconfirmed = false;
  std::string vdesc;
  Failure chosen;
  for (auto &f : failures) {
    if (f.reproduced_alone) {
      violation = true;
      chosen = f;
      break;
    }
    Failure g = f;
    ChildEnd e = run_sync(Unit{f.scenario, f.choices}, 0, true, f.kind == "hang" ? 90 : 60, &g);
    if (e.hang) g.sig = "hang";
    if (e.crash) g.sig = "crash";
    if (!e.ok && !e.diverged) {
      f.reproduced_alone = true;
      f.sig = g.sig;
      f.msg = g.msg;
      if (!g.desc.empty()) f.desc = g.desc;
      f.choices = g.choices;
    } else if (f.kind != "hang") {
      ChildEnd e2 = run_sync(Unit{f.scenario, f.unit_prefix}, 0, false, 120, &g);
      if (!e2.ok && !e2.diverged && !e2.hang) f.reproduced_unit = true;
    }
    if (f.reproduced_alone || f.reproduced_unit) {
      violation = true;
      chosen = f;
      break;
    }
    unconfirmed = true;
    chosen = f;
  }
  double wall = now() - t0;
  std::ostringstream js;
  js << "{\n";
  js << "\"property\": " << jstr(prop) << ",\n\"executions\": " << g_sh->execs << ",\n\"pruned\": " << g_sh->skips
     << ",\n\"ops\": " << g_sh->ops << ",\n\"states\": " << g_sh->states << ",\n\"states_capped\": "
     << (g_sh->set_full ? "true" : "false") << ",\n\"max_choice_depth\": " << g_sh->max_depth
     << ",\n\"determinism_rechecks\": " << g_sh->rechecks << ",\n\"units\": " << units << ",\n\"units_finished\": "
     << finished << ",\n\"capped\": " << ((capped || !queue.empty()) ? "true" : "false") << ",\n\"wall_s\": " << wall
     << ",\n";
  js << "\"scenarios\": {";
  for (size_t i = 0; i < per_scenario.size(); i++)
    js << (i ? ", " : "") << jstr(per_scenario[i].first) << ": " << per_scenario[i].second;
  js << "},\n\"samples\": [";
  for (size_t i = 0; i < samples.size(); i++) js << (i ? ",\n" : "") << jstr(samples[i]);
  js << "],\n\"known_hits\": {";
  for (size_t i = 0; i < g_known.size(); i++)
    js << (i ? ", " : "") << jstr(g_known[i]) << ": " << g_known_counts[i];
  js << "},\n";
  js << "\"divergence\": " << jstr(divergence) << ",\n\"violation\": ";
  if (violation || unconfirmed) {
    js << "{\"confirmed\": " << (violation ? "true" : "false") << ", \"scenario\": "
       << jstr(g_scenarios[chosen.scenario].name) << ", \"kind\": " << jstr(chosen.kind) << ", \"sig\": "
       << jstr(chosen.sig) << ", \"msg\": " << jstr(chosen.msg) << ", \"description\": " << jstr(chosen.desc)
       << ", \"mode\": " << (chosen.reproduced_alone ? "\"execution\"" : "\"unit\"")
       << ", \"unit\": " << jints(chosen.unit_prefix) << ", \"execution\": " << jints(chosen.choices) << "}";
  } else
    js << "null";
  js << "\n}\n";
  if (!out.empty()) write_file(out, js.str());
  else
    fputs(js.str().c_str(), stdout);
  cleanup();
  if (violation) return 1;
  if (unconfirmed || !divergence.empty()) return 2;
  return 0;
}
