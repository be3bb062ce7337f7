// Stateless explicit-state explorer: enumerates every choice sequence of a body, each unit of work in a
// freshly forked child.  See explorer.cpp for the driver.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Violation {
  std::string sig;  // stable identification of what failed (for the known-findings file)
  std::string msg;
};
struct SkipExecution {};

class Chooser {
 public:
  // Picks 0..n-1; the explorer enumerates all values.
  int choose(int n, const char *label = "");
  bool flip(const char *label = "") { return choose(2, label) == 1; }
  template <class T>
  const T &pick(const std::vector<T> &v, const char *label = "") {
    return v[choose((int)v.size(), label)];
  }
  // Prunes an infeasible or duplicate combination.
  [[noreturn]] void skip() { throw SkipExecution(); }
  // k answers of the code under test have been compared with the reference.
  void op(uint64_t k = 1) { ops += k; }
  // A canonical state / observed outcome has been reached.
  void state(uint64_t fingerprint);
  // Decoded, human readable form of this execution (built only when wanted).
  bool describing() const { return describing_; }
  void describe(const std::string &s);
  void describef(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  bool thorough() const;
  const std::string &scratch() const;  // directory private to this child

  // driver internals
  void publish();
  std::vector<int> prefix;
  std::vector<int> choices, arity;
  int stop_at = -1;
  uint64_t ops = 0;
  uint64_t digest = 0;  // everything observed, for the determinism recheck
  bool describing_ = false;
  std::string description;
};

[[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define MC_CHECK(cond, sig, ...)          \
  do {                                    \
    if (!(cond)) ::mc::fail(sig, __VA_ARGS__); \
  } while (0)

struct Scenario {
  std::string name;
  std::function<void(Chooser &)> body;
};
void add(const std::string &name, std::function<void(Chooser &)> body);

// defined by every property file
void register_scenarios(bool thorough);

// FNV-style hashing helpers
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h, s.size());
}

// Runs fn in a forked child with stdout/stderr captured.  Used where the code under test calls exit().
struct ForkResult {
  bool exited = false;   // ended by itself (not by a signal)
  int code = -1;         // exit code when exited, else the signal
  bool timeout = false;
  std::string out, err;
};
ForkResult run_forked(const std::function<int()> &fn, int timeout_s = 20);
ForkResult run_program(const std::vector<std::string> &argv, const std::string &cwd = "", int timeout_s = 20);

std::string read_file(const std::string &path);
void write_file(const std::string &path, const std::string &content);

}  // namespace mc
