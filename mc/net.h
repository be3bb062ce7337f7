// Networks of factors: exhaustive families, their text form, their product.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <sstream>

#include "family.h"

namespace ref {
struct Factor {
  std::vector<int> scope;  // 0-based variables, the last one is the least significant
  std::vector<double> w;   // 2^|scope| entries
};
struct Network {
  int n = 0;
  bool bayes = false;
  std::vector<Factor> f;
};
inline double entry(const Factor &f, unsigned x) {
  size_t i = 0;
  for (int v : f.scope) i = i * 2 + ((x >> v) & 1);
  return f.w[i];
}
inline long double product(const Network &g, unsigned x) {
  long double p = 1;
  for (auto &f : g.f) p *= entry(f, x);
  return p;
}
// layout 0: one line of entries per table; 1: one entry per line; 2: rows of two, blank lines between the
// tables and exponents; 3: count and entries on one line
inline std::string text(const Network &g, int layout) {
  std::ostringstream o;
  o << (g.bayes ? "BAYES" : "MARKOV") << "\n" << g.n << "\n";
  for (int i = 0; i < g.n; i++) o << (i ? " 2" : "2");
  o << "\n" << g.f.size() << "\n";
  for (auto &f : g.f) {
    o << f.scope.size();
    for (int v : f.scope) o << " " << v;
    o << "\n";
  }
  o.precision(17);
  if (layout == 2) o << std::scientific;
  for (auto &f : g.f) {
    if (layout != 3) o << "\n";
    o << f.w.size();
    if (layout != 3) o << "\n";
    for (size_t i = 0; i < f.w.size(); i++) {
      o << " " << f.w[i];
      if (layout == 1 || (layout == 2 && i % 2 == 1 && i + 1 < f.w.size())) o << "\n";
    }
    o << "\n";
    if (layout == 2) o << "\n";
  }
  return o.str();
}
inline std::string str(const Network &g) {
  std::string s = text(g, 0);
  for (auto &ch : s)
    if (ch == '\n') ch = '|';
  return s;
}
// the weight of a partial assignment in a network whose factors join neighbours in a line or a circle (pairs (i,i+1), (n-1,0)) or are about one variable
inline long double chain_weight(const Network &g, const std::vector<int> &ev) {
  const long double ninf = -INFINITY;
  int n = g.n;
  std::vector<std::vector<const Factor *>> at((size_t)n);
  std::vector<const Factor *> closing;
  for (auto &f : g.f) {
    if (f.scope.size() == 1) {
      at[f.scope[0]].push_back(&f);
      continue;
    }
    int lo = std::min(f.scope[0], f.scope[1]), hi = std::max(f.scope[0], f.scope[1]);
    (hi == lo + 1 ? at[hi] : closing).push_back(&f);
  }
  auto value = [&](const Factor *f, int i, int a, int j, int b) {
    size_t k = 0;
    for (int v : f->scope) k = k * 2 + (size_t)(v == i ? a : b);
    (void)j;
    return logl((long double)f->w[k]);
  };
  long double sum = ninf;
  for (int first = 0; first < 2; first++) {
    std::array<long double, 2> cur{ninf, ninf};
    for (int i = 0; i < n; i++) {
      std::array<long double, 2> next{ninf, ninf};
      for (int b = 0; b < 2; b++) {
        if ((ev[i] >= 0 && ev[i] != b) || (i == 0 && b != first)) continue;
        for (int a = 0; a < (i ? 2 : 1); a++) {
          long double w = i ? cur[a] : 0;
          for (auto f : at[i]) w += value(f, i, b, i - 1, a);
          if (i == n - 1)
            for (auto f : closing) w += value(f, n - 1, b, 0, first);
          next[b] = logadd(next[b], w);
        }
      }
      cur = next;
    }
    sum = logadd(sum, logadd(cur[0], cur[1]));
  }
  return sum;
}
// any non-empty sequence of distinct variables of the given size
inline std::vector<int> choose_scope(Chooser &c, int n, int size) {
  std::vector<int> rest, s;
  for (int i = 0; i < n; i++) rest.push_back(i);
  for (int i = 0; i < size; i++) {
    int k = c.choose((int)rest.size(), "scope");
    s.push_back(rest[k]);
    rest.erase(rest.begin() + k);
  }
  return s;
}
}  // namespace ref
