// C13  sampling parameters
#include <algorithm>

#include "family.h"
#include "match.h"
using namespace ref;

namespace {
const std::vector<double> &primes_table() {
  static std::vector<double> p;
  if (p.empty())
    for (int x = 2; p.size() < 6000; x++) {
      bool prime = true;
      for (int d = 2; d * d <= x && prime; d++) prime = x % d != 0;
      if (prime) p.push_back(x);
    }
  return p;
}
// Every draw is a different prime (times a scale), so a ratio of two parameters tells which draws made them.
// Pattern 3 and 4 spread the draws over many magnitudes, so that one dominates the sum.
class Draws : public RandomDoubleGenerator {
 public:
  Draws(int pattern, double scale) : pattern_(pattern), scale_(scale) {}
  double generate() override {
    auto &p = primes_table();
    size_t i = drawn.size();
    if (i >= 5900) mc::fail("draws", "more than 5900 draws");
    // small primes, so that ratios are far apart: ascending, descending or alternating within blocks of 100
    size_t b = i / 100 * 100, j = i % 100;
    size_t k = b + (pattern_ == 1 ? 99 - j : pattern_ == 2 ? (j % 2 ? 99 - j / 2 : j / 2) : j);
    static const double spread[] = {1, 1e-20, 1e-9, 1e-80};
    double d = p[k] * (pattern_ < 3 ? 1 : spread[(i + (size_t)pattern_) % 4]);
    drawn.push_back(d);
    return d * scale_;
  }
  std::vector<double> drawn;

 private:
  int pattern_;
  double scale_;
};
// finds the draws behind normalised parameters; every draw may be used once
struct Pool {
  std::vector<double> logs;  // sorted
  std::vector<bool> used;
  explicit Pool(std::vector<double> drawn) {
    std::sort(drawn.begin(), drawn.end());
    for (double d : drawn) logs.push_back(log(d));
    used.assign(logs.size(), false);
  }
  // the unused draw whose logarithm is nearest to l, or -1
  int find(double l, double *off) const {
    size_t i = std::lower_bound(logs.begin(), logs.end(), l - kTolerance) - logs.begin();
    int best = -1;
    for (; i < logs.size() && logs[i] < l + kTolerance; i++)
      if (!used[i] && (best < 0 || fabs(logs[i] - l) < *off)) {
        best = (int)i;
        *off = fabs(logs[i] - l);
      }
    return best;
  }
  static constexpr double kTolerance = 4e-12;
};
void explain(Chooser &c, std::vector<double> logs, Pool *pool, const char *what) {
  c.op();
  for (double l : logs) MC_CHECK(std::isfinite(l), "positive", "%s: parameter with logarithm %g", what, l);
  long double s = 0;
  for (double l : logs) s += expl(l);
  MC_CHECK(fabsl(s - 1) < 1e-6, "sum", "%s: parameters sum to %.12Lg", what, s);
  if (logs.size() < 2) return;
  // of all ways to explain them take the one that fits best: the others are coincidences
  std::vector<int> best;
  double best_off = 1;
  for (size_t first = 0; first < pool->logs.size(); first++) {
    if (pool->used[first]) continue;
    std::vector<int> mine{(int)first};
    double worst = 0;
    bool ok = true;
    for (size_t i = 1; i < logs.size() && ok; i++) {
      double off = 0;
      int j = pool->find(pool->logs[first] + logs[i] - logs[0], &off);
      ok = j >= 0 && std::find(mine.begin(), mine.end(), j) == mine.end();
      mine.push_back(j);
      worst = std::max(worst, off);
    }
    if (ok && (best.empty() || worst < best_off)) {
      best = mine;
      best_off = worst;
    }
  }
  if (!best.empty()) {
    for (int j : best) pool->used[j] = true;
    return;
  }
  std::string t;
  for (double l : logs) t += " " + std::to_string(exp(l));
  mc::fail("draws", "%s: the parameters%s are not normalised draws of the generator, each used once", what, t.c_str());
}
void check_sampling(Chooser &c, PsddManager *target, const std::vector<PsddNode *> &roots, const Labels *labels, uintmax_t flag, bool single, int patterns = 0) {
  Draws g(c.choose(patterns ? patterns : c.thorough() || roots.size() == 1 ? 5 : 4, "draws"), single ? 1e-200 : 1);
  Snapshot snap;
  for (auto r : roots) snap.take(r);
  std::vector<PsddNode *> res;
  if (single)
    res.push_back(target->SampleParameters(&g, roots[0], flag));
  else
    res = target->SampleParametersForMultiplePsdds(&g, roots, flag);
  snap.check("input-changed", false);
  MC_CHECK(res.size() == roots.size(), "roots", "%zu results for %zu roots", res.size(), roots.size());
  std::map<PsddNode *, PsddNode *> image;
  std::map<PsddNode *, std::vector<size_t>> order_of;
  std::vector<PsddNode *> todo;
  auto hook = [&](PsddNode *a, PsddNode *b, const std::vector<size_t> &order) {
    auto it = image.find(a);
    if (it == image.end()) {
      image[a] = b;
      todo.push_back(a);
    } else
      MC_CHECK(it->second == b, "sharing", "a node shared between the roots is sampled twice: %s and %s", str(it->second).c_str(), str(b).c_str());
  };
  if (labels) {
    Matcher m{*labels, "structure"};
    m.hook = hook;
    for (size_t i = 0; i < roots.size(); i++) {
      MC_CHECK(res[i] != nullptr, "missing", "root %zu: no result", i);
      m.run(roots[i], res[i]);
    }
  } else {
    BigMatcher m{"structure"};
    m.hook = hook;
    for (size_t i = 0; i < roots.size(); i++) {
      MC_CHECK(res[i] != nullptr, "missing", "root %zu: no result", i);
      m.run(roots[i], res[i]);
    }
  }
  std::vector<Vtree *> tv = vtree_util::SerializeVtree(target->vtree());
  for (size_t i = 0; i < roots.size(); i++) {
    Vtree *at = nullptr;
    for (Vtree *w : tv)
      if (sdd_vtree_position(w) == sdd_vtree_position(roots[i]->vtree_node())) at = w;
    check_wellformed(res[i], at, (long)flag, "sampled");
  }
  Pool pool(g.drawn);
  std::set<PsddNode *> done;
  for (PsddNode *a : todo) {
    PsddNode *b = image[a];
    // among thousands of similar draws two nodes with the same children can end up equal up to the manager's resolution
    if (!labels && !done.insert(b).second) continue;
    if (b->node_type() == TOP_NODE_TYPE)
      explain(c, {log_false(b), log_true(b)}, &pool, "free variable");
    else if (b->node_type() == DECISION_NODE_TYPE) {
      std::vector<double> l;
      for (size_t i = 0; i < b->psdd_decision_node()->parameters().size(); i++) l.push_back(log_param(b, i));
      explain(c, l, &pool, "decision");
    }
  }
  uint64_t h = 1;
  for (auto r : res) h = mc::mix(h, fingerprint(r));
  c.state(h);
}
void family(Chooser &c) {
  Family f = choose_family(c, c.thorough() ? 1 : 0);
  Instance i = build_at(c, f, c.choose(3, "place"));
  if (c.flip("other manager")) {
    Labels all = i.labels;
    all.push_back(all[0] == 65535 || all[0] == 7 ? 11 : 900);
    ManagerPtr m2(make_manager(i.root, all));
    m2->GetTrueNode(m2->vtree(), 3);
    check_sampling(c, m2.get(), {i.node}, &i.labels, 3, c.flip("single"));
  } else
    check_sampling(c, i.manager.get(), {i.node}, &i.labels, c.choose(2, "flag") ? 8 : f.o.flag, c.flip("single"));
}
// two or three roots out of all nodes of two circuits: shared, nested, repeated, at different depths
void roots(Chooser &c, int n) {
  VTP v = choose_shape(c, n == 3 ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 1, 2, 3});
  Labels l = labels_kind(2, n);
  ManagerPtr m(make_manager(v, l));
  BuildOptions o;
  o.compressed = c.flip("compressed");
  size_t N = size_t(1) << n;
  Table a(N), b(N);
  int pa = c.choose(c.thorough() ? 12 : 5, "a"), pb = c.choose(c.thorough() ? 6 : 3, "b");
  for (size_t x = 0; x < N; x++) {
    a[x] = (x * (pa + 2) + pa) % 5 < 3 ? 1 + (double)((x * 3) % 4) : 0;
    b[x] = (x * (pb + 3)) % 7 < 4 ? 1 + (double)(x % 3) : 0;
  }
  if (total(a) == 0 || total(b) == 0) c.skip();
  PsddNode *p = build(m.get(), v, l, a, o), *q = build(m.get(), v, l, b, o);
  std::vector<PsddNode *> all = reachable(p);
  for (auto x : reachable(q))
    if (std::find(all.begin(), all.end(), x) == all.end()) all.push_back(x);
  int k = c.choose(3, "roots");
  std::vector<PsddNode *> rs{all[c.choose((int)all.size(), "r1")], all[c.choose((int)all.size(), "r2")]};
  if (k == 1) rs.insert(rs.begin() + 1, q);
  if (k == 2) rs.push_back(rs[0]);
  if (c.describing()) {
    c.describe("\nvtree " + str(v));
    for (auto r : rs) c.describe("root " + str(r));
  }
  check_sampling(c, m.get(), rs, &l, 6, false);
}
void wide(Chooser &c) {
  Wide w = choose_wide(c);
  check_sampling(c, w.manager.get(), {w.node}, &w.labels, 1, c.flip("single"));
}
void chains(Chooser &c) {
  Chain ch = choose_chain(c);
  check_sampling(c, ch.manager.get(), {ch.node}, nullptr, 1, c.flip("single"));
}
// the library's own generators
void gamma_(Chooser &c) {
  Family f = choose_family(c, 0);
  Instance i = build_instance(c, f);
  static const double al[] = {0.5, 1, 5};
  double a = al[c.choose(3, "shape")], b = c.flip("scale") ? 3 : 1;
  unsigned seed = c.choose(4, "seed");
  RandomDoubleFromGammaGenerator g1(a, b, seed), g2(a, b, seed);
  PsddNode *x = i.manager->SampleParameters(&g1, i.node, 4), *y = i.manager->SampleParameters(&g2, i.node, 4);
  MC_CHECK(x == y, "repeat", "the same stream gives another PSDD");
  check_normalized(x, "sampled");
  Matcher m{i.labels, "structure"};
  m.hook = [&](PsddNode *, PsddNode *, const std::vector<size_t> &) { c.op(); };
  m.run(i.node, x);
  c.state(fingerprint(x));
}
void giant(Chooser &c) {
  Chain ch = choose_giant(c, 1000);
  check_sampling(c, ch.manager.get(), {ch.node}, nullptr, 1, false, c.thorough() ? 0 : 1);
}
// every parameter is fresh: a structure with more nodes and elements than 2^16
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  struct G : RandomDoubleGenerator {
    double generate() override {
      k += 1;
      return 1 + std::fmod(k * 0.6180339887498949, 1.0);
    }
    double k = 0;
  } g;
  auto res = h.manager->SampleParametersForMultiplePsdds(&g, {h.node, h.node}, 9);
  MC_CHECK(res.size() == 2 && res[0] == res[1] && res[0], "roots", "%zu results", res.size());
  check_wellformed(res[0], h.manager->vtree(), 9, "sampled");
  check_normalized(res[0], "sampled", 1e-5);
  BigMatcher m{"structure"};
  std::map<PsddNode *, PsddNode *> image;
  m.hook = [&](PsddNode *a, PsddNode *b, const std::vector<size_t> &order) {
    auto o = image.emplace(a, b);
    MC_CHECK(o.first->second == b, "sharing", "a shared node is sampled twice");
    // draws lie in [1,2): no parameter is more than twice another of the same node
    std::vector<double> w;
    if (a->node_type() == TOP_NODE_TYPE) w = {log_true(b), log_false(b)};
    for (size_t i = 0; i < order.size(); i++) w.push_back(log_param(b, order[i]));
    c.op();
    if (w.empty()) return;
    double lo = *std::min_element(w.begin(), w.end()), hi = *std::max_element(w.begin(), w.end());
    MC_CHECK(std::isfinite(lo) && hi - lo < log(2) + 1e-6, "draws", "parameters of %zu draws in [1,2) range from %.9g to %.9g", w.size(), lo, hi);
  };
  m.run(h.node, res[0]);
  c.state(mc::mix((uint64_t)h.kind, image.size()));
}
}  // namespace

void mc::register_scenarios(bool) {
  add("family", family);
  add("roots3", [](Chooser &c) { roots(c, 3); });
  add("roots4", [](Chooser &c) { roots(c, 4); });
  add("wide", wide);
  add("chains", chains);
  add("giant", giant);
  add("gamma", gamma_);
  add("huge", huge);
}
