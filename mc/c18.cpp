// C18  constructed vtrees contain each variable exactly once
#include <psdd/hypergraph_decomposition_vtree.h>
#include <psdd/jointree_vtree.h>
#include <psdd/minfill_vtree.h>

#include <sys/stat.h>

#include <algorithm>

#include "net.h"
#include "shim_explorer.h"
using namespace ref;

namespace {
using Scopes = std::vector<std::vector<size_t>>;
std::string str(const Scopes &s) {
  std::string r;
  for (auto &x : s) {
    r += "{";
    for (auto v : x) r += " " + std::to_string(v);
    r += " }";
  }
  return r;
}
// a non-decreasing sequence of m scopes, as bit masks over n variables
Scopes choose_scopes(Chooser &c, int n, int m, bool distinct, int min_size = 0, int max_size = 99) {
  std::vector<unsigned> masks;
  for (unsigned k = 0; k < (1u << n); k++)
    if (__builtin_popcount(k) >= min_size && __builtin_popcount(k) <= max_size) masks.push_back(k);
  Scopes s;
  size_t from = 0;
  for (int i = 0; i < m; i++) {
    if (from >= masks.size()) c.skip();
    size_t k = from + c.choose((int)(masks.size() - from), "scope");
    std::vector<size_t> sc;
    for (int v = 0; v < n; v++)
      if ((masks[k] >> v) & 1) sc.push_back(v + 1);
    // scopes are lists: alternate directions
    if (i % 2) std::reverse(sc.begin(), sc.end());
    s.push_back(sc);
    from = distinct ? k + 1 : k;
  }
  return s;
}
UaiNetwork network(int n, const Scopes &s) {
  std::vector<std::vector<PsddParameter>> params;
  for (auto &x : s) params.emplace_back(size_t(1) << x.size(), PsddParameter::CreateFromDecimal(1));
  return UaiNetwork(n, s.size(), MARKOV_NETWORK_TYPE, s, params);
}
// exactly the variables 1..n, each once, and consistent positions, parents and counts
void check_vtree(Chooser &c, Vtree *v, int n, const char *what) {
  MC_CHECK(v != nullptr, "missing", "%s: no vtree", what);
  MC_CHECK(sdd_vtree_parent(v) == nullptr, "malformed", "%s: the root has a parent", what);
  std::vector<int> seen(n + 1, 0);
  long pos = 0;
  std::set<Vtree *> nodes;
  uint64_t h = 7;
  std::function<long(Vtree *)> rec = [&](Vtree *x) -> long {
    MC_CHECK(x != nullptr && nodes.insert(x).second, "malformed", "%s: a node is missing or appears twice", what);
    if (sdd_vtree_is_leaf(x)) {
      long var = sdd_vtree_var(x);
      MC_CHECK(var >= 1 && var <= n, "foreign", "%s: leaf for variable %ld of %d", what, var, n);
      MC_CHECK(!seen[var]++, "twice", "%s: variable %ld appears twice", what, var);
      MC_CHECK(sdd_vtree_position(x) == pos++, "malformed", "%s: position", what);
      h = mc::mix(h, (uint64_t)var);
      return 1;
    }
    MC_CHECK(sdd_vtree_parent(sdd_vtree_left(x)) == x && sdd_vtree_parent(sdd_vtree_right(x)) == x, "malformed", "%s: parent", what);
    long a = rec(sdd_vtree_left(x));
    MC_CHECK(sdd_vtree_position(x) == pos++, "malformed", "%s: position", what);
    long b = rec(sdd_vtree_right(x));
    MC_CHECK((long)sdd_vtree_var_count(x) == a + b, "malformed", "%s: count", what);
    h = mc::mix(h, 99);
    return a + b;
  };
  long k = rec(v);
  c.op();
  MC_CHECK(k == n, "lost", "%s: %ld of %d variables", what, k, n);
  c.state(h);
}
void run(Chooser &c, int method, int n, const Scopes &s, const std::vector<int> *forced = nullptr) {
  UaiNetwork net = network(n, s);
  c.describef("%s over %d variables", n > 20 ? "" : str(s).c_str(), n);
  if (forced)
    mcshim::begin_forced(*forced);
  else
    mcshim::begin(&c);
  static const char *names[] = {"elimination order", "join tree", "hypergraph"};
  Vtree *v = method == 0 ? MinFillVtree(&net).ConstructVtree() : method == 1 ? JointreeVtree(&net).ConstructVtree() : HypergraphDecompositionVtree(&net, c.scratch().c_str()).ConstructVtree();
  check_vtree(c, v, n, names[method]);
  MC_CHECK(net.var_size() == (size_t)n && net.factor_scopes() == s, "network", "the network was changed");
  sdd_vtree_free(v);
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  // every network of at most m distinct scopes over at most n variables, every order
  mc::add("elimination", [=](Chooser &c) {
    int n = 1 + c.choose(thorough ? 6 : 5, "n");
    int m = c.choose(1 + (n == 6 ? 2 : n == 5 ? (thorough ? 4 : 2) : n == 4 ? (thorough ? 6 : 4) : 4), "factors");
    run(c, 0, n, choose_scopes(c, n, m, true));
  });
  // every decomposition: order, root, redundant bags, empty ends
  mc::add("join tree", [=](Chooser &c) {
    int n = 1 + c.choose(5, "n");
    int m = c.choose(1 + (n == 5 ? (thorough ? 3 : 2) : n == 4 ? (thorough ? 5 : 3) : 4), "factors");
    run(c, 1, n, choose_scopes(c, n, m, true));
  });
  // every balanced bipartition at every level of the recursion
  mc::add("hypergraph", [=](Chooser &c) {
    int n = 1 + c.choose(5, "n");
    int m = c.choose(1 + (n == 5 ? (thorough ? 5 : 4) : thorough ? 7 : 5), "factors");
    run(c, 2, n, choose_scopes(c, n, m, false));
  });
  // deeper recursion: many small factors
  mc::add("hypergraph deep", [=](Chooser &c) {
    int n = 5 + c.choose(thorough ? 5 : 3, "n");
    int pattern = c.choose(5, "pattern");
    Scopes s;
    for (int i = 0; i < n; i++) {
      size_t a = i + 1, b = (i + 1) % n + 1;
      if (pattern == 0 && i + 1 < n) s.push_back({a, b});                 // chain
      if (pattern == 1) s.push_back({b, a});                              // cycle
      if (pattern == 2 && i > 0) s.push_back({1, a});                     // star
      if (pattern == 3) s.push_back({a}), (i % 2 ? s.push_back({a, b}) : void());  // singles and pairs
      if (pattern == 4 && i + 2 < n) s.push_back({a, b, (size_t)i + 3});  // windows of three
    }
    if (s.size() > (thorough ? 10u : 9u)) c.skip();
    run(c, 2, n, s);
  });
  // working directories with long names
  mc::add("directory", [=](Chooser &c) {
    int len = 1 + c.choose(12, "length") * 110;
    std::string d = c.scratch();
    while (len > 0) {
      int k = std::min(len, 200);
      d += "/" + std::string((size_t)k, 'd');
      mkdir(d.c_str(), 0755);
      len -= k;
    }
    Scopes s{{1, 2}, {2, 3}, {3, 4}, {4, 1}};
    UaiNetwork net = network(4, s);
    c.describef("working directory of %zu characters", d.size());
    mcshim::begin(&c);
    Vtree *v = HypergraphDecompositionVtree(&net, d.c_str()).ConstructVtree();
    check_vtree(c, v, 4, "hypergraph");
    sdd_vtree_free(v);
  });
  mc::add("larger orders", [=](Chooser &c) {
    int n = thorough ? 6 : 5, method = c.choose(2, "method"), pattern = c.choose(5, "pattern");
    Scopes s;
    for (int i = 0; i < n; i++) {
      size_t a = i + 1, b = (i + 1) % n + 1;
      if (pattern == 0 && i + 1 < n) s.push_back({a, b});
      if (pattern == 1) s.push_back({b, a});
      if (pattern == 2 && i > 0) s.push_back({1, a});
      if (pattern == 3 && i % 2 == 0) s.push_back({a, b});
      if (pattern == 4 && i + 2 < n) s.push_back({a, b, (size_t)i + 3});
    }
    run(c, method, n, s);
  });
  // many variables; the libraries answer by a rule
  mc::add("large", [=](Chooser &c) {
    std::vector<int> sizes{30, 64, 130};
    if (thorough) sizes = {33, 65, 100, 129, 200, 260};
    int n = c.pick(sizes, "n"), method = c.choose(3, "method"), pattern = c.choose(6, "pattern");
    Scopes s;
    for (int i = 0; i < n; i++) {
      size_t a = i + 1, b = (i + 1) % n + 1;
      if (pattern == 0 && i + 1 < n) s.push_back({a, b});
      if (pattern == 1) s.push_back({b, a});
      if (pattern == 2 && i > 0) s.push_back({1, a});
      if (pattern == 3 && i % 3 == 0) s.push_back({a, b});                                    // pairs and variables without a factor
      if (pattern == 4 && i + 7 < n && i % 5 == 0) s.push_back({a, b, a + 2, a + 3, a + 4, a + 5, a + 7});  // overlapping windows
      if (pattern == 5) s.push_back({a}), s.push_back({a, b}), s.push_back({b});
    }
    int step = c.choose(5, "answers"), form = c.choose(4, "form");
    std::vector<int> answers;
    for (int i = 0; i < 20000; i++) answers.push_back(step == 0 ? 0 : step == 1 ? i : step == 2 ? i / 3 : step == 3 ? i * i / 5 + 1 : 1000000 - i);
    // the questions htd asks after the order
    if (method < 2 && (size_t)n < answers.size()) answers[(size_t)n] = form, answers[(size_t)n - 1] = (form * n / 4);
    if (method == 2 && form) c.skip();
    run(c, method, n, s, &answers);
  });
}
