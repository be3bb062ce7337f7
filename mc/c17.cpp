// C17  a compiled network is the normalised product of its factors
#include <psdd/pgm_compiler.h>

#include "family.h"
#include "net.h"
#include "shim_explorer.h"
using namespace ref;

namespace {
// compiles g with a fresh compiler under vtree v and the given strategy
struct Compiled {
  std::shared_ptr<PgmCompiler> pc;
  PsddNode *p = nullptr;
  double logz = 0;
};
struct Files {
  std::string uai, vtree;
};
Files write(Chooser &c, const Network &g, const VTP &v, int layout) {
  Files f{c.scratch() + "/n.uai", c.scratch() + "/n.vtree"};
  mc::write_file(f.uai, text(g, layout));
  Vtree *w = to_sdd(v, dense(g.n));
  sdd_vtree_save(f.vtree.c_str(), w);
  sdd_vtree_free(w);
  return f;
}
std::shared_ptr<PgmCompiler> load(Chooser &c, const Files &f) {
  auto pc = std::shared_ptr<PgmCompiler>(new PgmCompiler(c.scratch()), [](PgmCompiler *p) {
    delete p->psdd_manager();
    delete p;
  });
  pc->read_uai_file(f.uai.c_str());
  pc->init_psdd_manager_from_vtree(f.vtree.c_str());
  return pc;
}
// Z * p(x) is w(x) for every x
template <class W>
void verify(Chooser &c, int n, PsddManager *m, PsddNode *p, double logz, W w, const char *what) {
  long double total = 0;
  for (unsigned x = 0; x < (1u << n); x++) total += w(x);
  c.op();
  if (total == 0) {
    MC_CHECK(p == nullptr && std::isinf(logz) && logz < 0, "zero", "%s: the product is zero everywhere, but %s and log Z = %g", what, p ? "there is a PSDD" : "there is no PSDD", logz);
    return;
  }
  MC_CHECK(p != nullptr, "missing", "%s: no PSDD although the product is not zero everywhere", what);
  Labels labels = dense(n);
  check_wellformed(p, m->vtree(), -1, what);
  check_normalized(p, what);
  MC_CHECK(close_log(logz, (double)logl(total), 1e-6), "constant", "%s: log Z = %.9g instead of %.9Lg", what, logz, logl(total));
  for (unsigned x = 0; x < (1u << n); x++) {
    long double q = prob(p, Assign{&labels, x}), e = w(x) / total;
    c.op();
    if (w(x) == 0)
      MC_CHECK(q == 0, "product", "%s: assignment %x has probability %Lg instead of 0", what, x, q);
    else
      MC_CHECK(fabsl(q - e) <= 2e-6L * e + 1e-300L, "product", "%s: assignment %x has probability %.9Lg instead of %.9Lg", what, x, q, e);
  }
}
void factors(Chooser &c, const Network &g, const Files &f) {
  auto pc = load(c, f);
  for (size_t i = 0; i < g.f.size(); i++) {
    auto r = pc->compile_factor(i);
    verify(c, g.n, pc->psdd_manager(), r.first, r.second.parameter(), [&](unsigned x) { return (long double)entry(g.f[i], x); }, ("factor " + std::to_string(i)).c_str());
    if (r.first) c.state(fingerprint(r.first));
  }
}
void network(Chooser &c, const Network &g, const Files &f, int strategy, size_t gc) {
  auto pc = load(c, f);
  auto r = strategy == 0 ? pc->compile_network(gc) : strategy == 1 ? pc->compile_network_dc(gc) : pc->compile_network_with_vtree(gc);
  static const char *names[] = {"sequential", "divide and conquer", "along the vtree"};
  verify(c, g.n, pc->psdd_manager(), r.first, r.second.parameter(), [&](unsigned x) { return product(g, x); }, names[strategy]);
  if (r.first) {
    c.state(fingerprint(r.first));
    // and the model can be used
    auto ser = psdd_node_util::SerializePsddNodes(r.first);
    auto mpe = psdd_node_util::GetMPESolution(ser);
    long double best = 0;
    for (unsigned x = 0; x < (1u << g.n); x++) best = std::max(best, product(g, x));
    c.op();
    MC_CHECK(close_log(mpe.second.parameter() + r.second.parameter(), (double)logl(best), 1e-6), "mpe", "%s: largest product is exp(%.9Lg), the model says exp(%.9g)", names[strategy], logl(best), mpe.second.parameter() + r.second.parameter());
  }
}
void all_strategies(Chooser &c, const Network &g, const Files &f, const std::vector<size_t> &gcs) {
  for (size_t gc : gcs)
    for (int s = 0; s < 3; s++) network(c, g, f, s, gc);
}
// networks of many variables
void lines(Chooser &c) {
  std::vector<int> sizes{20, 40, 70};
  if (c.thorough()) sizes = {16, 33, 64, 65, 100, 150};
  int n = c.pick(sizes, "n"), kind = c.choose(4, "kind"), shape = c.choose(3, "shape"), strategy = c.choose(3, "strategy");
  size_t gc = c.flip("collect often") ? 1 : 100;
  Network g;
  g.n = n;
  g.bayes = false;
  auto add = [&](std::vector<int> scope, int k) {
    Factor f;
    f.scope = scope;
    f.w.resize(size_t(1) << scope.size());
    for (size_t i = 0; i < f.w.size(); i++) f.w[i] = 0.25 * (1 + (double)((i * 5 + 3 * (size_t)k + 2) % 7));
    if (k % 6 == 5) f.w[k % f.w.size()] = 0;
    g.f.push_back(f);
  };
  for (int i = 0; i + 1 < n; i++) {
    if (kind == 3 && i % 4 == 3) continue;  // pieces, and variables without a factor
    add(i % 2 ? std::vector<int>{i, i + 1} : std::vector<int>{i + 1, i}, i);
    if (kind == 1) add({i}, i + 2);
  }
  if (kind == 2) add({0, n - 1}, 3);
  if (kind == 3) std::reverse(g.f.begin(), g.f.end());
  VTP v = named_shape(shape, n);
  c.describef("network of %d variables, kind %d, shape %d, strategy %d, gc %zu", n, kind, shape, strategy, gc);
  Files fs = write(c, g, v, (int)(gc % 4));
  auto pc = load(c, fs);
  auto r = strategy == 0 ? pc->compile_network(gc) : strategy == 1 ? pc->compile_network_dc(gc) : pc->compile_network_with_vtree(gc);
  std::vector<int> ev((size_t)n, -1);
  long double total = chain_weight(g, ev);
  c.op();
  MC_CHECK(total > -INFINITY && r.first != nullptr, "missing", "no PSDD although the product is not zero everywhere");
  MC_CHECK(close_log(r.second.parameter(), (double)total, 1e-5), "constant", "log Z = %.9g instead of %.9Lg", r.second.parameter(), total);
  check_wellformed(r.first, pc->psdd_manager()->vtree(), -1, "line");
  check_normalized(r.first, "line");
  for (int pattern = 0; pattern < 6; pattern++)
    for (int i = 0; i < (pattern == 0 ? n : 1); i++) {
      std::vector<signed char> value((size_t)n + 1, -1);
      for (int j = 0; j < n; j++) {
        ev[j] = pattern == 0 ? (j == i ? 1 : -1) : pattern == 1 ? 0 : pattern == 2 ? j % 2 : pattern == 3 ? (j % 5 == 0) : pattern == 4 ? (j % 7 < 2 ? 1 : -1) : (j < n / 2 ? -1 : j % 3 == 0);
        value[j + 1] = (signed char)ev[j];
      }
      long double want = chain_weight(g, ev) - total, got = log_weight(r.first, value);
      c.op();
      MC_CHECK(std::isinf(want) == std::isinf(got) && (std::isinf(want) || fabsl(want - got) <= 1e-5L), "product", "pattern %d %d: log probability %.9Lg instead of %.9Lg", pattern, i, got, want);
    }
  c.state(mc::mix((uint64_t)n, psdd_node_util::SerializePsddNodes(r.first).size()));
}
// factors with many variables
void wide_factor(Chooser &c) {
  int size = c.thorough() ? 5 + c.choose(6, "size") : 5 + 2 * c.choose(3, "size"), n = size + c.choose(2, "more");
  int shape = c.choose(3, "shape"), order = c.choose(3, "order"), zeros = c.choose(4, "zeros");
  VTP v = named_shape(shape, n);
  Network g;
  g.n = n;
  Factor f;
  for (int i = 0; i < size; i++) f.scope.push_back(order == 0 ? i : order == 1 ? n - 1 - i : (i * 3 + 1) % size);
  if (order == 2 && size % 3 == 0) c.skip();
  f.w.resize(size_t(1) << size);
  for (size_t i = 0; i < f.w.size(); i++) {
    f.w[i] = 1 + (double)((i * 7919 + 5) % 97);
    if (zeros == 1 && i % 3 == 0) f.w[i] = 0;
    if (zeros == 2 && i % 16 != 9) f.w[i] = 0;
    if (zeros == 3 && i + 1 != f.w.size()) f.w[i] = 0;
  }
  g.f.push_back(f);
  Factor h;
  h.scope = {n - 1, 0};
  h.w = {1, 2, 3, 4};
  g.f.push_back(h);
  c.describef("factor over %d of %d variables, order %d, zeros %d, shape %d", size, n, order, zeros, shape);
  Files fs = write(c, g, v, 0);
  factors(c, g, fs);
  network(c, g, fs, c.choose(3, "strategy"), 1);
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  // one factor: every ordered scope, table and vtree
  mc::add("factor", [=](Chooser &c) {
    int n = 1 + c.choose(4, "n");
    VTP v = n <= 3 ? choose_vtree(c, n) : thorough ? choose_vtree(c, 4) : choose_shape(c, {2, 0, 3, 1});
    int size = c.choose(std::min(n, 4) + 1, "size");
    Network g;
    g.n = n;
    g.bayes = (n + size) % 2;
    Factor f;
    f.scope = choose_scope(c, n, size);
    if (size == 0)
      f.w = {c.pick(std::vector<double>{0, 1, 2.5, 1e-200}, "constant")};
    else if (size == 1)
      f.w = choose_table(c, 1, {0, 1, 2.5}, false);
    else if (size == 2)
      f.w = choose_table(c, 2, {0, 1, 3}, false);
    else if (size == 3) {
      f.w = choose_table(c, 3, {0, 1}, false);
      for (size_t i = 0; i < 8; i++) f.w[i] *= 1 + (double)((i * 5 + 3) % 8);
    } else {
      int a = c.choose(17, "from"), len = c.choose(thorough ? 16 : 5, "length");
      bool comp = c.flip("complement");
      f.w.assign(16, 0);
      for (int i = 0; i < 16; i++) f.w[i] = (a < 16 && (i + 16 - a) % 16 <= len) == comp ? 0 : 1 + (i * 7 + 3) % 16;
    }
    g.f.push_back(f);
    int layout = c.choose(n <= 2 ? 4 : 1, "layout");
    c.describef("%s vtree %s", str(g).c_str(), str(v).c_str());
    Files fs = write(c, g, v, layout);
    factors(c, g, fs);
    all_strategies(c, g, fs, {1});
  });
  // two factors over two and three variables: every pair of ordered scopes and 0/1 patterns
  mc::add("two", [=](Chooser &c) {
    int n = 2 + c.choose(2, "n");
    VTP v = n == 2 || thorough ? choose_vtree(c, n) : choose_shape(c, c.flip("order") ? std::vector<int>{1, 2, 0} : std::vector<int>{0, 1, 2});
    Network g;
    g.n = n;
    for (int k = 0; k < 2; k++) {
      Factor f;
      int size = c.choose(3, "size");
      f.scope = choose_scope(c, n, size);
      f.w = choose_table(c, size, {0, 1}, false);
      for (size_t i = 0; i < f.w.size(); i++) f.w[i] *= 1 + (double)((i * 3 + k + 1) % 5);
      g.f.push_back(f);
    }
    c.describef("%s vtree %s", str(g).c_str(), str(v).c_str());
    Files fs = write(c, g, v, c.thorough() ? c.choose(4, "layout") : 0);
    all_strategies(c, g, fs, {1});
  });
  // three to five factors, one of them with zeros, every collection frequency
  mc::add("many", [=](Chooser &c) {
    int n = 3 + c.choose(2, "n");
    VTP v = choose_shape(c, n == 3 ? std::vector<int>{1, 2, 0} : std::vector<int>{2, 0, 3, 1});
    int m = 3 + c.choose(thorough ? 4 : 3, "factors");
    int pattern = c.choose(6, "pattern"), zeros = c.choose(thorough ? 6 : 4, "zeros"), where = c.choose(m, "zeros in");
    Network g;
    g.n = n;
    for (int k = 0; k < m; k++) {
      Factor f;
      // chain, star, singles and pairs, triples, all on one variable, constants and pairs
      if (pattern == 0) f.scope = {k % n, (k + 1) % n};
      if (pattern == 1) f.scope = {(k + 1) % n == 0 ? 1 : (k + 1) % n, 0};
      if (pattern == 2) f.scope = k % 2 ? std::vector<int>{k % n} : std::vector<int>{(k + 1) % n, k % n};
      if (pattern == 3) f.scope = {(k + 2) % n, k % n, (k + 1) % n};
      if (pattern == 4) f.scope = {n - 1};
      if (pattern == 5 && k % 2 == 0) f.scope = {(k + 2) % n, k % n};
      f.w.resize(size_t(1) << f.scope.size());
      for (size_t i = 0; i < f.w.size(); i++) f.w[i] = 1 + (double)((i * 5 + 3 * k + 2) % 7);
      if (k == where && zeros > 0) {
        size_t z = (size_t)zeros - 1;
        if (z == 2)
          for (auto &x : f.w) x = 0;
        else if (z == 3)
          for (size_t i = 0; i < f.w.size(); i += 2) f.w[i] = 0;
        else if (z == 4)
          for (size_t i = 0; i + 1 < f.w.size(); i++) f.w[i] = 0;
        else
          f.w[z % f.w.size()] = 0;
      }
      // a contradiction spread over two factors
      if (zeros == 3 && k == (where + 1) % m) f.w[0] = f.w[1 % f.w.size()] = 0;
      g.f.push_back(f);
    }
    size_t gc = (size_t)c.choose(3, "gc");
    gc = gc == 0 ? 1 : gc == 1 ? 2 : 100;
    c.describef("%s vtree %s gc %zu", str(g).c_str(), str(v).c_str(), gc);
    Files fs = write(c, g, v, c.choose(4, "layout"));
    all_strategies(c, g, fs, {gc});
    if (gc == 1) factors(c, g, fs);
  });
  // every sequence of factors from a small alphabet: repeated factors, and contradictions at every point
  mc::add("sequences", [=](Chooser &c) {
    static const std::vector<Factor> alphabet{
        {{0}, {1, 2}},          {{0}, {0, 3}},          {{0}, {5, 0}},          {{1}, {0, 2}},
        {{1}, {3, 1}},          {{0, 1}, {2, 0, 0, 3}}, {{1, 0}, {0, 1, 4, 0}}, {{0, 1}, {1, 2, 3, 4}},
        {{}, {3}},              {{2}, {0, 1}},          {{1, 2}, {1, 0, 0, 2}}, {{2, 0}, {0, 3, 1, 2}}, {{2}, {2, 0}},
    };
    Network g;
    g.n = 2 + c.choose(2, "n");
    int m = 2 + c.choose(thorough ? 4 : 3, "factors"), size = g.n == 2 ? 9 : (int)alphabet.size();
    if (g.n == 3 && m > (thorough ? 4 : 3)) c.skip();
    VTP v = choose_shape(c, g.n == 2 ? std::vector<int>{1, 0} : std::vector<int>{2, 0, 1});
    for (int i = 0; i < m; i++) g.f.push_back(alphabet[(size_t)c.choose(size, "factor")]);
    c.describef("%s vtree %s", str(g).c_str(), str(v).c_str());
    Files fs = write(c, g, v, 0);
    all_strategies(c, g, fs, {1, 2});
  });
  // very small and very large entries
  mc::add("extreme", [=](Chooser &c) {
    static const std::vector<double> w{0, 1, 1e-300, 1e300, 1e-12};
    Network g;
    g.n = 2;
    VTP v = choose_vtree(c, 2);
    Factor a, b;
    a.scope = c.flip("order") ? std::vector<int>{1, 0} : std::vector<int>{0, 1};
    a.w = choose_table(c, 2, thorough ? w : std::vector<double>{0, 1, 1e-300, 1e300}, false);
    b.scope = {c.choose(2, "second")};
    b.w = {c.pick(w, "w0"), c.pick(w, "w1")};
    g.f = {a, b};
    c.describef("%s vtree %s", str(g).c_str(), str(v).c_str());
    Files fs = write(c, g, v, 2);
    all_strategies(c, g, fs, {1});
  });
  // the generated vtrees as well
  mc::add("generated", [=](Chooser &c) {
    static const int modes[] = {VTREE_METHOD_MINFILL, VTREE_METHOD_JOINTREE, VTREE_METHOD_HYPER_FIXED_BF};
    int mode = c.choose(3, "method"), n = 3, m = 2 + c.choose(3, "factors"), pattern = c.choose(3, "pattern");
    Network g;
    g.n = n;
    for (int k = 0; k < m; k++) {
      Factor f;
      if (pattern == 0) f.scope = {(k + 1) % n, k % n};
      if (pattern == 1) f.scope = {0, 1 + k % 2};
      if (pattern == 2) f.scope = {k % 2};  // variable 2 is in no factor
      f.w.resize(size_t(1) << f.scope.size());
      for (size_t i = 0; i < f.w.size(); i++) f.w[i] = (double)((i * 5 + 3 * k + 2) % 7);
      g.f.push_back(f);
    }
    std::string uai = c.scratch() + "/n.uai";
    mc::write_file(uai, text(g, 0));
    mcshim::begin(&c);
    PgmCompiler pc(c.scratch());
    pc.read_uai_file(uai.c_str());
    pc.init_psdd_manager(modes[mode]);
    std::vector<SddLiteral> ls = vtree_util::LeftToRightLeafTraverse(pc.psdd_manager()->vtree());
    std::sort(ls.begin(), ls.end());
    c.op();
    MC_CHECK(ls == (std::vector<SddLiteral>{1, 2, 3}), "vtree", "the generated vtree does not contain each variable once");
    auto r = pc.compile_network_dc(1);
    verify(c, n, pc.psdd_manager(), r.first, r.second.parameter(), [&](unsigned x) { return product(g, x); }, "generated vtree");
    if (r.first) c.state(fingerprint(r.first));
    delete pc.psdd_manager();
  });
  // no factor at all, and constants only
  mc::add("none", [=](Chooser &c) {
    Network g;
    g.n = 1 + c.choose(thorough ? 7 : 5, "n");
    VTP v = g.n <= 4 ? choose_vtree(c, g.n) : named_shape(c.choose(3, "shape"), g.n);
    for (int m = c.choose(4, "constants"); m > 0; m--) {
      Factor f;
      f.w = {c.pick(std::vector<double>{2, 0, 0.125}, "constant")};
      g.f.push_back(f);
    }
    c.describef("%s vtree %s", str(g).c_str(), str(v).c_str());
    Files fs = write(c, g, v, c.choose(4, "layout"));
    factors(c, g, fs);
    all_strategies(c, g, fs, {1, 100});
  });
  // one compiler asked several times: every sequence of strategies and single factors
  mc::add("again", [=](Chooser &c) {
    Network g;
    g.n = 3;
    int kind = c.choose(4, "kind"), m = 3;
    for (int k = 0; k < m; k++) {
      Factor f;
      if (kind < 2) f.scope = {(k + 1) % 3, k};
      if (kind == 2 && k < 2) f.scope = {k};
      if (kind == 3) f.scope = {(k + 2) % 3, k, (k + 1) % 3};
      f.w.resize(size_t(1) << f.scope.size());
      for (size_t i = 0; i < f.w.size(); i++) f.w[i] = 1 + (double)((i * 5 + 3 * k + 2) % 7);
      // a contradiction that shows at the last product only
      if (kind == 1) f.w = k == 0 ? std::vector<double>{2, 0, 0, 1} : k == 1 ? std::vector<double>{1, 0, 0, 3} : std::vector<double>{0, 1, 1, 0};
      g.f.push_back(f);
    }
    VTP v = choose_shape(c, {2, 0, 1});
    size_t gc = c.flip("collect") ? 1 : 100;
    c.describef("%s vtree %s gc %zu", str(g).c_str(), str(v).c_str(), gc);
    Files fs = write(c, g, v, 0);
    auto pc = load(c, fs);
    struct Result {
      int what;
      std::pair<PsddNode *, PsddParameter> r;
    };
    std::vector<Result> rs;
    int depth = thorough ? 5 : 4;
    for (int step = 0; step < depth; step++) {
      int what = c.choose(3 + m, "ask");
      size_t f = (size_t)(what - 3);
      auto r = what == 0 ? pc->compile_network(gc) : what == 1 ? pc->compile_network_dc(gc) : what == 2 ? pc->compile_network_with_vtree(gc) : pc->compile_factor(f);
      // a compilation that collects removes what is not its own
      if (gc == 1) rs.clear();
      rs.push_back({what, r});
      for (auto &x : rs) verify(c, g.n, pc->psdd_manager(), x.r.first, x.r.second.parameter(), [&](unsigned a) { return x.what < 3 ? product(g, a) : (long double)entry(g.f[(size_t)x.what - 3], a); }, "again");
      if (r.first) c.state(fingerprint(r.first));
    }
  });
  // one network object that reads several files: what it holds is the last one
  mc::add("reread", [=](Chooser &c) {
    UaiNetwork u;
    std::string trail;
    for (int step = 0; step < (thorough ? 4 : 3); step++) {
      Network g;
      g.n = 2 + c.choose(2, "n");
      g.bayes = c.flip("bayes");
      int m = c.choose(3, "factors");
      for (int k = 0; k < m; k++) {
        Factor f;
        if (k == 0) f.scope = {g.n - 1, 0};
        if (k == 1) f.scope = {1};
        f.w.resize(size_t(1) << f.scope.size());
        for (size_t i = 0; i < f.w.size(); i++) f.w[i] = (double)(step + 1) / (double)(1 + i);
        g.f.push_back(f);
      }
      trail += str(g) + " ; ";
      c.describe(trail);
      std::string file = c.scratch() + "/r.uai";
      mc::write_file(file, text(g, step));
      u.read_file(file.c_str());
      c.op();
      MC_CHECK(u.var_size() == (size_t)g.n && u.factor_size() == g.f.size() && (u.network_type() == BAYESIAN_NETWORK_TYPE) == g.bayes, "reread", "sizes after reading %s", str(g).c_str());
      MC_CHECK(u.factor_scopes().size() == g.f.size() && u.params().size() == g.f.size(), "reread", "%zu scopes and %zu tables after reading %s", u.factor_scopes().size(), u.params().size(), str(g).c_str());
      for (size_t k = 0; k < g.f.size(); k++) {
        std::vector<size_t> want;
        for (int x : g.f[k].scope) want.push_back((size_t)x + 1);
        MC_CHECK(u.factor_scopes()[k] == want && u.params()[k].size() == g.f[k].w.size(), "reread", "factor %zu after reading %s", k, str(g).c_str());
        for (size_t i = 0; i < g.f[k].w.size(); i++) MC_CHECK(close_log(u.params()[k][i].parameter(), log(g.f[k].w[i]), 1e-9), "reread", "entry %zu of factor %zu", i, k);
      }
      c.state(mc::hash_str(str(g)));
    }
  });
  mc::add("lines", lines);
  mc::add("wide factor", wide_factor);
}
