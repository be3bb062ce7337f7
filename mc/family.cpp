#include "family.h"

#include <functional>
#include <unordered_map>

#include <functional>
#include <limits>

namespace ref {
Vtree *root_vtree(const ManagerPtr &m) { return m->vtree(); }
long double logadd(long double a, long double b) {
  if (a < b) std::swap(a, b);
  if (std::isinf(b)) return a;
  return a + log1pl(expl(b - a));
}

Family choose_family(Chooser &c, int size) {
  Family f;
  bool th = c.thorough() && size == 1;
  int kind = c.choose(size == 0 ? 3 : 4, "family");
  f.n = kind + 1;
  if (kind == 0) {
    f.v = leaf(0);
    f.labels = choose_labels(c, 1);
    f.o = choose_options(c);
    f.o.flag = c.choose(2, "flag") * 7;
    f.t = choose_table(c, 1, {0, 1, 2, 1e-3});
  } else if (kind == 1) {
    f.v = choose_vtree(c, 2);
    f.labels = size == 0 ? dense(2) : choose_labels(c, 2);
    f.o = choose_options(c);
    f.o.flag = size == 0 ? 0 : c.choose(2, "flag") * 3;
    f.t = choose_table(c, 2, th ? std::vector<double>{0, 1, 2, 1e-4} : std::vector<double>{0, 1, 3});
  } else if (kind == 2) {
    if (size == 0) {
      f.v = choose_shape(c, {0, 1, 2});
      f.o.compressed = !c.flip("split");
    } else {
      f.v = choose_vtree(c, 3);
      f.o = choose_options(c);
    }
    f.labels = dense(3);
    if (th) {
      f.t = choose_table(c, 3, {0, 1, 3});
    } else {
      bool distinct = size == 0 ? true : c.flip("distinct weights");
      f.t = choose_table(c, 3, {0, 1});
      if (distinct)
        for (size_t i = 0; i < 8; i++) f.t[i] *= 1 + (double)((i * 5 + 3) % 8);
    }
  } else {
    f.v = choose_shape(c, {0, 1, 2, 3});
    f.labels = labels_kind(th ? 0 : c.choose(2, "labels") * 2, 4);
    f.o.compressed = !c.flip("split");
    f.t.assign(16, 0);
    if (th) {
      for (auto &x : f.t) x = c.choose(2, "");
      if (total(f.t) == 0) c.skip();
    } else {
      // supports: every interval of assignments, and every interval's complement
      int a = c.choose(16, "from"), b = a + c.choose(16 - a, "to");
      bool comp = c.flip("complement");
      for (int i = 0; i < 16; i++) f.t[i] = (i >= a && i <= b) != comp;
      if (total(f.t) == 0) c.skip();
    }
    for (size_t i = 0; i < 16; i++) f.t[i] *= 1 + (double)((i * 7 + 3) % 16);
  }
  if (c.describing())
    c.describe("\nvtree " + str(f.v) + " labels " + str(f.labels) + " weights " + str(f.t) + " " + str(f.o));
  return f;
}

Instance build_at(Chooser &c, const Family &f, int place) {
  Instance i;
  i.v = f.v;
  i.labels = f.labels;
  i.dist = normalized(f.t);
  Labels all = f.labels;
  all.push_back(all[0] == 65535 || all[0] == 7 ? 11 : 900);
  i.root = place == 0 ? f.v : place == 1 ? inode(f.v, leaf(f.n)) : inode(leaf(f.n), f.v);
  i.manager.reset(make_manager(i.root, all));
  i.node = build(i.manager.get(), f.v, f.labels, f.t, f.o);
  if (c.describing()) c.describe("circuit " + str(i.node));
  return i;
}
Instance build_instance(Chooser &c, const Family &f) { return build_at(c, f, 0); }
Instance build_embedded(Chooser &c, const Family &f) { return build_at(c, f, c.choose(2, "side") + 1); }

Instance choose_awkward(Chooser &c) {
  static const std::vector<double> w = {1, 1 + 1e-8, 1 + 3e-6, 1e-12, 1e-290, 0};
  Family f;
  if (!c.flip("three variables")) {
    f.n = 2;
    f.v = choose_vtree(c, 2);
    f.labels = dense(2);
    f.o = choose_options(c);
    f.t = choose_table(c, 2, w);
  } else {
    f.n = 3;
    f.v = choose_shape(c, {0, 1, 2});
    f.labels = labels_kind(2, 3);
    f.o = choose_options(c);
    // one odd weight among equal ones, and pairs
    f.t.assign(8, 1);
    int a = c.choose(8, "place"), b = c.choose(8, "place2");
    f.t[a] = c.pick(w, "w");
    f.t[b] = c.pick(w, "w2");
  }
  return build_instance(c, f);
}

long double Chain::log_prob(const std::vector<int> &ev) const {
  const long double ninf = -std::numeric_limits<long double>::infinity();
  long double a0 = 0, a1 = ninf;  // previous variable false / true; start as false
  for (size_t i = 0; i < ev.size(); i++) {
    long double t = logadd(a0 + logl(p0[i]), a1 + logl(p1[i]));
    long double f = logadd(a0 + log1pl(-(long double)p0[i]), a1 + log1pl(-(long double)p1[i]));
    a1 = ev[i] == 0 ? ninf : t;
    a0 = ev[i] == 1 ? ninf : f;
  }
  return logadd(a0, a1);
}

static Chain make_chain(Chooser &c, int n, bool markov, int shape, double base, int label_kind) {
  Chain ch;
  ch.v = named_shape(shape, n);
  ch.labels = labels_kind(label_kind, n);
  ch.manager.reset(make_manager(ch.v, ch.labels));
  PsddManager *m = ch.manager.get();
  auto P = [](double x) { return PsddParameter::CreateFromDecimal(x); };
  ch.p0.resize(n);
  ch.p1.resize(n);
  for (int i = 0; i < n; i++) {
    ch.p0[i] = i % 3 == 2 ? 0.25 : base;
    ch.p1[i] = markov ? (i % 2 ? 0.75 : 0.125) : ch.p0[i];
  }
  if (markov) {
    PsddNode *next[2] = {nullptr, nullptr};
    for (int i = n - 1; i >= 0; i--) {
      PsddNode *cur[2];
      for (int prev = 0; prev < 2; prev++) {
        double p = prev ? ch.p1[i] : ch.p0[i];
        if (i == n - 1)
          cur[prev] = m->GetPsddTopNode(ch.labels[i], 0, P(p), P(1 - p));
        else
          cur[prev] = m->GetConformedPsddDecisionNode(
              {m->GetPsddLiteralNode(-ch.labels[i], 0), m->GetPsddLiteralNode(ch.labels[i], 0)}, {next[0], next[1]},
              {P(1 - p), P(p)}, 0);
      }
      next[0] = cur[0];
      next[1] = cur[1];
    }
    ch.node = next[0];
  } else {
    std::function<PsddNode *(const VTP &)> rec = [&](const VTP &v) -> PsddNode * {
      if (v->leaf()) return m->GetPsddTopNode(ch.labels[v->var], 0, P(ch.p0[v->var]), P(1 - ch.p0[v->var]));
      PsddNode *a = rec(v->l), *b = rec(v->r);
      return m->GetConformedPsddDecisionNode({a}, {b}, {P(1)}, 0);
    };
    ch.node = rec(ch.v);
  }
  c.describef("chain of %d variables, %s, shape %d, p=%g", n, markov ? "markov" : "independent", shape, base);
  return ch;
}

Chain choose_chain(Chooser &c) {
  static const int quick_n[] = {1, 2, 5, 33, 64, 65, 129, 200};
  int n;
  if (c.thorough())
    n = 1 + c.choose(260, "n");
  else
    n = quick_n[c.choose(8, "n")];
  bool markov = c.flip("markov");
  int shape = markov ? 0 : c.choose(3, "shape");
  static const double ps[] = {0.5, 1e-3, 1e-30, 0.999, 1e-200};
  double base = ps[c.choose(5, "p")];
  return make_chain(c, n, markov, shape, base, c.flip("sparse") ? 2 : 0);
}

Chain choose_giant(Chooser &c, int largest) {
  int kind = c.choose(3, "kind");
  int line = 1200;
  if (kind == 0) return make_chain(c, largest, false, 2, 0.3, c.flip("reversed") ? 1 : 0);
  if (kind == 1) return make_chain(c, line, true, 0, 0.5, c.flip("sparse") ? 2 : 0);
  return make_chain(c, line, false, c.choose(2, "shape"), 0.3, 2);
}
std::vector<std::pair<long double, long double>> chain_marginals(const Chain &ch) {
  std::vector<std::pair<long double, long double>> r;
  const long double ninf = -std::numeric_limits<long double>::infinity();
  long double a0 = 0, a1 = ninf;
  for (size_t i = 0; i < ch.p0.size(); i++) {
    long double t = logadd(a0 + logl(ch.p0[i]), a1 + logl(ch.p1[i]));
    long double f = logadd(a0 + log1pl(-(long double)ch.p0[i]), a1 + log1pl(-(long double)ch.p1[i]));
    a1 = t;
    a0 = f;
    r.push_back({f, t});
  }
  return r;
}

long double log_weight(PsddNode *root, const std::vector<signed char> &value) {
  const long double ninf = -std::numeric_limits<long double>::infinity();
  std::unordered_map<PsddNode *, long double> memo;
  std::function<long double(PsddNode *)> rec = [&](PsddNode *x) -> long double {
    auto it = memo.find(x);
    if (it != memo.end()) return it->second;
    long double r = ninf;
    if (x->node_type() == LITERAL_NODE_TYPE) {
      int v = value[x->psdd_literal_node()->variable_index()];
      r = v < 0 || (v == 1) == x->psdd_literal_node()->sign() ? 0 : ninf;
    } else if (x->node_type() == TOP_NODE_TYPE) {
      int v = value[x->psdd_top_node()->variable_index()];
      long double t = x->psdd_top_node()->true_parameter().parameter(), f = x->psdd_top_node()->false_parameter().parameter();
      r = v < 0 ? logadd(t, f) : v ? t : f;
    } else {
      auto d = x->psdd_decision_node();
      for (size_t i = 0; i < d->primes().size(); i++) {
        long double p = d->parameters()[i].parameter();
        if (p == ninf) continue;
        long double a = rec(d->primes()[i]);
        if (a == ninf) continue;
        r = logadd(r, p + a + rec(d->subs()[i]));
      }
    }
    memo[x] = r;
    return r;
  };
  return rec(root);
}

Wide choose_wide(Chooser &c) {
  Wide w;
  w.left = c.thorough() ? 1 + c.choose(8, "left") : 6 + c.choose(2, "left");
  int right = 1 + c.choose(2, "right");
  int sh = c.choose(3, "shape");
  int pattern = c.choose(3, "pattern");
  VTP l = named_shape(sh, w.left);
  VTP r = sh == 1 ? left_linear(right, w.left) : right_linear(right, w.left);
  w.v = inode(l, r);
  int n = w.left + right;
  w.labels = labels_kind(c.flip("sparse") ? 2 : 0, n);
  w.manager.reset(make_manager(w.v, w.labels));
  Table t(size_t(1) << n);
  for (size_t x = 0; x < t.size(); x++) {
    t[x] = 1 + (double)((x * 7919) % 97);
    if (pattern == 1 && x % 5 == 0) t[x] = 0;
    if (pattern == 2) t[x] = x % 7 == 3 ? 1e-9 : 1 + (double)(x % 3);
  }
  w.dist = normalized(t);
  BuildOptions o;
  o.compressed = false;
  w.node = build(w.manager.get(), w.v, w.labels, t, o);
  c.describef("decision with %zu elements over %d+%d variables, shape %d, pattern %d",
              w.node->psdd_decision_node()->primes().size(), w.left, right, sh, pattern);
  return w;
}

static const int kHugeVars = 18;  // 17 decide, the last one is free
static double huge_p(int depth, unsigned prefix) { return depth == kHugeVars - 1 ? (prefix + 0.5) / 131072.0 : 0.25 + 0.5 * ((prefix * 37 + depth) % 101) / 101; }
// kind 2: the last variable but one selects among many decisions over the last two
static double huge_w(size_t x) { return 1.0 + x % 7; }

long double Huge::log_prob(unsigned x) const {
  long double r = 0;
  if (kind == 1) {
    unsigned e = x & 131071u;
    if (e >= elements) return -std::numeric_limits<long double>::infinity();
    long double p = (e + 0.5L) / 131072.0L;
    return logl(huge_w(e) / weight) + logl(x >> 17 & 1 ? p : 1 - p);
  }
  unsigned prefix = 0;
  for (int d = 0; d < kHugeVars; d++) {
    int bit = x >> d & 1;
    long double p = huge_p(d, prefix);
    if (kind == 2 && d == kHugeVars - 1) p = huge_p(d, prefix & ~1u);
    r += logl(bit ? p : 1 - p);
    prefix = prefix * 2 + bit;
  }
  return r;
}
std::vector<signed char> Huge::assignment(unsigned x) const {
  std::vector<signed char> v(MAX_VAR + 1, -1);
  for (size_t i = 0; i < labels.size(); i++) v[labels[i]] = x >> i & 1;
  return v;
}
bool Huge::same_prime(unsigned x, unsigned y) const {
  unsigned p = 0, q = 0;
  for (int d = 0; d < kHugeVars - 2; d++) {
    p = p * 2 + (x >> d & 1);
    q = q * 2 + (y >> d & 1);
  }
  return huge_p(kHugeVars - 2, p) == huge_p(kHugeVars - 2, q);
}
std::vector<unsigned> huge_samples(const Huge &h) {
  std::vector<unsigned> r;
  unsigned size = 1u << h.labels.size();
  for (unsigned k = 0; k < 8; k++) {
    r.push_back((unsigned)(((uint64_t)k * 33013) % size));
    r.push_back(size - 1 - k * 29921);
  }
  if (h.kind == 1)
    for (unsigned k : {65535u, 65536u, 65537u, (unsigned)h.elements - 1, (unsigned)h.elements})
      for (unsigned t = 0; t < 2; t++) r.push_back(k | t << 17);
  return r;
}
Huge choose_huge(Chooser &c, int kinds) {
  Huge h;
  h.kind = c.choose(kinds, "kind");
  int n = kHugeVars;
  bool sparse = c.thorough() ? c.flip("sparse") : false;
  h.labels = labels_kind(sparse ? 2 : 0, n);
  h.v = h.kind == 1 ? inode(right_linear(n - 1), leaf(n - 1)) : right_linear(n);
  h.manager.reset(make_manager(h.v, h.labels));
  PsddManager *m = h.manager.get();
  const Labels &l = h.labels;
  auto P = [](double x) { return PsddParameter::CreateFromDecimal(x); };
  auto lit = [&](int i, int bit) -> PsddNode * { return m->GetPsddLiteralNode(bit ? l[i] : -l[i], 0); };
  if (h.kind == 1) {
    h.elements = c.thorough() ? 131072 : 70000;
    // cubes[j][s]: variables j.. have the bits of s
    std::vector<PsddNode *> below{lit(n - 2, 0), lit(n - 2, 1)};
    for (int j = n - 3; j >= 0; j--) {
      std::vector<PsddNode *> cur(below.size() * 2);
      for (size_t s = 0; s < cur.size(); s++) cur[s] = m->GetConformedPsddDecisionNode({lit(j, s & 1)}, {below[s >> 1]}, {P(1)}, 0);
      below.swap(cur);
    }
    std::vector<PsddNode *> primes, subs;
    std::vector<PsddParameter> params;
    double tot = 0;
    for (size_t i = 0; i < h.elements; i++) tot += huge_w(i);
    h.weight = tot;
    for (size_t i = 0; i < h.elements; i++) {
      primes.push_back(below[i]);
      double p = (i + 0.5) / 131072.0;
      subs.push_back(m->GetPsddTopNode(l[n - 1], 0, P(p), P(1 - p)));
      params.push_back(P(huge_w(i) / tot));
    }
    h.node = m->GetConformedPsddDecisionNode(primes, subs, params, 0);
  } else {
    std::vector<PsddNode *> below;
    for (unsigned prefix = 0; prefix < (1u << (n - 1)); prefix++) {
      double p = huge_p(n - 1, h.kind == 2 ? prefix & ~1u : prefix);
      below.push_back(m->GetPsddTopNode(l[n - 1], 0, P(p), P(1 - p)));
    }
    for (int d = n - 2; d >= 0; d--) {
      std::vector<PsddNode *> cur;
      for (unsigned prefix = 0; prefix < (1u << d); prefix++) {
        double p = huge_p(d, prefix);
        if (h.kind == 2 && d == n - 2)
          cur.push_back(m->GetConformedPsddDecisionNode({m->GetPsddTopNode(l[d], 0, P(p), P(1 - p))}, {below[2 * prefix]}, {P(1)}, 0));
        else
          cur.push_back(m->GetConformedPsddDecisionNode({lit(d, 0), lit(d, 1)}, {below[2 * prefix], below[2 * prefix + 1]}, {P(1 - p), P(p)}, 0));
      }
      below.swap(cur);
    }
    h.node = below[0];
  }
  c.describef("huge circuit of kind %d over %d variables", h.kind, n);
  return h;
}
}  // namespace ref
