// C15  embedding a PSDD in a larger vtree or another manager
#include <algorithm>

#include "family.h"
using namespace ref;

namespace {
VTP project(const VTP &v, unsigned keep) {
  if (v->leaf()) return (keep >> v->var) & 1 ? v : nullptr;
  VTP l = project(v->l, keep), r = project(v->r, keep);
  if (l && r) return inode(l, r);
  return l ? l : r;
}
unsigned mask_of(const VTP &v) {
  unsigned m = 0;
  for (int x : leaves(v)) m |= 1u << x;
  return m;
}
// nodes of v that lie at or above the lowest one containing all of keep
std::vector<VTP> places(const VTP &v, unsigned keep) {
  std::vector<VTP> r, all;
  internal_and_leaves(v, all);
  for (auto &x : all)
    if ((mask_of(x) & keep) == keep) r.push_back(x);
  return r;
}
// a table over n variables that depends on those of keep only
Table choose_weights(Chooser &c, int n, unsigned keep) {
  int k = __builtin_popcount(keep);
  Table small;
  if (k == 1)
    small = choose_table(c, 1, {0, 1, 2});
  else if (k == 2)
    small = choose_table(c, 2, c.thorough() ? std::vector<double>{0, 1, 3} : std::vector<double>{0, 1});
  else if (k == 3 && c.thorough())
    small = choose_table(c, 3, {0, 1});
  else {
    // one, two or three assignments are impossible, or all but them
    size_t N = size_t(1) << k;
    size_t a = c.choose((int)N, "a"), step = 1 + c.choose(3, "step");
    bool comp = c.flip("complement");
    small.assign(N, 0);
    for (size_t i = 0; i < N; i++) small[i] = ((i + N - a) % N) % (step + 1) == 0 && (i + N - a) % N < 3 * step ? 0 : 1;
    if (comp)
      for (auto &x : small) x = 1 - x;
    if (total(small) == 0) c.skip();
  }
  if (k >= 2)
    for (size_t i = 0; i < small.size(); i++) small[i] *= 1 + (double)((i * 5 + 3) % 8);
  Table t(size_t(1) << n);
  for (size_t x = 0; x < t.size(); x++) {
    size_t y = 0, b = 0;
    for (int i = 0; i < n; i++)
      if ((keep >> i) & 1) y |= ((x >> i) & 1) << b++;
    t[x] = small[y];
  }
  return t;
}
// res over the variables `under` equals src over keep times one constant, and is well formed at t
void check_embedded(Chooser &c, PsddNode *res, PsddNode *src, Vtree *t, long flag, unsigned under, unsigned keep, const Labels &labels, const char *what) {
  MC_CHECK(res != nullptr, "result", "%s: no result", what);
  check_wellformed(res, t, flag, what);
  int n = (int)labels.size();
  long double k = -1;
  std::vector<PsddNode *> ser = psdd_node_util::SerializePsddNodes(res);
  for (unsigned x = 0; x < (1u << n); x++) {
    if (x & ~under) continue;
    Assign a{&labels, x};
    Assign b{&labels, x & keep};
    long double p = prob(src, b), q = prob(res, a);
    c.op();
    MC_CHECK((p > 0) == (q > 0), "support", "%s: assignment %x has probability %Lg in the source and %Lg in the result", what, x, p, q);
    MC_CHECK(models(src, b) == models(res, a), "support", "%s: assignment %x is %s the source", what, x, models(src, b) ? "in the support of" : "outside the support of");
    if (p > 0) {
      if (k < 0) k = q / p;
      MC_CHECK(fabsl(q / p - k) <= 1e-9L * k, "distribution", "%s: assignment %x: %Lg over %Lg, elsewhere the ratio is %Lg", what, x, q, p, k);
    }
    auto &mask = zero_bits();
    mask.reset();
    set_bits(&mask, labels, keep);
    static std::bitset<MAX_VAR> inst;
    inst.reset();
    set_bits(&inst, labels, x & keep);
    bool cons = psdd_node_util::IsConsistent(ser, mask, inst);
    MC_CHECK(cons == models(src, b), "consistency", "%s: IsConsistent(%x) = %d", what, x, (int)cons);
    if ((x & ~keep) == 0) {
      double e = psdd_node_util::Evaluate(mask, inst, ser).parameter();
      double w = (double)logl(p);
      MC_CHECK(close_log(e, w, 1e-6), "evaluate", "%s: Evaluate(%x) = exp(%g), the source has exp(%g)", what, x, e, w);
    }
  }
}
// thousands of variables: loaded among other variables
void giant(Chooser &c) {
  Chain ch = choose_giant(c, c.thorough() ? 33000 : 16000);
  int n = (int)ch.labels.size();
  int where = c.choose(3, "where");
  std::set<int> used(ch.labels.begin(), ch.labels.end());
  Labels labels = ch.labels;
  int next = 0;
  auto fresh = [&]() {
    do next++;
    while (used.count(next));
    labels.push_back(next);
    return leaf((int)labels.size() - 1);
  };
  std::function<VTP(const VTP &)> beside = [&](const VTP &v) -> VTP {
    if (v->leaf()) return v->var % 3 == 1 ? v : v->var % 3 ? inode(v, fresh()) : inode(fresh(), v);
    VTP l = beside(v->l);
    return inode(l, beside(v->r));
  };
  VTP t = ch.v;
  if (where == 0)
    t = beside(ch.v);
  else
    for (int i = 0; i < 400; i++) t = where == 1 ? inode(t, fresh()) : inode(fresh(), t);
  uintmax_t flag = where == 0 ? 0 : 70000;
  c.describef("into %zu variables, place %d", labels.size(), where);
  ManagerPtr to(make_manager(t, labels));
  PsddNode *res = to->LoadPsddNode(to->vtree(), ch.node, flag);
  MC_CHECK(res != nullptr, "giant", "nothing loaded");
  check_wellformed(res, to->vtree(), (long)flag, "loaded");
  // any part of the source's variables: the same weight up to one constant; what is added is free
  long double k = 0;
  for (int pattern = 0; pattern < 6; pattern++) {
    std::vector<signed char> value(MAX_VAR + 1, -1);
    std::vector<int> ev(ch.labels.size(), -1);
    for (int i = 0; i < n; i++) {
      int e = pattern == 0 ? -1 : pattern == 1 ? 0 : pattern == 2 ? i % 2 : pattern == 3 ? (i % 7 < 2 ? 1 : -1) : pattern == 4 ? (i == n - 1 ? 1 : -1) : (i < n / 2 ? -1 : i % 3 == 0);
      ev[i] = e;
      value[ch.labels[i]] = (signed char)e;
    }
    long double want = ch.log_prob(ev), got = log_weight(res, value);
    c.op();
    if (pattern == 0) k = got - want;
    MC_CHECK(fabsl(got - want - k) <= 1e-6L + 1e-9L * fabsl(want), "giant", "pattern %d: log weight %.9Lg in the source, %.9Lg in the result, the constant is %.9Lg", pattern, want, got, k);
    size_t added = labels.size() - ch.labels.size();
    for (size_t i = ch.labels.size(); i < labels.size(); i++) value[labels[i]] = (signed char)((i + pattern) % 2);
    long double fixed = log_weight(res, value);
    c.op();
    MC_CHECK(fabsl(got - fixed - added * logl(2)) <= 1e-6L + 1e-9L * fabsl(got), "giant-free", "pattern %d: fixing %zu free variables changes the log weight from %.9Lg to %.9Lg", pattern, added, got, fixed);
  }
  MC_CHECK(to->LoadPsddNode(to->vtree(), ch.node, flag) == res, "identity", "loading the same PSDD twice gives two nodes");
  c.state(mc::mix(mc::mix((uint64_t)n, (uint64_t)where), psdd_node_util::SerializePsddNodes(res).size()));
}
int free_bits(unsigned m) { return __builtin_popcount(m); }
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  int where = c.choose(4, "where");
  Labels labels = h.labels;
  std::set<int> used(labels.begin(), labels.end());
  int next = 0;
  auto fresh = [&]() {
    do next++;
    while (used.count(next));
    labels.push_back(next);
    return leaf((int)labels.size() - 1);
  };
  VTP t = h.v;
  if (where == 1) t = inode(t, fresh());
  if (where == 2) t = inode(inode(fresh(), fresh()), t);
  if (where == 3) {  // beside the last variable
    std::function<VTP(const VTP &)> rec = [&](const VTP &v) -> VTP {
      if (v->leaf()) return v->var == (int)h.labels.size() - 1 ? inode(v, fresh()) : v;
      VTP l = rec(v->l);
      return inode(l, rec(v->r));
    };
    t = rec(t);
  }
  uintmax_t flag = where % 2 ? 70000 : 0;
  ManagerPtr to(make_manager(t, labels));
  PsddNode *res = to->LoadPsddNode(to->vtree(), h.node, flag);
  MC_CHECK(res != nullptr, "huge", "nothing loaded");
  check_wellformed(res, to->vtree(), (long)flag, "loaded");
  size_t added = labels.size() - h.labels.size();
  long double k = NAN;  // the same weight up to one constant
  for (unsigned x : huge_samples(h)) {
    auto value = h.assignment(x);
    long double want = h.log_prob(x), got = log_weight(res, value);
    if (std::isnan(k) && std::isfinite((double)want)) k = got - want;
    want += std::isnan(k) ? 0 : k;
    for (size_t i = 0; i < added; i++) value[labels[h.labels.size() + i]] = (signed char)((x + i) & 1);
    long double fixed = log_weight(res, value);
    c.op(2);
    MC_CHECK(close_log((double)got, (double)want, 1e-5), "huge", "assignment %x: log %.12Lg instead of %.12Lg", x, got, want);
    MC_CHECK(close_log((double)fixed, (double)(want - added * logl(2)), 1e-5), "huge-free", "assignment %x: log %.12Lg with the added variables fixed, %.12Lg without", x, fixed, want);
  }
  MC_CHECK(to->LoadPsddNode(to->vtree(), h.node, flag) == res, "identity", "loading the same PSDD twice gives two nodes");
  c.state(mc::mix((uint64_t)h.kind, (uint64_t)where));
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  mc::add("giant", giant);
  // from another manager over the projected vtree into every place of every larger vtree
  mc::add("load", [=](Chooser &c) {
    int n = 1 + c.choose(thorough ? 5 : 4, "n");
    VTP v = n <= 4 ? choose_vtree(c, n) : choose_shape(c, {0, 1, 2, 3, 4});
    unsigned keep = 1 + c.choose((1 << n) - 1, "keep");
    VTP sv = project(v, keep);
    std::vector<VTP> ps = places(v, keep);
    VTP t = c.pick(ps, "target");
    Labels labels = labels_kind(n <= 2 ? c.choose(label_kinds(), "labels") : (n == 3 ? 2 : 1), n);
    BuildOptions o = n >= 4 ? BuildOptions() : choose_options(c);
    uintmax_t flag = c.choose(2, "flag") * 5;
    o.flag = n <= 3 ? c.choose(2, "source flag") * 5 : 1;
    Table w = choose_weights(c, n, keep);
    ManagerPtr from(make_manager(sv, labels)), to(make_manager(v, labels)), again(make_manager(v, labels));
    PsddNode *src = build(from.get(), sv, labels, w, o);
    Snapshot snap;
    snap.take(src);
    Vtree *at = locate(to->vtree(), v, t);
    c.describef("vtree %s keep %x target %s flag %d, source %s", str(v).c_str(), keep, str(t).c_str(), (int)flag, str(src).c_str());
    PsddNode *res = to->LoadPsddNode(at, src, flag);
    check_embedded(c, res, src, at, (long)flag, mask_of(t), keep, labels, "loaded");
    snap.check("source", false);
    PsddNode *twice = to->LoadPsddNode(at, src, flag);
    c.op();
    MC_CHECK(twice == res, "identity", "loading the same PSDD twice gives two nodes");
    // into a manager that already holds related nodes
    int pre = 1 + c.choose(3, "preload");
    Vtree *at2 = locate(again->vtree(), v, t);
    std::vector<Snapshot> held(3);
    PsddNode *h = nullptr;
    if (pre & 1) held[0].take(h = again->LoadPsddNode(again->vtree(), src, flag));
    if (pre & 2) held[1].take(again->LoadPsddNode(again->vtree(), src, flag + 1)), held[2].take(again->GetTrueNode(again->vtree(), flag));
    PsddNode *res2 = again->LoadPsddNode(at2, src, flag);
    c.op();
    check_embedded(c, res2, src, at2, (long)flag, mask_of(t), keep, labels, "loaded beside others");
    MC_CHECK(str(res2) == str(res), "history", "loading into a manager that holds related nodes gives\n%s\ninstead of\n%s", str(res2).c_str(), str(res).c_str());
    if (h && t == v) MC_CHECK(h == res2, "identity", "loading the same PSDD twice gives two nodes");
    for (auto &s : held) s.check("held", false);
    snap.check("source", false);
    c.state(fingerprint(res));
    // the loaded one lives on without the source
    from.reset();
    if (pre == 1) {
      Table q = table_of(res, labels);
      (void)q;
    }
  });
  // within one manager: a node below lifted to every ancestor, by loading and by normalising
  mc::add("lift", [=](Chooser &c) {
    int n = 1 + c.choose(thorough ? 5 : 4, "n");
    VTP v = n <= 4 ? choose_vtree(c, n) : choose_shape(c, {0, 1, 2, 3, 4});
    std::vector<VTP> all;
    internal_and_leaves(v, all);
    VTP sv = c.pick(all, "of");
    unsigned keep = mask_of(sv);
    std::vector<VTP> ps = places(v, keep);
    VTP t = c.pick(ps, "target");
    Labels labels = labels_kind(n <= 2 ? c.choose(label_kinds(), "labels") : (n == 3 ? 2 : 1), n);
    BuildOptions o = n >= 4 ? BuildOptions() : choose_options(c);
    o.flag = 5;
    uintmax_t flag = c.choose(2, "flag") * 5;
    bool load = c.flip("load");
    Table w = choose_weights(c, n, keep);
    ManagerPtr m(make_manager(v, labels));
    PsddNode *src = build(m.get(), sv, labels, w, o);
    Snapshot snap, ts;
    snap.take(src);
    PsddNode *tr = nullptr;
    if (c.flip("true nodes exist")) ts.take(tr = m->GetTrueNode(m->vtree(), flag));
    Vtree *at = locate(m->vtree(), v, t);
    c.describef("vtree %s of %s to %s flag %d %s, source %s", str(v).c_str(), str(sv).c_str(), str(t).c_str(), (int)flag, load ? "load" : "normalize", str(src).c_str());
    PsddNode *res = load ? m->LoadPsddNode(at, src, flag) : m->NormalizePsddNode(at, src, flag);
    check_embedded(c, res, src, at, load ? (long)flag : -1L, mask_of(t), keep, labels, load ? "loaded" : "normalized");
    if (!load) {
      std::vector<PsddNode *> own = reachable(src);
      std::set<PsddNode *> mine(own.begin(), own.end());
      for (auto x : reachable(res)) MC_CHECK(mine.count(x) || x->flag_index() == flag, "flag", "a new node has flag %d", (int)x->flag_index());
    }
    c.op();
    if (sv == t && (!load || flag == 5)) MC_CHECK(res == src, "identity", "bringing a node to where it already is gives another node");
    PsddNode *twice = load ? m->LoadPsddNode(at, src, flag) : m->NormalizePsddNode(at, src, flag);
    MC_CHECK(twice == res, "identity", "the second time gives another node");
    // in two steps
    for (auto &x : ps)
      if ((mask_of(x) & mask_of(t)) == mask_of(x)) {
        Vtree *mid = locate(m->vtree(), v, x);
        PsddNode *a = load ? m->LoadPsddNode(mid, src, flag) : m->NormalizePsddNode(mid, src, flag);
        PsddNode *b = load ? m->LoadPsddNode(at, a, flag) : m->NormalizePsddNode(at, a, flag);
        c.op();
        MC_CHECK(b == res, "two-steps", "lifting in two steps gives another node");
      }
    snap.check("source", false);
    if (tr) ts.check("held", false);
    c.state(fingerprint(res));
  });
  // free nodes
  mc::add("true", [=](Chooser &c) {
    int n = 1 + c.choose(thorough ? 5 : 4, "n");
    VTP v = choose_vtree(c, n);
    std::vector<VTP> all;
    internal_and_leaves(v, all);
    VTP t = c.pick(all, "target");
    uintmax_t flag = c.choose(2, "flag") * 5;
    Labels labels = labels_kind(n % label_kinds(), n);
    ManagerPtr m(make_manager(v, labels));
    if (c.flip("after others")) m->GetTrueNode(m->vtree(), flag), m->GetPsddTopNode(labels[0], flag, PsddParameter::CreateFromDecimal(0.5), PsddParameter::CreateFromDecimal(0.5));
    Vtree *at = locate(m->vtree(), v, t);
    PsddNode *r = m->GetTrueNode(at, flag);
    check_wellformed(r, at, (long)flag, "true node");
    long double k = -1;
    for (unsigned x = 0; x < (1u << n); x++) {
      if (x & ~mask_of(t)) continue;
      long double p = prob(r, Assign{&labels, x});
      c.op();
      if (k < 0) k = p;
      MC_CHECK(p > 0 && fabsl(p - k) <= 1e-9L * k, "true", "assignment %x has weight %Lg, others %Lg", x, p, k);
      MC_CHECK(models(r, Assign{&labels, x}), "true", "assignment %x is not allowed", x);
    }
    mpz_class mc = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(r));
    MC_CHECK(mc == mpz_class(1u << free_bits(mask_of(t))), "true", "model count of a free node");
    MC_CHECK(m->GetTrueNode(at, flag) == r, "identity", "the second free node differs");
    c.state(fingerprint(r));
  });
  // decisions over children that sit anywhere below
  mc::add("decision", [=](Chooser &c) {
    int n = 2 + c.choose(3, "n");
    VTP v = n <= 4 ? choose_vtree(c, n) : choose_shape(c, {0, 1, 2, 3, 4});
    Labels labels = labels_kind(n % label_kinds(), n);
    std::vector<VTP> all, inner;
    internal_and_leaves(v, all);
    for (auto &x : all)
      if (!x->leaf()) inner.push_back(x);
    VTP at = c.pick(inner, "lca");
    std::vector<int> L = leaves(at->l), R = leaves(at->r);
    uintmax_t flag = c.choose(2, "flag") * 5;
    uintmax_t cflag = c.choose(2, "child flag") * 5;
    ManagerPtr m(make_manager(v, labels));
    auto P = [](double x) { return PsddParameter::CreateFromDecimal(x); };
    auto side = [&](const std::vector<int> &vars, const char *what) -> PsddNode * {
      int x = c.pick(vars, what), k = c.choose(3, what);
      return k == 0 ? (PsddNode *)m->GetPsddLiteralNode(labels[x], cflag) : k == 1 ? (PsddNode *)m->GetPsddLiteralNode(-labels[x], cflag) : (PsddNode *)m->GetPsddTopNode(labels[x], cflag, P(0.25), P(0.75));
    };
    bool two = c.flip("two elements");
    std::vector<PsddNode *> primes, subs;
    std::vector<PsddParameter> ps;
    std::vector<double> w;
    if (!two) {
      primes.push_back(side(L, "prime"));
      subs.push_back(side(R, "sub"));
      w = {1};
    } else {
      int x = c.pick(L, "split variable");
      PsddNode *a = m->GetPsddLiteralNode(labels[x], cflag), *b = m->GetPsddLiteralNode(-labels[x], cflag);
      // the second prime may sit higher: (not x) and one more variable
      if (L.size() > 1 && c.flip("one prime is higher")) {
        int y = -1;
        for (int z : L)
          if (z != x) y = z;
        // the two leaves in vtree order
        bool xf = std::find(L.begin(), L.end(), x) < std::find(L.begin(), L.end(), y);
        PsddNode *q = m->GetPsddTopNode(labels[y], cflag, P(0.5), P(0.5));
        b = xf ? m->GetConformedPsddDecisionNode({b}, {q}, {P(1)}, cflag) : m->GetConformedPsddDecisionNode({q}, {b}, {P(1)}, cflag);
      }
      primes = {a, b};
      subs = {side(R, "sub"), side(R, "sub")};
      w = {0.25, 0.75};
      if (c.flip("swap")) std::swap(primes[0], primes[1]), std::swap(subs[0], subs[1]), std::swap(w[0], w[1]);
    }
    for (double x : w) ps.push_back(P(x));
    std::vector<Snapshot> snaps(primes.size() + subs.size());
    for (size_t i = 0; i < primes.size(); i++) snaps[i].take(primes[i]), snaps[primes.size() + i].take(subs[i]);
    PsddNode *r = m->GetConformedPsddDecisionNode(primes, subs, ps, flag);
    c.describef("vtree %s lca %s: %s", str(v).c_str(), str(at).c_str(), str(r).c_str());
    check_wellformed(r, locate(m->vtree(), v, at), -1, "decision");
    std::set<PsddNode *> given;
    for (auto q : primes)
      for (auto y : reachable(q)) given.insert(y);
    for (auto q : subs)
      for (auto y : reachable(q)) given.insert(y);
    for (auto y : reachable(r)) MC_CHECK(given.count(y) || y->flag_index() == flag, "flag", "a new node has flag %d", (int)y->flag_index());
    std::vector<long double> ks(primes.size(), -1);
    unsigned under = mask_of(at);
    long double k = -1;
    for (unsigned x = 0; x < (1u << n); x++) {
      if (x & ~under) continue;
      Assign a{&labels, x};
      long double want = 0;
      bool mod = false;
      for (size_t i = 0; i < primes.size(); i++) {
        // variables a child does not mention are free
        want += w[i] * prob(primes[i], a) * prob(subs[i], a);
        mod |= models(primes[i], a) && models(subs[i], a);
      }
      long double got = prob(r, a);
      c.op();
      MC_CHECK((want > 0) == (got > 0) && mod == models(r, a), "support", "assignment %x: %Lg from the elements, %Lg from the decision", x, want, got);
      if (want > 0 && k < 0) k = got / want;
      if (want > 0) MC_CHECK(fabsl(got / want - k) <= 1e-9L * k, "distribution", "assignment %x: %Lg from the elements, %Lg from the decision, ratio elsewhere %Lg", x, want, got, k);
    }
    MC_CHECK(m->GetConformedPsddDecisionNode(primes, subs, ps, flag) == r, "identity", "the same decision again is another node");
    for (auto &s : snaps) s.check("children", false);
    c.state(fingerprint(r));
  });
  add("huge", huge);
}
