// C24  support queries agree with each other and with the structure
#include <algorithm>
#include <functional>
#include <unordered_map>

#include "family.h"
#include "sddx.h"
using namespace ref;

namespace {
bool is_dense(const Labels &l) {
  for (size_t i = 0; i < l.size(); i++)
    if (l[i] != (int)i + 1) return false;
  return true;
}
// the SDD managers a circuit over n variables is converted into
struct Target {
  SddManager *m;
  std::vector<int> to;  // variable i of the circuit is variable to[i] (1-based) of the manager
};
VTP relabel(const VTP &v, const std::vector<int> &p) { return v->leaf() ? leaf(p[v->var]) : inode(relabel(v->l, p), relabel(v->r, p)); }
VTP relabel_down(const VTP &v, int n) {
  std::vector<int> p(n);
  for (int i = 0; i < n; i++) p[i] = n - 1 - i;
  return relabel(v, p);
}
std::vector<Target> targets(const VTP &v, int n) {
  std::vector<int> same(n), down(n), up(n), turn(n);
  for (int i = 0; i < n; i++) same[i] = i + 1, down[i] = n - i, up[i] = i + 2, turn[i] = (i + 1) % n + 1;
  std::vector<Target> r;
  auto whole = leaves(v);
  if ((int)whole.size() == n) {
    r.push_back({sdd_of(v, n), same});
    r.push_back({sdd_of(v, n), down});
    if (n > 1) r.push_back({sdd_of(relabel_down(v, n), n), same});
  }
  r.push_back({sdd_of(right_linear(n), n), same});
  r.push_back({sdd_of(left_linear(n), n), turn});
  r.push_back({sdd_of(balanced(n + 2), n + 2), up});
  return r;
}
// every question about the support of one circuit with positive parameters
void check_support(Chooser &c, PsddNode *n, const VTP &v, const Labels &labels, bool sdd) {
  int nv = (int)labels.size();
  unsigned N = 1u << nv, scope = 0;
  for (int x : leaves(v)) scope |= 1u << x;
  std::vector<bool> sup(N);
  int count = 0;
  for (unsigned x = 0; x < N; x++) {
    sup[x] = models(n, {&labels, x});
    if (sup[x] && !(x & ~scope)) count++;
  }
  auto ser = psdd_node_util::SerializePsddNodes(n);
  auto got = psdd_node_util::ModelCount(ser);
  c.op();
  MC_CHECK(got == count, "count", "model count %s instead of %d: %s", got.get_str().c_str(), count, str(n).c_str());
  static std::bitset<MAX_VAR> mask, inst;
  bool bits = is_dense(labels);
  for (unsigned m = scope;; m = (m - 1) & scope) {
    std::vector<bool> any(N, false);
    for (unsigned x = 0; x < N; x++)
      if (sup[x]) any[x & m] = true;
    set_bits(&mask, labels, m);
    for (unsigned b = m;; b = (b - 1) & m) {
      unsigned junk = (m ^ b) & 1 ? ~m & scope : 0;  // values of variables that are no evidence
      set_bits(&inst, labels, b | junk);
      std::unordered_map<uint32_t, bool> e;
      for (int i = 0; i < nv; i++)
        if (m >> i & 1) e[(uint32_t)labels[i]] = b >> i & 1;
      bool want = any[b];
      bool a1 = psdd_node_util::IsConsistent(n, mask, inst), a2 = psdd_node_util::IsConsistent(ser, mask, inst), a3 = n->IsConsistent(e);
      double lp = psdd_node_util::Evaluate(mask, inst, ser).parameter();
      c.op(4);
      MC_CHECK(a1 == want && a2 == want && a3 == want, "consistent", "partial assignment %x of %x is %s, the queries say %d %d %d: %s", b, m, want ? "consistent" : "inconsistent", a1, a2, a3, str(n).c_str());
      MC_CHECK(std::isfinite(lp) == want, "evaluate", "partial assignment %x of %x is %s and has log probability %g", b, m, want ? "consistent" : "inconsistent", lp);
      if (m == scope && bits && scope == N - 1) {
        bool a4 = n->IsConsistent(inst, (uint32_t)nv);
        MC_CHECK(a4 == want, "consistent-bits", "assignment %x is called %s", b, a4 ? "consistent" : "inconsistent");
      }
      if (!b) break;
    }
    if (!m) break;
  }
  // the marks a complete assignment leaves
  auto nodes = reachable(n);
  for (unsigned x = scope;; x = (x - 1) & scope) {
    set_bits(&inst, labels, x);
    psdd_node_util::SetActivationFlag(inst, ser);
    c.op();
    for (auto q : nodes)
      MC_CHECK(q->activation_flag() == models(q, {&labels, x}), "marks", "assignment %x %s %s", x, q->activation_flag() ? "marks" : "does not mark", str(q).c_str());
    if (!x) break;
  }
  set_bits(&mask, labels, 0);
  set_bits(&inst, labels, 0);
  if (sdd)
    for (auto &t : targets(v, nv)) {
      std::unordered_map<SddLiteral, SddLiteral> map;
      for (int i = 0; i < nv; i++)
        if (scope >> i & 1) map[labels[i]] = t.to[i];
      SddNode *s = psdd_node_util::ConvertPsddNodeToSddNode(ser, map, t.m);
      unsigned M = 1u << sdd_manager_var_count(t.m);
      for (unsigned y = 0; y < M; y++) {
        unsigned x = 0;
        for (int i = 0; i < nv; i++) x |= (y >> (t.to[i] - 1) & 1) << i;
        MC_CHECK(sdd_true(s, y) == sup[x & scope], "sdd", "the SDD is %s at %x, which stands for %x, of %s", sdd_true(s, y) ? "true" : "false", y, x, str(n).c_str());
      }
      for (auto q : nodes) MC_CHECK(q->user_data() == 0, "trace", "the conversion leaves data in %s", str(q).c_str());
      c.op(M);
    }
  c.state(fingerprint(n));
}
bool positive(const Table &t) {
  for (double x : t)
    if (x == 0) return false;
  return true;
}
void tables(Chooser &c) {
  Family f = choose_family(c);
  if (f.o.explicit_zero && !positive(f.t)) c.skip();
  Instance i = build_instance(c, f);
  check_support(c, i.node, i.v, i.labels, f.o.flag == 0);
}
void embedded(Chooser &c) {
  Family f = choose_family(c, 0);
  if (f.o.explicit_zero && !positive(f.t)) c.skip();
  Instance i = build_embedded(c, f);
  check_support(c, i.node, i.v, i.labels, true);
}
// every node of every circuit asked about on its own
void parts(Chooser &c) {
  Family f = choose_family(c, 0);
  if (f.o.explicit_zero && !positive(f.t)) c.skip();
  Instance i = build_instance(c, f);
  auto nodes = reachable(i.node);
  std::function<VTP(const VTP &, Vtree *, Vtree *)> at = [&](const VTP &v, Vtree *w, Vtree *q) -> VTP {
    if (w == q) return v;
    if (v->leaf()) return nullptr;
    VTP l = at(v->l, sdd_vtree_left(w), q);
    return l ? l : at(v->r, sdd_vtree_right(w), q);
  };
  for (auto q : nodes) {
    if (q == i.node) continue;
    VTP v = at(i.v, i.manager->vtree(), q->vtree_node());
    MC_CHECK(v != nullptr, "place", "a node outside the vtree");
    check_support(c, q, v, i.labels, false);
  }
}
// products, learned and sampled models, liftings and compiled functions
class Ramp : public RandomDoubleGenerator {
 public:
  double generate() override { return 0.25 + (k_++ % 7); }

 private:
  int k_ = 0;
};
void made(Chooser &c) {
  int n = 3;
  VTP v = choose_shape(c, {0, 1, 2});
  Labels l = labels_kind(c.choose(2, "labels") * 2, n);
  unsigned a = 1 + c.choose(255, "support");
  int how = c.choose(6, "made by");
  ManagerPtr m(make_manager(v, l));
  BuildOptions o;
  o.compressed = how % 2;
  Table t(8);
  for (unsigned x = 0; x < 8; x++) t[x] = (a >> x & 1) * (1 + x % 3);
  PsddNode *p = build(m.get(), v, l, t, o), *r = p;
  if (how < 2) {
    for (int k = 0; k < 3; k++) {
      Table u(8);
      for (unsigned x = 0; x < 8; x++) u[x] = k == 0 ? (x & 1) != (x >> 2 & 1) : k == 1 ? 1 + x % 2 : x != 5;
      auto z = m->Multiply(p, build(m.get(), v, l, u, o), 2);
      if (z.first) check_support(c, z.first, v, l, k == 0);
    }
    return;
  } else if (how == 2) {
    std::unordered_map<int32_t, BatchedPsddValue> ex;
    for (int i = 0; i < n; i++) {
      BatchedPsddValue b;
      for (unsigned x = 0; x < 8; x++)
        if (a >> x & 1) b.push_back(x >> i & 1);
      ex[l[i]] = b;
    }
    r = m->LearnPsddParameters(p, ex, (size_t)__builtin_popcount(a), PsddParameter::CreateFromDecimal(1), 3);
  } else if (how == 3) {
    Ramp g;
    r = m->SampleParameters(&g, p, 3);
  } else if (how == 4) {
    SddManager *sm = sdd_of(v, n);
    r = m->ConvertSddToPsdd(sdd_from_table(sm, {0, 1, 2}, a), sdd_manager_vtree(sm), 3);
    if (!is_dense(l)) c.skip();
  } else {
    if (v->leaf() || p->node_type() != DECISION_NODE_TYPE) c.skip();
    for (auto s : p->psdd_decision_node()->subs()) check_support(c, m->NormalizePsddNode(m->vtree(), s, 3), v, l, true);
    for (auto s : p->psdd_decision_node()->primes()) check_support(c, m->NormalizePsddNode(m->vtree(), s, 3), v, l, true);
    return;
  }
  check_support(c, r, v, l, true);
}
void wide(Chooser &c) {
  Wide w = choose_wide(c);
  if (!positive(w.dist)) {
    // the zero branches are left out of the circuit, so it is fine as well
  }
  int n = (int)w.labels.size();
  unsigned N = 1u << n;
  static std::bitset<MAX_VAR> mask, inst;
  auto ser = psdd_node_util::SerializePsddNodes(w.node);
  std::vector<bool> sup(N);
  int count = 0;
  for (unsigned x = 0; x < N; x++) count += sup[x] = models(w.node, {&w.labels, x});
  auto got = psdd_node_util::ModelCount(ser);
  MC_CHECK(got == count, "count", "model count %s instead of %d", got.get_str().c_str(), count);
  std::vector<unsigned> masks = {0, N - 1, (1u << w.left) - 1, (N - 1) & ~((1u << w.left) - 1)};
  for (int k = 0; k < n; k++) masks.push_back((N - 1) & ~(1u << k));
  for (unsigned m : masks) {
    std::vector<bool> any(N, false);
    for (unsigned x = 0; x < N; x++)
      if (sup[x]) any[x & m] = true;
    set_bits(&mask, w.labels, m);
    for (unsigned b = m;; b = (b - 1) & m) {
      set_bits(&inst, w.labels, b);
      std::unordered_map<uint32_t, bool> e;
      for (int i = 0; i < n; i++)
        if (m >> i & 1) e[(uint32_t)w.labels[i]] = b >> i & 1;
      bool a1 = psdd_node_util::IsConsistent(ser, mask, inst), a2 = w.node->IsConsistent(e);
      c.op(2);
      MC_CHECK(a1 == any[b] && a2 == any[b], "consistent", "partial assignment %x of %x is %s, the queries say %d %d", b, m, any[b] ? "consistent" : "inconsistent", a1, a2);
      if (!b) break;
    }
  }
  auto nodes = reachable(w.node);
  for (unsigned x = 0; x < N; x += N / 16 + 1) {
    set_bits(&inst, w.labels, x);
    psdd_node_util::SetActivationFlag(inst, ser);
    for (auto q : nodes) MC_CHECK(q->activation_flag() == models(q, {&w.labels, x}), "marks", "assignment %x", x);
  }
  std::unordered_map<SddLiteral, SddLiteral> map;
  for (int i = 0; i < n; i++) map[w.labels[i]] = i + 1;
  SddNode *s = psdd_node_util::ConvertPsddNodeToSddNode(ser, map, sdd_of(w.v, n));
  for (unsigned x = 0; x < N; x++) MC_CHECK(sdd_true(s, x) == sup[x], "sdd", "the SDD is wrong at %x", x);
  set_bits(&mask, w.labels, 0);
  set_bits(&inst, w.labels, 0);
  c.state(fingerprint(w.node));
}
// counts that no machine word or double can hold
void giant(Chooser &c) {
  int n = c.choose(2, "size") ? 33000 : 1500;
  int kind = c.choose(3, "kind");
  if (kind && n > 1500) c.skip();
  // 0 every value allowed; 1 a line where no two neighbours are true; 2 a line where exactly one is true
  VTP v = kind || n == 1500 ? right_linear(n) : balanced(n);
  Labels l = labels_kind(c.choose(2, "labels"), n);
  ManagerPtr mp(make_manager(v, l));
  PsddManager *m = mp.get();
  auto P = [](double x) { return PsddParameter::CreateFromDecimal(x); };
  PsddNode *root;
  mpz_class want = 1;
  if (kind == 0) {
    root = m->GetTrueNode(m->vtree(), 1);
    for (int i = 0; i < n; i++) want *= 2;
  } else if (kind == 1) {
    // free: the previous variable is false; after: it is true
    PsddNode *free_ = m->GetPsddTopNode(l[n - 1], 0, P(0.5), P(0.5)), *after = m->GetPsddLiteralNode(-l[n - 1], 0);
    mpz_class a = 2, b = 1;
    for (int i = n - 2; i >= 0; i--) {
      PsddNode *no = m->GetPsddLiteralNode(-l[i], 0), *yes = m->GetPsddLiteralNode(l[i], 0);
      PsddNode *f2 = m->GetConformedPsddDecisionNode({no, yes}, {free_, after}, {P(0.5), P(0.5)}, 0);
      after = m->GetConformedPsddDecisionNode({no}, {free_}, {P(1)}, 0);
      free_ = f2;
      mpz_class a2 = a + b;
      b = a;
      a = a2;
    }
    root = free_;
    want = a;
  } else {
    PsddNode *none = m->GetPsddLiteralNode(-l[n - 1], 0), *one = m->GetPsddLiteralNode(l[n - 1], 0);
    for (int i = n - 2; i >= 0; i--) {
      PsddNode *no = m->GetPsddLiteralNode(-l[i], 0), *yes = m->GetPsddLiteralNode(l[i], 0);
      one = m->GetConformedPsddDecisionNode({no, yes}, {one, none}, {P(0.5), P(0.5)}, 0);
      none = m->GetConformedPsddDecisionNode({no}, {none}, {P(1)}, 0);
    }
    root = one;
    want = n;
  }
  auto ser = psdd_node_util::SerializePsddNodes(root);
  auto got = psdd_node_util::ModelCount(ser);
  c.op();
  MC_CHECK(got == want, "count-giant", "model count %.40s... instead of %.40s...", got.get_str().c_str(), want.get_str().c_str());
  static std::bitset<MAX_VAR> mask, inst;
  mask.reset();
  inst.reset();
  auto nodes = reachable(root);
  for (int pat = 0; pat < 8; pat++) {
    std::vector<signed char> val(n);
    for (int i = 0; i < n; i++) {
      val[i] = pat == 0 ? 0 : pat == 1 ? i & 1 : pat == 2 ? i == n - 1 : pat == 3 ? i == 0 : pat == 4 ? i == n / 2 : pat == 5 ? i == 0 || i == n - 1 : pat == 6 ? i == n / 3 || i == n / 3 + 1 : 1;
      inst[l[i]] = val[i];
      mask[l[i]] = true;
    }
    int trues = 0;
    bool pair = false;
    for (int i = 0; i < n; i++) {
      trues += val[i];
      if (i && val[i] && val[i - 1]) pair = true;
    }
    bool yes = kind == 0 || (kind == 1 ? !pair : trues == 1);
    bool a = psdd_node_util::IsConsistent(ser, mask, inst);
    psdd_node_util::SetActivationFlag(inst, ser);
    c.op(2);
    MC_CHECK(a == yes && root->activation_flag() == yes, "consistent-giant", "pattern %d is %s, the queries say %d %d", pat, yes ? "consistent" : "inconsistent", a, (int)root->activation_flag());
    // only the first and last quarter given
    for (int i = n / 4; i < n - n / 4; i++) mask[l[i]] = false;
    int t = 0;
    bool pr = false;
    for (int i = 0; i < n; i++)
      if (i < n / 4 || i >= n - n / 4) {
        t += val[i];
        if (i && val[i] && val[i - 1] && i != n - n / 4) pr = true;
      }
    bool some = kind == 0 || (kind == 1 ? !pr : t <= 1);
    a = psdd_node_util::IsConsistent(ser, mask, inst);
    MC_CHECK(a == some, "consistent-giant", "part of pattern %d is %s, the query says %d", pat, some ? "consistent" : "inconsistent", a);
    bool ev = std::isfinite(psdd_node_util::Evaluate(mask, inst, ser).parameter());
    MC_CHECK(ev == some, "evaluate-giant", "part of pattern %d is %s, its probability is %s", pat, some ? "consistent" : "inconsistent", ev ? "positive" : "zero");
  }
  mask.reset();
  inst.reset();
  c.state(mc::mix((uint64_t)n * 4 + kind, ser.size()));
}
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  static std::bitset<MAX_VAR> mask, inst;
  auto ser = psdd_node_util::SerializePsddNodes(h.node);
  int n = (int)h.labels.size();
  unsigned N = 1u << n;
  mpz_class want = h.kind == 1 ? mpz_class((unsigned long)h.elements * 2) : mpz_class((unsigned long)N);
  auto got = psdd_node_util::ModelCount(ser);
  MC_CHECK(got == want, "count-huge", "model count %s instead of %s", got.get_str().c_str(), want.get_str().c_str());
  auto nodes = reachable(h.node);
  set_bits(&mask, h.labels, N - 1);
  for (unsigned x : huge_samples(h)) {
    bool yes = std::isfinite((double)h.log_prob(x));
    set_bits(&inst, h.labels, x);
    bool a = psdd_node_util::IsConsistent(ser, mask, inst);
    std::unordered_map<uint32_t, bool> e;
    for (int i = 0; i < n; i++) e[(uint32_t)h.labels[i]] = x >> i & 1;
    bool b = h.node->IsConsistent(e);
    psdd_node_util::SetActivationFlag(inst, ser);
    c.op(3);
    MC_CHECK(a == yes && b == yes && h.node->activation_flag() == yes, "consistent-huge", "assignment %x is %s, the queries say %d %d %d", x, yes ? "consistent" : "inconsistent", a, b, (int)h.node->activation_flag());
  }
  if (h.kind != 1) {
    std::unordered_map<SddLiteral, SddLiteral> map;
    for (int i = 0; i < n; i++) map[h.labels[i]] = i + 1;
    SddNode *s = psdd_node_util::ConvertPsddNodeToSddNode(ser, map, sdd_of(h.v, n));
    MC_CHECK(sdd_node_is_true(s), "sdd-huge", "every assignment is possible but the SDD is not true");
    c.op();
  }
  set_bits(&mask, h.labels, 0);
  set_bits(&inst, h.labels, 0);
  c.state(mc::mix((uint64_t)h.kind, ser.size()));
}
// an SDD manager that minimises and collects by itself
void automatic(Chooser &c) {
  const int n = 12;
  int shape = c.choose(3, "shape"), seed = c.choose(c.thorough() ? 60 : 10, "clauses"), target = c.choose(2, "into");
  VTP v = named_shape(shape, n);
  Labels l = dense(n);
  ManagerPtr m(make_manager(v, l));
  uint64_t r = 88172645463325252ull + (uint64_t)seed * 7919;
  auto next = [&]() {
    r ^= r << 13;
    r ^= r >> 7;
    r ^= r << 17;
    return (unsigned)(r >> 20);
  };
  std::vector<std::vector<SddLiteral>> clauses;
  for (int k = 0; k < 16; k++) {
    std::vector<SddLiteral> q;
    for (int j = 0; j < 4; j++) {
      SddLiteral x = 1 + next() % n;
      q.push_back(next() % 2 ? x : -x);
    }
    clauses.push_back(q);
  }
  std::vector<bool> want(1u << n);
  int count = 0;
  for (unsigned x = 0; x < (1u << n); x++) {
    bool all = true;
    for (auto &q : clauses) {
      bool any = false;
      for (SddLiteral y : q) any = any || ((x >> (labs(y) - 1) & 1) == (y > 0));
      all = all && any;
    }
    want[x] = all;
    count += all;
  }
  PsddNode *p = CNF(clauses).Compile(m.get(), 0);
  if (!p) c.skip();
  auto ser = psdd_node_util::SerializePsddNodes(p);
  MC_CHECK(psdd_node_util::ModelCount(ser) == count, "count", "model count %s instead of %d", psdd_node_util::ModelCount(ser).get_str().c_str(), count);
  std::unordered_map<SddLiteral, SddLiteral> map;
  for (int i = 1; i <= n; i++) map[i] = target ? n + 1 - i : i;
  SddManager *sm = sdd_manager_create(n, 1);
  SddNode *s = psdd_node_util::ConvertPsddNodeToSddNode(ser, map, sm);
  sdd_ref(s, sm);
  for (unsigned x = 0; x < (1u << n); x++) {
    unsigned y = 0;
    for (int i = 0; i < n; i++) y |= (x >> i & 1) << (map[i + 1] - 1);
    MC_CHECK(sdd_true(s, y) == want[x], "sdd-automatic", "the SDD is %s at %x", want[x] ? "false" : "true", x);
  }
  c.op(1u << n);
  // nothing but the result keeps nodes alive
  SddSize mine = sdd_size(s);
  sdd_manager_garbage_collect(sm);
  MC_CHECK(sdd_manager_live_size(sm) == mine, "sdd-kept", "the manager keeps %zu, the result has %zu", (size_t)sdd_manager_live_size(sm), (size_t)mine);
  sdd_manager_free(sm);
  c.state(fingerprint(p));
}
}  // namespace

void mc::register_scenarios(bool) {
  add("tables", tables);
  add("embedded", embedded);
  add("parts", parts);
  add("made", made);
  add("wide", wide);
  add("giant", giant);
  add("huge", huge);
  add("automatic", automatic);
}
