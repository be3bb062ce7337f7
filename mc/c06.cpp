// C06  product of two PSDDs
#include "family.h"
using namespace ref;

namespace {
// every clause of the property for one pair of operands living in (possibly different) managers of one vtree
void check_product(Chooser &c, PsddManager *m, PsddNode *p, PsddNode *q, const VTP &v, const Labels &labels, const Table &tp,
                   const Table &tq, uintmax_t flag) {
  Snapshot snap;
  snap.take(p);
  snap.take(q);
  auto r = m->Multiply(p, q, flag);
  c.op();
  snap.check("operand-changed", false);
  Table want(tp.size());
  double z = 0;
  for (size_t x = 0; x < want.size(); x++) z += want[x] = tp[x] * tq[x];
  size_t scope = leaves(v).size();
  double scale = std::pow(0.5, (double)(labels.size() - scope));  // tables range over all labels
  z *= scale;
  if (z == 0) {
    MC_CHECK(r.first == nullptr, "disjoint", "operands share no assignment but the product is %s", str(r.first).c_str());
    MC_CHECK(std::isinf(r.second.parameter()) && r.second.parameter() < 0, "disjoint", "constant %.12g (log) instead of zero",
             r.second.parameter());
    c.state(1);
    return;
  }
  MC_CHECK(r.first != nullptr, "missing", "operands share an assignment but there is no product: %s and %s", str(p).c_str(), str(q).c_str());
  double gz = exp(r.second.parameter());
  MC_CHECK(close(gz, z, 3e-6, 0), "constant", "constant %.12g instead of %.12g: %s times %s", gz, z, str(p).c_str(), str(q).c_str());
  Vtree *at = p->vtree_node();
  Vtree *expect = nullptr;
  std::vector<Vtree *> all = vtree_util::SerializeVtree(m->vtree());
  for (Vtree *w : all)
    if (sdd_vtree_position(w) == sdd_vtree_position(at)) expect = w;
  check_wellformed(r.first, expect, (long)flag, "product");
  check_normalized(r.first, "product");
  Table tr = table_of(r.first, labels);
  for (size_t x = 0; x < want.size(); x++)
    MC_CHECK(want[x] == 0 ? tr[x] == 0 : close(gz * tr[x], want[x], 5e-6, 1e-300), "product", "at %zx: Z*r = %.12g, p*q = %.12g: %s times %s gives %s", x,
             gz * tr[x], want[x], str(p).c_str(), str(q).c_str(), str(r.first).c_str());
  check_deterministic(r.first, labels, "product");
  c.op(want.size() + 1);
  auto r2 = m->Multiply(p, q, flag);
  MC_CHECK(r2.first == r.first && close_log(r2.second.parameter(), r.second.parameter(), 1e-9), "repeat", "the same product again gives another node");
  c.state(mc::mix(fingerprint(r.first), (uint64_t)(gz * 1e9)));
}
BuildOptions opt(int k) {
  BuildOptions o;
  o.compressed = k != 1;
  o.explicit_zero = k == 2;
  o.reversed = k == 3;
  return o;
}
void operands(Chooser &c, const VTP &v, const Labels &labels, const Table &a, const Table &b, int oa, int ob) {
  int place = c.choose(2, "second operand from another manager");
  ManagerPtr m(make_manager(v, labels)), m2;
  PsddManager *other = m.get();
  if (place) {
    m2.reset(make_manager(v, labels));
    other = m2.get();
    // other indices than in the first manager
    other->GetTrueNode(other->vtree(), 9);
  }
  BuildOptions o1 = opt(oa), o2 = opt(ob);
  o1.flag = 1;
  o2.flag = 2;
  PsddNode *p = build(m.get(), v, labels, a, o1);
  PsddNode *q = build(other, v, labels, b, o2);
  if (c.describing())
    c.describe("\nvtree " + str(v) + " " + str(a) + "[" + str(o1) + "] times " + str(b) + "[" + str(o2) + "]: " + str(p) + " times " + str(q));
  check_product(c, m.get(), p, q, v, labels, normalized(a), normalized(b), 3);
}
void leaf_pairs(Chooser &c) {
  Labels l = choose_labels(c, 1);
  Table a = choose_table(c, 1, {0, 1, 3, 1e-9}), b = choose_table(c, 1, {0, 1, 2, 1e-12});
  operands(c, leaf(0), l, a, b, c.choose(3, "form"), c.choose(3, "form"));
}
void pairs2(Chooser &c) {
  VTP v = choose_vtree(c, 2);
  std::vector<double> al = c.thorough() ? std::vector<double>{0, 1, 3} : std::vector<double>{0, 1, 3};
  Table a = choose_table(c, 2, al);
  Table b = choose_table(c, 2, c.thorough() ? std::vector<double>{0, 1, 2} : std::vector<double>{0, 2});
  operands(c, v, dense(2), a, b, c.choose(4, "form"), c.choose(c.thorough() ? 4 : 3, "form"));
}
void pairs3(Chooser &c) {
  VTP v = c.thorough() ? choose_vtree(c, 3) : choose_shape(c, {0, 1, 2});
  Table a = choose_table(c, 3, {0, 1}), b = choose_table(c, 3, {0, 1});
  for (int x = 0; x < 8; x++) {
    a[x] *= 1 + (x * 5 + 3) % 8;
    b[x] *= 1 + (x * 3 + 1) % 8;
  }
  int k = c.thorough() ? c.choose(9, "forms") : c.choose(2, "forms") * 5;
  Labels l = c.thorough() ? dense(3) : labels_kind(k ? 2 : 0, 3);
  operands(c, v, l, a, b, k / 3, k % 3);
}
void pairs4(Chooser &c) {
  VTP v = choose_shape(c, {0, 1, 2, 3});
  Table a(16), b(16);
  int step = c.thorough() ? 1 : 3;
  int f1 = step * c.choose((16 + step - 1) / step, "from"), n1 = 1 + step * c.choose((16 - f1 + step - 1) / step, "length");
  int f2 = step * c.choose((16 + step - 1) / step, "from"), n2 = 1 + step * c.choose((16 - f2 + step - 1) / step, "length");
  bool odd = c.flip("every third");
  for (int x = 0; x < 16; x++) {
    a[x] = x >= f1 && x < f1 + n1 ? 1 + (x * 7) % 5 : 0;
    b[x] = (x >= f2 && x < f2 + n2) && !(odd && x % 3 == 0) ? 1 + (x * 5) % 7 : 0;
  }
  if (total(b) == 0) c.skip();
  operands(c, v, dense(4), a, b, c.choose(2, "form"), c.choose(2, "form"));
}
// the same node twice, true nodes, absent operands, circuits at a sub-vtree
void special(Chooser &c) {
  Family f = choose_family(c, 0);
  int what = c.choose(6, "case");
  int place = c.choose(3, "place");
  Instance i = build_at(c, f, place);
  PsddManager *m = i.manager.get();
  Labels all = i.labels;
  if (what == 0) {
    check_product(c, m, i.node, i.node, i.v, i.labels, i.dist, i.dist, 0);
  } else if (what == 1 || what == 2) {
    PsddNode *t = m->GetTrueNode(i.node->vtree_node(), 5);
    Table one(i.dist.size(), 1);
    if (what == 1)
      check_product(c, m, i.node, t, i.v, i.labels, i.dist, one, 4);
    else
      check_product(c, m, t, i.node, i.v, i.labels, one, i.dist, 4);
  } else if (what < 5) {
    auto r = m->Multiply(what == 3 ? nullptr : i.node, what == 4 ? nullptr : i.node, 0);
    MC_CHECK(r.first == nullptr && std::isinf(r.second.parameter()) && r.second.parameter() < 0, "absent", "false times something is not false");
    c.op();
  } else {
    auto r = m->Multiply(nullptr, nullptr, 0);
    MC_CHECK(r.first == nullptr && std::isinf(r.second.parameter()) && r.second.parameter() < 0, "absent", "false times false is not false");
    c.op();
  }
}
// three factors in every grouping
void triple(Chooser &c) {
  VTP v = choose_shape(c, {0, 1, 2});
  Table t[3];
  int pat[3];
  for (int k = 0; k < 3; k++) {
    pat[k] = 1 + c.choose(c.thorough() ? 255 : 23, "support") * (c.thorough() ? 1 : 11);
    t[k].assign(8, 0);
    for (int x = 0; x < 8; x++)
      if (pat[k] >> x & 1) t[k][x] = 1 + (x * (2 * k + 3) + k) % 8;
  }
  ManagerPtr m(make_manager(v, dense(3)));
  PsddNode *p[3];
  for (int k = 0; k < 3; k++) p[k] = build(m.get(), v, dense(3), t[k], opt(k));
  if (c.describing()) c.describe(str(v) + " " + str(p[0]) + " * " + str(p[1]) + " * " + str(p[2]));
  Table n[3];
  for (int k = 0; k < 3; k++) n[k] = normalized(t[k]);
  double z = 0;
  Table want(8);
  for (int x = 0; x < 8; x++) z += want[x] = n[0][x] * n[1][x] * n[2][x];
  for (int g = 0; g < 3; g++) {
    auto a = m->Multiply(p[g], p[(g + 1) % 3], 1);
    auto r = m->Multiply(a.first, p[(g + 2) % 3], 1);
    double gz = exp((r.second * a.second).parameter());
    c.op();
    if (z == 0) {
      MC_CHECK(r.first == nullptr && std::isinf(r.second.parameter()), "triple", "grouping %d: no common assignment but a product", g);
      continue;
    }
    MC_CHECK(r.first && close(gz, z, 5e-6, 0), "triple", "grouping %d: constant %.12g instead of %.12g", g, gz, z);
    Table tr = table_of(r.first, dense(3));
    for (int x = 0; x < 8; x++) MC_CHECK(close(gz * tr[x], want[x], 1e-5), "triple", "grouping %d at %x: %.12g instead of %.12g", g, x, gz * tr[x], want[x]);
    c.op(8);
    c.state(fingerprint(r.first));
  }
}
void wide(Chooser &c) {
  Wide w = choose_wide(c);
  PsddManager *m = w.manager.get();
  int n = (int)w.labels.size();
  Table t(size_t(1) << n);
  int pat = c.choose(2, "other");
  for (size_t x = 0; x < t.size(); x++) t[x] = pat && x % 4 == 1 ? 0 : 1 + (double)((x * 31) % 11);
  BuildOptions o;
  o.compressed = false;
  PsddNode *q = build(m, w.v, w.labels, t, o);
  Table tq = normalized(t);
  auto r = m->Multiply(w.node, q, 1);
  double z = 0, gz = exp(r.second.parameter());
  for (size_t x = 0; x < t.size(); x++) z += w.dist[x] * tq[x];
  MC_CHECK(r.first && close(gz, z, 5e-6, 0), "wide", "constant %.12g instead of %.12g", gz, z);
  check_normalized(r.first, "wide product");
  Table tr = table_of(r.first, w.labels);
  for (size_t x = 0; x < t.size(); x++) MC_CHECK(close(gz * tr[x], w.dist[x] * tq[x], 1e-5), "wide", "at %zx: %.12g instead of %.12g", x, gz * tr[x], w.dist[x] * tq[x]);
  c.op(t.size());
  c.state(fingerprint(r.first));
}
// weights many orders of magnitude apart in one operand, or both
void extreme_pairs(Chooser &c) {
  static const std::vector<double> w = {1, 1 + 1e-8, 1e-9, 1e-140, 0};
  VTP v;
  Table a, b;
  if (!c.flip("three variables")) {
    v = choose_vtree(c, 2);
    a = choose_table(c, 2, w);
    b = choose_table(c, 2, c.thorough() ? std::vector<double>{0, 1, 1e-13} : std::vector<double>{1, 1e-13});
  } else {
    v = choose_shape(c, {0, 1, 2});
    a.assign(8, 1);
    int x = c.choose(8, "place"), y = c.choose(8, "place2");
    a[x] = c.pick(w, "w");
    a[y] = c.pick(w, "w2");
    b.assign(8, 1);
    b[c.choose(8, "place3")] = c.flip("tiny") ? 1e-13 : 0;
  }
  operands(c, v, dense(v->r->leaf() && v->l->leaf() ? 2 : 3), a, b, c.choose(2, "form"), c.choose(2, "form"));
}
void chain(Chooser &c, int n, int shape, int label_kind, double base) {
  VTP v = named_shape(shape, n);
  Labels labels = labels_kind(label_kind, n);
  int mode = c.choose(3, "mode");
  ManagerPtr m(make_manager(v, labels));
  auto P = [](double x) { return PsddParameter::CreateFromDecimal(x); };
  std::vector<double> a(n), b(n);
  for (int i = 0; i < n; i++) {
    a[i] = i % 5 == 4 ? 0.25 : base;
    b[i] = mode == 1 && i % 3 == 0 ? 1 : mode == 2 && i % 2 ? 0 : 0.125;
  }
  std::function<PsddNode *(const VTP &, const std::vector<double> &)> rec = [&](const VTP &w, const std::vector<double> &p) -> PsddNode * {
    if (w->leaf()) {
      double x = p[w->var];
      if (x == 0 || x == 1) return m->GetPsddLiteralNode(x == 1 ? labels[w->var] : -labels[w->var], 0);
      return m->GetPsddTopNode(labels[w->var], 0, P(x), P(1 - x));
    }
    PsddNode *l = rec(w->l, p), *r = rec(w->r, p);
    return m->GetConformedPsddDecisionNode({l}, {r}, {P(1)}, 0);
  };
  auto r = m->Multiply(rec(v, a), rec(v, b), 1);
  long double z = 0;
  for (int i = 0; i < n; i++) z += logl((long double)a[i] * b[i] + (1 - (long double)a[i]) * (1 - b[i]));
  c.op();
  MC_CHECK(r.first && close_log(r.second.parameter(), (double)z, 1e-5 + 1e-9 * fabs((double)z)), "chain", "%d variables: log constant %.12g instead of %.12Lg", n,
           r.second.parameter(), z);
  check_normalized(r.first, "chain product");
  auto marg = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(r.first));
  for (int i = 0; i < n; i++) {
    double t = a[i] * b[i], f = (1 - a[i]) * (1 - b[i]);
    double got = exp(marg[(uint32_t)labels[i]].second.parameter());
    MC_CHECK(close(got, t / (t + f), 1e-5), "chain", "variable %d of %d: marginal %.12g instead of %.12g", i, n, got, t / (t + f));
    c.op();
  }
  c.state(fingerprint(r.first));
}
void chains(Chooser &c) {
  static const int ns[] = {1, 2, 3, 31, 32, 33, 64, 100, 200};
  int n = ns[c.choose(9, "n")], shape = c.choose(3, "shape"), kind = c.flip("sparse") ? 2 : 0;
  static const double ps[] = {0.5, 1e-30, 0.9};
  chain(c, n, shape, kind, ps[c.choose(3, "p")]);
}
void giant(Chooser &c) {
  int k = c.choose(3, "kind");
  chain(c, k == 2 ? 33000 : 1200, k, k == 2 ? 0 : 2, 0.9);
}
// by a free circuit, by a distribution over one of the variables, by itself
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  PsddManager *m = h.manager.get();
  int n = (int)h.labels.size();
  int other = c.choose(h.kind == 1 ? 3 : 4, "other");  // 3: itself
  auto P = [](double x) { return PsddParameter::CreateFromDecimal(x); };
  PsddNode *g = h.node;
  int var = other == 1 ? n - 1 : 3;
  if (other == 0) g = m->GetTrueNode(m->vtree(), 0);
  if (other == 1 || other == 2) g = m->NormalizePsddNode(m->vtree(), m->GetPsddTopNode(h.labels[var], 0, P(0.875), P(0.125)), 0);
  auto factor = [&](unsigned x) { return other == 3 ? h.log_prob(x) : log_weight(g, h.assignment(x)); };
  // the other factor depends on at most one variable
  auto factor_of = [&](unsigned x) -> long double {
    static std::map<std::pair<int, int>, long double> memo;
    if (other == 3) return factor(x);
    std::pair<int, int> key{h.kind * 10 + other, x >> var & 1};
    auto it = memo.find(key);
    if (it == memo.end()) it = memo.emplace(key, factor(x)).first;
    return it->second;
  };
  bool turned = c.flip("turned");
  if (other == 3 && turned) c.skip();
  auto r = turned ? m->Multiply(g, h.node, 1) : m->Multiply(h.node, g, 1);
  MC_CHECK(r.first != nullptr, "huge", "no product");
  check_wellformed(r.first, m->vtree(), 1, "huge product");
  check_normalized(r.first, "huge product", 1e-5);
  long double z = -INFINITY;
  for (unsigned x = 0; x < (1u << n); x++) z = logadd(z, h.log_prob(x) + factor_of(x));
  c.op();
  MC_CHECK(close_log(r.second.parameter(), (double)z, 1e-5), "huge-constant", "log constant %.12g instead of %.12Lg", r.second.parameter(), z);
  for (unsigned x : huge_samples(h)) {
    long double want = h.log_prob(x) + factor_of(x) - z, got = log_weight(r.first, h.assignment(x));
    c.op();
    MC_CHECK(close_log((double)got, (double)want, 1e-4), "huge-product", "assignment %x: log %.12Lg instead of %.12Lg", x, got, want);
  }
  c.state(mc::mix((uint64_t)h.kind, (uint64_t)other));
}
}  // namespace

void mc::register_scenarios(bool) {
  add("leaves", leaf_pairs);
  add("pairs2", pairs2);
  add("pairs3", pairs3);
  add("pairs4", pairs4);
  add("special", special);
  add("triple", triple);
  add("wide", wide);
  add("extreme pairs", extreme_pairs);
  add("chains", chains);
  add("giant", giant);
  add("huge", huge);
}
