// C26  the cost of a question follows the size of the circuit, not the number of its paths
//
// Circuits are made from every automaton with few states that reads the variables of a vtree from left to
// right: a node per (vtree node, state before, state after), shared everywhere, so that a few hundred nodes
// have more than 2^50 paths.  Every operation is asked on each; an operation that follows paths never ends.
#include <algorithm>
#include <functional>
#include <map>
#include <unordered_map>

#include "family.h"
#include "sddx.h"
using namespace ref;

namespace {
class Ramp : public RandomDoubleGenerator {
 public:
  double generate() override { return 0.25 + (k_++ % 7); }

 private:
  int k_ = 0;
};
class Weyl : public RandomDoubleFromUniformGenerator {
 public:
  Weyl() : RandomDoubleFromUniformGenerator(0, 0, 1) {}
  double generate() override { return x_ = std::fmod(x_ + 0.6180339887, 1.0); }

 private:
  double x_ = 0.1;
};
struct Automaton {
  int k = 2;
  std::vector<int> next;  // next[2 * s + bit]
  unsigned accept = 1;
  std::string text() const {
    std::string r;
    for (int x : next) r += std::to_string(x);
    return r + "/" + std::to_string(accept);
  }
};
Automaton choose_automaton(Chooser &c, int k) {
  Automaton a;
  a.k = k;
  for (int i = 0; i < 2 * k; i++) a.next.push_back(c.choose(k, "next"));
  a.accept = 1 + (unsigned)c.choose((1 << k) - 1, "accept");
  return a;
}
struct Builder {
  PsddManager *m;
  const Labels &l;
  const Automaton &a;
  bool shared;  // one element per state and value even where they could be one
  std::map<std::tuple<Vtree *, int, int>, PsddNode *> memo;
  // state to == a.k: any accepting state
  PsddNode *get(Vtree *v, int from, int to) {
    auto key = std::make_tuple(v, from, to);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    auto P = [](double x) { return PsddParameter::CreateFromDecimal(x); };
    PsddNode *r = nullptr;
    if (sdd_vtree_is_leaf(v)) {
      bool ok[2];
      for (int b = 0; b < 2; b++) {
        int t = a.next[(size_t)(2 * from + b)];
        ok[b] = to == a.k ? a.accept >> t & 1 : t == to;
      }
      SddLiteral x = sdd_vtree_var(v);
      if (ok[0] && ok[1])
        r = m->GetPsddTopNode((uint32_t)x, 0, P(0.25), P(0.75));
      else if (ok[0] || ok[1])
        r = m->GetPsddLiteralNode((int32_t)(ok[1] ? x : -x), 0);
    } else {
      std::vector<PsddNode *> ps, ss;
      std::vector<PsddParameter> ws;
      double total = 0;
      std::vector<double> w;
      for (int u = 0; u < a.k; u++) {
        PsddNode *s = get(sdd_vtree_right(v), u, to);
        if (!s) continue;
        if (shared && sdd_vtree_is_leaf(sdd_vtree_left(v))) {
          for (int b = 0; b < 2; b++)
            if (a.next[(size_t)(2 * from + b)] == u) {
              ps.push_back(m->GetPsddLiteralNode((int32_t)(b ? 1 : -1) * (int32_t)sdd_vtree_var(sdd_vtree_left(v)), 0));
              ss.push_back(s);
              w.push_back(1 + b + u);
            }
          continue;
        }
        PsddNode *p = get(sdd_vtree_left(v), from, u);
        if (!p) continue;
        ps.push_back(p);
        ss.push_back(s);
        w.push_back(1 + u);
      }
      for (double x : w) total += x;
      for (double x : w) ws.push_back(P(x / total));
      if (!ps.empty()) r = m->GetConformedPsddDecisionNode(ps, ss, ws, 0);
    }
    memo[key] = r;
    return r;
  }
};
mpz_class count_words(const Automaton &a, const std::vector<signed char> &ev) {
  std::vector<mpz_class> cur((size_t)a.k), nxt;
  cur[0] = 1;
  for (signed char e : ev) {
    nxt.assign((size_t)a.k, 0);
    for (int s = 0; s < a.k; s++)
      for (int b = 0; b < 2; b++)
        if (e < 0 || e == b) nxt[(size_t)a.next[(size_t)(2 * s + b)]] += cur[(size_t)s];
    cur = nxt;
  }
  mpz_class r = 0;
  for (int s = 0; s < a.k; s++)
    if (a.accept >> s & 1) r += cur[(size_t)s];
  return r;
}
// log of the largest weight
long double best(PsddNode *root) {
  std::unordered_map<PsddNode *, long double> memo;
  std::function<long double(PsddNode *)> rec = [&](PsddNode *x) -> long double {
    auto it = memo.find(x);
    if (it != memo.end()) return it->second;
    long double r = -INFINITY;
    if (x->node_type() == LITERAL_NODE_TYPE)
      r = 0;
    else if (x->node_type() == TOP_NODE_TYPE)
      r = std::max(x->psdd_top_node()->true_parameter().parameter(), x->psdd_top_node()->false_parameter().parameter());
    else {
      auto d = x->psdd_decision_node();
      for (size_t i = 0; i < d->primes().size(); i++) r = std::max(r, d->parameters()[i].parameter() + rec(d->primes()[i]) + rec(d->subs()[i]));
    }
    return memo[x] = r;
  };
  return rec(root);
}
struct World {
  Chooser &c;
  int n;
  VTP v;
  Labels l;
  ManagerPtr m;
  std::vector<int> order;  // leaves from left to right
  static constexpr int kEvidences = 9;
  std::vector<signed char> evidence(int k) const {  // by position
    std::vector<signed char> e((size_t)n, -1);
    if (k == 1) e.back() = 0;
    if (k == 2) e.back() = 1;
    if (k == 3) e[0] = 1;
    if (k == 4)
      for (int i = 0; i < n; i += 2) e[(size_t)i] = i / 2 % 2;
    if (k == 5)
      for (int i = 0; i < n; i++) e[(size_t)i] = 0;
    if (k == 6)
      for (int i = 0; i < n; i++) e[(size_t)i] = i % 3 == 1;
    if (k == 7) e[(size_t)n / 2] = 1, e[(size_t)n / 2 - 1] = 1;
    if (k == 8) e.back() = e[(size_t)n - 2] = 1;
    return e;
  }
  std::vector<signed char> by_label(const std::vector<signed char> &e) const {
    std::vector<signed char> r((size_t)*std::max_element(l.begin(), l.end()) + 1, -1);
    for (int i = 0; i < n; i++) r[(size_t)l[(size_t)order[(size_t)i]]] = e[(size_t)i];
    return r;
  }
  int label(int pos) const { return l[(size_t)order[(size_t)pos]]; }
};
void questions(World &w, PsddNode *p, const Automaton &a) {
  Chooser &c = w.c;
  static std::bitset<MAX_VAR> mask, inst;
  auto ser = psdd_node_util::SerializePsddNodes(p);
  auto mine = reachable(p);
  MC_CHECK(ser.size() == mine.size() && psdd_node_util::GetCoveredPsddNodes({p}).size() == mine.size(), "nodes", "%zu nodes listed, %zu reachable", ser.size(), mine.size());
  mpz_class count = psdd_node_util::ModelCount(ser), want = count_words(a, w.evidence(0));
  MC_CHECK(count == want, "count", "model count %s instead of %s", count.get_str().c_str(), want.get_str().c_str());
  c.op(2);
  for (int k = 0; k < World::kEvidences; k++) {
    auto e = w.evidence(k), bl = w.by_label(e);
    bool yes = count_words(a, e) > 0;
    std::unordered_map<uint32_t, bool> map;
    for (int i = 0; i < w.n; i++) {
      mask[(size_t)w.label(i)] = e[(size_t)i] >= 0;
      inst[(size_t)w.label(i)] = e[(size_t)i] == 1;
      if (e[(size_t)i] >= 0) map[(uint32_t)w.label(i)] = e[(size_t)i] == 1;
    }
    bool a1 = psdd_node_util::IsConsistent(ser, mask, inst), a2 = psdd_node_util::IsConsistent(p, mask, inst), a3 = p->IsConsistent(map);
    long double lw = log_weight(p, bl);
    double e1 = psdd_node_util::Evaluate(mask, inst, ser).parameter(), e2 = psdd_node_util::Evaluate(mask, inst, p).parameter();
    c.op(5);
    MC_CHECK(a1 == yes && a2 == yes && a3 == yes, "consistent", "evidence %d is %s, the queries say %d %d %d", k, yes ? "consistent" : "inconsistent", a1, a2, a3);
    MC_CHECK(close_log(e1, (double)lw, 1e-6) && close_log(e2, (double)lw, 1e-6), "evaluate", "evidence %d: log probability %.12g and %.12g instead of %.12Lg", k, e1, e2, lw);
    if (k == 5 || k == 6) {
      psdd_node_util::SetActivationFlag(inst, ser);
      MC_CHECK(p->activation_flag() == yes, "marks", "evidence %d", k);
    }
  }
  auto mar = psdd_node_util::GetMarginals(ser);
  MC_CHECK((int)mar.size() == w.n, "marginals", "%zu variables", mar.size());
  for (int i : {0, w.n / 2, w.n - 1})
    for (int b = 0; b < 2; b++) {
      auto e = w.evidence(0);
      e[(size_t)i] = (signed char)b;
      long double lw = log_weight(p, w.by_label(e));
      auto f = mar[(uint32_t)w.label(i)];
      MC_CHECK(close_log((b ? f.second : f.first).parameter(), (double)lw, 1e-6), "marginals", "position %d value %d: log %.12g instead of %.12Lg", i, b, (b ? f.second : f.first).parameter(), lw);
    }
  long double top = best(p);
  for (int form = 0; form < 2; form++) {
    auto s = form ? psdd_node_util::GetMPESolution(p) : psdd_node_util::GetMPESolution(ser);
    std::vector<signed char> e((size_t)w.n);
    for (int i = 0; i < w.n; i++) e[(size_t)i] = s.first[(size_t)w.label(i)];
    long double lw = log_weight(p, w.by_label(e));
    c.op();
    MC_CHECK(close_log(s.second.parameter(), (double)top, 1e-6) && close_log((double)lw, (double)top, 1e-6), "mpe", "log %.12g, its assignment %.12Lg, the largest is %.12Lg", s.second.parameter(), lw, top);
  }
  std::bitset<MAX_VAR> drawn;
  Weyl g;
  for (int k = 0; k < 3; k++) {
    p->DirectSample(&drawn, &g);
    std::vector<signed char> e((size_t)w.n);
    for (int i = 0; i < w.n; i++) e[(size_t)i] = drawn[(size_t)w.label(i)];
    c.op();
    MC_CHECK(count_words(a, e) == 1, "sample", "a sample that is no model");
  }
  psdd_node_util::GetPsddSize(p);
  for (int i = 0; i < w.n; i++) mask[(size_t)w.label(i)] = inst[(size_t)w.label(i)] = false;
}
void same_weights(World &w, PsddNode *p, PsddNode *q, double offset, double tol, const char *what) {
  for (int k = 0; k < World::kEvidences; k++) {
    auto e = w.by_label(w.evidence(k));
    long double x = log_weight(p, e), y = log_weight(q, e);
    w.c.op();
    MC_CHECK(close_log((double)x, (double)y + offset, tol), what, "evidence %d: log %.12Lg instead of %.12Lg", k, x, y + offset);
  }
}
void operations(World &w, PsddNode *p, const Automaton &a, PsddNode *q) {
  Chooser &c = w.c;
  PsddManager *m = w.m.get();
  // another copy by a file
  std::string f = c.scratch() + "/p.psdd";
  psdd_node_util::WritePsddToFile(p, f.c_str());
  PsddNode *r = m->ReadPsddFile(f.c_str(), 3);
  MC_CHECK(r != nullptr, "file", "nothing is read back");
  same_weights(w, r, p, 0, 1e-3, "file");
  // by another manager
  ManagerPtr other(make_manager(w.v, w.l));
  same_weights(w, other->LoadPsddNode(other->vtree(), p, 4), p, 0, 1e-9, "load");
  // products
  auto z = m->Multiply(p, p, 5);
  MC_CHECK(z.first != nullptr, "product", "no product with itself");
  check_wellformed(z.first, m->vtree(), 5, "product");
  for (int k : {5, 6}) {
    auto e = w.by_label(w.evidence(k));
    MC_CHECK(close_log((double)log_weight(z.first, e), (double)(2 * log_weight(p, e)) - z.second.parameter(), 1e-4), "product", "evidence %d", k);
  }
  MC_CHECK(std::fabs((double)log_weight(z.first, w.by_label(w.evidence(0)))) < 1e-5, "product", "not normalised");
  auto y = m->Multiply(p, q, 6);
  if (y.first) {
    for (int k : {5, 6}) {
      auto e = w.by_label(w.evidence(k));
      MC_CHECK(close_log((double)log_weight(y.first, e), (double)(log_weight(p, e) + log_weight(q, e)) - y.second.parameter(), 1e-4), "product", "with another, evidence %d", k);
    }
  } else
    MC_CHECK(std::isinf(y.second.parameter()), "product", "no circuit but a constant");
  // learning
  std::vector<std::vector<bool>> rows;
  Weyl g;
  for (int k = 0; k < 5; k++) {
    std::bitset<MAX_VAR> drawn;
    p->DirectSample(&drawn, &g);
    std::vector<bool> row;
    for (int i = 0; i < w.n; i++) row.push_back(drawn[(size_t)w.label(i)]);
    rows.push_back(row);
  }
  std::unordered_map<int32_t, BatchedPsddValue> ex;
  for (int i = 0; i < w.n; i++) {
    BatchedPsddValue b;
    for (auto &row : rows) b.push_back(row[(size_t)i]);
    ex[w.label(i)] = b;
  }
  PsddNode *lrn = m->LearnPsddParameters(p, ex, rows.size(), PsddParameter::CreateFromDecimal(1), 7);
  check_wellformed(lrn, m->vtree(), 7, "learned");
  check_normalized(lrn, "learned");
  MC_CHECK(reachable(lrn).size() <= reachable(p).size(), "learn", "the learned circuit has %zu nodes, the structure %zu", reachable(lrn).size(), reachable(p).size());
  for (int k = 0; k < World::kEvidences; k++) {
    auto e = w.by_label(w.evidence(k));
    MC_CHECK(std::isfinite((double)log_weight(lrn, e)) == std::isfinite((double)log_weight(p, e)), "learn", "evidence %d", k);
  }
  c.op(4);
  Ramp ramp;
  auto sampled = m->SampleParametersForMultiplePsdds(&ramp, {p, lrn}, 8);
  MC_CHECK(sampled.size() == 2, "parameters", "%zu results", sampled.size());
  check_wellformed(sampled[0], m->vtree(), 8, "sampled");
  check_normalized(sampled[0], "sampled");
  MC_CHECK(reachable(sampled[0]).size() == reachable(p).size(), "parameters", "%zu nodes of %zu", reachable(sampled[0]).size(), reachable(p).size());
  // a part of it is lifted
  if (p->node_type() == DECISION_NODE_TYPE)
    for (PsddNode *part : {p->psdd_decision_node()->primes()[0], p->psdd_decision_node()->subs()[0]}) check_wellformed(m->NormalizePsddNode(m->vtree(), part, 9), m->vtree(), -1, "lifted");
  // to an SDD of the same vtree and back
  std::unordered_map<SddLiteral, SddLiteral> map;
  for (int i = 0; i < w.n; i++) map[w.l[(size_t)i]] = i + 1;
  SddManager *sm = sdd_of(w.v, w.n);
  SddNode *s = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(p), map, sm);
  mpz_class count = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(p));
  std::unordered_map<uint32_t, uint32_t> to;
  for (int i = 0; i < w.n; i++) to[(uint32_t)i + 1] = (uint32_t)w.l[(size_t)i];
  ManagerPtr back(PsddManager::GetPsddManagerFromSddVtree(sdd_manager_vtree(sm), to));
  PsddNode *b = back->ConvertSddToPsdd(s, sdd_manager_vtree(sm), 2);
  MC_CHECK(b != nullptr, "sdd", "no circuit for the SDD");
  c.op();
  MC_CHECK(psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(b)) == count, "sdd", "the SDD has another number of models");
  for (int k = 0; k < World::kEvidences; k++) {
    auto e = w.by_label(w.evidence(k));
    MC_CHECK(std::isfinite((double)log_weight(b, e)) == std::isfinite((double)log_weight(p, e)), "sdd", "evidence %d", k);
  }
  // collection
  std::vector<std::pair<PsddNode *, uintmax_t>> before;
  for (auto x : reachable(p)) before.push_back({x, x->node_index()});
  long double keep = log_weight(p, w.by_label(w.evidence(6)));
  m->DeleteUnusedPsddNodes({p});
  for (auto &x : before) MC_CHECK(x.first->node_index() == x.second, "collect", "a node of the kept circuit changed");
  MC_CHECK(close_log((double)log_weight(p, w.by_label(w.evidence(6))), (double)keep, 1e-12), "collect", "the kept circuit changed");
  c.op();
}
void automata(Chooser &c, int k, bool heavy) {
  std::vector<int> sizes = heavy ? std::vector<int>{56} : std::vector<int>{60};
  if (c.thorough()) sizes.push_back(100);
  int n = c.pick(sizes, "n"), shape = c.choose(3, "shape");
  Automaton a = choose_automaton(c, k);
  bool shared = shape != 1 && c.flip("shared");
  VTP v = named_shape(shape, n);
  World w{c, n, v, labels_kind(2, n), nullptr, leaves(v)};
  w.m.reset(make_manager(v, w.l));
  Builder b{w.m.get(), w.l, a, shared, {}};
  PsddNode *p = b.get(w.m->vtree(), 0, a.k);
  c.describef("%d variables, shape %d, automaton %s%s", n, shape, a.text().c_str(), shared ? ", an element per value" : "");
  if (!p) c.skip();
  questions(w, p, a);
  if (heavy) {
    Automaton o;
    o.next = {0, 1, 1, 0};
    o.accept = 2;
    Builder b2{w.m.get(), w.l, o, false, {}};
    operations(w, p, a, b2.get(w.m->vtree(), 0, o.k));
  }
  c.state(mc::mix(mc::hash_str(a.text()), (uint64_t)(n * 8 + shape * 2 + shared)));
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  mc::add("two states", [](Chooser &c) { automata(c, 2, true); });
  mc::add("three states", [=](Chooser &c) { automata(c, 3, thorough); });
}
