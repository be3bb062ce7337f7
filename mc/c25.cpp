// C25  operations compose: every sequence of model operations gives the models the tables say
#include <algorithm>
#include <functional>

#include "family.h"
#include "sddx.h"
using namespace ref;

namespace {
enum Op { kCompileA, kCompileB, kBuild, kLearn, kMultiply, kReread, kMove, kSample, kCollect, kCondition, kSdd, kPart, kOldest, kOps };
const char *kNames[] = {"compile a", "compile b", "build", "learn", "multiply last two", "write and read", "load into the other manager", "sample parameters", "collect all but the last two",
                        "condition", "to an sdd and back", "lift a part", "back to the oldest"};
class Ramp : public RandomDoubleGenerator {
 public:
  double generate() override { return 0.25 + (k_++ % 7); }

 private:
  int k_ = 0;
};
struct Item {
  PsddNode *p = nullptr;  // nullptr: the zero function
  Table t;
  int manager = 0;
};
bool locally_normalised(PsddNode *n) {
  for (auto q : reachable(n)) {
    double s = 1;
    if (q->node_type() == TOP_NODE_TYPE)
      s = exp(q->psdd_top_node()->true_parameter().parameter()) + exp(q->psdd_top_node()->false_parameter().parameter());
    else if (q->node_type() == DECISION_NODE_TYPE) {
      s = 0;
      for (auto &x : q->psdd_decision_node()->parameters()) s += exp(x.parameter());
    }
    if (fabs(s - 1) > 1e-6) return false;
  }
  return true;
}
// counts of the rows at every branch, then the table of the structure with the smoothed counts as parameters
struct Learned {
  const Labels &l;
  std::map<PsddNode *, std::vector<double>> at;
  void row(PsddNode *n, const Assign &a) {
    if (n->node_type() == LITERAL_NODE_TYPE) return;
    auto &v = at[n];
    if (n->node_type() == TOP_NODE_TYPE) {
      v.resize(2);
      v[a.value(n->psdd_top_node()->variable_index())]++;
      return;
    }
    auto d = n->psdd_decision_node();
    v.resize(d->primes().size());
    for (size_t i = 0; i < d->primes().size(); i++)
      if (models(d->primes()[i], a) && models(d->subs()[i], a)) {
        v[i]++;
        row(d->primes()[i], a);
        row(d->subs()[i], a);
      }
  }
  double value(PsddNode *n, const Assign &a) {
    if (n->node_type() == LITERAL_NODE_TYPE) return models(n, a);
    auto &v = at[n];
    if (n->node_type() == TOP_NODE_TYPE) {
      v.resize(2);
      return (v[a.value(n->psdd_top_node()->variable_index())] + 1) / (v[0] + v[1] + 2);
    }
    auto d = n->psdd_decision_node();
    v.resize(d->primes().size());
    double tot = 0, s = 0;
    for (double x : v) tot += x;
    for (size_t i = 0; i < d->primes().size(); i++)
      if (models(d->primes()[i], a)) s += (v[i] + 1) / (tot + (double)v.size()) * value(d->primes()[i], a) * value(d->subs()[i], a);
    return s;
  }
};
struct World {
  Chooser &c;
  VTP v;
  Labels l;
  uintmax_t flags;
  ManagerPtr m[2];
  std::vector<Item> items;
  int step = 0;
  uint64_t h = 11;
  int n() const { return (int)l.size(); }
  unsigned N() const { return 1u << n(); }
  uintmax_t flag() const { return flags ? (uintmax_t)step % 3 : 0; }

  // the circuit must have the weights of t (or, with only_support, exactly its support)
  void verify(PsddNode *p, const Table &t, bool only_support, const char *what, Table *own_out) {
    if (p == nullptr) {
      MC_CHECK(total(t) == 0, "missing", "step %d (%s): no circuit for %s", step, what, str(t).c_str());
      if (own_out) *own_out = Table(N(), 0);
      return;
    }
    Table own = table_of(p, l);
    for (unsigned x = 0; x < N(); x++)
      MC_CHECK(only_support ? (own[x] > 0) == (t[x] > 0) : t[x] == 0 ? own[x] == 0 : close(own[x], t[x], 1e-5), "table", "step %d (%s): weight %.9g instead of %.9g at %x: %s", step, what, own[x], t[x], x, str(p).c_str());
    c.op(N());
    if (own_out) *own_out = own;
  }
  void ask(const Item &i, bool everything) {
    if (!i.p) return;
    static std::bitset<MAX_VAR> mask, inst;
    auto ser = psdd_node_util::SerializePsddNodes(i.p);
    int count = 0;
    double best = 0;
    for (double x : i.t) count += x > 0, best = std::max(best, x);
    for (unsigned x = 0; x < N(); x++) {
      set_bits(&mask, l, N() - 1);
      set_bits(&inst, l, x);
      double e = exp(psdd_node_util::Evaluate(mask, inst, ser).parameter());
      MC_CHECK(i.t[x] == 0 ? e == 0 : close(e, i.t[x], 1e-6), "evaluate", "step %d: evaluated %.9g instead of %.9g at %x: %s", step, e, i.t[x], x, str(i.p).c_str());
      MC_CHECK(psdd_node_util::IsConsistent(ser, mask, inst) == (i.t[x] > 0), "consistent", "step %d: assignment %x of %s", step, x, str(i.p).c_str());
    }
    MC_CHECK(psdd_node_util::ModelCount(ser) == count, "count", "step %d: %d models in %s", step, count, str(i.p).c_str());
    auto s = psdd_node_util::GetMPESolution(ser);
    unsigned at = 0;
    for (int k = 0; k < n(); k++) at |= (unsigned)s.first[l[k]] << k;
    MC_CHECK(close(exp(s.second.parameter()), best, 1e-6) && close(i.t[at], best, 1e-6), "mpe", "step %d: MPE %x with %.9g, the best is %.9g: %s", step, at, exp(s.second.parameter()), best, str(i.p).c_str());
    c.op(2 * N() + 2);
    if (everything && locally_normalised(i.p)) {
      auto g = psdd_node_util::GetMarginals(ser);
      MC_CHECK((int)g.size() == n(), "marginals", "%zu variables", g.size());
      for (unsigned m = 0; m < N(); m++)
        for (unsigned b = m;; b = (b - 1) & m) {
          set_bits(&mask, l, m);
          set_bits(&inst, l, b);
          double want = 0;
          for (unsigned x = 0; x < N(); x++)
            if ((x & m) == b) want += i.t[x];
          double e = exp(psdd_node_util::Evaluate(mask, inst, ser).parameter());
          MC_CHECK(want == 0 ? e == 0 : close(e, want, 1e-5), "evidence", "%x of %x: %.9g instead of %.9g: %s", b, m, e, want, str(i.p).c_str());
          c.op();
          if (__builtin_popcount(m) == 1) {
            auto k = g[(uint32_t)l[__builtin_ctz(m)]];
            double w = exp(b ? k.second.parameter() : k.first.parameter());
            MC_CHECK(want == 0 ? w == 0 : close(w, want, 1e-5), "marginals", "variable %d: %.9g instead of %.9g: %s", __builtin_ctz(m), w, want, str(i.p).c_str());
          }
          if (!b) break;
        }
    }
    set_bits(&mask, l, 0);
    set_bits(&inst, l, 0);
  }
  void push(PsddNode *p, const Table &t, int manager, bool only_support, const char *what) {
    Item i;
    i.p = p;
    i.manager = manager;
    if (p) check_wellformed(p, m[manager]->vtree(), -1, what);
    verify(p, t, only_support, what, &i.t);
    items.push_back(i);
    ask(i, false);
    h = mc::mix(h, p ? fingerprint(p) : 1);
  }
  PsddNode *literal(int k, bool sign) { return m[0]->NormalizePsddNode(m[0]->vtree(), m[0]->GetPsddLiteralNode(sign ? l[k] : -l[k], flag()), flag()); }
  void run(int op) {
    Item last = items.empty() ? Item() : items.back();
    PsddManager *mm = m[last.manager].get();
    const char *what = kNames[op];
    Table t(N());
    switch (op) {
      case kCompileA:
      case kCompileB: {
        std::vector<std::vector<SddLiteral>> cl;
        int z = n() - 1;
        if (op == kCompileA)
          cl = {{l[0], l[z]}, {-l[0], -l[z]}};
        else if (n() > 2)
          cl = {{-l[0], l[1]}, {l[z], -l[1], l[0]}};
        else
          cl = {{-l[0], l[1]}};
        for (unsigned x = 0; x < N(); x++) {
          bool a = x & 1, b = x >> 1 & 1, q = x >> z & 1;
          t[x] = op == kCompileA ? a != q : n() > 2 ? (!a || b) && (q || !b || a) : !a || b;
        }
        push(CNF(cl).Compile(m[0].get(), flag()), t, 0, true, what);
        break;
      }
      case kBuild: {
        for (unsigned x = 0; x < N(); x++) t[x] = x % 3 == 1 ? 0 : 1 + (x * 5) % 7;
        t = normalized(t);
        BuildOptions o;
        o.flag = flag();
        push(build(m[0].get(), v, l, t, o), t, 0, false, what);
        break;
      }
      case kLearn: {
        if (!last.p) c.skip();
        std::vector<unsigned> rows;
        for (unsigned k = 0; k < 6; k++) {
          unsigned x = (k * k + 1) % N();
          if (last.t[x] > 0) rows.push_back(x);
        }
        std::unordered_map<int32_t, BatchedPsddValue> ex;
        for (int k = 0; k < n(); k++) {
          BatchedPsddValue b(rows.size());
          for (size_t i = 0; i < rows.size(); i++) b[i] = rows[i] >> k & 1;
          ex[l[k]] = b;
        }
        Learned g{l, {}};
        for (unsigned x : rows) g.row(last.p, Assign{&l, x});
        for (unsigned x = 0; x < N(); x++) t[x] = g.value(last.p, Assign{&l, x});
        push(mm->LearnPsddParameters(last.p, ex, rows.size(), PsddParameter::CreateFromDecimal(1), flag()), t, last.manager, false, what);
        break;
      }
      case kMultiply:
      case kCondition: {
        if (op == kMultiply && items.size() < 2) c.skip();
        PsddNode *q = op == kCondition ? literal(step % n(), step % 2) : items[items.size() - 2].p;
        Table other = op == kCondition ? table_of(q, l) : items[items.size() - 2].t;
        auto r = m[0]->Multiply(q, last.p, flag());
        double z = exp(r.second.parameter());
        for (unsigned x = 0; x < N(); x++) t[x] = last.t[x] * other[x];
        if (total(t) == 0) {
          MC_CHECK(r.first == nullptr && z == 0, "disjoint", "step %d (%s): constant %g and %s", step, what, z, r.first ? str(r.first).c_str() : "no circuit");
        } else {
          MC_CHECK(z > 0, "constant", "step %d (%s): constant %g", step, what, z);
          for (auto &x : t) x /= z;
        }
        push(r.first, t, 0, false, what);
        break;
      }
      case kReread: {
        if (!last.p) c.skip();
        std::string f = c.scratch() + "/m.psdd";
        psdd_node_util::WritePsddToFile(last.p, f.c_str());
        push(mm->ReadPsddFile(f.c_str(), flag()), last.t, last.manager, false, what);
        break;
      }
      case kMove: {
        if (!last.p) c.skip();
        int to = 1 - last.manager;
        push(m[to]->LoadPsddNode(m[to]->vtree(), last.p, flag()), last.t, to, false, what);
        break;
      }
      case kSample: {
        if (!last.p) c.skip();
        Ramp g;
        push(mm->SampleParameters(&g, last.p, flag()), last.t, last.manager, true, what);
        MC_CHECK(locally_normalised(items.back().p), "normalised", "step %d (%s): %s", step, what, str(items.back().p).c_str());
        break;
      }
      case kCollect: {
        std::vector<Item> keep(items.end() - std::min<size_t>(2, items.size()), items.end());
        for (int k = 0; k < 2; k++) {
          std::vector<PsddNode *> roots;
          for (auto &i : keep)
            if (i.p && i.manager == k) roots.push_back(i.p);
          m[k]->DeleteUnusedPsddNodes(roots);
        }
        items = keep;
        break;
      }
      case kSdd: {
        if (!last.p) c.skip();
        std::unordered_map<SddLiteral, SddLiteral> map;
        std::unordered_map<uint32_t, uint32_t> back;
        for (int k = 0; k < n(); k++) map[l[k]] = k + 1;
        SddManager *sm = sdd_of(v, n());
        SddNode *s = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(last.p), map, sm);
        push(m[0]->ConvertSddToPsdd(s, sdd_manager_vtree(sm), flag()), last.t, 0, true, what);
        break;
      }
      case kPart: {
        if (!last.p || last.p->node_type() != DECISION_NODE_TYPE) c.skip();
        auto d = last.p->psdd_decision_node();
        PsddNode *part = step % 2 ? d->primes().back() : d->subs().front();
        unsigned scope = 0;
        auto vars = leaves(step % 2 ? v->l : v->r);
        for (int x : vars) scope |= 1u << x;
        Table pt = table_of(part, l);
        push(mm->NormalizePsddNode(mm->vtree(), part, flag()), pt, last.manager, true, what);
        const Table &got = items.back().t;
        for (unsigned x = 0; x < N(); x++)
          for (unsigned y = 0; y < x; y++)
            if (((x ^ y) & ~scope) == 0)
              MC_CHECK(close(got[x] * pt[y], got[y] * pt[x], 1e-6), "part", "step %d (%s): weights %g and %g at %x and %x, in the part %g and %g", step, what, got[x], got[y], x, y, pt[x], pt[y]);
        break;
      }
      case kOldest:
        if (items.size() < 2) c.skip();
        std::rotate(items.begin(), items.begin() + 1, items.end());
        break;
    }
  }
};
void compose(Chooser &c, const VTP &v, const Labels &l, int depth, bool flags) {
  std::vector<int> script;
  for (int d = 0; d < depth; d++) {
    script.push_back(c.choose(kOps, "operation"));
    c.describe(kNames[script.back()]);
    if (d && script[d] == kCollect && script[d - 1] == kCollect) c.skip();
  }
  World w{c, v, l, flags, {}, {}};
  w.m[0].reset(make_manager(v, l));
  w.m[1].reset(make_manager(v, l));
  // nodes of the second manager have other indices
  w.m[1]->GetTrueNode(w.m[1]->vtree(), 2);
  w.run(kBuild);
  w.step = 1;
  w.run(kCompileB);
  for (int op : script) {
    w.step++;
    w.run(op);
    for (auto &i : w.items)
      if (i.p) w.verify(i.p, i.t, false, "an earlier model", nullptr);
  }
  for (auto &i : w.items) w.ask(i, true);
  c.state(w.h);
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  VTP right = inode(leaf(0), inode(leaf(1), leaf(2))), left = inode(inode(leaf(2), leaf(0)), leaf(1));
  int d = thorough ? 5 : 4;
  mc::add("two variables", [=](Chooser &c) { compose(c, c.flip("order") ? inode(leaf(1), leaf(0)) : inode(leaf(0), leaf(1)), labels_kind(2, 2), d, c.flip("flags")); });
  mc::add("right", [=](Chooser &c) { compose(c, right, dense(3), d, c.flip("flags")); });
  mc::add("left", [=](Chooser &c) { compose(c, left, labels_kind(3, 3), d, c.flip("flags")); });
  mc::add("four variables", [=](Chooser &c) { compose(c, inode(inode(leaf(0), leaf(2)), inode(leaf(3), leaf(1))), dense(4), d, true); });
}
