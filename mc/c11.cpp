// C11  queries do not disturb the model or each other
#include <algorithm>

#include "family.h"
#include "sddx.h"
using namespace ref;

namespace {
struct World {
  VTP v;
  Labels l;
  ManagerPtr m;
  std::vector<PsddNode *> a;  // circuits that share nodes
  int n() const { return (int)l.size(); }
};
Table pattern(int n, int k) {
  Table t(size_t(1) << n);
  for (size_t x = 0; x < t.size(); x++) {
    switch (k) {
      case 0: t[x] = 1 + x % 3; break;
      case 1: t[x] = (x * 5 + 1) % 3 ? 1 + x % 4 : 0; break;
      case 2: t[x] = x == 2 ? 1 : 0; break;
      case 3: t[x] = (x & 1) == ((x >> (n - 1)) & 1) ? 2 + x % 2 : 0; break;
      case 4: t[x] = 1; break;
      default: t[x] = x % 2 ? 1 + x : 1e-9; break;
    }
  }
  return t;
}
const int kPatterns = 6;
class Ramp : public RandomDoubleGenerator {
 public:
  double generate() override { return 0.25 + (k_++ % 7); }

 private:
  int k_ = 0;
};

const char *kOps[] = {"evaluate", "evaluate evidence", "evaluate serialised", "marginals", "mpe", "mpe serialised", "count", "consistent evidence", "consistent model", "consistent map",
                      "consistent bits", "size", "export", "to sdd", "sample", "sample parameters", "learn", "learn smoothed", "multiply self", "multiply other", "load", "covered", "reread", "mark"};
const int kOpCount = sizeof kOps / sizeof *kOps;

std::string num(double x) {
  char b[40];
  snprintf(b, sizeof b, "%.7g ", x);
  return b;
}
std::string bits_of(const World &w, const std::bitset<MAX_VAR> &b) {
  std::string s;
  for (int x : w.l) s += b[x] ? '1' : '0';
  s += "/" + std::to_string(b.count());
  return s;
}
// the answer of one operation on circuit k; circuits made by it are described, not kept
std::string answer(Chooser &c, World &w, int op, int k) {
  static std::bitset<MAX_VAR> mask, inst;
  PsddNode *p = w.a[k];
  auto set = [&](unsigned m, unsigned b) {
    mask.reset();
    inst.reset();
    set_bits(&mask, w.l, m);
    set_bits(&inst, w.l, b);
  };
  unsigned full = (1u << w.n()) - 1;
  std::string r;
  switch (op) {
    case 0:
      for (unsigned b = 0; b <= full; b++) {
        set(full, b);
        r += num(psdd_node_util::Evaluate(mask, inst, p).parameter());
      }
      break;
    case 1:
      set(5 & full, 4 & full);
      r = num(psdd_node_util::Evaluate(mask, inst, p).parameter());
      set(2, 0);
      r += num(psdd_node_util::Evaluate(mask, inst, p).parameter());
      set(0, 0);
      r += num(psdd_node_util::Evaluate(mask, inst, p).parameter());
      break;
    case 2:
      set(3, 1);
      r = num(psdd_node_util::Evaluate(mask, inst, psdd_node_util::SerializePsddNodes(p)).parameter());
      break;
    case 3: {
      auto g = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(p));
      std::map<uint32_t, std::pair<double, double>> o;
      for (auto &e : g) o[e.first] = {e.second.first.parameter(), e.second.second.parameter()};
      for (auto &e : o) r += std::to_string(e.first) + ":" + num(e.second.first) + num(e.second.second);
      break;
    }
    case 4:
    case 5: {
      auto s = op == 4 ? psdd_node_util::GetMPESolution(p) : psdd_node_util::GetMPESolution(psdd_node_util::SerializePsddNodes(p));
      r = bits_of(w, s.first) + " " + num(s.second.parameter());
      break;
    }
    case 6:
      r = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(p)).get_str();
      break;
    case 7:
      for (unsigned b = 0; b < 4; b++) {
        set(3, b);
        r += psdd_node_util::IsConsistent(p, mask, inst) ? '1' : '0';
      }
      break;
    case 8:
      for (unsigned b = 0; b <= full; b++) {
        set(full, b);
        r += psdd_node_util::IsConsistent(psdd_node_util::SerializePsddNodes(p), mask, inst) ? '1' : '0';
      }
      break;
    case 9:
      for (unsigned b = 0; b < 4; b++) {
        std::unordered_map<uint32_t, bool> e{{(uint32_t)w.l[0], (b & 1) != 0}, {(uint32_t)w.l[w.n() - 1], (b & 2) != 0}};
        r += p->IsConsistent(e) ? '1' : '0';
      }
      break;
    case 10:
      if (w.l == dense(w.n()))
        for (unsigned b = 0; b <= full; b++) {
          set(full, b);
          r += p->IsConsistent(inst, w.n()) ? '1' : '0';
        }
      break;
    case 11:
      r = std::to_string(psdd_node_util::GetPsddSize(p));
      break;
    case 12: {
      std::string f = c.scratch() + "/q.psdd";
      psdd_node_util::WritePsddToFile(p, f.c_str());
      ManagerPtr reader(make_manager(w.v, w.l));
      r = str(reader->ReadPsddFile(f.c_str(), 0));
      break;
    }
    case 13: {
      std::unordered_map<SddLiteral, SddLiteral> map;
      for (int i = 0; i < w.n(); i++) map[w.l[i]] = i + 1;
      SddNode *s = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(p), map, sdd_of(w.v, w.n()));
      for (unsigned b = 0; b <= full; b++) r += sdd_true(s, b) ? '1' : '0';
      break;
    }
    case 14: {
      RandomDoubleFromUniformGenerator g(0, 1, 5);
      for (int i = 0; i < 4; i++) {
        inst.reset();
        p->DirectSample(&inst, &g);
        r += bits_of(w, inst) + " ";
      }
      break;
    }
    case 15: {
      Ramp g;
      auto s = w.m->SampleParametersForMultiplePsdds(&g, {p, w.a[1 - k]}, 11);
      r = str(s[0]) + " " + str(s[1]);
      break;
    }
    case 16:
    case 17: {
      const size_t rows = op == 16 ? 3 : 6;
      std::unordered_map<int32_t, BatchedPsddValue> ex;
      for (int i = 0; i < w.n(); i++) {
        BatchedPsddValue b(rows);
        for (size_t x = 0; x < rows; x++) b[x] = ((x * 3 + 1) >> i) & 1;
        ex[w.l[i]] = b;
      }
      r = str(w.m->LearnPsddParameters(p, ex, rows, PsddParameter::CreateFromDecimal(op == 16 ? 0 : 1), 12));
      break;
    }
    case 18:
    case 19: {
      auto s = w.m->Multiply(p, op == 18 ? p : w.a[1 - k], 13);
      r = (s.first ? str(s.first) : "false") + " " + num(s.second.parameter());
      break;
    }
    case 20:
      r = str(w.m->LoadPsddNode(w.m->vtree(), p, 14));
      break;
    case 21:
      r = std::to_string(psdd_node_util::GetCoveredPsddNodes({p, w.a[1 - k]}).size()) + " " + std::to_string(psdd_node_util::SerializePsddNodes({p, w.a[1 - k]}).size());
      break;
    case 22: {
      std::string f = c.scratch() + "/r.psdd";
      psdd_node_util::WritePsddToFile(p, f.c_str());
      r = str(w.m->ReadPsddFile(f.c_str(), 15));
      break;
    }
    case 23:
      for (unsigned b = 0; b <= full; b++) {
        set(full, b);
        auto ser = psdd_node_util::SerializePsddNodes(p);
        psdd_node_util::SetActivationFlag(inst, ser);
        for (auto q : ser) r += q->activation_flag() ? '1' : '0';
      }
      break;
  }
  return r;
}
World make(const VTP &v, const Labels &l, int pa, int pb, int rel) {
  World w;
  w.v = v;
  w.l = l;
  w.m.reset(make_manager(v, l));
  BuildOptions o;
  w.a.push_back(build(w.m.get(), v, l, pattern(w.n(), pa), o));
  if (rel == 0)
    w.a.push_back(build(w.m.get(), v, l, pattern(w.n(), pb), o));
  else if (rel == 1) {
    w.a.push_back(w.m->Multiply(w.a[0], w.m->GetTrueNode(w.m->vtree(), 0), 0).first);
  } else {
    // a part of the first circuit lifted to the root
    PsddNode *part = w.a[0];
    for (int d = 0; d < rel - 1 && part->node_type() == DECISION_NODE_TYPE; d++) {
      auto dn = part->psdd_decision_node();
      PsddNode *s = dn->subs()[0], *q = dn->primes()[0];
      part = s->node_type() == DECISION_NODE_TYPE ? s : q->node_type() == DECISION_NODE_TYPE ? q : s;
    }
    w.a.push_back(w.m->NormalizePsddNode(w.m->vtree(), part, 0));
  }
  return w;
}
void sequences(Chooser &c, const VTP &v, const Labels &l, int depth, bool few) {
  int pa = c.choose(few ? 2 : kPatterns, "first"), rel = c.choose(4, "second"), pb = rel == 0 ? c.choose(few ? 2 : kPatterns, "pattern") : 0;
  if (few) pa = pa ? 3 : 1;
  std::vector<std::pair<int, int>> script;
  for (int d = 0; d < depth; d++) {
    int op = c.choose(kOpCount, "op"), k = c.choose(2, "on");
    script.push_back({op, k});
    c.describe(std::string(kOps[op]) + " on " + (k ? "second" : "first"));
  }
  World w = make(v, l, pa, pb, rel);
  if (c.describing()) c.describe(str(v) + " " + str(w.a[0]) + " and " + str(w.a[1]));
  Snapshot snap;
  snap.take(w.a[0]);
  snap.take(w.a[1]);
  uint64_t h = 3;
  for (size_t i = 0; i < script.size(); i++) {
    auto got = answer(c, w, script[i].first, script[i].second);
    snap.check("model-changed", false);
    // the answer on an untouched copy
    static std::map<std::vector<int>, std::string> fresh;
    static std::string fresh_of;
    std::string key = ref::str(v) + ref::str(l);
    if (key != fresh_of) {
      fresh.clear();
      fresh_of = key;
    }
    std::vector<int> fk{pa, pb, rel, script[i].first, script[i].second};
    auto it = fresh.find(fk);
    if (it == fresh.end()) {
      World f = make(v, l, pa, pb, rel);
      it = fresh.emplace(fk, answer(c, f, script[i].first, script[i].second)).first;
    }
    c.op();
    MC_CHECK(got == it->second, "answer-changed", "operation %zu (%s): %s, but %s when it is the first operation", i + 1, kOps[script[i].first], got.c_str(), it->second.c_str());
    h = mc::mix(h, mc::hash_str(got));
  }
  c.state(h);
}
// Single questions about two circuits, with answers from the tables.  The circuits are in one manager or in
// two, and a circuit can be replaced by another one in a new manager on the way.
struct Circuit {
  VTP v;
  ManagerPtr m;
  PsddNode *p = nullptr;
  Table t;
};
// question 0..3^n-1 evidence probability, ..2*3^n-1 consistency, then the others
constexpr int kOther = 7;
void ask(Chooser &c, Circuit &q, const Labels &l, int question, int step) {
  static std::bitset<MAX_VAR> mask, inst;
  int n = (int)l.size(), N = 1 << n, P = n == 2 ? 9 : 27;
  c.op();
  if (question < 2 * P) {
    unsigned m = 0, b = 0;
    for (int i = 0, r = question % P; i < n; i++, r /= 3) {
      if (r % 3) m |= 1u << i;
      if (r % 3 == 2) b |= 1u << i;
    }
    mask.reset();
    inst.reset();
    set_bits(&mask, l, m);
    set_bits(&inst, l, b);
    double want = 0;
    for (unsigned x = 0; x < (unsigned)N; x++)
      if ((x & m) == b) want += q.t[x];
    if (question < P) {
      double got = exp(psdd_node_util::Evaluate(mask, inst, q.p).parameter());
      MC_CHECK(close(got, want), "evidence", "question %d: probability of %x of %x is %.9g instead of %.9g", step, b, m, got, want);
    } else {
      bool got = psdd_node_util::IsConsistent(q.p, mask, inst);
      MC_CHECK(got == (want > 0), "consistent", "question %d: %x of %x is called %s", step, b, m, got ? "consistent" : "inconsistent");
    }
    return;
  }
  int models = 0;
  double best = 0;
  for (double x : q.t) models += x > 0, best = std::max(best, x);
  auto ser = psdd_node_util::SerializePsddNodes(q.p);
  switch (question - 2 * P) {
    case 0: {
      auto got = psdd_node_util::ModelCount(ser);
      MC_CHECK(got == models, "count", "question %d: model count %s instead of %d", step, got.get_str().c_str(), models);
      break;
    }
    case 1: {
      auto s = psdd_node_util::GetMPESolution(q.p);
      unsigned x = 0;
      for (int i = 0; i < n; i++) x |= (unsigned)s.first[l[i]] << i;
      MC_CHECK(close(exp(s.second.parameter()), best) && close(q.t[x], best) && (int)s.first.count() == __builtin_popcount(x), "mpe", "question %d: %x with %.9g, the largest probability is %.9g", step, x, exp(s.second.parameter()), best);
      break;
    }
    case 2: {
      auto g = psdd_node_util::GetMarginals(ser);
      MC_CHECK((int)g.size() == n, "marginals", "question %d: %zu variables", step, g.size());
      for (int i = 0; i < n; i++) {
        double t = 0;
        for (int x = 0; x < N; x++)
          if (x >> i & 1) t += q.t[x];
        auto e = g[(uint32_t)l[i]];
        MC_CHECK(close(exp(e.second.parameter()), t) && close(exp(e.first.parameter()), 1 - t, 1e-6, 1e-9), "marginals", "question %d: variable %d: %.9g instead of %.9g", step, i, exp(e.second.parameter()), t);
      }
      break;
    }
    case 3: {
      static std::bitset<MAX_VAR> bits;
      RandomDoubleFromUniformGenerator g(0, 1, 5);
      bits.reset();
      q.p->DirectSample(&bits, &g);
      unsigned x = 0;
      for (int i = 0; i < n; i++) x |= (unsigned)bits[l[i]] << i;
      MC_CHECK(q.t[x] > 0 && (int)bits.count() == __builtin_popcount(x), "sample", "question %d: sampled %x", step, x);
      break;
    }
    case 4: {
      auto r = q.m->Multiply(q.p, q.p, 3);
      double z = 0;
      for (double x : q.t) z += x * x;
      MC_CHECK(r.first && close(exp(r.second.parameter()), z), "multiply", "question %d: constant %.9g instead of %.9g", step, exp(r.second.parameter()), z);
      break;
    }
    case 5: {
      std::unordered_map<SddLiteral, SddLiteral> map;
      for (int i = 0; i < n; i++) map[l[i]] = i + 1;
      SddNode *s = psdd_node_util::ConvertPsddNodeToSddNode(ser, map, sdd_of(q.v, n));
      for (int x = 0; x < N; x++) MC_CHECK(sdd_true(s, (unsigned)x) == (q.t[x] > 0), "sdd", "question %d: assignment %x", step, x);
      break;
    }
    case 6: {
      std::unordered_map<int32_t, BatchedPsddValue> ex;
      for (int i = 0; i < n; i++) ex[l[i]] = BatchedPsddValue(1, false);
      for (int x = 0; x < N; x++)
        if (q.t[x] > 0) {
          for (int i = 0; i < n; i++) ex[l[i]][0] = x >> i & 1;
          break;
        }
      PsddNode *r = q.m->LearnPsddParameters(q.p, ex, 1, PsddParameter::CreateFromDecimal(0.5), 4);
      MC_CHECK(r != nullptr, "learn", "question %d: nothing learned", step);
      break;
    }
  }
}
void place(Circuit *q, const VTP &v, const Labels &l, const ManagerPtr &m, int pattern_k) {
  BuildOptions o;

  q->v = v;
  q->m = m;
  q->t = normalized(pattern((int)l.size(), pattern_k));
  q->p = build(m.get(), v, l, q->t, o);
}
void interleaved(Chooser &c, int n, int depth) {
  static const int pats[] = {1, 2, 3, 0};
  Labels l = labels_kind(n == 2 ? 0 : 2, n);
  VTP v1 = n == 2 ? inode(leaf(0), leaf(1)) : inode(leaf(0), inode(leaf(1), leaf(2)));
  VTP v2 = n == 2 ? inode(leaf(1), leaf(0)) : inode(inode(leaf(2), leaf(0)), leaf(1));
  bool many = c.thorough() && (n == 2 || depth == 2), one = n == 3 && depth == 3;
  int pa = pats[one ? 0 : c.choose(many ? 4 : 3, "first")], pb = pats[one ? 1 : many ? c.choose(4, "second") : 1 + c.choose(2, "second")];
  int where = c.choose(3, "where");  // one manager, two alike, two with different vtrees
  int P = n == 2 ? 9 : 27, Q = 2 * P + kOther;
  std::vector<int> script;
  for (int i = 0; i < depth; i++) {
    // the two circuits, and a replacement of the first one which is only sensible between questions
    int k = c.choose(i > 0 && i + 1 < depth ? 2 * Q + 1 : 2 * Q, "question");
    script.push_back(k);
  }
  Circuit q[2];
  place(&q[0], v1, l, ManagerPtr(make_manager(v1, l)), pa);
  place(&q[1], where == 2 ? v2 : v1, l, where ? ManagerPtr(make_manager(where == 2 ? v2 : v1, l)) : q[0].m, pb);
  if (c.describing()) {
    c.describe("first " + str(q[0].p) + " second " + str(q[1].p) + (where ? " in two managers" : " in one manager"));
    for (int k : script) {
      if (k == 2 * Q)
        c.describe("first circuit replaced");
      else
        c.describef("%s circuit: question %d", k % 2 ? "second" : "first", k / 2);
    }
  }
  uint64_t h = 5;
  for (int i = 0; i < depth; i++) {
    int k = script[i];
    h = mc::mix(h, (uint64_t)k);
    if (k == 2 * Q) {
      if (!where) q[0].m.reset();
      q[0] = Circuit();
      place(&q[0], v2, l, ManagerPtr(make_manager(v2, l)), pb);
    } else
      ask(c, q[k % 2], l, k / 2, i + 1);
  }
  c.state(h);
}
// the same on circuits of hundreds of thousands of nodes: any two queries in a row
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  static std::bitset<MAX_VAR> mask, inst;
  auto ser = psdd_node_util::SerializePsddNodes(h.node);
  auto ask = [&](int q) -> std::string {
    set_bits(&mask, h.labels, 0x15);
    set_bits(&inst, h.labels, 0x11);
    switch (q) {
      case 0: return num(psdd_node_util::Evaluate(mask, inst, ser).parameter());
      case 1: {
        auto g = psdd_node_util::GetMarginals(ser);
        std::string r;
        for (int l : h.labels) r += num(g[(uint32_t)l].first.parameter()) + num(g[(uint32_t)l].second.parameter());
        return r;
      }
      case 2: {
        auto s = psdd_node_util::GetMPESolution(ser);
        std::string r = num(s.second.parameter());
        for (int l : h.labels) r += s.first[l] ? '1' : '0';
        return r;
      }
      case 3: return psdd_node_util::ModelCount(ser).get_str();
      case 4: return psdd_node_util::IsConsistent(ser, mask, inst) ? "yes" : "no";
      default: return num(psdd_node_util::Evaluate(mask, inst, h.node).parameter());
    }
  };
  int first = c.choose(6, "first");
  std::string want = ask(first);
  Snapshot snap;
  snap.take(h.node);
  for (int second = 0; second < 6; second++) {
    ask(second);
    c.op();
    std::string got = ask(first);
    MC_CHECK(got == want, "huge", "query %d gives %s after query %d, %s before", first, got.c_str(), second, want.c_str());
  }
  snap.check("huge", false);
  c.state(mc::mix((uint64_t)h.kind, (uint64_t)first));
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  mc::add("pairs", [=](Chooser &c) { sequences(c, thorough ? choose_vtree(c, 3) : choose_shape(c, {0, 1, 2}), dense(3), 2, false); });
  mc::add("triples", [=](Chooser &c) { sequences(c, thorough ? choose_shape(c, {0, 1, 2}) : inode(leaf(0), inode(leaf(1), leaf(2))), dense(3), 3, true); });
  mc::add("two variables", [=](Chooser &c) { sequences(c, choose_vtree(c, 2), dense(2), thorough ? 3 : 2, false); });
  mc::add("upper variables", [=](Chooser &c) { sequences(c, choose_shape(c, {1, 0, 2}), labels_kind(3, 3), 2, false); });
  mc::add("four variables", [=](Chooser &c) { sequences(c, choose_shape(c, {0, 1, 2, 3}), dense(4), 2, !thorough); });
  mc::add("interleaved2", [=](Chooser &c) { interleaved(c, 2, 3); });
  mc::add("interleaved3", [=](Chooser &c) { interleaved(c, 3, 2); });
  if (thorough) mc::add("interleaved3 deep", [=](Chooser &c) { interleaved(c, 3, 3); });
  if (thorough) mc::add("quadruples", [](Chooser &c) { sequences(c, inode(leaf(0), inode(leaf(1), leaf(2))), dense(3), 4, true); });
  add("huge", huge);
}
