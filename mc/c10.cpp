// C10  collection never touches live nodes and releases all others (built with the address sanitizer)
#include <cstddef>
extern "C" {
unsigned long __sanitizer_get_current_allocated_bytes();
int __asan_address_is_poisoned(void const volatile *addr);
}

#include <algorithm>

#include "family.h"
using namespace ref;

namespace {
enum Op { kBuild, kOther, kFree, kFlag, kSdd, kFromSdd, kMultiply, kLearn, kSample, kReread, kLoad, kQuery, kGcAll, kGcLast, kGcFirst, kGcNone, kDrop, kOps };
const char *kNames[] = {"build", "build other", "free", "flagged copy", "convert sdd", "compile sdd", "multiply", "learn", "sample parameters", "write and read", "load", "query",
                        "gc all", "gc last", "gc first", "gc none", "drop oldest"};

class Ramp : public RandomDoubleGenerator {
 public:
  double generate() override { return 0.25 + (k_++ % 7); }

 private:
  int k_ = 0;
};

struct World {
  Chooser &c;
  VTP v;
  Labels l;
  int ctor;
  PsddManager *m = nullptr;
  std::vector<PsddNode *> roots;
  std::set<PsddNode *> known;  // every node seen through any root, possibly collected since
  int serial = 0;

  World(Chooser &c_, const VTP &v_, const Labels &l_, int ctor_) : c(c_), v(v_), l(l_), ctor(ctor_) {
    Vtree *w = to_sdd(v, l);
    if (ctor == 0) {
      m = PsddManager::GetPsddManagerFromVtree(w);
    } else {
      std::unordered_map<uint32_t, uint32_t> map;
      for (int x : l) map[x] = x;
      m = PsddManager::GetPsddManagerFromSddVtree(w, map);
    }
    sdd_vtree_free(w);
  }
  ~World() { delete m; }
  int n() const { return (int)l.size(); }

  void push(PsddNode *x) {
    if (x == nullptr) return;
    roots.push_back(x);
    for (auto y : reachable(x)) known.insert(y);
  }
  Table table(int kind) {
    Table t(size_t(1) << n());
    for (size_t x = 0; x < t.size(); x++) t[x] = kind == 0 ? 1 + x % 3 : kind == 1 ? (x % 3 ? 1 + x % 2 : 0) : (x == 0 || x + 1 == t.size()) ? 2 : x % 2;
    return t;
  }
  PsddNode *from_sdd(bool convert) {
    // one sdd manager per vtree and process: creating one is by far the slowest step under the sanitizer
    static std::map<std::string, std::pair<SddManager *, SddNode *>> sdds;
    auto &e = sdds[ref::str(v)];
    if (e.first == nullptr) {
      Vtree *w = to_sdd(v, dense(n()));
      SddManager *s = sdd_manager_new(w);
      sdd_vtree_free(w);
      sdd_manager_auto_gc_and_minimize_off(s);
      e = {s, sdd_ref(sdd_disjoin(sdd_manager_literal(1, s), sdd_conjoin(sdd_manager_literal(-2, s), sdd_manager_literal(n(), s), s), s), s)};
    }
    SddManager *s = e.first;
    SddNode *f = e.second;
    PsddNode *r = nullptr;
    if (convert) {
      std::unordered_map<uint32_t, uint32_t> map;
      for (int i = 0; i < n(); i++) map[i + 1] = l[i];
      // the circuit's own variables are the sdd's: only possible with the dense numbering
      r = l == dense(n()) ? m->ConvertSddToPsdd(f, sdd_manager_vtree(s), 0) : nullptr;
    } else if (l == dense(n())) {
      r = m->FromSdd(f, sdd_manager_vtree(s), 0, m->vtree());
    }
    return r;
  }
  void gc(const std::vector<PsddNode *> &keep) {
    std::set<PsddNode *> live;
    Snapshot snap;
    std::vector<Table> tables;
    for (auto r : keep) {
      snap.take(r);
      tables.push_back(table_of(r, l));
      for (auto y : reachable(r)) live.insert(y);
    }
    m->DeleteUnusedPsddNodes(keep);
    for (auto y : live) MC_CHECK(!__asan_address_is_poisoned(y), "live-freed", "a node reachable from a kept root was freed");
    snap.check("live-changed", false);
    for (size_t i = 0; i < keep.size(); i++) MC_CHECK(table_of(keep[i], l) == tables[i], "live-changed", "a kept root has another distribution");
    for (auto y : known) {
      c.op();
      if (live.count(y)) continue;
      MC_CHECK(__asan_address_is_poisoned(y), "not-released", "a node that is reachable from no root is still allocated after the collection");
    }
    known = live;
    roots = keep;
    // still canonical: asking for the content of a live node gives that node
    for (auto y : live) {
      PsddNode *z = nullptr;
      if (y->node_type() == LITERAL_NODE_TYPE)
        z = m->GetPsddLiteralNode(y->psdd_literal_node()->literal(), y->flag_index());
      else if (y->node_type() == TOP_NODE_TYPE)
        z = m->GetPsddTopNode(y->psdd_top_node()->variable_index(), y->flag_index(), y->psdd_top_node()->true_parameter(), y->psdd_top_node()->false_parameter());
      else
        z = m->GetConformedPsddDecisionNode(y->psdd_decision_node()->primes(), y->psdd_decision_node()->subs(), y->psdd_decision_node()->parameters(), y->flag_index());
      MC_CHECK(z == y, "not-canonical", "after the collection, asking for the content of a live node gives another node");
      c.op();
    }
  }
  void run(int op, const std::string &scratch) {
    serial++;
    PsddNode *last = roots.empty() ? nullptr : roots.back();
    PsddNode *prev = roots.size() < 2 ? last : roots[roots.size() - 2];
    BuildOptions o;
    switch (op) {
      case kBuild:
        push(build(m, v, l, table(0), o));
        break;
      case kOther:
        o.compressed = false;
        push(build(m, v, l, table(1), o));
        break;
      case kFree:
        push(m->GetTrueNode(m->vtree(), 0));
        break;
      case kFlag:
        o.flag = serial % 2;
        push(build(m, v, l, table(2), o));
        break;
      case kSdd:
        push(from_sdd(true));
        break;
      case kFromSdd:
        push(from_sdd(false));
        break;
      case kMultiply:
        if (last) push(m->Multiply(prev, last, 1).first);
        break;
      case kLearn:
        if (last) {
          const size_t kRows = 5;
          std::unordered_map<int32_t, BatchedPsddValue> ex;
          for (int i = 0; i < n(); i++) {
            BatchedPsddValue b(kRows);
            for (size_t r = 0; r < kRows; r++) b[r] = (r >> i) & 1;
            ex[l[i]] = b;
          }
          push(m->LearnPsddParameters(last, ex, kRows, PsddParameter::CreateFromDecimal(1), 2));
        }
        break;
      case kSample:
        if (last) {
          Ramp g;
          auto r = m->SampleParametersForMultiplePsdds(&g, {last, prev}, 3);
          push(r[0]);
        }
        break;
      case kReread:
        if (last) {
          std::string f = scratch + "/n.psdd";
          psdd_node_util::WritePsddToFile(last, f.c_str());
          push(m->ReadPsddFile(f.c_str(), 4));
        }
        break;
      case kLoad:
        if (last) push(m->LoadPsddNode(m->vtree(), last, 5));
        break;
      case kQuery:
        if (last) {
          auto mask_p = std::make_unique<std::bitset<MAX_VAR>>(), inst = std::make_unique<std::bitset<MAX_VAR>>();
          set_bits(mask_p.get(), l, 1);
          psdd_node_util::Evaluate(*mask_p, *inst, last);
          psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(last));
          psdd_node_util::GetMPESolution(last);
        }
        break;
      case kGcAll:
        gc(roots);
        break;
      case kGcLast:
        gc(last ? std::vector<PsddNode *>{last} : std::vector<PsddNode *>{});
        break;
      case kGcFirst:
        gc(last ? std::vector<PsddNode *>{roots[0], roots[0]} : std::vector<PsddNode *>{});
        break;
      case kGcNone:
        gc({});
        break;
      case kDrop:
        if (!roots.empty()) roots.erase(roots.begin());
        break;
    }
  }
};
// live bytes, after the history has been run to the end and everything was destroyed
void history(Chooser &c, const VTP &v, const Labels &l, int depth, bool few = false) {
  static const std::vector<int> kFew = {kBuild, kFree, kMultiply, kSample, kGcLast, kGcFirst};
  int ctor = few ? 0 : c.choose(2, "constructor");
  std::vector<int> script;
  std::string text;
  for (int i = 0; i < depth; i++) {
    int op = few ? c.pick(kFew, "op") : c.choose(kOps, "op");
    if (i == 0 && op >= kMultiply) c.skip();  // nothing to work on yet
    if (i > 0 && op == kDrop && script.back() == kDrop && i < 3) c.skip();
    script.push_back(op);
    text += std::string(kNames[op]) + "; ";
  }
  int end = few ? kGcLast + c.choose(2, "end") : kGcAll + c.choose(4, "end");
  script.push_back(end);
  c.describe(str(v) + " " + text + kNames[end]);
  uint64_t h = 0;
  {
    {
      World w(c, v, l, ctor);
      for (int op : script) w.run(op, c.scratch());
      // everything still works on what was kept
      std::vector<PsddNode *> keep = w.roots;
      for (auto r : keep) {
        std::vector<int> use = {kQuery, kMultiply, kLearn, kSample, kReread};
        w.roots = {r};
        Snapshot s;
        s.take(r);
        for (int op : use) {
          w.roots.push_back(r);
          w.run(op, c.scratch());
        }
        s.check("live-changed", false);
        for (auto x : w.roots) h = mc::mix(h, fingerprint(x));
      }
      w.roots = keep;
    }
  }
  c.state(h);
}
// memory held by destroyed managers: the same history twice must not leave more behind the second time
void leak(Chooser &c, const VTP &v, const Labels &l, int depth) {
  int ctor = c.choose(2, "constructor");
  std::vector<int> script;
  for (int i = 0; i < depth; i++) {
    int op = c.choose(kOps, "op");
    if (i == 0 && op >= kMultiply) c.skip();
    script.push_back(op);
    c.describe(kNames[op]);
  }
  size_t after[4] = {0, 0, 0, 0};
  for (int run = 0; run < 4; run++) {
    {
      World w(c, v, l, ctor);
      for (int op : script) w.run(op, c.scratch());
    }
    after[run] = __sanitizer_get_current_allocated_bytes();
  }
  c.op();
  MC_CHECK(after[3] <= after[1], "leak", "destroying the manager leaves memory behind: %zu live bytes after the second run, %zu after the fourth", after[1], after[3]);
  c.state(mc::mix(script.size(), script.back()));
}
// the same work and a collection, again and again on one manager: memory levels off
void rounds(Chooser &c, const VTP &v, const Labels &l, int len) {
  std::vector<int> script;
  for (int i = 0; i < len; i++) {
    int op = c.choose(kGcAll, "op");
    if (i == 0 && op >= kMultiply) c.skip();
    script.push_back(op);
    c.describe(kNames[op]);
  }
  int keep = c.choose(2, "keep");
  c.describe(keep ? "gc keeping the first round's result" : "gc none");
  World w(c, v, l, 0);
  PsddNode *first = nullptr;
  std::vector<size_t> level;
  for (int r = 0; r < 8; r++) {
    w.roots.clear();
    w.serial = 0;
    for (int op : script) w.run(op, c.scratch());
    if (keep && first == nullptr && !w.roots.empty()) first = w.roots.back();
    w.gc(first ? std::vector<PsddNode *>{first} : std::vector<PsddNode *>{});
    w.known.clear();
    w.roots.clear();
    level.push_back(__sanitizer_get_current_allocated_bytes() - level.capacity() * sizeof(size_t));
  }
  c.op();
  // a level may wobble (hash tables of the caller), but six more rounds of real garbage would show
  MC_CHECK(level[7] <= level[2] + 128, "grows", "live bytes after each of eight identical rounds: %zu %zu %zu %zu %zu %zu %zu %zu", level[0], level[1], level[2], level[3], level[4],
           level[5], level[6], level[7]);
  c.state(mc::mix(keep, script.back()));
}
// tens of thousands of nodes: a chain, what is made from it, and thousands of nodes at one place of the vtree
void giant(Chooser &c) {
  Chain ch = choose_giant(c, c.thorough() ? 20000 : 5000);
  PsddManager *m = ch.manager.get();
  int kind = c.choose(3, "keep");
  std::vector<PsddNode *> made;
  made.push_back(m->GetTrueNode(m->vtree(), 3));
  made.push_back(m->LoadPsddNode(m->vtree(), ch.node, 1));
  made.push_back(m->Multiply(ch.node, made[1], 2).first);
  auto P = [](double x) { return PsddParameter::CreateFromDecimal(x); };
  std::vector<PsddNode *> small;
  for (int i = 0; i < (c.thorough() ? 70000 : 20000); i++) small.push_back(i % 2 ? (PsddNode *)m->GetPsddLiteralNode(ch.labels[0], 10 + i) : (PsddNode *)m->GetPsddTopNode(ch.labels[0], 10 + i, P(0.25), P(0.75)));
  std::vector<PsddNode *> keep;
  if (kind == 0) keep = {made[1]};
  if (kind == 1) keep = {ch.node, made[2], made[2]};
  if (kind == 2)
    for (size_t i = 0; i < small.size(); i += 3) keep.push_back(small[i]);
  std::set<PsddNode *> live, known(small.begin(), small.end());
  Snapshot snap;
  for (auto r : keep)
    for (auto y : reachable(r)) live.insert(y);
  if (kind == 2)
    for (auto r : keep) MC_CHECK(r->flag_index() >= 10, "content", "flag");
  else
    for (auto r : keep) snap.take(r);
  made.push_back(ch.node);
  for (auto r : made)
    for (auto y : reachable(r)) known.insert(y);
  m->DeleteUnusedPsddNodes(keep);
  for (auto y : known) {
    c.op();
    if (live.count(y))
      MC_CHECK(!__asan_address_is_poisoned(y), "live-freed", "a node reachable from a kept root was freed");
    else
      MC_CHECK(__asan_address_is_poisoned(y), "not-released", "a node that is reachable from no root is still allocated after the collection");
  }
  snap.check("live-changed", false);
  if (kind == 2) {
    for (size_t i = 0; i < small.size(); i++) {
      PsddNode *z = i % 2 ? (PsddNode *)m->GetPsddLiteralNode(ch.labels[0], 10 + i) : (PsddNode *)m->GetPsddTopNode(ch.labels[0], 10 + i, P(0.25), P(0.75));
      MC_CHECK(z->flag_index() == 10 + i && (i % 3 || z == small[i]), "not-canonical", "after the collection, asking for the content of a live node gives another node");
    }
  } else {
    PsddNode *again = m->LoadPsddNode(m->vtree(), keep[0], keep[0]->flag_index());
    MC_CHECK(again == keep[0], "not-canonical", "after the collection, loading a kept root gives another node");
  }
  c.state(mc::mix(live.size(), known.size()));
}
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  PsddManager *m = h.manager.get();
  int kind = c.choose(4, "keep");
  PsddNode *other = m->GetTrueNode(m->vtree(), 0), *lone = m->GetPsddLiteralNode(h.labels[2], 0);
  PsddNode *part = h.node->psdd_decision_node()->subs().back();
  std::vector<PsddNode *> keep;
  if (kind == 0) keep = {h.node};
  if (kind == 1) keep = {part, other};
  if (kind == 2) keep = {lone, h.node->psdd_decision_node()->primes().back()};
  std::set<PsddNode *> live, known;
  Snapshot snap;
  for (auto r : keep) {
    snap.take(r);
    for (auto y : reachable(r)) live.insert(y);
  }
  for (auto r : {h.node, other, lone})
    for (auto y : reachable(r)) known.insert(y);
  m->DeleteUnusedPsddNodes(keep);
  for (auto y : known) {
    c.op();
    if (live.count(y))
      MC_CHECK(!__asan_address_is_poisoned(y), "live-freed", "a node reachable from a kept root was freed");
    else
      MC_CHECK(__asan_address_is_poisoned(y), "not-released", "a node that is reachable from no root is still allocated after the collection");
  }
  snap.check("live-changed", false);
  for (auto r : keep) MC_CHECK(m->LoadPsddNode(m->vtree(), r, 0) != nullptr || r->vtree_node() != m->vtree(), "not-canonical", "loading a kept root fails");
  if (kind == 0) MC_CHECK(m->LoadPsddNode(m->vtree(), h.node, 0) == h.node, "not-canonical", "after the collection, loading a kept root gives another node");
  c.state(mc::mix(live.size(), known.size()));
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  int depth = thorough ? 4 : 3;
  mc::add("histories", [=](Chooser &c) { history(c, choose_shape(c, {0, 1, 2}), dense(3), depth); });
  mc::add("histories, upper variables", [=](Chooser &c) { history(c, choose_shape(c, {2, 0, 1}), labels_kind(3, 3), depth - 1); });
  mc::add("histories, four variables", [=](Chooser &c) { history(c, balanced(4), dense(4), depth - 1); });
  mc::add("longer histories", [=](Chooser &c) { history(c, choose_shape(c, {0, 1, 2}), dense(3), thorough ? 6 : 4, true); });
  mc::add("leaks", [=](Chooser &c) { leak(c, choose_shape(c, {1, 0, 2}), dense(3), depth); });
  mc::add("rounds", [=](Chooser &c) { rounds(c, choose_shape(c, {0, 1, 2}), dense(3), depth); });
  mc::add("giant", giant);
  add("huge", huge);
}
