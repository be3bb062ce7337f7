// C01  SDD to PSDD conversion
#include <algorithm>

#include "family.h"
#include "sddx.h"
using namespace ref;

namespace {
struct Case {
  VTP sv;                 // vtree over the sdd's variables 0..n-1
  int n = 0;
  uint64_t mask = 0;      // the function
  Labels l;               // l[i]: the psdd's name of sdd variable i+1
};
bool same_data(const std::vector<std::pair<Vtree *, void *>> &d) {
  for (auto &e : d)
    if (sdd_vtree_data(e.first) != e.second) return false;
  return true;
}
std::vector<std::pair<Vtree *, void *>> data_of(Vtree *v) {
  std::vector<std::pair<Vtree *, void *>> r;
  std::function<void(Vtree *)> rec = [&](Vtree *w) {
    r.push_back({w, sdd_vtree_data(w)});
    if (!sdd_vtree_is_leaf(w)) {
      rec(sdd_vtree_left(w));
      rec(sdd_vtree_right(w));
    }
  };
  rec(v);
  return r;
}
std::string shape(Vtree *v) {
  std::string p = "@" + std::to_string(sdd_vtree_position(v));
  if (sdd_vtree_is_leaf(v)) return std::to_string(sdd_vtree_var(v)) + p;
  return "(" + shape(sdd_vtree_left(v)) + " " + shape(sdd_vtree_right(v)) + ")" + p;
}
// the converted circuit has exactly the models of the function
void check_function(Chooser &c, PsddNode *r, const Case &k, Vtree *at, uintmax_t flag, SddManager *sm, SddNode *f) {
  unsigned N = 1u << k.n;
  uint64_t full = N == 64 ? ~0ull : (1ull << N) - 1;
  if ((k.mask & full) == 0) {
    MC_CHECK(r == nullptr, "false", "the false function gives %s", r ? str(r).c_str() : "");
    c.op();
    c.state(7);
    return;
  }
  MC_CHECK(r != nullptr, "missing", "no circuit for a satisfiable function");
  check_wellformed(r, at, (long)flag, "converted");
  check_deterministic(r, k.l, "converted");
  int count = 0;
  for (unsigned x = 0; x < N; x++) {
    bool want = (k.mask >> x) & 1;
    count += want;
    MC_CHECK(models(r, {&k.l, x}) == want, "models", "assignment %x is %s of %s", x, want ? "no model" : "a model", str(r).c_str());
  }
  auto ser = psdd_node_util::SerializePsddNodes(r);
  MC_CHECK(psdd_node_util::ModelCount(ser) == count, "count", "model count %s instead of %d", psdd_node_util::ModelCount(ser).get_str().c_str(), count);
  static std::bitset<MAX_VAR> mask, inst;
  for (unsigned m = 0; m < N; m++)
    for (unsigned b = m;; b = (b - 1) & m) {
      bool want = false;
      for (unsigned x = 0; x < N && !want; x++) want = (x & m) == b && ((k.mask >> x) & 1);
      std::unordered_map<uint32_t, bool> e;
      mask.reset();
      inst.reset();
      for (int i = 0; i < k.n; i++)
        if (m >> i & 1) {
          e[(uint32_t)k.l[i]] = (b >> i) & 1;
          mask.set(k.l[i]);
          if (b >> i & 1) inst.set(k.l[i]);
        }
      MC_CHECK(r->IsConsistent(e) == want, "consistent", "partial assignment %x of %x: %s", b, m, want ? "called inconsistent" : "called consistent");
      MC_CHECK(psdd_node_util::IsConsistent(r, mask, inst) == want, "consistent-mask", "partial assignment %x of %x: %s", b, m, want ? "called inconsistent" : "called consistent");
      c.op(2);
      if (b == 0) break;
    }
  if (sm) {
    std::unordered_map<SddLiteral, SddLiteral> map;
    for (int i = 0; i < k.n; i++) map[k.l[i]] = i + 1;
    SddNode *back = psdd_node_util::ConvertPsddNodeToSddNode(ser, map, sm);
    for (unsigned x = 0; x < N; x++) MC_CHECK(sdd_true(back, x) == (((k.mask >> x) & 1) != 0), "back", "converted back, assignment %x is %s", x, (k.mask >> x) & 1 ? "no model" : "a model");
    MC_CHECK(back == f, "back", "converted back to the same manager gives another node for the same function");
    c.op(N + 1);
  }
  c.state(fingerprint(r));
}
// way: 0 manager made from the sdd's vtree, 1..3 the sdd's vtree is the whole / left / right part of the manager's,
// 4..6 the same, found through the variables
void convert(Chooser &c, const Case &k, int way, bool busy) {
  SddManager *sm = sdd_of(k.sv, k.n);
  Vtree *st = sdd_manager_vtree(sm);
  std::vector<int> vars;
  for (int i = 0; i < k.n; i++) vars.push_back(i);
  SddNode *f = sdd_from_table(sm, vars, k.mask);
  std::string before = shape(st);
  auto data = data_of(st);
  uintmax_t flag = busy ? 4 : 0;
  Labels all = k.l;
  VTP root = k.sv;
  int place = way == 0 ? 0 : (way - 1) % 3;
  if (place) {
    all.push_back(all[0] == 65535 || all[0] == 7 ? 11 : 900);
    root = place == 1 ? inode(k.sv, leaf(k.n)) : inode(leaf(k.n), k.sv);
  }
  ManagerPtr m;
  if (way == 0) {
    std::unordered_map<uint32_t, uint32_t> map;
    for (int i = 0; i < k.n; i++) map[i + 1] = k.l[i];
    m.reset(PsddManager::GetPsddManagerFromSddVtree(st, map));
    MC_CHECK(same_shape(m->vtree(), k.sv, k.l), "manager-vtree", "the manager's vtree is %s", str(m->vtree()).c_str());
    MC_CHECK(shape(st) == before && same_data(data), "vtree-changed", "making a manager from an sdd vtree changes it");
  } else {
    m.reset(make_manager(root, all));
  }
  Vtree *at = locate(m->vtree(), root, k.sv);
  std::string pbefore = shape(m->vtree());
  auto pdata = data_of(m->vtree());
  Snapshot snap;
  std::vector<PsddNode *> old;
  if (busy) {
    // nodes with the same flag and with another flag, some of which the conversion needs
    BuildOptions o;
    for (int fl = 0; fl < 2; fl++) {
      o.flag = fl ? flag : flag + 1;
      Table t(size_t(1) << all.size());
      for (size_t x = 0; x < t.size(); x++) t[x] = fl ? 1 + x % 3 : x % 2;
      old.push_back(build(m.get(), root, all, t, o));
    }
    old.push_back(m->GetTrueNode(m->vtree(), flag));
    for (auto x : old) snap.take(x);
  }
  auto run = [&]() {
    if (way == 0 || way == 1) return m->ConvertSddToPsdd(f, st, flag);
    if (way < 4) return m->FromSdd(f, st, flag, at);
    std::unordered_set<SddLiteral> used(k.l.begin(), k.l.end());
    return m->FromSdd(f, st, flag, used);
  };
  PsddNode *r = run();
  if (busy) snap.check("manager-changed", false);
  MC_CHECK(shape(st) == before && same_data(data), "vtree-changed", "the sdd's vtree is changed by the conversion");
  MC_CHECK(shape(m->vtree()) == pbefore && same_data(pdata), "vtree-changed", "the manager's vtree is changed by the conversion");
  Snapshot fresh;
  if (r) fresh.take(r);
  check_function(c, r, k, at, flag, sm, f);
  MC_CHECK(run() == r, "repeat", "converting again gives another node");
  if (r) fresh.check("repeat-changed", false);
  if (way == 1 || way == 4) {
    // the other entry points agree
    MC_CHECK(m->FromSdd(f, st, flag, at) == r, "entry-points", "the entry points disagree");
    c.op();
  }
  if (busy) snap.check("manager-changed", false);
}
void small(Chooser &c) {
  Case k;
  k.n = 1 + c.choose(2, "n");
  k.sv = choose_vtree(c, k.n);
  k.l = choose_labels(c, k.n);
  k.mask = c.choose(1 << (1 << k.n), "function");
  int way = c.choose(7, "way");
  bool busy = c.flip("busy");
  c.describe(str(k.sv) + " " + str(k.l));
  convert(c, k, way, busy);
}
void functions3(Chooser &c) {
  Case k;
  k.n = 3;
  k.sv = choose_vtree(c, 3);
  k.l = labels_kind(c.thorough() ? c.choose(4, "labels") : c.choose(2, "labels") * 2, 3);
  k.mask = c.choose(256, "function");
  int way = c.choose(7, "way");
  bool busy = c.flip("busy");
  c.describe(str(k.sv) + " " + str(k.l));
  convert(c, k, way, busy);
}
// every function of four variables would be 65536 per vtree: the thorough tier does that
void functions4(Chooser &c) {
  Case k;
  k.n = 4;
  k.sv = choose_shape(c, {0, 1, 2, 3});
  k.l = labels_kind(0, 4);
  if (c.thorough()) {
    k.mask = c.choose(65536, "function");
  } else {
    // intervals, and xor with a parity
    int a = c.choose(16, "from"), b = a + c.choose(16 - a, "to");
    static const uint64_t odd[] = {0, 0x6996, 0xaaaa, 0xf0f0};
    k.mask = (((2ull << b) - 1) & ~((1ull << a) - 1)) ^ odd[c.choose(4, "xor")];
  }
  int way = c.thorough() ? 0 : c.choose(7, "way");
  convert(c, k, way, !c.thorough());
}
// the function only concerns a part of the sdd's vtree, which is given alone
void part(Chooser &c) {
  int which = c.choose(2, "side");
  VTP sub = choose_vtree(c, 3);
  VTP whole = which ? inode(sub, leaf(3)) : inode(leaf(3), sub);
  SddManager *sm = sdd_of(whole, 4);
  Vtree *st = locate(sdd_manager_vtree(sm), whole, sub);
  uint64_t mask = c.choose(256, "function");
  SddNode *f = sdd_from_table(sm, {0, 1, 2}, mask);
  Case k;
  k.n = 3;
  k.sv = sub;
  k.mask = mask;
  k.l = labels_kind(2, 3);
  int place = c.choose(3, "place");
  Labels all = k.l;
  VTP root = sub;
  if (place) {
    all.push_back(900);
    root = place == 1 ? inode(sub, leaf(3)) : inode(leaf(3), sub);
  }
  ManagerPtr m(make_manager(root, all));
  Vtree *at = locate(m->vtree(), root, sub);
  std::string before = shape(sdd_manager_vtree(sm)), pbefore = shape(m->vtree());
  auto data = data_of(sdd_manager_vtree(sm));
  PsddNode *r = m->FromSdd(f, st, 2, at);
  MC_CHECK(shape(sdd_manager_vtree(sm)) == before && same_data(data) && shape(m->vtree()) == pbefore, "vtree-changed", "a vtree is changed by the conversion");
  check_function(c, r, k, at, 2, sm, f);
  std::unordered_set<SddLiteral> used(k.l.begin(), k.l.end());
  MC_CHECK(m->FromSdd(f, st, 2, used) == r, "entry-points", "the entry points disagree");
}
// several functions converted one after the other into one manager; earlier results stay what they were
void sequences(Chooser &c) {
  int n = 2 + c.choose(2, "n");
  VTP v = n == 2 ? choose_vtree(c, 2) : choose_shape(c, {0, 1, 2});
  Labels l = labels_kind(2, n);
  SddManager *sm = sdd_of(v, n);
  ManagerPtr m(make_manager(v, l));
  std::vector<PsddNode *> res;
  std::vector<Case> ks;
  std::vector<SddNode *> fs;
  Snapshot snap;
  int len = n == 2 ? 3 : 2;
  for (int i = 0; i < len; i++) {
    Case k;
    k.n = n;
    k.sv = v;
    k.l = l;
    k.mask = n == 2 ? c.choose(16, "function") : c.thorough() ? c.choose(256, "function") : 5 * c.choose(52, "function");
    std::vector<int> vars{0, 1};
    if (n == 3) vars.push_back(2);
    SddNode *f = sdd_from_table(sm, vars, k.mask);
    PsddNode *r = c.flip("entry") ? m->ConvertSddToPsdd(f, sdd_manager_vtree(sm), 1) : m->FromSdd(f, sdd_manager_vtree(sm), 1, m->vtree());
    snap.check("earlier-changed", false);
    if (r) snap.take(r);
    res.push_back(r);
    ks.push_back(k);
    fs.push_back(f);
  }
  for (int i = 0; i < len; i++) check_function(c, res[i], ks[i], m->vtree(), 1, sm, fs[i]);
}
// many variables: conjunctions, parities and implications over chains, decided by their counts and by sampled evidence
void large(Chooser &c) {
  static const int ns[] = {5, 8, 31, 33, 64, 65, 67, 100, 32, 63, 66, 128, 129, 130, 200};
  int n = ns[c.choose(c.thorough() ? 15 : 8, "n")];
  int shape_kind = c.choose(3, "shape"), kind = c.choose(6, "function");
  // 3: some variable of the first, middle, last is true, 4: the first or the second, 5: true
  VTP v = named_shape(shape_kind, n);
  Labels l = labels_kind(c.flip("sparse") ? 2 : 0, n);
  Vtree *w = to_sdd(v, dense(n));
  SddManager *sm = sdd_manager_new(w);
  sdd_vtree_free(w);
  sdd_manager_auto_gc_and_minimize_off(sm);
  SddNode *f = kind == 1 ? sdd_manager_false(sm) : sdd_manager_true(sm);
  mpz_class count = 1;
  if (kind == 0) {  // every third variable fixed
    for (int i = 0; i < n; i++)
      if (i % 3 == 0)
        f = sdd_conjoin(f, sdd_manager_literal(i % 2 ? i + 1 : -(i + 1), sm), sm);
      else
        count *= 2;
  } else if (kind == 1) {  // parity
    for (int i = 0; i < n; i++) {
      SddNode *x = sdd_manager_literal(i + 1, sm);
      f = sdd_disjoin(sdd_conjoin(f, sdd_negate(x, sm), sm), sdd_conjoin(sdd_negate(f, sm), x, sm), sm);
    }
    for (int i = 1; i < n; i++) count *= 2;
  } else if (kind >= 3) {
    std::vector<int> some = kind == 3 ? std::vector<int>{0, n / 2, n - 1} : kind == 4 ? std::vector<int>{0, 1} : std::vector<int>{};
    if (kind != 5) f = sdd_manager_false(sm);
    for (int i : some) f = sdd_disjoin(f, sdd_manager_literal(i + 1, sm), sm);
    mpz_ui_pow_ui(count.get_mpz_t(), 2, n);
    if (kind != 5) {
      mpz_class none;
      mpz_ui_pow_ui(none.get_mpz_t(), 2, n - some.size());
      count -= none;
    }
  } else {  // x1 -> x2 -> ... -> xn
    for (int i = 0; i + 1 < n; i++) f = sdd_conjoin(f, sdd_disjoin(sdd_manager_literal(-(i + 1), sm), sdd_manager_literal(i + 2, sm), sm), sm);
    count = n + 1;
  }
  ManagerPtr m(make_manager(v, l));
  PsddNode *r = m->ConvertSddToPsdd(f, sdd_manager_vtree(sm), 3);
  MC_CHECK(r != nullptr, "missing", "no circuit");
  check_wellformed(r, m->vtree(), 3, "converted");
  auto ser = psdd_node_util::SerializePsddNodes(r);
  mpz_class got = psdd_node_util::ModelCount(ser);
  MC_CHECK(got == count, "count", "%d variables: model count %s instead of %s", n, got.get_str().c_str(), count.get_str().c_str());
  // complete assignments: runs of ones with every start and (stepped) length
  static std::bitset<MAX_VAR> mask, inst;
  mask.reset();
  for (int x : l) mask.set(x);
  for (int from = 0; from < n; from += 1 + n / 16)
    for (int len = 0; from + len <= n; len += 1 + n / 16) {
      inst.reset();
      bool want = true;
      auto val = [&](int i) { return i >= from && i < from + len; };
      for (int i = 0; i < n; i++) {
        if (val(i)) inst.set(l[i]);
        if (kind == 0 && i % 3 == 0 && val(i) != (i % 2 == 1)) want = false;
        if (kind == 2 && i + 1 < n && val(i) && !val(i + 1)) want = false;
      }
      if (kind == 1) want = len % 2;
      if (kind == 3) want = val(0) || val(n / 2) || val(n - 1);
      if (kind == 4) want = val(0) || val(1);
      MC_CHECK(psdd_node_util::IsConsistent(ser, mask, inst) == want, "consistent-large", "%d variables, ones from %d, %d of them", n, from, len);
      c.op();
    }
  std::unordered_map<SddLiteral, SddLiteral> map;
  for (int i = 0; i < n; i++) map[l[i]] = i + 1;
  MC_CHECK(psdd_node_util::ConvertPsddNodeToSddNode(ser, map, sm) == f, "back", "%d variables: converted back gives another function", n);
  c.op(2);
  c.state(fingerprint(r));
  sdd_manager_free(sm);
}
// functions without regularity: more than 2^15 SDD nodes, or hundreds of elements in one decision
void huge(Chooser &c) {
  int kind = c.choose(3, "kind");
  int n = kind == 0 ? 20 : kind == 1 ? 10 + 3 : 12, left = kind == 1 ? 10 : 0;
  unsigned seed = (unsigned)c.choose(2, "function");
  auto value = [&](unsigned x) {
    if (kind == 2) x = (x ^ x >> 3) & 0xff7;
    uint64_t z = (x + 1) * 0x9e3779b97f4a7c15ull + seed;
    z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ z >> 27) * 0x94d049bb133111ebull;
    return ((z ^ z >> 31) & 1) != 0;
  };
  VTP v = kind == 0 ? right_linear(n) : kind == 1 ? inode(right_linear(left), right_linear(3, left)) : balanced(n);
  Labels l = labels_kind(2, n);
  Vtree *w = to_sdd(v, dense(n));
  SddManager *sm = sdd_manager_new(w);
  sdd_vtree_free(w);
  sdd_manager_auto_gc_and_minimize_off(sm);
  // from the last variable up
  std::vector<SddNode *> f;
  for (unsigned x = 0; x < (1u << n); x++) f.push_back(value(x) ? sdd_manager_true(sm) : sdd_manager_false(sm));
  uint64_t count = 0;
  for (unsigned x = 0; x < (1u << n); x++) count += value(x);
  for (int k = n - 1; k >= 0; k--) {
    SddNode *pos = sdd_manager_literal(k + 1, sm), *neg = sdd_manager_literal(-(k + 1), sm);
    std::vector<SddNode *> g(f.size() / 2);
    for (size_t x = 0; x < g.size(); x++) g[x] = sdd_disjoin(sdd_conjoin(neg, f[x], sm), sdd_conjoin(pos, f[x + g.size()], sm), sm);
    f.swap(g);
  }
  c.describef("function %u of kind %d over %d variables: %zu elements in the SDD, id %zu", seed, kind, n, (size_t)sdd_size(f[0]), (size_t)sdd_id(f[0]));
  ManagerPtr m(make_manager(v, l));
  PsddNode *r = c.flip("convert") ? m->ConvertSddToPsdd(f[0], sdd_manager_vtree(sm), 2) : m->FromSdd(f[0], sdd_manager_vtree(sm), 2, m->vtree());
  MC_CHECK(r != nullptr, "missing", "no circuit");
  check_wellformed(r, m->vtree(), 2, "converted");
  auto ser = psdd_node_util::SerializePsddNodes(r);
  mpz_class got = psdd_node_util::ModelCount(ser);
  c.op();
  MC_CHECK(got == (unsigned long)count, "count", "model count %s instead of %llu", got.get_str().c_str(), (unsigned long long)count);
  std::vector<signed char> a(MAX_VAR + 1, -1);
  // the circuit's models, by an own walk that stops at the first literal that fails
  auto holds = [&](unsigned x) {
    std::function<bool(PsddNode *)> rec = [&](PsddNode *q) -> bool {
      if (q->node_type() == LITERAL_NODE_TYPE) return (a[q->psdd_literal_node()->variable_index()] == 1) == q->psdd_literal_node()->sign();
      if (q->node_type() == TOP_NODE_TYPE) return true;
      auto d = q->psdd_decision_node();
      for (size_t i = 0; i < d->primes().size(); i++)
        if (rec(d->primes()[i])) return rec(d->subs()[i]);
      return false;
    };
    for (int k = 0; k < n; k++) a[l[k]] = x >> k & 1;
    return rec(r);
  };
  unsigned step = kind == 0 ? (n == 20 ? 3 : 1) : 1;
  for (unsigned x = 0; x < (1u << n); x += step) {
    c.op();
    MC_CHECK(holds(x) == value(x), "function", "assignment %x: the circuit says %d", x, !value(x));
  }
  std::unordered_map<SddLiteral, SddLiteral> map;
  for (int i = 0; i < n; i++) map[l[i]] = i + 1;
  MC_CHECK(psdd_node_util::ConvertPsddNodeToSddNode(ser, map, sm) == f[0], "back", "converted back gives another function");
  std::unordered_set<SddLiteral> used(l.begin(), l.end());
  MC_CHECK(m->FromSdd(f[0], sdd_manager_vtree(sm), 2, used) == r, "entry-points", "the entry points disagree");
  c.op(2);
  c.state(mc::mix((uint64_t)kind, ser.size()));
  sdd_manager_free(sm);
}
}  // namespace

void mc::register_scenarios(bool) {
  add("small", small);
  add("functions3", functions3);
  add("functions4", functions4);
  add("part", part);
  add("sequences", sequences);
  add("large", large);
  add("huge", huge);
}
