// C09  unique nodes: equal requests give the identical node, different requests distinct nodes
#include <algorithm>

#include "family.h"
using namespace ref;

namespace {
struct TopPar {
  double t, f;
};
// pairs that share the true or the false parameter, mirrored, with zeros, unnormalised
const std::vector<TopPar> kTops = {{0.5, 0.5}, {0.25, 0.75}, {0.75, 0.25}, {0.25, 0.5}, {0.5, 0.25}, {1, 0}, {0, 1}, {1, 1}};
double lg(double x) { return std::log(x); }

struct Key {
  int type = 0;  // 1 literal, 2 decision, 3 top
  uintmax_t flag = 0;
  int lit = 0;
  double a = 0, b = 0;
  std::vector<std::tuple<PsddNode *, PsddNode *, double>> el;  // sorted
  bool operator<(const Key &o) const { return std::tie(type, flag, lit, a, b, el) < std::tie(o.type, o.flag, o.lit, o.a, o.b, o.el); }
};
std::string str_key(const Key &k) {
  char s[120];
  if (k.type == 1)
    snprintf(s, sizeof s, "literal %d flag %ju", k.lit, k.flag);
  else if (k.type == 3)
    snprintf(s, sizeof s, "top %d (%g,%g) flag %ju", k.lit, k.a, k.b, k.flag);
  else {
    snprintf(s, sizeof s, "decision flag %ju of", k.flag);
    std::string r = s;
    for (auto &e : k.el) r += " " + str(std::get<0>(e)) + "." + str(std::get<1>(e)) + ":" + std::to_string(std::get<2>(e));
    return r;
  }
  return s;
}
// the manager together with what it must remember
struct World {
  Chooser &c;
  ManagerPtr m;
  std::map<Key, PsddNode *> live;
  std::map<PsddNode *, Key> owner;

  void content(const Key &k, PsddNode *n) {
    MC_CHECK(n != nullptr, "content", "asked for %s, got nothing", str_key(k).c_str());
    auto close = [](double want, double got) { return want == got || fabs(want - got) < 2e-7; };
    bool ok = n->node_type() == k.type && n->flag_index() == k.flag;
    if (ok && k.type == 1) ok = n->psdd_literal_node() && n->psdd_literal_node()->literal() == k.lit && (int)n->psdd_literal_node()->variable_index() == abs(k.lit) && n->psdd_literal_node()->sign() == (k.lit > 0);
    if (ok && k.type == 3)
      ok = n->psdd_top_node() && (int)n->psdd_top_node()->variable_index() == k.lit && close(lg(k.a), n->psdd_top_node()->true_parameter().parameter()) &&
           close(lg(k.b), n->psdd_top_node()->false_parameter().parameter());
    if (ok && k.type == 2) {
      auto d = n->psdd_decision_node();
      ok = d && d->primes().size() == k.el.size() && d->subs().size() == k.el.size() && d->parameters().size() == k.el.size();
      std::vector<bool> used(k.el.size(), false);
      for (size_t i = 0; ok && i < k.el.size(); i++) {
        bool hit = false;
        for (size_t j = 0; j < used.size() && !hit; j++)
          if (!used[j] && d->primes()[j] == std::get<0>(k.el[i]) && d->subs()[j] == std::get<1>(k.el[i]) && close(lg(std::get<2>(k.el[i])), d->parameters()[j].parameter()))
            hit = used[j] = true;
        ok = hit;
      }
    }
    MC_CHECK(ok, "content", "asked for %s, got %s with flag %ju", str_key(k).c_str(), str(n).c_str(), n->flag_index());
    Vtree *at = nullptr;
    if (k.type != 2) {
      for (Vtree *w : vtree_util::SerializeVtree(m->vtree()))
        if (sdd_vtree_is_leaf(w) && sdd_vtree_var(w) == abs(k.lit)) at = w;
    } else
      at = sdd_vtree_parent(std::get<0>(k.el[0])->vtree_node());
    MC_CHECK(n->vtree_node() == at, "content", "%s sits at the wrong vtree node", str_key(k).c_str());
  }
  PsddNode *request(const Key &k, PsddNode *n) {
    content(k, n);
    auto it = live.find(k);
    if (it != live.end())
      MC_CHECK(it->second == n, "duplicate", "asked again for %s and got another node", str_key(k).c_str());
    else {
      auto o = owner.find(n);
      MC_CHECK(o == owner.end(), "merged", "asked for %s and got the node of %s", str_key(k).c_str(), o == owner.end() ? "" : str_key(o->second).c_str());
      live[k] = n;
      owner[n] = k;
    }
    c.op();
    return n;
  }
  PsddNode *lit(int l, uintmax_t flag) {
    Key k;
    k.type = 1;
    k.flag = flag;
    k.lit = l;
    return request(k, m->GetPsddLiteralNode(l, flag));
  }
  PsddNode *top(int v, const TopPar &p, uintmax_t flag) {
    Key k;
    k.type = 3;
    k.flag = flag;
    k.lit = v;
    k.a = p.t;
    k.b = p.f;
    return request(k, m->GetPsddTopNode(v, flag, PsddParameter::CreateFromDecimal(p.t), PsddParameter::CreateFromDecimal(p.f)));
  }
  PsddNode *dec(const std::vector<std::tuple<PsddNode *, PsddNode *, double>> &el, uintmax_t flag) {
    Key k;
    k.type = 2;
    k.flag = flag;
    k.el = el;
    std::sort(k.el.begin(), k.el.end());
    std::vector<PsddNode *> p, s;
    std::vector<PsddParameter> q;
    for (auto &e : el) {
      p.push_back(std::get<0>(e));
      s.push_back(std::get<1>(e));
      q.push_back(PsddParameter::CreateFromDecimal(std::get<2>(e)));
    }
    return request(k, m->GetConformedPsddDecisionNode(p, s, q, flag));
  }
  void gc(const std::vector<PsddNode *> &roots) {
    std::set<PsddNode *> keep;
    for (auto r : roots)
      for (auto x : reachable(r)) keep.insert(x);
    m->DeleteUnusedPsddNodes(roots);
    for (auto it = live.begin(); it != live.end();) {
      if (keep.count(it->second))
        ++it;
      else {
        owner.erase(it->second);
        it = live.erase(it);
      }
    }
    c.op();
  }
  // everything ever handed out and not collected is still what it was
  void all() {
    uint64_t h = 5;
    for (auto &kv : live) {
      content(kv.first, kv.second);
      h += fingerprint(kv.second);
      c.op();
    }
    c.state(h);
  }
};
struct LeafReq {
  int kind, var;
  uintmax_t flag;
  int par;
};
std::vector<LeafReq> leaf_alphabet(const Labels &l, int tops) {
  std::vector<LeafReq> a;
  for (int v = 0; v < (int)l.size(); v++)
    for (uintmax_t f : {0, 1}) {
      a.push_back({1, l[v], f, 0});
      a.push_back({1, -l[v], f, 0});
      for (int p = 0; p < tops; p++) a.push_back({3, l[v], f, p});
    }
  return a;
}
PsddNode *ask(World &w, const LeafReq &r) { return r.kind == 1 ? w.lit(r.var, r.flag) : w.top(r.var, kTops[r.par], r.flag); }

// all sequences of leaf requests and collections
void leaf_histories(Chooser &c) {
  Labels l = c.flip("sparse") ? Labels{65535, 7} : Labels{1, 2};
  World w{c, ManagerPtr(make_manager(inode(leaf(0), leaf(1)), l)), {}, {}};
  auto a = leaf_alphabet(l, c.thorough() ? 8 : 5);
  int depth = c.thorough() ? 4 : 3;
  std::vector<PsddNode *> got;
  for (int d = 0; d < depth; d++) {
    int k = c.choose((int)a.size() + 3, "op");
    if (k < (int)a.size())
      got.push_back(ask(w, a[k]));
    else {
      std::vector<PsddNode *> roots;
      k -= a.size();
      if (k == 0 && !got.empty()) roots.push_back(got.back());
      if (k == 1 && !got.empty()) roots.push_back(got.front());
      w.gc(roots);
      if (roots.empty()) got.clear();
      else got = roots;
    }
  }
  w.all();
}
// decisions over two variables: two requests with anything in between
void decision_histories(Chooser &c) {
  World w{c, ManagerPtr(make_manager(inode(leaf(0), leaf(1)), {1, 2})), {}, {}};
  // creation order of the leaves decides the order of elements inside the library
  int rot = c.choose(4, "leaf order");
  std::vector<PsddNode *> P(4), S(5);
  for (int i = 0; i < 4; i++) {
    int j = rot & 1 ? 3 - i : i;
    P[j] = j < 2 ? w.lit(j ? -1 : 1, 0) : j == 2 ? w.lit(1, 1) : w.top(1, kTops[0], 0);
  }
  for (int i = 0; i < 5; i++) {
    int j = rot & 2 ? 4 - i : i;
    S[j] = j < 2 ? w.lit(j ? -2 : 2, 0) : j < 4 ? w.top(2, kTops[j], 0) : w.lit(2, 1);
  }
  static const double pars[3][2] = {{0.5, 0.5}, {0.25, 0.75}, {0.75, 0.25}};
  auto request = [&]() {
    uintmax_t flag = c.choose(2, "flag");
    if (c.flip("single")) {
      double q = c.flip("half") ? 0.5 : 1;
      return w.dec({{P[c.choose(4, "prime")], S[c.choose(5, "sub")], q}}, flag);
    }
    int s1 = c.choose(c.thorough() ? 5 : 3, "s1"), s2 = c.choose(c.thorough() ? 5 : 3, "s2"), q = c.choose(3, "pars");
    std::tuple<PsddNode *, PsddNode *, double> e1{P[0], S[s1], pars[q][0]}, e2{P[1], S[s2], pars[q][1]};
    if (c.flip("swapped")) std::swap(e1, e2);
    return w.dec({e1, e2}, flag);
  };
  PsddNode *a = request();
  int mid = c.choose(3, "between");
  if (mid == 1) w.gc({a, P[0], P[1], P[2], P[3], S[0], S[1], S[2], S[3], S[4]});
  if (mid == 2) w.gc({P[0], P[1], P[2], P[3], S[0], S[1], S[2], S[3], S[4]});
  request();
  w.all();
}
// every listing of the same four elements, other decisions in between
void listings(Chooser &c) {
  Labels l = labels_kind(c.choose(2, "labels") * 2, 3);
  World w{c, ManagerPtr(make_manager(inode(inode(leaf(0), leaf(1)), leaf(2)), l)), {}, {}};
  auto first = choose_permutation(c, 4), second = choose_permutation(c, 4);
  int order = c.choose(3, "prime order");
  std::vector<PsddNode *> P(4), S(4);
  for (int i = 0; i < 4; i++) {
    int j = order == 0 ? i : order == 1 ? 3 - i : (i + 2) % 4;
    P[j] = w.dec({{w.lit(j & 1 ? l[0] : -l[0], 0), w.lit(j & 2 ? l[1] : -l[1], 0), 1.0}}, 0);
    S[j] = j < 2 ? w.lit(j ? -l[2] : l[2], 0) : w.top(l[2], kTops[j], 0);
  }
  static const double q[4] = {0.125, 0.25, 0.5, 0.125};
  auto make = [&](const std::vector<int> &o, int shift, uintmax_t flag, int drop) {
    std::vector<std::tuple<PsddNode *, PsddNode *, double>> el;
    for (int i : o)
      if (i != drop) el.push_back({P[i], S[(i + shift) % 4], q[i]});
    return w.dec(el, flag);
  };
  PsddNode *a = make(first, 0, 0, -1);
  int mid = c.choose(4, "between");
  if (mid == 1) make(second, 1, 0, -1);  // other pairing of the same nodes
  if (mid == 2) make(first, 0, 0, 3);    // one element less
  if (mid == 3) make(second, 0, 1, -1);
  PsddNode *b = make(second, 0, 0, -1);
  MC_CHECK(a == b, "listing", "the order of the elements matters");
  make(first, 0, 0, second[0]);
  make(first, 1, 0, -1);
  make(second, 1, 0, -1);
  make(first, 0, 1, -1);
  w.all();
}
// two decisions of three or four elements whose parameters (and one sub) vary independently
void elements(Chooser &c) {
  static const double q[] = {0.25, 0.5, 1};
  World w{c, ManagerPtr(make_manager(inode(inode(leaf(0), leaf(1)), leaf(2)), {1, 2, 3})), {}, {}};
  int k = 3 + c.choose(2, "elements");
  std::vector<PsddNode *> P(k);
  for (int i = 0; i < k; i++) P[i] = w.dec({{w.lit(i & 1 ? 1 : -1, 0), w.lit(i & 2 ? 2 : -2, 0), 1.0}}, 0);
  std::vector<int> a(k, 0), b(k, 0);
  if (k == 3 || c.thorough()) {
    for (int i = 0; i < k; i++) a[i] = c.choose(3, "parameter");
    for (int i = 0; i < k; i++) b[i] = c.choose(3, "parameter");
  } else {
    for (int i = 0; i < k; i++) b[i] = c.choose(3, "parameter");
  }
  int other = c.choose(k + 1, "other sub");
  auto make = [&](const std::vector<int> &x, int odd, bool back) {
    std::vector<std::tuple<PsddNode *, PsddNode *, double>> el;
    for (int i = 0; i < k; i++) el.push_back({P[i], w.lit((i % 2 == 0) != (i == odd) ? 3 : -3, 0), q[x[i]]});
    if (back) std::reverse(el.begin(), el.end());
    return w.dec(el, 0);
  };
  make(a, -1, false);
  make(b, other == k ? -1 : other, true);
  make(a, -1, true);
  w.all();
}
// a large population in many orders, then everything again, then collection of half of it
void bulk(Chooser &c) {
  Labels l = labels_kind(c.choose(3, "labels"), 3);
  int shape = c.choose(2, "shape");
  VTP v = shape ? inode(leaf(0), inode(leaf(1), leaf(2))) : inode(inode(leaf(0), leaf(1)), leaf(2));
  World w{c, ManagerPtr(make_manager(v, l)), {}, {}};
  auto a = leaf_alphabet(l, 8);
  static const int strides[] = {1, 7, 11, 13, 17, 19, 23, 29};
  size_t n = a.size();
  int start = c.choose(c.thorough() ? (int)n : 6, "start") * (c.thorough() ? 1 : 10);
  int stride = strides[c.choose(c.thorough() ? 8 : 4, "stride")];
  std::vector<PsddNode *> leafs(n);
  auto leaf_round = [&](int st, int sd) {
    for (size_t i = 0; i < n; i++) {
      size_t k = (st + i * sd) % n;
      leafs[k] = ask(w, a[k]);
    }
  };
  std::vector<PsddNode *> decs;
  auto dec_round = [&](int st, int sd) {
    int x = shape ? 1 : 0, y = shape ? 2 : 1;  // the two leaves of the lower internal node
    std::vector<PsddNode *> lo;
    for (int i = 0; i < 64; i++) {
      int k = (st + i * sd) % 64;
      static const double q[4][2] = {{0.5, 0.5}, {0.25, 0.75}, {0.75, 0.25}, {0, 1}};
      std::tuple<PsddNode *, PsddNode *, double> e1{w.lit(l[x], 0), w.top(l[y], kTops[k & 3], 0), q[k >> 4 & 3][0]},
          e2{w.lit(-l[x], 0), w.top(l[y], kTops[k >> 2 & 3], 0), q[k >> 4 & 3][1]};
      if ((k + st) % 3) std::swap(e1, e2);
      PsddNode *d = w.dec({e1, e2}, k % 5 == 0);
      lo.push_back(d);
      std::vector<std::tuple<PsddNode *, PsddNode *, double>> up;
      if (shape)
        up = {{w.lit(l[0], 0), d, 0.5}, {w.lit(-l[0], 0), lo[lo.size() / 2], 0.5}};
      else
        up = {{d, w.lit(l[2], 0), 1.0}};
      decs.push_back(w.dec(up, 0));
    }
  };
  leaf_round(start, stride);
  dec_round(start, stride);
  leaf_round(0, 1);
  dec_round(0, 1);
  w.all();
  int how = c.choose(3, "keep");
  std::vector<PsddNode *> roots;
  for (size_t i = 0; i < decs.size(); i++)
    if (how == 0 ? i % 2 == 0 : how == 1 ? i < 5 : false) roots.push_back(decs[i]);
  for (size_t i = 0; i < leafs.size(); i++)
    if (how == 2 && i % 3 == 0) roots.push_back(leafs[i]);
  w.gc(roots);
  w.all();
  leaf_round(n / 2, stride);
  dec_round(7, 1);
  w.all();
}
// whole circuits: built with the elements listed the other way, and after collection
void circuits(Chooser &c) {
  Family f = choose_family(c, 0);
  Instance i = build_at(c, f, c.choose(3, "place"));
  PsddManager *m = i.manager.get();
  BuildOptions r = f.o;
  r.reversed = !r.reversed;
  auto again = [&](const char *when) {
    PsddNode *x = build(m, i.v, i.labels, f.t, r), *y = build(m, i.v, i.labels, f.t, f.o);
    MC_CHECK(x == i.node && y == i.node, "circuit", "%s: building %s again gives another node", when, str(i.node).c_str());
    c.op(2);
  };
  again("at once");
  BuildOptions o2 = f.o;
  o2.flag = f.o.flag + 1;
  PsddNode *other = build(m, i.v, i.labels, f.t, o2);
  MC_CHECK(other != i.node, "circuit", "another flag gives the same node");
  std::reverse(f.t.begin(), f.t.end());
  PsddNode *mirror = build(m, i.v, i.labels, f.t, f.o);
  Table tm = table_of(mirror, i.labels), wm = normalized(f.t);
  for (size_t x = 0; x < tm.size(); x++) MC_CHECK(close(tm[x], wm[x], 1e-6), "circuit", "another distribution built in the same manager is wrong at %zx: %g instead of %g", x, tm[x], wm[x]);
  std::reverse(f.t.begin(), f.t.end());
  again("after others");
  m->DeleteUnusedPsddNodes({i.node});
  again("after collection");
  m->DeleteUnusedPsddNodes({});
  PsddNode *z = build(m, i.v, i.labels, f.t, r);
  Table tz = table_of(z, i.labels);
  for (size_t x = 0; x < tz.size(); x++) MC_CHECK(close(tz[x], i.dist[x], 1e-6), "circuit", "rebuilt after collecting everything: wrong at %zx", x);
  c.op(3);
  c.state(fingerprint(z));
}
// tens of thousands of different nodes at one place of the vtree
void many(Chooser &c) {
  int kind = c.choose(4, "kind");
  int n = c.thorough() ? 200000 : 70000;
  static const int strides[] = {1, 7919, 40009};
  int stride = c.pick(std::vector<int>(strides, strides + 3), "stride");
  ManagerPtr m(make_manager(inode(leaf(0), inode(leaf(1), leaf(2))), {1, 2, 3}));
  auto P = [](double x) { return PsddParameter::CreateFromDecimal(x); };
  PsddNode *b = m->GetPsddLiteralNode(2, 0), *x = m->GetPsddLiteralNode(3, 0), *y = m->GetPsddLiteralNode(-3, 0), *nb = m->GetPsddLiteralNode(-2, 0);
  auto value = [&](int k) { return (k + 1.0) / (n + 2); };
  auto ask = [&](int k, bool turned) -> PsddNode * {
    if (kind == 0) return m->GetPsddTopNode(1, 0, P(value(k)), P(1 - value(k)));
    if (kind == 1) return m->GetPsddLiteralNode(k % 2 ? 1 : -1, (uintmax_t)k / 2 * 4099);
    if (kind == 2) return m->GetPsddTopNode(1, (uintmax_t)k, P(0.25), P(0.75));
    if (turned) return m->GetConformedPsddDecisionNode({nb, b}, {y, x}, {P(1 - value(k)), P(value(k))}, 0);
    return m->GetConformedPsddDecisionNode({b, nb}, {x, y}, {P(value(k)), P(1 - value(k))}, 0);
  };
  auto close = [](double want, double got) { return fabs(exp(got) - want) < 1e-7 * want; };
  auto good = [&](int k, PsddNode *d) {
    if (d == nullptr) return false;
    if (kind == 0) return d->psdd_top_node() && close(value(k), d->psdd_top_node()->true_parameter().parameter()) && close(1 - value(k), d->psdd_top_node()->false_parameter().parameter());
    if (kind == 1) return d->psdd_literal_node() && d->psdd_literal_node()->literal() == (k % 2 ? 1 : -1) && d->flag_index() == (uintmax_t)k / 2 * 4099;
    if (kind == 2) return d->psdd_top_node() && d->flag_index() == (uintmax_t)k;
    auto e = d->psdd_decision_node();
    return e && e->primes().size() == 2 && close(e->primes()[0] == b ? value(k) : 1 - value(k), e->parameters()[0].parameter());
  };
  std::vector<PsddNode *> nodes((size_t)n);
  // k and its neighbour can be closer than the manager's resolution (1e-6 in the logarithm): those may be one node
  auto neighbours = [&](int k) { return (kind == 0 || kind == 3) && fabs(log(value(k + 1)) - log(value(k))) < 4e-6 && fabs(log1p(-value(k + 1)) - log1p(-value(k))) < 4e-6; };
  for (int i = 0; i < n; i++) {
    int k = (int)((long long)i * stride % n);
    nodes[(size_t)k] = ask(k, false);
    MC_CHECK(good(k, nodes[(size_t)k]), "content", "request %d (kind %d) gives %s", k, kind, str(nodes[(size_t)k]).c_str());
  }
  c.op((uint64_t)n);
  std::map<PsddNode *, int> owner;
  for (int k = 0; k < n; k++) {
    auto o = owner.emplace(nodes[(size_t)k], k);
    MC_CHECK(o.second || (o.first->second == k - 1 && neighbours(k - 1)), "merged", "request %d and %d (kind %d) give the same node", o.first->second, k, kind);
  }
  for (int k = n - 1; k >= 0; k--) MC_CHECK(ask(k, true) == nodes[(size_t)k], "duplicate", "request %d (kind %d) gives another node the second time", k, kind);
  c.op(2 * (uint64_t)n);
  // a collection that keeps every third
  std::vector<PsddNode *> keep{b, nb, x, y};
  for (int k = 0; k < n; k += 3) keep.push_back(nodes[(size_t)k]);
  m->DeleteUnusedPsddNodes(keep);
  for (int k = 0; k < n; k += 3) {
    MC_CHECK(good(k, nodes[(size_t)k]), "content", "after a collection node %d is %s", k, str(nodes[(size_t)k]).c_str());
    MC_CHECK(ask(k, k % 2) == nodes[(size_t)k], "duplicate", "after a collection request %d (kind %d) gives another node", k, kind);
  }
  for (int k = 1; k < n; k += 3) MC_CHECK(good(k, ask(k, false)), "content", "after a collection request %d (kind %d)", k, kind);
  c.op((uint64_t)n);
  c.state(mc::mix((uint64_t)kind, (uint64_t)stride));
}
// one decision with very many elements, asked for in other orders and with one thing changed
void elements_huge(Chooser &c) {
  Huge h = choose_huge(c, 3);
  PsddManager *m = h.manager.get();
  auto all = reachable(h.node);
  int how = c.choose(3, "order");
  std::map<PsddNode *, PsddNode *> again;
  // children first: ask for every node's content once more
  auto ser = psdd_node_util::SerializePsddNodes(h.node);
  for (auto it = ser.rbegin(); it != ser.rend(); ++it) {
    PsddNode *x = *it, *y;
    if (x->node_type() == LITERAL_NODE_TYPE)
      y = m->GetPsddLiteralNode(x->psdd_literal_node()->literal(), 0);
    else if (x->node_type() == TOP_NODE_TYPE)
      y = m->GetPsddTopNode(x->psdd_top_node()->variable_index(), 0, x->psdd_top_node()->true_parameter(), x->psdd_top_node()->false_parameter());
    else {
      auto d = x->psdd_decision_node();
      size_t k = d->primes().size();
      std::vector<PsddNode *> p, s;
      std::vector<PsddParameter> w;
      for (size_t i = 0; i < k; i++) {
        size_t j = how == 0 ? i : how == 1 ? k - 1 - i : (i + k / 2) % k;
        p.push_back(d->primes()[j]);
        s.push_back(d->subs()[j]);
        w.push_back(d->parameters()[j]);
      }
      y = m->GetConformedPsddDecisionNode(p, s, w, 0);
      if (k > 1000) {
        for (size_t at : {size_t(0), k / 2, size_t(65535), size_t(65536), k - 1}) {
          std::swap(s[at], s[(at + 1) % k]);
          PsddNode *z = m->GetConformedPsddDecisionNode(p, s, w, 0);
          MC_CHECK(z != x && z->psdd_decision_node()->primes().size() == k, "merged", "a decision of %zu elements with other subs at element %zu gives the same node", k, at);
          std::swap(s[at], s[(at + 1) % k]);
          // one element fewer
          auto p2 = p, s2 = s;
          auto w2 = w;
          p2.erase(p2.begin() + at);
          s2.erase(s2.begin() + at);
          w2.erase(w2.begin() + at);
          z = m->GetConformedPsddDecisionNode(p2, s2, w2, 0);
          MC_CHECK(z != x && z->psdd_decision_node()->primes().size() == k - 1, "merged", "a decision of %zu elements without element %zu gives the same node", k, at);
          c.op(2);
        }
      }
    }
    c.op();
    MC_CHECK(y == x, "duplicate", "asking for the content of a node of a huge circuit gives another node: %d", x->node_type());
  }
  c.state(mc::mix((uint64_t)h.kind, all.size()));
}
}  // namespace

void mc::register_scenarios(bool) {
  add("leaves", leaf_histories);
  add("decisions", decision_histories);
  add("listings", listings);
  add("elements", elements);
  add("bulk", bulk);
  add("circuits", circuits);
  add("many", many);
  add("huge", elements_huge);
}
