#include "ref.h"

#include <algorithm>
#include <functional>
#include <sstream>

namespace ref {
using mc::fail;

VTP leaf(int v) {
  auto p = std::make_shared<VT>();
  p->var = v;
  return p;
}
VTP inode(VTP l, VTP r) {
  auto p = std::make_shared<VT>();
  p->l = l;
  p->r = r;
  return p;
}
void leaves(const VTP &v, std::vector<int> &out) {
  if (v->leaf())
    out.push_back(v->var);
  else {
    leaves(v->l, out);
    leaves(v->r, out);
  }
}
std::vector<int> leaves(const VTP &v) {
  std::vector<int> o;
  leaves(v, o);
  return o;
}
void internal_and_leaves(const VTP &v, std::vector<VTP> &out) {
  out.push_back(v);
  if (!v->leaf()) {
    internal_and_leaves(v->l, out);
    internal_and_leaves(v->r, out);
  }
}
std::string str(const VTP &v) {
  if (v->leaf()) return std::to_string(v->var);
  return "(" + str(v->l) + " " + str(v->r) + ")";
}
std::string str(Vtree *v) {
  if (sdd_vtree_is_leaf(v)) return std::to_string(sdd_vtree_var(v));
  return "(" + str(sdd_vtree_left(v)) + " " + str(sdd_vtree_right(v)) + ")";
}
VTP choose_shape(Chooser &c, const std::vector<int> &o) {
  if (o.size() == 1) return leaf(o[0]);
  int k = o.size() == 2 ? 1 : 1 + c.choose((int)o.size() - 1, "split");
  std::vector<int> a(o.begin(), o.begin() + k), b(o.begin() + k, o.end());
  VTP l = choose_shape(c, a);
  VTP r = choose_shape(c, b);
  return inode(l, r);
}
std::vector<int> choose_permutation(Chooser &c, int n) {
  std::vector<int> rest, o;
  for (int i = 0; i < n; i++) rest.push_back(i);
  while (!rest.empty()) {
    int k = rest.size() == 1 ? 0 : c.choose((int)rest.size(), "leaf");
    o.push_back(rest[k]);
    rest.erase(rest.begin() + k);
  }
  return o;
}
VTP choose_vtree(Chooser &c, int n) { return choose_shape(c, choose_permutation(c, n)); }
VTP right_linear(int n, int from) {
  return n == 1 ? leaf(from) : inode(leaf(from), right_linear(n - 1, from + 1));
}
VTP left_linear(int n, int from) {
  return n == 1 ? leaf(from) : inode(left_linear(n - 1, from), leaf(from + n - 1));
}
VTP balanced(int n, int from) {
  return n == 1 ? leaf(from) : inode(balanced(n / 2, from), balanced(n - n / 2, from + n / 2));
}
VTP named_shape(int kind, int n) {
  return kind == 0 ? right_linear(n) : kind == 1 ? left_linear(n) : balanced(n);
}

Labels dense(int n) { return labels_kind(0, n); }
int label_kinds() { return 4; }
Labels labels_kind(int kind, int n) {
  Labels l;
  static const int sparse[] = {7, 64, 3, 1000, 63, 65, 129, 4096, 32768, 40000};
  for (int i = 0; i < n; i++) {
    if (kind == 0) l.push_back(i + 1);
    if (kind == 1) l.push_back(n - i);
    if (kind == 2) l.push_back(i < 10 ? sparse[i] : 5000 + 3 * i);
    if (kind == 3) l.push_back(i % 2 ? 65535 - i : 32767 + i);
  }
  return l;
}
Labels choose_labels(Chooser &c, int n) { return labels_kind(c.choose(label_kinds(), "labels"), n); }

static Vtree *to_sdd_rec(const VTP &v, const Labels &labels) {
  if (v->leaf()) return new_leaf_vtree(labels[v->var]);
  Vtree *l = to_sdd_rec(v->l, labels);
  Vtree *r = to_sdd_rec(v->r, labels);
  return new_internal_vtree(l, r);
}
Vtree *to_sdd(const VTP &v, const Labels &labels) {
  Vtree *r = to_sdd_rec(v, labels);
  set_vtree_properties(r);
  return r;
}
bool same_shape(Vtree *v, const VTP &t, const Labels &labels) {
  if (v == nullptr) return false;
  if ((bool)sdd_vtree_is_leaf(v) != t->leaf()) return false;
  if (t->leaf()) return sdd_vtree_var(v) == labels[t->var];
  return sdd_vtree_parent(sdd_vtree_left(v)) == v && sdd_vtree_parent(sdd_vtree_right(v)) == v &&
         same_shape(sdd_vtree_left(v), t->l, labels) && same_shape(sdd_vtree_right(v), t->r, labels);
}
Vtree *locate(Vtree *root_sdd, const VTP &root, const VTP &t) {
  if (root == t) return root_sdd;
  if (root->leaf()) return nullptr;
  Vtree *a = locate(sdd_vtree_left(root_sdd), root->l, t);
  return a ? a : locate(sdd_vtree_right(root_sdd), root->r, t);
}
PsddManager *make_manager(const VTP &v, const Labels &labels) {
  Vtree *s = to_sdd(v, labels);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(s);
  sdd_vtree_free(s);
  return m;
}

double total(const Table &t) {
  double s = 0;
  for (double x : t) s += x;
  return s;
}
Table normalized(const Table &t) {
  double s = total(t);
  Table r = t;
  for (double &x : r) x /= s;
  return r;
}
std::string str(const BuildOptions &o) {
  return std::string(o.compressed ? "compressed" : "split") + (o.explicit_zero ? "+zeros" : "") +
         (o.reversed ? "+rev" : "") + " flag=" + std::to_string(o.flag);
}
BuildOptions choose_options(Chooser &c, bool with_zero) {
  BuildOptions o;
  o.compressed = !c.flip("split");
  if (with_zero) o.explicit_zero = c.flip("zeros");
  return o;
}

namespace {
// table over the leaves of v in left-to-right order, low bit first
PsddNode *build_rec(PsddManager *m, const VTP &v, const Labels &labels, const Table &t, const BuildOptions &o) {
  double tot = total(t);
  if (!(tot > 0)) return nullptr;
  if (v->leaf()) {
    int lab = labels[v->var];
    if ((t[0] == 0 || t[1] == 0) && !o.explicit_zero)
      return m->GetPsddLiteralNode(t[1] > 0 ? lab : -lab, o.flag);
    return m->GetPsddTopNode((uint32_t)lab, o.flag, PsddParameter::CreateFromDecimal(t[1] / tot),
                             PsddParameter::CreateFromDecimal(t[0] / tot));
  }
  size_t nl = leaves(v->l).size(), nr = leaves(v->r).size();
  size_t L = size_t(1) << nl, R = size_t(1) << nr;
  std::vector<std::vector<size_t>> groups;  // left assignments
  std::vector<double> row(L, 0);
  for (size_t a = 0; a < L; a++)
    for (size_t b = 0; b < R; b++) row[a] += t[a | (b << nl)];
  std::vector<size_t> zero;
  for (size_t a = 0; a < L; a++) {
    if (row[a] == 0) {
      zero.push_back(a);
      continue;
    }
    bool placed = false;
    if (o.compressed)
      for (auto &g : groups) {
        bool prop = true;
        for (size_t b = 0; b < R && prop; b++) prop = t[a | (b << nl)] * row[g[0]] == t[g[0] | (b << nl)] * row[a];
        if (prop) {
          g.push_back(a);
          placed = true;
          break;
        }
      }
    if (!placed) groups.push_back({a});
  }
  std::vector<PsddNode *> primes, subs;
  std::vector<PsddParameter> params;
  for (auto &g : groups) {
    Table pt(L, 0), st(R, 0);
    double w = 0;
    for (size_t a : g) {
      pt[a] = row[a];
      w += row[a];
    }
    for (size_t b = 0; b < R; b++) st[b] = t[g[0] | (b << nl)];
    primes.push_back(build_rec(m, v->l, labels, pt, o));
    subs.push_back(build_rec(m, v->r, labels, st, o));
    params.push_back(PsddParameter::CreateFromDecimal(w / tot));
  }
  if (o.explicit_zero && !zero.empty()) {
    std::vector<std::vector<size_t>> zg;
    if (o.compressed)
      zg.push_back(zero);
    else
      for (size_t a : zero) zg.push_back({a});
    for (auto &g : zg) {
      Table pt(L, 0), st(R, 1);
      for (size_t a : g) pt[a] = 1;
      // the zero branch must be disjoint from the others in support, so its prime has no zero branches
      BuildOptions q = o;
      q.explicit_zero = false;
      primes.push_back(build_rec(m, v->l, labels, pt, q));
      subs.push_back(build_rec(m, v->r, labels, st, q));
      params.push_back(PsddParameter::CreateFromDecimal(0));
    }
  }
  if (o.reversed) {
    std::reverse(primes.begin(), primes.end());
    std::reverse(subs.begin(), subs.end());
    std::reverse(params.begin(), params.end());
  }
  return m->GetConformedPsddDecisionNode(primes, subs, params, o.flag);
}
}  // namespace

PsddNode *build(PsddManager *m, const VTP &v, const Labels &labels, const Table &t, const BuildOptions &o) {
  std::vector<int> ls = leaves(v);
  Table q(size_t(1) << ls.size(), 0);
  for (size_t i = 0; i < q.size(); i++) {
    size_t x = 0;
    for (size_t k = 0; k < ls.size(); k++)
      if (i >> k & 1) x |= size_t(1) << ls[k];
    q[i] = t[x];
  }
  // With explicit zero branches the primes of one decision must stay mutually exclusive in support, so
  // zero branches are only kept at decisions whose primes are built without them.
  std::function<PsddNode *(const VTP &, const Table &, bool)> top;
  if (!o.explicit_zero) return build_rec(m, v, labels, q, o);
  BuildOptions plain = o;
  plain.explicit_zero = false;
  std::function<PsddNode *(const VTP &, const Table &)> rec = [&](const VTP &w, const Table &tt) -> PsddNode * {
    double tot = total(tt);
    if (!(tot > 0)) return nullptr;
    if (w->leaf()) {
      int lab = labels[w->var];
      return m->GetPsddTopNode((uint32_t)lab, o.flag, PsddParameter::CreateFromDecimal(tt[1] / tot),
                               PsddParameter::CreateFromDecimal(tt[0] / tot));
    }
    size_t nl = leaves(w->l).size(), nr = leaves(w->r).size();
    size_t L = size_t(1) << nl, R = size_t(1) << nr;
    std::vector<std::vector<size_t>> groups;
    std::vector<double> row(L, 0);
    for (size_t a = 0; a < L; a++)
      for (size_t b = 0; b < R; b++) row[a] += tt[a | (b << nl)];
    std::vector<size_t> zero;
    for (size_t a = 0; a < L; a++) {
      if (row[a] == 0) {
        zero.push_back(a);
        continue;
      }
      bool placed = false;
      if (o.compressed)
        for (auto &g : groups) {
          bool prop = true;
          for (size_t b = 0; b < R && prop; b++) prop = tt[a | (b << nl)] * row[g[0]] == tt[g[0] | (b << nl)] * row[a];
          if (prop) {
            g.push_back(a);
            placed = true;
            break;
          }
        }
      if (!placed) groups.push_back({a});
    }
    if (!zero.empty()) {
      if (o.compressed) groups.push_back(zero);
      else
        for (size_t a : zero) groups.push_back({a});
    }
    std::vector<PsddNode *> primes, subs;
    std::vector<PsddParameter> params;
    for (auto &g : groups) {
      Table pt(L, 0), st(R, 0);
      double wgt = 0;
      bool z = row[g[0]] == 0;
      for (size_t a : g) {
        pt[a] = z ? 1 : row[a];
        wgt += row[a];
      }
      for (size_t b = 0; b < R; b++) st[b] = z ? 1 : tt[g[0] | (b << nl)];
      primes.push_back(build_rec(m, w->l, labels, pt, plain));  // exact support
      subs.push_back(z ? build_rec(m, w->r, labels, st, plain) : rec(w->r, st));
      params.push_back(PsddParameter::CreateFromDecimal(wgt / tot));
    }
    if (o.reversed) {
      std::reverse(primes.begin(), primes.end());
      std::reverse(subs.begin(), subs.end());
      std::reverse(params.begin(), params.end());
    }
    return m->GetConformedPsddDecisionNode(primes, subs, params, o.flag);
  };
  return rec(v, q);
}

bool Assign::value(uint32_t label) const {
  for (size_t i = 0; i < labels->size(); i++)
    if ((uint32_t)(*labels)[i] == label) return bits >> i & 1;
  fail("foreign-variable", "circuit mentions variable %u, which is not in the vtree", label);
}

long double prob(PsddNode *n, const Assign &a) {
  if (n->node_type() == LITERAL_NODE_TYPE) {
    PsddLiteralNode *l = n->psdd_literal_node();
    return a.value(l->variable_index()) == l->sign() ? 1.0L : 0.0L;
  }
  if (n->node_type() == TOP_NODE_TYPE) {
    PsddTopNode *t = n->psdd_top_node();
    return expl(a.value(t->variable_index()) ? t->true_parameter().parameter() : t->false_parameter().parameter());
  }
  PsddDecisionNode *d = n->psdd_decision_node();
  long double s = 0;
  for (size_t i = 0; i < d->primes().size(); i++) {
    long double p = expl(d->parameters()[i].parameter());
    if (p == 0) continue;
    long double q = prob(d->primes()[i], a);
    if (q == 0) continue;
    s += p * q * prob(d->subs()[i], a);
  }
  return s;
}
bool models(PsddNode *n, const Assign &a) {
  if (n->node_type() == LITERAL_NODE_TYPE) {
    PsddLiteralNode *l = n->psdd_literal_node();
    return a.value(l->variable_index()) == l->sign();
  }
  if (n->node_type() == TOP_NODE_TYPE) {
    a.value(n->psdd_top_node()->variable_index());
    return true;
  }
  PsddDecisionNode *d = n->psdd_decision_node();
  for (size_t i = 0; i < d->primes().size(); i++)
    if (models(d->primes()[i], a) && models(d->subs()[i], a)) return true;
  return false;
}
Table table_of(PsddNode *n, const Labels &labels) {
  Table t(size_t(1) << labels.size());
  for (size_t x = 0; x < t.size(); x++) t[x] = (double)prob(n, Assign{&labels, (unsigned)x});
  return t;
}
std::vector<PsddNode *> reachable(PsddNode *root) {
  std::vector<PsddNode *> out;
  std::unordered_set<PsddNode *> seen;
  std::function<void(PsddNode *)> go = [&](PsddNode *n) {
    if (!seen.insert(n).second) return;
    out.push_back(n);
    if (n->node_type() == DECISION_NODE_TYPE) {
      for (auto p : n->psdd_decision_node()->primes()) go(p);
      for (auto p : n->psdd_decision_node()->subs()) go(p);
    }
  };
  go(root);
  return out;
}
void check_wellformed(PsddNode *n, Vtree *v, long flag, const char *what) {
  std::set<std::pair<PsddNode *, Vtree *>> seen;
  std::function<void(PsddNode *, Vtree *)> go = [&](PsddNode *x, Vtree *w) {
    if (!seen.insert({x, w}).second) return;
    if (x == nullptr) fail("malformed", "%s: null child", what);
    if (x->vtree_node() != w)
      fail("malformed", "%s: node sits at vtree %s instead of %s", what, str(x->vtree_node()).c_str(), str(w).c_str());
    if (flag >= 0 && x->flag_index() != (uintmax_t)flag)
      fail("flag", "%s: node has flag %ju instead of %ld", what, x->flag_index(), flag);
    if (x->node_type() == DECISION_NODE_TYPE) {
      if (sdd_vtree_is_leaf(w)) fail("malformed", "%s: decision at a leaf", what);
      PsddDecisionNode *d = x->psdd_decision_node();
      size_t k = d->primes().size();
      if (k == 0 || d->subs().size() != k || d->parameters().size() != k)
        fail("malformed", "%s: decision with %zu primes %zu subs %zu parameters", what, k, d->subs().size(),
             d->parameters().size());
      for (size_t i = 0; i < k; i++) {
        go(d->primes()[i], sdd_vtree_left(w));
        go(d->subs()[i], sdd_vtree_right(w));
      }
    } else {
      if (!sdd_vtree_is_leaf(w)) fail("malformed", "%s: leaf node at internal vtree", what);
      uint32_t var = x->node_type() == LITERAL_NODE_TYPE ? x->psdd_literal_node()->variable_index()
                                                         : x->psdd_top_node()->variable_index();
      if ((SddLiteral)var != sdd_vtree_var(w))
        fail("malformed", "%s: leaf node for variable %u at the vtree leaf of %ld", what, var, sdd_vtree_var(w));
    }
  };
  go(n, v);
}
void check_normalized(PsddNode *n, const char *what, double tol) {
  for (PsddNode *x : reachable(n)) {
    long double s = 0;
    if (x->node_type() == LITERAL_NODE_TYPE) continue;
    if (x->node_type() == TOP_NODE_TYPE)
      s = expl(x->psdd_top_node()->true_parameter().parameter()) +
          expl(x->psdd_top_node()->false_parameter().parameter());
    else
      for (auto &p : x->psdd_decision_node()->parameters()) s += expl(p.parameter());
    if (!(fabsl(s - 1) <= tol)) fail("unnormalized", "%s: parameters of a node sum to %.12Lg", what, s);
  }
}
void check_deterministic(PsddNode *n, const Labels &labels, const char *what) {
  for (PsddNode *x : reachable(n)) {
    if (x->node_type() != DECISION_NODE_TYPE) continue;
    auto &pr = x->psdd_decision_node()->primes();
    for (unsigned b = 0; b < (1u << labels.size()); b++) {
      int k = 0;
      for (auto p : pr) k += models(p, Assign{&labels, b});
      if (k > 1) fail("overlapping-primes", "%s: %d primes of one decision hold at once", what, k);
    }
  }
}
std::string str(PsddNode *n) {
  if (!n) return "false";
  char b[96];
  if (n->node_type() == LITERAL_NODE_TYPE) return std::to_string(n->psdd_literal_node()->literal());
  if (n->node_type() == TOP_NODE_TYPE) {
    auto t = n->psdd_top_node();
    snprintf(b, sizeof b, "T%u{%.6g,%.6g}", t->variable_index(), exp(t->false_parameter().parameter()),
             exp(t->true_parameter().parameter()));
    return b;
  }
  auto d = n->psdd_decision_node();
  std::vector<std::string> es;
  for (size_t i = 0; i < d->primes().size(); i++) {
    snprintf(b, sizeof b, ":%.6g", exp(d->parameters()[i].parameter()));
    es.push_back(str(d->primes()[i]) + "." + str(d->subs()[i]) + b);
  }
  std::sort(es.begin(), es.end());
  std::string s = "[";
  for (size_t i = 0; i < es.size(); i++) s += (i ? " | " : "") + es[i];
  return s + "]";
}
static uint64_t qlog(double lp) {
  if (lp < -1e17) return 0xdead;
  return (uint64_t)(int64_t)llround(lp * 1e5);
}
uint64_t fingerprint(PsddNode *n) {
  if (!n) return 0x1234;
  std::map<PsddNode *, uint64_t> memo;
  std::function<uint64_t(PsddNode *)> go = [&](PsddNode *x) -> uint64_t {
    auto it = memo.find(x);
    if (it != memo.end()) return it->second;
    uint64_t h = mc::mix(x->node_type(), x->flag_index());
    if (x->node_type() == LITERAL_NODE_TYPE)
      h = mc::mix(h, (uint64_t)x->psdd_literal_node()->literal());
    else if (x->node_type() == TOP_NODE_TYPE) {
      h = mc::mix(h, x->psdd_top_node()->variable_index());
      h = mc::mix(h, qlog(x->psdd_top_node()->true_parameter().parameter()));
      h = mc::mix(h, qlog(x->psdd_top_node()->false_parameter().parameter()));
    } else {
      auto d = x->psdd_decision_node();
      uint64_t s = 0;
      for (size_t i = 0; i < d->primes().size(); i++)
        s += mc::mix(mc::mix(go(d->primes()[i]), go(d->subs()[i])), qlog(d->parameters()[i].parameter()));
      h = mc::mix(h, s);
    }
    memo[x] = h;
    return h;
  };
  return go(n);
}

void Snapshot::take(PsddNode *root) {
  if (!root) return;
  for (PsddNode *x : reachable(root)) {
    N n{};
    n.type = x->node_type();
    n.v = x->vtree_node();
    n.index = x->node_index();
    n.flag = x->flag_index();
    n.user = x->user_data();
    n.act = x->activation_flag();
    if (n.type == LITERAL_NODE_TYPE)
      n.lit = x->psdd_literal_node()->literal();
    else if (n.type == TOP_NODE_TYPE) {
      n.var = x->psdd_top_node()->variable_index();
      n.a = x->psdd_top_node()->true_parameter().parameter();
      n.b = x->psdd_top_node()->false_parameter().parameter();
    } else {
      n.primes = x->psdd_decision_node()->primes();
      n.subs = x->psdd_decision_node()->subs();
      for (auto &p : x->psdd_decision_node()->parameters()) n.params.push_back(p.parameter());
    }
    nodes.push_back({x, n});
  }
}
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
void Snapshot::check(const char *sig, bool scratch_too) const {
  for (auto &pr : nodes) {
    PsddNode *x = pr.first;
    const N &n = pr.second;
    bool ok = x->node_type() == n.type && x->vtree_node() == n.v && x->node_index() == n.index &&
              x->flag_index() == n.flag;
    if (ok) {
      if (n.type == LITERAL_NODE_TYPE)
        ok = x->psdd_literal_node()->literal() == n.lit;
      else if (n.type == TOP_NODE_TYPE)
        ok = x->psdd_top_node()->variable_index() == n.var &&
             same(x->psdd_top_node()->true_parameter().parameter(), n.a) &&
             same(x->psdd_top_node()->false_parameter().parameter(), n.b);
      else {
        auto d = x->psdd_decision_node();
        ok = d->primes() == n.primes && d->subs() == n.subs && d->parameters().size() == n.params.size();
        for (size_t i = 0; ok && i < n.params.size(); i++) ok = same(d->parameters()[i].parameter(), n.params[i]);
      }
    }
    if (!ok) fail(sig, "a node that should be unchanged was changed (now %s)", str(x).c_str());
    if (scratch_too) {
      if (x->user_data() != n.user) fail(sig, "scratch data left on a node after the operation");
      if (x->activation_flag() != n.act) fail(sig, "activation flag left on a node after the operation");
    }
  }
}

bool close(double a, double b, double rel, double abs) {
  if (a == b) return true;
  return fabs(a - b) <= abs + rel * std::max(fabs(a), fabs(b));
}
bool close_log(double a, double b, double tol) {
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return fabs(a - b) <= tol;
}
std::bitset<MAX_VAR> &zero_bits() {
  static std::bitset<MAX_VAR> z;
  return z;
}
void set_bits(std::bitset<MAX_VAR> *b, const Labels &labels, unsigned bits) {
  for (size_t i = 0; i < labels.size(); i++) (*b)[labels[i]] = bits >> i & 1;
}
Table choose_table(Chooser &c, int n, const std::vector<double> &alphabet, bool nonzero) {
  Table t(size_t(1) << n);
  bool any = false;
  for (auto &x : t) {
    x = alphabet[c.choose((int)alphabet.size(), "")];
    any |= x > 0;
  }
  if (nonzero && !any) c.skip();
  return t;
}
std::string str(const Table &t) {
  std::string s = "{";
  char b[32];
  for (size_t i = 0; i < t.size(); i++) {
    snprintf(b, sizeof b, "%s%g", i ? "," : "", t[i]);
    s += b;
  }
  return s + "}";
}
std::string str(const Labels &l) {
  std::string s = "<";
  for (size_t i = 0; i < l.size(); i++) s += (i ? "," : "") + std::to_string(l[i]);
  return s + ">";
}
}  // namespace ref
