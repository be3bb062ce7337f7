// C16  vtree utilities
#include <algorithm>

#include "family.h"
using namespace ref;

namespace {
struct VSnap {
  struct N {
    Vtree *v, *l, *r, *p;
    long var, pos, count;
    void *data;
  };
  std::vector<N> all;
  static void nodes(Vtree *v, std::vector<Vtree *> &out) {
    std::vector<Vtree *> st{v};
    while (!st.empty()) {
      Vtree *x = st.back();
      st.pop_back();
      out.push_back(x);
      if (!sdd_vtree_is_leaf(x)) {
        st.push_back(sdd_vtree_right(x));
        st.push_back(sdd_vtree_left(x));
      }
    }
  }
  static N of(Vtree *v) {
    bool lf = sdd_vtree_is_leaf(v);
    return N{v, lf ? nullptr : sdd_vtree_left(v), lf ? nullptr : sdd_vtree_right(v), sdd_vtree_parent(v), lf ? (long)sdd_vtree_var(v) : 0L, (long)sdd_vtree_position(v), (long)sdd_vtree_var_count(v), sdd_vtree_data(v)};
  }
  explicit VSnap(Vtree *root) {
    std::vector<Vtree *> ns;
    nodes(root, ns);
    for (auto v : ns) all.push_back(of(v));
  }
  void check(const char *what) const {
    for (auto &n : all) {
      N m = of(n.v);
      MC_CHECK(n.l == m.l && n.r == m.r && n.p == m.p && n.var == m.var && n.pos == m.pos && n.count == m.count, "input-changed", "%s changed the vtree it was given", what);
      MC_CHECK(n.data == m.data, "input-data", "%s left data in the vtree it was given", what);
    }
  }
};
// position, parents, counts of a fresh vtree: an in-order numbering from 0
void check_fresh(Vtree *v, const char *what) {
  MC_CHECK(sdd_vtree_parent(v) == nullptr, "properties", "%s: the root has a parent", what);
  long pos = 0;
  std::function<long(Vtree *)> rec = [&](Vtree *x) -> long {
    MC_CHECK(sdd_vtree_data(x) == nullptr, "properties", "%s: data in the new vtree", what);
    if (sdd_vtree_is_leaf(x)) {
      MC_CHECK(sdd_vtree_position(x) == pos++, "properties", "%s: leaf position", what);
      MC_CHECK(sdd_vtree_var_count(x) == 1, "properties", "%s: leaf count", what);
      return 1;
    }
    MC_CHECK(sdd_vtree_parent(sdd_vtree_left(x)) == x && sdd_vtree_parent(sdd_vtree_right(x)) == x, "properties", "%s: parent of a child", what);
    long a = rec(sdd_vtree_left(x));
    MC_CHECK(sdd_vtree_position(x) == pos++, "properties", "%s: position of an inner node", what);
    long b = rec(sdd_vtree_right(x));
    MC_CHECK((long)sdd_vtree_var_count(x) == a + b, "properties", "%s: variable count", what);
    return a + b;
  };
  rec(v);
}
VTP project(const VTP &v, unsigned keep) {
  if (v->leaf()) return (keep >> v->var) & 1 ? v : nullptr;
  VTP l = project(v->l, keep), r = project(v->r, keep);
  if (l && r) return inode(l, r);
  return l ? l : r;
}
unsigned mask_of(const VTP &v) {
  unsigned m = 0;
  for (int x : leaves(v)) m |= 1u << x;
  return m;
}
void disjoint(Vtree *fresh, const VSnap &in, const char *what) {
  std::vector<Vtree *> ns;
  VSnap::nodes(fresh, ns);
  std::unordered_set<Vtree *> mine(ns.begin(), ns.end());
  for (auto &n : in.all) MC_CHECK(!mine.count(n.v), "shares", "%s returned nodes of its input", what);
}

// one vtree node (the root or any node below it): every operation
void traversals(Chooser &c, Vtree *at, const VTP &v, const Labels &labels) {
  VSnap s(at);
  std::vector<Vtree *> ser = vtree_util::SerializeVtree(at);
  c.op();
  MC_CHECK(ser.size() == s.all.size(), "serialize", "%zu of %zu nodes listed", ser.size(), s.all.size());
  std::map<Vtree *, size_t> at_index;
  for (size_t i = 0; i < ser.size(); i++) MC_CHECK(at_index.emplace(ser[i], i).second, "serialize", "a node is listed twice");
  for (auto &n : s.all) {
    MC_CHECK(at_index.count(n.v), "serialize", "a node is missing");
    if (n.l) MC_CHECK(at_index.at(n.v) < at_index.at(n.l) && at_index.at(n.v) < at_index.at(n.r), "serialize", "a child is listed before its parent");
  }
  std::vector<int> lv = leaves(v);
  std::vector<SddLiteral> want;
  for (int x : lv) want.push_back(labels[x]);
  std::vector<SddLiteral> ltr = vtree_util::LeftToRightLeafTraverse(at);
  c.op();
  MC_CHECK(ltr == want, "left-to-right", "leaves are not listed from left to right");
  std::vector<SddLiteral> under = vtree_util::VariablesUnderVtree(at);
  c.op();
  std::sort(under.begin(), under.end());
  std::sort(want.begin(), want.end());
  MC_CHECK(under == want, "variables-under", "wrong variables under a vtree");
  s.check("a traversal");
}
void copies(Chooser &c, Vtree *at, const VTP &v, const Labels &labels, const Labels &other) {
  VSnap s(at);
  Vtree *w = vtree_util::CopyVtree(at);
  c.op();
  MC_CHECK(w && same_shape(w, v, labels), "copy", "the copy is %s", w ? str(w).c_str() : "nothing");
  check_fresh(w, "copy");
  disjoint(w, s, "copy");
  s.check("copying");
  std::unordered_map<SddLiteral, SddLiteral> m;
  for (size_t i = 0; i < labels.size(); i++) m[labels[i]] = other[i];
  Vtree *x = vtree_util::CopyVtree(at, m);
  c.op();
  MC_CHECK(x && same_shape(x, v, other), "rename", "the renamed copy is %s", x ? str(x).c_str() : "nothing");
  check_fresh(x, "renamed copy");
  disjoint(x, s, "renamed copy");
  s.check("renaming");
  for (auto &n : VSnap(w).all) (void)n;
  sdd_vtree_free(w);
  MC_CHECK(same_shape(x, v, other), "rename", "freeing the copy changed the renamed copy");
  sdd_vtree_free(x);
  s.check("freeing the copies");
}
void subset(Chooser &c, Vtree *root, const VTP &v, const Labels &labels, unsigned keep, int order) {
  VSnap s(root);
  std::vector<SddLiteral> vars;
  for (size_t i = 0; i < labels.size(); i++)
    if ((keep >> i) & 1) vars.push_back(labels[i]);
  if (order == 1) std::reverse(vars.begin(), vars.end());
  if (order == 2) vars.push_back(vars[0]);  // asked for twice
  if (order == 3) vars.push_back(labels.size() >= 2 ? 60000 : 60001);  // in no leaf
  VTP want = project(v, keep);
  Vtree *w = vtree_util::ProjectVtree(root, vars);
  c.op();
  MC_CHECK(w && same_shape(w, want, labels), "project", "projection of %s on %x is %s", str(v).c_str(), keep, w ? str(w).c_str() : "nothing");
  check_fresh(w, "projection");
  disjoint(w, s, "projection");
  s.check("projecting");
  sdd_vtree_free(w);
  std::unordered_set<SddLiteral> set(vars.begin(), vars.end());
  Vtree *f = vtree_util::SubVtreeByVariables(root, set);
  c.op();
  s.check("searching");
  Vtree *expect = nullptr;
  if (order != 3) {
    std::vector<VTP> all;
    internal_and_leaves(v, all);
    for (auto &x : all)
      if (mask_of(x) == keep) {
        Vtree *p = root;
        // walk down by variables
        while ((unsigned)sdd_vtree_var_count(p) != (unsigned)__builtin_popcount(keep)) {
          bool inl = false;
          for (int y : leaves(x)) {
            std::vector<Vtree *> ns;
            VSnap::nodes(sdd_vtree_left(p), ns);
            for (auto z : ns)
              if (sdd_vtree_is_leaf(z) && sdd_vtree_var(z) == labels[y]) inl = true;
          }
          p = inl ? sdd_vtree_left(p) : sdd_vtree_right(p);
        }
        expect = p;
      }
  }
  MC_CHECK(f == expect, "sub-vtree", "search for %x in %s: %s", keep, str(v).c_str(), f ? (expect ? "another node" : "found although no node has exactly these variables") : "not found");
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  int nmax = thorough ? 7 : 6;
  // every vtree, every node of it, every subset
  mc::add("all", [=](Chooser &c) {
    int n = 1 + c.choose(nmax, "n");
    VTP v = choose_vtree(c, n);
    Labels labels = n <= 3 ? labels_kind(c.choose(label_kinds(), "labels"), n) : labels_kind(2, n);
    Labels other = labels_kind((int)(v->leaf() ? 1 : leaves(v)[0] % label_kinds()), n);
    Vtree *root = to_sdd(v, labels);
    c.describef("vtree %s labels %s", str(v).c_str(), str(labels).c_str());
    std::vector<VTP> all;
    internal_and_leaves(v, all);
    for (auto &x : all) {
      Vtree *at = locate(root, v, x);
      VSnap whole(root);
      traversals(c, at, x, labels);
      copies(c, at, x, labels, other);
      unsigned m = mask_of(x);
      for (unsigned keep = 1; keep < (1u << n); keep++) {
        if ((keep & m) == 0) continue;
        if ((keep & ~m) == 0)
          subset(c, at, x, labels, keep, (int)(keep % 4));
        else if (x != v) {
          // a projection of a part on variables some of which lie elsewhere
          std::vector<SddLiteral> vars;
          for (int i = 0; i < n; i++)
            if ((keep >> i) & 1) vars.push_back(labels[i]);
          Vtree *w = vtree_util::ProjectVtree(at, vars);
          c.op();
          VTP want = project(x, keep & m);
          MC_CHECK(same_shape(w, want, labels), "project", "projection of the part %s on %x is %s", str(x).c_str(), keep, str(w).c_str());
          sdd_vtree_free(w);
          MC_CHECK(vtree_util::SubVtreeByVariables(at, std::unordered_set<SddLiteral>(vars.begin(), vars.end())) == nullptr, "sub-vtree", "found a node of a part for variables some of which lie elsewhere");
        }
        c.state(mc::mix(mc::hash_str(str(x)), keep));
      }
      whole.check("an operation on a part");
    }
    // a projection / copy can be used as input again
    Vtree *p = vtree_util::CopyVtree(root);
    Vtree *q = vtree_util::CopyVtree(p);
    MC_CHECK(same_shape(q, v, labels), "copy", "copy of a copy");
    sdd_vtree_free(p);
    sdd_vtree_free(q);
    sdd_vtree_free(root);
  });
  // large ones: chains and balanced trees, subsets given by residues
  auto large = [=](Chooser &c, bool giant) {
    static const std::vector<int> sizes{31, 64, 200};
    int shape = c.choose(3, "shape"), n = !giant ? c.pick(sizes, "n") : shape == 2 ? 33000 : 1500;
    VTP v = named_shape(shape, n);
    Labels labels = c.choose(2, "labels") ? labels_kind(1, n) : dense(n);
    int period = giant ? 1 + c.choose(2, "period") * 2 : 1 + c.choose(4, "period"), from = c.choose(giant ? 2 : n > 100 ? 3 : 5, "from"), len = c.choose(3, "length");
    Vtree *root = to_sdd(v, labels);
    c.describef("shape %d n %d period %d from %d length %d", shape, n, period, from, len);
    traversals(c, root, v, labels);
    copies(c, root, v, labels, labels_kind(1, n));
    std::vector<SddLiteral> vars;
    std::set<int> keep;
    int last = len == 0 ? n : len == 1 ? n / 2 : from + 1;
    for (int i = from; i < last; i += period) keep.insert(i);
    for (int i : keep) vars.push_back(labels[i]);
    std::function<VTP(const VTP &)> proj = [&](const VTP &x) -> VTP {
      if (x->leaf()) return keep.count(x->var) ? x : nullptr;
      VTP l = proj(x->l), r = proj(x->r);
      return l && r ? inode(l, r) : l ? l : r;
    };
    VTP want = proj(v);
    VSnap s(root);
    Vtree *w = vtree_util::ProjectVtree(root, vars);
    c.op();
    MC_CHECK(w && same_shape(w, want, labels), "project", "wrong projection");
    check_fresh(w, "projection");
    s.check("projecting");
    sdd_vtree_free(w);
    Vtree *f = vtree_util::SubVtreeByVariables(root, std::unordered_set<SddLiteral>(vars.begin(), vars.end()));
    c.op();
    s.check("searching");
    Vtree *expect = nullptr;
    for (auto &x : s.all) {
      std::vector<SddLiteral> u;
      if (x.count != (long)vars.size()) continue;
      std::vector<Vtree *> ns;
      VSnap::nodes(x.v, ns);
      bool all = true;
      for (auto y : ns)
        if (sdd_vtree_is_leaf(y)) all &= std::find(vars.begin(), vars.end(), sdd_vtree_var(y)) != vars.end();
      if (all) expect = x.v;
    }
    MC_CHECK(f == expect, "sub-vtree", "search in a large vtree");
    c.state(mc::mix(mc::mix(n, shape), mc::mix(period, mc::mix(from, len))));
    sdd_vtree_free(root);
  };
  mc::add("large", [=](Chooser &c) { large(c, false); });
  mc::add("giant", [=](Chooser &c) { large(c, true); });
}
