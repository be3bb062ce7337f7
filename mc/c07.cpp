// C07  parameter learning from complete data
#include "family.h"
#include "match.h"
using namespace ref;

namespace {
using Examples = std::unordered_map<int32_t, BatchedPsddValue>;

Examples to_examples(const std::vector<unsigned> &rows, const Labels &labels) {
  Examples e;
  for (size_t k = 0; k < labels.size(); k++) {
    BatchedPsddValue v(rows.size());
    for (size_t i = 0; i < rows.size(); i++) v[i] = rows[i] >> k & 1;
    e[labels[k]] = v;
  }
  return e;
}
struct Counts {
  std::map<PsddNode *, std::vector<uint64_t>> at;
  void row(PsddNode *n, const Assign &a) {
    if (n->node_type() == LITERAL_NODE_TYPE) return;
    auto &v = at[n];
    if (n->node_type() == TOP_NODE_TYPE) {
      v.resize(2);
      v[a.value(n->psdd_top_node()->variable_index())]++;
      return;
    }
    auto d = n->psdd_decision_node();
    v.resize(d->primes().size());
    for (size_t i = 0; i < d->primes().size(); i++)
      if (models(d->primes()[i], a) && models(d->subs()[i], a)) {
        v[i]++;
        row(d->primes()[i], a);
        row(d->subs()[i], a);
      }
  }
};
void compare(Chooser &c, double got, double cnt, double alpha, double tot, size_t branches, const char *what) {
  c.op();
  if (tot + alpha * branches == 0) return;  // only normalisation is asked for
  double want = (cnt + alpha) / (tot + alpha * branches);
  double e = exp(got);
  MC_CHECK(want == 0 ? e == 0 : close(e, want, 1e-6, 0), "count", "%s: parameter %.12g, should be (%g+%g)/(%g+%zu*%g) = %.12g", what, e, cnt, alpha, tot,
           branches, alpha, want);
}
void verify(Chooser &c, PsddNode *structure, PsddNode *got, const Labels &labels, const std::vector<unsigned> &rows, double alpha, uintmax_t flag,
            Vtree *at) {
  MC_CHECK(got != nullptr, "missing", "learning returned nothing");
  check_wellformed(got, at, (long)flag, "learned model");
  check_normalized(got, "learned model");
  Counts cn;
  for (unsigned r : rows) cn.row(structure, Assign{&labels, r});
  // learned nodes may be shared by several structure nodes: check every pair
  Matcher m{labels, "structure"};
  m.hook = [&](PsddNode *a, PsddNode *b, const std::vector<size_t> &order) {
    if (a->node_type() == LITERAL_NODE_TYPE) return;
    auto &v = cn.at[a];
    if (a->node_type() == TOP_NODE_TYPE) {
      v.resize(2);
      double tot = (double)(v[0] + v[1]);
      compare(c, log_false(b), (double)v[0], alpha, tot, 2, "free variable, false");
      compare(c, log_true(b), (double)v[1], alpha, tot, 2, "free variable, true");
      return;
    }
    v.resize(order.size());
    double tot = 0;
    for (auto x : v) tot += (double)x;
    for (size_t i = 0; i < order.size(); i++) compare(c, log_param(b, order[i]), (double)v[i], alpha, tot, order.size(), "decision element");
  };
  m.run(structure, got);
}
PsddParameter A(double a) { return PsddParameter::CreateFromDecimal(a); }
// learn, learn again, learn after other data
void learn_all(Chooser &c, PsddManager *m, PsddNode *s, const Labels &labels, const std::vector<unsigned> &rows, double alpha, uintmax_t flag,
               bool other_first) {
  Snapshot snap;
  snap.take(s);
  Examples ex = to_examples(rows, labels), keep = ex;
  if (other_first) {
    std::vector<unsigned> o;
    for (unsigned x = 0; x < (1u << labels.size()); x++) o.push_back(x);
    o.insert(o.end(), rows.rbegin(), rows.rend());
    m->LearnPsddParameters(s, to_examples(o, labels), o.size(), A(0.25), 77);
  }
  PsddNode *r = m->LearnPsddParameters(s, ex, rows.size(), A(alpha), flag);
  MC_CHECK(ex == keep, "data-changed", "learning changed the examples");
  snap.check("structure-changed", false);
  verify(c, s, r, labels, rows, alpha, flag, s->vtree_node());
  PsddNode *r2 = m->LearnPsddParameters(s, ex, rows.size(), A(alpha), flag);
  MC_CHECK(r2 == r, "repeat", "learning again from the same data gives %s instead of %s", str(r2).c_str(), str(r).c_str());
  c.op();
  c.state(fingerprint(r));
}
BuildOptions form(int k) {
  BuildOptions o;
  o.compressed = k != 1;
  o.explicit_zero = k == 2;
  return o;
}
std::vector<unsigned> choose_rows(Chooser &c, int n, int maxlen) {
  int len = c.choose(maxlen + 1, "rows");
  std::vector<unsigned> r;
  for (int i = 0; i < len; i++) r.push_back(c.choose(1 << n, "row"));
  return r;
}
std::string rows_str(const std::vector<unsigned> &r) {
  std::string s = "rows";
  for (unsigned x : r) s += " " + std::to_string(x);
  return s;
}
void data1(Chooser &c) {
  Labels l = choose_labels(c, 1);
  Table t = choose_table(c, 1, {0, 1});
  ManagerPtr m(make_manager(leaf(0), l));
  PsddNode *s = build(m.get(), leaf(0), l, t, form(c.choose(3, "form")));
  auto rows = choose_rows(c, 1, 4);
  static const double al[] = {0, 1, 0.5, 1e-3, 100};
  learn_all(c, m.get(), s, l, rows, al[c.choose(5, "alpha")], c.choose(2, "flag"), c.flip("other first"));
}
void data2(Chooser &c) {
  VTP v = choose_vtree(c, 2);
  Table t = choose_table(c, 2, {0, 1});
  Labels l = labels_kind(c.flip("sparse") ? 2 : 0, 2);
  ManagerPtr m(make_manager(v, l));
  PsddNode *s = build(m.get(), v, l, t, form(c.choose(3, "form")));
  static const double al[] = {1, 0, 0.5};
  double alpha = al[c.choose(3, "alpha")];
  auto rows = choose_rows(c, 2, 3);
  if (c.describing()) c.describe("\nstructure " + str(s) + " alpha " + std::to_string(alpha) + " " + rows_str(rows));
  learn_all(c, m.get(), s, l, rows, alpha, 2, c.thorough() ? c.flip("other first") : rows.size() % 2);
}
void data3(Chooser &c) {
  VTP v = choose_shape(c, {0, 1, 2});
  int form_k = c.thorough() ? c.choose(3, "form") : c.choose(2, "form");
  Table t = choose_table(c, 3, {0, 1});
  Labels l = dense(3);
  ManagerPtr m(make_manager(v, l));
  PsddNode *s = build(m.get(), v, l, t, form(form_k));
  double alpha = c.flip("alpha0") ? 0 : 1;
  auto rows = choose_rows(c, 3, c.thorough() ? 3 : 2);
  if (c.describing()) c.describe("\nstructure " + str(s) + " alpha " + std::to_string(alpha) + " " + rows_str(rows));
  learn_all(c, m.get(), s, l, rows, alpha, 0, rows.size() == 1);
}
// structures straight from a conversion, every parameter one; data holding every assignment k(x) times
void weights3(Chooser &c) {
  VTP v = choose_shape(c, {0, 1, 2, 3});
  Labels l = dense(4);
  ManagerPtr m(make_manager(v, l));
  static const std::vector<std::vector<std::vector<SddLiteral>>> cnfs = {
      {}, {{1, 2}}, {{1, 2}, {-3, 4}}, {{1, -2}, {2, -3}, {3, -4}}, {{1, 2, 3, 4}, {-1, -2, -3, -4}}, {{1, 3}, {-1, -3}, {2, 4}}, {{-1}, {2, 4}}};
  CNF cnf(c.pick(cnfs, "cnf"));
  PsddNode *s = cnf.Compile(m.get(), 1);
  int pat = c.choose(8, "pattern");
  std::vector<unsigned> rows;
  for (unsigned x = 0; x < 16; x++)
    for (unsigned k = 0; k < (pat == 0 ? 1u : (x * (pat + 2) + pat) % (pat + 3)); k++) rows.push_back(x);
  c.describef("%zu rows, pattern %d", rows.size(), pat);
  learn_all(c, m.get(), s, l, rows, pat % 2 ? 0.5 : 1, 0, pat % 3 == 0);
}
void sizes(Chooser &c) {
  static const int q[] = {0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537};
  int n = c.thorough() ? c.choose(1400, "size") : q[c.choose(32, "size")];
  if (c.thorough() && n >= 1368) n = q[n - 1368];
  VTP v = choose_shape(c, {0, 1, 2});
  Labels l = dense(3);
  ManagerPtr m(make_manager(v, l));
  Table t(8, 1);
  int kind = c.choose(3, "support");
  if (kind == 1) t[3] = t[6] = 0;
  if (kind == 2) t[0] = t[7] = t[5] = 0;
  PsddNode *s = build(m.get(), v, l, t, form(1));
  int pat = c.choose(2, "pattern");
  std::vector<unsigned> rows(n);
  for (int i = 0; i < n; i++) rows[i] = pat ? (unsigned)(i == n - 1 ? 7 : (unsigned)i * (unsigned)i % 7u) : (unsigned)(i * 5 % 8);
  c.describef("%d rows, support %d pattern %d", n, kind, pat);
  learn_all(c, m.get(), s, l, rows, 1, 0, false);
}
// nearly every example takes the same value and the same branch
void skewed(Chooser &c) {
  static const int q[] = {254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 65540, 70000, 131073};
  static const int t[] = {1 << 20, (1 << 20) + 1, 500000, (1 << 24) + 3};
  int k = c.choose(c.thorough() ? 17 : 13, "size");
  int n = k < 13 ? q[k] : t[k - 13];
  bool three = c.flip("three");
  VTP v = three ? choose_shape(c, {0, 1, 2}) : named_shape(0, 2);
  int nv = three ? 3 : 2;
  Labels l = dense(nv);
  ManagerPtr m(make_manager(v, l));
  PsddNode *s;
  int kind = c.choose(3, "structure");
  if (kind == 0) {
    s = m->GetTrueNode(m->vtree(), 0);
  } else {
    Table tb(1u << nv, 1);
    if (kind == 2) tb[0] = 0;
    s = build(m.get(), v, l, tb, form(1));
  }
  unsigned major = c.choose(1 << nv, "major");
  if (three && major != 0 && major != 7 && major != 5) c.skip();
  if (k >= 13 && (major % 3 || three)) c.skip();
  int minors = c.choose(2, "minors");
  std::vector<unsigned> rows(n, major);
  for (int i = 0; i < (minors ? 1 << nv : 1); i++) rows[n - 1 - i * (n / 16)] = (major + 1 + i) % (1u << nv);
  c.describef("%d rows, structure %d, mostly %u", n, kind, major);
  learn_all(c, m.get(), s, l, rows, 1, 0, false);
}
// two structures sharing nodes, learned in turn; learning into another manager of the same vtree
void shared(Chooser &c) {
  VTP v = choose_shape(c, {0, 1, 2});
  Labels l = dense(3);
  ManagerPtr m(make_manager(v, l)), m2(make_manager(v, l));
  Table a(8, 0), b(8, 0);
  int pa = 1 + c.choose(51, "a") * 5, pb = 1 + c.choose(17, "b") * 15;
  for (int x = 0; x < 8; x++) {
    a[x] = pa >> x & 1;
    b[x] = pb >> x & 1;
  }
  PsddNode *p = build(m.get(), v, l, a, form(0)), *q = build(m.get(), v, l, b, form(0));
  std::vector<unsigned> ra, rb;
  for (unsigned x = 0; x < 8; x++) {
    for (unsigned k = 0; k < x % 3; k++) ra.push_back(x);
    for (unsigned k = 0; k < (x * 3) % 4; k++) rb.push_back(x);
  }
  int seq = c.choose(4, "sequence");
  PsddManager *tgt = seq == 3 ? m2.get() : m.get();
  auto L = [&](PsddNode *s, const std::vector<unsigned> &r) { return tgt->LearnPsddParameters(s, to_examples(r, l), r.size(), A(1), 0); };
  PsddNode *x = L(p, ra);
  if (seq == 1) L(q, ra);
  PsddNode *y = L(q, rb);
  if (seq == 2) {
    // structure of the result of a previous run
    PsddNode *z = L(x, rb);
    verify(c, x, z, l, rb, 1, 0, tgt->vtree());
  }
  verify(c, p, x, l, ra, 1, 0, tgt->vtree());
  verify(c, q, y, l, rb, 1, 0, tgt->vtree());
  MC_CHECK(L(p, ra) == x && L(q, rb) == y, "repeat", "learning again gives another node");
  c.state(mc::mix(fingerprint(x), fingerprint(y)));
}
void wide(Chooser &c) {
  Wide w = choose_wide(c);
  std::vector<unsigned> rows;
  int pat = c.choose(2, "rows");
  for (unsigned i = 0; i < 900; i++) rows.push_back(pat ? (i * 37) % (1u << w.labels.size()) : (i * i) % (1u << w.labels.size()));
  Examples ex = to_examples(rows, w.labels);
  PsddNode *r = w.manager->LearnPsddParameters(w.node, ex, rows.size(), A(0.5), 0);
  verify(c, w.node, r, w.labels, rows, 0.5, 0, w.manager->vtree());
  c.state(fingerprint(r));
}
void chain(Chooser &c, int n, int shape, int label_kind, int rows, double alpha) {
  VTP v = named_shape(shape, n);
  Labels l = labels_kind(label_kind, n);
  ManagerPtr m(make_manager(v, l));
  PsddNode *s = m->GetTrueNode(m->vtree(), 0);
  Examples ex;
  std::vector<int> ones(n, 0);
  for (int k = 0; k < n; k++) {
    BatchedPsddValue b(rows);
    for (int i = 0; i < rows; i++) {
      b[i] = (i * (k + 3) + k) % 5 < 2 || k % 7 == 0;
      ones[k] += b[i];
    }
    ex[l[k]] = b;
  }
  PsddNode *r = m->LearnPsddParameters(s, ex, rows, A(alpha), 0);
  check_normalized(r, "chain");
  std::map<uint32_t, int> index;
  for (int i = 0; i < n; i++) index[(uint32_t)l[i]] = i;
  size_t found = 0;
  for (PsddNode *x : reachable(r))
    if (x->node_type() == TOP_NODE_TYPE) {
      auto it = index.find(x->psdd_top_node()->variable_index());
      MC_CHECK(it != index.end(), "structure", "foreign variable");
      int k = it->second;
      found++;
      compare(c, log_true(x), ones[k], alpha, rows, 2, "chain, true");
      compare(c, log_false(x), rows - ones[k], alpha, rows, 2, "chain, false");
    }
  MC_CHECK((int)found == n, "structure", "%zu free variables instead of %d", found, n);
  c.state(fingerprint(r));
}
void chains(Chooser &c) {
  static const int ns[] = {2, 3, 20, 65, 130};
  int n = ns[c.choose(5, "n")], shape = c.choose(3, "shape"), kind = c.flip("sparse") ? 2 : 0;
  static const double al[] = {0, 1, 1e-6};
  chain(c, n, shape, kind, 70, al[c.choose(3, "alpha")]);
}
void giant(Chooser &c) {
  int k = c.choose(3, "kind");
  chain(c, k == 2 ? 33000 : 1200, k, k == 2 ? 0 : 2, k == 2 ? 3 : 70, c.flip("alpha") ? 1 : 0);
}
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  PsddManager *m = h.manager.get();
  int n = (int)h.labels.size();
  std::vector<unsigned> data;
  for (unsigned x : huge_samples(h))
    if (h.kind != 1 || (x & 131071u) < h.elements)
      for (unsigned k = 0; k < 1 + x % 3; k++) data.push_back(x);
  size_t rows = data.size();
  Examples ex;
  for (int k = 0; k < n; k++) {
    BatchedPsddValue b(rows);
    for (size_t i = 0; i < rows; i++) b[i] = data[i] >> k & 1;
    ex[h.labels[k]] = b;
  }
  PsddNode *r = m->LearnPsddParameters(h.node, ex, rows, A(1), 3);
  MC_CHECK(r != nullptr, "structure", "nothing learned");
  check_wellformed(r, m->vtree(), 3, "huge");
  check_normalized(r, "huge", 1e-5);
  // probability of each example and of some others under the smoothed counts of the structure
  std::vector<unsigned> xs = huge_samples(h);
  for (unsigned k = 0; k < 64; k++) xs.push_back((k * 2654435761u) >> (32 - n));
  for (unsigned x : xs) {
    long double want = 0;
    if (h.kind == 1) {
      unsigned e = x & 131071u;
      size_t here = 0, ones = 0;
      for (unsigned d : data) {
        here += (d & 131071u) == e;
        ones += (d & 131071u) == e && d >> 17;
      }
      want = e < h.elements ? logl((here + 1.0L) / (rows + h.elements)) + logl(((x >> 17 ? ones : here - ones) + 1.0L) / (here + 2)) : -INFINITY;
    } else
      for (int d = 0; d < n; d++) {
        // the examples that reach this node; in kind 2 the last leaf is shared by both values of the variable before it
        unsigned seen = (1u << d) - 1;
        if (h.kind == 2 && d == n - 1) seen &= ~(1u << (d - 1));
        // and the prime above it is shared by every decision with that parameter
        bool prime = h.kind == 2 && d == n - 2;
        size_t here = 0, ones = 0;
        for (unsigned y : data)
          if (prime ? h.same_prime(x, y) : (y & seen) == (x & seen)) {
            here++;
            ones += y >> d & 1;
          }
        want += logl(((x >> d & 1 ? ones : here - ones) + 1.0L) / (here + 2));
      }
    long double got = log_weight(r, h.assignment(x));
    c.op();
    MC_CHECK(close_log((double)got, (double)want, 1e-5), "huge-count", "assignment %x: log %.12Lg instead of %.12Lg", x, got, want);
  }
  c.state(mc::mix((uint64_t)h.kind, rows));
}
}  // namespace

void mc::register_scenarios(bool) {
  add("data1", data1);
  add("data2", data2);
  add("data3", data3);
  add("weights", weights3);
  add("sizes", sizes);
  add("skewed", skewed);
  add("shared", shared);
  add("wide", wide);
  add("chains", chains);
  add("giant", giant);
  add("huge", huge);
}
