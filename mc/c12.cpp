// C12  sampling an assignment, for every stream of draws
#include "family.h"
#include "match.h"
using namespace ref;

namespace {
struct Range {
  double lo, hi;
};
const std::vector<Range> kRanges = {{0, 1}, {-2, 6}, {10, 10.5}};
// hands out the draws it is told to
class Script : public RandomDoubleFromUniformGenerator {
 public:
  Script(Range r, std::function<double(int)> f) : RandomDoubleFromUniformGenerator(r.lo, r.hi, 1), r_(r), f_(std::move(f)) {}
  double generate() override {
    if (used > 200) mc::fail("termination", "sampling a circuit of a few variables takes more than 200 draws");
    double u = f_(used++);
    double x = r_.lo + u * (r_.hi - r_.lo);
    return x > r_.hi ? r_.hi : x;
  }
  int used = 0;

 private:
  Range r_;
  std::function<double(int)> f_;
};
// one sample; returns the assignment over labels; checks foreign variables
unsigned sample(PsddNode *n, const Labels &labels, Script *g) {
  static std::bitset<MAX_VAR> *bits = new std::bitset<MAX_VAR>();
  bits->reset();
  n->DirectSample(bits, g);
  unsigned x = 0;
  for (size_t i = 0; i < labels.size(); i++)
    if ((*bits)[labels[i]]) {
      x |= 1u << i;
      (*bits)[labels[i]] = false;
    }
  MC_CHECK(bits->none(), "foreign", "the sample sets a variable that is not in the circuit");
  return x;
}
// odometer over sequences of draws whose length the sampler decides
struct Odometer {
  int k;
  std::vector<int> seq;
  int at(int i) {
    if ((size_t)i >= seq.size()) seq.push_back(0);
    return seq[i];
  }
  bool next(int used) {
    seq.resize(used);
    while (!seq.empty() && ++seq.back() == k) seq.pop_back();
    return !seq.empty();
  }
};
// same support, new parameters: multiples of 1/k
PsddNode *reparametrise(PsddManager *m, PsddNode *root, const std::function<std::vector<int>(size_t, bool)> &parts, int k) {
  std::map<PsddNode *, PsddNode *> memo;
  auto P = [&](int x) { return PsddParameter::CreateFromDecimal((double)x / k); };
  std::function<PsddNode *(PsddNode *)> rec = [&](PsddNode *n) -> PsddNode * {
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    PsddNode *r;
    if (n->node_type() == LITERAL_NODE_TYPE)
      r = n;
    else if (n->node_type() == TOP_NODE_TYPE) {
      auto w = parts(2, false);
      r = m->GetPsddTopNode(n->psdd_top_node()->variable_index(), 3, P(w[0]), P(w[1]));
    } else {
      auto d = n->psdd_decision_node();
      std::vector<PsddNode *> p, s;
      std::vector<PsddParameter> q;
      auto w = parts(d->primes().size(), true);
      for (size_t i = 0; i < d->primes().size(); i++) {
        p.push_back(rec(d->primes()[i]));
        s.push_back(rec(d->subs()[i]));
        q.push_back(P(w[i]));
      }
      r = m->GetConformedPsddDecisionNode(p, s, q, 0);
    }
    return memo[n] = r;
  };
  return rec(root);
}
std::vector<std::vector<int>> compositions(int k, size_t n) {
  if (n == 1) return {{k}};
  std::vector<std::vector<int>> o;
  for (int a = 0; a <= k; a++)
    for (auto &r : compositions(k - a, n - 1)) {
      std::vector<int> v{a};
      v.insert(v.end(), r.begin(), r.end());
      o.push_back(v);
    }
  return o;
}
void measure(Chooser &c, PsddNode *n, const Labels &labels, int k, Range range) {
  Table want = table_of(n, labels), got(want.size(), 0);
  Odometer o{k, {}};
  double tot = 0;
  uint64_t runs = 0;
  Snapshot snap;
  snap.take(n);
  for (;;) {
    Script g(range, [&](int i) { return (o.at(i) + 0.5) / k; });
    unsigned x = sample(n, labels, &g);
    double w = std::pow(1.0 / k, g.used);
    got[x] += w;
    tot += w;
    runs++;
    if (!o.next(g.used)) break;
  }
  snap.check("model-changed", false);
  c.op(runs);
  MC_CHECK(fabs(tot - 1) < 1e-9, "harness", "measure of all draws is %.12g", tot);
  for (size_t x = 0; x < want.size(); x++)
    MC_CHECK(fabs(got[x] - want[x]) < 1e-7, "measure", "assignment %zx has probability %.9g but is drawn with measure %.9g: %s", x, want[x], got[x], str(n).c_str());
  c.state(fingerprint(n));
}
void check_measure(Chooser &c, const VTP &v, const Labels &l, const Table &t, int form, int k, bool all) {
  BuildOptions o;
  o.compressed = form != 1;
  o.explicit_zero = form == 2;
  ManagerPtr m(make_manager(v, l));
  PsddNode *s = build(m.get(), v, l, t, o);
  auto leaf_all = compositions(k, 2);
  int rot = c.choose(all ? (int)leaf_all.size() : 5, "leaf parameters");
  int i = 0;
  PsddNode *n = reparametrise(
      m.get(), s,
      [&](size_t parts, bool dec) {
        auto cs = compositions(k, parts);
        if (!dec) return cs[(rot + i++) % cs.size()];
        if (all) return cs[c.choose((int)cs.size(), "decision parameters")];
        return cs[(rot * 2 + 3 * i++ + 1) % cs.size()];
      },
      k);
  Range r = kRanges[all ? c.choose(3, "range") : i % 3];
  if (c.describing()) c.describe("\nvtree " + str(v) + " " + str(n));
  measure(c, n, l, k, r);
}
void measure1(Chooser &c) {
  Labels l = choose_labels(c, 1);
  check_measure(c, leaf(0), l, choose_table(c, 1, {0, 1}), c.choose(3, "form"), 12, true);
}
void measure2(Chooser &c) {
  VTP v = choose_vtree(c, 2);
  Table t = choose_table(c, 2, {0, 1});
  check_measure(c, v, dense(2), t, c.choose(3, "form"), c.thorough() ? 6 : 4, true);
}
void measure3(Chooser &c) {
  VTP v = choose_vtree(c, 3);
  Table t = choose_table(c, 3, {0, 1});
  check_measure(c, v, labels_kind(2, 3), t, c.choose(3, "form"), c.thorough() ? 5 : 4, false);
}
void measure4(Chooser &c) {
  VTP v = choose_shape(c, {0, 1, 2, 3});
  Table t(16, 1);
  int z = c.choose(c.thorough() ? 120 : 30, "support");
  for (int x = 0; x < 16; x++) t[x] = ((x * 7 + z) % 11) < 1 + z % 9;
  if (total(t) == 0) c.skip();
  check_measure(c, v, dense(4), t, c.choose(2, "form"), c.thorough() ? 4 : 3, false);
}
// draws at the extremes and at the boundaries between elements: ends normally with a possible assignment
void extremes(Chooser &c, PsddNode *n, const Labels &labels, const std::vector<double> &alpha, int maxdepth) {
  std::vector<long double> want;  // far below the smallest double in places
  for (unsigned x = 0; x < (1u << labels.size()); x++) want.push_back(prob(n, Assign{&labels, x}));
  Odometer o{(int)alpha.size(), {}};
  Range range = kRanges[0];
  for (;;) {
    Script g(range, [&](int i) { return i < maxdepth ? alpha[o.at(i)] : alpha.back(); });
    unsigned x = sample(n, labels, &g);
    c.op();
    if (!(want[x] > 0)) {
      std::string d;
      for (int i = 0; i < g.used && i < maxdepth; i++) {
        char b[40];
        snprintf(b, sizeof b, " %.17g", alpha[o.seq[i]]);
        d += b;
      }
      mc::fail("impossible", "the impossible assignment %x is drawn for the draws%s: %s", x, d.c_str(), str(n).c_str());
    }
    if (!o.next(std::min(g.used, maxdepth))) break;
  }
  c.state(fingerprint(n));
}
const double kUlp = 1.1102230246251565e-16;
std::vector<double> boundaries(PsddNode *n) {
  std::vector<double> b = {0, 4.9406564584124654e-324, kUlp, 1e-9, 0.5, 1 - 1e-7, 1 - 1e-9, 1 - kUlp, 1};
  if (n->node_type() == DECISION_NODE_TYPE) {
    double acc = 0;
    auto d = n->psdd_decision_node();
    for (size_t i = 0; i + 1 < d->parameters().size() && i < 2; i++) {
      acc += exp(d->parameters()[i].parameter());
      if (acc > 0 && acc < 1) {
        b.push_back(acc);
        b.push_back(std::nextafter(acc, 0));
        b.push_back(acc * (1 - 1e-8));
      }
    }
  }
  return b;
}
void ext_family(Chooser &c) {
  Family f = choose_family(c, 0);
  Instance i = build_at(c, f, c.choose(3, "place"));
  extremes(c, i.node, i.labels, f.n < 3 ? boundaries(i.node) : std::vector<double>{0, 0.5, 1 - kUlp, 1}, f.n < 3 ? 3 : 4);
}
void ext_awkward(Chooser &c) {
  Instance i = choose_awkward(c);
  extremes(c, i.node, i.labels, i.labels.size() < 3 ? boundaries(i.node) : std::vector<double>{0, kUlp, 0.5, 1 - 1e-9, 1}, i.labels.size() < 3 ? 3 : 3);
}
// parameters as they come out of a file: six decimals of the logarithm
void ext_rounded(Chooser &c) {
  int k = 2 + c.choose(6, "elements");
  int right = c.choose(3, "weights");
  VTP v = inode(right_linear(3, 0), leaf(3));
  Labels l = choose_labels(c, 4);
  ManagerPtr m(make_manager(v, l));
  Table t(16, 0);
  for (int x = 0; x < 16; x++)
    if ((x & 7) < k) t[x] = right == 0 ? 1 : right == 1 ? 1 + x % 3 : 1 + (x * x) % 7;
  BuildOptions o;
  o.compressed = false;
  PsddNode *n = build(m.get(), v, l, t, o);
  std::string path = c.scratch() + "/r.psdd";
  psdd_node_util::WritePsddToFile(n, path.c_str());
  n = m->ReadPsddFile(path.c_str(), 1);
  extremes(c, n, l, {0, 0.3, 1 - 1e-5, 1 - 1e-6, 1 - 1e-7, 1 - kUlp, 1}, 3);
}
void sample_chain(Chooser &c, const Chain &ch) {
  static const std::vector<double> u = {0, kUlp, 0.3, 1 - 1e-9, 1};
  double x = c.pick(u, "draw"), y = c.pick(u, "every third draw");
  std::vector<int> ev(ch.labels.size());
  static std::bitset<MAX_VAR> *bits = new std::bitset<MAX_VAR>();
  bits->reset();
  // not limited to 200 draws
  int used = 0;
  struct G : RandomDoubleFromUniformGenerator {
    G(std::function<double()> f) : RandomDoubleFromUniformGenerator(0, 1, 1), f(std::move(f)) {}
    double generate() override { return f(); }
    std::function<double()> f;
  } g([&] {
    if (used > 100000) mc::fail("termination", "more than 100000 draws");
    return used++ % 3 == 2 ? y : x;
  });
  ch.node->DirectSample(bits, &g);
  for (size_t i = 0; i < ev.size(); i++) {
    ev[i] = (*bits)[ch.labels[i]];
    (*bits)[ch.labels[i]] = false;
  }
  MC_CHECK(bits->none(), "foreign", "the sample sets a variable that is not in the circuit");
  MC_CHECK(std::isfinite((double)ch.log_prob(ev)), "impossible", "an impossible assignment is drawn");
  c.op();
  c.state(fingerprint(ch.node));
}
// a decision with many elements: exact measure over a fine grid of the first draw
void ext_chain(Chooser &c) { sample_chain(c, choose_chain(c)); }
void giant(Chooser &c) { sample_chain(c, choose_giant(c, c.thorough() ? 33000 : 17000)); }
void wide(Chooser &c) {
  int n = c.thorough() ? 3 + c.choose(4, "n") : 5;
  int sh = c.choose(3, "shape");
  VTP v = inode(named_shape(sh, n), leaf(n));
  Labels l = labels_kind(c.flip("sparse") ? 2 : 0, n + 1);
  ManagerPtr m(make_manager(v, l));
  int k = 1 << n, pat = c.choose(4, "pattern");
  // elements weigh pattern-dependent multiples of 1/total
  Table t(size_t(2) << n, 0);
  int tot = 0;
  for (int x = 0; x < k; x++) {
    int w = pat == 0 ? 1 : pat == 1 ? x % 3 : pat == 2 ? (x == 5 ? 40 : 1) : (x % 4 == 1 ? 5 : 0);
    t[x | ((x * 3 % 2) << n)] = w;  // the last variable is a function of the others
    tot += w;
  }
  BuildOptions o;
  o.compressed = false;
  PsddNode *s = build(m.get(), v, l, t, o);
  // the first draw selects the element, which decides everything
  Table want = table_of(s, l);
  std::vector<double> got(want.size(), 0);
  for (int j = 0; j < tot; j++)
    for (int late = 0; late < 3; late++) {
      Script g(kRanges[late], [&](int i) { return i == 0 ? (j + 0.5) / tot : late == 0 ? 0.25 : late == 1 ? 0.999 : 0; });
      got[sample(s, l, &g)] += 1.0 / tot / 3;
      c.op();
    }
  for (size_t x = 0; x < want.size(); x++)
    MC_CHECK(fabs(got[x] - want[x]) < 1e-6, "measure", "assignment %zx has probability %.9g but is drawn with measure %.9g", x, want[x], got[x]);
  c.state(fingerprint(s));
}
// the generator itself stays within its range and repeats its stream
void generator(Chooser &c) {
  unsigned seed = c.choose(64, "seed");
  Range r = kRanges[c.choose(3, "range")];
  RandomDoubleFromUniformGenerator a(r.lo, r.hi, seed), b(r.lo, r.hi, seed);
  MC_CHECK(a.min() == r.lo && a.max() == r.hi, "generator", "range [%g,%g] became [%g,%g]", r.lo, r.hi, a.min(), a.max());
  int low = 0;
  for (int i = 0; i < 200; i++) {
    double x = a.generate(), y = b.generate();
    MC_CHECK(x >= r.lo && x <= r.hi, "generator", "draw %g outside [%g,%g]", x, r.lo, r.hi);
    MC_CHECK(x == y, "generator", "the same seed gives another stream");
    low += x < (r.lo + r.hi) / 2;
    c.op();
  }
  MC_CHECK(low > 40 && low < 160, "generator", "%d of 200 draws in the lower half", low);
}
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  static std::bitset<MAX_VAR> *bits = new std::bitset<MAX_VAR>();
  std::map<unsigned, int> first;  // element or first half of the assignment, by draw
  const int kSteps = 500;
  for (int i = 0; i < kSteps; i++) {
    double u = (i + 0.5) / kSteps;
    int used = 0;
    struct G : RandomDoubleFromUniformGenerator {
      G(std::function<double()> f) : RandomDoubleFromUniformGenerator(0, 1, 1), f(std::move(f)) {}
      double generate() override { return f(); }
      std::function<double()> f;
    } g([&] {
      if (used++ > 1000) mc::fail("termination", "more than 1000 draws");
      return h.kind == 1 ? (used == 1 ? u : 0.4) : (i * 0.618 * used - floor(i * 0.618 * used));
    });
    bits->reset();
    h.node->DirectSample(bits, &g);
    unsigned x = 0;
    for (size_t k = 0; k < h.labels.size(); k++) {
      if ((*bits)[h.labels[k]]) x |= 1u << k;
      (*bits)[h.labels[k]] = false;
    }
    MC_CHECK(bits->none(), "foreign", "the sample sets a variable that is not in the circuit");
    MC_CHECK(std::isfinite((double)h.log_prob(x)), "impossible", "an impossible assignment %x is drawn", x);
    c.op();
    // the first draw selects the element: no element is as likely as the distance of two draws
    if (h.kind == 1) {
      auto o = first.emplace(x & 131071u, i);
      MC_CHECK(o.second, "measure", "draws %d and %d of %d give the same element, which weighs less than that", o.first->second, i, kSteps);
    }
  }
  c.state(mc::mix((uint64_t)h.kind, first.size()));
}
}  // namespace

void mc::register_scenarios(bool) {
  add("measure1", measure1);
  add("measure2", measure2);
  add("measure3", measure3);
  add("measure4", measure4);
  add("extremes", ext_family);
  add("awkward", ext_awkward);
  add("rounded", ext_rounded);
  add("chains", ext_chain);
  add("giant", giant);
  add("wide", wide);
  add("generator", generator);
  add("huge", huge);
}
