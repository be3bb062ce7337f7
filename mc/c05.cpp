// C05  most probable explanation
#include "family.h"
using namespace ref;

namespace {
using Result = std::pair<std::bitset<MAX_VAR>, Probability>;

// bits of the answer over the circuit's variables; everything else must be clear
unsigned decode(const Result &r, const VTP &v, const Labels &labels) {
  unsigned x = 0;
  size_t set = 0;
  for (int k : leaves(v))
    if (r.first[labels[k]]) {
      x |= 1u << k;
      set++;
    }
  MC_CHECK(r.first.count() == set, "foreign-variable", "the explanation sets %zu variables, %zu of them in the circuit",
           r.first.count(), set);
  return x;
}
void check(Chooser &c, PsddNode *n, const VTP &v, const Labels &labels, const Table *want) {
  auto ser = psdd_node_util::SerializePsddNodes(n);
  Table own;
  if (!want) {
    own = table_of(n, labels);
    want = &own;
  }
  double best = 0;
  for (double x : *want) best = std::max(best, x);
  for (int entry = 0; entry < 3; entry++) {  // both entry points, and a second call
    Result r = entry == 1 ? psdd_node_util::GetMPESolution(n) : psdd_node_util::GetMPESolution(ser);
    unsigned x = decode(r, v, labels);
    double p = exp(r.second.parameter()), q = (*want)[x];
    c.op(2);
    MC_CHECK(close(p, q, 3e-6, 0), "value", "reports %.12g, but its assignment %x has probability %.12g; %s", p, x, q, str(n).c_str());
    MC_CHECK(close(p, best, 3e-6, 0), "maximiser", "assignment %x has probability %.12g, the largest is %.12g; %s", x, q, best,
             str(n).c_str());
    c.state(mc::mix(x, (uint64_t)(p * 1e6)));
  }
  c.state(fingerprint(n));
}
void tables(Chooser &c) {
  Instance i = build_instance(c, choose_family(c));
  check(c, i.node, i.v, i.labels, &i.dist);
}
void embedded(Chooser &c) {
  Instance i = build_embedded(c, choose_family(c, 0));
  check(c, i.node, i.v, i.labels, &i.dist);
}
void awkward(Chooser &c) {
  Instance i = choose_awkward(c);
  check(c, i.node, i.v, i.labels, nullptr);
}
void wide(Chooser &c) {
  Wide w = choose_wide(c);
  check(c, w.node, w.v, w.labels, &w.dist);
}
void chain(Chooser &c, const Chain &ch) {
  int n = (int)ch.labels.size();
  Result r = psdd_node_util::GetMPESolution(ch.node);
  // Viterbi
  const long double ninf = -INFINITY;
  long double a0 = 0, a1 = ninf;
  for (int i = 0; i < n; i++) {
    long double t = std::max(a0 + logl(ch.p0[i]), a1 + logl(ch.p1[i]));
    long double f = std::max(a0 + log1pl(-(long double)ch.p0[i]), a1 + log1pl(-(long double)ch.p1[i]));
    a1 = t;
    a0 = f;
  }
  std::vector<int> x(n);
  size_t set = 0;
  for (int i = 0; i < n; i++) {
    x[i] = r.first[ch.labels[i]];
    set += x[i];
  }
  MC_CHECK(r.first.count() == set, "foreign-variable", "%zu bits set, %zu in the circuit", r.first.count(), set);
  double p = r.second.parameter();
  double tol = 1e-5 + 1e-6 * fabs(p);
  MC_CHECK(close_log(p, (double)ch.log_prob(x), tol), "value-chain", "reports log %.12g, its assignment has %.12Lg", p, ch.log_prob(x));
  MC_CHECK(close_log(p, (double)std::max(a0, a1), tol), "maximiser-chain", "log %.12g, the largest is %.12Lg", p, std::max(a0, a1));
  c.op(2);
  c.state(fingerprint(ch.node));
}
void chains(Chooser &c) { chain(c, choose_chain(c)); }
void giant(Chooser &c) { chain(c, choose_giant(c)); }
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  long double best = -INFINITY;
  for (unsigned x = 0; x < (1u << h.labels.size()); x++) best = std::max(best, h.log_prob(x));
  Result r = psdd_node_util::GetMPESolution(h.node);
  unsigned x = decode(r, h.v, h.labels);
  double p = r.second.parameter();
  c.op(2);
  MC_CHECK(close_log(p, (double)h.log_prob(x), 1e-5), "value-huge", "reports log %.12g, its assignment has %.12Lg", p, h.log_prob(x));
  MC_CHECK(close_log(p, (double)best, 1e-5), "maximiser-huge", "log %.12g, the largest is %.12Lg", p, best);
  c.state(mc::mix(x, (uint64_t)h.kind));
}
}  // namespace

void mc::register_scenarios(bool) {
  add("tables", tables);
  add("embedded", embedded);
  add("awkward", awkward);
  add("chains", chains);
  add("giant", giant);
  add("wide", wide);
  add("huge", huge);
}
