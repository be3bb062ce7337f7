// C03  probability of evidence
#include "family.h"
using namespace ref;

namespace {
// One circuit: every mask and every instantiation, both entry points.
void check_all_evidence(Chooser &c, PsddNode *n, const VTP &v, const Labels &labels, const Table *want, double rel) {
  auto vars = leaves(v);
  int nv = (int)labels.size();
  unsigned scope = 0;
  for (int x : vars) scope |= 1u << x;
  Table t = table_of(n, labels);  // over all labels; independent of variables outside the circuit
  if (want)
    for (size_t x = 0; x < t.size(); x++)
      MC_CHECK(close(t[x], (*want)[x], rel, 1e-15), "construction", "the built circuit has probability %g at %zx, wanted %g", t[x], x,
               (*want)[x]);
  auto ser = psdd_node_util::SerializePsddNodes(n);
  static std::bitset<MAX_VAR> mask, inst;
  for (unsigned m = 0; m < (1u << nv); m++) {
    if (m & ~scope) continue;
    set_bits(&mask, labels, m);
    for (unsigned x = 0; x < (1u << nv); x++) {
      if (x & ~m) continue;
      double s = 0;
      for (unsigned y = 0; y < (1u << nv); y++)
        if ((y & m) == x && !(y & ~scope)) s += t[y];
      // bits of variables that are not evidence must not matter
      unsigned junk = c.choices.size() % 2 ? (~m & scope) : 0;
      set_bits(&inst, labels, x | junk);
      double got = psdd_node_util::Evaluate(mask, inst, ser).parameter();
      c.op();
      double e = exp(got);
      MC_CHECK(s == 0 ? e == 0 : close(e, s, rel), "evaluate", "mask %x value %x: evaluated %.12g, brute force %.12g; %s", m, x, e, s,
               str(n).c_str());
      if (m == scope || m == 0) {
        double g2 = psdd_node_util::Evaluate(mask, inst, n).parameter();
        c.op();
        MC_CHECK(close_log(g2, got, 1e-9), "evaluate-root", "the two entry points disagree: %.12g and %.12g", g2, got);
      }
      if (m == 0) MC_CHECK(fabs(got) < 1e-5, "no-evidence", "no evidence has log probability %.12g", got);
    }
  }
  set_bits(&mask, labels, 0);
  set_bits(&inst, labels, 0);
  c.state(fingerprint(n));
}
void all_tables(Chooser &c) {
  Family f = choose_family(c);
  Instance i = build_instance(c, f);
  check_all_evidence(c, i.node, i.v, i.labels, &i.dist, 1e-6);
}
// near-equal parameters, tiny probabilities: read the distribution from the circuit itself
void awkward(Chooser &c) {
  Instance i = choose_awkward(c);
  check_all_evidence(c, i.node, i.v, i.labels, nullptr, 1e-6);
}
// long chains: probabilities far below the smallest double, against a product formula
void chains(Chooser &c) {
  Chain ch = choose_chain(c);
  static std::bitset<MAX_VAR> mask, inst;
  auto ser = psdd_node_util::SerializePsddNodes(ch.node);
  int n = (int)ch.labels.size();
  // evidence patterns: all false, all true, alternating, every single variable, every prefix, every pair of neighbours
  auto run = [&](const std::vector<int> &ev) {  // -1 free, 0, 1
    for (int k = 0; k < n; k++) {
      mask[ch.labels[k]] = ev[k] >= 0;
      inst[ch.labels[k]] = ev[k] == 1;
    }
    double got = psdd_node_util::Evaluate(mask, inst, ser).parameter();
    long double want = ch.log_prob(ev);
    c.op();
    MC_CHECK(close_log(got, (double)want, 1e-5 + 1e-9 * fabs((double)want)), "evaluate-chain",
             "%d variables, log probability %.12g instead of %.12Lg", n, got, want);
  };
  std::vector<int> ev(n, -1);
  run(ev);
  for (int pat = 0; pat < 4; pat++) {
    for (int k = 0; k < n; k++) ev[k] = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? k & 1 : (k & 3 ? -1 : 1);
    run(ev);
  }
  int step = n > 40 ? n / 20 : 1;
  for (int k = 0; k < n; k += step)
    for (int val = 0; val < 2; val++) {
      ev.assign(n, -1);
      ev[k] = val;
      run(ev);
      for (int j = 0; j < k; j++) ev[j] = val;
      run(ev);
      if (k + 1 < n) {
        ev.assign(n, -1);
        ev[k] = val;
        ev[k + 1] = 1 - val;
        run(ev);
      }
    }
  for (int l : ch.labels) {
    mask[l] = false;
    inst[l] = false;
  }
  c.state(fingerprint(ch.node));
}
// decisions with many elements
void wide(Chooser &c) {
  Wide w = choose_wide(c);
  static std::bitset<MAX_VAR> mask, inst;
  int n = (int)w.labels.size();
  auto ser = psdd_node_util::SerializePsddNodes(w.node);
  std::vector<unsigned> masks = {0, (1u << n) - 1};
  for (int k = 0; k < n; k++) {
    masks.push_back(1u << k);
    masks.push_back(((1u << n) - 1) & ~(1u << k));
  }
  masks.push_back((1u << w.left) - 1);
  masks.push_back(((1u << n) - 1) & ~((1u << w.left) - 1));
  for (unsigned m : masks) {
    std::vector<double> s(1u << n, 0);
    for (unsigned y = 0; y < (1u << n); y++) s[y & m] += w.dist[y];
    set_bits(&mask, w.labels, m);
    for (unsigned x = 0; x < (1u << n); x++) {
      if (x & ~m) continue;
      set_bits(&inst, w.labels, x);
      double e = exp(psdd_node_util::Evaluate(mask, inst, ser).parameter());
      c.op();
      MC_CHECK(close(e, s[x], 1e-6), "evaluate-wide", "mask %x value %x: %.12g instead of %.12g", m, x, e, s[x]);
    }
  }
  set_bits(&mask, w.labels, 0);
  set_bits(&inst, w.labels, 0);
  c.state(fingerprint(w.node));
}
void giant(Chooser &c) {
  Chain ch = choose_giant(c);
  static std::bitset<MAX_VAR> mask, inst;
  auto ser = psdd_node_util::SerializePsddNodes(ch.node);
  int n = (int)ch.labels.size();
  mask.reset();
  inst.reset();
  int part = c.choose(4, "evidence");
  for (int pat = 2 * part; pat < 2 * part + 2; pat++) {
    std::vector<int> ev(n, -1);
    for (int k = 0; k < n; k++) {
      ev[k] = pat == 0 ? -1 : pat == 1 ? 0 : pat == 2 ? 1 : pat == 3 ? k & 1 : pat == 4 ? (k & 3 ? -1 : 1) : pat == 5 ? (k == n - 1 ? 1 : -1) : pat == 6 ? (k == 0 ? 0 : -1) : (k > n / 2 ? k % 3 == 0 : -1);
      mask[ch.labels[k]] = ev[k] >= 0;
      inst[ch.labels[k]] = ev[k] == 1;
    }
    double got = psdd_node_util::Evaluate(mask, inst, ser).parameter(), again = psdd_node_util::Evaluate(mask, inst, ch.node).parameter();
    long double want = ch.log_prob(ev);
    c.op(2);
    MC_CHECK(close_log(got, (double)want, 1e-5 + 1e-9 * fabs((double)want)) && close_log(again, (double)want, 1e-5 + 1e-9 * fabs((double)want)), "evaluate-giant", "%d variables, log probability %.12g and %.12g instead of %.12Lg", n, got, again, want);
  }
  mask.reset();
  inst.reset();
  c.state(fingerprint(ch.node));
}
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  static std::bitset<MAX_VAR> mask, inst;
  auto ser = psdd_node_util::SerializePsddNodes(h.node);
  int n = (int)h.labels.size();
  unsigned full = (1u << n) - 1;
  int turn = 0;
  for (unsigned x : huge_samples(h))
    for (int part = 0; part < 2; part++) {
      static const unsigned kParts[] = {full >> 1, full & ~1u, 0x1ffu, full & ~0x1ffu};
      unsigned m = part ? kParts[turn++ % 4] : full;
      set_bits(&mask, h.labels, m);
      set_bits(&inst, h.labels, x & m);
      auto value = h.assignment(x);
      for (int k = 0; k < n; k++)
        if (!(m >> k & 1)) value[h.labels[k]] = -1;
      double got = psdd_node_util::Evaluate(mask, inst, ser).parameter();
      long double want = m == full ? h.log_prob(x) : log_weight(h.node, value);
      c.op();
      MC_CHECK(close_log(got, (double)want, 1e-6 + 1e-7 * fabs((double)want)), "evaluate-huge", "mask %x value %x: log %.12g instead of %.12Lg", m, x & m, got, want);
      MC_CHECK(psdd_node_util::IsConsistent(ser, mask, inst) == std::isfinite((double)want), "consistent-huge", "mask %x value %x", m, x & m);
    }
  set_bits(&mask, h.labels, 0);
  set_bits(&inst, h.labels, 0);
  c.state(mc::mix((uint64_t)h.kind, ser.size()));
}
}  // namespace

void mc::register_scenarios(bool) {
  add("tables", all_tables);
  add("awkward", awkward);
  add("chains", chains);
  add("wide", wide);
  add("giant", giant);
  add("huge", huge);
}
