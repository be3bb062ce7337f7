// C04  single-variable marginals
#include "family.h"
using namespace ref;

namespace {
void check(Chooser &c, PsddNode *n, const VTP &v, const Labels &labels, const Table *want) {
  auto m = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(n));
  Table own;
  if (!want) {
    own = table_of(n, labels);
    want = &own;
  }
  auto vars = leaves(v);
  MC_CHECK(m.size() == vars.size(), "variables", "%zu marginals for %zu variables", m.size(), vars.size());
  for (int x : vars) {
    auto it = m.find((uint32_t)labels[x]);
    MC_CHECK(it != m.end(), "variables", "no marginal for variable %d", labels[x]);
    double s[2] = {0, 0};
    for (size_t y = 0; y < want->size(); y++) s[y >> x & 1] += (*want)[y];
    double f = exp(it->second.first.parameter()), t = exp(it->second.second.parameter());
    c.op(2);
    MC_CHECK(s[0] == 0 ? f == 0 : close(f, s[0], 3e-6), "marginal", "P(variable %d false) is %.12g, brute force %.12g; %s", labels[x], f, s[0],
             str(n).c_str());
    MC_CHECK(s[1] == 0 ? t == 0 : close(t, s[1], 3e-6), "marginal", "P(variable %d true) is %.12g, brute force %.12g; %s", labels[x], t, s[1],
             str(n).c_str());
    MC_CHECK(close(f + t, 1, 1e-6), "sum", "marginals of variable %d sum to %.12g", labels[x], f + t);
    c.state(mc::mix((uint64_t)(f * 1e6), (uint64_t)(t * 1e6)));
  }
  c.state(fingerprint(n));
}
void tables(Chooser &c) {
  Instance i = build_instance(c, choose_family(c));
  check(c, i.node, i.v, i.labels, &i.dist);
}
void embedded(Chooser &c) {
  Instance i = build_embedded(c, choose_family(c, 0));
  check(c, i.node, i.v, i.labels, &i.dist);
}
void awkward(Chooser &c) {
  Instance i = choose_awkward(c);
  check(c, i.node, i.v, i.labels, nullptr);
}
void wide(Chooser &c) {
  Wide w = choose_wide(c);
  check(c, w.node, w.v, w.labels, &w.dist);
}
void chains(Chooser &c) {
  Chain ch = choose_chain(c);
  auto m = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(ch.node));
  int n = (int)ch.labels.size();
  MC_CHECK((int)m.size() == n, "variables", "%zu marginals for %d variables", m.size(), n);
  std::vector<int> ev(n, -1);
  for (int k = 0; k < n; k++) {
    auto it = m.find((uint32_t)ch.labels[k]);
    MC_CHECK(it != m.end(), "variables", "no marginal for variable %d", ch.labels[k]);
    for (int val = 0; val < 2; val++) {
      ev[k] = val;
      long double want = ch.log_prob(ev);
      double got = val ? it->second.second.parameter() : it->second.first.parameter();
      c.op();
      // P(false) = 1 - P(true) can be at the edge of what the printed parameters resolve
      MC_CHECK(close_log(got, (double)want, 1e-4) || (exp(got) < 1e-12 && expl(want) < 1e-12 && fabs(got / (double)want - 1) < 1e-3),
               "marginal-chain", "variable %d of %d value %d: log %.12g instead of %.12Lg", k, n, val, got, want);
    }
    ev[k] = -1;
  }
  c.state(fingerprint(ch.node));
}
void giant(Chooser &c) {
  Chain ch = choose_giant(c);
  auto m = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(ch.node));
  int n = (int)ch.labels.size();
  auto want = chain_marginals(ch);
  MC_CHECK((int)m.size() == n, "variables", "%zu marginals for %d variables", m.size(), n);
  for (int k = 0; k < n; k++) {
    auto it = m.find((uint32_t)ch.labels[k]);
    MC_CHECK(it != m.end(), "variables", "no marginal for variable %d", ch.labels[k]);
    double f = it->second.first.parameter(), t = it->second.second.parameter();
    c.op(2);
    MC_CHECK(close_log(f, (double)want[k].first, 1e-4) && close_log(t, (double)want[k].second, 1e-4), "marginal-giant", "variable %d of %d: logs %.12g %.12g instead of %.12Lg %.12Lg", k, n, f, t,
             want[k].first, want[k].second);
  }
  c.state(fingerprint(ch.node));
}
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  auto ser = psdd_node_util::SerializePsddNodes(h.node);
  auto m = psdd_node_util::GetMarginals(ser);
  MC_CHECK(m.size() == h.labels.size(), "variables", "%zu marginals for %zu variables", m.size(), h.labels.size());
  for (int l : h.labels) {
    std::vector<signed char> value(MAX_VAR + 1, -1);
    auto it = m.find((uint32_t)l);
    MC_CHECK(it != m.end(), "variables", "no marginal for variable %d", l);
    for (int b = 0; b < 2; b++) {
      value[l] = (signed char)b;
      long double want = log_weight(h.node, value);
      double got = (b ? it->second.second : it->second.first).parameter();
      c.op();
      MC_CHECK(close_log(got, (double)want, 1e-5), "marginal-huge", "variable %d=%d: log %.12g instead of %.12Lg", l, b, got, want);
    }
  }
  c.state(mc::mix((uint64_t)h.kind, ser.size()));
}
}  // namespace

void mc::register_scenarios(bool) {
  add("tables", tables);
  add("embedded", embedded);
  add("awkward", awkward);
  add("chains", chains);
  add("wide", wide);
  add("giant", giant);
  add("huge", huge);
}
