#include "match.h"

#include <algorithm>
#include <functional>

namespace ref {
using mc::fail;
double log_true(PsddNode *t) { return t->psdd_top_node()->true_parameter().parameter(); }
double log_false(PsddNode *t) { return t->psdd_top_node()->false_parameter().parameter(); }
double log_param(PsddNode *d, size_t i) { return d->psdd_decision_node()->parameters()[i].parameter(); }

std::vector<bool> support(PsddNode *n, const Labels &labels) {
  std::vector<bool> s(size_t(1) << labels.size());
  for (size_t x = 0; x < s.size(); x++) s[x] = models(n, Assign{&labels, (unsigned)x});
  return s;
}
const std::vector<bool> &Matcher::sup(PsddNode *n) {
  auto it = memo.find(n);
  if (it == memo.end()) it = memo.emplace(n, support(n, labels)).first;
  return it->second;
}
static void leaf_match(PsddNode *a, PsddNode *b, const char *sig) {
  if (a->node_type() == LITERAL_NODE_TYPE) {
    if (a->psdd_literal_node()->literal() != b->psdd_literal_node()->literal())
      fail(sig, "literal %d became %d", a->psdd_literal_node()->literal(), b->psdd_literal_node()->literal());
  } else if (a->psdd_top_node()->variable_index() != b->psdd_top_node()->variable_index())
    fail(sig, "free variable %u became %u", a->psdd_top_node()->variable_index(), b->psdd_top_node()->variable_index());
}
void Matcher::run(PsddNode *a, PsddNode *b) {
  if (!seen.insert({a, b}).second) return;
  if (!a || !b) fail(sig, "a node is missing");
  if (a->node_type() != b->node_type()) fail(sig, "node types differ: %s and %s", str(a).c_str(), str(b).c_str());
  std::vector<size_t> order;
  if (a->node_type() != DECISION_NODE_TYPE) {
    leaf_match(a, b, sig);
    hook(a, b, order);
    return;
  }
  auto da = a->psdd_decision_node(), db = b->psdd_decision_node();
  size_t k = da->primes().size();
  if (db->primes().size() != k || db->subs().size() != k || db->parameters().size() != k)
    fail(sig, "%zu elements became %zu: %s and %s", k, db->primes().size(), str(a).c_str(), str(b).c_str());
  std::vector<bool> used(k, false);
  for (size_t i = 0; i < k; i++) {
    size_t j = 0;
    while (j < k && (used[j] || sup(da->primes()[i]) != sup(db->primes()[j]))) j++;
    if (j == k) fail(sig, "an element has no counterpart: %s and %s", str(a).c_str(), str(b).c_str());
    used[j] = true;
    order.push_back(j);
  }
  hook(a, b, order);
  for (size_t i = 0; i < k; i++) {
    run(da->primes()[i], db->primes()[order[i]]);
    run(da->subs()[i], db->subs()[order[i]]);
  }
}
uint64_t BigMatcher::skel(PsddNode *n) {
  auto it = memo.find(n);
  if (it != memo.end()) return it->second;
  uint64_t h = mc::mix(77, n->node_type());
  if (n->node_type() == LITERAL_NODE_TYPE)
    h = mc::mix(h, (uint64_t)n->psdd_literal_node()->literal());
  else if (n->node_type() == TOP_NODE_TYPE)
    h = mc::mix(h, n->psdd_top_node()->variable_index());
  else {
    auto d = n->psdd_decision_node();
    uint64_t s = 0;
    for (size_t i = 0; i < d->primes().size(); i++) s += mc::mix(skel(d->primes()[i]), skel(d->subs()[i]));
    h = mc::mix(h, s);
  }
  memo[n] = h;
  return h;
}
void BigMatcher::run(PsddNode *a, PsddNode *b) {
  if (!seen.insert({a, b}).second) return;
  if (!a || !b || a->node_type() != b->node_type()) fail(sig, "node types differ");
  std::vector<size_t> order;
  if (a->node_type() != DECISION_NODE_TYPE) {
    leaf_match(a, b, sig);
    hook(a, b, order);
    return;
  }
  auto da = a->psdd_decision_node(), db = b->psdd_decision_node();
  size_t k = da->primes().size();
  if (db->primes().size() != k) fail(sig, "%zu elements became %zu", k, db->primes().size());
  std::map<uint64_t, size_t> at;
  for (size_t j = 0; j < k; j++) at[mc::mix(skel(db->primes()[j]), skel(db->subs()[j]))] = j;
  for (size_t i = 0; i < k; i++) {
    auto it = at.find(mc::mix(skel(da->primes()[i]), skel(da->subs()[i])));
    if (it == at.end()) fail(sig, "an element has no counterpart");
    order.push_back(it->second);
    at.erase(it);
  }
  hook(a, b, order);
  for (size_t i = 0; i < k; i++) {
    run(da->primes()[i], db->primes()[order[i]]);
    run(da->subs()[i], db->subs()[order[i]]);
  }
}
}  // namespace ref
