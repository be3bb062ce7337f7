// SDD side of the reference model.
#pragma once
#include "ref.h"

namespace ref {
// Truth tables: bit x of the mask is the value under the assignment whose bit i is SDD variable i+1.
inline bool sdd_true(SddNode *s, unsigned bits) {
  if (sdd_node_is_true(s)) return true;
  if (sdd_node_is_false(s)) return false;
  if (sdd_node_is_literal(s)) {
    SddLiteral l = sdd_node_literal(s);
    return ((bits >> (labs(l) - 1)) & 1) == (l > 0);
  }
  SddNode **e = sdd_node_elements(s);
  for (SddSize i = 0; i < sdd_node_size(s); i++)
    if (sdd_true(e[2 * i], bits) && sdd_true(e[2 * i + 1], bits)) return true;
  return false;
}
// One manager per vtree and process (creating one is slow); nothing is ever collected or minimised in it.
inline SddManager *sdd_of(const VTP &v, int n) {
  static std::map<std::string, SddManager *> cache;
  auto &m = cache[ref::str(v)];
  if (!m) {
    Vtree *w = to_sdd(v, dense(n));
    m = sdd_manager_new(w);
    sdd_vtree_free(w);
    sdd_manager_auto_gc_and_minimize_off(m);
  }
  return m;
}
inline SddNode *sdd_from_table(SddManager *m, const std::vector<int> &vars, uint64_t mask, size_t k = 0, unsigned bits = 0) {
  if (k == vars.size()) return (mask >> bits) & 1 ? sdd_manager_true(m) : sdd_manager_false(m);
  SddNode *lo = sdd_from_table(m, vars, mask, k + 1, bits), *hi = sdd_from_table(m, vars, mask, k + 1, bits | (1u << vars[k]));
  if (lo == hi) return lo;
  return sdd_disjoin(sdd_conjoin(sdd_manager_literal(vars[k] + 1, m), hi, m), sdd_conjoin(sdd_manager_literal(-(vars[k] + 1), m), lo, m), m);
}
}  // namespace ref
