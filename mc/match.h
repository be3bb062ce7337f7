// Correspondence of two circuits of the same structure, whatever the order of their elements.
#pragma once
#include <functional>
#include <map>

#include "ref.h"

namespace ref {
// support of a node over the given labels as a bitmap over all assignments of its own variables
std::vector<bool> support(PsddNode *n, const Labels &labels);

// Pairs every node of a with its counterpart in b; fails with sig when the structures differ.
// Needs mutually exclusive prime supports.  Calls leaf/decision hooks once per pair:
//   pair(a, b, order) where order[i] is the index in b of a's element i (empty for leaves).
struct Matcher {
  const Labels &labels;
  const char *sig;
  std::function<void(PsddNode *, PsddNode *, const std::vector<size_t> &)> hook;
  std::map<PsddNode *, std::vector<bool>> memo;
  std::set<std::pair<PsddNode *, PsddNode *>> seen;
  const std::vector<bool> &sup(PsddNode *n);
  void run(PsddNode *a, PsddNode *b);
};
// for circuits too large for tables: elements are paired by a canonical text of their structure
struct BigMatcher {
  const char *sig;
  std::function<void(PsddNode *, PsddNode *, const std::vector<size_t> &)> hook;
  std::map<PsddNode *, uint64_t> memo;
  std::set<std::pair<PsddNode *, PsddNode *>> seen;
  uint64_t skel(PsddNode *n);
  void run(PsddNode *a, PsddNode *b);
};
double log_true(PsddNode *top);
double log_false(PsddNode *top);
double log_param(PsddNode *decision, size_t i);
}  // namespace ref
