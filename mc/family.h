// Exhaustive families of PSDDs shared by the property checks.
#pragma once
#include <memory>

#include "ref.h"

namespace ref {
using ManagerPtr = std::shared_ptr<PsddManager>;

struct Family {
  int n = 0;
  VTP v;
  Labels labels;
  Table t;  // unnormalised weights
  BuildOptions o;
};
// size 0: at most 2 variables plus all supports over 3 (few options); 1: the full family of the tier.
Family choose_family(Chooser &c, int size = 1);  // 0 small, 1 the whole family of the tier, 2 the whole quick family

struct Instance {
  ManagerPtr manager;
  PsddNode *node = nullptr;
  VTP v;         // vtree of the circuit
  VTP root;      // vtree of the manager
  Labels labels;  // of the circuit's variables
  Table dist;
};
Instance build_instance(Chooser &c, const Family &f);
// the circuit sits at the left or right child of a manager over one more variable
Instance build_embedded(Chooser &c, const Family &f);
Instance build_at(Chooser &c, const Family &f, int place);  // 0 root, 1 left child, 2 right child
// near-equal parameters, tiny and zero parameters
Instance choose_awkward(Chooser &c);

struct Chain {
  ManagerPtr manager;
  PsddNode *node = nullptr;
  VTP v;
  Labels labels;
  std::vector<double> p0, p1;  // probability of true given the previous variable (p0 == p1: independent)
  long double log_prob(const std::vector<int> &ev) const;  // ev: -1 free, 0, 1
};
Chain choose_chain(Chooser &c);
// tens of thousands of variables (balanced, independent) or more than a thousand in a line
Chain choose_giant(Chooser &c, int largest = 33000);
std::vector<std::pair<long double, long double>> chain_marginals(const Chain &ch);  // logs of false and true

struct Wide {
  ManagerPtr manager;
  PsddNode *node = nullptr;
  VTP v;
  Labels labels;
  Table dist;
  int left = 0;
};
Wide choose_wide(Chooser &c);
// more than 2^16 nodes at one vtree leaf (kind 0), elements in one decision (kind 1) or distinct decisions (kind 2)
struct Huge {
  ManagerPtr manager;
  PsddNode *node = nullptr;
  VTP v;
  Labels labels;
  int kind = 0;
  size_t elements = 0;  // of the root when kind 1
  double weight = 1;    // total of their weights
  long double log_prob(unsigned x) const;           // of a complete assignment
  std::vector<signed char> assignment(unsigned x) const;  // for log_weight
  bool same_prime(unsigned x, unsigned y) const;          // kind 2: the same node for the variable before the last
};
Huge choose_huge(Chooser &c, int kinds = 3);
std::vector<unsigned> huge_samples(const Huge &h);  // assignments that reach every region of the circuit
// log of the weight a circuit gives to a partial assignment (value[label] -1 free, 0, 1); each shared node once
long double log_weight(PsddNode *root, const std::vector<signed char> &value);
Vtree *root_vtree(const ManagerPtr &m);
long double logadd(long double a, long double b);
}  // namespace ref
