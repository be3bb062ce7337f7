// Reference model: tables over all assignments, a recursive interpreter of circuits, exhaustive families
// of vtrees and distributions.
#pragma once
#include <psdd/cnf.h>
#include <psdd/psdd_manager.h>
#include <psdd/psdd_node.h>
#include <psdd/psdd_parameter.h>

#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "explorer.h"
extern "C" {
#include <sdd/sddapi.h>
}

namespace ref {
using mc::Chooser;

// ---------------------------------------------------------------- vtrees
struct VT;
using VTP = std::shared_ptr<VT>;
struct VT {
  int var = -1;  // 0-based variable of a leaf
  VTP l, r;
  bool leaf() const { return var >= 0; }
};
VTP leaf(int v);
VTP inode(VTP l, VTP r);
void leaves(const VTP &v, std::vector<int> &out);  // left to right
std::vector<int> leaves(const VTP &v);
void internal_and_leaves(const VTP &v, std::vector<VTP> &out);  // all nodes, parents first
std::string str(const VTP &v);
std::string str(Vtree *v);

// every binary tree over the given leaf sequence
VTP choose_shape(Chooser &c, const std::vector<int> &order);
// every order and every shape
VTP choose_vtree(Chooser &c, int n);
std::vector<int> choose_permutation(Chooser &c, int n);
VTP right_linear(int n, int from = 0);
VTP left_linear(int n, int from = 0);
VTP balanced(int n, int from = 0);
VTP named_shape(int kind, int n);  // 0 right, 1 left, 2 balanced

// variable numbering: labels[i] is the library's number of variable i
using Labels = std::vector<int>;
Labels dense(int n);
Labels choose_labels(Chooser &c, int n);         // dense or one of a few sparse numberings
Labels labels_kind(int kind, int n);             // 0 dense, 1 reversed dense, 2 sparse, 3 at the upper end
int label_kinds();

Vtree *to_sdd(const VTP &v, const Labels &labels);  // caller frees
bool same_shape(Vtree *v, const VTP &t, const Labels &labels);
// the manager's vtree node corresponding to t (a node of root)
Vtree *locate(Vtree *root_sdd, const VTP &root, const VTP &t);
PsddManager *make_manager(const VTP &v, const Labels &labels);

// ---------------------------------------------------------------- distributions
using Table = std::vector<double>;  // index bit i = variable i
double total(const Table &t);
Table normalized(const Table &t);

struct BuildOptions {
  bool compressed = true;    // group equal conditionals, else one element per left assignment
  bool explicit_zero = false;  // keep zero-probability branches (parameter zero) instead of dropping them
  bool reversed = false;     // list elements in the other order
  uintmax_t flag = 0;
};
std::string str(const BuildOptions &o);
BuildOptions choose_options(Chooser &c, bool with_zero = true);
// PSDD of the normalised table over the variables of v (bits of absent variables must not matter; pass a
// table over n variables that only depends on them).  nullptr for the zero table.
PsddNode *build(PsddManager *m, const VTP &v, const Labels &labels, const Table &t, const BuildOptions &o);

// ---------------------------------------------------------------- interpretation of a circuit
struct Assign {
  const Labels *labels;
  unsigned bits;
  bool value(uint32_t label) const;
};
long double prob(PsddNode *n, const Assign &a);   // product/sum semantics of the parameters
bool models(PsddNode *n, const Assign &a);        // support semantics, parameters ignored
Table table_of(PsddNode *n, const Labels &labels);  // over labels.size() variables
std::vector<PsddNode *> reachable(PsddNode *root);  // own traversal, by pointer, parents may repeat order
// structural well-formedness: every node sits at the right vtree node; flags as given (flag<0: any)
void check_wellformed(PsddNode *n, Vtree *v, long flag, const char *what);
// every decision / leaf sums to one
void check_normalized(PsddNode *n, const char *what, double tol = 1e-6);
// primes of every decision are mutually exclusive (small n)
void check_deterministic(PsddNode *n, const Labels &labels, const char *what);
std::string str(PsddNode *n);                      // content, canonical (elements sorted)
uint64_t fingerprint(PsddNode *n);                 // of the content, independent of addresses and order
// deep copy of everything observable about a set of nodes, to check later that nothing changed
struct Snapshot {
  struct N {
    int type;
    int32_t lit;
    uint32_t var;
    double a, b;
    std::vector<PsddNode *> primes, subs;
    std::vector<double> params;
    Vtree *v;
    uintmax_t index, flag;
    uintmax_t user;
    bool act;
  };
  std::vector<std::pair<PsddNode *, N>> nodes;
  void take(PsddNode *root);
  void check(const char *sig, bool scratch_too = true) const;
};

bool close(double a, double b, double rel = 1e-6, double abs = 1e-12);
bool close_log(double a, double b, double tol);  // both may be -inf

std::bitset<MAX_VAR> &zero_bits();
void set_bits(std::bitset<MAX_VAR> *b, const Labels &labels, unsigned bits);

// weights of a table chosen digit by digit from an alphabet
Table choose_table(Chooser &c, int n, const std::vector<double> &alphabet, bool nonzero = true);

std::string str(const Table &t);
std::string str(const Labels &l);
}  // namespace ref
