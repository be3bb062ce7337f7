// Model and vtree files written without the library.
#pragma once
#include <sstream>

#include "ref.h"

namespace ref {
inline std::string vtree_text(const VTP &v, const Labels &labels) {
  std::ostringstream o;
  int count = 0;
  {
    std::vector<VTP> all;
    internal_and_leaves(v, all);
    count = (int)all.size();
  }
  o << "c a vtree\nvtree " << count << "\n";
  int next = 0;
  std::function<int(const VTP &)> rec = [&](const VTP &x) -> int {
    if (x->leaf()) {
      int id = next++;
      o << "L " << id << " " << labels[x->var] << "\n";
      return id;
    }
    int l = rec(x->l), id = next++, r = rec(x->r);
    o << "I " << id << " " << l << " " << r << "\n";
    return id;
  };
  rec(v);
  return o.str();
}
inline std::string psdd_text(PsddNode *root) {
  std::ostringstream o;
  o.precision(17);
  std::map<PsddNode *, int> id;
  std::ostringstream body;
  body.precision(17);
  auto num = [](double d) {
    char b[64];
    if (std::isinf(d))
      snprintf(b, sizeof b, "-inf");
    else
      snprintf(b, sizeof b, "%.15g", d);
    return std::string(b);
  };
  std::function<void(PsddNode *)> rec = [&](PsddNode *n) {
    if (id.count(n)) return;
    long pos = (long)sdd_vtree_position(n->vtree_node());
    if (n->node_type() == DECISION_NODE_TYPE) {
      PsddDecisionNode *d = n->psdd_decision_node();
      for (auto p : d->primes()) rec(p);
      for (auto p : d->subs()) rec(p);
      int i = (int)id.size();
      id[n] = i;
      body << "D " << i << " " << pos << " " << d->primes().size();
      for (size_t k = 0; k < d->primes().size(); k++) body << " " << id[d->primes()[k]] << " " << id[d->subs()[k]] << " " << num(d->parameters()[k].parameter());
      body << "\n";
    } else {
      int i = (int)id.size();
      id[n] = i;
      if (n->node_type() == LITERAL_NODE_TYPE)
        body << "L " << i << " " << pos << " " << n->psdd_literal_node()->literal() << "\n";
      else
        body << "T " << i << " " << pos << " " << n->psdd_top_node()->variable_index() << " " << num(n->psdd_top_node()->false_parameter().parameter()) << " " << num(n->psdd_top_node()->true_parameter().parameter()) << "\n";
    }
  };
  rec(root);
  o << "c a model\npsdd " << id.size() << "\n" << body.str();
  return o.str();
}
}  // namespace ref
