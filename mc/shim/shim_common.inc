// Shared by the explorer binaries and by the stand-alone programs: answers of htd and KaHyPar.
#include <kahypar/libkahypar.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <map>
#include <string>

#include "mc_htd_shim.hpp"

namespace htd {
static std::vector<vertex_t> minus(const std::vector<vertex_t> &a, const std::vector<vertex_t> &b) {
  std::vector<vertex_t> o;
  for (vertex_t x : a)
    if (std::find(b.begin(), b.end(), x) == b.end()) o.push_back(x);
  return o;
}
// Adds the chain of bags between `from` (existing node) and bag `to`, forgetting then introducing one at a
// time, and returns the last node, whose bag is `to`.
static vertex_t chain(ITreeDecomposition *d, vertex_t from, std::vector<vertex_t> to, bool fine) {
  if (!fine) return d->add(to, from);
  std::vector<vertex_t> cur = d->bags[from];
  vertex_t at = from;
  for (vertex_t x : minus(cur, to)) {
    cur.erase(std::find(cur.begin(), cur.end(), x));
    at = d->add(cur, at);
  }
  for (vertex_t x : minus(to, cur)) {
    cur.push_back(x);
    std::sort(cur.begin(), cur.end());
    at = d->add(cur, at);
  }
  if (at == from) at = d->add(to, from);
  return at;
}
ITreeDecomposition *chooseDecomposition(const IMultiHypergraph &g) {
  size_t n = g.n;
  // elimination order
  std::vector<vertex_t> rest, order;
  for (vertex_t v = 1; v <= n; v++) rest.push_back(v);
  while (!rest.empty()) {
    int k = rest.size() > 1 ? mcshim::choose((int)rest.size(), "decomposition order") : 0;
    order.push_back(rest[k]);
    rest.erase(rest.begin() + k);
  }
  std::vector<std::set<vertex_t>> adj(n + 1);
  for (auto &e : g.edges)
    for (vertex_t a : e)
      for (vertex_t b : e)
        if (a != b) adj[a].insert(b);
  std::vector<size_t> pos(n + 1);
  for (size_t i = 0; i < n; i++) pos[order[i]] = i;
  std::vector<std::vector<vertex_t>> bag(n);
  std::vector<std::vector<int>> nb(n);
  for (size_t i = 0; i < n; i++) {
    vertex_t v = order[i];
    std::vector<vertex_t> later;
    for (vertex_t w : adj[v])
      if (pos[w] > i) later.push_back(w);
    for (vertex_t a : later)
      for (vertex_t b : later)
        if (a != b) adj[a].insert(b);
    bag[i] = later;
    bag[i].push_back(v);
    std::sort(bag[i].begin(), bag[i].end());
    size_t p = n;
    for (vertex_t w : later) p = std::min(p, pos[w]);
    if (p == n && i + 1 < n) p = i + 1;  // another component: joined by an edge with empty intersection
    if (p < n) {
      nb[i].push_back((int)p);
      nb[p].push_back((int)i);
    }
  }
  size_t root = n > 1 ? (size_t)mcshim::choose((int)n, "decomposition root") : 0;
  int form = mcshim::choose(4, "decomposition form");
  bool fine = form & 1, empty_ends = form & 2;
  auto *d = new IMutableTreeDecomposition();
  vertex_t r = empty_ends ? chain(d, d->add({}, 0), bag[root], fine) : d->add(bag[root], 0);
  std::function<void(size_t, size_t, vertex_t)> go = [&](size_t i, size_t from, vertex_t at) {
    std::vector<int> ch;
    for (int j : nb[i])
      if ((size_t)j != from) ch.push_back(j);
    if (ch.empty() && empty_ends) {
      chain(d, at, {}, fine);
      return;
    }
    while (ch.size() > 1 && fine) {  // binary join nodes with identical bags
      vertex_t a = d->add(bag[i], at), b = d->add(bag[i], at);
      go((size_t)ch.back(), i, chain(d, a, bag[ch.back()], fine));
      ch.pop_back();
      at = b;
    }
    for (int j : ch) go((size_t)j, i, chain(d, at, bag[j], fine));
  };
  go(root, n, r);
  return d;
}
}  // namespace htd

struct kahypar_context_s {
  bool configured = false;
};
extern "C" {
kahypar_context_t *kahypar_context_new() { return new kahypar_context_s(); }
void kahypar_context_free(kahypar_context_t *c) { delete c; }
void kahypar_configure_context_from_file(kahypar_context_t *c, const char *file) {
  FILE *f = fopen(file, "r");
  if (!f) mcshim::misuse((std::string("KaHyPar configuration cannot be read: ") + file).c_str());
  char buf[512];
  bool objective = false, mode = false;
  while (fgets(buf, sizeof buf, f)) {
    if (!strncmp(buf, "objective=", 10)) objective = true;
    if (!strncmp(buf, "mode=", 5)) mode = true;
  }
  fclose(f);
  if (!objective || !mode) mcshim::misuse("KaHyPar configuration is incomplete");
  c->configured = true;
}
void kahypar_partition(const kahypar_hypernode_id_t n, const kahypar_hyperedge_id_t m, const double eps,
                       const kahypar_partition_id_t k, const kahypar_hypernode_weight_t *,
                       const kahypar_hyperedge_weight_t *, const size_t *idx, const kahypar_hyperedge_id_t *edges,
                       kahypar_hyperedge_weight_t *objective, kahypar_context_t *c,
                       kahypar_partition_id_t *partition) {
  if (!c || !c->configured) mcshim::misuse("KaHyPar context was not configured");
  if (k != 2) mcshim::misuse("only bipartitions are modelled");
  for (kahypar_hyperedge_id_t e = 0; e < m; e++) {
    if (idx[e] > idx[e + 1]) mcshim::misuse("KaHyPar hyperedge index array decreases");
    for (size_t j = idx[e]; j < idx[e + 1]; j++)
      if (edges[j] >= n) mcshim::misuse("KaHyPar hyperedge with a vertex out of range");
  }
  // every balanced bipartition with two non-empty blocks
  unsigned cap = (unsigned)((1 + eps) * ((n + 1) / 2));
  unsigned count[2] = {0, 0};
  for (unsigned i = 0; i < n; i++) {
    bool can0 = count[0] < cap, can1 = count[1] < cap;
    int b;
    if (i == n - 1 && (count[0] == 0 || count[1] == 0))
      b = count[0] == 0 ? 0 : 1;
    else if (can0 && can1)
      b = mcshim::choose(2, "block");
    else
      b = can0 ? 0 : 1;
    partition[i] = b;
    count[b]++;
  }
  int cut = 0;
  for (kahypar_hyperedge_id_t e = 0; e < m; e++) {
    bool s[2] = {false, false};
    for (size_t j = idx[e]; j < idx[e + 1]; j++) s[partition[edges[j]]] = true;
    cut += s[0] && s[1];
  }
  *objective = cut;
}
}
