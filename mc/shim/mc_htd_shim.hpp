// Stand-in for libhtd, which is not installed.  Same interface as far as the repository uses it; every
// answer the real library could give within its contract is a choice of the environment (mcshim::choose).
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#define HTD_UNUSED(var) (void)var;

namespace mcshim {
int choose(int n, const char *label);               // environment choice 0..n-1
[[noreturn]] void misuse(const char *what);         // the caller broke the library's precondition
}  // namespace mcshim

namespace htd {
typedef std::size_t id_t;
typedef id_t vertex_t;
typedef std::size_t index_t;
typedef std::vector<vertex_t> vertex_container;
typedef std::vector<id_t> id_container;
template <typename T>
using ConstCollection = std::vector<T>;
namespace Id {
enum { FIRST = 1, UNKNOWN = 0 };
}
namespace Vertex {
enum { FIRST = 1, UNKNOWN = 0 };
}

struct IMultiHypergraph {
  std::size_t n = 0;
  std::vector<std::vector<vertex_t>> edges;
  virtual ~IMultiHypergraph() {}
  std::size_t vertexCount() const { return n; }
  std::size_t edgeCount() const { return edges.size(); }
  bool isVertex(vertex_t v) const { return v >= 1 && v <= n; }
  vertex_t vertexAtPosition(index_t i) const { return i + 1; }
  std::vector<vertex_t> vertices() const {
    std::vector<vertex_t> r;
    for (vertex_t v = 1; v <= n; v++) r.push_back(v);
    return r;
  }
  vertex_t addVertex() { return ++n; }
  vertex_t addVertices(std::size_t k) {
    vertex_t f = n + 1;
    n += k;
    return f;
  }
  id_t addEdge(const std::vector<vertex_t> &e) {
    for (vertex_t v : e)
      if (v == 0 || v > n) mcshim::misuse("edge with a vertex that was never added");
    edges.push_back(e);
    return edges.size();
  }
  id_t addEdge(vertex_t a, vertex_t b) { return addEdge(std::vector<vertex_t>{a, b}); }
};
class LibraryInstance;
struct IMutableMultiHypergraph : IMultiHypergraph {};
struct MultiHypergraph : IMutableMultiHypergraph {
  explicit MultiHypergraph(const LibraryInstance *) {}
  MultiHypergraph(const LibraryInstance *, std::size_t k) { n = k; }
};

struct IVertexOrdering {
  std::vector<vertex_t> s;
  virtual ~IVertexOrdering() {}
  const std::vector<vertex_t> &sequence() const { return s; }
};
struct IOrderingAlgorithm {
  virtual ~IOrderingAlgorithm() {}
};
struct MinFillOrderingAlgorithm : IOrderingAlgorithm {
  explicit MinFillOrderingAlgorithm(const LibraryInstance *) {}
  // any sequence of all vertices, each once
  IVertexOrdering *computeOrdering(const IMultiHypergraph &g) const {
    auto *o = new IVertexOrdering();
    std::vector<vertex_t> rest;
    for (vertex_t v = 1; v <= g.n; v++) rest.push_back(v);
    while (!rest.empty()) {
      int k = rest.size() > 1 ? mcshim::choose((int)rest.size(), "elimination order") : 0;
      o->s.push_back(rest[k]);
      rest.erase(rest.begin() + k);
    }
    return o;
  }
};
using MinDegreeOrderingAlgorithm = MinFillOrderingAlgorithm;

// A rooted tree whose nodes carry bags.
struct ITreeDecomposition {
  std::vector<std::vector<vertex_t>> bags{{}};  // [1..]
  std::vector<std::vector<vertex_t>> kids{{}};
  std::vector<vertex_t> up{0};
  vertex_t root_ = 0;
  virtual ~ITreeDecomposition() {}
  vertex_t add(std::vector<vertex_t> bag, vertex_t parent) {
    bags.push_back(std::move(bag));
    kids.push_back({});
    up.push_back(parent);
    vertex_t v = bags.size() - 1;
    if (parent)
      kids[parent].push_back(v);
    else
      root_ = v;
    return v;
  }
  std::size_t vertexCount() const { return bags.size() - 1; }
  bool isVertex(vertex_t v) const { return v >= 1 && v < bags.size(); }
  std::vector<vertex_t> vertices() const {
    std::vector<vertex_t> r;
    for (vertex_t v = 1; v < bags.size(); v++) r.push_back(v);
    return r;
  }
  std::vector<vertex_t> leaves() const {
    std::vector<vertex_t> r;
    for (vertex_t v = 1; v < bags.size(); v++)
      if (kids[v].empty()) r.push_back(v);
    return r;
  }
  std::size_t leafCount() const { return leaves().size(); }
  vertex_t root() const { return root_; }
  bool isRoot(vertex_t v) const { return v == root_; }
  bool isLeaf(vertex_t v) const { return kids.at(v).empty(); }
  vertex_t parent(vertex_t v) const { return up.at(v); }
  std::size_t childCount(vertex_t v) const { return kids.at(v).size(); }
  const std::vector<vertex_t> &children(vertex_t v) const { return kids.at(v); }
  vertex_t childAtPosition(vertex_t v, index_t i) const { return kids.at(v).at(i); }
  std::vector<vertex_t> &mutableBagContent(vertex_t v) { return bags.at(check(v)); }
  const std::vector<vertex_t> &bagContent(vertex_t v) const { return bags.at(check(v)); }
  std::size_t bagSize(vertex_t v) const { return bagContent(v).size(); }
  std::size_t maximumBagSize() const {
    std::size_t m = 0;
    for (auto &b : bags) m = std::max(m, b.size());
    return m;
  }
  std::size_t height() const { return h(root_); }
  std::size_t h(vertex_t v) const {
    std::size_t m = 0;
    for (vertex_t c : kids[v]) m = std::max(m, 1 + h(c));
    return m;
  }
  vertex_t check(vertex_t v) const {
    if (v == 0 || v >= bags.size()) mcshim::misuse("bag of a vertex that does not exist");
    return v;
  }
};
struct IMutableTreeDecomposition : ITreeDecomposition {};

struct FitnessEvaluation {
  std::vector<double> v;
  FitnessEvaluation(int n, ...) {
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < n; i++) v.push_back(va_arg(ap, double));
    va_end(ap);
  }
  double at(index_t i) const { return v.at(i); }
};
struct ITreeDecompositionFitnessFunction {
  virtual ~ITreeDecompositionFitnessFunction() {}
  virtual FitnessEvaluation *fitness(const IMultiHypergraph &, const ITreeDecomposition &) const = 0;
  virtual ITreeDecompositionFitnessFunction *clone(void) const = 0;
};
struct IVertexSelectionStrategy {
  virtual ~IVertexSelectionStrategy() {}
};
struct RandomVertexSelectionStrategy : IVertexSelectionStrategy {
  explicit RandomVertexSelectionStrategy(std::size_t) {}
};
struct ExhaustiveVertexSelectionStrategy : IVertexSelectionStrategy {};
struct IDecompositionManipulationOperation {
  virtual ~IDecompositionManipulationOperation() {}
};
struct NormalizationOperation : IDecompositionManipulationOperation {
  explicit NormalizationOperation(const LibraryInstance *) {}
  template <class... A>
  NormalizationOperation(const LibraryInstance *, A...) {}
};
struct TreeDecompositionOptimizationOperation : IDecompositionManipulationOperation {
  ITreeDecompositionFitnessFunction *f = nullptr;
  std::vector<IDecompositionManipulationOperation *> ops;
  IVertexSelectionStrategy *s = nullptr;
  explicit TreeDecompositionOptimizationOperation(const LibraryInstance *) {}
  TreeDecompositionOptimizationOperation(const LibraryInstance *, ITreeDecompositionFitnessFunction *ff) : f(ff) {}
  ~TreeDecompositionOptimizationOperation() override {
    delete f;
    delete s;
    for (auto *o : ops) delete o;
  }
  void setManagementInstance(const LibraryInstance *) {}
  void addManipulationOperations(const std::vector<IDecompositionManipulationOperation *> &o) { ops.insert(ops.end(), o.begin(), o.end()); }
  void setVertexSelectionStrategy(IVertexSelectionStrategy *st) {
    delete s;
    s = st;
  }
  void addManipulationOperation(IDecompositionManipulationOperation *o) { ops.push_back(o); }
};
struct ITreeDecompositionAlgorithm {
  std::vector<IDecompositionManipulationOperation *> ops;
  virtual ~ITreeDecompositionAlgorithm() {
    for (auto *o : ops) delete o;
  }
  void addManipulationOperation(IDecompositionManipulationOperation *o) { ops.push_back(o); }
  void setManagementInstance(const LibraryInstance *) {}
};

struct OrderingAlgorithmFactory {
  IOrderingAlgorithm *t = nullptr;
  ~OrderingAlgorithmFactory() { delete t; }
  void setConstructionTemplate(IOrderingAlgorithm *a) {
    delete t;
    t = a;
  }
};
struct MultiHypergraphFactory {
  IMutableMultiHypergraph *createInstance() const { return new IMutableMultiHypergraph(); }
  IMutableMultiHypergraph *createInstance(std::size_t k) const {
    auto *g = new IMutableMultiHypergraph();
    g->n = k;
    return g;
  }
};
struct TreeDecompositionAlgorithmFactory {
  ITreeDecompositionAlgorithm *createInstance() const { return new ITreeDecompositionAlgorithm(); }
};
class LibraryInstance {
  OrderingAlgorithmFactory o;
  MultiHypergraphFactory m;
  TreeDecompositionAlgorithmFactory t;

 public:
  OrderingAlgorithmFactory &orderingAlgorithmFactory() { return o; }
  const MultiHypergraphFactory &multiHypergraphFactory() const { return m; }
  const TreeDecompositionAlgorithmFactory &treeDecompositionAlgorithmFactory() const { return t; }
  void terminate() {}
};
inline LibraryInstance *createManagementInstance(id_t) { return new LibraryInstance(); }

// Any valid rooted tree decomposition: bucket tree of an elimination order, any root, with the
// redundancies a normalised decomposition has.
ITreeDecomposition *chooseDecomposition(const IMultiHypergraph &g);

struct IterativeImprovementTreeDecompositionAlgorithm {
  ITreeDecompositionAlgorithm *a;
  ITreeDecompositionFitnessFunction *f;
  IterativeImprovementTreeDecompositionAlgorithm(const LibraryInstance *, ITreeDecompositionAlgorithm *aa,
                                                 ITreeDecompositionFitnessFunction *ff)
      : a(aa), f(ff) {}
  ~IterativeImprovementTreeDecompositionAlgorithm() {
    delete a;
    delete f;
  }
  void setIterationCount(std::size_t) {}
  void setNonImprovementLimit(std::size_t) {}
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g) const { return chooseDecomposition(g); }
  ITreeDecomposition *computeDecomposition(
      const IMultiHypergraph &g,
      const std::function<void(const IMultiHypergraph &, const ITreeDecomposition &, const FitnessEvaluation &)> &cb)
      const {
    ITreeDecomposition *d = chooseDecomposition(g);
    std::unique_ptr<FitnessEvaluation> e(f->fitness(g, *d));
    cb(g, *d, *e);
    return d;
  }
};

struct PostOrderTreeTraversal {
  void traverse(const ITreeDecomposition &t,
                const std::function<void(vertex_t, vertex_t, std::size_t)> &fn) const {
    go(t, t.root(), 0, 0, fn);
  }
  void go(const ITreeDecomposition &t, vertex_t v, vertex_t p, std::size_t d,
          const std::function<void(vertex_t, vertex_t, std::size_t)> &fn) const {
    for (vertex_t c : t.children(v)) go(t, c, v, d + 1, fn);
    fn(v, p, d);
  }
};
struct PreOrderTreeTraversal {
  void traverse(const ITreeDecomposition &t,
                const std::function<void(vertex_t, vertex_t, std::size_t)> &fn) const {
    go(t, t.root(), 0, 0, fn);
  }
  void go(const ITreeDecomposition &t, vertex_t v, vertex_t p, std::size_t d,
          const std::function<void(vertex_t, vertex_t, std::size_t)> &fn) const {
    fn(v, p, d);
    for (vertex_t c : t.children(v)) go(t, c, v, d + 1, fn);
  }
};
}  // namespace htd
