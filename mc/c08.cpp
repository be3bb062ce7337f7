// C08  writing and reading PSDD files
#include <cstring>
#include <fstream>
#include <sstream>

#include "family.h"
#include "match.h"
using namespace ref;

namespace {
// an independent reader of the documented syntax
struct File {
  struct N {
    char type;
    long vtree;
    long lit = 0;
    double lf = 0, lt = 0;
    std::vector<long> p, s;
    std::vector<double> w;
  };
  long declared = -1;
  std::map<long, N> nodes;
  std::vector<long> order;
};
double number(const std::string &s) {
  char *e = nullptr;
  double d = strtod(s.c_str(), &e);
  MC_CHECK(!s.empty() && e && *e == 0, "file", "not a number in the file: %s", s.c_str());
  return d;
}
long integer(const std::string &s) {
  char *e = nullptr;
  long d = strtol(s.c_str(), &e, 10);
  MC_CHECK(!s.empty() && e && *e == 0, "file", "not an integer in the file: %s", s.c_str());
  return d;
}
File parse(const std::string &content) {
  File f;
  std::istringstream in(content);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::vector<std::string> w;
    std::string x;
    while (ls >> x) w.push_back(x);
    if (w.empty() || w[0] == "c") continue;
    if (w[0] == "psdd") {
      MC_CHECK(w.size() == 2 && f.declared < 0 && f.order.empty(), "file", "bad header line: %s", line.c_str());
      f.declared = integer(w[1]);
      continue;
    }
    MC_CHECK(w.size() >= 4, "file", "short line: %s", line.c_str());
    long id = integer(w[1]);
    MC_CHECK(!f.nodes.count(id), "file", "id %ld appears twice", id);
    File::N n;
    n.type = w[0][0];
    n.vtree = integer(w[2]);
    n.lit = integer(w[3]);
    if (w[0] == "L")
      MC_CHECK(w.size() == 4, "file", "bad literal line: %s", line.c_str());
    else if (w[0] == "T") {
      MC_CHECK(w.size() == 6, "file", "bad free-variable line: %s", line.c_str());
      n.lf = number(w[4]);
      n.lt = number(w[5]);
    } else {
      MC_CHECK(w[0] == "D" && (long)w.size() == 4 + 3 * n.lit, "file", "bad decision line: %s", line.c_str());
      for (size_t i = 4; i < w.size(); i += 3) {
        n.p.push_back(integer(w[i]));
        n.s.push_back(integer(w[i + 1]));
        n.w.push_back(number(w[i + 2]));
        MC_CHECK(f.nodes.count(n.p.back()) && f.nodes.count(n.s.back()), "file-order", "a child is listed after its parent: %s", line.c_str());
      }
    }
    f.nodes[id] = n;
    f.order.push_back(id);
  }
  return f;
}
void same_log(Chooser &c, double want, double got, const char *sig, const char *what) {
  c.op();
  if (std::isinf(want))
    MC_CHECK(got == want, sig, "%s: zero parameter became log %.12g", what, got);
  else
    MC_CHECK(fabs(want - got) <= 7e-7 + 1e-12 * fabs(want), sig, "%s: log parameter %.12g became %.12g", what, want, got);
}
template <class M>
void compare(Chooser &c, M &m, PsddNode *a, PsddNode *b) {
  m.hook = [&](PsddNode *x, PsddNode *y, const std::vector<size_t> &order) {
    if (x->node_type() == TOP_NODE_TYPE) {
      same_log(c, log_true(x), log_true(y), "parameter", "free variable, true");
      same_log(c, log_false(x), log_false(y), "parameter", "free variable, false");
    }
    for (size_t i = 0; i < order.size(); i++) same_log(c, log_param(x, i), log_param(y, order[i]), "parameter", "element");
  };
  m.run(a, b);
}
// the file says exactly what the circuit is
void check_file(Chooser &c, PsddNode *root, const std::string &content) {
  File f = parse(content);
  std::vector<PsddNode *> all = reachable(root);
  MC_CHECK(f.declared == (long)f.order.size(), "file-count", "header declares %ld nodes, %zu are listed", f.declared, f.order.size());
  MC_CHECK(f.order.size() == all.size(), "file-count", "%zu nodes listed for a circuit of %zu", f.order.size(), all.size());
  c.op(2);
  // pair from the root down; elements are listed in some order
  std::map<std::pair<PsddNode *, long>, bool> memo;
  std::function<bool(PsddNode *, long)> eq = [&](PsddNode *n, long id) -> bool {
    auto key = std::make_pair(n, id);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    const File::N &e = f.nodes.at(id);
    bool r = false;
    auto lg = [](double a, double b) { return a == b || fabs(a - b) <= 7e-7 + 1e-12 * fabs(a); };
    bool vt = e.vtree == sdd_vtree_position(n->vtree_node());
    if (n->node_type() == LITERAL_NODE_TYPE)
      r = vt && e.type == 'L' && e.lit == n->psdd_literal_node()->literal();
    else if (n->node_type() == TOP_NODE_TYPE)
      r = vt && e.type == 'T' && e.lit == (long)n->psdd_top_node()->variable_index() && lg(log_true(n), e.lt) && lg(log_false(n), e.lf);
    else if (vt && e.type == 'D') {
      auto d = n->psdd_decision_node();
      size_t k = d->primes().size();
      if (k == e.p.size()) {
        std::vector<bool> used(k, false);
        r = true;
        for (size_t i = 0; i < k && r; i++) {
          bool ok = false;
          for (size_t jj = 0; jj < k && !ok; jj++) {
            size_t j = (i + jj) % k;
            if (used[j] || !lg(log_param(n, i), e.w[j])) continue;
            if (eq(d->primes()[i], e.p[j]) && eq(d->subs()[i], e.s[j])) {
              used[j] = true;
              ok = true;
            }
          }
          r = ok;
        }
      }
    }
    memo[key] = r;
    return r;
  };
  MC_CHECK(!f.order.empty() && eq(root, f.order.back()), "file-content", "the last node of the file does not describe the circuit: %s", all.size() < 40 ? content.c_str() : "(large)");
  c.op();
}
struct TmpFiles {
  std::string a, b, vt;
  explicit TmpFiles(Chooser &c) : a(c.scratch() + "/a.psdd"), b(c.scratch() + "/b.psdd"), vt(c.scratch() + "/v.vtree") {}
};
void roundtrip(Chooser &c, PsddManager *m, PsddNode *root, const Labels *labels) {
  TmpFiles t(c);
  // overwriting a longer file must not leave anything of it
  mc::write_file(t.a, std::string(5000, 'x') + "\nD 99 1 1 5 5 5\n");
  Snapshot snap;
  snap.take(root);
  psdd_node_util::WritePsddToFile(root, t.a.c_str());
  snap.check("changed-by-writing", false);
  std::string content = mc::read_file(t.a);
  check_file(c, root, content);
  // same manager
  PsddNode *r1 = m->ReadPsddFile(t.a.c_str(), 41), *r2 = m->ReadPsddFile(t.a.c_str(), 41);
  snap.check("changed-by-reading", false);
  MC_CHECK(r1 != nullptr && r1 == r2, "twice", "reading the file twice gives two nodes: %s and %s", str(r1).c_str(), str(r2).c_str());
  check_wellformed(r1, root->vtree_node(), 41, "read back");
  // a manager over a vtree that went through a file as well; it already holds other nodes
  sdd_vtree_save(t.vt.c_str(), m->vtree());
  Vtree *v2 = sdd_vtree_read(t.vt.c_str());
  ManagerPtr m2(PsddManager::GetPsddManagerFromVtree(v2));
  sdd_vtree_free(v2);
  bool stocked = c.flip("stocked");
  PsddNode *stock = nullptr;
  Snapshot ssnap;
  if (stocked) {
    stock = m2->GetTrueNode(m2->vtree(), 5);
    ssnap.take(stock);
  }
  PsddNode *r3 = m2->ReadPsddFile(t.a.c_str(), 5);
  if (stocked) ssnap.check("others-changed", false);
  Vtree *at = nullptr;
  for (Vtree *w : vtree_util::SerializeVtree(m2->vtree()))
    if (sdd_vtree_position(w) == sdd_vtree_position(root->vtree_node())) at = w;
  check_wellformed(r3, at, 5, "read elsewhere");
  for (PsddNode *r : {r1, r3}) {
    if (labels) {
      Matcher mt{*labels, "structure"};
      compare(c, mt, root, r);
    } else {
      BigMatcher mt{"structure"};
      compare(c, mt, root, r);
    }
    check_normalized(r, "read back", 2e-5);
  }
  // comments anywhere, and once more through the file
  psdd_node_util::WritePsddToFile(r3, t.b.c_str());
  std::string second = mc::read_file(t.b);
  check_file(c, r3, second);
  std::string noisy = "c D 0 1 2\n";
  std::istringstream in(second);
  std::string line;
  while (std::getline(in, line)) noisy += line + "\nc L 0 0 1\n";
  mc::write_file(t.b, noisy);
  PsddNode *r4 = m2->ReadPsddFile(t.b.c_str(), 5);
  MC_CHECK(r4 == r3, "idempotent", "writing and reading what was read gives %s instead of %s", str(r4).c_str(), str(r3).c_str());
  c.op(3);
  c.state(fingerprint(r3));
}
void family(Chooser &c) {
  Family f = choose_family(c);
  Instance i = build_instance(c, f);
  roundtrip(c, i.manager.get(), i.node, &i.labels);
}
void embedded(Chooser &c) {
  Family f = choose_family(c, 0);
  Instance i = build_embedded(c, f);
  roundtrip(c, i.manager.get(), i.node, &i.labels);
}
void awkward(Chooser &c) {
  Instance i = choose_awkward(c);
  roundtrip(c, i.manager.get(), i.node, &i.labels);
}
// parameters at and between the printed decimals, zero and one
void leaves_(Chooser &c) {
  static const std::vector<double> lg = {0, -1e-7, -4.9e-7, -5.1e-7, -1e-6, -0.5, -0.693147, -0.6931475, -9.9999999, -13.8155, -100.123456789, -745, -800, -12345.678901, -1e9};
  double x = c.pick(lg, "log");
  int kind = c.choose(4, "kind");
  VTP v = inode(leaf(0), leaf(1));
  Labels l = choose_labels(c, 2);
  ManagerPtr m(make_manager(v, l));
  auto L = [](double d) { return PsddParameter::CreateFromLog(d); };
  double y = x == 0 ? -INFINITY : log(-expm1(x));  // the rest
  if (x < -700) y = 0;
  PsddNode *root;
  if (kind == 0)
    root = m->GetPsddTopNode(l[0], 2, L(x), L(y));
  else if (kind == 1)
    root = m->GetPsddTopNode(l[1], 2, L(y), L(x));
  else if (kind == 2)
    root = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(l[0], 2), m->GetPsddLiteralNode(-l[0], 2)},
                                           {m->GetPsddTopNode(l[1], 2, L(x), L(y)), m->GetPsddTopNode(l[1], 2, L(y), L(x))}, {L(x), L(y)}, 2);
  else
    root = m->GetPsddLiteralNode(x < -1 ? l[0] : -l[1], 2);
  c.describef("log %.12g kind %d", x, kind);
  roundtrip(c, m.get(), root, &l);
}
void wide(Chooser &c) {
  Wide w = choose_wide(c);
  roundtrip(c, w.manager.get(), w.node, &w.labels);
}
void chains(Chooser &c) {
  Chain ch = choose_chain(c);
  roundtrip(c, ch.manager.get(), ch.node, nullptr);
}
void giant(Chooser &c) {
  Chain ch = choose_giant(c);
  roundtrip(c, ch.manager.get(), ch.node, nullptr);
}
void huge(Chooser &c) {
  Huge h = choose_huge(c);
  roundtrip(c, h.manager.get(), h.node, nullptr);
}
}  // namespace

void mc::register_scenarios(bool) {
  add("family", family);
  add("embedded", embedded);
  add("awkward", awkward);
  add("leaves", leaves_);
  add("wide", wide);
  add("chains", chains);
  add("giant", giant);
  add("huge", huge);
}
