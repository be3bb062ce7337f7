// C27  no operation does anything undefined on valid input
//
// Everything is built with the address and undefined behaviour sanitizers, checked containers and patterned stack
// variables, and asked on every member of small families.  Each execution runs twice on memory that held different
// bytes before: an answer that differs came from something never written.
#include <psdd/hypergraph_decomposition_vtree.h>
#include <psdd/jointree_vtree.h>
#include <psdd/minfill_vtree.h>
#include <psdd/pgm_compiler.h>
extern "C" {
#include <psdd/csvparser.h>
}
#include <psdd/binary_data.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <new>

#include "family.h"
#include "files.h"
#include "net.h"
#include "sddx.h"
#include "shim_explorer.h"
using namespace ref;

static int g_fill = -1;
void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g_fill >= 0) memset(p, g_fill, n);
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  void *p = malloc(n ? n : 1);
  if (p && g_fill >= 0) memset(p, g_fill, n);
  return p;
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return operator new(n, std::nothrow); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

namespace {
struct Answers {
  std::vector<double> v;
  void add(double x) { v.push_back(x); }
  void add(const PsddParameter &x) { v.push_back(x.parameter()); }
  void add(const std::string &s) { v.push_back((double)(mc::hash_str(s) >> 12)); }
};
// runs body on fresh objects over memory of zeros and over memory of other bytes
void both(Chooser &c, const std::function<void(Answers &)> &body) {
  Answers a[2];
  const int fills[] = {0, 0xb7};
  for (int k = 0; k < 2; k++) {
    g_fill = fills[k];
    try {
      body(a[k]);
    } catch (mc::SkipExecution &) {
      g_fill = -1;
      throw;
    }
    g_fill = -1;
  }
  MC_CHECK(a[0].v.size() == a[1].v.size(), "answers", "%zu answers the first time and %zu the second", a[0].v.size(), a[1].v.size());
  for (size_t i = 0; i < a[0].v.size(); i++) {
    double x = a[0].v[i], y = a[1].v[i];
    c.op();
    MC_CHECK(x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 1e-6 * std::max(1.0, std::fabs(x)), "answers", "answer %zu is %.12g or %.12g, depending on what the memory held before", i, x, y);
  }
  uint64_t h = 5;
  for (double x : a[0].v) {
    float f = (float)x;
    uint32_t b;
    memcpy(&b, &f, 4);
    h = mc::mix(h, b);
  }
  c.state(h);
}
class Ramp : public RandomDoubleGenerator {
 public:
  double generate() override { return 0.25 + (k_++ % 7); }

 private:
  int k_ = 0;
};
class Weyl : public RandomDoubleFromUniformGenerator {
 public:
  Weyl() : RandomDoubleFromUniformGenerator(0, 0, 1) {}
  double generate() override { return x_ = std::fmod(x_ + 0.6180339887, 1.0); }

 private:
  double x_ = 0.1;
};
void questions(PsddNode *p, const Labels &l, Answers &a, const std::vector<unsigned> &points, bool huge = false) {
  static std::bitset<MAX_VAR> mask, inst;
  auto ser = psdd_node_util::SerializePsddNodes(p);
  a.add((double)ser.size());
  a.add(psdd_node_util::ModelCount(ser).get_str());
  a.add((double)psdd_node_util::GetCoveredPsddNodes({p}).size());
  int n = (int)l.size();
  for (unsigned q = 0; q < 3; q++)
    for (unsigned x : points) {
      unsigned seen = q == 0 ? ~0u : q == 1 ? x * 2654435761u >> 7 : 0;
      std::unordered_map<uint32_t, bool> map;
      for (int i = 0; i < n; i++) {
        mask[(size_t)l[(size_t)i]] = seen >> i % 30 & 1;
        inst[(size_t)l[(size_t)i]] = x >> i % 30 & 1;
        if (seen >> i % 30 & 1) map[(uint32_t)l[(size_t)i]] = x >> i % 30 & 1;
      }
      a.add(psdd_node_util::Evaluate(mask, inst, ser));
      if (!huge || x == points[0]) a.add(psdd_node_util::Evaluate(mask, inst, p));
      a.add(psdd_node_util::IsConsistent(ser, mask, inst));
      a.add(psdd_node_util::IsConsistent(p, mask, inst));
      a.add(p->IsConsistent(map));
      if (q == 0) {
        psdd_node_util::SetActivationFlag(inst, ser);
        a.add(p->activation_flag());
      }
    }
  auto marginals = psdd_node_util::GetMarginals(ser);
  for (int x : l)
    if (marginals.count((uint32_t)x)) {
      a.add(marginals[(uint32_t)x].first);
      a.add(marginals[(uint32_t)x].second);
    }
  for (int form = 0; form < 2; form++) a.add((form ? psdd_node_util::GetMPESolution(p) : psdd_node_util::GetMPESolution(ser)).second);
  Weyl g;
  for (int k = 0; k < 4; k++) {
    std::bitset<MAX_VAR> drawn;
    p->DirectSample(&drawn, &g);
  }
  psdd_node_util::GetPsddSize(p);
  for (int i = 0; i < n; i++) mask[(size_t)l[(size_t)i]] = inst[(size_t)l[(size_t)i]] = false;
}
void weights(PsddNode *p, const Labels &l, Answers &a, const std::vector<unsigned> &points) {
  if (!p) {
    a.add(-1);
    return;
  }
  static std::vector<signed char> v(MAX_VAR + 1, -1);
  for (unsigned x : points) {
    for (size_t i = 0; i < l.size(); i++) v[(size_t)l[i]] = (signed char)(x >> i % 30 & 1);
    a.add((double)log_weight(p, v));
  }
  for (int i : l) v[(size_t)i] = -1;
  a.add((double)log_weight(p, v));
}
// p over the variables labelled l in m, q another circuit at the same vtree node
void operations(Chooser &c, PsddManager *m, PsddNode *p, PsddNode *q, const Labels &l, Answers &a, const std::vector<unsigned> &points, const VTP &root, const Labels &all, bool own_vtree) {
  std::string f = c.scratch() + "/p.psdd";
  psdd_node_util::WritePsddToFile(p, f.c_str());
  PsddNode *r = m->ReadPsddFile(f.c_str(), 3);
  weights(r, l, a, points);
  ManagerPtr other(make_manager(root, all));
  weights(other->LoadPsddNode(other->vtree(), p, 4), l, a, points);
  for (PsddNode *o : {p, q, r}) {
    auto z = m->Multiply(p, o, 5);
    a.add(z.second);
    weights(z.first, l, a, points);
  }
  std::vector<unsigned> rows;
  for (unsigned x : points) {
    std::unordered_map<uint32_t, bool> map;
    for (size_t i = 0; i < l.size(); i++) map[(uint32_t)l[i]] = x >> i % 30 & 1;
    if (p->IsConsistent(map)) rows.insert(rows.end(), 1 + x % 3, x);
  }
  std::unordered_map<int32_t, BatchedPsddValue> ex;
  for (size_t i = 0; i < l.size(); i++) {
    BatchedPsddValue b;
    for (unsigned x : rows) b.push_back(x >> i % 30 & 1);
    ex[l[i]] = b;
  }
  PsddNode *lrn = m->LearnPsddParameters(p, ex, rows.size(), PsddParameter::CreateFromDecimal(1), 7);
  weights(lrn, l, a, points);
  Ramp ramp, ramp2;
  check_normalized(m->SampleParameters(&ramp, p, 8), "sampled");
  for (auto s : m->SampleParametersForMultiplePsdds(&ramp2, {p, lrn, p}, 9)) questions(s, l, *std::make_unique<Answers>(), {points[0]});
  weights(m->NormalizePsddNode(m->vtree(), p, 10), l, a, points);
  if (p->node_type() == DECISION_NODE_TYPE)
    for (PsddNode *part : {p->psdd_decision_node()->primes().back(), p->psdd_decision_node()->subs()[0]}) weights(m->NormalizePsddNode(m->vtree(), part, 11), l, a, points);
  if (own_vtree) {
    std::unordered_map<SddLiteral, SddLiteral> map;
    for (size_t i = 0; i < l.size(); i++) map[l[i]] = (SddLiteral)i + 1;
    SddManager *sm = sdd_of(root, (int)l.size());
    SddNode *s = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(p), map, sm);
    std::unordered_map<uint32_t, uint32_t> to;
    for (size_t i = 0; i < l.size(); i++) to[(uint32_t)i + 1] = (uint32_t)l[i];
    ManagerPtr back(PsddManager::GetPsddManagerFromSddVtree(sdd_manager_vtree(sm), to));
    weights(back->ConvertSddToPsdd(s, sdd_manager_vtree(sm), 2), l, a, points);
  }
  for (size_t i = 0; i < l.size(); i += 3) {
    PsddNode *lit = m->GetPsddLiteralNode(i % 2 ? l[i] : -l[i], 0);
    PsddNode *whole = m->NormalizePsddNode(m->vtree(), lit, 0);
    PsddNode *mine = m->NormalizePsddNode(m->vtree(), p, 0);
    auto z = m->Multiply(whole, mine, 0);
    a.add(z.second);
    weights(z.first, l, a, points);
  }
  m->DeleteUnusedPsddNodes({p, lrn});
  weights(lrn, l, a, points);
  questions(p, l, a, {points[0]});
  m->DeleteUnusedPsddNodes({});
}
std::vector<unsigned> all_points(int n) {
  std::vector<unsigned> r;
  for (unsigned x = 0; x < 1u << n; x++) r.push_back(x);
  return r;
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  mc::add("models", [=](Chooser &c) {
    Family f = choose_family(c, thorough ? 2 : 0);
    int place = thorough && f.n > 2 ? 0 : c.choose(3, "place");
    both(c, [&](Answers &a) {
      Instance i = build_at(c, f, place);
      Labels all = f.labels;
      all.push_back(all[0] == 65535 || all[0] == 7 ? 11 : 900);
      Table t2 = f.t;
      std::rotate(t2.begin(), t2.begin() + 1, t2.end());
      PsddNode *q = build(i.manager.get(), f.v, f.labels, t2, f.o);
      auto pts = all_points(f.n);
      questions(i.node, f.labels, a, pts);
      operations(c, i.manager.get(), i.node, q, f.labels, a, pts, i.root, all, place == 0);
    });
  });
  mc::add("extreme", [=](Chooser &c) {
    // weights at the ends of the range
    static const std::vector<double> w = {1, 1e-290, 0, 1e290};
    Family f;
    f.n = 2;
    f.v = choose_vtree(c, 2);
    f.labels = labels_kind(thorough ? c.choose(4, "labels") : 3, 2);
    f.o = choose_options(c);
    f.t = choose_table(c, 2, w);
    both(c, [&](Answers &a) {
      Instance i = build_at(c, f, 0);
      auto pts = all_points(2);
      questions(i.node, f.labels, a, pts);
      operations(c, i.manager.get(), i.node, i.node, f.labels, a, pts, i.root, f.labels, true);
    });
  });
  mc::add("wide", [=](Chooser &c) {
    int left = thorough ? 5 + c.choose(3, "left") : 7, right = 1 + c.choose(2, "right"), shape = c.choose(3, "shape"), pattern = c.choose(2, "pattern");
    VTP v = inode(named_shape(shape, left), right == 1 ? leaf(left) : inode(leaf(left), leaf(left + 1)));
    int n = left + right;
    Labels l = labels_kind(thorough ? 2 * c.choose(2, "sparse") : pattern * 2, n);
    c.describef("%d+%d variables, shape %d, pattern %d", left, right, shape, pattern);
    both(c, [&](Answers &a) {
      ManagerPtr m(make_manager(v, l));
      Table t(size_t(1) << n);
      for (size_t x = 0; x < t.size(); x++) t[x] = pattern && x % 5 == 0 ? 0 : 1 + (double)((x * 7919) % 97);
      BuildOptions o;
      o.compressed = false;
      PsddNode *p = build(m.get(), v, l, t, o);
      for (auto &x : t) x = x > 40 ? 1 : x;
      PsddNode *q = build(m.get(), v, l, t, o);
      std::vector<unsigned> pts = {1, 6, (1u << n) - 1, 37};
      questions(p, l, a, pts);
      operations(c, m.get(), p, q, l, a, pts, v, l, true);
    });
  });
  // a line of many variables
  mc::add("long", [=](Chooser &c) {
    std::vector<int> sizes{65, 130};
    if (thorough) sizes.insert(sizes.end(), {63, 64, 127, 128, 200});
    int n = c.pick(sizes, "n"), shape = c.choose(3, "shape"), kind = c.choose(3, "labels");
    VTP v = named_shape(shape, n);
    Labels l = labels_kind(kind, n);
    c.describef("%d variables, shape %d, labels %d", n, shape, kind);
    both(c, [&](Answers &a) {
      ManagerPtr m(make_manager(v, l));
      auto make = [&](int salt) {
        std::function<PsddNode *(const VTP &)> rec = [&](const VTP &x) -> PsddNode * {
          auto P = [](double d) { return PsddParameter::CreateFromDecimal(d); };
          if (x->leaf()) {
            if ((x->var + salt) % 5 == 0) return m->GetPsddLiteralNode(x->var % 2 ? l[(size_t)x->var] : -l[(size_t)x->var], 0);
            return m->GetPsddTopNode((uint32_t)l[(size_t)x->var], 0, P(0.25), P(0.75));
          }
          return m->GetConformedPsddDecisionNode({rec(x->l)}, {rec(x->r)}, {P(1)}, 0);
        };
        return rec(v);
      };
      PsddNode *p = make(0), *q = make(5);
      std::vector<unsigned> pts = {0xaaaaaaaau, 0, 0x12345678u};
      questions(p, l, a, pts);
      operations(c, m.get(), p, q, l, a, pts, v, l, n <= 65);
    });
  });
  mc::add("functions", [=](Chooser &c) {
    int n = 2 + c.choose(2, "n");
    VTP v = thorough || n < 3 ? choose_vtree(c, n) : named_shape(c.choose(2, "shape"), n);
    int place = c.choose(3, "place");
    uint64_t mask = 1 + (uint64_t)c.choose(n == 2 ? 15 : 255, "function");
    c.describef("%s function %llx", str(v).c_str(), (unsigned long long)mask);
    both(c, [&](Answers &a) {
      SddManager *sm = sdd_of(v, n);
      std::vector<int> vars;
      for (int i = 0; i < n; i++) vars.push_back(i);
      SddNode *s = sdd_from_table(sm, vars, mask);
      VTP root = place == 0 ? v : place == 1 ? inode(v, leaf(n)) : inode(leaf(n), v);
      Labels all = labels_kind(2, n + 1), l(all.begin(), all.begin() + n);
      ManagerPtr m(make_manager(root, all));
      std::unordered_map<uint32_t, uint32_t> to;
      for (int i = 0; i < n; i++) to[(uint32_t)i + 1] = (uint32_t)l[(size_t)i];
      if (place == 0) {
        ManagerPtr back(PsddManager::GetPsddManagerFromSddVtree(sdd_manager_vtree(sm), to));
        PsddNode *p = back->ConvertSddToPsdd(s, sdd_manager_vtree(sm), 1);
        questions(p, l, a, all_points(n));
        operations(c, back.get(), p, p, l, a, all_points(n), v, l, true);
        PsddNode *z = back->ConvertSddToPsdd(sdd_manager_false(sm), sdd_manager_vtree(sm), 1);
        a.add(z == nullptr);
      }
      std::vector<std::vector<SddLiteral>> clauses;
      for (unsigned x = 0; x < 1u << n; x++)
        if (!(mask >> x & 1)) {
          clauses.emplace_back();
          for (int i = 0; i < n; i++) clauses.back().push_back(x >> i & 1 ? -l[(size_t)i] : l[(size_t)i]);
        }
      weights(CNF(clauses).Compile(m.get(), 3), l, a, all_points(n));
    });
  });
  mc::add("texts", [=](Chooser &c) {
    static const std::vector<std::string> cnf = {"p cnf 3 2\n1 -2 0\n3 0\n", "c x\np cnf 3 0\n", "c\n\np cnf 3 3\n1 2 3 0\n-1 0\n2 -3 0", "p cnf 3 1\n1 2 0\n%\n0\n", "p cnf 3 2\n1 -1 0\n2 2 2 0\n", "p cnf 3 2\n1 0\n-1 0\n"};
    static const std::vector<std::string> csv = {"0,1,0\n1,1,1\n0,1,0\n", "0,1,0\n1,1,1", "1\n0\n", "0, 1 ,1\n", "0,1\r\n1,1\r\n", "\"0\",\"1\"\n1,0\n"};
    static const std::vector<std::string> json = {"{\"variable_size\":3,\"data\":[[1,2],[],[3],[1,2]]}", "{\"data\":[],\"variable_size\":3}", "{\"variable_size\":65535,\"data\":[[65535,1]]}"};
    static const std::vector<std::string> fields = {"a,b\n", "\"a\"\"b\",c\n\n", ",,\n", "\"x\ny\",z", "a\r\nb\r\n", "\"\"\n", "a;b\tc\n", "\"open,\n", "\xff\xfe,a\n"};
    int kind = c.choose(4, "kind");
    std::string f = c.scratch() + "/in";
    const std::string &t = kind == 0 ? c.pick(cnf, "cnf") : kind == 1 ? c.pick(csv, "csv") : kind == 2 ? c.pick(json, "json") : c.pick(fields, "fields");
    int mode = kind == 3 ? c.choose(4, "mode") : 0;
    c.describe(t);
    mc::write_file(f, t);
    both(c, [&](Answers &a) {
      if (kind == 0) {
        ManagerPtr m(make_manager(balanced(3), dense(3)));
        CNF x(f.c_str());
        PsddNode *p = x.Compile(m.get(), 0);
        weights(p, dense(3), a, all_points(3));
      } else if (kind == 1 || kind == 2) {
        std::unique_ptr<BinaryData> d(kind == 1 ? new BinaryData : BinaryData::ReadSparseDataJsonFile(f.c_str()));
        if (kind == 1) {
          d->set_variable_size(t.size() > 4 ? 2 : 1);
          d->ReadFile(f.c_str());
        }
        a.add((double)d->data_size());
        a.add(d->variable_size());
        uint64_t sum = 0;
        for (auto &x : d->data()) sum += x.second * (x.first.count() + 1);
        a.add((double)sum);
        std::string o = c.scratch() + "/out";
        d->WriteFile(o.c_str());
        a.add((double)mc::read_file(o).size());
      } else {
        CsvParser *p = mode & 1 ? CsvParser_new(f.c_str(), ",", mode & 2) : CsvParser_new_from_string(t.c_str(), ",", mode & 2);
        if (mode & 2) {
          const CsvRow *h = CsvParser_getHeader(p);
          a.add(h ? CsvParser_getNumFields(const_cast<CsvRow *>(h)) : -1);
        }
        while (CsvRow *r = CsvParser_getRow(p)) {
          const char **fs = CsvParser_getFields(r);
          for (int i = 0; i < CsvParser_getNumFields(r); i++) a.add(std::string(fs[i]));
          CsvParser_destroy_row(r);
        }
        a.add(CsvParser_getErrorMessage(p) ? std::string(CsvParser_getErrorMessage(p)) : "none");
        CsvParser_destroy(p);
      }
    });
  });
  // long words, long lines, many fields, long names
  mc::add("tokens", [=](Chooser &c) {
    int kind = c.choose(4, "kind");
    if (kind == 0) {
      static const std::vector<int> lengths = {1, 31, 32, 61, 62, 63, 64, 65, 66, 126, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025};
      int len = c.pick(lengths, "length"), quoted = c.choose(3, "quoted"), end = c.choose(3, "end"), file = c.choose(2, "file");
      bool many = c.flip("many");
      std::string text;
      if (many) {
        for (int i = 0; i < len; i++) text += std::string(i ? "," : "") + (quoted == 1 ? "\"1\"" : quoted == 2 && i == len - 1 ? "" : "1");
      } else {
        text = "x," + (quoted == 0 ? std::string((size_t)len, 'y') : quoted == 1 ? '"' + std::string((size_t)len, 'y') + '"' : '"' + std::string((size_t)len, 'y') + "\"\"\"") + ",z";
      }
      text += end == 0 ? "" : end == 1 ? "\n" : "\r\nw\r\n";
      c.describe("length " + std::to_string(len) + " quoted " + std::to_string(quoted));
      std::string f = c.scratch() + "/in";
      mc::write_file(f, text);
      both(c, [&](Answers &a) {
        CsvParser *p = file ? CsvParser_new(f.c_str(), ",", 0) : CsvParser_new_from_string(text.c_str(), ",", 0);
        while (CsvRow *r = CsvParser_getRow(p)) {
          const char **fs = CsvParser_getFields(r);
          a.add(CsvParser_getNumFields(r));
          for (int i = 0; i < CsvParser_getNumFields(r); i++) a.add(std::string(fs[i]));
          CsvParser_destroy_row(r);
        }
        CsvParser_destroy(p);
        if (many && quoted != 2 && end != 2) {
          BinaryData d;
          d.set_variable_size((uint32_t)len);
          d.ReadFile(f.c_str());
          a.add((double)d.data_size());
          d.WriteFile((f + ".out").c_str());
          a.add((double)mc::read_file(f + ".out").size());
        }
      });
      return;
    }
    // the same numbers written with few and with many digits
    static const std::vector<int> digits = {1, 6, 15, 17, 40, 70, 140, 300};
    int d = c.pick(digits, "digits"), padding = c.choose(3, "padding"), form = c.choose(3, "form");
    static const std::vector<size_t> names = {1, 40, 100, 200};
    size_t name = c.pick(names, "name");
    auto number = [&](double x) {
      char b[700];
      snprintf(b, sizeof b, form == 0 ? "%.*f" : form == 1 ? "%.*e" : "+%.*f", d, x);
      return std::string(b) + std::string(padding == 2 ? 200 : (size_t)padding, ' ');
    };
    std::string dir = c.scratch() + "/" + std::string(name, 'n');
    mkdir(dir.c_str(), 0700);
    std::string f = dir + "/" + std::string(name, 'f');
    if (kind == 1) {
      std::string text = "c " + std::string((size_t)d, 'c') + "\npsdd 4\nT 0 0 1 " + number(-0.5) + " " + number(-1) + "\nL 1 2 2\nL 2 2 -2\nD 3 1 1 0 1 " + number(0) + "\n";
      mc::write_file(f, text);
      both(c, [&](Answers &a) {
        ManagerPtr m(make_manager(balanced(2), dense(2)));
        PsddNode *p = m->ReadPsddFile(f.c_str(), 0);
        weights(p, dense(2), a, all_points(2));
        psdd_node_util::WritePsddToFile(p, (f + "w").c_str());
        a.add((double)mc::read_file(f + "w").size());
      });
    } else if (kind == 2) {
      std::string text = (padding ? "MARKOV  \n" : "BAYES\n") + std::string("2\n2 2\n2\n2 0 1\n1 1\n\n4\n ") + number(0.5) + " " + number(1.5) + (padding == 1 ? "\n" : "") + " " + number(0) + " " + number(2) + "\n\n2 " + number(1) + " " + number(3) + "\n";
      mc::write_file(f, text);
      int method = c.choose(4, "method");
      both(c, [&](Answers &a) {
        PgmCompiler pc(dir);
        pc.read_uai_file(f.c_str());
        mcshim::begin(&c);
        if (method == 0) {
          mc::write_file(f + "v", "c " + std::string((size_t)d, 'c') + "\n" + vtree_text(balanced(2), dense(2)));
          pc.init_psdd_manager_from_vtree((f + "v").c_str());
        } else {
          pc.init_psdd_manager(method == 1 ? 1 : method == 2 ? 2 : 4);
        }
        auto r = pc.compile_network(1);
        a.add(r.second);
        weights(r.first, dense(2), a, all_points(2));
        delete pc.psdd_manager();
      });
    } else {
      std::string text = "c " + std::string((size_t)d, 'c') + "\np cnf 2 2\n" + std::string((size_t)d, ' ') + "1 -2" + std::string((size_t)d * 3, ' ') + "0\n" + (form ? "-1 2 0\n" : "");
      mc::write_file(f, text);
      both(c, [&](Answers &a) {
        ManagerPtr m(make_manager(balanced(2), dense(2)));
        CNF x(f.c_str());
        weights(x.Compile(m.get(), 0), dense(2), a, all_points(2));
      });
    }
  });
  mc::add("vtrees", [=](Chooser &c) {
    int n = 1 + c.choose(4, "n");
    VTP v = choose_vtree(c, n);
    Labels l = labels_kind(c.choose(4, "labels"), n);
    c.describe(str(v));
    both(c, [&](Answers &a) {
      Vtree *w = to_sdd(v, l);
      auto key = [&](Vtree *x) { a.add(x ? str(x) : "none"); };
      a.add((double)vtree_util::SerializeVtree(w).size());
      Vtree *copy = vtree_util::CopyVtree(w);
      key(copy);
      std::unordered_map<SddLiteral, SddLiteral> map;
      for (int x : l) map[x] = x + 1;
      Vtree *moved = vtree_util::CopyVtree(w, map);
      key(moved);
      for (Vtree *x : vtree_util::SerializeVtree(w)) {
        for (SddLiteral y : vtree_util::VariablesUnderVtree(x)) a.add((double)y);
        for (SddLiteral y : vtree_util::LeftToRightLeafTraverse(x)) a.add((double)y);
      }
      for (unsigned s = 1; s < 1u << n; s++) {
        std::vector<SddLiteral> vars;
        for (int i = 0; i < n; i++)
          if (s >> i & 1) vars.push_back(l[(size_t)i]);
        std::unordered_set<SddLiteral> set(vars.begin(), vars.end());
        key(vtree_util::SubVtreeByVariables(w, set));
        Vtree *p = vtree_util::ProjectVtree(w, vars);
        key(p);
        sdd_vtree_free(p);
      }
      ManagerPtr m(PsddManager::GetPsddManagerFromVtree(w));
      sdd_vtree_free(w);
      sdd_vtree_free(copy);
      sdd_vtree_free(moved);
      for (Vtree *x : vtree_util::SerializeVtree(m->vtree())) a.add((double)psdd_node_util::SerializePsddNodes(m->GetTrueNode(x, 3)).size());
    });
  });
  mc::add("networks", [=](Chooser &c) {
    Network g;
    g.n = 1 + c.choose(3, "n");
    int factors = c.choose(thorough || g.n < 3 ? 3 : 2, "factors");
    for (int k = 0; k < factors; k++) {
      Factor f;
      f.scope = choose_scope(c, g.n, c.choose(std::min(g.n, 2) + 1, "size"));
      int zeros = c.choose(3, "zeros");
      for (size_t i = 0; i < size_t(1) << f.scope.size(); i++) f.w.push_back(zeros == 2 ? (i ? 1e-200 : 0) : zeros && i % 2 ? 0 : 1 + (double)((i * 5 + (size_t)k) % 7));
      g.f.push_back(f);
    }
    VTP v = named_shape(c.choose(3, "shape"), g.n);
    int strategy = c.choose(3, "strategy"), gc = 1 + c.choose(2, "gc"), layout = c.choose(4, "layout");
    if (!thorough && layout && (strategy || gc > 1 || layout == 3)) c.skip();
    c.describe(str(g));
    both(c, [&](Answers &a) {
      std::string uai = c.scratch() + "/n.uai", vf = c.scratch() + "/n.vtree";
      mc::write_file(uai, text(g, layout));
      mc::write_file(vf, vtree_text(v, dense(g.n)));
      PgmCompiler pc(c.scratch());
      pc.read_uai_file(uai.c_str());
      pc.init_psdd_manager_from_vtree(vf.c_str());
      auto r = strategy == 0 ? pc.compile_network(gc) : strategy == 1 ? pc.compile_network_dc(gc) : pc.compile_network_with_vtree(gc);
      a.add(r.second);
      weights(r.first, dense(g.n), a, all_points(g.n));
      if (r.first) questions(r.first, dense(g.n), a, all_points(g.n));
      delete pc.psdd_manager();
    });
  });
  mc::add("orders", [=](Chooser &c) {
    int n = 1 + c.choose(4, "n"), m = c.choose(3, "factors"), method = c.choose(3, "method");
    std::vector<std::vector<size_t>> s;
    for (int k = 0; k < m; k++) {
      unsigned mask = (unsigned)c.choose(1 << n, "scope");
      s.emplace_back();
      for (int i = 0; i < n; i++)
        if (mask >> i & 1) s.back().push_back((size_t)i + 1);
    }
    std::vector<std::vector<PsddParameter>> params;
    for (auto &x : s) params.emplace_back(size_t(1) << x.size(), PsddParameter::CreateFromDecimal(1));
    UaiNetwork net((size_t)n, s.size(), MARKOV_NETWORK_TYPE, s, params);
    mcshim::begin(&c);
    Vtree *v = method == 0 ? MinFillVtree(&net).ConstructVtree() : method == 1 ? JointreeVtree(&net).ConstructVtree() : HypergraphDecompositionVtree(&net, c.scratch().c_str()).ConstructVtree();
    c.op();
    c.state(mc::hash_str(str(v)));
    sdd_vtree_free(v);
  });
  // every sequence of operations with collections between, over few nodes
  mc::add("histories", [=](Chooser &c) {
    VTP v = choose_shape(c, {1, 0, 2});
    Labels l = labels_kind(2, 3);
    std::vector<int> script;
    for (int d = 0; d < (thorough ? 4 : 3); d++) script.push_back(c.choose(8, "operation"));
    both(c, [&](Answers &a) {
      ManagerPtr m(make_manager(v, l)), o(make_manager(v, l));
      std::vector<PsddNode *> held;
      auto pts = all_points(3);
      auto push = [&](PsddNode *p) {
        weights(p, l, a, pts);
        if (p) held.push_back(p);
      };
      Table t(8, 1);
      t[3] = t[6] = 0;
      push(build(m.get(), v, l, t, BuildOptions()));
      int step = 0;
      for (int op : script) {
        step++;
        PsddNode *p = held.back(), *q = held.front();
        if (op == 0) push(CNF(std::vector<std::vector<SddLiteral>>{{l[0], -l[2]}, {l[1], l[2]}}).Compile(m.get(), (uintmax_t)step % 2));
        if (op == 1) push(m->Multiply(p, q, (uintmax_t)step % 2).first);
        if (op == 2) {
          held.erase(held.begin(), held.end() - 1);
          m->DeleteUnusedPsddNodes(held);
        }
        if (op == 3) {
          std::string f = c.scratch() + "/h.psdd";
          psdd_node_util::WritePsddToFile(p, f.c_str());
          push(m->ReadPsddFile(f.c_str(), 1));
        }
        if (op == 4) {
          std::unordered_map<int32_t, BatchedPsddValue> ex;
          std::vector<unsigned> rows;
          for (unsigned x : pts)
            if (models(p, Assign{&l, x})) rows.push_back(x);
          for (int i = 0; i < 3; i++) {
            BatchedPsddValue b;
            for (unsigned x : rows) b.push_back(x >> i & 1);
            ex[l[(size_t)i]] = b;
          }
          push(m->LearnPsddParameters(p, ex, rows.size(), PsddParameter::CreateFromDecimal(0.5), 0));
        }
        if (op == 5) push(m->LoadPsddNode(m->vtree(), o->LoadPsddNode(o->vtree(), p, 0), 0));
        if (op == 6) {
          // everything goes and is made again
          held.clear();
          m->DeleteUnusedPsddNodes({});
          push(m->GetTrueNode(m->vtree(), 0));
        }
        if (op == 7) {
          Ramp g;
          PsddNode *s = m->SampleParameters(&g, p, 2);
          held.push_back(s);
          m->DeleteUnusedPsddNodes({s, q});
          held = {q, s};
        }
      }
      for (PsddNode *p : held) a.add(psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(p)).get_str());
    });
  });
  // the programs, built in the same way
  mc::add("programs", [=](Chooser &c) {
    std::string d = c.scratch();
    bool compiler = c.flip("compiler");
    std::vector<std::string> av;
    if (!compiler) {
      VTP v = named_shape(c.choose(2, "shape"), 3);
      int kind = c.choose(3, "model"), evidence = c.choose(6, "evidence"), opts = c.choose(4, "options");
      ManagerPtr m(make_manager(v, dense(3)));
      Table t(8);
      for (size_t x = 0; x < 8; x++) t[x] = kind == 0 ? 1 : kind == 1 ? (x % 3 ? (double)x : 0) : x == 5;
      PsddNode *p = build(m.get(), v, dense(3), t, BuildOptions());
      mc::write_file(d + "/m.psdd", psdd_text(p));
      mc::write_file(d + "/m.vtree", vtree_text(v, dense(3)));
      static const char *ev[] = {"", "p cnf 3 1\n1 0\n", "p cnf 3 2\n1 -2 0\n2 0\n", "p cnf 3 0\n", "p cnf 3 1\n0\n", "p cnf 3 2\n3 0\n-3 0\n"};
      av = {getenv("MC_PROG_PSDD_INFERENCE")};
      if (opts & 1) av.push_back("--mpe_query");
      if (opts & 2) av.push_back("--mar_query");
      if (evidence) {
        mc::write_file(d + "/e.cnf", ev[evidence]);
        av.push_back("--cnf_evid");
        av.push_back(d + "/e.cnf");
      }
      av.push_back(d + "/m.psdd");
      av.push_back(d + "/m.vtree");
    } else {
      Network g;
      g.n = 1 + c.choose(3, "n");
      int kind = c.choose(4, "kind");
      for (int i = 0; kind && i < g.n; i++) {
        Factor f;
        f.scope = {i};
        if (i) f.scope.push_back(i - 1);
        for (size_t k = 0; k < size_t(1) << f.scope.size(); k++) f.w.push_back(kind == 2 ? 0 : kind == 3 && k % 2 ? 0 : 1 + (double)k);
        g.f.push_back(f);
      }
      mc::write_file(d + "/n.uai", text(g, 0));
      static const char *how[] = {"1", "2", "4", "file"};
      std::string method = how[c.choose(4, "method")];
      if (method == "file") {
        method = d + "/given.vtree";
        mc::write_file(method, vtree_text(balanced(g.n), dense(g.n)));
      }
      av = {getenv("MC_PROG_UAI_COMPILER"), d + "/n.uai", method};
      if (c.flip("directory")) av.push_back(d);
      setenv("MC_ANSWERS", c.flip("answers") ? "1,0,1" : "", 1);
    }
    for (auto &x : av) c.describe(x + " ");
    mc::ForkResult r = mc::run_program(av, d, 100);
    c.op();
    MC_CHECK(r.exited && r.code == 0 && !r.timeout, "end", "the program %s %d\n%s", r.timeout ? "hangs" : r.exited ? "exits with" : "is killed by signal", r.code, (r.err.size() > 3000 ? r.err.substr(0, 3000) : r.err).c_str());
    MC_CHECK(r.err.find("runtime error") == std::string::npos && r.err.find("Sanitizer") == std::string::npos, "report", "%s", r.err.substr(0, 3000).c_str());
    std::string said;
    for (size_t b = 0, e; b < r.out.size(); b = e + 1) {
      e = std::min(r.out.find('\n', b), r.out.size());
      std::string line = r.out.substr(b, e - b);
      if (line.compare(0, 2, "MP") == 0 || line.compare(0, 3, "MAR") == 0 || line.compare(0, 5, "UNSAT") == 0) said += line + "|";
    }
    if (compiler && access((d + "/n.uai.psdd").c_str(), R_OK) == 0) {
      said += mc::read_file(d + "/n.uai.psdd");
      unlink((d + "/n.uai.psdd").c_str());
      unlink((d + "/n.uai.vtree").c_str());
    }
    c.state(mc::hash_str(said));
  });
}
