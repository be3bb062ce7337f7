// C21  the inference program
#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <map>

#include "family.h"
#include "files.h"
using namespace ref;

namespace {
using Clause = std::vector<int>;  // +-(variable+1)
using Clauses = std::vector<Clause>;
struct Query {
  bool mpe = true, mar = true;
  int style = 0;  // order and spelling of the options
};
bool satisfies(const Clauses &cs, unsigned x) {
  for (auto &cl : cs) {
    bool ok = false;
    for (int l : cl) ok |= ((x >> (abs(l) - 1)) & 1) == (unsigned)(l > 0);
    if (!ok) return false;
  }
  return true;
}
std::string cnf_text(const Clauses &cs, const Labels &labels) {
  std::string s = "c evidence\np cnf " + std::to_string(labels.size()) + " " + std::to_string(cs.size()) + "\n";
  for (auto &cl : cs) {
    for (int l : cl) s += std::to_string(l > 0 ? labels[l - 1] : -labels[-l - 1]) + " ";
    s += "0\n";
  }
  return s;
}
Clause decode_clause(int code, int n) {  // 0..3^n-1, 0 is the empty clause
  Clause c;
  for (int i = 0; i < n; i++, code /= 3)
    if (code % 3) c.push_back(code % 3 == 1 ? i + 1 : -(i + 1));
  return c;
}
double number(const std::string &s, const std::string &out) {
  char *e;
  double d = strtod(s.c_str(), &e);
  MC_CHECK(!s.empty() && *e == 0, "format", "not a number: '%s' in\n%s", s.c_str(), out.c_str());
  return d;
}
std::vector<std::string> split(const std::string &s, char sep) {
  std::vector<std::string> r;
  std::string cur;
  for (char ch : s) {
    if (ch == sep)
      r.push_back(cur), cur.clear();
    else
      cur += ch;
  }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
bool printed(double shown, long double want, double tol = 2e-5) {
  if (std::isinf(want)) return shown == (double)want;
  return fabsl(shown - want) <= tol * std::max(1.0L, fabsl(want));
}
void run(Chooser &c, PsddNode *model, const VTP &v, const Labels &labels, const Table &dist, const Clauses *ev, const Query &q) {
  int n = (int)labels.size();
  std::string d = c.scratch();
  mc::write_file(d + "/m.psdd", psdd_text(model));
  mc::write_file(d + "/m.vtree", vtree_text(v, labels));
  std::vector<std::string> av{getenv("MC_PROG_PSDD_INFERENCE")};
  std::vector<std::string> opts;
  if (q.mpe) opts.push_back("--mpe_query");
  if (q.mar) opts.push_back("--mar_query");
  if (q.style & 1) std::reverse(opts.begin(), opts.end());
  if (ev) {
    std::string f = d + "/e.cnf";
    mc::write_file(f, cnf_text(*ev, labels));
    if (q.style & 2)
      opts.push_back("--cnf_evid=" + f);
    else
      opts.insert(opts.begin(), {"--cnf_evid", f});
  }
  av.insert(av.end(), opts.begin(), opts.end());
  av.push_back(d + "/m.psdd");
  av.push_back(d + "/m.vtree");
  if (c.describing()) {
    std::string s;
    for (auto &o : opts) s += o + " ";
    c.describe("vtree " + str(v) + " labels " + str(labels) + " distribution " + str(dist) + " options " + s + (ev ? "evidence:\n" + cnf_text(*ev, labels) : ""));
  }
  mc::ForkResult r = mc::run_program(av);
  c.op();
  MC_CHECK(r.exited && r.code == 0 && !r.timeout, "end", "the program %s %d\n%s%s", r.timeout ? "hangs" : r.exited ? "exits with" : "is killed by signal", r.code, r.out.c_str(), r.err.c_str());
  long double total = 0, best = 0;
  std::vector<long double> pt(n, 0);
  for (unsigned x = 0; x < (1u << n); x++)
    if (!ev || satisfies(*ev, x)) {
      total += dist[x];
      best = std::max(best, (long double)dist[x]);
      for (int i = 0; i < n; i++)
        if ((x >> i) & 1) pt[i] += dist[x];
    }
  c.state(mc::hash_str(r.out));
  bool unsat = r.out.find("UNSATISFIED") != std::string::npos;
  MC_CHECK(unsat == (total == 0), "unsatisfied", "probability of the evidence %Lg, the program says\n%s", total, r.out.c_str());
  bool got_mpe = false, got_pr = false, got_mar = false;
  for (auto &line : split(r.out, '\n')) {
    if (line.compare(0, 11, "MPE result=") == 0) {
      MC_CHECK(!got_mpe, "format", "two MPE lines");
      got_mpe = true;
      unsigned x = 0, seen = 0;
      for (auto &f : split(line.substr(11), ',')) {
        auto kv = split(f, ':');
        MC_CHECK(kv.size() == 2 && (kv[1] == "0" || kv[1] == "1"), "format", "%s", line.c_str());
        auto it = std::find(labels.begin(), labels.end(), (int)number(kv[0], r.out));
        MC_CHECK(it != labels.end(), "mpe", "unknown variable in %s", line.c_str());
        int i = (int)(it - labels.begin());
        MC_CHECK(!((seen >> i) & 1), "mpe", "a variable is listed twice in %s", line.c_str());
        seen |= 1u << i;
        if (kv[1] == "1") x |= 1u << i;
      }
      c.op();
      MC_CHECK(seen == (1u << n) - 1, "mpe", "not every variable is listed in %s", line.c_str());
      MC_CHECK(!ev || satisfies(*ev, x), "mpe", "the MPE violates the evidence: %s", line.c_str());
      MC_CHECK(fabsl(dist[x] - best) <= 1e-6L * best, "mpe", "%s has probability %g, the best one %Lg", line.c_str(), dist[x], best);
    } else if (line.compare(0, 7, "MPE pr=") == 0) {
      MC_CHECK(!got_pr, "format", "two MPE lines");
      got_pr = true;
      double lp = number(line.substr(7), r.out);
      c.op();
      MC_CHECK(printed(lp, logl(best / total)), "mpe-probability", "%s instead of %.9Lg", line.c_str(), logl(best / total));
    } else if (line.compare(0, 11, "MAR result=") == 0) {
      MC_CHECK(!got_mar, "format", "two MAR lines");
      got_mar = true;
      unsigned seen = 0;
      for (auto &f : split(line.substr(11), ',')) {
        auto kv = split(f, ':');
        MC_CHECK(kv.size() == 2, "format", "%s", line.c_str());
        auto ft = split(kv[1], '|');
        MC_CHECK(ft.size() == 2, "format", "%s", line.c_str());
        auto it = std::find(labels.begin(), labels.end(), (int)number(kv[0], r.out));
        MC_CHECK(it != labels.end(), "mar", "unknown variable in %s", line.c_str());
        int i = (int)(it - labels.begin());
        MC_CHECK(!((seen >> i) & 1), "mar", "a variable is listed twice in %s", line.c_str());
        seen |= 1u << i;
        long double pf = 0;
        for (unsigned x = 0; x < (1u << n); x++)
          if (!((x >> i) & 1) && (!ev || satisfies(*ev, x))) pf += dist[x];
        pf /= total;
        c.op(2);
        MC_CHECK(printed(number(ft[0], r.out), logl(pf)) && printed(number(ft[1], r.out), logl(pt[i] / total)), "mar", "%s instead of %.9Lg|%.9Lg in %s", f.c_str(), logl(pf), logl(pt[i] / total), line.c_str());
      }
      MC_CHECK(seen == (1u << n) - 1, "mar", "not every variable is listed in %s", line.c_str());
    }
  }
  if (total > 0) MC_CHECK(got_mpe == q.mpe && got_pr == q.mpe && got_mar == q.mar, "answers", "asked mpe=%d mar=%d, got\n%s", (int)q.mpe, (int)q.mar, r.out.c_str());
}
// many variables in a chain: units and clauses between neighbours, against dynamic programming
void long_chain(Chooser &c) {
  std::vector<int> sizes{40, 64, 65, 130, 200};
  if (c.thorough()) sizes.insert(sizes.end(), {33, 128, 129, 257, 500, 1000});
  int n = c.pick(sizes, "n");
  bool markov = c.flip("markov");
  int shape = markov ? 0 : c.choose(3, "shape");
  Labels labels = labels_kind(c.choose(3, "labels"), n);
  VTP v = named_shape(shape, n);
  ManagerPtr m(make_manager(v, labels));
  auto P = [](double x) { return PsddParameter::CreateFromDecimal(x); };
  auto p = [&](int i, int prev) { return i % 5 == 3 && markov && prev ? 0.0 : i % 3 == 2 ? 0.3 + 0.2 * prev * markov : 0.7 + 0.0009 * (i % 50) - 0.45 * prev * markov; };
  PsddNode *root;
  if (markov) {
    PsddNode *next[2] = {nullptr, nullptr};
    for (int i = n - 1; i >= 0; i--) {
      PsddNode *cur[2];
      for (int prev = 0; prev < 2; prev++) {
        double q = p(i, prev);
        PsddNode *neg = m->GetPsddLiteralNode(-labels[i], 0), *pos = m->GetPsddLiteralNode(labels[i], 0);
        if (i == n - 1)
          cur[prev] = q == 0 ? neg : (PsddNode *)m->GetPsddTopNode(labels[i], 0, P(q), P(1 - q));
        else if (q == 0)
          cur[prev] = m->GetConformedPsddDecisionNode({neg}, {next[0]}, {P(1)}, 0);
        else
          cur[prev] = m->GetConformedPsddDecisionNode({neg, pos}, {next[0], next[1]}, {P(1 - q), P(q)}, 0);
      }
      next[0] = cur[0], next[1] = cur[1];
    }
    root = next[0];
  } else {
    std::function<PsddNode *(const VTP &)> rec = [&](const VTP &x) -> PsddNode * {
      if (x->leaf()) return m->GetPsddTopNode(labels[x->var], 0, P(p(x->var, 0)), P(1 - p(x->var, 0)));
      PsddNode *a = rec(x->l);
      return m->GetConformedPsddDecisionNode({a}, {rec(x->r)}, {P(1)}, 0);
    };
    root = rec(v);
  }
  // evidence
  int kind = c.choose(6, "evidence");
  Clauses cs;
  if (kind == 1) cs = {{n}};
  if (kind == 2)
    for (int i = 0; i < n; i += 3) cs.push_back({i % 2 ? i + 1 : -(i + 1)});
  if (kind == 3)
    for (int i = n - 9; i + 1 < n; i++) cs.push_back({-(i + 1), i + 2});
  if (kind == 4) cs = {{1, 2}, {-1, -2}, {n}, {-(n / 2)}, {n / 2 - 1, n / 2}};
  if (kind == 5) cs = {{1}, {2, -1}, {-2}};
  auto allowed = [&](int i, int a, int b) {  // variable i-1 has a, variable i has b
    for (auto &cl : cs) {
      int top = 0;
      bool ok = false;
      for (int l : cl) {
        top = std::max(top, abs(l));
        if (abs(l) == i + 1 && b == (l > 0)) ok = true;
        if (abs(l) == i && a == (l > 0)) ok = true;
      }
      if (top == i + 1 && !ok) return false;
    }
    return true;
  };
  const long double ninf = -INFINITY;
  std::vector<std::array<std::array<long double, 2>, 2>> w((size_t)n);
  for (int i = 0; i < n; i++)
    for (int a = 0; a < 2; a++)
      for (int b = 0; b < 2; b++) {
        double q = p(i, markov ? a : 0);
        w[i][a][b] = (i == 0 && a == 1) || !allowed(i, a, b) ? ninf : logl(b ? q : 1 - q);
      }
  std::vector<std::array<long double, 2>> fw((size_t)n), bw((size_t)n, {0, 0});
  std::array<long double, 2> best{0, ninf}, cur{0, ninf};
  for (int i = 0; i < n; i++) {
    std::array<long double, 2> nb{ninf, ninf}, ns{ninf, ninf};
    for (int a = 0; a < 2; a++)
      for (int b = 0; b < 2; b++) nb[b] = std::max(nb[b], best[a] + w[i][a][b]), ns[b] = logadd(ns[b], cur[a] + w[i][a][b]);
    best = nb, cur = ns, fw[i] = ns;
  }
  for (int i = n - 2; i >= 0; i--)
    for (int a = 0; a < 2; a++) bw[i][a] = logadd(w[i + 1][a][0] + bw[i + 1][0], w[i + 1][a][1] + bw[i + 1][1]);
  long double total = logadd(cur[0], cur[1]), top = std::max(best[0], best[1]);

  std::string d = c.scratch();
  mc::write_file(d + "/m.psdd", psdd_text(root));
  mc::write_file(d + "/m.vtree", vtree_text(v, labels));
  std::vector<std::string> av{getenv("MC_PROG_PSDD_INFERENCE"), "--mpe_query", "--mar_query"};
  if (kind) {
    mc::write_file(d + "/e.cnf", cnf_text(cs, labels));
    av.push_back("--cnf_evid=" + d + "/e.cnf");
  }
  av.push_back(d + "/m.psdd");
  av.push_back(d + "/m.vtree");
  c.describef("%d variables, %s, shape %d, labels from %d, evidence kind %d", n, markov ? "markov" : "independent", shape, labels[0], kind);
  mc::ForkResult r = mc::run_program(av);
  c.op();
  MC_CHECK(r.exited && r.code == 0 && !r.timeout, "end", "the program %s %d\n%s", r.timeout ? "hangs" : r.exited ? "exits with" : "is killed by signal", r.code, r.err.c_str());
  c.state(mc::hash_str(r.out));
  bool unsat = r.out.find("UNSATISFIED") != std::string::npos;
  MC_CHECK(unsat == (total == ninf), "unsatisfied", "log probability of the evidence %Lg, the program says\n%.2000s", total, r.out.c_str());
  if (unsat) return;
  std::map<int, int> index;
  for (int i = 0; i < n; i++) index[labels[i]] = i;
  int got = 0;
  for (auto &line : split(r.out, '\n')) {
    if (line.compare(0, 11, "MPE result=") == 0) {
      got |= 1;
      std::vector<int> x((size_t)n, -1);
      for (auto &f : split(line.substr(11), ',')) {
        auto kv = split(f, ':');
        MC_CHECK(kv.size() == 2 && (kv[1] == "0" || kv[1] == "1"), "format", "%s", f.c_str());
        auto it = index.find((int)number(kv[0], f));
        MC_CHECK(it != index.end() && x[it->second] < 0, "mpe", "unknown variable or one listed twice: %s", f.c_str());
        x[it->second] = kv[1] == "1";
      }
      long double s = 0;
      for (int i = 0; i < n; i++) {
        MC_CHECK(x[i] >= 0, "mpe", "variable %d is not listed", labels[i]);
        s += w[i][i ? x[i - 1] : 0][x[i]];
      }
      c.op();
      MC_CHECK(fabsl(s - top) <= 1e-5L + 1e-6L * fabsl(top), "mpe", "the listed assignment has log probability %.9Lg, the best one %.9Lg", s, top);
    } else if (line.compare(0, 7, "MPE pr=") == 0) {
      got |= 2;
      c.op();
      MC_CHECK(printed(number(line.substr(7), line), top - total), "mpe-probability", "%s instead of %.9Lg", line.c_str(), top - total);
    } else if (line.compare(0, 11, "MAR result=") == 0) {
      got |= 4;
      std::vector<int> seen((size_t)n, 0);
      for (auto &f : split(line.substr(11), ',')) {
        auto kv = split(f, ':');
        MC_CHECK(kv.size() == 2, "format", "%s", f.c_str());
        auto ft = split(kv[1], '|');
        MC_CHECK(ft.size() == 2, "format", "%s", f.c_str());
        auto it = index.find((int)number(kv[0], f));
        MC_CHECK(it != index.end() && !seen[it->second]++, "mar", "unknown variable or one listed twice: %s", f.c_str());
        int i = it->second;
        c.op(2);
        MC_CHECK(printed(number(ft[0], f), fw[i][0] + bw[i][0] - total) && printed(number(ft[1], f), fw[i][1] + bw[i][1] - total), "mar", "%s instead of %.9Lg|%.9Lg", f.c_str(), fw[i][0] + bw[i][0] - total,
                 fw[i][1] + bw[i][1] - total);
      }
      for (int i = 0; i < n; i++) MC_CHECK(seen[i], "mar", "variable %d is not listed", labels[i]);
    }
  }
  MC_CHECK(got == 7, "answers", "an answer is missing in\n%.2000s", r.out.c_str());
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  // one and two variables: every weight table, vtree and pair of clauses
  mc::add("small", [=](Chooser &c) {
    Family f;
    f.n = 1 + c.choose(2, "n");
    f.v = choose_vtree(c, f.n);
    f.o = choose_options(c);
    f.labels = labels_kind(f.n == 1 ? c.choose(label_kinds(), "labels") : 2, f.n);
    f.t = choose_table(c, f.n, f.n == 1 || thorough ? std::vector<double>{0, 1, 3} : std::vector<double>{0, 1});
    if (f.n == 2)
      for (size_t i = 0; i < 4; i++) f.t[i] *= 1 + (double)(i * 3 % 4);
    Instance in = build_instance(c, f);
    int all = f.n == 1 ? 3 : 9;
    Clauses cs;
    int k = c.choose(all + 1, "first");
    const Clauses *ev = nullptr;
    if (k > 0) {
      cs.push_back(decode_clause(k - 1, f.n));
      int l = c.choose(k + 1, "second");
      if (l > 0 && l < k) cs.push_back(decode_clause(l - 1, f.n));
      if (l == k) cs.clear();  // no clause at all
      ev = &cs;
    }
    run(c, in.node, in.v, in.labels, in.dist, ev, Query());
  });
  // every combination of options
  mc::add("options", [=](Chooser &c) {
    Family f;
    f.n = 2;
    f.v = choose_vtree(c, 2);
    f.labels = labels_kind(c.choose(label_kinds(), "labels"), 2);
    static const std::vector<Table> ts{{1, 2, 3, 4}, {0, 1, 0, 1}, {1, 0, 0, 0}, {1, 1, 1, 1}};
    f.t = c.pick(ts, "table");
    Instance in = build_instance(c, f);
    Query q;
    q.mpe = c.flip("mpe");
    q.mar = c.flip("mar");
    q.style = c.choose(4, "style");
    static const std::vector<Clauses> evs{{}, {{1}}, {{-2}}, {{1, -2}, {2}}, {{1}, {-1}}, {{}}};
    int e = c.choose((int)evs.size() + 1, "evidence");
    run(c, in.node, in.v, in.labels, in.dist, e ? &evs[e - 1] : nullptr, q);
  });
  // three variables: supports with distinct weights, every clause
  mc::add("three", [=](Chooser &c) {
    Family f;
    f.n = 3;
    f.v = thorough ? choose_vtree(c, 3) : choose_shape(c, c.flip("order") ? std::vector<int>{2, 0, 1} : std::vector<int>{0, 1, 2});
    f.o.compressed = !c.flip("split");
    f.labels = labels_kind(thorough ? 2 : 1, 3);
    int a = c.choose(8, "from"), len = c.choose(thorough ? 7 : 3, "length");
    f.t.assign(8, 0);
    for (int i = 0; i < 8; i++) f.t[i] = (i + 8 - a) % 8 <= len ? 0 : 1 + (i * 5 + 3) % 8;
    Instance in = build_instance(c, f);
    Clauses cs{decode_clause(c.choose(27, "clause"), 3)};
    if (thorough) {
      int k = c.choose(7, "unit");
      if (k) cs.push_back({k <= 3 ? k : 3 - k});
    }
    run(c, in.node, in.v, in.labels, in.dist, &cs, Query());
  });
  // four variables, one shape of evidence each: units, an exclusive pair, a chain, a contradiction, a tautology
  mc::add("four", [=](Chooser &c) {
    Family f;
    f.n = 4;
    f.v = choose_shape(c, {2, 0, 3, 1});
    f.labels = labels_kind(c.choose(label_kinds(), "labels"), 4);
    int a = c.choose(16, "from"), len = c.choose(3, "length") * 5;
    f.t.assign(16, 0);
    for (int i = 0; i < 16; i++) f.t[i] = (i + 16 - a) % 16 <= len ? 0 : 1 + (i * 7 + 3) % 16;
    Instance in = build_instance(c, f);
    static const std::vector<Clauses> evs{{{1}, {-3}}, {{1, 2}, {-1, -2}}, {{-1, 2}, {-2, 3}, {-3, 4}}, {{4}, {-4}}, {{2, -2}}, {{1, -1}, {3, 4}}, {{1, 1, 2}}};
    run(c, in.node, in.v, in.labels, in.dist, &c.pick(evs, "evidence"), Query());
  });
  // very small probabilities and many variables
  mc::add("tiny", [=](Chooser &c) {
    Instance in;
    Family f;
    f.n = 2;
    f.v = choose_vtree(c, 2);
    f.labels = dense(2);
    static const std::vector<double> w{1, 1e-9, 1e-40, 0};
    f.t = choose_table(c, 2, w);
    in = build_instance(c, f);
    Clauses cs;
    int k = c.choose(5, "unit");
    if (k) cs.push_back({k <= 2 ? k : 2 - k});
    run(c, in.node, in.v, in.labels, in.dist, k ? &cs : nullptr, Query());
  });
  mc::add("long", long_chain);
}
