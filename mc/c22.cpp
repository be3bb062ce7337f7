// C22  the network compiler program
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>

#include "family.h"
#include "files.h"
#include "net.h"
using namespace ref;

namespace {
double number(const std::string &s) {
  char *e;
  double d = strtod(s.c_str(), &e);
  MC_CHECK(e != s.c_str(), "format", "not a number: '%s'", s.c_str());
  return d;
}
std::string after(const std::string &out, const std::string &key) {
  size_t p = out.rfind(key);
  if (p == std::string::npos) return "";
  size_t e = out.find('\n', p);
  return out.substr(p + key.size(), e == std::string::npos ? e : e - p - key.size());
}
bool says(const std::string &out, const char *line) {
  size_t p = out.find(line);
  return p != std::string::npos;
}
std::vector<std::string> split(const std::string &s, char sep) {
  std::vector<std::string> r;
  std::string cur;
  for (char ch : s) {
    if (ch == sep)
      r.push_back(cur), cur.clear();
    else
      cur += ch;
  }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
bool near(double a, long double b, double tol = 3e-5) {
  if (std::isinf(b)) return a == (double)b;
  return fabsl(a - b) <= tol * std::max(1.0L, fabsl(b));
}

// method: "1", "2", "4" or the name of a vtree file; base: the network file without anything
void run(Chooser &c, const Network &g, const std::string &uai, const std::string &method, const std::string &wd, const std::string &answers, const std::string &cwd, bool inference, const VTP &given = nullptr) {
  mc::write_file(uai, text(g, 0));
  unlink((uai + ".psdd").c_str());
  unlink((uai + ".vtree").c_str());
  c.describef("%s method %s directory %s answers %s", g.f.size() > 20 ? (std::to_string(g.f.size()) + " factors").c_str() : str(g).c_str(), method.c_str(), wd.c_str(), answers.c_str());
  std::vector<std::string> av{getenv("MC_PROG_UAI_COMPILER"), uai, method};
  if (!wd.empty()) av.push_back(wd);
  setenv("MC_ANSWERS", answers.c_str(), 1);
  mc::ForkResult r = mc::run_program(av, cwd, 60);
  c.op();
  MC_CHECK(r.exited && r.code == 0 && !r.timeout, "end", "the program %s %d\n%s%s", r.timeout ? "hangs" : r.exited ? "exits with" : "is killed by signal", r.code, r.out.substr(0, 2000).c_str(), r.err.c_str());
  int n = g.n;
  std::vector<long double> w(size_t(1) << n);
  long double total = 0, best = 0;
  for (unsigned x = 0; x < (1u << n); x++) total += w[x] = product(g, x), best = std::max(best, w[x]);
  bool unsat = says(r.out, "UNSATISFIED");
  MC_CHECK(unsat == (total == 0), "unsatisfied", "the products sum to %Lg, the program says\n%s", total, r.out.substr(0, 3000).c_str());
  if (total == 0) {
    c.state(mc::hash_str("unsat"));
    return;
  }
  std::string lz = after(r.out, "Log Partition ");
  MC_CHECK(!lz.empty(), "partition", "no constant in the output\n%s", r.out.substr(0, 3000).c_str());
  c.op();
  MC_CHECK(near(number(lz), logl(total)), "partition", "log constant %s instead of %.9Lg", lz.c_str(), logl(total));
  // the vtree file
  MC_CHECK(access((uai + ".vtree").c_str(), R_OK) == 0 && access((uai + ".psdd").c_str(), R_OK) == 0, "files", "an output file is missing");
  Vtree *vt = sdd_vtree_read((uai + ".vtree").c_str());
  std::vector<SddLiteral> ls = vtree_util::LeftToRightLeafTraverse(vt);
  std::sort(ls.begin(), ls.end());
  std::vector<SddLiteral> want;
  for (int i = 1; i <= n; i++) want.push_back(i);
  c.op();
  MC_CHECK(ls == want, "vtree", "the vtree does not contain exactly the variables of the network");
  c.op();
  MC_CHECK(!given || same_shape(vt, given, dense(n)), "vtree-given", "the vtree written is %s, the one given %s", ref::str(vt).c_str(), ref::str(given).c_str());
  ManagerPtr m(PsddManager::GetPsddManagerFromVtree(vt));
  sdd_vtree_free(vt);
  PsddNode *p = m->ReadPsddFile((uai + ".psdd").c_str(), 0);
  MC_CHECK(p != nullptr, "model", "the model file holds nothing");
  Labels labels = dense(n);
  check_wellformed(p, m->vtree(), 0, "model file");
  for (unsigned x = 0; x < (1u << n); x++) {
    long double q = prob(p, Assign{&labels, x}), e = w[x] / total;
    c.op();
    if (w[x] == 0)
      MC_CHECK(q == 0, "model", "assignment %x has probability %Lg instead of 0", x, q);
    else
      MC_CHECK(fabsl(q - e) <= 3e-5L * e, "model", "assignment %x has probability %.9Lg instead of %.9Lg", x, q, e);
  }
  c.state(fingerprint(p));
  if (!inference) return;
  // the inference tool accepts the outputs
  mc::ForkResult q = mc::run_program({getenv("MC_PROG_PSDD_INFERENCE"), "--mpe_query", "--mar_query", uai + ".psdd", uai + ".vtree"}, cwd);
  c.op();
  MC_CHECK(q.exited && q.code == 0, "inference", "the inference program fails on the outputs: %d\n%s", q.code, q.err.c_str());
  std::string pr = after(q.out, "MPE pr="), mar = after(q.out, "MAR result=");
  MC_CHECK(!pr.empty() && !mar.empty(), "inference", "no answer on the outputs");
  MC_CHECK(near(number(pr), logl(best / total), 1e-4), "inference", "MPE probability %s instead of %Lg", pr.c_str(), logl(best / total));
  for (auto &f : split(mar, ',')) {
    auto kv = split(f, ':');
    int i = (int)number(kv.at(0)) - 1;
    auto ft = split(kv.at(1), '|');
    MC_CHECK(i >= 0 && i < n && ft.size() == 2, "inference", "%s", mar.c_str());
    long double t0 = 0, t1 = 0;
    for (unsigned x = 0; x < (1u << n); x++) ((x >> i) & 1 ? t1 : t0) += w[x];
    c.op();
    MC_CHECK(near(number(ft[0]), logl(t0 / total), 1e-4) && near(number(ft[1]), logl(t1 / total), 1e-4), "inference", "marginal %s instead of %Lg|%Lg", f.c_str(), logl(t0 / total), logl(t1 / total));
  }
}
// a network of many variables in a line, a circle or pieces, against dynamic programming
void long_network(Chooser &c) {
  std::vector<int> sizes{20, 65};
  if (c.thorough()) sizes = {12, 33, 64, 70, 130};
  int n = c.pick(sizes, "n"), kind = c.choose(4, "kind"), how = c.choose(6, "method"), zeros = c.choose(2, "zeros");
  Network g;
  g.n = n;
  auto add = [&](std::vector<int> scope, int k) {
    Factor f;
    f.scope = scope;
    f.w.resize(size_t(1) << scope.size());
    for (size_t i = 0; i < f.w.size(); i++) f.w[i] = 0.25 * (1 + (double)((i * 5 + 3 * (size_t)k + 2) % 7));
    if (zeros && k % 6 == 5) f.w[(size_t)k % f.w.size()] = 0;
    g.f.push_back(f);
  };
  for (int i = 0; i + 1 < n; i++) {
    if (kind == 3 && i % 4 == 3) continue;
    add(i % 2 ? std::vector<int>{i, i + 1} : std::vector<int>{i + 1, i}, i);
    if (kind == 1) add({i}, i + 2);
  }
  if (kind == 2) add({0, n - 1}, 3);
  if (kind == 3) std::reverse(g.f.begin(), g.f.end());
  std::string d = c.scratch(), uai = d + "/n.uai", method = how == 0 ? "1" : how == 1 ? "2" : how == 2 ? "4" : d + "/in.vtree", answers;
  if (how > 2) mc::write_file(d + "/in.vtree", vtree_text(named_shape(how - 3, n), dense(n)));
  // blocks of neighbours: the stand-in for KaHyPar answers in runs
  mc::write_file(uai, text(g, n % 4));
  unlink((uai + ".psdd").c_str());
  unlink((uai + ".vtree").c_str());
  c.describef("network of %d variables, kind %d, method %s, zeros %d", n, kind, method.c_str(), zeros);
  setenv("MC_ANSWERS", answers.c_str(), 1);
  mc::ForkResult r = mc::run_program({getenv("MC_PROG_UAI_COMPILER"), uai, method, d}, d, 60);
  c.op();
  MC_CHECK(r.exited && r.code == 0 && !r.timeout, "end", "the program %s %d\n%s%s", r.timeout ? "hangs" : r.exited ? "exits with" : "is killed by signal", r.code, r.out.substr(0, 2000).c_str(), r.err.c_str());
  std::vector<int> ev((size_t)n, -1);
  long double total = chain_weight(g, ev);
  MC_CHECK(!says(r.out, "UNSATISFIED"), "unsatisfied", "the program says UNSATISFIED");
  std::string lz = after(r.out, "Log Partition ");
  c.op();
  MC_CHECK(!lz.empty() && near(number(lz), total), "partition", "log constant %s instead of %.9Lg", lz.c_str(), total);
  MC_CHECK(access((uai + ".vtree").c_str(), R_OK) == 0 && access((uai + ".psdd").c_str(), R_OK) == 0, "files", "an output file is missing");
  Vtree *vt = sdd_vtree_read((uai + ".vtree").c_str());
  std::vector<SddLiteral> ls = vtree_util::LeftToRightLeafTraverse(vt), want;
  std::sort(ls.begin(), ls.end());
  for (int i = 1; i <= n; i++) want.push_back(i);
  c.op();
  MC_CHECK(ls == want, "vtree", "the vtree does not contain exactly the variables of the network");
  ManagerPtr m(PsddManager::GetPsddManagerFromVtree(vt));
  sdd_vtree_free(vt);
  PsddNode *p = m->ReadPsddFile((uai + ".psdd").c_str(), 0);
  MC_CHECK(p != nullptr, "model", "the model file holds nothing");
  check_wellformed(p, m->vtree(), 0, "model file");
  for (int pattern = 0; pattern < 6; pattern++) {
    std::vector<signed char> value((size_t)n + 1, -1);
    for (int j = 0; j < n; j++) {
      ev[j] = pattern == 0 ? (j == n / 3 ? 1 : -1) : pattern == 1 ? 0 : pattern == 2 ? j % 2 : pattern == 3 ? (j % 5 == 0) : pattern == 4 ? (j % 7 < 2 ? 1 : -1) : (j < n / 2 ? -1 : j % 3 == 0);
      value[j + 1] = (signed char)ev[j];
    }
    long double expect = chain_weight(g, ev) - total, got = log_weight(p, value);
    c.op();
    MC_CHECK(std::isinf(expect) == std::isinf(got) && (std::isinf(expect) || fabsl(expect - got) <= 1e-3L), "model", "pattern %d: log probability %.9Lg instead of %.9Lg", pattern, got, expect);
  }
  c.state(fingerprint(p));
  mc::ForkResult q = mc::run_program({getenv("MC_PROG_PSDD_INFERENCE"), "--mar_query", uai + ".psdd", uai + ".vtree"}, d);
  c.op();
  std::string mar = after(q.out, "MAR result=");
  MC_CHECK(q.exited && q.code == 0 && !mar.empty(), "inference", "the inference program fails on the outputs: %d\n%s", q.code, q.err.c_str());
  for (auto &f : split(mar, ',')) {
    auto kv = split(f, ':');
    int i = (int)number(kv.at(0)) - 1;
    auto ft = split(kv.at(1), '|');
    MC_CHECK(i >= 0 && i < n && ft.size() == 2, "inference", "%s", f.c_str());
    ev.assign((size_t)n, -1);
    ev[i] = 1;
    long double t1 = chain_weight(g, ev) - total;
    ev[i] = 0;
    long double t0 = chain_weight(g, ev) - total;
    c.op();
    MC_CHECK(near(number(ft[0]), t0, 1e-3) && near(number(ft[1]), t1, 1e-3), "inference", "marginal %s instead of %Lg|%Lg", f.c_str(), t0, t1);
  }
}
std::string choose_answers(Chooser &c, int len, int n) {
  std::string a;
  for (int i = 0; i < len; i++) a += (i ? "," : "") + std::to_string(c.choose(n, "answer"));
  return a;
}
Network pattern(int n, int m, int kind, int zeros) {
  Network g;
  g.n = n;
  g.bayes = m % 2;
  for (int k = 0; k < m; k++) {
    Factor f;
    if (kind == 0) f.scope = {(k + 1) % n, k % n};
    if (kind == 1) f.scope = {k % n};
    if (kind == 2) f.scope = {0, 1 + k % (n - 1)};
    if (kind == 3) f.scope = n >= 3 ? std::vector<int>{(k + 2) % n, k % n, (k + 1) % n} : std::vector<int>{(k + 1) % n, k % n};
    if (kind == 4) f.scope = {n - 1};  // all others free
    if (kind == 5 && k % 2) f.scope = {k % n};  // constants and singles
    f.w.resize(size_t(1) << f.scope.size());
    for (size_t i = 0; i < f.w.size(); i++) f.w[i] = 1 + (double)((i * 5 + 3 * k + 2) % 7);
    if (zeros == 1 && k == 0) f.w[0] = 0;
    if (zeros == 2 && k == m - 1)
      for (size_t i = 0; i < f.w.size(); i += 2) f.w[i] = 0;
    if (zeros == 3 && k == m / 2)
      for (auto &x : f.w) x = 0;
    if (zeros == 4 && k == 0)
      for (size_t i = 0; i + 1 < f.w.size(); i++) f.w[i] = 0;
    g.f.push_back(f);
  }
  return g;
}
}  // namespace

void mc::register_scenarios(bool thorough) {
  // every vtree file
  mc::add("vtree file", [=](Chooser &c) {
    int n = 1 + c.choose(thorough ? 4 : 3, "n");
    VTP v = choose_vtree(c, n);
    std::string d = c.scratch();
    mc::write_file(d + "/in.vtree", vtree_text(v, dense(n)));
    int kind = n == 1 ? 1 + 4 * c.choose(2, "kind") : c.choose(6, "kind"), m = c.choose(5, "factors"), zeros = c.choose(5, "zeros");
    if (m == 0 && (kind % 4 != 1 || zeros > 0)) c.skip();
    run(c, pattern(n, m, kind, zeros), d + "/n.uai", d + "/in.vtree", c.flip("directory") ? d : "", "", d, true, v);
  });
  // vtree files whose names resemble the numbers of the methods
  mc::add("vtree names", [=](Chooser &c) {
    static const char *names[] = {"1.vtree", "2nd.vtree", "4 leaves", "12", "3", "0", "-1", "./1", "./4", "01", "2 ", "1e0", "four.vtree", "VTREE_METHOD_MINFILL"};
    std::string name = names[c.choose(14, "name")], d = c.scratch();
    int n = 3 + c.choose(2, "n");
    VTP v = n == 3 ? choose_vtree(c, 3) : thorough ? choose_shape(c, {2, 0, 3, 1}) : inode(inode(leaf(2), leaf(0)), inode(leaf(3), leaf(1)));
    mc::write_file(d + "/" + name, vtree_text(v, dense(n)));
    run(c, pattern(n, 4, c.choose(2, "kind"), 0), d + "/n.uai", name, c.flip("directory") ? d : "", "", d, false, v);
    unlink((d + "/" + name).c_str());
  });
  // one factor over two variables: all 0/1 tables
  mc::add("tables", [=](Chooser &c) {
    Network g;
    g.n = 2;
    Factor f;
    f.scope = c.flip("order") ? std::vector<int>{1, 0} : std::vector<int>{0, 1};
    f.w = choose_table(c, 2, {0, 1, 3}, false);
    g.f.push_back(f);
    if (c.flip("second")) {
      Factor h;
      h.scope = {c.choose(2, "scope")};
      h.w = {(double)c.choose(2, "w"), (double)c.choose(2, "w")};
      g.f.push_back(h);
    }
    std::string d = c.scratch();
    static const char *methods[] = {"1", "2", "4"};
    run(c, g, d + "/n.uai", methods[c.choose(3, "method")], d, "1,1,1", d, false);
  });
  // the three methods and what the libraries answer
  mc::add("methods", [=](Chooser &c) {
    static const char *methods[] = {"1", "2", "4"};
    int n = 2 + c.choose(3, "n"), kind = c.choose(6, "kind"), m = c.choose(6, "factors"), zeros = c.choose(thorough ? 5 : 3, "zeros");
    if (m == 0 && (kind > 0 || zeros > 0)) c.skip();
    int method = c.choose(3, "method");
    Network g = pattern(n, m, kind, zeros);
    std::string d = c.scratch();
    run(c, g, d + "/n.uai", methods[method], c.flip("directory") ? d : "", choose_answers(c, thorough ? 5 : 3, thorough ? 3 : 2), d, false);
  });
  // enough factors for collections to happen
  mc::add("collections", [=](Chooser &c) {
    int n = 2 + c.choose(2, "n"), kind = c.choose(n == 2 ? 3 : 4, "kind");
    static const std::vector<int> ms{99, 100, 101, 102, 103, 150, 200, 201, 202, 203, 303};
    int m = c.pick(ms, "factors"), zeros = c.choose(4, "zeros");
    static const char *methods[] = {"1", "2", "4"};
    std::string d = c.scratch();
    Network g = pattern(n, m, kind, zeros);
    for (auto &f : g.f)
      for (auto &x : f.w) x /= 4;
    run(c, g, d + "/n.uai", methods[c.choose(3, "method")], d, "", d, true);
  });
  // file and directory names
  mc::add("names", [=](Chooser &c) {
    int len = c.choose(14, "length") * 100;
    std::string d = c.scratch();
    while (len > 0) {
      int k = std::min(len, 200);
      d += "/" + std::string((size_t)k, 'd');
      mkdir(d.c_str(), 0755);
      len -= k;
    }
    static const char *methods[] = {"1", "2", "4"};
    std::string name = c.flip("blank") ? "a b.x.uai" : "n";
    run(c, pattern(2, 4, 0, 0), d + "/" + name, methods[c.choose(3, "method")], c.flip("directory") ? d : "", "", c.scratch(), true);
  });
  mc::add("long", long_network);
}
