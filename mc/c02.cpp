// C02  CNF files and clauses
#include <algorithm>

#include "family.h"
#include "sddx.h"
using namespace ref;

namespace {
using Clause = std::vector<SddLiteral>;  // in reference numbering: variable i is i+1
using Clauses = std::vector<Clause>;
std::string text(const Clauses &cs) {
  std::string s;
  for (auto &c : cs) {
    s += "{";
    for (auto l : c) s += " " + std::to_string(l);
    s += " }";
  }
  return s;
}
std::multiset<std::set<SddLiteral>> canonical(const Clauses &cs) {
  std::multiset<std::set<SddLiteral>> r;
  for (auto &c : cs) r.insert(std::set<SddLiteral>(c.begin(), c.end()));
  return r;
}
Clauses rename(const Clauses &cs, const Labels &l) {
  Clauses r = cs;
  for (auto &c : r)
    for (auto &x : c) x = x > 0 ? l[x - 1] : -l[-x - 1];
  return r;
}
uint64_t table(const Clauses &cs, int n) {
  uint64_t m = 0;
  for (unsigned x = 0; x < 1u << n; x++) {
    bool all = true;
    for (auto &c : cs) {
      bool any = false;
      for (auto l : c) any |= ((x >> (labs(l) - 1)) & 1) == (l > 0);
      all &= any;
    }
    if (all) m |= 1ull << x;
  }
  return m;
}
void check_compiled(Chooser &c, const CNF &cnf, const Clauses &cs, const VTP &v, const Labels &l, bool busy) {
  int n = (int)l.size();
  ManagerPtr m(make_manager(v, l));
  uintmax_t flag = busy ? 6 : 1;
  Snapshot snap;
  if (busy) {
    Table t(size_t(1) << n);
    for (size_t x = 0; x < t.size(); x++) t[x] = 1 + x % 3;
    BuildOptions o;
    o.flag = flag;
    snap.take(build(m.get(), v, l, t, o));
    snap.take(m->GetTrueNode(m->vtree(), flag));
    snap.take(m->GetTrueNode(m->vtree(), flag + 1));
  }
  uint64_t want = table(cs, n);
  PsddNode *r = cnf.Compile(m.get(), flag);
  snap.check("manager-changed", false);
  MC_CHECK(same_shape(m->vtree(), v, l), "vtree-changed", "the manager's vtree is changed");
  c.op();
  if (want == 0) {
    MC_CHECK(r == nullptr, "unsatisfiable", "%s has no model but compiles to %s", text(cs).c_str(), r ? str(r).c_str() : "");
    c.state(9);
  } else {
    MC_CHECK(r != nullptr, "missing", "%s is satisfiable but compiles to nothing", text(cs).c_str());
    check_wellformed(r, m->vtree(), (long)flag, "compiled");
    int count = 0;
    for (unsigned x = 0; x < 1u << n; x++) {
      bool w = (want >> x) & 1;
      count += w;
      MC_CHECK(models(r, {&l, x}) == w, "models", "%s: assignment %x is %s", text(cs).c_str(), x, w ? "rejected" : "accepted");
      c.op();
    }
    mpz_class got = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(r));
    MC_CHECK(got == count, "count", "%s: %s models counted instead of %d", text(cs).c_str(), got.get_str().c_str(), count);
    check_deterministic(r, l, "compiled");
    c.state(fingerprint(r));
  }
  if (busy) MC_CHECK(cnf.Compile(m.get(), flag) == r, "repeat", "compiling again gives another node");
  snap.check("manager-changed", false);
}
// all clauses over three variables as digits: 0 absent, 1 positive, 2 negative, 3 both
Clause clause_of(int k, int n) {
  Clause c;
  for (int i = 0; i < n; i++, k /= 4) {
    if (k % 4 & 1) c.push_back(i + 1);
    if (k % 4 & 2) c.push_back(-(i + 1));
  }
  return c;
}
int ternary(int k, int n) {  // clauses without tautologies, as base 4 number
  int r = 0, p = 1;
  for (int i = 0; i < n; i++, k /= 3, p *= 4) r += k % 3 * p;
  return r;
}
void memory(Chooser &c) {
  int n = 1 + c.choose(3, "n");
  VTP v = n == 3 && !c.thorough() ? choose_shape(c, {1, 0, 2}) : choose_vtree(c, n);
  Labels l = n == 3 ? labels_kind(2, 3) : choose_labels(c, n);
  int len = c.choose(n == 3 ? (c.thorough() ? 4 : 3) : 4, "clauses");
  Clauses cs;
  int prev = 0, all = n == 1 ? 4 : n == 2 ? 16 : 64;
  for (int i = 0; i < len; i++) {
    if (n == 3 && len == 3) {
      prev = prev + c.choose(27 - prev, "clause");
      cs.push_back(clause_of(ternary(prev, 3), 3));
    } else {
      int k = c.choose(all, "clause");
      if (n < 3 && len == 3 && k < prev) c.skip();
      prev = k;
      cs.push_back(clause_of(k, n));
    }
  }
  if (c.describing()) c.describe(str(v) + " " + text(cs));
  CNF cnf(rename(cs, l));
  MC_CHECK(canonical(cnf.clauses()) == canonical(rename(cs, l)), "clauses", "clauses given in memory are changed");
  check_compiled(c, cnf, cs, v, l, len == 1);
}
// ---- files
struct Layout {
  std::string text;
  Clauses cs;
  bool open = false;  // inside a line
  bool need_line = false;
};
const std::vector<Clause> kMenu = {{1, -2}, {3}, {-1, 2, -3}, {2, 2}, {}, {1, -1}, {-2, 3}};
void between(Chooser &c, Layout &f, int kinds) {
  if (f.open) return;
  static const char *lines[] = {"", "\n", "c a comment 1 2 0\n", "   \n", "c\n", "\t\n\n", "\r\n", "c 0\nc\n"};
  f.text += lines[c.choose(kinds, "between")];
}
void put(Chooser &c, Layout &f, const Clause &cl, bool last, int seps, int ends) {
  static const char *sep[] = {" ", "  ", "\t"};
  const char *s = sep[c.choose(seps, "separator")];
  std::string t;
  for (auto l : cl) t += std::to_string(l) + s;
  // ways to close: 0 and the line; the line alone; 0 and the next clause on the line; 0 with CRLF; trailing blanks
  int e = c.choose(ends, "end");
  if (cl.empty() && (e == 1 || e == 5)) c.skip();
  switch (e) {
    case 0: t += "0\n"; break;
    case 1: t += "\n"; break;
    case 2: t += "0 "; break;
    case 3: t += "0\r\n"; break;
    case 4: t = " " + t + " 0  \n"; break;
    default: t += "\r\n"; break;
  }
  if (!cl.empty() && e == 1 && s[1] == 0) t.erase(t.size() - 2, 1);  // no blank before the line end
  f.open = e == 2;
  if (last && c.flip("no newline at the end of the file"))
    while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
  f.text += t;
  f.cs.push_back(cl);
}
void run_file(Chooser &c, const Layout &f, int n, const VTP &v, const Labels &l) {
  std::string file = f.text;
  if (l != dense(n)) {
    // rename the numbers of clause lines
    std::string out, line;
    std::vector<std::string> lines;
    for (size_t i = 0; i <= file.size(); i++) {
      if (i == file.size() || file[i] == '\n') {
        lines.push_back(line);
        line.clear();
      } else
        line += file[i];
    }
    for (size_t i = 0; i < lines.size(); i++) {
      std::string &x = lines[i];
      if (!x.empty() && (x[0] == 'c' || x[0] == 'p'))
        out += x;
      else
        for (char ch : x)
          if (ch >= '1' && ch <= '9')
            out += std::to_string(l[ch - '1']);
          else
            out += ch;
      if (i + 1 < lines.size()) out += "\n";
    }
    file = out;
  }
  if (c.describing()) c.describe("file <<" + file + ">> clauses " + text(f.cs));
  std::string path = c.scratch() + "/f.cnf";
  mc::write_file(path, file);
  CNF cnf(path.c_str());
  c.op();
  Clauses want = rename(f.cs, l);
  MC_CHECK(canonical(cnf.clauses()) == canonical(want), "clauses", "the file <<%s>> reads as %s instead of %s", file.c_str(), text(cnf.clauses()).c_str(), text(want).c_str());
  check_compiled(c, cnf, f.cs, v, l, false);
}
void layouts(Chooser &c) {
  Layout f;
  static const char *headers[] = {"", "p cnf 3 2\n", "c head\np cnf 3 2\n", "\np cnf 3 2\nc tail\n", "p  cnf 3 2 \r\n"};
  bool th = c.thorough();
  int h = c.choose(5, "header");
  f.text = headers[h];
  int k = c.choose(th ? 4 : 3, "clauses");
  for (int i = 0; i < k; i++) {
    between(c, f, th ? (k == 3 ? 3 : 8) : (h == 0 || i ? 8 : 2));
    put(c, f, c.pick(kMenu, "clause"), i + 1 == k, k == 1 ? 3 : 1, k == 3 ? 4 : 6);
  }
  if (k == 0 || !f.open) {
    static const char *tails[] = {"", "\n", "c end", "  "};
    if (k == 0 || f.text.back() == '\n') f.text += tails[c.choose(4, "tail")];
  }
  static const VTP v = inode(inode(leaf(2), leaf(0)), leaf(1));
  run_file(c, f, 3, v, dense(3));
}
void renamed(Chooser &c) {
  Layout f;
  f.text = "p cnf 3 2\n";
  VTP v = choose_vtree(c, 3);
  Labels l = choose_labels(c, 3);
  for (int i = 0; i < 2; i++) put(c, f, c.pick(kMenu, "clause"), false, 1, 4);
  run_file(c, f, 3, v, l);
}
// long clauses, many clauses on one line, many variables
void large(Chooser &c) {
  static const int ns[] = {9, 10, 31, 32, 33, 64, 100};
  int n = ns[c.choose(c.thorough() ? 7 : 5, "n")];
  VTP v = named_shape(c.choose(3, "shape"), n);
  Labels l = labels_kind(c.flip("sparse") ? 2 : 0, n);
  bool one_line = c.flip("one line"), zeros = one_line || c.flip("zeros");
  int kind = c.choose(3, "kind");
  std::string t = "p cnf " + std::to_string(n) + " 2\n";
  mpz_class count = 1;
  auto clause = [&](const std::vector<int> &x) {
    for (int y : x) t += std::to_string(y > 0 ? l[y - 1] : -l[-y - 1]) + " ";
    if (zeros) t += "0";
    t += one_line ? " " : "\n";
  };
  if (kind == 0) {
    std::vector<int> x;
    for (int i = 1; i <= n; i++) x.push_back(i % 2 ? i : -i);
    clause(x);
    for (int i = 0; i < n; i++) count *= 2;
    count -= 1;
  } else if (kind == 1) {
    for (int i = 1; i < n; i++) clause({-i, i + 1});
    count = n + 1;
  } else {
    for (int i = 1; i <= n; i++)
      if (i % 4) clause({i % 3 ? i : -i});
      else count *= 2;
  }
  std::string path = c.scratch() + "/f.cnf";
  mc::write_file(path, t);
  CNF cnf(path.c_str());
  ManagerPtr m(make_manager(v, l));
  PsddNode *r = cnf.Compile(m.get(), 1);
  MC_CHECK(r != nullptr, "missing", "%d variables: no circuit", n);
  check_wellformed(r, m->vtree(), 1, "compiled");
  auto ser = psdd_node_util::SerializePsddNodes(r);
  MC_CHECK(psdd_node_util::ModelCount(ser) == count, "count", "%d variables, kind %d: %s models instead of %s", n, kind, psdd_node_util::ModelCount(ser).get_str().c_str(), count.get_str().c_str());
  static std::bitset<MAX_VAR> mask, inst;
  mask.reset();
  for (int x : l) mask.set(x);
  for (int k = 0; k <= n; k++) {  // the k last variables true
    inst.reset();
    for (int i = n - k; i < n; i++) inst.set(l[i]);
    auto val = [&](int i) { return i - 1 >= n - k; };
    bool want = kind == 1;
    if (kind == 0)
      for (int i = 1; i <= n; i++) want |= val(i) == (i % 2 == 1);
    if (kind == 2) {
      want = true;
      for (int i = 1; i <= n; i++)
        if (i % 4) want &= val(i) == (i % 3 != 0);
    }
    MC_CHECK(psdd_node_util::IsConsistent(ser, mask, inst) == want, "models-large", "%d variables, kind %d, the %d last true", n, kind, k);
    c.op();
  }
  c.state(fingerprint(r));
}
// very many clauses, very long clauses, very long lines
void many(Chooser &c) {
  static const int ns[] = {255, 256, 257, 1023, 5000, 65535, 65536, 70001};
  int n = ns[c.choose(8, "n")];
  int kind = c.choose(3, "kind");  // 0: n clauses, 1: one clause of n literals, 2: n clauses on one line
  int place = c.choose(3, "place");
  Labels l = labels_kind(2, 3);
  std::string t = "p cnf 3 " + std::to_string(n + 1) + "\n";
  int at = place == 0 ? 0 : place == 1 ? n / 2 : n;
  auto num = [&](int x) { return std::to_string(x > 0 ? l[x - 1] : -l[-x - 1]) + " "; };
  for (int i = 0; i <= n; i++) {
    if (kind == 1) {
      // one long clause with a single other literal, closed by a second clause
      t += i == at ? num(-3) : num(1);
    } else {
      t += i == at ? num(-3) : num(1) + num(2);
      t += "0";
      t += kind == 2 ? " " : "\n";
    }
  }
  if (kind == 1) t += "0\n" + num(2) + "0\n";
  std::string path = c.scratch() + "/f.cnf";
  mc::write_file(path, t);
  CNF cnf(path.c_str());
  size_t want = kind == 1 ? 2 : (size_t)n + 1;
  MC_CHECK(cnf.clauses().size() == want, "clauses", "%zu clauses instead of %zu", cnf.clauses().size(), want);
  for (size_t i = 0; i < want; i++) {
    const auto &cl = cnf.clauses()[i];
    if (kind == 1)
      MC_CHECK(i == 0 ? cl.size() == (size_t)n + 1 && cl[(size_t)at] == -l[2] : cl.size() == 1, "clauses", "long clause");
    else
      MC_CHECK((int)i == at ? cl.size() == 1 && cl[0] == -l[2] : cl.size() == 2 && cl[0] == l[0] && cl[1] == l[1], "clauses", "clause %zu", i);
  }
  c.op(want);
  ManagerPtr m(make_manager(inode(leaf(0), inode(leaf(1), leaf(2))), l));
  PsddNode *r = cnf.Compile(m.get(), 1);
  MC_CHECK(r != nullptr, "missing", "no circuit");
  for (unsigned x = 0; x < 8; x++) {
    bool a = x & 1, b = x & 2, d = x & 4;
    bool sat = kind == 1 ? (a || !d) && b : (a || b) && !d;
    MC_CHECK(models(r, Assign{&l, x}) == sat, "models", "assignment %x", x);
    c.op();
  }
  c.state(mc::mix((uint64_t)n, fingerprint(r)));
}
}  // namespace

void mc::register_scenarios(bool) {
  add("memory", memory);
  add("layouts", layouts);
  add("renamed", renamed);
  add("large", large);
  add("many", many);
}
