// C14  log-space arithmetic of PsddParameter
#include <cmath>
#include <limits>

#include "ref.h"
using namespace ref;
using P = PsddParameter;

namespace {
// A value under test with the exact value it should have (long double, natural log).
struct V {
  P p;
  long double lg;  // log of the true value, -inf for zero
  std::string how;
};
const long double NINF = -std::numeric_limits<long double>::infinity();

long double ladd(long double a, long double b) {
  if (a == NINF) return b;
  if (b == NINF) return a;
  if (a < b) std::swap(a, b);
  return a + log1pl(expl(b - a));
}
std::vector<double> decimals(bool th) {
  std::vector<double> d = {0, 1, 0.5, 0.25, 0.1, 0.3, 0.9, 0.999999, 2, 3, 10, 1e-3, 1e-10, 1e-300, 5e-324, 1e10, 1e300};
  if (th)
    for (double x : {0.01, 0.2, 0.7, 1 + 1e-5, 1 - 1e-5, 7.0, 100.0, 65536.0, 1e-40, 1e-150, 1e-308, 1e40, 1e150, 1.7e308})
      d.push_back(x);
  return d;
}
std::vector<double> logs(bool th) {
  std::vector<double> d = {0, -std::numeric_limits<double>::infinity(), -1, -800, -5000, -1e6, 1, 800};
  if (th)
    for (double x : {-0.001, -20.0, -100.0, -745.0, -746.0, -30000.0, -1e9, 20.0, 2000.0, 1e6, -1e-5, 1e-5, -1e11}) d.push_back(x);
  return d;
}
std::vector<V> base(bool th) {
  std::vector<V> b;
  for (double x : decimals(th)) {
    V v{P::CreateFromDecimal(x), x == 0 ? NINF : logl((long double)x), ""};
    char s[40];
    snprintf(s, sizeof s, "dec(%g)", x);
    v.how = s;
    b.push_back(v);
  }
  for (double x : logs(th)) {
    V v{P::CreateFromLog(x), (long double)x, ""};
    char s[40];
    snprintf(s, sizeof s, "log(%g)", x);
    v.how = s;
    b.push_back(v);
  }
  b.push_back(V{P(), NINF, "default"});
  return b;
}
double tol(long double lg) { return 1e-9 + 1e-12 * (double)fabsl(lg); }

void value(const V &v) {
  double got = v.p.parameter();
  if (v.lg == NINF)
    MC_CHECK(got == -std::numeric_limits<double>::infinity(), "value", "%s should be zero, has log %.17g", v.how.c_str(), got);
  else
    MC_CHECK(std::isfinite(got) && fabs(got - (double)v.lg) <= tol(v.lg), "value", "%s has log %.17g, should be %.17Lg",
             v.how.c_str(), got, v.lg);
}
// relations between two values: consistent with each other and with the real values
void relate(const V &a, const V &b) {
  bool eq = a.p == b.p, ne = a.p != b.p, lt = a.p < b.p, gt = a.p > b.p;
  bool eq2 = b.p == a.p, lt2 = b.p < a.p, gt2 = b.p > a.p;
  MC_CHECK(eq != ne, "equality", "%s and %s: == %d but != %d", a.how.c_str(), b.how.c_str(), eq, ne);
  MC_CHECK(eq == eq2 && lt == gt2 && gt == lt2, "symmetry", "%s and %s compare differently when swapped", a.how.c_str(),
           b.how.c_str());
  MC_CHECK((int)eq + lt + gt == 1, "trichotomy", "%s and %s: == %d, < %d, > %d", a.how.c_str(), b.how.c_str(), eq, lt, gt);
  if (eq) MC_CHECK(a.p.hash_value() == b.p.hash_value(), "hash", "%s == %s but their hashes differ", a.how.c_str(), b.how.c_str());
  long double d;
  if (a.lg == NINF && b.lg == NINF)
    d = 0;
  else if (a.lg == NINF)
    d = NINF;
  else if (b.lg == NINF)
    d = -NINF;
  else
    d = a.lg - b.lg;
  // far below the resolution (1e-7 in the logarithm, whole decimals) they must not be told apart by more
  // than rounding; far above it they must be told apart
  double room = 2e-7 + tol(a.lg == NINF ? 0 : a.lg) + tol(b.lg == NINF ? 0 : b.lg);
  if (d > room) MC_CHECK(gt, "order", "%s > %s by %.9Lg in the logarithm, but > is false", a.how.c_str(), b.how.c_str(), d);
  if (d < -room) MC_CHECK(lt, "order", "%s < %s by %.9Lg in the logarithm, but < is false", a.how.c_str(), b.how.c_str(), d);
  if (a.p.parameter() == b.p.parameter())
    MC_CHECK(eq, "history", "%s and %s have the same value %.17g but are not equal", a.how.c_str(), b.how.c_str(),
             a.p.parameter());
}
V apply(int op, const V &a, const V &b) {
  V r;
  const char *s = op == 0 ? "+" : op == 1 ? "*" : "/";
  r.how = "(" + a.how + s + b.how + ")";
  if (op == 0) {
    r.p = a.p + b.p;
    r.lg = ladd(a.lg, b.lg);
  } else if (op == 1) {
    r.p = a.p * b.p;
    r.lg = a.lg == NINF || b.lg == NINF ? NINF : a.lg + b.lg;
  } else {
    r.p = a.p / b.p;
    r.lg = a.lg == NINF ? NINF : a.lg - b.lg;
  }
  return r;
}
V compound(int op, const V &a, const V &b) {
  V r = a;
  P *ret;
  if (op == 0) ret = &(r.p += b.p);
  if (op == 1) ret = &(r.p *= b.p);
  if (op == 2) ret = &(r.p /= b.p);
  MC_CHECK(ret == &r.p, "compound-return", "compound assignment does not return its left operand");
  V e = apply(op, a, b);
  r.lg = e.lg;
  r.how = "(" + a.how + (op == 0 ? "+=" : op == 1 ? "*=" : "/=") + b.how + ")";
  return r;
}
void same(const V &x, const V &y) {
  double a = x.p.parameter(), b = y.p.parameter();
  MC_CHECK(a == b || fabs(a - b) <= tol(x.lg == NINF ? 0 : x.lg), "compound-value", "%s has log %.17g but %s has %.17g",
           x.how.c_str(), a, y.how.c_str(), b);
  if (a == b) {
    MC_CHECK(x.p == y.p && !(x.p != y.p) && !(x.p < y.p) && !(x.p > y.p), "compound-equal", "%s and %s have the same value %.17g but are not equal",
             x.how.c_str(), y.how.c_str(), a);
    MC_CHECK(x.p.hash_value() == y.p.hash_value(), "compound-hash", "%s and %s have the same value %.17g but different hashes",
             x.how.c_str(), y.how.c_str(), a);
  }
}
void binary(Chooser &c) {
  auto b = base(c.thorough());
  int op = c.choose(3, "op");
  const V a = b[c.choose((int)b.size(), "a")], d = b[c.choose((int)b.size(), "b")];
  if (op == 2 && d.lg == NINF) c.skip();
  c.describe(a.how + " op " + d.how);
  value(a);
  relate(a, d);
  V r = apply(op, a, d), q = compound(op, a, d);
  value(r);
  value(q);
  same(r, q);
  c.op(6);
  c.state(mc::mix(mc::mix(op, (uint64_t)(r.p.parameter() * 1e6)), r.p.hash_value()));
  // the result against every base value, computed either way
  for (auto &z : b) {
    relate(r, z);
    relate(q, z);
    c.op(2);
  }
  // aliasing: x op= x
  V s = a;
  if (op == 0) s.p += s.p;
  if (op == 1) s.p *= s.p;
  if (op == 2 && a.lg != NINF) s.p /= s.p;
  if (!(op == 2 && a.lg == NINF)) {
    V e = apply(op, a, a);
    s.lg = e.lg;
    s.how = "self-assign " + e.how;
    value(s);
    same(s, e);
    c.op();
  }
}
// two operations in a row, every combination of forms: the last value must not remember how it came about
void history(Chooser &c) {
  auto b = base(c.thorough());
  if (!c.thorough()) {
    std::vector<V> k;
    for (size_t i = 0; i < b.size(); i++)
      if (i < 8 || i % 3 == 0) k.push_back(b[i]);
    b = k;
  }
  int op1 = c.choose(3, "op1"), op2 = c.choose(3, "op2");
  const V x = b[c.choose((int)b.size(), "x")], y = b[c.choose((int)b.size(), "y")], z = b[c.choose((int)b.size(), "z")];
  if (op1 == 2 && y.lg == NINF) c.skip();
  if (op2 == 2 && z.lg == NINF) c.skip();
  V r1 = apply(op1, x, y), q1 = compound(op1, x, y);
  V rr = apply(op2, r1, z), rq = compound(op2, r1, z), qr = apply(op2, q1, z), qq = compound(op2, q1, z);
  long double t = r1.lg == NINF || rr.lg == NINF ? 0 : fabsl(r1.lg);
  if (t < 1e12L) {
    value(rr);
    value(qq);
  }
  same(rr, rq);
  same(rr, qr);
  same(rr, qq);
  V copy{P::CreateFromLog(qq.p.parameter()), qq.lg, "fresh copy"};
  same(copy, qq);
  same(copy, rr);
  if (op2 != 2) {  // operands in the other order
    V sw = apply(op2, z, r1);
    V sc = compound(op2, z, q1);
    same(rr, sw);
    same(rr, sc);
  }
  c.op(8);
  c.state((uint64_t)(rr.p.parameter() * 1e6));
  if (c.describing()) c.describe(qq.how);
}
// near-equal values: total preorder on chains around every scale
void order(Chooser &c) {
  static const double centre[] = {0, -1e-6, 1e-6, -0.6931471805599453, -1, -50, -745, -3000, 5, 700, -1e5};
  static const double step[] = {1e-9, 1e-8, 3e-8, 1e-7, 3e-7, 1e-6};
  double ce = centre[c.choose((int)(sizeof centre / sizeof *centre), "centre")];
  double st = step[c.choose((int)(sizeof step / sizeof *step), "step")];
  std::vector<V> v;
  for (int i = -6; i <= 6; i++) {
    double l = ce + i * st;
    char s[40];
    snprintf(s, sizeof s, "log(%.12g)", l);
    v.push_back(V{P::CreateFromLog(l), (long double)l, s});
  }
  c.describef("chain around %g step %g", ce, st);
  for (auto &a : v)
    for (auto &b : v) {
      relate(a, b);
      c.op();
      if (a.lg <= b.lg) MC_CHECK(!(a.p > b.p), "order", "%s > %s", a.how.c_str(), b.how.c_str());
      for (auto &d : v) {
        if (a.p < b.p && b.p < d.p) MC_CHECK(a.p < d.p, "transitive", "%s < %s < %s", a.how.c_str(), b.how.c_str(), d.how.c_str());
        if (a.p == b.p && b.p == d.p)
          MC_CHECK(a.p == d.p, "transitive", "%s == %s == %s", a.how.c_str(), b.how.c_str(), d.how.c_str());
        if (a.p < b.p && b.p == d.p) MC_CHECK(a.p < d.p, "transitive", "%s < %s == %s", a.how.c_str(), b.how.c_str(), d.how.c_str());
      }
    }
  c.state(mc::mix((uint64_t)(ce * 1e7), (uint64_t)(st * 1e12)));
}
// transitivity over all triples of base values
void triples(Chooser &c) {
  auto b = base(c.thorough());
  const V a = b[c.choose((int)b.size(), "a")];
  for (auto &x : b)
    for (auto &y : b) {
      if (a.p < x.p && x.p < y.p) MC_CHECK(a.p < y.p, "transitive", "%s < %s < %s", a.how.c_str(), x.how.c_str(), y.how.c_str());
      if (a.p == x.p && x.p == y.p) MC_CHECK(a.p == y.p, "transitive", "%s %s %s", a.how.c_str(), x.how.c_str(), y.how.c_str());
      c.op();
    }
  c.state((uint64_t)(a.p.parameter() * 1e6));
  c.describe(a.how);
}
// folding a whole row of equal parameters, n = 1..max
void sums(Chooser &c) {
  int n = 1 + c.choose(c.thorough() ? 400 : 130, "n");
  static const double w[] = {1, 0.1, 1e-12, 1e-300, 3};
  double x = w[c.choose(5, "weight")];
  P acc = P::CreateFromDecimal(0), acc2, mul = P::CreateFromDecimal(1), mul2 = P::CreateFromDecimal(1);
  for (int i = 0; i < n; i++) {
    acc = acc + P::CreateFromDecimal(x);
    acc2 += P::CreateFromDecimal(x);
    mul = mul * P::CreateFromDecimal(x);
    mul2 *= P::CreateFromDecimal(x);
  }
  long double s = logl((long double)n) + logl((long double)x), m = n * logl((long double)x);
  char h[60];
  snprintf(h, sizeof h, "%d times %g", n, x);
  V a{acc, s, std::string("sum of ") + h}, a2{acc2, s, std::string("+= of ") + h}, b{mul, m, std::string("product of ") + h},
      b2{mul2, m, std::string("*= of ") + h};
  value(a);
  value(a2);
  value(b);
  value(b2);
  same(a, a2);
  same(b, b2);
  if (std::isfinite(acc.parameter())) {
    P q = acc;
    q /= P::CreateFromDecimal(n);
    V qv{q, logl((long double)x), "mean"};
    value(qv);
    relate(qv, V{P::CreateFromLog(q.parameter()), qv.lg, "fresh"});
  }
  c.op(7);
  c.state(mc::mix((uint64_t)(acc.parameter() * 1e6), (uint64_t)(mul.parameter() * 1e6)));
  c.describe(h);
}
}  // namespace

void mc::register_scenarios(bool) {
  add("binary", binary);
  add("history", history);
  add("order", order);
  add("triples", triples);
  add("sums", sums);
}
