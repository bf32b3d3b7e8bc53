// C01: runtime evaluation computes the written formula, for every operand-type mix.
#include "build.hpp"
using namespace m; using namespace b;
static void judge(P const& p, expr const& e, const char* how, size_t npts) {
  for (size_t i = 0; i < npts; ++i) {
    std::vector<double> x = PTS[i]; while ((long)x.size() <= max_var(p)) x.push_back(0.37 + 1.13 * x.size());
    double want = ieee(p, x), got = e(x);
    ++vr::transitions; ++vr::validated;
    if (same_ieee(want, got)) continue;
    E r = at(p, x);
    if (p->ops <= 1 || !agrees(got, r))
      vr::fail("eval:" + str(p), std::string(how) + " at (" + num(x[0]) + "," + num(x[1]) + "," + num(x[2]) + ",..) gives " + num(got) + ", formula gives " + num(want));
  }
}
// the same formula held as a unary or binary expression object, at points of several types
struct Pt { std::vector<double> const* d; size_t size() const { return d->size(); } double operator[](size_t i) const { return (*d)[i]; } };
template <class T> static void entry(P const& p, T const& e, const char* how) {
  std::vector<double> x = PTS[0]; while ((long)x.size() <= max_var(p)) x.push_back(0.37 + 1.13 * x.size());
  double want = ieee(p, x); E r = at(p, x); Pt q{&x};
  auto one = [&](const char* form, double got) { ++vr::transitions; ++vr::validated; if (!same_ieee(want, got) && (p->ops <= 1 || !agrees(got, r))) vr::fail(std::string(form) + ":" + str(p), std::string(how) + " gives " + num(got) + ", formula gives " + num(want)); };
  one("vector", e(x)); one("indexable", e(q)); one("eval", vm::eval(e, x));
  if (max_var(p) <= 2) { x.resize(3); want = ieee(p, x); r = at(p, x); one("make_vector", e(vm::make_vector(x[0], x[1], x[2]))); one("three", e(q)); }
  if (max_var(p) <= 1) { x.resize(2); one("make_vector2", e(vm::make_vector(x[0], x[1]))); one("two", e(q)); }
  if (max_var(p) <= 0) { one("number", e(x[0])); one("constant", e(constant(x[0]))); one("eval number", vm::eval(e, x[0])); }
}
static void handle(P const& p, size_t npts) {
  if (!vr::mine()) return;
  vr::cur(str(p)); ++vr::states; vr::sample(str(p));
  judge(p, build(p), "handles", npts);
  Choice c{0, 0}; Obj o = natural(p, c); judge(p, to_expr(o), "natural operand types", npts);
  if (p->ops <= 3) { if (o.t == TB) entry(p, *o.be, "binary expression"); else if (o.t == TU) entry(p, *o.ue, "unary expression"); else entry(p, to_expr(o), "handle"); }
}
static unsigned long nchoice(P const& p) {
  if (p->k == CONST) return 3; if (p->k == VAR) return 2;
  unsigned long n = 2; for (auto& q : p->ch) n *= nchoice(q); return n;
}
int main(int argc, char** argv) {
  vr::init(argc, argv);
  { // every operand-type mix of every formula with at most two operations
    Alphabet al{{X(0), X(1), C(2), C(-0.5)}, ALLFUN, ALLBIN}; Enum en(al, 1);
    en.upto(2, [&](P const& p) {
      if (!vr::mine()) return;
      vr::cur(str(p)); ++vr::states; unsigned long n = nchoice(p) / (p->ops ? 2 : 1);
      for (unsigned long k = 0; k < n; ++k) { Choice c{k, 0}; judge(p, to_expr(natural(p, c)), "operand types", 2); ++vr::counters["type_mixes"]; }
    });
  }
  { // three operations
    Alphabet al{{X(0), X(1), C(3)}, ALLFUN, ALLBIN}; Enum en(al, 2);
    en.upto(3, [&](P const& p) { handle(p, 3); });
  }
  { // wide: many constants and variable indices in small formulas
    std::vector<P> lv; std::vector<double> cs;
    for (int i = -40; i <= 40; ++i) cs.push_back(i);
    for (double d : {0.1, 0.25, 1e-3, 1e-9, 1e-200, 1e9, 1e15, 9007199254740992.0, 9007199254740993.0, 1e200, 3.141592653589793, 2147483647.0, 2147483648.0, 4294967296.0, -2147483649.0, 1e18, 0.3333333333333333, 1000.0, 1e6, 255.0, 256.0}) { cs.push_back(d); cs.push_back(-d); }
    for (double d : cs) lv.push_back(C(d)); for (int i = 0; i < 24; ++i) lv.push_back(X(i));
    Alphabet al{lv, ALLFUN, ALLBIN}; Enum en(al, 0); en.upto(1, [&](P const& p) { handle(p, 2); });
  }
  { // deep chains
    std::vector<P> lv = {X(1), C(2), X(0), C(0.75)};
    std::vector<Kind> ops = ALLBIN; ops.push_back(SIN); ops.push_back(EXP); ops.push_back(FABS);
    for (int n = 4; n <= (vr::thorough ? 7 : 5); ++n) combs(n, ops, lv, X(0), [&](P const& p) { handle(p, 2); });
    std::vector<Kind> all = ALLBIN; all.insert(all.end(), ALLFUN.begin(), ALLFUN.end());
    combs(vr::thorough ? 5 : 4, all, lv, X(2), [&](P const& p) { handle(p, 2); });
    std::vector<Kind> two = {ADD, MUL}; combs(10, two, lv, X(0), [&](P const& p) { handle(p, 2); });
    P big = X(0); for (int i = 0; i < 60; ++i) { big = B(i % 3 ? ADD : SUB, big, C(i)); handle(big, 2); }
    P bal = X(1); for (int i = 0; i < 9; ++i) { bal = B(i % 2 ? ADD : MUL, bal, i % 3 ? bal : B(SUB, bal, C(i))); handle(bal, 2); }
  }
  if (vr::thorough) {
    Alphabet al{{X(0), C(3)}, {EXP, SIN, SQRT, LOG}, ALLBIN}; Enum en(al, 2);
    en.each_exact(4, [&](P const& p) { handle(p, 2); });
  }
  lookalikes(X(0), X(1), [](P const& p) { handle(p, 3); }); lookalikes(C(7), X(0), [](P const& p) { handle(p, 1); });
  pumped(X(0), X(1), {SIN, COS, FABS, SQRT, EXP}, {6, 12, 20, 33, vr::thorough ? 129 : 65}, vr::thorough ? 20 : 12, [](P const& p) { handle(p, 1); });
  return vr::finish();
}
