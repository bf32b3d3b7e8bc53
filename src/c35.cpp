// C35: a quadrature rule supplied by the user decides every encoded integral.
#include "build.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
using namespace m; using namespace b;
static long rules = 0; static std::vector<P> known; static std::vector<double> weight; static std::string strange; static int throw_at = -1, calls = 0;
struct Stop {}; static const P lvp = mk(INTEG, 0, 0, 9, {X(9), C(9), C(9)});
struct Rule : public vm::numerical_quadrature_interface<If> {
  double f; Rule(double a) : f(a) { ++rules; } Rule(Rule const& o) : vm::numerical_quadrature_interface<If>(), f(o.f) { ++rules; } ~Rule() { --rules; }
  vm::numerical_quadrature_interface<If>* clone() const { return new Rule(*this); }
  double eval(vm::interval const& in, expr const& e, variable const& v) const {
    if (calls++ == throw_at) throw Stop(); P got = mk(INTEG, 0, 0, v.id(), {read(e), read(in.lower()), read(in.upper())});
    for (size_t i = 0; i < known.size(); ++i) if (eq(known[i], got)) return f * weight[i];
    strange = str(got); return 0;
  }
};
static vm::numerical_quadrature *qs[4]; static double fs[4];
static size_t index_of(P const& p) { for (size_t i = 0; i < known.size(); ++i) if (eq(known[i], p)) return i; known.push_back(p); weight.push_back(std::ldexp(1.0, (int)(7 * known.size()) % 40) + (double)known.size()); return known.size() - 1; }
static expr bld(P const& p) { if (is_bin(p->k)) { expr l = bld(p->ch[0]), r = bld(p->ch[1]); return bop(p->k, l, r); } if (p->k == INTEG) { return vm::integral(vm::interval(build(p->ch[1]), build(p->ch[2])), build(p->ch[0]), variable(p->tag)); } return build(p); }
// undefined: 2 = must raise integration-without-integral, 3 = must raise symbolic
static int ref(P const& p, double& v) {
  if (p->k == INTEG) { v = weight[index_of(p)]; return 0; }
  if (p->k == SYMINT) return 3;
  if (p->k == CONST) { v = 0; return p->c == 0 ? 0 : 2; }
  if (p->k == ADD || p->k == SUB) { double a = 0, c = 0; int ra = ref(p->ch[0], a), rc = ref(p->ch[1], c); if (ra && rc && ra != rc) return 4; if (ra || rc) return ra ? ra : rc; v = p->k == ADD ? a + c : a - c; return 0; }
  return 2;
}
static bool folds(P const& p) { return !contains(p, [](P const& n) { return n->k != CONST && !is_bin(n->k); }) && p->ops > 0; }
static void handle(P const& p) {
  if (contains(p, folds)) return;   // sums of constants only: whether they vanish is a matter of their value
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s); known.clear(); weight.clear(); double want = 0; int c = ref(p, want); long before = rules; expr e = bld(p);
  for (int k = 0; k < (c && p->ops > 3 ? 1 : 4); ++k) {
    ++vr::transitions; ++vr::validated; strange.clear(); calls = 0; throw_at = -1; int got = 0; double v = 0;
    try { v = (*qs[k])(e); } catch (vm::integration_without_integral_exception const&) { got = 2; } catch (vm::symbolic_integral_evaluation_not_possible_exception const&) { got = 3; } catch (std::exception const&) { got = 5; }
    if (c == 4 ? (got != 2 && got != 3) : got != c) vr::fail("outcome " + s, "rule object " + std::to_string(k) + ": outcome " + std::to_string(got) + " instead of " + std::to_string(c));
    else if (!c && v != fs[k] * want) vr::fail("value " + s, "rule object " + std::to_string(k) + " gives " + num(v) + " instead of " + num(fs[k] * want)); else if (!c) ++vr::nontrivial;
    if (!strange.empty()) vr::fail("argument " + s, "the rule is handed " + strange);
  }
  if (!c && p->ops < 6) for (int n = 0; n < 4; ++n) { throw_at = n; calls = 0; bool raised = false; try { (*qs[0])(e); } catch (Stop&) { raised = true; } ++vr::transitions; if (raised != (calls > n)) vr::fail("raise " + s, "an exception of the rule is lost"); if (calls <= n) break; }
  throw_at = -1; if (!eq(read(e), p)) vr::fail("operand " + s, "changed"); if (rules != before) vr::fail("released " + s, "rule objects");
}
static void separate(P const& f, P const& lo, P const& hi, unsigned long v) {
  if (!vr::mine()) return; P p = mk(INTEG, 0, 0, v, {f, lo, hi}); std::string s = "separate " + str(p); vr::cur(s); ++vr::states; known.clear(); weight.clear(); index_of(lvp); double want = weight[index_of(p)]; expr e = build(f); vm::interval in(build(lo), build(hi)); variable x(v);
  for (int k = 0; k < 4; ++k) { std::vector<double> r; strange.clear(); calls = 0; r.push_back((*qs[k])(in, e, x)); if (v == 0) { vm::ct_variable<0> c; r.push_back((*qs[k])(in, e, c)); r.push_back((*qs[k])(vm::integral(in, e, c))); } if (v == 3) { vm::ct_variable<3> c; r.push_back((*qs[k])(in, e, c)); r.push_back((*qs[k])(vm::integral(in, e, c))); } r.push_back((*qs[k])(vm::integral(in, e, x)));
    for (double g : r) { ++vr::transitions; ++vr::validated; ++vr::nontrivial; if (g != fs[k] * want) vr::fail(s, "rule object " + std::to_string(k) + " gives " + num(g) + (strange.empty() ? "" : "; the rule is handed " + strange)); } }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  vm::numerical_quadrature a(new Rule(1)), c(new Rule(-3)), cc(c), d, g(new vm::gauss_quad_1()); d = a; g = cc; { vm::numerical_quadrature tmp(new Rule(8)); cc = tmp; } vm::numerical_quadrature* q[] = {&d, &c, &cc, &g}; double f[] = {1, -3, 8, -3}; for (int i = 0; i < 4; ++i) { qs[i] = q[i]; fs[i] = f[i]; }
  std::vector<P> fs_{X(0), X(1), C(2), C(0), B(ADD, X(0), C(0)), B(MUL, X(0), X(1)), U(SIN, B(MUL, C(1), X(0))), F(0), F(3, 1), mk(SYMINT, 0, 1, 0, {X(0)}), mk(INTEG, 0, 0, 0, {X(0), C(0), C(1)}), B(DIV, F(0), C(0)), U(GRAD, F(0)), mk(VEC, 0, 0, 0, {X(0), C(1)}), B(SUB, X(2), B(SUB, X(0), C(3)))};
  std::vector<P> bs{C(0), C(1), C(-2.5), X(1), X(0), B(ADD, X(0), C(0)), U(SIN, C(2)), B(SUB, C(3), C(3)), F(0)};
  for (auto& h : fs_) for (auto& l : bs) for (auto& u : bs) for (unsigned long v : {0ul, 1ul, 3ul, 70ul}) separate(h, l, u, v);
  auto in = [](P h, double l, double u, unsigned long v) { return mk(INTEG, 0, 0, v, {h, C(l), C(u)}); };
  std::vector<P> lv{in(X(0), 0, 1, 0), in(X(1), 0, 1, 0), in(X(0), 0, 1, 1), in(X(0), 0, 2, 0), in(F(0), -1, 0, 2), in(in(X(0), 0, 1, 0), 0, 1, 1), C(0), C(2), X(0), mk(SYMINT, 0, 1, 0, {X(0)})};

  { Alphabet al{lv, {}, {ADD, SUB}}; Enum en(al, 2); en.upto(2, handle); if (T) en.each_exact(3, handle); }
  { Alphabet al{{lv[0], lv[2], lv[4], C(0), X(0), lv[9]}, {}, {ADD, SUB}}; Enum en(al, 2); en.each_exact(3, handle); }
  { Alphabet al{{lv[0], lv[3], lv[4], C(0), C(2)}, {SIN, EXP}, ALLBIN}; Enum en(al, 1); en.upto(2, handle); }
  { Alphabet al{{lv[0], lv[1], C(0)}, {}, {ADD, SUB}}; Enum en(al, 3); en.each_exact(4, handle); if (T) en.each_exact(5, handle); if (T) en.each_exact(6, handle); }
  for (auto& h : fs_) for (auto& h2 : fs_) { handle(B(SUB, in(h, 0, 1, 0), in(h2, 0, 1, 0))); handle(B(ADD, in(h, 0, 1, 0), B(SUB, in(h, 1, 0, 0), in(h2, 0, 1, 1)))); }
  for (unsigned long a : wide_ids()) for (unsigned long b2 : wide_ids()) { separate(B(MUL, X(a), X(b2)), C(0), C(2), a); separate(F(b2), C(0), C(2), a); handle(B(SUB, in(X(a), 0, 1, b2), in(X(b2), 0, 1, a))); handle(B(ADD, in(X(0), 0, 1, a), in(X(0), 0, 1, b2))); }
  pumped(lv[0], lv[2], {}, {6, 17, 33}, 8, [](P const& p) { if (!contains(p, [](P const& n) { return n->k == MUL || n->k == DIV; })) handle(p); });
  return vr::finish();
}
