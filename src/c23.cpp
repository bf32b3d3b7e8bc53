// C23: numerical quadrature applies the one-point Gauss rule.
#include "build.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
using namespace m; using namespace b;
enum Cls { VALUE, NUNWRAP, NOINT, SYMB, ANALYTIC, OTHER };
static const char* cn[] = {"a value", "not-unwrappable", "integration-without-integral", "symbolic-integral", "analytic-integration", "another exception"};
template <class Fn> Cls run(Fn fn, double& v) { try { v = fn(); return VALUE; } catch (vm::expression_not_unwrappable_exception const&) { return NUNWRAP; } catch (vm::integration_without_integral_exception const&) { return NOINT; }
  catch (vm::symbolic_integral_evaluation_not_possible_exception const&) { return SYMB; } catch (vm::analytic_integration_not_supported_exception const&) { return ANALYTIC; } catch (std::exception const&) { return OTHER; } }
static vm::numerical_quadrature *q0, *q1, *q2;
static std::vector<double> with_x(unsigned long v, double mid, double other) { std::vector<double> x(8, other); for (size_t i = 0; i < x.size(); ++i) x[i] += 0.37 * i; if (v < x.size()) x[v] = mid; return x; }
// the value of an encoded integral / sum; ok=false: must raise
struct Ref { Cls c; E v; };
static bool special(P const& n) { return n->k == FS || n->k == VEC || n->k == SYMINT || n->k == INTEG; }
static P fill(P const& f, double t) { if (special(f)) return C(t + 0.31 * f->id + 0.07 * (int)f->k); if (f->ch.empty()) return f; std::vector<P> ch; for (auto& c : f->ch) ch.push_back(fill(c, t)); return mk(f->k, f->c, f->id, f->tag, ch); }
static Ref gauss(P const& f, double lo, double hi, unsigned long v) {
  if (contains(f, special)) {   // the part may vanish at the midpoint (0*u0): then undecided
    double md = (lo + hi) / 2; E a = at(fill(f, 0.83), with_x(v, md, 0.6)), c = at(fill(f, 2.71), with_x(v, md, 0.6));
    if (!a.ok || !c.ok || std::fabs(a.v - c.v) <= 100 * (a.e + c.e) + 1e-9) return Ref{OTHER, E(0)};
  }
  if (has_kind(f, SYMINT)) return Ref{SYMB, E(0)};
  if (contains(f, [](P const& n) { return n->k == FS || n->k == VEC; })) return Ref{NUNWRAP, E(0)};
  if (has_kind(f, INTEG)) return Ref{ANALYTIC, E(0)};
  double mid = (lo + hi) / 2; E a = at(f, with_x(v, mid, 0.6)), c = at(f, with_x(v, mid, 1.9));
  bool other = contains(f, [v](P const& n) { return n->k == VAR && n->id != v; });
  if (other) { if (a.ok && c.ok && std::fabs(a.v - c.v) > 100 * (a.e + c.e) + 1e-9) return Ref{NUNWRAP, E(0)}; return Ref{OTHER, E(0)}; }   // OTHER: undecided (simplification may remove the variable)
  return Ref{VALUE, (E(hi) - E(lo)) * a};
}
static void check(std::string const& key, Cls c, double v, Ref const& r) {
  ++vr::transitions; ++vr::validated; if (r.c == OTHER) return; ++vr::nontrivial;
  if (c != r.c) { vr::fail(key, std::string("gives ") + (c == VALUE ? num(v) : cn[c]) + " instead of " + (r.c == VALUE ? num(r.v.v) : cn[r.c])); return; }
  if (c == VALUE && informative(r.v) && !agrees(v, r.v)) vr::fail(key, "gives " + num(v) + " instead of " + num(r.v.v));
}
static const std::vector<std::pair<double, double>> IV{{0, 1}, {-1, 1}, {1, 3}, {2, 0.5}, {-2, 5}, {0.25, 0.75}, {1, 1}};
static void handle(P const& f, unsigned long v, bool all) {
  if (!vr::mine()) return; std::string s = str(f) + " d x" + std::to_string(v); vr::cur(s); ++vr::states; vr::sample(s);
  expr e = build(f); variable x(v); int n = 0;
  for (auto& iv : IV) {
    if (!all && n++ >= 2) break;
    std::string key = s + " over [" + num(iv.first) + "," + num(iv.second) + "]"; vm::interval in(iv.first, iv.second); Ref r = gauss(f, iv.first, iv.second, v); double g = 0; Cls c;
    Cls want = r.c; Ref rs = r; if (want == SYMB || want == ANALYTIC) rs.c = want;
    c = run([&] { return (*q0)(in, e, x); }, g); if (has_kind(f, SYMINT) && (c == SYMB || c == NUNWRAP)) rs.c = c; if (has_kind(f, INTEG) && (c == ANALYTIC || c == NUNWRAP)) rs.c = c; check("separate " + key, c, g, rs);
    if (v == 0) { vm::ct_variable<0> cx; c = run([&] { return (*q0)(in, e, cx); }, g); check("separate, ct_variable " + key, c, g, rs); }
    if (v == 2) { vm::ct_variable<2> cx; c = run([&] { return (*q0)(in, e, cx); }, g); check("separate, ct_variable " + key, c, g, rs); }
    expr en = vm::integral(in, e, x); std::string before = str(read(en));
    c = run([&] { return (*q0)(en); }, g); check("encoded " + key, c, g, rs);
    if (str(read(en)) != before || !eq(read(e), f)) vr::fail("operand " + key, "changed");
    if (all) { c = run([&] { return (*q1)(en); }, g); check("copied rule " + key, c, g, rs); c = run([&] { return (*q2)(in, e, x); }, g); check("assigned rule " + key, c, g, rs); }
    if (v == 0 && all) { vm::ct_variable<0> cx; expr ec = vm::integral(in, e, cx); c = run([&] { return (*q0)(ec); }, g); check("encoded, ct_variable " + key, c, g, rs); }
    if (all) { expr lo(iv.first), hi(iv.second); vm::interval in2(lo, hi); c = run([&] { return (*q0)(in2, e, x); }, g); check("interval of handles " + key, c, g, rs); vm::interval in3(expr(2.0 * lo - lo), hi * 1.0); c = run([&] { return (*q0)(in3, e, x); }, g); check("computed bounds " + key, c, g, rs); }
  }
}
// sums of encoded integrals
static Ref total(P const& p) {
  if (p->k == INTEG) return gauss(p->ch[0], p->ch[1]->c, p->ch[2]->c, p->tag);
  if (p->k == SYMINT) return Ref{SYMB, E(0)};
  if (!has_var(p) && !contains(p, [](P const& n) { return n->k >= FS && !is_bin(n->k); })) { E v = at(p, {}); if (!v.ok) return Ref{OTHER, E(0)}; if (v.v == 0) return Ref{VALUE, E(0)}; }
  if (p->k == ADD || p->k == SUB) { Ref a = total(p->ch[0]), c = total(p->ch[1]); if (a.c == OTHER || c.c == OTHER) return Ref{OTHER, E(0)}; if (a.c != VALUE && c.c != VALUE && a.c != c.c) return Ref{OTHER, E(0)}; if (a.c != VALUE) return a; if (c.c != VALUE) return c; return Ref{VALUE, p->k == ADD ? a.v + c.v : a.v - c.v}; }
  return Ref{NOINT, E(0)};
}
static void sums(P const& p) {
  if (!vr::mine()) return; std::string s = "sum " + str(p); vr::cur(s); ++vr::states; vr::sample(s);
  expr e = build(p); double g = 0; Cls c = run([&] { return (*q0)(e); }, g); check(s, c, g, total(p)); if (!eq(read(e), p)) vr::fail(s, "operand changed");
}
// the same formulas with other identifiers
static P ren(P const& f, unsigned long a, unsigned long c) { if (f->k == VAR) return X(f->id == 0 ? a : f->id == 1 ? c : f->id); std::vector<P> ch; for (auto& q : f->ch) ch.push_back(ren(q, a, c)); return mk(f->k, f->c, f->k == FS ? a : f->id, f->tag, ch); }
static void renamed(P const& f, unsigned long a, unsigned long c) {
  if (!vr::mine()) return; P h = ren(f, a, c); std::string s = str(h); vr::cur(s); ++vr::states; expr e = build(h); vm::interval in(1.0, 3.5); double g = 0;
  for (int v = 0; v < 2; ++v) { variable x(v ? c : a); Ref r = gauss(f, 1.0, 3.5, v); std::string key = s + " d x" + std::to_string(x.id()); Cls k = run([&] { return (*q0)(in, e, x); }, g); check("renamed " + key, k, g, r);
    expr en = vm::integral(in, e, x); k = run([&] { return (*q0)(en); }, g); check("renamed, encoded " + key, k, g, r); }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough; vm::numerical_quadrature a(new vm::rt_gauss_quad_1<>()), c(a), d, e0; d = c; e0 = e0; q0 = &a; q1 = &c; q2 = &d;
  for (unsigned long v : {0ul, 2ul}) { Alphabet al{{X(v), C(2), C(-0.5), C(0), X(1)}, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(1, [&](P const& p) { handle(p, v, true); }); en.each_exact(2, [&](P const& p) { handle(p, v, T); }); }
  { Alphabet al{{X(1), C(3)}, {SIN, SQRT}, ALLBIN}; Enum en(al, 2); en.each_exact(3, [&](P const& p) { handle(p, 1, false); }); }
  { std::vector<Kind> ops = ALLBIN; ops.insert(ops.end(), {SIN, EXP}); combs(T ? 5 : 3, ops, {C(1.5), X(0)}, X(0), [&](P const& p) { handle(p, 0, false); }); }
  // linear integrands: exact
  for (double k : {-3.0, 0.0, 0.5, 2.0, 7.0}) for (double q : {-1.0, 0.0, 4.5}) for (auto& iv : IV) { if (!vr::mine()) continue; ++vr::states; P f = B(ADD, B(MUL, C(k), X(0)), C(q)); double g = 0; Cls cl = run([&] { return a(vm::interval(iv.first, iv.second), build(f), variable(0)); }, g); double ex = k * (iv.second * iv.second - iv.first * iv.first) / 2 + q * (iv.second - iv.first); ++vr::transitions; if (cl != VALUE || std::fabs(g - ex) > 1e-12 * (1 + std::fabs(ex))) vr::fail("linear " + str(f) + " over [" + num(iv.first) + "," + num(iv.second) + "]", "gives " + num(g) + " instead of the exact integral " + num(ex)); }
  std::vector<double> bs; for (int i = -30; i <= 30; ++i) bs.push_back(i * 0.7); for (double lo : bs) for (double hi : bs) { if (!vr::mine()) continue; ++vr::states; P f = B(SUB, B(MUL, X(0), X(0)), C(1)); Ref r = gauss(f, lo, hi, 0); double g = 0; Cls cl = run([&] { return a(vm::interval(lo, hi), build(f), variable(0)); }, g); check("bounds " + num(lo) + "," + num(hi), cl, g, r); cl = run([&] { return a(build(mk(INTEG, 0, 0, 0, {f, C(lo), C(hi)}))); }, g); check("encoded bounds " + num(lo) + "," + num(hi), cl, g, r); }
  for (unsigned long v = 0; v < 200; ++v) { if (!vr::mine()) continue; ++vr::states; double g = 0; Cls cl = run([&] { return a(vm::interval(1.0, 2.0), build(B(MUL, X(v), C(3))), variable(v)); }, g); ++vr::transitions; if (cl != VALUE || std::fabs(g - 4.5) > 1e-12) vr::fail("variable id " + std::to_string(v), "gives " + num(g)); cl = run([&] { return a(vm::interval(1.0, 2.0), build(B(MUL, X(v), C(3))), variable(v + 1)); }, g); if (cl != NUNWRAP) vr::fail("other variable id " + std::to_string(v), std::string("gives ") + cn[cl]); }
  // unsupported parts
  for (P q : {F(0), F(1, 1), mk(VEC, 0, 0, 0, {X(0), C(1)}), mk(SYMINT, 0, 1, 0, {X(0)}), mk(INTEG, 0, 0, 1, {X(1), C(0), C(1)})}) { handle(q, 0, true); for (Kind k : ALLBIN) if (q->k != VEC) { handle(B(k, q, C(2)), 0, true); handle(B(k, X(0), q), 0, true); } }
  // sums and differences of integrals, symbolic domains, zeros, other terms: all trees with <= 2 (3) operations
  std::vector<P> I{mk(INTEG, 0, 0, 0, {B(MUL, X(0), X(0)), C(0), C(1)}), mk(INTEG, 0, 0, 1, {B(ADD, U(SIN, X(1)), C(2)), C(-1), C(2)}), mk(INTEG, 0, 0, 0, {X(1), C(0), C(1)}), mk(SYMINT, 0, 0, 0, {X(0)}), C(0), C(3), X(0), mk(INTEG, 0, 0, 0, {C(4), C(0.5), C(2)})};
  { Alphabet al{I, {SIN}, ALLBIN}; Enum en(al, 1); en.upto(2, sums); } { Alphabet al{{I[0], I[1], C(0), I[7]}, {}, {ADD, SUB}}; Enum en(al, 2); en.each_exact(3, sums); en.each_exact(T ? 5 : 4, sums); }
  // an empty rule or interval is never needed; the constant zero
  { double g = 1; Cls cl = run([&] { return a(expr(0.0)); }, g); if (cl != VALUE || g != 0) vr::fail("constant zero", "not integrated to 0"); }
  { std::vector<P> fam{X(0), X(1), B(MUL, X(0), X(0)), B(ADD, X(0), C(2)), B(MUL, X(0), X(1)), B(DIV, U(SIN, X(0)), X(0)), B(ADD, X(0), F(0)), C(4)};
    for (unsigned long a : wide_ids()) for (unsigned long c : wide_ids()) if (a != c) for (P f : fam) renamed(f, a, c); }
  pumped(X(0), X(1), {SIN, FABS}, {6, 17, 33}, 0, [](P const& p) { handle(p, 0, false); });
  return vr::finish();
}
