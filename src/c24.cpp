// C24: replacing a symbolic integration domain.
#include "build.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
using namespace m; using namespace b;
static P repl(P const& p, unsigned long id, double lo, double hi, unsigned long v) {
  if (p->ch.empty()) return p;
  std::vector<P> ch; for (size_t i = 0; i < p->ch.size(); ++i) ch.push_back(p->k == INTEG && i > 0 ? p->ch[i] : repl(p->ch[i], id, lo, hi, v));
  if (p->k == SYMINT && p->id == id) return mk(INTEG, 0, 0, v, {ch[0], C(lo), C(hi)});
  return mk(p->k, p->c, p->id, p->tag, ch);
}
static void cmp(std::string const& key, expr const& r, P const& want) { ++vr::transitions; ++vr::validated; P g; try { g = read(r); } catch (std::exception const& x) { vr::fail(key, x.what()); return; } if (!g || !eq(g, want)) vr::fail(key, "gives " + (g ? str(g) : "nothing") + " instead of " + str(want)); }
struct IVal { double lo, hi; unsigned long v; };
static const std::vector<IVal> IV{{0, 1, 0}, {-1, 2, 1}, {3, 0.5, 2}, {0, 1, 7}};
static vm::numerical_quadrature* quad;
// an integral over a symbolic domain can be written with every kind of integrand
static void entry(P const& p) {
  if (!vr::mine()) return; std::string s = "integrand " + str(p); vr::cur(s); ++vr::states;
  for (unsigned long id : {0ul, 1ul, 5ul, 4294967296ul}) for (unsigned long w = 0; w < 8; ++w) {
    Choice ch{w * 0x9e37ul + w, 0}; Obj o = natural(p, ch, true); vm::symbolic_interval si(id); P want = mk(SYMINT, 0, id, 0, {p});
    with(o, [&](auto const& q) { if constexpr (!std::is_same<std::decay_t<decltype(q)>, double>::value) { expr e = vm::integral(si, q), e2(1.0); e2 = vm::integral(si, q); std::string k = s + " of kind " + std::to_string(o.t) + " over domain " + std::to_string(id); cmp(k, e, want); cmp(k + " (assigned)", e2, want); cmp(k + " replaced", vm::substitute(si, std::make_pair(vm::interval(0.0, 2.0), variable(1)), e), mk(INTEG, 0, 0, 1, {p, C(0), C(2)})); } });
  }
}
static void handle(P const& p, bool all) {
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s); if (has_kind(p, SYMINT)) ++vr::nontrivial;
  expr e = build(p);
  for (unsigned long id : {0ul, 1ul, 2ul, 3ul}) for (size_t n = 0; n < IV.size(); ++n) {
    if (!all && n != id % IV.size() && n != 1) continue;
    IVal const& w = IV[n]; std::string key = s + " domain " + std::to_string(id) + " -> [" + num(w.lo) + "," + num(w.hi) + "] d x" + std::to_string(w.v); P want = repl(p, id, w.lo, w.hi, w.v);
    vm::symbolic_interval si(id); vm::interval in(w.lo, w.hi); variable x(w.v);
    expr r = vm::substitute(si, std::make_pair(in, x), e); cmp(key, r, want);
    if (w.v == 1) cmp(key + " (ct_variable)", vm::substitute(si, std::make_pair(in, vm::ct_variable<1>()), e), want);
    if (w.v == 0) cmp(key + " (ct_variable)", vm::substitute(si, std::make_pair(vm::interval(expr(w.lo), expr(w.hi)), vm::ct_variable<0>()), e), want);
    if (!eq(read(e), p)) vr::fail(key, "operand changed to " + str(read(e)));
    // second replacement on the result
    unsigned long id2 = (id + 1) % 3; IVal const& y = IV[(n + 1) % IV.size()]; expr r2 = vm::substitute(vm::symbolic_interval(id2), std::make_pair(vm::interval(y.lo, y.hi), variable(y.v)), r);
    cmp(key + " then domain " + std::to_string(id2), r2, repl(want, id2, y.lo, y.hi, y.v)); cmp(key + " then again", vm::substitute(si, std::make_pair(vm::interval(7.0, 9.0), variable(3)), r), want);
    { expr keep = r; r = expr(1.0); cmp(key + " copy", keep, want); }
    // in place
    expr z = e; z = vm::substitute(si, std::make_pair(in, x), z); cmp(key + " in place", z, want);
  }
  if (contains(p, [](P const& n) { return n->k == VEC || n->k == FS; })) return;
}
// end to end: substitute all domains, then integrate numerically
static void numeric(P const& p) {
  if (!vr::mine()) return; std::string s = "value of " + str(p); vr::cur(s); ++vr::states;
  std::function<E(P const&)> val = [&](P const& q) -> E { if (q->k == ADD) return val(q->ch[0]) + val(q->ch[1]); if (q->k == SUB) return val(q->ch[0]) - val(q->ch[1]); if (q->k == CONST) return E(q->c);
    IVal const& w = IV[q->id]; std::vector<double> x(8, 0.0); x[w.v] = (w.lo + w.hi) / 2; return (E(w.hi) - E(w.lo)) * at(q->ch[0], x); };
  expr e = build(p); for (unsigned long id = 0; id < 3; ++id) e = vm::substitute(vm::symbolic_interval(id), std::make_pair(vm::interval(IV[id].lo, IV[id].hi), variable(IV[id].v)), e);
  E w = val(p); ++vr::transitions; if (!w.ok) return; ++vr::nontrivial; double g; try { g = (*quad)(e); } catch (std::exception const& x) { vr::fail(s, std::string("raises ") + x.what()); return; } if (!agrees(g, w)) vr::fail(s, "is " + num(g) + " instead of " + num(w.v));
}
static P S(unsigned long id, P a) { return mk(SYMINT, 0, id, 0, {a}); }
int main(int argc, char** argv) {
  vr::init(argc, argv);
  { Alphabet al{{X(0), X(3), X(1000), C(2), C(0.5), F(0), F(1, 1)}, ALLFUN, ALLBIN}; Enum en(al, 2); en.upto(vr::thorough ? 2 : 1, [](P const& p) { if (!has_kind(p, SYMINT)) entry(p); }); } bool T = vr::thorough; vm::numerical_quadrature q(new vm::rt_gauss_quad_1<>()); quad = &q;
  std::vector<P> L{X(0), C(2), F(0), S(0, X(0)), S(1, B(MUL, X(0), X(1))), S(2, F(0)), S(0, S(0, X(1))), S(1, B(ADD, S(0, X(0)), C(1))), S(0, mk(INTEG, 0, 0, 1, {S(1, X(0)), C(0), C(1)})), mk(INTEG, 0, 0, 0, {S(0, X(1)), C(2), C(3)})};
  { Alphabet al{L, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(1, [&](P const& p) { handle(p, true); }); en.each_exact(2, [&](P const& p) { handle(p, T); }); }
  // integrals, operators and vectors around and inside: every nesting to depth 3
  std::vector<std::function<P(P const&)>> wrapk{[](P const& a) { return S(0, a); }, [](P const& a) { return S(1, a); }, [](P const& a) { return S(2, a); }, [](P const& a) { return mk(INTEG, 0, 0, 1, {a, C(0), C(1)}); }, [](P const& a) { return mk(VEC, 0, 0, 0, {a, X(0)}); }, [](P const& a) { return mk(VEC, 0, 0, 0, {X(1), C(0), a}); },
    [](P const& a) { return U(DIVG, a); }, [](P const& a) { return U(GRAD, a); }, [](P const& a) { return mk(PD, 0, 1, 0, {a}); }, [](P const& a) { return U(SIN, a); }, [](P const& a) { return B(MUL, a, C(3)); }, [](P const& a) { return B(SUB, X(2), a); }, [](P const& a) { return B(DIV, F(1), a); }, [](P const& a) { return B(ADD, a, S(1, a)); }};
  std::function<void(P const&, int)> nest = [&](P const& p, int d) { handle(p, d < 2); if (d >= (T ? 5 : 4)) return; for (auto& w : wrapk) if (p->k != VEC || w(p)->k != VEC) nest(w(p), d + 1); };
  for (P a : {X(0), F(0)}) nest(a, 0);
  { std::vector<P> A; for (unsigned long id = 0; id < 3; ++id) for (P f : {X(id), B(MUL, X(id), X(id)), U(EXP, X(id)), C(2), B(ADD, B(DIV, C(3), B(ADD, X(id), C(4))), X(id))}) A.push_back(S(id, f)); Alphabet al{A, {}, {ADD, SUB}}; Enum en(al, 1); en.upto(2, numeric); Alphabet a2{{A[0], A[6], A[12], A[3]}, {}, {ADD, SUB}}; Enum e2(a2, 2); e2.each_exact(3, numeric); if (T) e2.each_exact(4, numeric); }
  for (unsigned long i = 0; i < 60; ++i) for (unsigned long j = 0; j < 60; ++j) { if (!vr::mine()) continue; ++vr::states; P p = B(ADD, S(i, X(0)), S(59 - i, X(1))); vr::cur(str(p)); cmp("id " + std::to_string(j) + " in " + str(p), vm::substitute(vm::symbolic_interval(j), std::make_pair(vm::interval(0.0, 1.0), variable(j)), build(p)), repl(p, j, 0, 1, j)); }
  for (unsigned long i : wide_ids()) for (unsigned long i2 : wide_ids()) { if (!vr::mine()) continue; ++vr::states; P p = B(ADD, S(i, X(i2)), B(MUL, S(i2, S(i, X(1))), mk(VEC, 0, 0, 0, {S(i2, F(i)), X(i)}))); expr e = build(p); vr::cur(str(p));
    for (unsigned long j : wide_ids()) for (unsigned long v : {i, i2, j}) cmp("id " + std::to_string(j) + " in " + str(p), vm::substitute(vm::symbolic_interval(j), std::make_pair(vm::interval(0.0, 1.0), variable(v)), e), repl(p, j, 0, 1, v)); }
  for (P q : {P(mk(SYMINT, 0, 1, 0, {X(0)})), P(mk(SYMINT, 0, 0, 0, {mk(SYMINT, 0, 2, 0, {X(1)})}))}) pumped(q, X(1), {SIN, FABS}, {6, 17, 33}, 0, [](P const& p) { handle(p, false); });
  return vr::finish();
}
