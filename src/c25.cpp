// C25: Cartesian coordinate systems expand gradients and divergences.
#include "build.hpp"
#include "opaque.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
using namespace m; using namespace b;
static P pd(P a, int i) { return mk(PD, 0, i, 0, {a}); }
static P ex(P const& p, int dim) {
  if (p->ch.empty()) return p;
  std::vector<P> ch; for (size_t i = 0; i < p->ch.size(); ++i) ch.push_back(p->k == INTEG && i > 0 ? p->ch[i] : ex(p->ch[i], dim));
  if (p->k == GRAD && ch[0]->k == FS) { if (dim == 1) return pd(ch[0], 0); std::vector<P> v; for (int i = 0; i < dim; ++i) v.push_back(pd(ch[0], i)); return mk(VEC, 0, 0, 0, v); }
  if (p->k == DIVG) { P q = ch[0]; bool vec = q->k == VEC && (int)q->ch.size() == dim; if (vec || q->k == FS || (dim == 1 && q->k != VEC)) { P s = pd(vec ? q->ch[0] : q, 0); for (int i = 1; i < dim; ++i) s = B(ADD, s, pd(vec ? q->ch[i] : q, i)); return s; } }
  return mk(p->k, p->c, p->id, p->tag, ch);
}
// VEC*VEC of different lengths is a precondition violation of the dot product; scalar non-symbol operands of div / grad are not in the contract
static bool legal(P const& p, int dim) {
  for (size_t i = 0; i < p->ch.size(); ++i) if (!legal(p->ch[i], dim)) return false;
  if (p->k == GRAD && p->ch[0]->k != FS) return false;
  if (p->k == DIVG) { P q = p->ch[0]; P r = ex(q, dim); if (!(q->k == FS || q->k == VEC || q->k == GRAD)) return false; if (r->k == VEC && (int)r->ch.size() != dim) return false; }
  if (is_bin(p->k)) { P l = ex(p->ch[0], dim), r = ex(p->ch[1], dim); if (l->k == VEC && r->k == VEC && l->ch.size() != r->ch.size()) return false; }
  return true;
}
template <int D> expr apply(expr const& e) { return vm::apply_coordinate_system(vm::cartesian<D>(), e); }
static expr app(int d, expr const& e) { return d == 1 ? apply<1>(e) : d == 2 ? apply<2>(e) : apply<3>(e); }
template <class T> auto appt(int d, T const& e) { return d == 1 ? vm::apply_coordinate_system(vm::cartesian<1>(), e) : d == 2 ? vm::apply_coordinate_system(vm::cartesian<2>(), e) : vm::apply_coordinate_system(vm::cartesian<3>(), e); }
static void cmp(std::string const& key, P const& g, P const& want) { ++vr::transitions; ++vr::validated; if (!g || !equiv(g, want)) vr::fail(key, "gives " + (g ? str(g) : "nothing") + " instead of " + str(want)); }
template <class Fn> static P tryread(std::string const& key, Fn fn) { try { return read(fn()); } catch (std::exception const& x) { vr::fail(key, std::string("raises ") + x.what()); return P(); } }
static void handle(P const& p) {
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s); if (has_kind(p, GRAD) || has_kind(p, DIVG)) ++vr::nontrivial;
  expr e = build(p);
  for (int d = 1; d <= 3; ++d) {
    if (!legal(p, d)) continue; P w = ex(p, d); std::string key = s + " in " + std::to_string(d) + "D";
    auto c = [&](std::string const& k2, P const& g) { if (g) cmp(k2, g, w); };
    P g = tryread(key, [&] { return app(d, e); }); c(key, g);
    if (!g) continue;
    if (has_kind(g, GRAD)) vr::fail(key, "still contains a gradient: " + str(g));
    if (!eq(read(e), p)) vr::fail(key, "operand changed to " + str(read(e)));
    if (auto q = dynamic_cast<vm::binary_expr const*>(e.get())) c(key + " binary", tryread(key, [&] { return appt(d, *q); }));
    if (auto q = dynamic_cast<vm::unary_expr const*>(e.get())) c(key + " unary", tryread(key, [&] { return appt(d, *q); }));
    c(key + " twice", tryread(key, [&] { return app(d, app(d, e)); }));
    { static const P other = B(MUL, U(DIVG, F(5, 1)), C(2)); try { vm::equation q(e, build(other)), h = appt(d, q), q2(build(other), e), h2 = appt(d, q2); P wo = ex(other, d);
        cmp(key + " lhs of equation", read(h.lhs()), w); cmp(key + " rhs of its equation", read(h.rhs()), wo); cmp(key + " rhs of equation", read(h2.rhs()), w); cmp(key + " lhs of its equation", read(h2.lhs()), wo); if (!eq(read(q.lhs()), p)) vr::fail(key, "equation changed"); } catch (std::exception const& x) { vr::fail(key + " equation", x.what()); } }
  }
}
static P V(std::vector<P> c) { return mk(VEC, 0, 0, 0, c); }
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  std::vector<P> sym; for (unsigned long id : {0ul, 1ul, 7ul}) for (unsigned long t : {0ul, 1ul, 5ul}) sym.push_back(F(id, t));
  // the operators can be written with every kind of operand
  for (unsigned long id : wide_ids()) for (unsigned long t : {0ul, 1ul, 5ul}) { if (!vr::mine()) continue; ++vr::states; function_symbol f(id, t), g(1); P F_ = F(id, t), G = U(GRAD, F_); std::string k = "operators on " + str(F_) + ": "; vr::cur(k);
    auto is = [&](char const* n, expr const& e, P const& w) { ++vr::transitions; ++vr::validated; P r = read(e); if (!r || !eq(r, w)) vr::fail(k + n, "is " + (r ? str(r) : "nothing") + " instead of " + str(w)); };
    is("grad", expr(vm::grad(f)), G); is("grad of a unary expression", expr(vm::grad(vm::div(f))), U(GRAD, U(DIVG, F_))); is("div", expr(vm::div(f)), U(DIVG, F_)); is("div of a gradient", expr(vm::div(vm::grad(f))), U(DIVG, G)); is("div of a handle", expr(vm::div(expr(vm::grad(f)))), U(DIVG, G));
    is("div of a product", expr(vm::div(g * vm::grad(f))), U(DIVG, B(MUL, F(1), G))); is("laplace", expr(vm::laplace(f)), U(DIVG, G));
    is("diff", expr(vm::diff(f, variable(2))), pd(F_, 2)); is("diff by ct_variable", expr(vm::diff(f, vm::ct_variable<1>())), pd(F_, 1)); is("diff by ct_variable<7>", expr(vm::diff(f, vm::ct_variable<7>())), pd(F_, 7)); }
  // operators on every symbol and on vectors of length 1..3 of every content
  std::vector<P> base; for (P f : sym) { base.push_back(U(GRAD, f)); base.push_back(U(DIVG, f)); base.push_back(U(DIVG, U(GRAD, f))); }
  std::vector<P> comp{F(0), F(1, 1), X(0), C(2), U(DIVG, F(0)), B(MUL, F(0), X(1)), U(SIN, F(2)), mk(PD, 0, 1, 0, {F(0)}), U(DIVG, U(GRAD, F(0, 1))), mk(SYMINT, 0, 0, 0, {F(0)})};
  for (auto& a : comp) { base.push_back(U(DIVG, V({a}))); for (auto& c : comp) { base.push_back(U(DIVG, V({a, c}))); for (auto& d : comp) base.push_back(U(DIVG, V({a, c, d}))); } }
  for (auto& p : base) { handle(p); if (p->ops < 6) for (P q : {U(FABS, p), B(ADD, X(0), p), B(MUL, p, F(0)), mk(SYMINT, 0, 1, 0, {B(MUL, p, F(0, 1))}), mk(INTEG, 0, 0, 0, {p, C(0), C(1)}), V({X(0), p}), U(DIVG, V({p, p})), U(DIVG, V({p})), U(DIVG, V({X(0), F(1), p}))}) handle(q); }
  // all formulas over them
  std::vector<P> L{U(GRAD, F(0)), U(DIVG, U(GRAD, F(0))), U(DIVG, F(1)), F(0), X(1), C(2), U(DIVG, V({F(0), F(1)})), U(GRAD, F(0, 1)), C(0), C(1)};
  { Alphabet al{L, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(2, handle); }
  { Alphabet al{{U(GRAD, F(0)), U(GRAD, F(0, 1)), F(0), U(DIVG, U(GRAD, F(1))), C(-1)}, T ? std::vector<Kind>{SIN, EXP} : std::vector<Kind>{}, T ? ALLBIN : std::vector<Kind>{ADD, MUL, SUB}}; Enum en(al, 2); en.each_exact(3, handle); }
  // weak forms: symbolic integrals of products, sums of integrals
  std::vector<P> I; for (P f : {B(MUL, U(GRAD, F(0)), U(GRAD, F(0, 1))), B(MUL, F(0), F(0, 1)), B(MUL, U(DIVG, F(0)), F(0, 1)), B(MUL, B(MUL, X(0), U(GRAD, F(0))), U(GRAD, F(0, 1))), U(DIVG, U(GRAD, F(0)))}) for (unsigned long id : {0ul, 1ul}) I.push_back(mk(SYMINT, 0, id, 0, {f}));
  { Alphabet al{I, {}, {ADD, SUB, MUL, DIV}}; Enum en(al, 1); en.upto(2, handle); }
  for (unsigned long id = 0; id < 40; ++id) for (unsigned long t = 0; t < 12; ++t) { handle(U(GRAD, F(id, t))); handle(U(DIVG, F(id, t))); handle(B(MUL, U(GRAD, F(id, t)), U(GRAD, F(t, id)))); }
  vr::counters["undecided"] = undecided(); 
  for (unsigned long i : wide_ids()) for (unsigned long j : wide_ids()) for (int t = 0; t < 2; ++t) { handle(B(MUL, U(GRAD, F(i, t)), U(GRAD, F(j)))); handle(B(ADD, U(DIVG, U(GRAD, F(i))), U(DIVG, U(GRAD, F(j, t))))); handle(U(DIVG, V({F(i), F(j, t)}))); }
  for (P q : {P(U(DIVG, U(GRAD, F(0)))), P(B(MUL, U(GRAD, F(0)), U(GRAD, F(0, 1)))), P(U(GRAD, F(2)))}) pumped(q, F(1), {SIN}, {6, T ? 33 : 17}, 0, [](P const& p) { if (p->ops < 120) handle(p); });
  return vr::finish();
}
