// C33: nodes and operations defined by the user take part in every operation of the library.
#include "build.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
#include <sstream>
using namespace m; using namespace b;
typedef std::vector<If const*> L;
static long alive = 0;
struct Own : public If { Own() { ++alive; } Own(Own const&) : If() { ++alive; } ~Own() { --alive; } };
// structural model: custom leaves are variables >= 1000, custom composite nodes PD with id >= 7000
enum { Q0 = 1000, Q1 = 1001, Q0B = 1002, KC = 1003, Q0T = 1004, WRAP = 7000, TWIST = 7001, SHIFT = 7010, JOIN = 7020, MEET = 7021 };
static P W(P a) { return mk(PD, 0, WRAP, 0, {a}); }
static P T(P a) { return mk(PD, 0, TWIST, 0, {a}); }
static P S(int n, P a) { return mk(PD, 0, SHIFT + n, 0, {a}); }
static P J(P a, P c) { return mk(PD, 0, JOIN, 0, {a, c}); }
static P M(P a, P c) { return mk(PD, 0, MEET, 0, {a, c}); }
static P lower(P const& p) {
  if (p->k == VAR) { switch (p->id) { case Q0: return B(ADD, B(MUL, X(0), X(0)), X(1)); case Q1: return B(SUB, X(1), C(2)); case Q0B: return B(ADD, B(MUL, X(0), X(0)), C(3)); case Q0T: return B(ADD, B(MUL, X(0), X(0)), C(-1)); case KC: return C(2.5); default: return p; } }
  if (p->k == PD && p->id >= JOIN) { P a = lower(p->ch[0]), c = lower(p->ch[1]); return p->id == JOIN ? B(ADD, B(MUL, a, c), a) : B(SUB, B(MUL, a, c), B(MUL, C(2), c)); }
  if (p->k == PD && p->id >= WRAP) { P a = lower(p->ch[0]); if (p->id == WRAP) return B(ADD, B(MUL, a, a), C(1)); if (p->id == TWIST) return B(SUB, B(MUL, C(3), a), B(MUL, a, a)); return B(ADD, a, C((double)(p->id - SHIFT))); }
  if (p->ch.empty()) return p; std::vector<P> c; for (auto& q : p->ch) c.push_back(lower(q)); return mk(p->k, p->c, p->id, p->tag, c);
}
static long dvar(If const* v) { auto q = dynamic_cast<variable const*>(v); return q ? (long)q->id() : -1; }
template <class Nd> If* sub1(Nd const* n, If const* e, If const* r) { return n->deep_equal(e) ? r->clone() : NULL; }
template <class Nd> If* subl(Nd const* n, L const& e, L const& r) { for (size_t i = 0; i < e.size(); ++i) if (n->deep_equal(e[i])) return r[i]->clone(); return NULL; }
// leaf with every virtual function
struct LeafFull : public Own {
  int k; LeafFull(int kk) : k(kk) {}
  If* clone() const { return new LeafFull(k); } std::string deep_str() const { return k == 1 ? "Qb" : "Qa"; } std::string shallow_str() const { return "full"; }   // 0 and 2 have the same text
  double eval(std::vector<double> const& v) const { if (v.size() < 2) throw vm::variable_index_out_of_bounds_exception(1, v.size()); return v[0] * v[0] + (k == 1 ? 3.0 : k == 2 ? -1.0 : v[1]); }
  double eval(double v) const { return v * v + (k == 1 ? 3.0 : k == 2 ? -1.0 : throw vm::variable_index_out_of_bounds_exception(1, 1)); }
  bool is_unary() const { return true; } bool is_constant() const { return false; } double unwrap() const { throw vm::expression_not_unwrappable_exception("leaf"); }
  bool shallow_equal(If const* o) const { return dynamic_cast<LeafFull const*>(o) != NULL; }
  bool deep_equal(If const* o) const { auto q = dynamic_cast<LeafFull const*>(o); return q && q->k == k; }
  If* recursive_manipulation(vm::rt_manipulation_wrapper<If> const& f) const { return f.modifies(this) ? f(this) : clone(); }
  void recursive_traversal(vm::rt_traversal_wrapper<If> const& f) const { f(this); }
  If* substitute(If const* e, If const* r) const { If* x = sub1(this, e, r); return x ? x : clone(); }
  If* substitute(L const& e, L const& r) const { If* x = subl(this, e, r); return x ? x : clone(); }
  If* simplify() const { return clone(); } bool can_simplify() const { return false; }
  If* diff(If const* v) const { long i = dvar(v); if (i == 0) { expr d = 2.0 * variable(0); return d.get()->clone(); } return new constant(i == 1 && !k ? 1.0 : 0.0); }
};
static std::ostream& operator<<(std::ostream& o, LeafFull const& l) { return o << l.deep_str(); }
// leaf which only provides what is pure virtual
struct LeafMin : public Own {
  If* clone() const { return new LeafMin(); } std::string deep_str() const { return "Qm"; }
  double eval(std::vector<double> const& v) const { return v.at(1) - 2; } double eval(double) const { throw vm::variable_index_out_of_bounds_exception(1, 1); }
  double unwrap() const { throw vm::expression_not_unwrappable_exception("min"); }
  bool shallow_equal(If const* o) const { return dynamic_cast<LeafMin const*>(o) != NULL; } bool deep_equal(If const* o) const { return shallow_equal(o); }
  If* substitute(If const* e, If const* r) const { If* x = sub1(this, e, r); return x ? x : clone(); }
  If* substitute(L const& e, L const& r) const { If* x = subl(this, e, r); return x ? x : clone(); }
  If* diff(If const* v) const { return new constant(dvar(v) == 1 ? 1.0 : 0.0); }
};
// constant leaf
struct LeafConst : public Own {
  If* clone() const { return new LeafConst(); } std::string deep_str() const { return "Qk"; }
  double eval(std::vector<double> const&) const { return 2.5; } double eval(double) const { return 2.5; } bool is_constant() const { return true; } double unwrap() const { return 2.5; }
  bool shallow_equal(If const* o) const { return dynamic_cast<LeafConst const*>(o) != NULL; } bool deep_equal(If const* o) const { return shallow_equal(o); }
  If* recursive_manipulation(vm::rt_manipulation_wrapper<If> const& f) const { return f.modifies(this) ? f(this) : clone(); }
  If* substitute(If const* e, If const* r) const { If* x = sub1(this, e, r); return x ? x : clone(); }
  If* substitute(L const& e, L const& r) const { If* x = subl(this, e, r); return x ? x : clone(); }
  If* diff(If const*) const { return new constant(0.0); }
};
// composite node a -> a*a+1
struct Wrap : public Own {
  expr a; Wrap(expr const& x) : a(x) {}
  If* clone() const { return new Wrap(a); } std::string deep_str() const { return "W{" + a.get()->deep_str() + "}"; } std::string shallow_str() const { return "wrap"; }
  double eval(std::vector<double> const& v) const { double x = a.get()->eval(v); return x * x + 1; } double eval(double v) const { double x = a.get()->eval(v); return x * x + 1; }
  bool is_constant() const { return a.get()->is_constant(); } double unwrap() const { double x = a.get()->unwrap(); return x * x + 1; }
  bool shallow_equal(If const* o) const { return dynamic_cast<Wrap const*>(o) != NULL; }
  bool deep_equal(If const* o) const { auto q = dynamic_cast<Wrap const*>(o); return q && a.get()->deep_equal(q->a.get()); }
  If* recursive_manipulation(vm::rt_manipulation_wrapper<If> const& f) const { if (f.modifies(this)) return f(this); return new Wrap(expr(a.get()->recursive_manipulation(f))); }
  void recursive_traversal(vm::rt_traversal_wrapper<If> const& f) const { f(this); if (f.step_into(this)) a.get()->recursive_traversal(f); }
  If* substitute(If const* e, If const* r) const { If* x = sub1(this, e, r); return x ? x : new Wrap(expr(a.get()->substitute(e, r))); }
  If* substitute(L const& e, L const& r) const { If* x = subl(this, e, r); return x ? x : new Wrap(expr(a.get()->substitute(e, r))); }
  If* simplify() const { return new Wrap(expr(a.get()->simplify())); } bool can_simplify() const { return a.get()->can_simplify(); }
  If* diff(If const* v) const { expr d(a.get()->diff(v)); expr r = 2.0 * a * d; return r.get()->clone(); }
};
// user-defined operation of the library's unary expression: v -> 3v - v*v, and one with a state: v -> v + n
namespace user {
  struct op_twist { static std::string str() { return "twist"; } double apply(double v) const { return 3 * v - v * v; } bool can_simplify() const { return true; } };
  struct op_shift { int n; op_shift(int k = 0) : n(k) {} std::string str() const { return "shift"; } double apply(double v) const { return v + n; } bool can_simplify() const { return true; } };
  If* diff_impl(If const* e, op_twist, If const* v) { expr a(e->clone()), d(e->diff(v)); expr r = (3.0 - 2.0 * a) * d; return r.get()->clone(); }
  If* diff_impl(If const* e, op_shift, If const* v) { return e->diff(v); }
  // two operations of the library's binary expression which are printed alike: (a,b) -> ab + a and (a,b) -> ab - 2b
  struct op_join { static std::string str() { return "&"; } static double apply(double a, double c) { return a * c + a; } };
  struct op_meet { static std::string str() { return "&"; } static double apply(double a, double c) { return a * c - 2 * c; } };
  If* diff_impl(If const* l, op_join, If const* r, If const* v) { expr a(l->clone()), c(r->clone()), da(l->diff(v)), dc(r->diff(v)); expr x = da * c + a * dc + da; return x.get()->clone(); }
  If* diff_impl(If const* l, op_meet, If const* r, If const* v) { expr a(l->clone()), c(r->clone()), da(l->diff(v)), dc(r->diff(v)); expr x = da * c + a * dc - 2.0 * dc; return x.get()->clone(); }
  template <class O> If* tidy(If const* l, O, If const* r) { std::auto_ptr<If> a(l->simplify()), c(r->simplify()); vm::op_binary<O, If>* o = new vm::op_binary<O, If>(); If* a1 = a.release(); return new vm::binary_expr(a1, o, c.release()); }
  If* simplify_impl(If const* l, op_join o, If const* r) { return tidy(l, o, r); }
  If* simplify_impl(If const* l, op_meet o, If const* r) { return tidy(l, o, r); }
  bool can_simplify_impl(If const* l, op_join, If const* r) { return l->can_simplify() || r->can_simplify(); }
  bool can_simplify_impl(If const* l, op_meet, If const* r) { return l->can_simplify() || r->can_simplify(); }
  bool unary_op_equal(op_shift const& a, op_shift const& c) { return a.n == c.n; }
}
static P rd(If const* e) {
  if (auto q = dynamic_cast<LeafFull const*>(e)) return X(q->k == 1 ? Q0B : q->k == 2 ? Q0T : Q0);
  if (dynamic_cast<LeafMin const*>(e)) return X(Q1); if (dynamic_cast<LeafConst const*>(e)) return X(KC);
  if (auto q = dynamic_cast<Wrap const*>(e)) return W(read(q->a));
  if (auto q = dynamic_cast<vm::unary_expr const*>(e)) { if (dynamic_cast<vm::op_unary<user::op_twist, If> const*>(q->op())) return T(read(q->lhs()));
    if (auto o = dynamic_cast<vm::op_unary<user::op_shift, If> const*>(q->op())) return S(o->op().n, read(q->lhs())); }
  if (auto q = dynamic_cast<vm::binary_expr const*>(e)) { if (dynamic_cast<vm::op_binary<user::op_join, If> const*>(q->op())) return J(read(q->lhs()), read(q->rhs()));
    if (dynamic_cast<vm::op_binary<user::op_meet, If> const*>(q->op())) return M(read(q->lhs()), read(q->rhs())); }
  return P();
}
static expr mkx(If const* n) { return expr(n); }
static expr bld(P const& p) {
  if (p->k == VAR && p->id >= 1000) switch (p->id) { case Q0: return mkx(new LeafFull(0)); case Q0B: return mkx(new LeafFull(1)); case Q0T: return mkx(new LeafFull(2)); case Q1: return mkx(new LeafMin()); default: return mkx(new LeafConst()); }
  if (p->k == PD && p->id >= JOIN) { expr a = bld(p->ch[0]), c = bld(p->ch[1]); vm::op_interface<If>* o; if (p->id == JOIN) o = new vm::op_binary<user::op_join, If>(); else o = new vm::op_binary<user::op_meet, If>(); return mkx(new vm::binary_expr(a.get()->clone(), o, c.get()->clone())); }
  if (p->k == PD && p->id >= WRAP) { expr a = bld(p->ch[0]); if (p->id == WRAP) return mkx(new Wrap(a));
    if (p->id == TWIST) return mkx(new vm::unary_expr(a.get()->clone(), new vm::op_unary<user::op_twist, If>())); return mkx(new vm::unary_expr(a.get()->clone(), new vm::op_unary<user::op_shift, If>(user::op_shift(p->id - SHIFT)))); }
  if (is_bin(p->k)) { expr l = bld(p->ch[0]), r = bld(p->ch[1]); return bop(p->k, l, r); }
  if (is_fun(p->k)) { expr a = bld(p->ch[0]); return expr(ufun(p->k, a)); }
  if (p->k == VEC) { vm::vector_expr v(p->ch.size()); for (size_t i = 0; i < p->ch.size(); ++i) v[i] = bld(p->ch[i]); return expr(v); }
  if (p->k == SYMINT) return vm::integral(vm::symbolic_interval(p->id), bld(p->ch[0]));
  if (p->k == INTEG) return vm::integral(vm::interval(bld(p->ch[1]), bld(p->ch[2])), bld(p->ch[0]), variable(p->tag));
  return build(p);
}
static int count(P const& p, std::function<bool(P const&)> const& f) { int n = f(p) ? 1 : 0; for (auto& q : p->ch) n += count(q, f); return n; }
static int nnodes(P const& p) { if (p->k == INTEG) return 1 + nnodes(p->ch[0]); int n = 1; for (auto& q : p->ch) n += nnodes(q); return n; }
struct Rep : public vm::rt_manipulation_interface<> { P what, by; int* called; Rep(P a, P c, int* n) : what(a), by(c), called(n) {}
  If* operator()(If const* e) const { ++*called; if (eq(read(e), what)) return bld(by).get()->clone(); return e->clone(); } bool modifies(If const* e) const { return eq(read(e), what); } };
struct Cnt : public vm::rt_traversal_interface<> { int *n, *own; Cnt(int* a, int* c) : n(a), own(c) {} void operator()(If const* e) const { ++*n; if (dynamic_cast<Own const*>(e)) ++*own; } };
static void val(std::string const& key, expr const& e, P const& low, size_t npts) {
  for (size_t i = 0; i < npts; ++i) { E r = at(low, PTS[i]); ++vr::transitions; ++vr::validated; if (!informative(r)) continue; ++vr::nontrivial; double g = e(PTS[i]); if (!agrees(g, r)) { vr::fail(key, "gives " + num(g) + " instead of " + num(r.v)); return; } }
}
// NaN constants (0/0 folded) count as equal
static bool eqn(P const& a, P const& c) {
  if (!a || !c) return !a && !c; if (a->k == CONST && c->k == CONST && std::isnan(a->c) && std::isnan(c->c)) return true;
  if (a->ch.empty() && c->ch.empty()) return eq(a, c); if (a->k != c->k || a->id != c->id || a->tag != c->tag || a->ch.size() != c->ch.size()) return false;
  for (size_t i = 0; i < a->ch.size(); ++i) if (!eqn(a->ch[i], c->ch[i])) return false; return true;
}
static void same(std::string const& key, expr const& e, P const& want) { ++vr::transitions; ++vr::validated; P g = read(e); if (!eqn(g, want)) vr::fail(key, "is " + (g ? str(g) : std::string("empty")) + " instead of " + str(want)); }
static void sub(std::string const& key, expr const& e, P const& want) { same(key, vm::simplify(e), read(vm::simplify(bld(want)))); }   // the functions may tidy up their result
static const std::vector<P> pats{X(Q0), X(Q0T), X(Q1), X(Q0B), X(KC), X(0), W(X(0)), W(X(Q0)), T(X(0)), T(X(Q1)), S(1, X(0)), S(2, X(0)), B(ADD, X(Q0), X(0)), U(SIN, X(Q0)), J(X(0), X(1)), M(X(0), X(1))};
static const std::vector<P> reps{C(4), X(Q1), B(MUL, X(Q0), C(2)), W(X(1)), T(X(Q0B))};
static void handle(P const& p, bool deep) {
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s); long before = alive;
  try {
    P low = lower(p); expr e = bld(p); same("built:" + s, e, p); std::string txt = e.get()->deep_str();
    val("value:" + s, e, low, 3);
    { std::vector<double> x = PTS[0]; E r = at(low, x); double g = vm::eval(e, x), h = e(vm::make_vector(x[0], x[1], x[2])); ++vr::transitions; if (informative(r) && (!agrees(g, r) || !agrees(h, r))) vr::fail("eval:" + s, "other entry points give " + num(g) + " and " + num(h) + " instead of " + num(r.v)); }
    if (!has_kind(p, FABS)) for (unsigned i : {0u, 1u}) { expr d = vm::diff(e, variable(i)); for (size_t k = 0; k < 3; ++k) { E r = d1(low, PTS[k], i); ++vr::transitions; ++vr::validated; if (informative(r)) { double g = d(PTS[k]); if (!agrees(g, r)) vr::fail("derivative:" + s, "by x" + std::to_string(i) + " is " + num(g) + " instead of " + num(r.v)); } } }
    { expr t = vm::simplify(e); val("simplified:" + s, t, low, 3); expr t2 = vm::simplify(t); if (!eqn(read(t), read(t2))) vr::fail("simplified twice:" + s, "differs"); expr t3 = e; vm::inplace_simplify(t3); if (!eqn(read(t), read(t3))) vr::fail("simplified in place:" + s, "differs");
      bool cst = !contains(p, [](P const& n) { return n->k == VAR && n->id != KC; }); if (cst) { E r = at(low, PTS[0]); ++vr::transitions; if (informative(r)) { double g = e.get()->unwrap(); if (!agrees(g, r)) vr::fail("unwrap:" + s, "gives " + num(g)); double h = t.get()->unwrap(); if (!agrees(h, r)) vr::fail("unwrap simplified:" + s, "gives " + num(h)); } }
      else if (e.get()->is_constant()) vr::fail("constant:" + s, "claims to be constant"); }
    for (size_t i = 0; i < pats.size(); ++i) { if (!deep && i % 3 != 0) continue; for (size_t j = 0; j < reps.size(); ++j) { if (!deep && j != i % 5) continue;
      expr a = bld(pats[i]), r = bld(reps[j]); P w1 = subst(p, {pats[i]}, {reps[j]}); same("substitute " + str(pats[i]) + " by " + str(reps[j]) + ":" + s, expr(e.get()->substitute(a.get(), r.get())), w1); sub("substitute() " + str(pats[i]) + " by " + str(reps[j]) + ":" + s, vm::substitute(a, r, e), w1);
      size_t i2 = (i + 4) % pats.size(), j2 = (j + 2) % reps.size(); std::vector<expr> as{a, bld(pats[i2])}, rs{r, bld(reps[j2])};
      P w2 = subst(p, {pats[i], pats[i2]}, {reps[j], reps[j2]}); L la{as[0].get(), as[1].get()}, lr{rs[0].get(), rs[1].get()}; same("substitute two:" + s, expr(e.get()->substitute(la, lr)), w2); sub("substitute two():" + s, vm::substitute(as, rs, e), w2); } }
    { int n = 0, own = 0; vm::rt_traversal_wrapper<> w(new Cnt(&n, &own)); e.get()->recursive_traversal(w); int wo = count(p, [](P const& q) { return (q->k == VAR && q->id >= 1000) || (q->k == PD && q->id == WRAP); }); ++vr::transitions; ++vr::validated; if (n != nnodes(p) || own != wo) vr::fail("traversal:" + s, "visits " + std::to_string(n) + " nodes, " + std::to_string(own) + " of the user, instead of " + std::to_string(nnodes(p)) + ", " + std::to_string(wo)); }
    for (P q : {P(X(Q0)), P(X(Q1)), P(X(KC)), P(W(X(0))), P(T(X(0)))}) { int c = 0; vm::rt_manipulation_wrapper<> w(new Rep(q, B(ADD, X(5), C(7)), &c)); expr r(e.get()->recursive_manipulation(w)); same("manipulate " + str(q) + ":" + s, r, subst(p, {q}, {B(ADD, X(5), C(7))})); }
    { std::ostringstream o; o << e; if (o.str().find(txt) == std::string::npos) vr::fail("text:" + s, "printed as " + o.str()); for (auto& u : {std::make_pair(X(Q0), "Qa"), std::make_pair(X(Q1), "Qm"), std::make_pair(X(Q0B), "Qb"), std::make_pair(X(KC), "Qk")}) if (contains(p, [&](P const& n) { return eq(n, u.first) || (eq(n, X(Q0T)) && u.first->id == Q0); }) != (txt.find(u.second) != std::string::npos)) vr::fail("text:" + s, "deep_str() is " + txt); }
    { expr c1 = e, c2; c2 = e; expr c3 = bld(X(3)); c3 = c1; c1 = bld(X(4)); same("copy:" + s, c2, p); same("assigned copy:" + s, c3, p); if (!deq(c2, e) || !deq(e, c2)) vr::fail("equal:" + s, "a copy is not equal"); expr o = bld(p); if (!deq(o, e)) vr::fail("equal:" + s, "not equal to one built anew"); }
    { expr r = vm::apply_coordinate_system(vm::cartesian<2>(), e); if (max_var(p) < 1000 || true) val("coordinate system:" + s, r, low, 1); }
    same("operand:" + s, e, p); if (e.get()->deep_str() != txt) vr::fail("operand:" + s, "text changed");
  } catch (std::exception const& x) { vr::fail("raises:" + s, x.what()); }
  if (alive != before) { vr::fail("released:" + s, std::to_string(alive - before) + " nodes of the user are not released"); alive = before; }
}
struct Proc : public vm::rt_latex_processor_interface<If> {
  std::string q; Proc(std::string s = "q_a") : q(s) {}
  vm::rt_latex_processor_interface<If>* clone() const { return new Proc(q); }
  std::string process(If const* e, bool, vm::rt_latex_translator<If> const& t) const { if (dynamic_cast<LeafFull const*>(e)) return q; if (dynamic_cast<LeafMin const*>(e)) return "q_m"; if (dynamic_cast<LeafConst const*>(e)) return "q_k"; if (auto w = dynamic_cast<Wrap const*>(e)) return "w{" + t(w->a) + "}"; return ""; }
  bool customize(If const* e, std::string const& s) { if (dynamic_cast<LeafFull const*>(e)) { q = s; return true; } return false; }
};
static void latex(P const& p) {
  if (contains(p, [](P const& n) { return n->k == PD && n->id > WRAP; })) return;   // the translator rejects operations it does not know
  if (!vr::mine()) return; std::string s = str(p); vr::cur("latex " + s); ++vr::states; long before = alive;
  { expr e = bld(p); vm::latex_translator t; t.add_processor(new Proc()); std::string r = t(e); vm::latex_translator t2(t), t3; t3 = t; LeafFull lf(0); t.customize(lf, "custom");
    std::string c = t(e), r2 = t2(e), r3 = t3(e); ++vr::transitions; ++vr::validated;
    // the text of the built-in formula with the user's symbols put in
    std::vector<P> from{X(Q0), X(Q0B), X(Q1), X(KC), X(Q0T)}; std::vector<std::string> nm{"q_a", "q_a", "q_m", "q_k", "q_a"}, nm2{"custom", "custom", "q_m", "q_k", "custom"};
    std::function<std::string(P const&, std::vector<std::string> const&)> ref = [&](P const& q, std::vector<std::string> const& nn) { std::vector<P> to; for (int i = 0; i < 5; ++i) to.push_back(X(400 + i)); vm::latex_translator u; for (int i = 0; i < 5; ++i) { variable v(400 + i); u.customize(v, nn[i]); } return u(build(subst(q, from, to))); };
    if (!has_kind(p, PD)) { if (r != ref(p, nm)) vr::fail("latex:" + s, "is " + r + " instead of " + ref(p, nm)); if (c != ref(p, nm2)) vr::fail("latex customised:" + s, "is " + c + " instead of " + ref(p, nm2)); }
    if (r2 != r || r3 != r) vr::fail("latex copies:" + s, "of the translator give " + r2 + " and " + r3 + " instead of " + r);
    for (auto& u : {std::make_pair(X(Q0), "q_a"), std::make_pair(X(Q1), "q_m"), std::make_pair(X(KC), "q_k")}) if (contains(p, [&](P const& n) { return eq(n, u.first); }) && r.find(u.second) == std::string::npos) vr::fail("latex:" + s, "is " + r + " without " + u.second); }
  if (alive != before) { vr::fail("released:latex " + s, "nodes of the user are not released"); alive = before; }
}
static void inner(P const& p) {   // inside vectors and integrals
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; long before = alive;
  try { expr e = bld(p); same("built:" + s, e, p);
    for (size_t i = 0; i < pats.size(); ++i) for (size_t j = 0; j < reps.size(); ++j) { expr r = vm::substitute(bld(pats[i]), bld(reps[j]), e); 
      P w = p; if (p->k == INTEG) w = mk(INTEG, 0, 0, p->tag, {subst(p->ch[0], {pats[i]}, {reps[j]}), p->ch[1], p->ch[2]}); else w = subst(p, {pats[i]}, {reps[j]}); sub("substitute " + str(pats[i]) + " by " + str(reps[j]) + ":" + s, r, w); }
    int n = 0, own = 0; vm::rt_traversal_wrapper<> w(new Cnt(&n, &own)); e.get()->recursive_traversal(w); if (n != nnodes(p)) vr::fail("traversal:" + s, "visits " + std::to_string(n) + " nodes instead of " + std::to_string(nnodes(p)));
    expr c = e; if (!deq(c, e)) vr::fail("equal:" + s, "a copy is not equal"); same("simplified:" + s, vm::simplify(c), read(vm::simplify(e)));
    if (p->k == SYMINT) { expr r = vm::substitute(vm::symbolic_interval(p->id), std::make_pair(vm::interval(0.0, 1.0), variable(0)), e); same("domain:" + s, r, mk(INTEG, 0, 0, 0, {p->ch[0], C(0), C(1)})); }
  } catch (std::exception const& x) { vr::fail("raises:" + s, x.what()); }
  if (alive != before) { vr::fail("released:" + s, std::to_string(alive - before) + " nodes of the user are not released"); alive = before; }
}
// handles and user-defined kinds mix in equality
static void pairs(std::vector<P> const& fam) { std::vector<expr> es; for (auto& p : fam) es.push_back(bld(p)); for (size_t i = 0; i < fam.size(); ++i) { if (!vr::mine()) continue; vr::cur(str(fam[i])); ++vr::states; for (size_t j = 0; j < fam.size(); ++j) { ++vr::transitions; ++vr::validated; if (deq(es[i], es[j]) != eq(fam[i], fam[j])) vr::fail("equal:" + str(fam[i]) + " and " + str(fam[j]), deq(es[i], es[j]) ? "compare equal" : "compare different"); } } }
int main(int argc, char** argv) {
  vr::init(argc, argv); extra_read = rd; bool TH = vr::thorough;
  std::vector<P> cl{X(Q0), X(Q0T), X(Q1), X(KC), X(Q0B), W(X(0)), W(X(Q0)), W(X(Q0T)), W(C(2)), W(X(KC)), T(X(Q1)), T(C(2)), T(X(0)), S(1, X(0)), S(2, X(0)), S(1, C(3)), S(2, X(Q0)), W(B(ADD, X(0), C(0))), T(B(MUL, X(Q0), C(1))), W(T(X(Q0))), T(W(X(1))), J(X(0), X(1)), M(X(0), X(1)), J(X(Q0), C(2)), M(X(KC), C(3)), J(C(2), X(1)), M(W(X(0)), J(X(1), X(0)))};
  std::vector<P> fam;
  { std::vector<P> lv = cl; for (P q : {X(0), X(1), C(2), C(0), C(1)}) lv.push_back(q); Alphabet al{lv, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(1, [&](P const& p) { fam.push_back(p); handle(p, true); latex(p); }); }
  { Alphabet al{{X(Q0), X(Q1), X(KC), W(X(0)), T(X(Q0)), J(X(0), X(Q0)), X(0), C(0), C(1)}, {EXP, SIN, LOG}, ALLBIN}; Enum en(al, 1); en.each_exact(2, [&](P const& p) { if (contains(p, [](P const& n) { return (n->k == VAR && n->id >= 1000) || n->k == PD; })) { handle(p, TH); latex(p); } }); }
  { Alphabet al{{X(Q0), X(KC), C(1)}, {}, {ADD, MUL, DIV}}; Enum en(al, 2); en.each_exact(3, [&](P const& p) { handle(p, false); }); if (TH) en.each_exact(4, [&](P const& p) { handle(p, false); }); }
  // chains of wrappers around every leaf
  { std::vector<P> cur = cl; for (int d = 0; d < (TH ? 4 : 3); ++d) { std::vector<P> nx; for (auto& p : cur) { if (d && nx.size() > 4000) break; nx.push_back(W(p)); nx.push_back(T(p)); nx.push_back(S(3, p)); nx.push_back(J(p, X(1))); nx.push_back(M(X(0), p)); nx.push_back(M(p, B(ADD, X(0), C(0)))); nx.push_back(B(SUB, X(Q0), p)); nx.push_back(B(DIV, p, X(Q1))); nx.push_back(U(SIN, p)); } for (auto& p : nx) handle(p, d == 0); cur = nx; } }
  for (P q : cl) for (P r : cl) { inner(mk(VEC, 0, 0, 0, {q, r})); inner(mk(SYMINT, 0, 1, 0, {B(MUL, q, r)})); inner(mk(SYMINT, 0, 2, 0, {W(B(SUB, q, r))})); inner(mk(INTEG, 0, 0, 0, {B(ADD, q, r), C(0), C(1)})); inner(mk(VEC, 0, 0, 0, {W(mk(SYMINT, 0, 1, 0, {q})), r})); inner(U(SIN, mk(SYMINT, 0, 1, 0, {B(DIV, q, r)}))); }
  for (P q : cl) fam.push_back(mk(SYMINT, 0, 1, 0, {q})), fam.push_back(mk(VEC, 0, 0, 0, {q}));
  if (fam.size() > 3000) fam.resize(3000);
  pairs(fam);
  return vr::finish();
}
