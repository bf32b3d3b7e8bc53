// C10: no operation changes an operand; in-place forms leave what the returning forms return; repeating gives the same.
#include "build.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
#include <sstream>
using namespace m; using namespace b;
struct Snap { If const* e; P p; std::string t; double v0, v1; };
static std::vector<double> pa{0.7, 1.3, -2.1}, pb{-0.4, 2.2, 5.5};
static double val(If const* e, std::vector<double> const& x) { try { return e->eval(x); } catch (std::exception const&) { return std::nan(""); } }
static Snap snap(If const* e, P p) { return Snap{e, p, e->deep_str(), val(e, pa), val(e, pb)}; }
struct Ops { std::vector<Snap> s; std::string key; std::string label;
  bool fast(std::string const& op) { for (size_t i = 0; i < s.size(); ++i) { ++vr::validated; if (!eq(read(s[i].e), s[i].p)) return vr::fail(op + " " + key, "operand " + std::to_string(i) + " " + s[i].t + " became " + s[i].e->deep_str()); } return true; }
  void full(std::string const& op) { if (!fast(op)) return; for (auto& q : s) { if (q.e->deep_str() != q.t) vr::fail(op + " " + key, "text of an operand changed from " + q.t + " to " + q.e->deep_str()); double a = val(q.e, pa), c = val(q.e, pb); if (!same_ieee(a, q.v0) || !same_ieee(c, q.v1)) vr::fail(op + " " + key, "value of operand " + q.t + " changed"); } } };
static vm::latex_translator* tr; static vm::numerical_quadrature* qd;
struct Manip : public vm::rt_manipulation_interface<> { If* operator()(If const*) const { return new constant(9.0); } bool modifies(If const* e) const { return dynamic_cast<variable const*>(e) != NULL; } };
// run an operation twice; expression results must be structurally equal, numbers the same, exceptions alike
static std::string show(double d) { return num(d); }
static std::string show(std::string const& s) { return s; }
static std::string show(bool b2) { return b2 ? "1" : "0"; }
static std::string show(expr const& e) { return e.get() ? str(read(e)) : "(empty)"; }
template <class Fn> std::string twice(Ops& o, const char* op, Fn fn) {
  ++vr::transitions; std::string r[2];
  for (int k = 0; k < 2; ++k) { try { r[k] = show(fn()); } catch (std::exception const& ex) { r[k] = std::string("raise ") + ex.what(); } if (!o.fast(op)) return r[0]; }
  if (r[0] != r[1]) vr::fail(std::string(op) + " " + o.key, "first gives " + r[0] + ", repeated gives " + r[1]);
  return r[0];
}
static void handle(P const& p, P const& q, bool quad = false) {
  if (!vr::mine()) return; std::string s = str(p) + " , " + str(q); vr::cur(s); ++vr::states; ++vr::nontrivial; vr::sample(s);
  expr e = build(p), f = build(q); variable v0(0), v1(1); function_symbol u0(0), t0(0, vm::id_type(1)); expr two(2.0), hv(v1);
  Ops o; o.key = s; for (auto x : std::vector<std::pair<If const*, P>>{{e.get(), p}, {f.get(), q}, {&v0, X(0)}, {&v1, X(1)}, {&u0, F(0)}, {&t0, F(0, 1)}, {two.get(), C(2)}, {hv.get(), X(1)}}) o.s.push_back(snap(x.first, x.second));
  twice(o, "eval(vector)", [&] { return e(pa); }); twice(o, "eval(number)", [&] { return e(1.25); }); twice(o, "eval()", [&] { return vm::eval(e, pb); });
  twice(o, "unwrap", [&] { return e.get()->unwrap(); }); twice(o, "is_constant", [&] { return e.get()->is_constant(); }); twice(o, "can_simplify", [&] { return e.get()->can_simplify(); });
  twice(o, "diff", [&] { return vm::diff(e, v0); }); twice(o, "diff by symbol", [&] { return vm::diff(e, u0); }); twice(o, "node diff", [&] { return expr(e.get()->diff(&v1)); });
  std::string sim = twice(o, "simplify", [&] { return vm::simplify(e); }); twice(o, "node simplify", [&] { return expr(e.get()->simplify()); });
  std::string si2 = twice(o, "inplace_simplify of a copy", [&] { expr c = e; vm::inplace_simplify(c); return c; });
  if (sim != si2) vr::fail("inplace_simplify " + s, "leaves " + si2 + " where simplify returns " + sim);
  twice(o, "substitute variable", [&] { return vm::substitute(v0, f, e); }); twice(o, "substitute symbol", [&] { return vm::substitute(u0, f, e); }); twice(o, "substitute handle", [&] { return vm::substitute(f, two, e); });
  twice(o, "substitute by itself", [&] { return vm::substitute(v0, e, e); }); twice(o, "substitute list", [&] { std::vector<expr> a{hv, f}, r{e, two}; expr x = vm::substitute(a, r, e); if (!deq(a[0], hv) || !deq(a[1], f) || !deq(r[0], e) || !deq(r[1], two)) vr::fail("substitute list " + s, "changed a list entry"); return x; });
  twice(o, "node substitute", [&] { return expr(e.get()->substitute(f.get(), hv.get())); });
  twice(o, "deep_equal", [&] { return e.get()->deep_equal(f.get()); }); twice(o, "shallow_equal", [&] { return e.get()->shallow_equal(f.get()); }); twice(o, "self equal", [&] { return e.get()->deep_equal(e.get()); });
  twice(o, "print", [&] { std::ostringstream t; t << e << f; return t.str(); }); twice(o, "deep_str", [&] { return e.get()->deep_str() + e.get()->shallow_str(); });
  if (!has_kind(p, VEC)) twice(o, "latex", [&] { return (*tr)(e); });
  twice(o, "traverse", [&] { return (double)nodes(e); }); twice(o, "manipulate", [&] { vm::rt_manipulation_wrapper<> w(new Manip()); return expr(e.get()->recursive_manipulation(w)); });
  twice(o, "copy", [&] { expr c(e), d; d = c; return d; }); twice(o, "clone", [&] { return expr(static_cast<If const*>(e.get()->clone())); });
  twice(o, "+", [&] { return expr(e + f); }); twice(o, "-", [&] { return expr(e - f); }); twice(o, "*", [&] { return expr(e * f); }); twice(o, "/", [&] { return expr(e / f); }); twice(o, "+ number", [&] { return expr(e + 2.5); }); twice(o, "number *", [&] { return expr(2.5 * e); });
  twice(o, "- variable", [&] { return expr(e - v0); }); twice(o, "exp", [&] { return expr(vm::exp(e)); }); twice(o, "sqrt", [&] { return expr(vm::sqrt(e)); });
  twice(o, "integral", [&] { return vm::integral(vm::interval(f, e), e, v0); }); twice(o, "symbolic integral", [&] { return vm::integral(vm::symbolic_interval(2), e); });
  twice(o, "equation", [&] { vm::equation q2(e, f); vm::equation q3(q2); return q3.lhs(); });
  if (!has_kind(p, VEC)) twice(o, "coordinates 1", [&] { return vm::apply_coordinate_system(vm::cartesian<1>(), e); }); if (!has_kind(p, VEC)) twice(o, "coordinates 2", [&] { return vm::apply_coordinate_system(vm::cartesian<2>(), e); }); if (!has_kind(p, VEC)) twice(o, "coordinates 3", [&] { return vm::apply_coordinate_system(vm::cartesian<3>(), e); });
  twice(o, "quadrature", [&] { vm::interval iv(0.0, 1.0); double r = (*qd)(iv, e, v0); if (!eq(read(iv.lower()), C(0)) || !eq(read(iv.upper()), C(1))) vr::fail("quadrature " + s, "changed the interval"); return r; });
  if (quad && !contains(p, [](P const& n) { return n->k == INTEG && (has_var(n->ch[1]) || has_var(n->ch[2])); })) twice(o, "encoded quadrature", [&] { return (*qd)(e); });
  // natural operand types
  o.full("all operations");
  // in-place arithmetic on handles
  struct { const char* n; std::string want, got; } ip[] = {
    {"e = e + f", show(expr(e + f)), ""}, {"e = f - e", show(expr(f - e)), ""}, {"e = e * e", show(expr(e * e)), ""}, {"e = simplify(e)", sim, ""}, {"e = exp(e)", show(expr(vm::exp(e))), ""}};
  { expr c = e; c = c + f; ip[0].got = show(c); } { expr c = e; c = f - c; ip[1].got = show(c); } { expr c = e; c = c * c; ip[2].got = show(c); } { expr c = e; c = vm::simplify(c); ip[3].got = show(c); } { expr c = e; c = vm::exp(c); ip[4].got = show(c); }
  for (auto& x : ip) { ++vr::transitions; ++vr::validated; if (x.want != x.got) vr::fail(std::string(x.n) + " " + s, "gives " + x.got + " instead of " + x.want); }
  o.full("in-place forms on copies");
}
template <class X> static std::string rd(X const& x) { if constexpr (std::is_same<X, double>::value) return num(x); else if constexpr (std::is_same<X, expr>::value) return str(read(x)); else return str(read(static_cast<If const*>(&x))); }
// operands in their natural types
static void natural_ops(P const& p, P const& q) {
  if (!vr::mine()) return; std::string s = "natural " + str(p) + " , " + str(q); vr::cur(s); ++vr::states;
  for (unsigned long w = 0; w < 8; ++w) {
    Choice c1{w * 77 + 3, 0}, c2{w * 31 + 1, 0}; Obj a = natural(p, c1, true), c = natural(q, c2); std::string A, Cc; with(a, [&](auto const& x) { A = rd(x); }); with(c, [&](auto const& x) { Cc = rd(x); });
    auto chk = [&](const char* op) { ++vr::transitions; ++vr::validated; with(a, [&](auto const& x) { std::string t = rd(x); if (t != A) vr::fail(std::string(op) + " " + s, "first operand became " + t); }); with(c, [&](auto const& x) { std::string t = rd(x); if (t != Cc) vr::fail(std::string(op) + " " + s, "second operand became " + t); }); };
    with(a, [&](auto const& x) { with(c, [&](auto const& y) { typedef std::decay_t<decltype(x)> A1; typedef std::decay_t<decltype(y)> A2;
      if constexpr (!std::is_same<A1, double>::value) {
        for (Kind k : ALLBIN) { expr r = bop(k, x, y); chk(kname[k]); if (!eq(read(r), B(k, p, q))) vr::fail(std::string(kname[k]) + " " + s, "gives " + str(read(r))); }
        if constexpr (!std::is_same<A1, function_symbol>::value) for (Kind k : ALLFUN) { expr r(ufun(k, x)); chk(kname[k]); }
        std::ostringstream o; o << x; chk("print");
        if constexpr (!std::is_same<A1, function_symbol>::value && !std::is_same<A1, constant>::value) { try { expr d = vm::diff(x, variable(0)); } catch (std::exception const&) {} chk("diff"); }
        expr sx(vm::simplify(x)); chk("simplify");
        { expr h; h = expr(x); h = vm::simplify(h); chk("assign to handle"); }
        if constexpr (std::is_base_of<If, A1>::value) { try { x.eval(pa); x.unwrap(); } catch (std::exception const&) {} chk("eval"); delete x.clone(); chk("clone"); delete x.simplify(); chk("node simplify"); }
      } }); });
  }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough; vm::latex_translator t; tr = &t; vm::numerical_quadrature g(new vm::rt_gauss_quad_1<>()); qd = &g;
  std::vector<P> qs{X(0), C(2), B(ADD, X(0), X(1)), F(0)};
  std::vector<P> lv{X(0), X(1), C(2), C(0), C(1), F(0)};
  { Alphabet al{lv, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(1, [&](P const& p) { for (P q : qs) handle(p, q); }); int n = 0; en.each_exact(2, [&](P const& p) { if (T || ++n % 3 == 0) handle(p, qs[n % 4]); }); }
  { Alphabet al{{X(0), C(0), C(1)}, {}, ALLBIN}; Enum en(al, 2); en.each_exact(2, [&](P const& p) { for (P q : qs) handle(p, q); }); int n = 0; en.each_exact(3, [&](P const& p) { if (T || ++n % 7 == 0) handle(p, qs[n % 4]); }); }
  std::vector<P> sp; for (P a : {X(0), C(2), F(0), B(MUL, X(0), F(0, 1)), B(ADD, C(0), X(1)), B(MUL, C(1), X(0))}) { sp.push_back(mk(SYMINT, 0, 1, 0, {a})); sp.push_back(mk(INTEG, 0, 0, 0, {a, C(0), C(2)})); sp.push_back(mk(INTEG, 0, 0, 1, {a, X(0), B(ADD, C(0), X(1))})); sp.push_back(mk(VEC, 0, 0, 0, {a, X(1)})); sp.push_back(mk(VEC, 0, 0, 0, {C(1), a, C(0)})); sp.push_back(U(GRAD, a)); sp.push_back(U(DIVG, a)); sp.push_back(mk(PD, 0, 0, 0, {a})); }
  for (P a : sp) { for (P q : qs) { handle(a, q, true); for (Kind k : ALLBIN) { handle(B(k, a, C(2)), q, true); handle(B(k, X(0), a), q, true); } if (a->k != VEC) handle(U(SIN, a), q, true); } for (P c : sp) { handle(B(ADD, a, c), X(0), true); if (a->k != VEC || c->k != VEC || a->ch.size() == c->ch.size()) handle(B(MUL, a, c), F(0), true); } }
  { Alphabet al{{X(0), C(2), C(0)}, {SIN, LOG}, ALLBIN}; Enum en(al, 1); std::vector<P> fam; en.upto(1, [&](P const& p) { fam.push_back(p); }); for (P a : fam) for (P c : fam) natural_ops(a, c); }
  lookalikes(X(0), X(1), [&](P const& p) { handle(p, X(0)); });
  pumped(X(0), X(1), {SIN, FABS}, {6, 12}, 0, [&](P const& p) { handle(p, X(0)); });
  return vr::finish();
}
