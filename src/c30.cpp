// C30: every single allocation of every operation fails once (and from there on): operands, targets and memory stay intact.
#include <cstdlib>
#include <new>
static thread_local long f_after = -1; static thread_local bool f_all = false, f_hit = false; static thread_local unsigned long f_count = 0;
static void* get_(std::size_t n) {
  if (f_after >= 0) { ++f_count; if (f_after == 0) { f_hit = true; if (!f_all) f_after = -1; throw std::bad_alloc(); } --f_after; }
  void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void* operator new(std::size_t n) { return get_(n); }
void* operator new[](std::size_t n) { return get_(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#include "build.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
#include "viennamath/runtime/equation.hpp"
#include "viennamath/runtime/interval.hpp"
using namespace m; using namespace b;
struct Env { expr a, b, t; std::shared_ptr<vm::binary_expr> bin; std::shared_ptr<vm::unary_expr> un; vm::vector_expr vec{2}; variable x0{0}, x1{1}; function_symbol u{0}; vm::latex_translator* tr; vm::numerical_quadrature* q; vm::equation eq; vm::interval iv{expr(0.0), expr(1.0)};
  expr out; std::string s; };
static vm::vector_expr v2(expr const& a, expr const& b) { vm::vector_expr v(2); v[0] = a; v[1] = b; return v; }
struct Op { const char* name; int kind; std::function<void(Env&)> f; };     // kind 0: result in out, 1: changes t (strong guarantee), 2: as 0, but the stream swallows exceptions, 3: t may not contain symbols
template <class E> struct Twice : public vm::rt_manipulation_interface<> { If* operator()(If const* e) const { return e->clone(); } bool modifies(If const* e) const { return dynamic_cast<vm::rt_variable<> const*>(e) != NULL; } };
static std::vector<Op> ops() {
  std::vector<Op> o; auto A = [&](const char* n, int k, std::function<void(Env&)> f) { o.push_back(Op{n, k, f}); };
  A("copy", 0, [](Env& e) { expr c(e.a); e.out = c; }); A("clone", 0, [](Env& e) { e.out = expr(e.a.get()->clone()); });
  A("a+b", 0, [](Env& e) { e.out = e.a + e.b; }); A("a-b", 0, [](Env& e) { e.out = e.a - e.b; }); A("a*b", 0, [](Env& e) { e.out = e.a * e.b; }); A("a/b", 0, [](Env& e) { e.out = e.a / e.b; });
  A("a+2", 0, [](Env& e) { e.out = e.a + 2.0; }); A("2*a", 0, [](Env& e) { e.out = 2.0 * e.a; }); A("a/x0", 0, [](Env& e) { e.out = e.a / e.x0; }); A("bin*un", 0, [](Env& e) { e.out = *e.bin * *e.un; }); A("un-a", 0, [](Env& e) { e.out = *e.un - e.a; });
  A("sin a", 0, [](Env& e) { e.out = vm::sin(e.a); }); A("sqrt bin", 0, [](Env& e) { e.out = vm::sqrt(*e.bin); }); A("fabs un", 0, [](Env& e) { e.out = vm::fabs(*e.un); });
  A("simplify", 0, [](Env& e) { e.out = vm::simplify(e.a); }); A("simplify bin", 0, [](Env& e) { e.out = vm::simplify(*e.bin); });
  A("diff", 0, [](Env& e) { e.out = vm::diff(e.a, e.x0); }); A("diff bin", 0, [](Env& e) { e.out = vm::diff(*e.bin, e.x1); }); A("diff u", 0, [](Env& e) { e.out = vm::diff(e.a, e.u); });
  A("substitute x0", 0, [](Env& e) { e.out = vm::substitute(e.x0, e.b, e.a); }); A("substitute u", 0, [](Env& e) { e.out = vm::substitute(e.u, e.b, e.a); }); A("substitute expr", 0, [](Env& e) { e.out = vm::substitute(e.b, e.a, e.a); });
  A("substitute many", 0, [](Env& e) { std::vector<expr> s{expr(e.x0), expr(e.x1), expr(e.u)}, r{e.b, e.a, expr(e.x0)}; e.out = vm::substitute(s, r, e.a); }); A("substitute number", 0, [](Env& e) { e.out = vm::substitute(e.x1, 1.5, e.a); });
  A("substitute domain", 0, [](Env& e) { e.out = vm::substitute(vm::symbolic_interval(0), std::make_pair(vm::interval(e.b, expr(2.0)), e.x0), e.a); });
  A("integral", 0, [](Env& e) { e.out = vm::integral(vm::interval(e.b, expr(1.0)), e.a, e.x0); }); A("symbolic integral", 0, [](Env& e) { e.out = vm::integral(vm::symbolic_interval(2), e.a); });
  A("vector", 0, [](Env& e) { vm::vector_expr v = v2(e.a, e.b); e.out = expr(v); }); A("vector component", 0, [](Env& e) { vm::vector_expr v(e.vec); v[1] = e.a; e.out = expr(v); }); A("vector product", 0, [](Env& e) { e.out = expr(e.vec) * expr(e.vec); });
  A("equation", 0, [](Env& e) { vm::equation q(e.a, e.b); vm::equation c(q); vm::equation d; d = c; e.out = d.rhs(); }); A("interval", 0, [](Env& e) { vm::interval i(e.a, e.b); vm::interval c(i); vm::interval d(expr(0.0), expr(1.0)); d = c; e.out = d.upper(); });
  A("gradients", 0, [](Env& e) { e.out = vm::grad(e.u) * vm::grad(e.u) + e.a; }); A("cartesian", 0, [](Env& e) { e.out = vm::apply_coordinate_system(vm::cartesian<2>(), e.a); });
  A("manipulate", 0, [](Env& e) { vm::rt_manipulation_wrapper<> w(new Twice<int>()); e.out = expr(e.a.get()->recursive_manipulation(w)); });
  A("binary copy", 0, [](Env& e) { vm::binary_expr c(*e.bin); vm::binary_expr d(*std::unique_ptr<vm::binary_expr>(static_cast<vm::binary_expr*>(e.bin->clone()))); e.out = expr(c); }); A("unary copy", 0, [](Env& e) { vm::unary_expr c(*e.un); e.out = expr(c); });
  A("constant", 0, [](Env& e) { vm::constant k(2.5); e.out = k * e.a + k; }); A("compile-time", 0, [](Env& e) { e.out = vm::ct_variable<0>() * vm::ct_constant<3>() + e.a; });
  A("evaluate", 3, [](Env& e) { double d = e.a(std::vector<double>{0.4, 1.3}); d += vm::eval(e.a, std::vector<double>{0.5, 1.0}); (void)d; });
  A("text", 2, [](Env& e) { std::ostringstream os; os << e.a; e.s = os.str(); }); A("deep_str", 2, [](Env& e) { e.s = e.a.get()->deep_str(); }); A("latex", 2, [](Env& e) { e.s = (*e.tr)(e.a); });
  A("compare", 0, [](Env& e) { (void)e.a.get()->deep_equal(e.b.get()); (void)e.a.get()->shallow_equal(e.b.get()); (void)e.a.get()->is_constant(); (void)e.a.get()->can_simplify(); });
  A("quadrature", 0, [](Env& e) { e.out = expr((*e.q)(e.a)); });
  // targets
  A("t=a", 1, [](Env& e) { e.t = e.a; }); A("t=t", 1, [](Env& e) { e.t = e.t; }); A("t=bin", 1, [](Env& e) { e.t = *e.bin; }); A("t=un", 1, [](Env& e) { e.t = *e.un; }); A("t=x0", 1, [](Env& e) { e.t = e.x0; }); A("t=3", 1, [](Env& e) { e.t = 3.0; }); A("t=u", 1, [](Env& e) { e.t = e.u; }); A("t=vec", 1, [](Env& e) { e.t = e.vec; });
  A("t=constant", 1, [](Env& e) { e.t = vm::constant(4.5); }); A("t=ct_variable", 1, [](Env& e) { e.t = vm::ct_variable<1>(); }); A("t=ct_constant", 1, [](Env& e) { e.t = vm::ct_constant<7>(); }); A("t=ct expression", 1, [](Env& e) { e.t = vm::ct_variable<1>() * vm::ct_constant<7>(); });
  A("t=t+a", 1, [](Env& e) { e.t = e.t + e.a; }); A("t=simplify t", 1, [](Env& e) { e.t = vm::simplify(e.t); }); A("inplace_simplify", 1, [](Env& e) { vm::inplace_simplify(e.t); }); A("t=substitute", 1, [](Env& e) { e.t = vm::substitute(e.x0, e.t, e.t); });
  A("t=diff", 1, [](Env& e) { e.t = vm::diff(e.t, e.x1); }); A("t=grad", 1, [](Env& e) { e.t = vm::grad(e.u); }); A("t=div", 1, [](Env& e) { e.t = vm::div(e.u); });
  A("bin=bin2", 4, [](Env& e) { vm::binary_expr o(vm::variable(1) - vm::variable(0)); *e.bin = o; }); A("bin=2", 4, [](Env& e) { *e.bin = 2.0; }); A("un=un2", 4, [](Env& e) { vm::unary_expr o(vm::exp(vm::variable(3))); *e.un = o; }); A("vec=vec2", 4, [](Env& e) { vm::vector_expr o(3); o[0] = e.a; o[1] = e.b; o[2] = e.a; e.vec = o; });
  // objects other than handles: whatever fails, they remain usable
  A("eq=eq2", 4, [](Env& e) { vm::equation o(e.a, e.b); e.eq = o; }); A("eq=eq", 4, [](Env& e) { vm::equation const& r = e.eq; e.eq = r; });
  A("iv=iv2", 4, [](Env& e) { vm::interval o(e.a, e.b); e.iv = o; }); A("iv=iv", 4, [](Env& e) { vm::interval const& r = e.iv; e.iv = r; });
  A("q=q2", 4, [](Env& e) { vm::numerical_quadrature o(new vm::rt_gauss_quad_1<>()); *e.q = o; }); A("q=copy", 4, [](Env& e) { vm::numerical_quadrature o(*e.q); *e.q = o; }); A("q=q", 4, [](Env& e) { vm::numerical_quadrature const& r = *e.q; *e.q = r; });
  A("tr=tr2", 4, [](Env& e) { vm::latex_translator o; *e.tr = o; }); A("tr=copy", 4, [](Env& e) { vm::latex_translator o(*e.tr); *e.tr = o; }); A("tr=tr", 4, [](Env& e) { vm::latex_translator const& r = *e.tr; *e.tr = r; });
  A("customize", 4, [](Env& e) { e.tr->customize(e.x0, std::string(100, 'v')); }); A("customize u", 4, [](Env& e) { e.tr->customize(e.u, std::string(100, 'w')); });
  A("un=a", 4, [](Env& e) { *e.un = 2.0; }); A("vec[1]=a", 4, [](Env& e) { e.vec[1] = e.a; }); A("vec+=", 4, [](Env& e) { e.vec = e.vec + e.vec; });
  return o;
}
static P T_() { return B(SUB, B(MUL, X(0), C(1)), U(EXP, B(ADD, X(1), C(0)))); }
static bool sound(Env& e, P const& pa, P const& pb, P const& pt, bool target, std::string const& k) {
  P bin = B(ADD, X(0), U(SIN, X(1))), un = U(COS, B(MUL, X(0), C(2))), vec = mk(VEC, 0, 0, 0, {X(0), B(MUL, X(1), X(1))});
  auto same = [&](expr const& x, P const& w, const char* n) { P r; try { r = read(x); } catch (std::exception const& ex) { return vr::fail(k, std::string(n) + " is unreadable afterwards: " + ex.what()); } if (!r || !eq(r, w)) return vr::fail(k, std::string(n) + " is " + (r ? str(r) : "empty") + " afterwards instead of " + str(w)); return true; };
  if (!same(e.a, pa, "first operand") || !same(e.b, pb, "second operand")) return false;
  if (!target && !same(e.t, pt, "an uninvolved handle")) return false;
  if (target && !same(e.t, pt, "the target")) return false;
  // still usable
  expr c = e.a; if (!same(c, pa, "copy of the first operand")) return false; e.t = e.a; if (!same(e.t, pa, "target assigned again")) return false; e.out = e.b; if (!same(e.out, pb, "result assigned again")) return false;
  return true;
}
// objects other than handles work: the ones which were not touched as before, the target of a failed assignment in one way or the other
static void usable(Env& e, std::string const& op, std::string const& k) {
  auto side = [&](expr const& x, const char* n, P old) { try { P r = read(x); if (!r) vr::fail(k, std::string(n) + " is empty afterwards"); else if (old && !eq(r, old)) vr::fail(k, std::string(n) + " is " + str(r) + " afterwards"); } catch (std::exception const& ex) { vr::fail(k, std::string(n) + " is unreadable afterwards: " + ex.what()); } };
  bool t = op.compare(0, 3, "eq=") == 0; side(e.eq.lhs(), "the left side of the equation", t ? P() : X(0)); side(e.eq.rhs(), "the right side of the equation", t ? P() : C(5));
  t = op.compare(0, 3, "iv=") == 0; side(e.iv.lower(), "the lower bound", t ? P() : C(0)); side(e.iv.upper(), "the upper bound", t ? P() : C(1));
  try { double v = (*e.q)(vm::integral(vm::interval(expr(0.0), expr(2.0)), expr(variable(0)), variable(0))); if (!(v > 1.999 && v < 2.001)) vr::fail(k, "the quadrature object integrates x from 0 to 2 to " + num(v) + " afterwards"); } catch (std::exception const& ex) { vr::fail(k, std::string("the quadrature object is unusable afterwards: ") + ex.what()); }
  try { expr f = e.x0 * vm::sin(e.x1); vm::latex_translator fresh, other; other.customize(e.x0, std::string(100, 'v')); std::string a = (*e.tr)(f); if (a != fresh(f) && !(op == "customize" && a == other(f))) vr::fail(k, "the translator writes " + a + " afterwards"); } catch (std::exception const& ex) { vr::fail(k, std::string("the translator is unusable afterwards: ") + ex.what()); }
}
static void fill(Env& e, P const& pa, P const& pb, P const& pt) {
  e.a = build(pa); e.b = build(pb); e.t = build(pt); e.out = expr(); 
  e.bin = std::make_shared<vm::binary_expr>(variable(0) + vm::sin(variable(1))); e.un = std::make_shared<vm::unary_expr>(vm::cos(variable(0) * 2.0)); e.vec = v2(expr(variable(0)), variable(1) * variable(1)); e.eq = vm::equation(expr(variable(0)), expr(5.0));
}
static unsigned long maxk = 0;
static void one(Op const& op, P const& pa, P const& pb) {
  if (!vr::mine()) return; P pt = T_(); std::string base = std::string(op.name) + " a=" + str(pa) + " b=" + str(pb); ++vr::states; vr::sample(base);
  vm::latex_translator tr; vm::numerical_quadrature q(new vm::rt_gauss_quad_1<>()); std::string want; P wout; bool raises = false; unsigned long total = 0;
  { Env e; e.tr = &tr; e.q = &q; fill(e, pa, pb, pt); vr::cur(base); try { f_after = 1l << 60; f_count = 0; op.f(e); } catch (std::exception const& x) { raises = true; } total = f_count; f_after = -1; }
  if (raises) { ++vr::counters["operations not applicable"]; return; }
  for (int mode = 0; mode < 2; ++mode) for (unsigned long k = 0; k < total; ++k) {
    if (mode && k + 1 == total) continue;
    std::string key = base + " allocation " + std::to_string(k + 1) + (mode ? " and all later ones fail" : " fails"); vr::cur(key); ++vr::transitions; ++vr::validated; maxk = std::max(maxk, k + 1);
    vm::latex_translator tr; vm::numerical_quadrature q(new vm::rt_gauss_quad_1<>());
    Env e; e.tr = &tr; e.q = &q; fill(e, pa, pb, pt); bool thrown = false; std::string other;
    f_hit = false; f_all = mode; f_after = k; 
    try { op.f(e); } catch (std::bad_alloc const&) { thrown = true; } catch (std::exception const& x) { f_after = -1; other = x.what(); } catch (...) { f_after = -1; other = "unknown exception"; }
    f_after = -1; f_all = false;
    if (!f_hit) { ++vr::counters["allocation not reached"]; }
    else { ++vr::nontrivial; if (!other.empty()) vr::fail(key, "raises " + other + " instead of std::bad_alloc"); else if (!thrown && op.kind != 2) vr::fail(key, "the failure does not reach the caller"); }
    if (op.kind == 4 || (&pa)->get()->ops < 2) usable(e, op.name, key);
    if (op.kind == 4) { try { expr c(*e.bin), d(*e.un), v(e.vec); (void)read(c); (void)read(d); (void)read(v); } catch (std::exception const& x) { vr::fail(key, std::string("an operand is unusable afterwards: ") + x.what()); } }
    if (thrown || !f_hit || op.kind == 2) { if (f_hit || op.kind != 1) sound(e, pa, pb, pt, op.kind == 1, key); }
  }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough; auto O = ops();
  std::vector<P> S{C(2), X(0), X(1), F(0), B(ADD, X(0), C(2)), B(MUL, X(0), X(1)), B(DIV, X(1), C(3)), U(SIN, X(0)), U(LOG, B(MUL, X(0), X(1))), B(SUB, U(EXP, X(0)), B(DIV, X(0), X(1))), B(MUL, C(1), B(ADD, C(0), X(0))), B(MUL, F(0), B(ADD, X(1), C(0))), mk(SYMINT, 0, 0, 0, {B(MUL, X(0), F(0))}), mk(INTEG, 0, 0, 0, {B(MUL, X(0), X(0)), C(0), C(1)}),
    mk(VEC, 0, 0, 0, {X(0), B(ADD, X(1), C(1))}), B(MUL, U(GRAD, F(0)), U(GRAD, F(0))), B(DIV, B(ADD, X(0), X(1)), B(SUB, X(0), X(1))), U(SQRT, U(FABS, B(SUB, X(0), C(4)))), B(ADD, B(MUL, C(2), C(3)), B(MUL, X(0), C(0)))};
  for (auto& op : O) for (auto& pa : S) for (auto& pb : S) { if (!T && &pb - &S[0] >= 6 && (&pa - &S[0] + (&pb - &S[0])) % 4) continue; one(op, pa, pb); }
  { Alphabet al{{C(2), X(0), F(0)}, {SIN, LOG}, ALLBIN}; Enum en(al, 1); for (auto& op : O) en.upto(T ? 2 : 1, [&](P const& p) { one(op, p, X(1)); one(op, p, p); }); }
  // deeper and deeper operands
  for (auto& op : O) { P l = X(0), r = X(0); for (int n = 0; n < (T ? 20 : 8); ++n) { l = B(n % 2 ? MUL : ADD, l, C(n % 3)); r = B(n % 2 ? SUB : DIV, U(n % 2 ? SIN : EXP, X(1)), r); one(op, l, X(1)); one(op, r, l); } }
  vr::counters["n_largest_allocation_number"] = maxk;
  return vr::finish();
}
