// C29: concurrent use of one shared expression.
#include "rt29.hpp"
#include "build.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
using namespace m; using namespace b;
extern char __data_start[], _end[];
static bool quiet_ = false;
struct Op { const char* name; std::function<std::string(expr const&)> f; };
static std::string pr(expr const& e) { return str(read(e)); }
// the other objects that threads may share with the expression; used through their const members only
struct World { vm::equation q; vm::interval iv; vm::latex_translator t; vm::numerical_quadrature nq; std::vector<expr> from, to; variable x; function_symbol u;
  World(expr const& e) : q(e, expr(2.0) * e), iv(expr(0.0), e), nq(new vm::rt_gauss_quad_1<>()), x(0), u(0) { t.customize(vm::variable(1), "Y"); t.customize(function_symbol(0), "\\phi"); from.push_back(expr(x)); from.push_back(expr(u)); from.push_back(e); to.push_back(e); to.push_back(expr(x)); to.push_back(expr(u)); } };
static World* W = nullptr;
template <typename F> static std::string tr(F f) { try { return f(); } catch (std::exception const&) { return std::string("raises"); } }
static std::vector<Op> ops() {
  std::vector<Op> o; auto A = [&](const char* n, std::function<std::string(expr const&)> f) { o.push_back(Op{n, f}); };
  A("evaluate", [](expr const& e) { std::vector<double> p{0.4, 1.3}; try { return num(e(p)); } catch (std::exception const& x) { return std::string("raises"); } });
  A("evaluate at another point", [](expr const& e) { std::vector<double> p{2.5, -0.7}; try { return num(vm::eval(e, p)); } catch (std::exception const& x) { return std::string("raises"); } });
  A("differentiate", [](expr const& e) { try { return pr(vm::diff(e, variable(0))); } catch (std::exception const& x) { return std::string("raises"); } });
  A("differentiate by x1", [](expr const& e) { try { return pr(vm::diff(e, variable(1))); } catch (std::exception const& x) { return std::string("raises"); } });
  A("simplify", [](expr const& e) { return pr(vm::simplify(e)); });
  A("substitute", [](expr const& e) { return pr(vm::substitute(variable(0), vm::sin(variable(1)), e)); });
  A("substitute symbol", [](expr const& e) { return pr(vm::substitute(function_symbol(0), expr(variable(1)), e)); });
  A("substitute the shared expression", [](expr const& e) { expr s = expr(variable(0)) * 2.0; return pr(vm::substitute(variable(0), e, s)); });
  A("compare", [](expr const& e) { expr c(e); return std::string(e.get()->deep_equal(c.get()) ? "1" : "0") + (e.get()->shallow_equal(c.get()) ? "1" : "0") + (e.get()->deep_equal(e.get()) ? "1" : "0") + (e.get()->is_constant() ? "1" : "0") + (e.get()->can_simplify() ? "1" : "0"); });
  A("print", [](expr const& e) { std::ostringstream s; s << e; return s.str(); }); A("deep_str", [](expr const& e) { return e.get()->deep_str() + e.get()->shallow_str(); });
  A("latex", [](expr const& e) { vm::latex_translator t; return t(e); });
  A("copy", [](expr const& e) { expr c(e); expr d; d = c; return pr(d); }); A("combine", [](expr const& e) { expr c = e * e + 2.0 / e; return pr(c); });
  A("integrate", [](expr const& e) { vm::numerical_quadrature q(new vm::rt_gauss_quad_1<>()); try { expr w = vm::integral(vm::interval(0.0, 1.0), e, variable(0)); expr r = expr(q(w)); return pr(r); } catch (std::exception const& x) { return std::string("raises"); } });
  A("coordinates", [](expr const& e) { return pr(vm::apply_coordinate_system(vm::cartesian<2>(), e)); });
  A("traverse", [](expr const& e) { return std::to_string(nodes(e)); });
  A("substitute a list", [](expr const& e) { return tr([&] { return pr(vm::substitute(W->from, W->to, e)); }); });
  A("substitute into the shared equation", [](expr const&) { return tr([&] { return pr(vm::substitute(W->u, expr(W->x), W->q.lhs())) + pr(vm::substitute(W->u, W->q.rhs(), W->q.rhs())); }); });
  A("shared translator", [](expr const& e) { return tr([&] { return W->t(e) + W->t(W->q) + W->t(W->iv); }); });
  A("shared quadrature", [](expr const& e) { return tr([&] { return num(W->nq(vm::interval(0.0, 1.0), e, W->x)); }); });
  A("shared quadrature of an integral", [](expr const& e) { return tr([&] { expr w = vm::integral(vm::interval(0.0, 1.0), e, W->x); return num(W->nq(w + w)); }); });
  A("integral over the shared interval", [](expr const& e) { return tr([&] { return pr(vm::integral(W->iv, e, W->x)); }); });
  A("shared equation and interval", [](expr const&) { std::ostringstream s; s << W->q << W->iv; vm::equation q(W->q); vm::interval i(W->iv); vm::interval j(expr(1.0), expr(2.0)); j = W->iv; s << q << i << j; return s.str(); });
  A("symbolic integral", [](expr const& e) { return tr([&] { expr w = vm::integral(vm::symbolic_interval(1), e); expr q = vm::substitute(vm::symbolic_interval(1), std::make_pair(W->iv, W->x), w); return pr(w) + pr(q); }); });
  A("functions of it", [](expr const& e) { return tr([&] { return pr(vm::sin(e)) + pr(vm::exp(vm::sqrt(e))) + pr(vm::fabs(e)); }); });
  A("gradient and divergence", [](expr const& e) { return tr([&] { return pr(e * vm::div(vm::grad(W->u))) + pr(vm::grad(W->u) * vm::grad(W->u) + e); }); });
  A("laplace", [](expr const& e) { return tr([&] { return pr(vm::apply_coordinate_system(vm::cartesian<3>(), e * vm::div(vm::grad(W->u)))); }); });
  A("coordinates of the shared equation", [](expr const&) { return tr([&] { vm::equation q = vm::apply_coordinate_system(vm::cartesian<2>(), W->q); return pr(q.lhs()) + pr(q.rhs()); }); });
  A("vector of it", [](expr const& e) { return tr([&] { vm::rt_vector_expr<> v(2); v[0] = e; v[1] = e; return pr(expr(v * v)) ; }); });
  A("in-place operations on a copy", [](expr const& e) { return tr([&] { expr c(e); vm::inplace_simplify(c); expr d(e); d = d + e; d = d * 2.0; d = d - e; d = d / e; return pr(c) + pr(d); }); });
  A("parts", [](expr const& e) { return tr([&] { std::string s; if (auto* p = dynamic_cast<vm::binary_expr const*>(e.get())) { s = p->lhs()->deep_str() + p->op()->str() + p->rhs()->deep_str() + p->shallow_str(); vm::binary_expr c(*p); s += c.deep_str(); }
    else if (auto* q = dynamic_cast<vm::unary_expr const*>(e.get())) { s = q->op()->str() + q->lhs()->deep_str(); vm::unary_expr c(*q); s += c.deep_str(); } expr l(e.get()->clone()); return s + pr(l); }); });
  A("value", [](expr const& e) { return tr([&] { return num(e.get()->unwrap()) + (e.get()->is_unary() ? "1" : "0"); }); });
  return o;
}
static std::vector<Op> O;
static expr* shared_(P const& p) { sch::arena(0); expr* e = new expr(build(p)); W = new World(*e); sch::arena(-1); return e; }
static void drop(expr* e) { delete e; delete W; W = nullptr; }
static std::string wr(std::vector<sch::Conflict> const& c) { std::ostringstream o; o << c.size() << " writes to memory it does not own, first: " << c[0].size << " bytes in " << (c[0].shared ? "the shared expression" : "global data"); return o.str(); }
static std::vector<char> snap0, snap1;
static bool alone(P const& p, size_t i, std::string* out, bool report) {
  expr* e = shared_(p); size_t n = sch::used(0); std::string key = std::string(O[i].name) + " " + str(p); vr::cur(key); ++vr::transitions; ++vr::validated;
  snap0.assign(sch::start(0), sch::start(0) + n); 
  long pts = 0; auto c = sch::solo(5, [&] { std::string s = O[i].f(*e); sch::keep(3, s.data(), s.size()); }, &pts);
  vr::counters["n_visible_accesses"] += pts; if (pts) ++vr::nontrivial;
  if (out) *out = sch::kept(3);
  if (!c.empty()) return vr::fail(key, wr(c));
  if (memcmp(snap0.data(), sch::start(0), n)) return vr::fail(key, "the shared expression is modified");
  drop(e);
  return true;
}
static void alone_all(P const& p) { if (!vr::mine()) return; ++vr::states; vr::sample(str(p)); for (size_t i = 0; i < O.size(); ++i) alone(p, i, nullptr, true); }
static unsigned long nsched = 0;
static void pairs(P const& p, std::vector<size_t> const& who, int maxp) {
  if (!vr::mine()) return; std::vector<std::string> want(who.size()); std::string key = str(p); for (size_t k = 0; k < who.size(); ++k) { key += std::string(" | ") + O[who[k]].name; alone(p, who[k], &want[k], true); }
  ++vr::states; expr* e = shared_(p); bool dead = false;
  auto go = [&](std::vector<long> const& sw) -> long {
    std::vector<std::function<void()>> fs; for (size_t k = 0; k < who.size(); ++k) fs.push_back([&, k] { std::string s = O[who[k]].f(*e); sch::keep((int)k, s.data(), s.size()); });
    std::string kk = key; if (!sw.empty()) { kk += " preempted at"; for (long s : sw) kk += " " + std::to_string(s); } vr::cur(kk);
    std::vector<sch::Conflict> c; long n = sch::run(fs, sw, &c); ++vr::transitions; ++vr::validated; ++nsched;
    for (size_t k = 0; k < who.size(); ++k) if (want[k] != sch::kept((int)k)) { vr::fail(kk, std::string(O[who[k]].name) + " gives " + sch::kept((int)k) + " instead of " + want[k]); dead = true; }
    if (!c.empty()) { vr::fail(kk, wr(c)); dead = true; }
    return n;
  };
  long n = go({}); ++vr::nontrivial;
  // one, two preemptions at every visible point
  for (long a = 0; a < n && !dead; ++a) { long na = go({a}); if (maxp < 2 || n > (vr::thorough ? 600 : 200)) continue; for (long b2 = a + 1; b2 < na && !dead; ++b2) { long nb = go({a, b2}); if (maxp < 3) continue; for (long c = b2 + 1; c < nb && !dead; ++c) go({a, b2, c}); } }
  if (!dead) drop(e);
}
int main(int argc, char** argv) {
  sch::init(); vr::init(argc, argv); bool T = vr::thorough; O = ops();
  // 1. no operation writes to anything it does not own: all interleavings are equivalent
  { Alphabet al{{C(2), C(0), C(1), X(0), X(1), F(0)}, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(T ? 2 : 1, [](P const& p) { alone_all(p); }); }
  { Alphabet al{{C(2), X(0), F(0)}, {SIN, LOG}, ALLBIN}; Enum en(al, 2); en.upto(2, [](P const& p) { alone_all(p); }); if (T) en.each_exact(3, [](P const& p) { alone_all(p); }); }
  std::vector<P> sp; for (P a : {X(0), B(ADD, X(0), C(1)), B(MUL, F(0), X(1)), U(EXP, X(0))}) { sp.push_back(mk(SYMINT, 0, 1, 0, {a})); sp.push_back(mk(INTEG, 0, 0, 0, {a, C(0), C(1)})); sp.push_back(mk(VEC, 0, 0, 0, {a, X(1)})); sp.push_back(B(MUL, U(GRAD, F(0)), U(GRAD, F(0)))); sp.push_back(B(ADD, mk(SYMINT, 0, 0, 0, {B(MUL, a, F(0))}), C(0))); }
  for (auto& p : sp) alone_all(p);
  { P l = X(0); for (int n = 0; n < (T ? 30 : 12); ++n) { l = B(n % 2 ? MUL : ADD, n % 3 ? U(SIN, l) : l, C(n % 4)); alone_all(l); } }
  // 2. schedules
  std::vector<P> F2{B(ADD, X(0), C(2)), B(MUL, X(0), U(SIN, X(1))), B(DIV, B(ADD, X(0), C(0)), X(1)), F(0)};
  for (size_t k = 0; k < (T ? F2.size() : 2); ++k) for (size_t i = 0; i < O.size(); ++i) for (size_t j = 0; j < O.size(); ++j) pairs(F2[k], {i, j}, T && k < 2 ? 2 : 1);
  for (size_t i = 0; i < O.size(); ++i) for (size_t j = 0; j < O.size(); ++j) pairs(X(0), {i, j}, 2);
  for (size_t i = 0; i < O.size(); ++i) pairs(B(MUL, X(0), U(EXP, X(0))), {i, 0, (i + 3) % O.size()}, T ? 2 : 1);
  vr::counters["n_schedules"] = nsched;
  return vr::finish();
}
