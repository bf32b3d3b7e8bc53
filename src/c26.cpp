// C26: vector expressions obey componentwise algebra.
#include "build.hpp"
#include "opaque.hpp"
using namespace m; using namespace b;
typedef vm::vector_expr V;
typedef std::vector<P> PV;
static P mkv(PV const& c) { return mk(VEC, 0, 0, 0, c); }
static V bv(PV const& c) { V v(c.size()); for (size_t i = 0; i < c.size(); ++i) v[i] = build(c[i]); return v; }
static P rd(V const& v) { PV c; for (size_t i = 0; i < v.size(); ++i) c.push_back(read(v[i].get())); return mkv(c); }
static P rd(expr const& e) { return read(e); }
static void cmp(std::string const& key, P const& g, P const& want) { ++vr::transitions; ++vr::validated; if (!g || (g->k == VEC) != (want->k == VEC) || !equiv(g, want)) vr::fail(key, "gives " + (g ? str(g) : "nothing") + " instead of " + str(want)); }
template <class Fn> void run(std::string const& key, Fn fn, P const& want) { vr::cur(key); try { auto const& r = fn(); cmp(key, rd(r), want); } catch (std::exception const& x) { vr::fail(key, std::string("raises ") + x.what()); } }
static PV map1(PV const& a, std::function<P(P const&)> f) { PV r; for (auto& x : a) r.push_back(f(x)); return r; }
static PV map2(Kind k, PV const& a, PV const& c) { PV r; for (size_t i = 0; i < a.size(); ++i) r.push_back(B(k, a[i], c[i])); return r; }
static P dot(PV const& a, PV const& c) { P r = B(MUL, a[0], c[0]); for (size_t i = 1; i < a.size(); ++i) r = B(ADD, r, B(MUL, a[i], c[i])); return r; }
static std::string vs(PV const& a) { return str(mkv(a)); }
static P der(P const& e, unsigned long v);
// pairs of vectors
static void pair(PV const& a, PV const& c) {
  if (!vr::mine()) return; ++vr::states; ++vr::nontrivial; std::string s = vs(a) + " ? " + vs(c); vr::sample(s);
  V u = bv(a), w = bv(c);
  run(s + " sum", [&] { return u + w; }, mkv(map2(ADD, a, c))); run(s + " difference", [&] { return u - w; }, mkv(map2(SUB, a, c)));
  run(s + " dot product", [&] { return expr(u * w); }, dot(a, c)); run(s + " product of differences", [&] { return expr((u - w) * (u + w)); }, dot(map2(SUB, a, c), map2(ADD, a, c)));
  run(s + " sum of sums", [&] { return (u + w) + (w - u); }, mkv(map2(ADD, map2(ADD, a, c), map2(SUB, c, a))));
  run(s + " self assignment of a sum", [&] { V t(u); t = t + w; t = t - u; return t; }, mkv(map2(SUB, map2(ADD, a, c), a)));
  { expr eu(u), ew(w); bool same = eq(mkv(a), mkv(c)); ++vr::transitions; if (deq(eu, ew) != same || deq(ew, eu) != same || u.deep_equal(&w) != same) vr::fail(s + " comparison", same ? "equal vectors compare unequal" : "different vectors compare equal"); }
  if (!eq(rd(u), mkv(a)) || !eq(rd(w), mkv(c))) vr::fail(s, "operand changed");
}
template <class T> void scal(std::string const& s, PV const& a, V const& v, T const& t, P const& pt, std::string const& how) {
  run(s + " v*t " + how, [&] { return v * t; }, mkv(map1(a, [&](P const& x) { return B(MUL, x, pt); })));
  run(s + " t*v " + how, [&] { return t * v; }, mkv(map1(a, [&](P const& x) { return B(MUL, pt, x); })));
  run(s + " v/t " + how, [&] { return v / t; }, mkv(map1(a, [&](P const& x) { return B(DIV, x, pt); })));
  run(s + " t/v " + how, [&] { return t / v; }, mkv(map1(a, [&](P const& x) { return B(DIV, pt, x); })));
}
static void scale(PV const& a, P const& t) {
  if (!vr::mine()) return; ++vr::states; ++vr::nontrivial; std::string s = vs(a) + " by " + str(t); V v = bv(a); expr et = build(t);
  scal(s, a, v, et, t, "(handle)");
  if (t->k == CONST) { scal(s, a, v, t->c, t, "(double)"); if (t->c == (int)t->c) { scal(s, a, v, (int)t->c, t, "(int)"); } scal(s, a, v, constant(t->c), t, "(constant)"); }
  else if (t->k == VAR) scal(s, a, v, variable(t->id), t, "(variable)");
  else if (t->k == FS) scal(s, a, v, function_symbol(t->id, t->tag), t, "(symbol)");
  else if (is_bin(t->k)) scal(s, a, v, *static_cast<vm::binary_expr const*>(et.get()), t, "(binary)");
  else if (is_fun(t->k)) scal(s, a, v, *static_cast<vm::unary_expr const*>(et.get()), t, "(unary)");
  if (!eq(rd(v), mkv(a)) || !eq(read(et), t)) vr::fail(s, "operand changed");
}
static void single(PV const& a, bool wide = false) {
  if (!vr::mine()) return; ++vr::states; std::string s = vs(a); V v = bv(a); P pa = mkv(a);
  if (v.size() != a.size()) vr::fail(s, "size");
  run(s + " copy", [&] { V w(v); V z(1); z = w; w[0] = expr(99.0); return z; }, pa); run(s + " source of a copy", [&] { V w(v); w[w.size() - 1] = expr(99.0); w = V(2); return v; }, pa);
  run(s + " self assignment", [&] { V w(v); V& r = w; w = r; return w; }, pa);
  run(s + " handle", [&] { expr e(v); expr f; f = e; e = expr(1.0); expr g; g = v; return expr(f); }, pa); run(s + " assigned handle", [&] { expr g(3.0); g = v; return g; }, pa);
  run(s + " clone", [&] { expr e(static_cast<If const*>(v.clone())); return e; }, pa);
  run(s + " fresh vector", [&] { return V(a.size()); }, mkv(PV(a.size(), C(0))));
  expr e(v); bool plain = !contains(pa, [](P const& n) { return n->k == FS || (n->k >= GRAD && n->k != VEC); });
  for (unsigned long x = 0; x < 3; ++x) {
    if (plain) { run(s + " derivative by x" + std::to_string(x), [&] { return vm::diff(e, variable(x)); }, mkv(map1(a, [&](P const& c) { return read(vm::diff(build(c), variable(x))); }))); }
    if (plain) run(s + " derivative (node) by x" + std::to_string(x), [&] { variable vx(x); return expr(static_cast<If const*>(v.diff(&vx))); }, mkv(map1(a, [&](P const& c) { return der(c, x); })));
    for (P r : {C(3), B(ADD, X(1), X(2)), F(4, 1)}) run(s + " x" + std::to_string(x) + " := " + str(r), [&] { return vm::substitute(variable(x), build(r), e); }, subst(pa, {X(x)}, {r}));
  }
  for (auto& c : a) if (!wide) run(s + " component " + str(c) + " := x2", [&] { expr pc = build(c), q = build(X(2)); return vm::substitute(pc, q, e); }, subst(pa, {c}, {X(2)}));
  run(s + " whole := x1", [&] { return vm::substitute(e, build(X(1)), e); }, X(1));
  if (!wide) for (int w = 0; w < 3; ++w) for (P fill : {X(2), F(1), C(77)}) {   // the vector itself among the patterns of a list, before, between and after others
    std::vector<P> k, r; for (int i = 0; i < 3; ++i) { k.push_back(i == w ? pa : i == (w + 1) % 3 ? fill : B(ADD, X(0), X(0))); r.push_back(i == w ? U(EXP, X(1)) : i == (w + 1) % 3 ? C(-8) : X(3)); }
    for (size_t n = w + 1; n <= 3; ++n) { std::vector<P> kn(k.begin(), k.begin() + n), rn(r.begin(), r.begin() + n); std::vector<expr> ke, re; for (auto& q : kn) ke.push_back(eq(q, pa) ? e : build(q)); for (auto& q : rn) re.push_back(build(q));
      run(s + " whole as pattern " + std::to_string(w) + " of " + std::to_string(n), [&] { return vm::substitute(ke, re, e); }, subst(pa, kn, rn)); }
  }
  run(s + " symbol := x2*x2", [&] { std::vector<expr> k{expr(function_symbol(0)), expr(variable(0))}, w{build(B(MUL, X(2), X(2))), build(C(5))}; return vm::substitute(k, w, e); }, subst(pa, {F(0), X(0)}, {B(MUL, X(2), X(2)), C(5)}));
  run(s + " simplified", [&] { return vm::simplify(e); }, pa); run(s + " simplified in place", [&] { expr f(e); vm::inplace_simplify(f); return f; }, pa);
  run(s + " norm", [&] { return expr(v * v); }, dot(a, a));
  // whole-vector histories
  run(s + " history", [&] { V w = v * 2.0; w = w + v; w = w / 3.0; V z(w); w[0] = expr(variable(5)); z = z - v; return z; }, mkv(map1(a, [&](P const& c) { return B(SUB, B(DIV, B(ADD, B(MUL, c, C(2)), c), C(3)), c); })));
  if (!eq(rd(v), pa)) vr::fail(s, "operand changed"); if (!eq(read(e), pa)) vr::fail(s, "handle changed");
  if (!deq(e, expr(v)) || !e.get()->deep_equal(&v)) vr::fail(s, "differs from its copy");
}
static P der(P const& e, unsigned long v) {
  switch (e->k) { case CONST: return C(0); case VAR: return C(e->id == v); case ADD: case SUB: return B(e->k, der(e->ch[0], v), der(e->ch[1], v)); case MUL: return B(ADD, B(MUL, der(e->ch[0], v), e->ch[1]), B(MUL, e->ch[0], der(e->ch[1], v)));
    case DIV: return B(DIV, B(SUB, B(MUL, der(e->ch[0], v), e->ch[1]), B(MUL, e->ch[0], der(e->ch[1], v))), B(MUL, e->ch[1], e->ch[1]));
    case SIN: return B(MUL, U(COS, e->ch[0]), der(e->ch[0], v)); case EXP: return B(MUL, e, der(e->ch[0], v)); default: abort(); }
}
template <class Fn> void tuples(std::vector<P> const& c, size_t n, Fn fn) { std::vector<size_t> i(n, 0); for (;;) { PV v; for (size_t k : i) v.push_back(c[k]); fn(v); size_t k = 0; while (k < n && ++i[k] == c.size()) i[k++] = 0; if (k == n) return; } }
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  std::vector<P> c1{X(0), C(2), F(0), B(MUL, X(0), X(1)), U(SIN, X(1)), B(ADD, F(0, 1), X(2)), C(0), U(EXP, B(MUL, C(2), X(0)))}, c2{X(0), C(3), B(SUB, X(1), C(1))}, sc{C(2), C(-1), C(0.5), X(0), X(2), F(0), F(1, 1), B(ADD, X(0), C(3)), U(EXP, X(1)), B(MUL, F(0), X(1))};
  for (auto& p : c1) sc.push_back(p);
  for (size_t n = 1; n <= 4; ++n) { tuples(n <= (T ? 4u : 3u) ? c1 : c2, n, [&](PV const& a) { single(a); for (size_t j = 0; j < sc.size(); ++j) if (n <= 2 || T || j < 10) scale(a, sc[j]); }); }
  for (size_t n = 1; n <= 3; ++n) { std::vector<P> c5(c1.begin(), c1.begin() + 5); auto& c = n <= 2 || T ? c1 : c5; tuples(c, n, [&](PV const& a) { tuples(c, n, [&](PV const& d) { pair(a, d); }); }); }
  if (T) tuples(c2, 4, [&](PV const& a) { tuples(c2, 4, [&](PV const& d) { pair(a, d); }); });
  std::vector<size_t> lens; for (size_t n = 5; n <= (T ? 200u : 60u); ++n) lens.push_back(n);
  for (size_t n : {64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1024}) if (n > lens.back()) lens.push_back(n);
  for (size_t n : lens) { PV a, d; for (size_t i = 0; i < n; ++i) { a.push_back(B(MUL, X(i % 3), C(i + 1))); d.push_back(B(ADD, X((i + 1) % 3), C(0.5 * i))); } single(a, true); scale(a, X(1)); scale(a, C(2)); pair(a, d); pair(a, a);
    if (n <= 24) for (size_t k = 0; k < n; ++k) { PV e = a; e[k] = B(MUL, X(k % 3), C(k + 1.5)); pair(a, e); pair(e, a); } }
  // lengths differ: never equal
  for (size_t n = 1; n <= 12; ++n) for (size_t k = 1; k <= 12; ++k) { if (n == k || !vr::mine()) continue; PV a(n, X(0)), d(k, X(0)); V u = bv(a), w = bv(d); ++vr::states; ++vr::transitions; if (deq(expr(u), expr(w))) vr::fail("vectors of length " + std::to_string(n) + " and " + std::to_string(k), "compare equal"); }
  vr::counters["undecided"] = undecided(); return vr::finish();
}
