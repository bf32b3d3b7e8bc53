// C31: differentiation by a function symbol is the Gateaux derivative.
#include "build.hpp"
using namespace m; using namespace b;
static const std::vector<P> S{F(0, 0), F(1, 0), F(0, 1), F(1, 1), F(2, 7)};   // symbols
static unsigned long vid(P const& f) { for (size_t i = 0; i < S.size(); ++i) if (eq(S[i], f)) return 3 + i; return 8 + f->id * 13 + f->tag; }
static P asvar(P const& p) { if (p->k == FS) return X(vid(p)); if (p->ch.empty()) return p; std::vector<P> c; for (auto& x : p->ch) c.push_back(asvar(x)); return mk(p->k, p->c, p->id, p->tag, c); }
static const std::vector<std::vector<double>> PT{{0.6, 1.7, -0.4, 1.2, 0.8, 2.1, -0.7, 0.35}, {2.3, 0.45, 1.1, -0.9, 1.6, 0.25, 1.9, -1.4}, {-1.25, 0.8, 3.0, 0.7, -2.2, 1.1, 0.15, 2.6}, {1, 1, 1, 1, 1, 1, 1, 1}, {0.3, -0.2, 0.9, 2.7, 3.1, -1.3, 0.5, 1.8}};
static function_symbol sym(P const& f) { return function_symbol(f->id, f->tag); }
static void check(std::string const& key, expr const& d, std::vector<std::vector<double>> const& pts, std::function<E(std::vector<double> const&)> ref, bool api) {
  P g; try { g = read(d); } catch (std::exception const& x) { vr::fail(key, x.what()); return; } P gv = asvar(g);
  for (auto& x : pts) {
    E r = ref(x); ++vr::transitions; ++vr::validated; if (!informative(r)) continue; ++vr::nontrivial; double q = ieee(gv, x);
    if (!agrees(q, r)) { vr::fail(key, "is " + str(g) + ", value " + num(q) + " instead of " + num(r.v)); return; }
    if (api) { // the same through the library: replace the symbols by numbers, then evaluate
      std::vector<expr> a, w; for (size_t i = 0; i < S.size(); ++i) { a.push_back(expr(sym(S[i]))); w.push_back(expr(x[3 + i])); }
      try { double v = vm::substitute(a, w, d)(x); if (!agrees(v, r)) vr::fail(key + " with numbers for the symbols", "value " + num(v) + " instead of " + num(r.v)); } catch (std::exception const& ex) { vr::fail(key + " with numbers for the symbols", std::string("raises ") + ex.what()); } }
  }
}
template <class T> static expr dd(T const& t, function_symbol const& f) { return expr(vm::diff(t, f)); }
static void handle(P const& p, bool all) {
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s); expr e = build(p); P pv = asvar(p);
  for (size_t i = 0; i < S.size(); ++i) {
    std::string key = s + " d/d" + str(S[i]); function_symbol f = sym(S[i]); bool fabs_in = has_kind(p, FABS);
    auto ref = [&](std::vector<double> const& x) { E v = at(pv, x); E d = d1(pv, x, vid(S[i])); if (!v.ok) d.ok = false; return d; };
    try {
      expr d = vm::diff(e, f); check(key, d, PT, ref, all && i < 3);
      if (!all && i > 1) continue;
      expr raw(static_cast<If const*>(e.get()->diff(&f))); check(key + " (node)", raw, PT, ref, false);
      if (auto q = dynamic_cast<vm::binary_expr const*>(e.get())) check(key + " (binary)", dd(*q, f), PT, ref, false);
      if (auto q = dynamic_cast<vm::unary_expr const*>(e.get())) check(key + " (unary)", dd(*q, f), PT, ref, false);
      if (auto q = dynamic_cast<function_symbol const*>(e.get())) check(key + " (symbol)", dd(*q, f), PT, ref, false);
      for (unsigned long w = 1; w <= 2; ++w) { Choice ch{w * 0x9e37ul + w, 0}; Obj o = natural(p, ch); with(o, [&](auto const& x) { typedef std::decay_t<decltype(x)> Ty; if constexpr (std::is_same<Ty, vm::binary_expr>::value || std::is_same<Ty, vm::unary_expr>::value || std::is_same<Ty, expr>::value || std::is_same<Ty, function_symbol>::value) check(key + " operand types " + std::to_string(w), dd(x, f), PT, ref, false); }); }
      if (all) for (size_t j = 0; j < 3; ++j) { expr h = vm::diff(d, sym(S[j])); check(key + " d/d" + str(S[j]), h, PT, [&](std::vector<double> const& x) { E r = d2(pv, x, vid(S[i]), vid(S[j])); if (!at(pv, x).ok || !d1(pv, x, vid(S[i])).ok) r.ok = false; return r; }, false); }
    } catch (vm::expression_not_differentiable_exception const& x) { if (!fabs_in) vr::fail(key, std::string("raises ") + x.what()); }
    catch (std::exception const& x) { vr::fail(key, std::string("raises ") + x.what()); }
  }
  if (!eq(read(e), p)) vr::fail(s, "operand changed");
}
// linearity in the direction: forms a(u) with other symbols; wide ids and families
static void wide(P const& p, P const& by) {
  if (!vr::mine()) return; std::string s = str(p) + " d/d" + str(by); vr::cur(s); ++vr::states; P pv = asvar(p), bv = asvar(by); std::vector<double> x(std::max(max_var(pv), max_var(bv)) + 2); for (size_t i = 0; i < x.size(); ++i) x[i] = 0.4 + 0.013 * i;
  try { check("wide " + s, vm::diff(build(p), sym(by)), {x}, [&](std::vector<double> const& y) { return d1(pv, y, bv->id); }, false); } catch (std::exception const& ex) { vr::fail("wide " + s, ex.what()); }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  { Alphabet al{{S[0], S[1], S[2], X(0), C(2), C(0)}, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(1, [](P const& p) { handle(p, true); }); en.each_exact(2, [&](P const& p) { handle(p, T); }); }
  { Alphabet al{{S[0], S[2], C(3)}, {SIN, SQRT}, ALLBIN}; Enum en(al, 2); en.each_exact(3, [](P const& p) { handle(p, false); }); }
  { std::vector<Kind> ops = ALLBIN; ops.insert(ops.end(), ALLFUN.begin(), ALLFUN.end()); combs(T ? 4 : 3, ops, {S[1], X(1), C(2)}, S[0], [](P const& p) { handle(p, false); }); combs(T ? 7 : 5, {MUL, DIV, SIN, EXP}, {S[2], C(0.75), B(MUL, S[0], X(0))}, S[0], [](P const& p) { handle(p, false); }); }
  for (unsigned long i = 0; i < 24; ++i) for (unsigned long t = 0; t < 12; ++t) for (unsigned long j = 0; j < 24; ++j) { if (j != i && j % 5) continue; for (unsigned long q = 0; q < 12; ++q) { if (q != t && q % 3) continue; P a = F(i, t), c = F(j, q); wide(B(ADD, B(MUL, a, a), B(MUL, c, X(0))), a); wide(B(MUL, U(SIN, a), c), c); } }
  lookalikes(S[0], S[1], [](P const& p) { handle(p, false); }); lookalikes(X(0), S[0], [](P const& p) { handle(p, false); });
  pumped(S[0], X(0), {SIN, EXP}, {5, 9}, 0, [](P const& p) { handle(p, false); });
  
  for (unsigned long i : {0ul, 1ul, 127ul, 128ul, 255ul, 256ul, 257ul, 32768ul, 65535ul, 65536ul, 65537ul}) for (unsigned long j : {0ul, 1ul, 128ul, 256ul, 257ul, 65536ul, 65537ul}) for (int t = 0; t < 2; ++t) wide(B(MUL, F(i), B(ADD, F(j, t), F(i, 1))), F(j, t));
  return vr::finish();
}
