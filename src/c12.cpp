// C12: constant expressions are recognised and unwrap to their value.
#include "build.hpp"
using namespace m; using namespace b;
static bool arith_const(P const& p) { if (p->k == CONST) return true; if (!is_bin(p->k)) return false; return arith_const(p->ch[0]) && arith_const(p->ch[1]); }
static bool plain(P const& p) { return !contains(p, [](P const& n) { return n->k == VAR || n->k == FS || n->k == SYMINT || n->k == INTEG || n->k == VEC || n->k == GRAD || n->k == DIVG || n->k == PD; }); }
static void one(std::string const& key, If const* e, P const& p) {
  ++vr::transitions; ++vr::validated;
  bool rep = e->is_constant(), dep = has_var(p) || has_kind(p, FS);
  if (rep && dep) vr::fail("constant " + key, "contains a variable or function symbol but reports itself constant");
  if (!rep && arith_const(p)) vr::fail("not constant " + key, "an arithmetic combination of constants does not report itself constant");
  if (plain(p)) {
    ++vr::nontrivial; double want = ieee(p, {}), u, v0, v1, v2;
    try { u = e->unwrap(); v0 = e->eval(0.0); v1 = e->eval(3.7); v2 = e->eval(std::vector<double>{1.5, -2.0}); } catch (std::exception const& ex) { vr::fail("unwrap " + key, std::string("raises ") + ex.what()); return; }
    if (!same_ieee(u, want)) vr::fail("unwrap " + key, "gives " + num(u) + " instead of " + num(want));
    if (!same_ieee(u, v0) || !same_ieee(u, v1) || !same_ieee(u, v2)) vr::fail("eval " + key, "unwrap gives " + num(u) + ", evaluation " + num(v0) + ", " + num(v1) + ", " + num(v2));
  }
}
static void handle(P const& p, int nat) {
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s);
  expr e = build(p); one(s, e.get(), p); expr c = e; one("copy " + s, c.get(), p); std::unique_ptr<If> cl(e.get()->clone()); one("clone " + s, cl.get(), p);
  for (unsigned long w = 0; w < (unsigned long)nat; ++w) { Choice ch{w * 0x1e37ul + w, 0}; Obj o = natural(p, ch); if (o.t == TD) continue;
    with(o, [&](auto const& x) { if constexpr (std::is_base_of<If, std::decay_t<decltype(x)>>::value) one(s + " types " + std::to_string(w), &x, p); else if constexpr (std::is_same<std::decay_t<decltype(x)>, expr>::value) one(s + " types " + std::to_string(w), x.get(), p); }); }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  { Alphabet al{{C(2), C(-1.5), C(0), C(1), C(0.3), X(0), X(1), F(0), F(0, 1)}, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(2, [](P const& p) { handle(p, 3); }); }
  { Alphabet al{{C(2), C(0.7), X(1)}, {SIN, EXP, LOG}, ALLBIN}; Enum en(al, 2); en.each_exact(3, [](P const& p) { handle(p, 0); }); }
  { Alphabet al{{C(2), C(-0.7)}, {}, ALLBIN}; Enum en(al, 3); en.each_exact(3, [](P const& p) { handle(p, 1); }); en.each_exact(4, [](P const& p) { handle(p, 0); }); }
  if (T) { Alphabet al{{C(2), X(0)}, {SIN}, ALLBIN}; Enum en(al, 3); en.each_exact(4, [](P const& p) { handle(p, 0); }); }
  { std::vector<Kind> ops = ALLBIN; ops.insert(ops.end(), ALLFUN.begin(), ALLFUN.end()); combs(T ? 5 : 4, ops, {C(1.25), C(-3), C(0.5)}, C(2), [](P const& p) { handle(p, 0); }); combs(3, ops, {X(3), C(-3)}, C(2), [](P const& p) { handle(p, 0); }); combs(T ? 10 : 8, ALLBIN, {C(1.25), C(-3), C(0.5)}, C(2), [](P const& p) { handle(p, 0); }); }
  std::vector<double> cs; for (int i = -300; i <= 300; ++i) { cs.push_back(i); cs.push_back(i * 0.37 + 0.01); } for (double d : {1e-300, 1e300, 1e-9, 1e9, 1e16, 9007199254740993.0, 0.1, -0.0, 4294967296.0, 1.0 / 3}) cs.push_back(d);
  for (double d : cs) { handle(C(d), 3); for (Kind f : ALLFUN) handle(U(f, C(d)), 2); for (Kind k : ALLBIN) for (double d2 : {2.0, 0.1, -3.7, 1e8}) { handle(B(k, C(d), C(d2)), 1); handle(B(k, C(d2), C(d)), 1); handle(B(k, C(d), X(7)), 1); } }
  // other nodes: never constant while something variable is inside
  for (P a : {X(0), F(0), C(2), B(ADD, X(1), C(1)), B(MUL, F(1, 1), C(2)), U(SIN, F(0))}) {
    std::vector<P> sp{mk(SYMINT, 0, 1, 0, {a}), mk(INTEG, 0, 0, 0, {a, C(0), C(1)}), mk(INTEG, 0, 0, 0, {C(1), a, C(1)}), mk(INTEG, 0, 0, 0, {C(1), C(0), a}), U(GRAD, a), U(DIVG, a), mk(PD, 0, 0, 0, {a}), mk(VEC, 0, 0, 0, {a}), mk(VEC, 0, 0, 0, {C(1), a}), mk(VEC, 0, 0, 0, {a, C(1)}), mk(VEC, 0, 0, 0, {C(1), C(2), a})};
    for (P q : sp) { handle(q, 0); for (Kind k : ALLBIN) { handle(B(k, q, C(2)), 0); handle(B(k, C(2), q), 0); handle(B(k, B(ADD, C(1), q), C(3)), 0); } if (q->k != VEC) handle(U(EXP, q), 0); } }
  lookalikes(C(7), C(0.75), [](P const& p) { handle(p, 0); }); lookalikes(X(0), C(3), [](P const& p) { handle(p, 0); });
  pumped(C(0.75), C(7), {SIN, FABS, SQRT}, {6, 12, 33}, T ? 12 : 6, [](P const& p) { handle(p, 0); }); pumped(X(0), C(7), {SIN, FABS}, {6, 33}, 0, [](P const& p) { handle(p, 0); });
  return vr::finish();
}
