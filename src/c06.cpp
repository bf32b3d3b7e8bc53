// C06: substituting an expression for a variable composes functions.
#include <algorithm>
#include "build.hpp"
using namespace m; using namespace b;
static void verify(std::string const& key, expr const& r, P const& want) {
  for (auto& x : PTS) { ++vr::transitions; ++vr::validated; E ref = at(want, x); if (!informative(ref)) continue; ++vr::nontrivial;
    double g = r(x); if (!agrees(g, ref)) { vr::fail(key, "value " + num(g) + " instead of " + num(ref.v) + " (composition " + str(want) + ") at (" + num(x[0]) + "," + num(x[1]) + "," + num(x[2]) + ")"); return; } }
}
static std::vector<P> reps() {
  return {C(0), C(1), C(-2), C(2.5), X(0), X(1), X(2), B(ADD, X(0), C(1)), B(MUL, X(0), X(1)), B(SUB, X(1), X(0)), U(SIN, X(0)), U(EXP, X(1)), B(DIV, X(2), B(ADD, X(0), C(4))), B(MUL, U(SIN, X(0)), U(COS, X(0)))};
}
static bool two_ops(P const& p) { return p->ops <= 1; }
static void handle(P const& p, std::vector<P> const& R, bool forms) {
  if (!vr::mine()) return;
  std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s);
  expr e = build(p);
  for (unsigned long i = 0; i < 3; ++i) for (P const& r : R) {
    P want = subst(p, {X(i)}, {r}); std::string key = s + " [x" + std::to_string(i) + ":=" + str(r) + "]"; vr::cur(key);
    variable v(i); expr re = build(r);
    try {
      verify(key, vm::substitute(v, re, e), want);
      expr raw(e.get()->substitute(&v, re.get())); verify("raw " + key, raw, want);
      expr hv(v); verify("handle " + key, vm::substitute(hv, re, e), want);
      std::vector<expr> sv(1, hv), rv(1, re); verify("list " + key, vm::substitute(sv, rv, e), want);
      if (forms) {
        if (r->k == CONST) { verify("number " + key, vm::substitute(v, r->c, e), want); constant c(r->c); verify("constant " + key, vm::substitute(v, c, e), want);
          if (r->c == 1) verify("ct_constant " + key, vm::substitute(v, vm::ct_constant<1>(), e), want);
          if (r->c == -2) { verify("ct_constant " + key, vm::substitute(v, vm::ct_constant<-2>(), e), want); verify("int " + key, vm::substitute(v, -2, e), want); } }
        if (r->k == VAR) { variable rv2(r->id); verify("variable " + key, vm::substitute(v, rv2, e), want);
          if (r->id == 1) verify("ct_variable " + key, vm::substitute(v, vm::ct_variable<1>(), e), want); if (r->id == 0) verify("ct_variable " + key, vm::substitute(v, vm::ct_variable<0>(), e), want); }
        if (eq(r, B(ADD, X(0), C(1)))) verify("ct_expr " + key, vm::substitute(v, vm::ct_variable<0>() + vm::ct_constant<1>(), e), want);
        if (eq(r, B(MUL, X(0), X(1)))) verify("ct_expr " + key, vm::substitute(v, vm::ct_variable<0>() * vm::ct_variable<1>(), e), want);
        if (is_bin(r->k) || is_fun(r->k)) { Choice ch{1, 0}; Obj o = natural(r, ch);
          if (o.t == TB) verify("binary replacement " + key, vm::substitute(v, *o.be, e), want); if (o.t == TU) verify("unary replacement " + key, vm::substitute(v, *o.ue, e), want); }
        Choice ch{0x5a5a5, 0}; Obj o = natural(p, ch);
        if (o.t == TB) { verify("into binary " + key, vm::substitute(v, re, *o.be), want); if (r->k == CONST) verify("number into binary " + key, vm::substitute(v, r->c, *o.be), want); }
        if (o.t == TU) { verify("into unary " + key, vm::substitute(v, re, *o.ue), want); if (r->k == CONST) verify("number into unary " + key, vm::substitute(v, r->c, *o.ue), want); }
      }
    } catch (std::exception const& ex) { vr::fail(key, std::string("unexpected exception ") + ex.what()); }
  }
  // simultaneous substitution of two variables
  if (two_ops(p) || p->ops == 2) for (P const& r0 : R) for (P const& r1 : {X(0), B(ADD, X(0), X(1)), C(3)}) {
    std::vector<expr> sv{expr(variable(0)), expr(variable(1))}, rv{build(r0), build(r1)};
    P want = subst(p, {X(0), X(1)}, {r0, r1}); verify("both " + s + " [" + str(r0) + "," + str(r1) + "]", vm::substitute(sv, rv, e), want);
  }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough; auto R = reps();
  { Alphabet al{{X(0), X(1), X(2), C(2), C(0), C(1)}, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(1, [&](P const& p) { handle(p, R, true); }); }
  { Alphabet al{{X(0), X(1), C(2)}, {SIN, LOG, FABS}, ALLBIN}; Enum en(al, 1); en.each_exact(2, [&](P const& p) { handle(p, R, true); }); }
  if (T) { Alphabet al{{X(0), X(1), C(2)}, {SIN}, ALLBIN}; Enum en(al, 2); en.each_exact(3, [&](P const& p) { handle(p, R, false); }); }
  if (T) { Alphabet al{{X(0), X(1), X(2), C(2), C(0), C(1)}, ALLFUN, ALLBIN}; Enum en(al, 1); en.each_exact(2, [&](P const& p) { handle(p, R, false); }); }
  std::vector<P> few{C(2), X(1), B(ADD, X(0), C(1)), U(SIN, X(0))};
  std::vector<Kind> ops = ALLBIN; ops.push_back(SIN); ops.push_back(EXP);
  combs(T ? 6 : 4, ops, {X(1), C(2), X(0), U(COS, X(0))}, X(0), [&](P const& p) { handle(p, few, false); });
  // wide: ids and constants
  for (unsigned long i = 0; i < 40; ++i) for (unsigned long j = 0; j < 40; ++j) {
    if (!vr::mine()) continue; ++vr::states;
    P p = B(ADD, B(MUL, X(i), C(3)), B(DIV, X(j), C(7))); std::vector<double> x; for (int k = 0; k < 42; ++k) x.push_back(0.31 + k * 1.7);
    expr e = build(p);
    for (unsigned long k : {i, j, (i + 1) % 40}) { P w = subst(p, {X(k)}, {U(SIN, X(41))}); expr r = vm::substitute(variable(k), build(U(SIN, X(41))), e); ++vr::transitions; ++vr::validated;
      if (!agrees(r(x), at(w, x))) vr::fail("wide " + str(p) + " [x" + std::to_string(k) + "]", "value " + num(r(x)) + " instead of " + num(at(w, x).v)); }
  }
  // identifiers which agree in their low bits
  for (unsigned long i = 0; i < 4; ++i) for (unsigned long d : {16ul, 32ul, 64ul, 128ul, 255ul, 256ul, 257ul, 512ul, 1024ul, 4096ul, 32768ul, 65535ul, 65536ul}) {
    if (!vr::mine()) continue; ++vr::states; static std::vector<double> x; if (x.empty()) for (int k = 0; k < 65544; ++k) x.push_back(0.31 + (k % 977) * 1.7 + k * 0.001);
    unsigned long j = i + d; P p = B(ADD, B(MUL, X(i), C(3)), B(DIV, X(j), B(ADD, X(i), C(7)))); expr e = build(p);
    for (unsigned long k : {i, j}) for (P r : {C(5), X(k == i ? j : i), B(MUL, X(5), X(k))}) { P w = subst(p, {X(k)}, {r}); expr s = vm::substitute(variable(k), build(r), e); ++vr::transitions; ++vr::validated; ++vr::nontrivial;
      if (!agrees(s(x), at(w, x))) vr::fail("ids " + str(p) + " [x" + std::to_string(k) + " -> " + str(r) + "]", "value " + num(s(x)) + " instead of " + num(at(w, x).v)); }
  }
  for (int i = -60; i <= 60; ++i) { P c = C(i * 0.5); handle(B(SUB, X(0), C(1.25)), {c}, true); handle(B(MUL, c, X(0)), {X(1), C(4)}, true); }
  lookalikes(X(0), X(1), [&](P const& p) { handle(p, few, false); });
  { std::vector<P> one{B(ADD, X(1), X(0))}; pumped(X(0), X(1), {SIN, FABS}, {6, 17, 33}, T ? 12 : 6, [&](P const& p) { handle(p, one, false); }); }
  // long lists: every order of up to five variables; rotations, reversals and transpositions of longer lists
  for (int n = 3; n <= (T ? 14 : 11); ++n) {
    std::vector<std::vector<int>> orders; std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i;
    if (n <= (T ? 6 : 5)) { std::vector<int> q = id; do orders.push_back(q); while (std::next_permutation(q.begin(), q.end())); }
    else { for (int r = 0; r < n; ++r) { std::vector<int> q = id; std::rotate(q.begin(), q.begin() + r, q.end()); orders.push_back(q); std::reverse(q.begin(), q.end()); orders.push_back(q); }
      for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { std::vector<int> q = id; std::swap(q[i], q[j]); orders.push_back(q); } }
    P p = C(0.5); for (int i = 0; i < n + 2; ++i) p = B(i % 2 ? SUB : ADD, B(MUL, X(i), C(1.0 + 0.37 * i)), i % 3 ? p : U(SIN, p)); expr e = build(p);
    std::vector<double> x; for (int k = 0; k < n + 4; ++k) x.push_back(0.31 + k * 0.17);
    for (auto& q : orders) { if (!vr::mine()) continue; ++vr::states;
      for (int kind = 0; kind < 3; ++kind) {
        std::vector<expr> sv, rv; std::vector<P> sp, rp; std::string key = "list of";
        for (int i : q) { P r = kind == 0 ? C(10.0 + i) : kind == 1 ? X((i + 1) % n) : B(MUL, X(n + 2), B(ADD, X(i), C(i))); sv.push_back(expr(variable(i))); rv.push_back(build(r)); sp.push_back(X(i)); rp.push_back(r); key += " x" + std::to_string(i); }
        vr::cur(key); P w = subst(p, sp, rp); expr r = vm::substitute(sv, rv, e); ++vr::transitions; ++vr::validated; ++vr::nontrivial; double g = r(x);
        if (!agrees(g, at(w, x))) vr::fail(key + " kind " + std::to_string(kind), "value " + num(g) + " instead of " + num(at(w, x).v)); } } }
  return vr::finish();
}
