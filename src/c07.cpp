// C07: substitution replaces exactly the maximal structural matches; lists are simultaneous, first match wins.
#include <algorithm>
#include "build.hpp"
using namespace m; using namespace b;
static void subs(P const& p, std::vector<P>& out) { for (auto& q : out) if (eq(q, p)) goto rec; out.push_back(p); rec: if (p->k == INTEG) { subs(p->ch[0], out); return; } for (auto& c : p->ch) subs(c, out); }
static void chk(std::string const& key, expr const& got, P const& want, bool simplified) {
  ++vr::transitions; ++vr::validated; expr w = build(want); if (simplified) w = vm::simplify(w);
  std::string gs = got.get()->deep_str(), ws = w.get()->deep_str(); if (gs.find("nan") != std::string::npos && ws.find("nan") != std::string::npos) return;
  if (!deq(got, w) || !deq(w, got) || gs != ws) vr::fail(key, "gives " + got.get()->deep_str() + " instead of " + w.get()->deep_str());
}
static void single(P const& p, expr const& e, P const& pat, P const& rep, bool all) {
  P want = subst(p, {pat}, {rep}); std::string key = str(p) + " [" + str(pat) + " -> " + str(rep) + "]"; vr::cur(key);
  if (!eq(want, p)) ++vr::nontrivial;
  expr pe = build(pat), re = build(rep);
  try {
    chk("raw " + key, expr(e.get()->substitute(pe.get(), re.get())), want, false);
    chk(key, vm::substitute(pe, re, e), want, true);
    if (!all) return;
    std::vector<expr> sv{pe}, rv{re}; chk("list " + key, vm::substitute(sv, rv, e), want, true);
    auto* be = dynamic_cast<vm::binary_expr const*>(pe.get()); auto* ue = dynamic_cast<vm::unary_expr const*>(pe.get());
    if (be) { chk("binary pattern " + key, vm::substitute(*be, re, e), want, true); if (rep->k == CONST) { constant c(rep->c); chk("binary pattern, constant " + key, vm::substitute(*be, c, e), want, true); chk("binary pattern, number " + key, vm::substitute(*be, rep->c, e), want, true); } }
    if (ue) { chk("unary pattern " + key, vm::substitute(*ue, re, e), want, true); if (rep->k == CONST) { constant c(rep->c); chk("unary pattern, constant " + key, vm::substitute(*ue, c, e), want, true); } if (rep->k == VAR) { variable v(rep->id); chk("unary pattern, variable " + key, vm::substitute(*ue, v, e), want, true); } }
    if (pat->k == FS) { function_symbol f(pat->id, pat->tag); chk("symbol pattern " + key, vm::substitute(f, re, e), want, true); if (rep->k == CONST) chk("symbol pattern, number " + key, vm::substitute(f, rep->c, e), want, true); }
    if (pat->k == VAR) { variable v(pat->id); chk("variable pattern " + key, vm::substitute(v, re, e), want, true); }
  } catch (std::exception const& ex) { vr::fail(key, std::string("unexpected exception ") + ex.what()); }
}
static void list(P const& p, expr const& e, std::vector<P> const& pat, std::vector<P> const& rep) {
  P want = subst(p, pat, rep); std::string key = str(p) + " ["; for (size_t i = 0; i < pat.size(); ++i) key += str(pat[i]) + "->" + str(rep[i]) + " "; key += "]"; vr::cur(key);
  std::vector<expr> sv, rv; std::vector<If const*> ps, pr; for (auto& q : pat) sv.push_back(build(q)); for (auto& q : rep) rv.push_back(build(q));
  for (auto& q : sv) ps.push_back(q.get()); for (auto& q : rv) pr.push_back(q.get());
  chk("raw list " + key, expr(e.get()->substitute(ps, pr)), want, false);
  chk("list " + key, vm::substitute(sv, rv, e), want, true);
}
static std::vector<P> EXTRA, REP;
static void handle(P const& p, int lists, bool all) {
  if (!vr::mine()) return;
  std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s);
  expr e = build(p); std::vector<P> pats; subs(p, pats); size_t own = pats.size();
  for (auto& q : EXTRA) { bool dup = false; for (auto& o : pats) if (eq(o, q)) dup = true; if (!dup) pats.push_back(q); }
  for (auto& q : pats) for (auto& r : REP) single(p, e, q, r, all);
  if (!lists) return;
  P r1 = U(COS, pats[0]);
  for (size_t i = 0; i < pats.size(); ++i) for (size_t j = 0; j < own; ++j) {
    list(p, e, {pats[i], pats[j]}, {pats[j], pats[i]});                 // swap: simultaneous
    list(p, e, {pats[i], pats[j]}, {C(17), X(4)});                      // first match wins
    list(p, e, {pats[i], pats[j]}, {U(SIN, pats[j]), B(ADD, pats[i], C(5))});
    if (lists > 1) for (size_t k = 0; k < own; ++k) list(p, e, {pats[i], pats[j], pats[k]}, {pats[j], pats[k], pats[i]});
  }
  list(p, e, {}, {});
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  REP = {C(5), X(3), B(ADD, X(0), C(1))};
  EXTRA = {X(0), X(1), X(2), C(2), C(3), F(0), F(1), F(0, 1), B(ADD, X(0), X(1)), B(ADD, X(1), X(0)), B(SUB, X(0), X(1)), B(MUL, X(0), C(2)), U(SIN, X(0)), U(SIN, X(1)), U(EXP, X(0)), U(GRAD, F(0)), U(DIVG, F(0))};
  auto all = [&](P const& p) { handle(p, 1, true); };
  { Alphabet al{{X(0), X(1), C(2), F(0), F(0, 1)}, {SIN, EXP}, ALLBIN}; Enum en(al, 1); en.upto(1, [&](P const& p) { handle(p, 2, true); }); }
  { Alphabet al{{X(0), X(1), C(2)}, {SIN}, {ADD, SUB, MUL, DIV}}; Enum en(al, 1); en.each_exact(2, all); }
  { Alphabet al{{X(0), C(2)}, {EXP}, {ADD, MUL}}; Enum en(al, 2); en.each_exact(3, [&](P const& p) { handle(p, T ? 2 : 0, T); }); }
  if (T) { Alphabet al{{X(0), X(1), C(2), F(0), F(0, 1), F(1)}, {SIN, EXP, LOG}, ALLBIN}; Enum en(al, 1); en.each_exact(2, all); }
  // symbols, differential operators, integrals, vectors
  std::vector<P> special; P u = F(0), v = F(0, 1);
  for (P q : {U(GRAD, u), U(GRAD, v), U(DIVG, u), mk(PD, 0, 0, 0, {u}), mk(PD, 0, 1, 0, {u})}) { special.push_back(q); special.push_back(B(MUL, q, v)); special.push_back(B(ADD, B(MUL, q, q), u)); special.push_back(B(MUL, X(0), q)); }
  for (P q : {B(MUL, u, v), B(ADD, U(SIN, X(0)), X(1)), B(MUL, X(0), C(2))}) {
    P si = mk(SYMINT, 0, 0, 0, {q}), s2 = mk(SYMINT, 0, 3, 0, {q}), in = mk(INTEG, 0, 0, 0, {q, C(0), C(2)});
    for (P w : {si, s2, in}) { special.push_back(w); special.push_back(B(ADD, w, q)); special.push_back(B(MUL, C(2), w)); special.push_back(B(SUB, w, w)); }
    for (P w : {si, s2, in}) EXTRA.push_back(w);
  }
  for (P const& p : special) handle(p, 1, true);
  // deep formulas, patterns at the bottom and repeated
  std::vector<Kind> ops{ADD, MUL, SIN, SUB};
  EXTRA = {X(0), B(ADD, X(0), X(1)), U(SIN, X(0)), B(SUB, X(1), X(0))};
  combs(T ? 6 : 4, ops, {X(1), B(ADD, X(0), X(1)), X(0)}, X(0), [&](P const& p) { handle(p, T ? 1 : 0, false); });
  // long lists
  for (int n : {5, 12, 40}) { if (!vr::mine()) continue; ++vr::states; P s = C(0); std::vector<P> pat, rep; for (int i = 0; i < n; ++i) { s = B(i % 2 ? MUL : ADD, s, B(ADD, X(i), C(i))); pat.push_back(X(i)); rep.push_back(X((i + 1) % n)); } list(s, build(s), pat, rep); }
  for (int i = -30; i <= 30; ++i) { P c = C(i * 0.25); REP = {C(5)}; EXTRA = {C(i * 0.25 + 1e-9), C(-i * 0.25), C(i * 0.25 + 1)}; handle(B(ADD, B(MUL, c, X(0)), c), 1, true); }
  for (unsigned long i = 0; i < 300; i += 7) { EXTRA = {X(i + 1), X(i + 256), F(i), F(i, 1), F(i, 2), F(i, 3), F(i + 1)}; handle(B(ADD, X(i), F(i, 1)), 1, true); handle(B(MUL, F(i), F(i, 2)), 1, true); }
  lookalikes(X(0), X(1), [&](P const& p) { handle(p, 0, false); });
  pumped(X(0), X(1), {SIN, EXP}, {6, 12}, 0, [&](P const& p) { if (p->ops < 60) handle(p, 0, false); });
  // long lists of patterns: all orders of five, rotations of all; a pattern twice
  { std::vector<P> pool{X(0), B(ADD, X(0), X(1)), U(SIN, X(0)), C(2), B(MUL, X(0), C(2)), X(1), U(SIN, B(ADD, X(0), X(1))), B(SUB, X(1), X(0)), F(0), U(GRAD, F(0)), C(3), B(DIV, C(2), X(0))};
    P p = B(ADD, B(MUL, U(SIN, B(ADD, X(0), X(1))), B(MUL, X(0), C(2))), B(SUB, B(DIV, C(2), X(0)), B(ADD, U(SIN, X(0)), B(MUL, C(3), B(ADD, F(0), B(ADD, U(GRAD, F(0)), B(SUB, X(1), X(0))))))));
    expr e = build(p); auto go = [&](std::vector<P> const& q) { if (!vr::mine()) return; ++vr::states; std::string s = "patterns"; for (auto& a : q) s += " " + str(a); vr::cur(s);
      std::vector<P> r1, r2; for (size_t i = 0; i < q.size(); ++i) { r1.push_back(C(100.0 + i)); r2.push_back(B(ADD, q[(i + 1) % q.size()], X(7 + i))); } list(p, e, q, r1); list(p, e, q, r2); };
    { std::vector<int> o{0, 1, 2, 3, 4}; for (size_t base = 0; base + 5 <= pool.size(); base += (T ? 1 : 3)) { do { std::vector<P> q; for (int i : o) q.push_back(pool[base + i]); go(q); } while (std::next_permutation(o.begin(), o.end())); } }
    for (size_t n = 4; n <= pool.size(); ++n) for (size_t r = 0; r < pool.size(); ++r) { std::vector<P> q; for (size_t i = 0; i < n; ++i) q.push_back(pool[(r + i) % pool.size()]); go(q); std::reverse(q.begin(), q.end()); go(q); }
    for (size_t n = 4; n <= 9; ++n) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) { std::vector<P> q(pool.begin(), pool.begin() + n); q[i] = q[j]; go(q); } }
  for (unsigned long a : wide_ids()) for (unsigned long c : wide_ids()) {
    P p = B(ADD, B(MUL, X(a), F(c)), B(DIV, U(SIN, X(c)), B(SUB, F(a, 1), mk(SYMINT, 0, a, 0, {mk(INTEG, 0, 0, c, {X(a), C(0), C(1)})})))); if (!vr::mine()) continue; ++vr::states; vr::cur(str(p)); expr e = build(p);
    for (unsigned long k : wide_ids()) { if (k != a && k != c && k % 3) continue; single(p, e, X(k), C(7), false); single(p, e, F(k), X(k), false); single(p, e, F(k, 1), C(7), false); single(p, e, mk(SYMINT, 0, k, 0, {mk(INTEG, 0, 0, c, {X(a), C(0), C(1)})}), X(3), false); single(p, e, mk(INTEG, 0, 0, k, {X(a), C(0), C(1)}), X(3), false);
      list(p, e, {X(k), F(a), X(c)}, {X(c), C(3), X(k)}); } }
  return vr::finish();
}
