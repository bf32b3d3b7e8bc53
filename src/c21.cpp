// C21: LaTeX output, read with the usual precedence rules, denotes the same formula; customised names.
#include "build.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "parse.hpp"
using namespace m; using namespace b;
typedef std::map<std::string, P> Names;
static vm::latex_translator* plain; static Names none;
static void one(std::string const& key, std::string const& txt, P const& want, Names const& n) {
  ++vr::transitions; ++vr::validated; ++vr::nontrivial;
  try { ps::Latex l(txt, n); P q = l.sum(); l.end(); if (!ps::like(ps::canon(want), ps::canon(q))) vr::fail(key, "LaTeX '" + txt + "' denotes " + str(q)); }
  catch (std::exception const& ex) { vr::fail(key, "LaTeX '" + txt + "' cannot be read: " + ex.what()); }
}
static void natl(std::string const& s, P const& p, vm::latex_translator const& t, Names const& n, int nat) {
  for (unsigned long w = 0; w < (unsigned long)nat; ++w) { Choice ch{w * 0x1e37ul + w, 0}; Obj o = natural(p, ch);
    if (o.t == TD) continue; std::string r; with(o, [&](auto const& x) { if constexpr (!std::is_same<std::decay_t<decltype(x)>, double>::value) r = t(x); }); one(s + " types " + std::to_string(w), r, p, n); }
}
static void handle(P const& p, int nat) {
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s);
  expr e = build(p); one(s, (*plain)(e), p, none); natl(s, p, *plain, none, nat);
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough; vm::latex_translator tr; plain = &tr;
  std::vector<P> lv{X(0), X(1), C(2), C(-1.5), C(0), F(0), F(0, 1)};
  { Alphabet al{lv, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(2, [](P const& p) { handle(p, p->ops < 2 ? 6 : 1); }); }
  { Alphabet al{{X(0), C(-3)}, {SIN, SQRT}, ALLBIN}; Enum en(al, 2); en.each_exact(3, [](P const& p) { handle(p, 0); }); if (T) en.each_exact(4, [](P const& p) { handle(p, 0); }); }
  if (T) { Alphabet al{{X(0), X(1), C(2)}, ALLFUN, ALLBIN}; Enum en(al, 2); en.each_exact(3, [](P const& p) { handle(p, 0); }); }
  { std::vector<Kind> ops = ALLBIN; ops.insert(ops.end(), {SIN, LOG, FABS, SQRT}); combs(T ? 6 : 4, ops, {X(1), C(-2), B(SUB, X(0), X(1))}, X(0), [](P const& p) { handle(p, 0); }); }
  std::vector<P> q{X(0), C(2), F(0), F(1, 1), B(ADD, X(0), X(1)), B(SUB, F(0), X(1)), B(MUL, F(0), F(0, 1)), B(DIV, X(0), X(1)), U(SIN, X(1)), U(GRAD, F(0))}, sp;
  for (P a : q) { for (unsigned i : {0u, 1u, 12u, 333u}) { sp.push_back(mk(SYMINT, 0, i, 0, {a})); sp.push_back(mk(PD, 0, i, 0, {a})); for (P lo : {C(0), X(1)}) for (P hi : {C(2), B(SUB, X(0), C(1))}) sp.push_back(mk(INTEG, 0, 0, i, {a, lo, hi})); }
    sp.push_back(U(GRAD, a)); sp.push_back(U(DIVG, a)); }
  for (P a : sp) { handle(a, 0); for (Kind f : ALLFUN) handle(U(f, a), 0); for (Kind k : ALLBIN) for (P c : q) { handle(B(k, a, c), 0); handle(B(k, c, a), 0); } handle(mk(SYMINT, 0, 3, 0, {a}), 0); handle(mk(INTEG, 0, 0, 1, {a, C(0), C(1)}), 0); handle(mk(PD, 0, 1, 0, {a}), 0); }
  for (unsigned long i = 0; i < 2000; ++i) { handle(X(i), 2); handle(F(i), 2); handle(F(i, 1), 2); handle(B(MUL, X(i), C(i)), 0); }
  for (unsigned long i : {65535ul, 65536ul, 4294967296ul}) { handle(X(i), 2); handle(F(i), 2); handle(F(i, 1), 2); }
  for (int i = -2000; i <= 2000; ++i) { handle(C(i), 3); handle(C(i * 0.125), 3); handle(B(SUB, X(0), C(i * 0.5)), 1); handle(B(MUL, C(i * 0.5), B(ADD, C(-i), X(0))), 0); handle(C(i * 1e5), 0); handle(C(i * 1e-7), 0); }
  // equations and intervals
  std::vector<P> sides{C(1), C(-2), X(0), F(0), B(ADD, X(0), C(2)), B(SUB, X(1), X(0)), B(MUL, X(1), X(0)), U(SIN, X(0)), U(GRAD, F(0)), mk(SYMINT, 0, 3, 0, {F(0)})};
  auto pair = [&](std::string key, std::string t, P a, P c, bool eqn, Names const& n) { ++vr::transitions; ++vr::validated; try { ps::Latex l(t, n); P x, y; if (eqn) { x = l.sum(); l.need("="); y = l.sum(); } else l.interval(x, y); l.end();
      if (!ps::like(ps::canon(a), ps::canon(x)) || !ps::like(ps::canon(c), ps::canon(y))) vr::fail(key, "'" + t + "'"); } catch (std::exception const& ex) { vr::fail(key, "'" + t + "': " + ex.what()); } };
  for (P a : sides) for (P c : sides) { if (!vr::mine()) continue; ++vr::states; expr x = build(a), y = build(c);
    pair("equation " + str(a) + "=" + str(c), tr(vm::equation(x, y)), a, c, true, none); pair("interval " + str(a) + "," + str(c), tr(vm::interval(x, y)), a, c, false, none); }
  // customisation: every subset of items (0 = default, 1 = customised, 2 = customised twice), through original, copies and assignments
  struct It { P p; const char* n1; const char* n2; }; std::vector<It> items{{X(0), "\\alpha", "a"}, {X(1), " y ", "\\mathrm{yy}"}, {X(10), "\\alpha_1", "z"}, {F(0), "\\psi", "f"}, {F(1), "T", "\\Theta"}, {F(0, 1), "w", "\\omega"}, {F(1, 1), "\\eta", "e"}};
  std::vector<P> forms; for (auto& a : items) { forms.push_back(a.p); for (auto& c : items) forms.push_back(B(MUL, B(ADD, a.p, c.p), U(SIN, c.p))); forms.push_back(mk(INTEG, 0, 0, 0, {B(MUL, X(0), a.p), C(0), X(1)})); forms.push_back(mk(PD, 0, 10, 0, {a.p})); forms.push_back(mk(SYMINT, 0, 1, 0, {a.p})); }
  auto trim = [](std::string s) { size_t a = s.find_first_not_of(' '), z = s.find_last_not_of(' '); return s.substr(a, z - a + 1); };
  auto custom = [&](vm::latex_translator& t, P const& p, std::string const& n) { if (p->k == VAR) t.customize(variable(p->id), n); else t.customize(function_symbol(p->id, p->tag), n); };
  unsigned tot = 1; for (size_t i = 0; i < items.size(); ++i) tot *= 3;
  for (unsigned w = 0; w < tot; ++w) {
    if (!vr::mine()) continue; if (!T && (w % 3) && ((w / 3) % 3 == 2) && ((w / 27) % 3 == 2)) continue;
    ++vr::states; std::string key = "customise"; Names n; vm::latex_translator t; unsigned k = w; P firstdef;
    for (auto& it : items) { int c = k % 3; k /= 3; if (!c) { if (!firstdef) firstdef = it.p; continue; } custom(t, it.p, it.n1); if (c == 2) custom(t, it.p, it.n2); n[trim(c == 2 ? it.n2 : it.n1)] = it.p; key += " " + str(it.p) + "->" + (c == 2 ? it.n2 : it.n1); }
    vr::cur(key);
    vm::latex_translator copy(t), copy2(copy), assigned, self(t); assigned = t; self = *&self;
    vm::latex_translator* all[] = {&t, &copy, &copy2, &assigned, &self}; const char* nm[] = {"original", "copy", "copy of copy", "assigned", "self-assigned"};
    for (int a = 0; a < 5; ++a) for (size_t f = 0; f < forms.size(); ++f) { if (a && !T && (f + w) % 4) continue; one(key + " [" + nm[a] + "] " + str(forms[f]), (*all[a])(build(forms[f])), forms[f], n); }
    pair(key + " equation", t(vm::equation(build(X(0)), build(F(0)))), X(0), F(0), true, n); pair(key + " interval", t(vm::interval(build(X(1)), build(X(10)))), X(1), X(10), false, n);
    natl(key, B(ADD, X(0), B(MUL, F(1), X(1))), t, n, 4); natl(key, X(0), t, n, 2); natl(key, F(0, 1), t, n, 2);
    if (firstdef) { Names nc = n; nc["Q"] = firstdef; custom(copy, firstdef, "Q"); for (P q : {firstdef, B(ADD, firstdef, X(0))}) { one(key + " copy customised later " + str(q), copy(build(q)), q, nc); one(key + " original after copy customised " + str(q), t(build(q)), q, n); one(key + " second copy " + str(q), copy2(build(q)), q, n); } }
  }
  pumped(X(0), X(1), {SIN, FABS, SQRT}, {6, 12, 33}, T ? 12 : 6, [](P const& p) { handle(p, 0); });
  return vr::finish();
}
