// C22: the textual form parses back to the expression; different structures print differently.
#include "build.hpp"
#include "parse.hpp"
#include <sstream>
#include <unordered_map>
using namespace m; using namespace b;
template <class T> std::string out(T const& x) { std::ostringstream s; s << x; return s.str(); }
static std::unordered_map<std::string, std::string> seen;   // text -> model text (constants rounded)
static void one(std::string const& key, std::string const& what, std::string const& txt, P const& want) {
  ++vr::transitions; ++vr::validated; ++vr::nontrivial;
  try { P q = ps::text(txt); if (!ps::like(want, q)) vr::fail(key, what + " '" + txt + "' denotes " + str(q)); }
  catch (std::exception const& ex) { vr::fail(key, what + " '" + txt + "' cannot be read: " + ex.what()); }
}
static void handle(P const& p, int nat) {
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s);
  expr e = build(p);
  one(s, "deep_str", e.get()->deep_str(), p);
  one(s, "stream output", out(e), p);
  for (unsigned long w = 0; w < (unsigned long)nat; ++w) { Choice ch{w * 0x1e37ul + w, 0}; Obj o = natural(p, ch); if (o.t != TD) { std::string t; with(o, [&](auto const& x) { t = out(x); }); one(s + " types " + std::to_string(w), "stream output", t, p); } }
  std::string r = str(ps::rounded(p)); auto in = seen.insert({e.get()->deep_str(), r});
  if (!in.second && in.first->second != r) vr::fail("same text " + s, "prints like " + in.first->second);
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  std::vector<P> lv{X(0), X(1), X(2), C(2), C(-1.5), C(0), F(0), F(1), F(0, 1), F(1, 1)};
  { Alphabet al{lv, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(T ? 2 : 1, [](P const& p) { handle(p, 4); }); }
  { Alphabet al{{X(0), X(1), C(2), F(0)}, ALLFUN, ALLBIN}; Enum en(al, 1); en.each_exact(2, [](P const& p) { handle(p, 2); }); }
  { Alphabet al{{X(0), C(3)}, {SIN, LOG}, ALLBIN}; Enum en(al, 2); en.each_exact(3, [](P const& p) { handle(p, 0); }); if (T) en.each_exact(4, [](P const& p) { handle(p, 0); }); }
  { std::vector<Kind> ops = ALLBIN; ops.insert(ops.end(), {SIN, LOG10}); combs(T ? 6 : 4, ops, {X(1), C(2)}, X(0), [](P const& p) { handle(p, 0); }); }
  // other node kinds, nested
  std::vector<P> q{X(0), C(2), F(0), F(1, 1), B(ADD, X(0), X(1)), B(MUL, F(0), F(0, 1)), U(SIN, X(1))}, sp;
  for (P a : q) { for (unsigned i : {0u, 1u, 12u, 333u}) { sp.push_back(mk(SYMINT, 0, i, 0, {a})); sp.push_back(mk(PD, 0, i, 0, {a})); for (P lo : {C(0), X(1)}) for (P hi : {C(2), B(SUB, X(0), C(1))}) sp.push_back(mk(INTEG, 0, 0, i, {a, lo, hi})); }
    sp.push_back(U(GRAD, a)); sp.push_back(U(DIVG, a)); sp.push_back(mk(VEC, 0, 0, 0, {a})); for (P c : q) { sp.push_back(mk(VEC, 0, 0, 0, {a, c})); sp.push_back(mk(VEC, 0, 0, 0, {a, c, X(2)})); sp.push_back(mk(VEC, 0, 0, 0, {C(1), a, c, X(2)})); } }
  for (P a : sp) { handle(a, 0); if (a->k != VEC) { handle(U(SIN, a), 0); for (Kind k : ALLBIN) { handle(B(k, a, C(2)), 0); handle(B(k, X(0), a), 0); } handle(mk(SYMINT, 0, 3, 0, {a}), 0); handle(mk(INTEG, 0, 0, 1, {a, C(0), C(1)}), 0); handle(mk(VEC, 0, 0, 0, {a, a}), 0); } }
  // leaves
  for (unsigned long i = 0; i < 3000; ++i) { handle(X(i), 2); handle(F(i), 2); handle(F(i, 1), 2); handle(mk(SYMINT, 0, i, 0, {X(0)}), 0); handle(mk(PD, 0, i, 0, {F(0)}), 0); }
  for (unsigned long i : {65535ul, 65536ul, 4294967295ul, 4294967296ul, 12345678901ul}) { handle(X(i), 2); handle(F(i), 2); handle(F(i, 1), 2); handle(mk(INTEG, 0, 0, i, {X(0), C(0), C(1)}), 0); }
  for (int i = -2000; i <= 2000; ++i) { handle(C(i), 3); handle(C(i * 0.125), 3); handle(C(i * 1e5), 3); handle(C(i * 1e-7), 3); handle(C(i * 1e30), 3); }
  // intervals, equations, stand-alone objects
  std::vector<P> sides{C(1), X(0), F(0), B(ADD, X(0), C(2)), B(SUB, X(1), X(0)), U(SIN, X(0)), U(GRAD, F(0))};
  for (P a : sides) for (P c : sides) { if (!vr::mine()) continue; ++vr::states; expr x = build(a), y = build(c); std::string k = "interval " + str(a) + "," + str(c);
    auto two = [&](std::string t, std::string open, std::string sep) { ++vr::transitions; ++vr::validated; try { ps::Text tx(t); tx.need(open); P l = tx.expr(); tx.need(sep); P r = tx.expr(); tx.need(")"); if (!ps::like(a, l) || !ps::like(c, r)) vr::fail(k, "'" + t + "'"); } catch (std::exception const& ex) { vr::fail(k, "'" + t + "': " + ex.what()); } };
    two(out(vm::interval(x, y)), "interval(", ","); two(out(vm::make_equation(x, y)), "equation(", "="); two(out(vm::equation(x, y)), "equation(", "="); }
  pumped(X(0), X(1), {SIN, FABS, SQRT}, {6, 12, 33}, T ? 12 : 6, [](P const& p) { handle(p, 0); });
  return vr::finish();
}
