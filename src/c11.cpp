// C11: unsupported operations raise the documented exceptions; operands stay usable.
#include "build.hpp"
using namespace m; using namespace b;
enum Cls { NONE, NEVAL, NUNWRAP, NDIFF, ANALYTIC, SYMB, OOB, OTHERSTD, OTHER };
static const char* cn[] = {"no exception", "not-evaluable", "not-unwrappable", "not-differentiable", "analytic-integration-not-supported", "symbolic-integral", "variable-out-of-bounds", "another std::exception", "something that is no std::exception"};
template <class Fn> Cls run(Fn fn, std::string& what) {
  Cls c = NONE; what.clear();
  try { try { fn(); } catch (vm::expression_not_evaluable_exception const& e) { what = e.what(); c = NEVAL; throw; } catch (vm::expression_not_unwrappable_exception const& e) { what = e.what(); c = NUNWRAP; throw; }
    catch (vm::expression_not_differentiable_exception const& e) { what = e.what(); c = NDIFF; throw; } catch (vm::analytic_integration_not_supported_exception const&) { c = ANALYTIC; throw; }
    catch (vm::symbolic_integral_evaluation_not_possible_exception const&) { c = SYMB; throw; } catch (vm::variable_index_out_of_bounds_exception const&) { c = OOB; throw; } }
  catch (std::exception const& e) { if (c == NONE) c = OTHERSTD; if (what.empty()) what = e.what(); std::string w2 = e.what(); if (w2 != what) what = "?" + w2; return c; }
  catch (...) { return OTHER; }
  return c;
}
static bool readable(std::string const& w) { if (w.size() < 5) return false; int letters = 0; for (unsigned char c : w) { if (c > 126 || (c < 32 && c != '\n')) return false; if (isalpha(c)) ++letters; } return letters >= 5; }
static const std::vector<double> pt{0.7, 1.3, 2.1, 0.4};
static bool hasany(P const& p, std::vector<Kind> ks) { for (Kind k : ks) if (has_kind(p, k)) return true; return false; }
static void expect(std::string const& key, Cls c, std::string const& w, std::vector<Cls> allowed) {
  ++vr::transitions; ++vr::validated; ++vr::nontrivial; bool ok = false; for (Cls a : allowed) if (a == c) ok = true;
  if (!ok) { vr::fail(key, std::string("raises ") + cn[c] + " instead of " + cn[allowed[0]]); return; }
  if (c != NONE && !readable(w)) vr::fail(key, "message of " + std::string(cn[c]) + " is not readable: '" + w + "'");
}
template <class X> void evals(std::string const& key, X const& x, std::vector<Cls> const& al) {
  std::string w; Cls c;
  c = run([&] { (void)x(pt); }, w); expect("call(vector) " + key, c, w, al);
  c = run([&] { (void)vm::eval(x, pt); }, w); expect("eval(vector) " + key, c, w, al);
  c = run([&] { (void)x(vm::make_vector(0.7, 1.3, 2.1)); }, w); expect("call(make_vector) " + key, c, w, al);
}
static void handle(P const& p, bool deep) {
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s);
  expr e = build(p); std::string txt = e.get()->deep_str(), w; P before = read(e);
  bool plainbad = hasany(p, {FS, VEC, GRAD, DIVG, PD}), ana = has_kind(p, INTEG), sym = has_kind(p, SYMINT);
  std::vector<Cls> al; if (plainbad) al.push_back(NEVAL); if (ana) al.push_back(ANALYTIC); if (sym) al.push_back(SYMB); if (al.empty()) al.push_back(NONE);
  evals(s, e, al);
  Cls c = run([&] { (void)e.get()->eval(pt); }, w); expect("node eval " + s, c, w, al);
  if (max_var(p) <= 0) { c = run([&] { (void)e(0.7); }, w); expect("call(number) " + s, c, w, al); c = run([&] { (void)vm::eval(e, 0.7); }, w); expect("eval(number) " + s, c, w, al); }
  // unwrap
  std::vector<Cls> au; if (hasany(p, {VAR, FS, VEC})) au.push_back(NUNWRAP); if (ana) au.push_back(ANALYTIC); if (sym) au.push_back(SYMB); if (hasany(p, {GRAD, DIVG, PD})) au.push_back(NEVAL); if (au.empty()) au.push_back(NONE);
  bool inint = false; if (ana) for (auto& q : p->ch) (void)q;
  (void)inint; c = run([&] { (void)e.get()->unwrap(); }, w); expect("unwrap " + s, c, w, au);
  // diff by a variable
  for (unsigned i : {0u, 1u}) {
    variable v(i);
    if (hasany(p, {FS, GRAD, DIVG, PD, INTEG, SYMINT})) { c = run([&] { expr d(e.get()->diff(&v)); }, w); expect("node diff " + s, c, w, {NDIFF}); c = run([&] { expr d = vm::diff(e, v); }, w); expect("diff " + s, c, w, {NDIFF}); }
    else if (contains(p, [i](P const& n) { return n->k == FABS && contains(n, [i](P const& v) { return v->k == VAR && v->id == i; }); })) { // the modulus has no derivative
      std::vector<Cls> ad{NDIFF}; if (contains(p, [](P const& n) { return n->k == CONST && n->c == 0; })) ad.push_back(NONE);
      c = run([&] { expr d(e.get()->diff(&v)); }, w); expect("node diff " + s, c, w, ad); c = run([&] { expr d = vm::diff(e, v); }, w); expect("diff " + s, c, w, ad); }
    else if (!has_kind(p, FABS)) { c = run([&] { expr d(e.get()->diff(&v)); }, w); expect("node diff " + s, c, w, {NONE}); }
  }
  // operands stay usable
  if (e.get()->deep_str() != txt || !eq(read(e), before) || !eq(before, p)) vr::fail("operand " + s, "changed to " + e.get()->deep_str());
  if (deep && !hasany(p, {VEC, GRAD, DIVG, PD, INTEG, SYMINT})) {
    std::vector<P> fs{F(0), F(1), F(0, 1)}, rp{C(2), B(ADD, X(0), C(1)), U(SIN, X(1))}; expr r = e;
    for (int i = 0; i < 3; ++i) r = vm::substitute(build(fs[i]), build(rp[i]), r);
    E ref = at(subst(p, fs, rp), pt); ++vr::transitions; if (informative(ref) && !agrees(r(pt), ref)) vr::fail("after " + s, "value after substituting the symbols is " + num(r(pt)) + " instead of " + num(ref.v));
  }
  expr cp = e; if (!deq(cp, e)) vr::fail("after " + s, "copy differs");
  if (deep) { Choice ch{0x35a5, 0}; bool simple = !hasany(p, {VEC, GRAD, DIVG, PD, INTEG, SYMINT}); if (simple) { Obj o = natural(p, ch);
      if (o.t == TB) { evals("binary " + s, *o.be, al); c = run([&] { (void)o.be->unwrap(); }, w); expect("unwrap binary " + s, c, w, au); }
      if (o.t == TU) { evals("unary " + s, *o.ue, al); c = run([&] { (void)o.ue->unwrap(); }, w); expect("unwrap unary " + s, c, w, au); } } }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  std::vector<P> sp{F(0), F(1), F(0, 1), mk(VEC, 0, 0, 0, {C(1)}), mk(VEC, 0, 0, 0, {X(0), C(2)}), mk(VEC, 0, 0, 0, {F(0), X(1), C(3)}), U(GRAD, F(0)), U(DIVG, F(0)), mk(PD, 0, 0, 0, {F(0)}), mk(PD, 0, 1, 0, {F(0, 1)}),
    mk(SYMINT, 0, 1, 0, {X(0)}), mk(SYMINT, 0, 2, 0, {C(2)}), mk(SYMINT, 0, 2, 0, {F(0)}), mk(INTEG, 0, 0, 0, {X(0), C(0), C(1)}), mk(INTEG, 0, 0, 1, {C(3), C(0), C(1)}), mk(INTEG, 0, 0, 0, {F(0), C(0), C(1)}), U(GRAD, X(0)), U(GRAD, C(1)), mk(PD, 0, 0, 0, {X(0)}), U(DIVG, C(2))};
  // every special node alone, and at each position of every formula with <= 2 (3) operations
  std::vector<P> lv{X(0), X(1), C(2), C(0)};
  for (P q : sp) {
    handle(q, true); bool vec = q->k == VEC;
    std::vector<P> L = lv; L.push_back(q); Alphabet al{L, {EXP, SIN, COS, TAN, SQRT, LOG, LOG10, FABS}, ALLBIN}; Enum en(al, 1);
    auto f = [&](P const& p) { if (contains(p, [&](P const& n) { return n.get() == q.get(); })) { if (vec && p->k >= EXP && p->k <= LOG10 && p->ch[0]->k == VEC) {} handle(p, q->k == FS); } };
    en.each_exact(1, f); en.each_exact(2, f);
    Alphabet a3{{X(0), C(0), q}, {SIN}, {ADD, MUL, DIV}}; Enum e3(a3, 2); if (T || q->k == FS) e3.each_exact(3, f);
    std::vector<Kind> ops = ALLBIN; ops.push_back(SIN); ops.push_back(EXP); combs(T ? 5 : 3, ops, {X(1), C(0), C(1)}, q, [&](P const& p) { handle(p, false); });
    for (P in : {B(ADD, q, C(1)), B(MUL, C(0), q), U(SIN, q)}) { handle(mk(SYMINT, 0, 3, 0, {in}), false); handle(mk(INTEG, 0, 0, 0, {in, C(0), C(1)}), false); handle(mk(VEC, 0, 0, 0, {C(1), in}), false); handle(U(GRAD, in), false); handle(mk(PD, 0, 1, 0, {in}), false); }
  }
  // pairs of special nodes
  for (P a : sp) for (P c : sp) for (Kind k : ALLBIN) handle(B(k, a, c), false);
  // no special node: nothing raises but unwrap of variables
  { Alphabet al{{X(0), X(1), C(2), C(0.5)}, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(2, [](P const& p) { handle(p, true); }); }
  for (unsigned long i = 0; i < 300; ++i) { handle(F(i), false); handle(F(i, 1), false); handle(F(i, i), false); handle(B(MUL, F(i), X(i % 3)), false); handle(mk(SYMINT, 0, i, 0, {X(0)}), false); handle(mk(PD, 0, i, 0, {F(i)}), false); }
  for (P q : {P(F(0)), P(mk(SYMINT, 0, 1, 0, {X(0)})), P(U(GRAD, F(0)))}) pumped(q, X(0), {SIN, EXP}, {6, T ? 17 : 9}, 0, [](P const& p) { handle(p, false); });
  return vr::finish();
}
