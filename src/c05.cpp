// C05: runtime simplification keeps the value, terminates and reaches a fixed point.
#include "build.hpp"
using namespace m; using namespace b;
struct OpCount : public vm::rt_traversal_interface<> { int* n; OpCount(int* p) : n(p) {}
  void operator()(If const* e) const { if (dynamic_cast<vm::binary_expr const*>(e) || dynamic_cast<vm::unary_expr const*>(e)) ++*n; } };
static int ops(expr const& e) { int n = 0; vm::rt_traversal_wrapper<> w(new OpCount(&n)); e.get()->recursive_traversal(w); return n; }
static void one(std::string const& key, P const& p, expr const& e, expr const& r, bool fixed, int n0) {
  for (auto& x : PTS) {
    ++vr::transitions; ++vr::validated; E ref = at(p, x); if (!informative(ref)) continue;
    ++vr::nontrivial; double g = r(x);
    if (!agrees(g, ref)) { vr::fail(key, "value " + num(g) + " instead of " + num(ref.v) + " at (" + num(x[0]) + "," + num(x[1]) + "," + num(x[2]) + ")"); break; }
  }
  int n1 = ops(r);
  if (n1 > n0) vr::fail("grows " + key, std::to_string(n0) + " -> " + std::to_string(n1) + " operations");
  if (!fixed) return;
  if (r.get()->can_simplify()) vr::fail("fixpoint " + key, "the result reports that it can be simplified: " + r.get()->deep_str());
  expr r2 = vm::simplify(r); if (!deq(r2, r) && (r.get()->deep_str().find("nan") == std::string::npos || r2.get()->deep_str() != r.get()->deep_str())) vr::fail("fixpoint " + key, "simplifying again changes the result from " + r.get()->deep_str() + " to " + r2.get()->deep_str());
}
static void handle(P const& p, int nat) {
  if (!vr::mine()) return;
  std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s);
  try {
    expr e = build(p); int n0 = ops(e);
    one("simplify " + s, p, e, vm::simplify(e), true, n0);
    expr st(e.get()->simplify()); one("step " + s, p, e, st, false, n0);
    expr ip = e; vm::inplace_simplify(ip); one("inplace " + s, p, e, ip, true, n0);
    for (int w = 1; w <= nat; ++w) {
      Choice ch{w * 0x9e37ul, 0}; Obj o = natural(p, ch); expr r;
      with(o, [&](auto const& q) { r = expr(vm::simplify(q)); }); one("types " + std::to_string(w) + " " + s, p, e, r, true, n0);
    }
  } catch (std::exception const& ex) { vr::fail(s, std::string("unexpected exception ") + ex.what()); }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  { Alphabet al{{X(0), X(1), C(0), C(1), C(-1), C(2), C(3)}, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(2, [](P const& p) { handle(p, 3); }); }
  { Alphabet al{{X(0), C(0), C(1), C(2)}, {SIN}, ALLBIN}; Enum en(al, 2); en.each_exact(3, [](P const& p) { handle(p, 0); }); }
  { Alphabet al{{X(0), C(0), C(1)}, {}, {ADD, MUL, SUB, DIV}}; Enum en(al, 3); if (T) en.each_exact(4, [](P const& p) { handle(p, 0); }); }
  if (T) { Alphabet al{{X(0), X(1), C(0), C(1), C(-1), C(2)}, {SIN, LOG, FABS}, ALLBIN}; Enum en(al, 2); en.each_exact(3, [](P const& p) { handle(p, 1); }); }
  if (!T) { Alphabet al{{X(0), C(0), C(1)}, {}, ALLBIN}; Enum en(al, 2); en.each_exact(3, [](P const& p) { for (Kind k : ALLBIN) { handle(B(k, p, C(1)), 0); handle(B(k, C(0), p), 0); handle(B(k, X(0), p), 0); } handle(U(EXP, p), 0); }); }
  std::vector<Kind> ops_ = ALLBIN; ops_.push_back(EXP); ops_.push_back(SIN);
  combs(T ? 7 : 5, ops_, {C(1), C(0), X(1), C(2)}, C(1), [](P const& p) { handle(p, 0); });
  combs(T ? 7 : 5, ops_, {C(0), C(1)}, X(0), [](P const& p) { handle(p, 0); });
  // wide constants: every pair folded, every constant next to a variable
  std::vector<double> cs; for (int i = -12; i <= 12; ++i) { cs.push_back(i); cs.push_back(i + 0.37); }
  for (double c : {-0.0, 1e-17, -1e-17, 1e-9, 1e-300, 1e300, 1.0 + 1e-15, 1.0 - 1e-15, 1.0 + 1e-9, 1.0 - 1e-7, 1e-12, 1e-6, 64.0, 100.0, 127.0, 128.0, 255.0, 256.0, 1000.0, 1e6, 2147483647.0, 2147483648.0, 4294967296.0, 1e15, 9.3e18, 1e19, 42.0, 3.14159265358979312}) { cs.push_back(c); cs.push_back(-c); }
  for (double a : cs) for (Kind k : ALLBIN) {
    for (double c : cs) handle(B(k, C(a), C(c)), 0);
    for (P q : {X(0), B(ADD, X(0), X(1)), U(SIN, X(1)), B(DIV, X(1), X(0)), X(2)}) {
      handle(B(k, C(a), q), 1); handle(B(k, q, C(a)), 1);
      for (Kind k2 : ALLBIN) { handle(B(k2, B(k, q, C(a)), C(2)), 0); handle(B(k2, C(3), B(k, C(a), q)), 0); handle(B(k2, X(1), B(k, C(a), q)), 0); handle(B(k2, B(k, C(a), q), X(0)), 0); }
    }
    for (Kind f : ALLFUN) { handle(U(f, B(k, C(a), X(0))), 0); handle(B(k, U(f, C(a)), X(0)), 0); }
  }
  lookalikes(X(0), X(1), [](P const& p) { handle(p, 0); }); lookalikes(C(7), X(0), [](P const& p) { handle(p, 0); });
  pumped(X(0), X(1), {SIN, FABS, EXP}, {6, 9, 17, T ? 65 : 33}, T ? 17 : 9, [](P const& p) { handle(p, 0); });
  return vr::finish();
}
