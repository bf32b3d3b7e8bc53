// C04: runtime differentiation gives the exact derivative; second derivatives too.
#include "build.hpp"
using namespace m; using namespace b;
static void check(std::string const& key, expr const& d, P const& p, std::vector<double> const& x, E ref, const char* what) {
  ++vr::transitions; ++vr::validated;
  if (!informative(ref)) return;
  ++vr::nontrivial;
  double got = d(x);
  if (!agrees(got, ref)) vr::fail(std::string(what) + " " + key, "value " + num(got) + " instead of " + num(ref.v) + " at (" + num(x[0]) + "," + num(x[1]) + "," + num(x[2]) + ")");
}
static expr ddx(Obj const& o, variable const& v) {
  expr r;
  with(o, [&](auto const& q) { if constexpr (!std::is_same<std::decay_t<decltype(q)>, function_symbol>::value) r = vm::diff(q, v); });
  return r;
}
static expr raw(expr const& e, variable const& v) { expr r(e.get()->diff(&v)); return r; }
static void handle(P const& p, bool second, bool nat) {
  if (!vr::mine()) return;
  std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s);
  expr e = build(p);
  // the variable list: two that occur, one that may not
  for (unsigned i = 0; i < 3; ++i) {
    variable v(i);
    std::string key = s + " d/dx" + std::to_string(i);
    try {
      expr d = vm::diff(e, v), dr = raw(e, v);
      for (auto& x : PTS) { E ref = d1(p, x, i); if (at(p, x).ok) { check(key, d, p, x, ref, "diff"); check(key, dr, p, x, ref, "raw diff"); } }
      auto byct = [&](auto const& q, char const* kind) { auto go = [&](auto cv) { expr dc = vm::diff(q, cv); for (auto& x : PTS) if (at(p, x).ok) check(key, dc, p, x, d1(p, x, i), kind); };
        if (i == 0) go(vm::ct_variable<0>()); else if (i == 1) go(vm::ct_variable<1>()); else go(vm::ct_variable<2>()); };
      byct(e, "diff by ct_variable"); if (auto q = dynamic_cast<vm::binary_expr const*>(e.get())) byct(*q, "diff of the binary expression by ct_variable"); if (auto q = dynamic_cast<vm::unary_expr const*>(e.get())) byct(*q, "diff of the unary expression by ct_variable");
      if (nat) for (unsigned long w = 0; w < 6; ++w) {
        Choice ch{w * 0x9e37ul + w, 0}; Obj o = natural(p, ch); expr dn = ddx(o, v);
        for (auto& x : PTS) if (at(p, x).ok) check(key + " operand types " + std::to_string(w), dn, p, x, d1(p, x, i), "diff");
      }
      if (second) for (unsigned j = 0; j < 2; ++j) {
        expr dd = vm::diff(d, variable(j)), ddr = raw(dr, variable(j));
        for (auto& x : PTS) { E ref = d2(p, x, i, j); if (at(p, x).ok && d1(p, x, i).ok) { check(key + " d/dx" + std::to_string(j), dd, p, x, ref, "diff"); check(key + " d/dx" + std::to_string(j), ddr, p, x, ref, "raw diff"); } }
      }
    } catch (vm::expression_not_differentiable_exception const& ex) {
      if (!has_kind(p, FABS)) vr::fail(key, "reported as not differentiable"); else ++vr::counters["fabs_reported"];
    } catch (std::exception const& ex) { vr::fail(key, std::string("unexpected exception ") + ex.what()); }
  }
}
// derivatives by variables with large ids, of sums c_i x_i^2 ... through wide alphabets
static void wide(P const& p, unsigned long id) {
  if (!vr::mine()) return;
  std::string s = str(p) + " d/dx" + std::to_string(id); vr::cur(s); ++vr::states;
  std::vector<double> x(max_var(p) + 2, 0.0); for (size_t i = 0; i < x.size(); ++i) x[i] = 0.4 + 0.013 * i;
  expr e = build(p), d;
  try { d = vm::diff(e, variable(id)); } catch (vm::expression_not_differentiable_exception const&) { if (!has_kind(p, FABS)) vr::fail("wide " + s, "reported as not differentiable"); return; }
  E ref = id < x.size() ? d1(p, x, id) : E(0); ++vr::transitions; ++vr::validated;
  if (informative(ref)) { ++vr::nontrivial; double g = d(x); if (!agrees(g, ref)) vr::fail("wide " + s, "value " + num(g) + " instead of " + num(ref.v)); }
}
int main(int argc, char** argv) {
  vr::init(argc, argv);
  bool T = vr::thorough;
  { Alphabet al{{X(0), X(1), C(2), C(0), C(1), C(-1.5)}, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(2, [](P const& p) { handle(p, true, true); }); }
  { Alphabet al{{X(0), X(1), C(3)}, {SIN, LOG, SQRT}, ALLBIN}; Enum en(al, 2); en.each_exact(3, [](P const& p) { handle(p, vr::thorough, false); }); }
  if (T) { Alphabet al{{X(0), X(1), C(2), C(0), C(1)}, ALLFUN, ALLBIN}; Enum en(al, 2); en.each_exact(3, [](P const& p) { handle(p, false, false); }); }
  if (T) { Alphabet al{{X(0), C(2)}, {SIN}, ALLBIN}; Enum en(al, 3); en.each_exact(4, [](P const& p) { handle(p, false, false); }); }
  // chains of operations
  { std::vector<Kind> ops = ALLBIN; ops.insert(ops.end(), ALLFUN.begin(), ALLFUN.end());
    combs(T ? 4 : 3, ops, {C(2), X(1), B(ADD, X(0), C(3))}, X(0), [](P const& p) { handle(p, vr::thorough, false); });
    combs(T ? 7 : 5, {MUL, DIV, SIN, EXP}, {X(1), C(0.75), B(MUL, X(0), X(1))}, X(0), [](P const& p) { handle(p, false, false); }); }
  // wide: constants and ids
  std::vector<double> cs; for (int i = -40; i <= 40; ++i) { cs.push_back(i); cs.push_back(i / 8.0 + 0.01); } for (double c : {1e-9, 1e9, 123456789.0, -1e-3, 1e100}) cs.push_back(c);
  for (double c : cs) for (Kind k : ALLBIN) { wide(B(k, C(c), X(0)), 0); wide(B(k, X(0), C(c)), 0); for (Kind f : ALLFUN) { wide(U(f, B(k, C(c), X(0))), 0); wide(B(k, U(f, X(0)), C(c)), 0); } }
  for (unsigned long i = 0; i < 70; ++i) for (unsigned long j = 0; j < 70; ++j) { wide(B(MUL, X(i), B(ADD, X(j), X(3))), i); if (i != j) wide(B(DIV, X(i), X(j)), j); wide(U(SIN, X(i)), j); }
  for (unsigned long id : {1000ul, 65536ul, 65537ul}) { wide(B(MUL, X(id), X(0)), id); wide(B(MUL, X(id), X(0)), 0); wide(B(MUL, X(id), X(id)), 1); }
  lookalikes(X(0), X(1), [](P const& p) { handle(p, vr::thorough, false); }); lookalikes(X(1), X(0), [](P const& p) { handle(p, false, false); });
  pumped(X(0), X(1), {SIN, COS, FABS, EXP}, {5, 9, 14}, T ? 6 : 4, [](P const& p) { handle(p, false, false); });
  return vr::finish();
}
