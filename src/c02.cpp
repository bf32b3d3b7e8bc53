// C02: all evaluation entry points agree; missing coordinates are reported by the documented exception.
#include "build.hpp"
using namespace m; using namespace b;
using vm::ct_constant; using vm::make_vector;
struct MyVec { typedef double value_type; std::vector<double> d; size_t size() const { return d.size(); } double operator[](size_t i) const { if (i >= d.size()) { vr::fail("oob-read", "evaluation read index " + std::to_string(i) + " of an argument of length " + std::to_string(d.size())); return 0; } return d[i]; } };
static std::string curs;
template <class Fn> void call(const char* form, P const& p, long have, double want, E ref, Fn fn) {
  ++vr::transitions; ++vr::validated;
  long need = max_var(p) + 1;
  std::string key = std::string(form) + ":" + str(p) + " len=" + std::to_string(have);
  vr::cur(key);
  try {
    double got = fn();
    if (need > have) vr::fail(key, "no exception although coordinate " + std::to_string(need - 1) + " is missing; returned " + num(got));
    else if (!same_ieee(got, want) && !agrees(got, ref)) vr::fail(key, "returned " + num(got) + " instead of " + num(want));
  } catch (vm::variable_index_out_of_bounds_exception const& ex) {
    if (need <= have) { vr::fail(key, "raised although all coordinates are given"); return; }
    std::exception const& se = ex; std::string w = se.what(); bool ok = w.size() > 3;
    for (unsigned char ch : w) if (ch < 9 || ch > 126) ok = false;
    if (!ok) vr::fail("what:" + key, "message of the exception is not readable");
    else ++vr::counters["exceptions_checked"];
  } catch (std::exception const& ex) { vr::fail(key, std::string("unexpected exception: ") + ex.what()); }
}
template <class T> void forms(T const& e, P const& p, std::vector<double> const& x4, const char* who) {
  std::string w(who);
  for (int n = 0; n <= 4; ++n) {
    std::vector<double> x(x4.begin(), x4.begin() + n);
    bool enough = max_var(p) < n; double want = enough ? ieee(p, x) : 0; E ref = enough ? at(p, x) : E(0);
    call((w + " std::vector").c_str(), p, n, want, ref, [&] { return (double)e(x); });
    call((w + " eval std::vector").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, x); });
    MyVec mv{x};
    call((w + " indexable").c_str(), p, n, want, ref, [&] { return (double)e(mv); });
    call((w + " eval indexable").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, mv); });
    if (n == 1) {
      call((w + " number").c_str(), p, n, want, ref, [&] { return (double)e(x[0]); });
      call((w + " eval number").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, x[0]); });
      constant c(x[0]);
      call((w + " constant").c_str(), p, n, want, ref, [&] { return (double)e(c); });
      call((w + " eval constant").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, c); });
      call((w + " make_vector").c_str(), p, n, want, ref, [&] { return (double)e(make_vector(x[0])); });
      call((w + " eval make_vector").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, make_vector(x[0])); });
    }
    if (n == 2) {
      call((w + " make_vector").c_str(), p, n, want, ref, [&] { return (double)e(make_vector(x[0], x[1])); });
      call((w + " eval make_vector").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, make_vector(x[0], x[1])); });
    }
    if (n == 1) { auto st = make_vector(x[0] + 0.0); call((w + " stored make_vector").c_str(), p, n, want, ref, [&] { return (double)e(st); }); }
    if (n == 2) { auto st = make_vector(x[0] + 0.0, x[1] + 0.0); call((w + " stored make_vector").c_str(), p, n, want, ref, [&] { return (double)e(st); }); }
    if (n == 3) {
      { auto st = make_vector(x[0] + 0.0, x[1] + 0.0, x[2] + 0.0); call((w + " stored make_vector").c_str(), p, n, want, ref, [&] { return (double)e(st); }); }
      call((w + " make_vector").c_str(), p, n, want, ref, [&] { return (double)e(make_vector(x[0], x[1], x[2])); });
      call((w + " eval make_vector").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, make_vector(x[0], x[1], x[2])); });
    }
  }
  // compile-time constants as arguments
  std::vector<double> z = {3, -2, 7}; ct_constant<3> c3; ct_constant<-2> cm2; ct_constant<7> c7;
  for (int n = 1; n <= 3; ++n) {
    bool enough = max_var(p) < n; std::vector<double> zz(z.begin(), z.begin() + n);
    double want = enough ? ieee(p, zz) : 0; E ref = enough ? at(p, zz) : E(0);
    if (n == 1) { call((w + " ct_constant").c_str(), p, n, want, ref, [&] { return (double)e(c3); });
      call((w + " eval ct_constant").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, c3); });
      call((w + " make_vector ct").c_str(), p, n, want, ref, [&] { return (double)e(make_vector(c3)); });
      call((w + " eval make_vector ct").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, make_vector(c3)); }); }
    if (n == 2) { call((w + " make_vector ct").c_str(), p, n, want, ref, [&] { return (double)e(make_vector(c3, cm2)); });
      call((w + " eval make_vector ct").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, make_vector(c3, cm2)); });
      call((w + " make_vector mixed").c_str(), p, n, want, ref, [&] { double d = -2; return (double)e(make_vector(c3, d)); }); }
    if (n == 3) { call((w + " make_vector ct").c_str(), p, n, want, ref, [&] { return (double)e(make_vector(c3, cm2, c7)); });
      call((w + " eval make_vector ct").c_str(), p, n, want, ref, [&] { return (double)vm::eval(e, make_vector(c3, cm2, c7)); });
      call((w + " make_vector mixed").c_str(), p, n, want, ref, [&] { double d = 3; return (double)e(make_vector(d, cm2, c7)); }); }
  }
}
static void handle(P const& p) {
  if (!vr::mine()) return;
  vr::cur(str(p)); ++vr::states; vr::sample(str(p));
  expr e = build(p);
  for (size_t k = 0; k < 2; ++k) {
    std::vector<double> x = PTS[k]; x.push_back(0.91 + k);
    forms(e, p, x, "expr");
    Choice c{0, 0}; Obj o = natural(p, c);
    if (o.t == TB) forms(*o.be, p, x, "binary");
    if (o.t == TU) forms(*o.ue, p, x, "unary");
    if (o.t == TV) forms(*o.v, p, x, "variable");
    if (p->k == CONST) { constant cc(p->c); forms(cc, p, x, "constant"); }
  }
}
int main(int argc, char** argv) {
  vr::init(argc, argv);
  Alphabet al{{X(0), X(1), X(2), X(3), C(1.5)}, {SIN, EXP, FABS, TAN}, ALLBIN}; Enum en(al, 2);
  en.upto(vr::thorough ? 3 : 2, handle);
  Alphabet a2{{X(0), X(1), X(2), X(3), X(5), X(1000), X(4294967296ul), X(9223372036854775806ul), C(0), C(-1), C(1e9)}, ALLFUN, ALLBIN}; Enum e2(a2, 0); e2.upto(1, handle);
  if (!vr::thorough) { Alphabet a3{{X(0), X(1), C(2)}, {SIN}, {ADD, DIV, MUL}}; Enum e3(a3, 2); e3.each_exact(3, handle); }
  // long argument vectors
  for (unsigned n : {5u, 8u, 17u, 64u, 300u}) {
    if (!vr::mine()) continue;
    std::vector<double> x; P s = C(0); for (unsigned i = 0; i < n; ++i) { x.push_back(0.5 + 0.01 * i); s = B(i % 2 ? SUB : ADD, s, B(MUL, C(i + 1), X(i))); }
    expr e = build(s); ++vr::states; E ref = at(s, x); MyVec mv{x};
    call("expr std::vector", s, n, ieee(s, x), ref, [&] { return e(x); });
    call("expr indexable", s, n, ieee(s, x), ref, [&] { return e(mv); });
    x.pop_back(); mv.d = x;
    call("expr std::vector", s, n - 1, 0, ref, [&] { return e(x); });
    call("expr indexable", s, n - 1, 0, ref, [&] { return e(mv); });
  }
  pumped(X(0), X(1), {SIN, FABS}, {6, 17, 33}, vr::thorough ? 12 : 6, [](P const& p) { handle(p); });
  return vr::finish();
}
