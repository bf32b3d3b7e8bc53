// C01: numbers of every arithmetic type combined with every operand kind, alone and inside a further operation.
#include "build.hpp"
using namespace m; using namespace b;
static std::vector<double> pt{1.5, 0.25, -3.5};
static void check(std::string const& key, expr const& e, double want) {
  ++vr::states; ++vr::transitions; ++vr::validated; vr::cur(key); vr::sample(key);
  double got = e(pt), got2 = vm::eval(e, pt);
  if (!same_ieee(got, want)) vr::fail("number:" + key, "gives " + num(got) + " instead of " + num(want));
  if (!same_ieee(got2, want)) vr::fail("number eval:" + key, "gives " + num(got2) + " instead of " + num(want));
}
static double app(int k, double a, double b) { return k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b; }
static const char* on[] = {"+", "-", "*", "/"};
template <int K, class A, class Bt> auto op(A const& a, Bt const& c) { if constexpr (K == 0) return a + c; else if constexpr (K == 1) return a - c; else if constexpr (K == 2) return a * c; else return a / c; }
template <int K, class A, class Bt> void pair(std::string const& key, A const& a, double av, Bt const& c, double cv) {
  if (!vr::mine()) return;
  auto r = op<K>(a, c); double v = app(K, av, cv); std::string k = key + on[K];
  check(k, expr(r), v);
  variable x(0); constant q(2.5);
  check(k + " then -x", expr(expr(r) - x), v - 1.5); check(k + " below x/", expr(x / expr(r)), 1.5 / v);
}
template <class A, class Bt> void both(std::string const& key, A const& a, double av, Bt const& c, double cv) {
  pair<0>(key, a, av, c, cv); pair<1>(key, a, av, c, cv); pair<2>(key, a, av, c, cv); pair<3>(key, a, av, c, cv);
  std::string k = key + " reversed";
  pair<0>(k, c, cv, a, av); pair<1>(k, c, cv, a, av); pair<2>(k, c, cv, a, av); pair<3>(k, c, cv, a, av);
}
template <class N> void kinds(std::string const& nm, N n) {
  double d = (double)n; variable x(0), y(1), z(2); constant c(2.5); vm::ct_variable<0> X_; vm::ct_variable<2> Z_;
  std::string k = nm + "(" + num(d) + ") ";
  both(k + "variable", n, d, x, 1.5); both(k + "variable 2", n, d, z, -3.5); both(k + "constant", n, d, c, 2.5);
  both(k + "binary", n, d, x + y, 1.75); both(k + "binary with number", n, d, x * 4.0, 6.0); both(k + "binary quotient", n, d, x / y, 6.0); both(k + "unary", n, d, vm::sqrt(y), 0.5);
  both(k + "handle", n, d, expr(z), -3.5); both(k + "handle of constant", n, d, expr(0.75), 0.75); both(k + "ct variable", n, d, Z_, -3.5); both(k + "ct constant", n, d, vm::ct_constant<7>(), 7.0);
  both(k + "ct sum", n, d, X_ + Z_, -2.0); both(k + "ct difference", n, d, vm::ct_constant<3>() - X_, 1.5);
}
template <class N, class Mt> void cc(std::string const& nm, N n, Mt q) { both(nm + " constant objects(" + num((double)n) + "," + num((double)q) + ")", vm::rt_constant<N>(n), (double)n, vm::rt_constant<Mt>(q), (double)q);
  both(nm + " constant object and number(" + num((double)n) + "," + num((double)q) + ")", vm::rt_constant<N>(n), (double)n, q, (double)q); }
template <class N> void objs(std::string const& nm, N n) { variable x(0); vm::rt_constant<N> c(n); double d = (double)n; std::string k = nm + " object(" + num(d) + ") ";
  both(k + "variable", c, d, x, 1.5); both(k + "binary", c, d, x * x, 2.25); both(k + "handle", c, d, expr(x), 1.5); both(k + "unary", c, d, vm::fabs(variable(2)), 3.5); both(k + "ct variable", c, d, vm::ct_variable<0>(), 1.5); both(k + "ct constant", c, d, vm::ct_constant<-4>(), -4.0); both(k + "ct sum", c, d, vm::ct_variable<0>() + vm::ct_variable<2>(), -2.0); both(k + "ct difference", c, d, vm::ct_constant<3>() - vm::ct_variable<0>(), 1.5); both(k + "ct and constant", c, d, vm::ct_constant<3>() + vm::ct_variable<0>(), 4.5); }
int main(int argc, char** argv) {
  vr::init(argc, argv);
  for (int v : {3, -7, 0, 1, 2, 10, 2147483647}) { kinds("int", v); objs("int", v); }
  for (long v : {3L, -7L, 0L, 5000000000L, -4294967297L, 2147483648L, 4503599627370497L}) { kinds("long", v); objs("long", v); }
  for (unsigned v : {3u, 0u, 4294967295u}) kinds("unsigned", v);
  for (unsigned long v : {3ul, 8589934593ul}) kinds("unsigned long", v);
  for (long long v : {-3ll, 8589934593ll}) kinds("long long", v);
  for (short v : {(short)-3, (short)30000}) kinds("short", v);
  for (float v : {0.5f, -3.25f, 4096.25f}) { kinds("float", v); objs("float", v); }
  for (double v : {0.5, -3.0, 1e10, 1e-10}) { kinds("double", v); objs("double", v); }
  cc("int long", 7, 2L); cc("long int", 7L, 2); cc("int double", 7, 2.5); cc("long double", 5000000001L, 0.5); cc("float int", 0.5f, 3); cc("double float", 0.125, 0.75f); cc("int int", 7, 2); cc("long long", 7L, -2L);
  return vr::finish();
}
