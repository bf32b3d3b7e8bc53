// C34: the other value objects (unary/binary/vector expressions, leaves, intervals, equations, quadrature objects, LaTeX translators) are independent values over every bounded history.
#include <new>
#include <cstdlib>
using std::size_t;
static long g_live = 0;
void* operator new(size_t n) { ++g_live; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --g_live; free(p); }
#include "build.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
using namespace m; using namespace b;
static const variable x(0), y(1);
// observation of an object: the structure it denotes (or what it does)
static std::string obs(vm::unary_expr const& o) { return str(read(&o)); }
static std::string obs(vm::binary_expr const& o) { return str(read(&o)); }
static std::string obs(vm::vector_expr const& o) { std::string s = str(read(&o)) + "#" + std::to_string(o.size()); for (size_t i = 0; i < o.size(); ++i) s += "," + str(read(o[i])); return s; }
static std::string obs(variable const& o) { return "x" + std::to_string(o.id()) + o.deep_str(); }
static std::string obs(constant const& o) { return num((double)o) + o.deep_str(); }
static std::string obs(function_symbol const& o) { return "u" + std::to_string(o.id()) + "t" + std::to_string(o.tag_id()) + o.deep_str(); }
static std::string obs(vm::interval const& o) { return "[" + str(read(o.lower())) + ";" + str(read(o.upper())) + "]"; }
static std::string obs(vm::symbolic_interval const& o) { return "W" + std::to_string(o.id()); }
static std::string obs(vm::equation const& o) { return (o.lhs().get() ? str(read(o.lhs())) : std::string("(empty)")) + "=" + (o.rhs().get() ? str(read(o.rhs())) : std::string("(empty)")); }
static long rules = 0;
struct Rule : public vm::numerical_quadrature_interface<If> { double w; Rule(double a) : w(a) { ++rules; } Rule(Rule const& o) : vm::numerical_quadrature_interface<If>(), w(o.w) { ++rules; } ~Rule() { --rules; }
  vm::numerical_quadrature_interface<If>* clone() const { return new Rule(*this); } double eval(vm::interval const&, expr const&, variable const&) const { return w; } };
static std::string obs(vm::numerical_quadrature const& q) { static const expr one(1.0); static const vm::interval in(expr(0.0), expr(1.0)); return num(q(in, one, x)); }
struct Own : public vm::rt_latex_processor_interface<If> { std::string q; Own(std::string a) : q(a) { ++rules; } Own(Own const& o) : vm::rt_latex_processor_interface<If>(), q(o.q) { ++rules; } ~Own() { --rules; }
  vm::rt_latex_processor_interface<If>* clone() const { return new Own(*this); } std::string process(If const* e, bool, vm::rt_latex_translator<If> const&) const { return dynamic_cast<vm::vector_expr const*>(e) ? q : std::string(); }
  bool customize(If const* e, std::string const& s) { if (dynamic_cast<vm::vector_expr const*>(e)) { q = s; return true; } return false; } };
static vm::vector_expr* onev; static expr* smp; static function_symbol uf(0);
static std::string obs(vm::latex_translator const& t) { static expr ev(*onev), eu(uf); return t(*smp) + "|" + t(ev) + "|" + t(eu); }
template <class T> struct World { T* s[2]; int r[2]; std::vector<T> v; std::vector<int> vr; World() : s{NULL, NULL}, r{-1, -1} {} ~World() { delete s[0]; delete s[1]; } };
struct Skip {};
template <class T> struct Spec {
  std::string name; std::vector<std::string> want;                                     // what recipe k denotes
  std::vector<std::pair<std::string, std::function<T*()>>> make;                       // constructs recipe k
  struct Set { std::string name; int from, to; std::function<void(T&)> f; }; std::vector<Set> set;   // assignment to an object: any recipe (from = -1) or only `from` becomes `to`
};
template <class T> void explore(Spec<T> const& sp, int depth) {
  typedef World<T> Wd; struct Op { std::string name; std::function<void(Wd&)> f; }; std::vector<Op> ops;
  auto ok = [](bool c) { if (!c) throw Skip(); };
  auto nm = [](const char* f, int a, int b2) { char t[64]; snprintf(t, sizeof t, f, a, b2); return std::string(t); };
  for (int i = 0; i < 2; ++i) {
    for (size_t k = 0; k < sp.make.size(); ++k) ops.push_back({nm("o%d = new ", i, 0) + sp.make[k].first, [=, &sp](Wd& w) { ok(!w.s[i]); w.s[i] = sp.make[k].second(); w.r[i] = (int)k; }});
    ops.push_back({nm("o%d = new copy of o%d", i, 1 - i), [=](Wd& w) { ok(w.s[1 - i] && !w.s[i]); w.s[i] = new T(*w.s[1 - i]); w.r[i] = w.r[1 - i]; }});
    for (int j = 0; j < 2; ++j) ops.push_back({nm("*o%d = *o%d", i, j), [=](Wd& w) { ok(w.s[i] && w.s[j]); *w.s[i] = *(T const*)w.s[j]; w.r[i] = w.r[j]; }});
    ops.push_back({nm("delete o%d", i, 0), [=](Wd& w) { ok(w.s[i]); delete w.s[i]; w.s[i] = NULL; }});
    for (auto& a : sp.set) { auto f = a.f; int fr = a.from, to = a.to; ops.push_back({nm("o%d: ", i, 0) + a.name, [=](Wd& w) { ok(w.s[i] && (fr < 0 || w.r[i] == fr)); f(*w.s[i]); w.r[i] = to; }}); }
    ops.push_back({nm("v.push_back(*o%d)", i, 0), [=](Wd& w) { ok(w.s[i] && w.v.size() < 3); w.v.push_back(*w.s[i]); w.vr.push_back(w.r[i]); }});
    ops.push_back({nm("v.insert(begin, *o%d)", i, 0), [=](Wd& w) { ok(w.s[i] && !w.v.empty() && w.v.size() < 3); w.v.insert(w.v.begin(), *w.s[i]); w.vr.insert(w.vr.begin(), w.r[i]); }});
    ops.push_back({nm("v[0] = *o%d", i, 0), [=](Wd& w) { ok(w.s[i] && !w.v.empty()); w.v[0] = *w.s[i]; w.vr[0] = w.r[i]; }});
    ops.push_back({nm("*o%d = v.back()", i, 0), [=](Wd& w) { ok(w.s[i] && !w.v.empty()); *w.s[i] = w.v.back(); w.r[i] = w.vr.back(); }});
    ops.push_back({nm("o%d = new copy of v[0]", i, 0), [=](Wd& w) { ok(!w.s[i] && !w.v.empty()); w.s[i] = new T(w.v[0]); w.r[i] = w.vr[0]; }});
  }
  ops.push_back({"swap(*o0, *o1)", [=](Wd& w) { ok(w.s[0] && w.s[1]); std::swap(*w.s[0], *w.s[1]); std::swap(w.r[0], w.r[1]); }});
  ops.push_back({"v.push_back(v[0])", [=](Wd& w) { ok(!w.v.empty() && w.v.size() < 3); w.v.push_back(w.v[0]); w.vr.push_back(w.vr[0]); }});
  ops.push_back({"v.erase(begin)", [=](Wd& w) { ok(!w.v.empty()); w.v.erase(w.v.begin()); w.vr.erase(w.vr.begin()); }});
  ops.push_back({"v.resize(1)", [=](Wd& w) { ok(w.v.size() > 1); w.v.erase(w.v.begin() + 1, w.v.end()); w.vr.resize(1); }});
  ops.push_back({"copy of v, v released", [=](Wd& w) { ok(!w.v.empty()); std::vector<T> c(w.v); w.v.clear(); w.v.swap(c); }});
  std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& h) {
    bool enabled = true; std::string name; if (!h.empty()) {
      for (int i : h) name += (name.empty() ? "" : "; ") + ops[i].name; name = sp.name + ": " + name; vr::cur(name); ++vr::states; if (h.size() >= 3) vr::sample(name); long live = g_live, ru = rules; std::string bad;
      { Wd w; try { for (int i : h) { ops[i].f(w); ++vr::transitions; } } catch (Skip&) { enabled = false; } catch (std::exception const& e) { bad = e.what(); }
        if (enabled && bad.empty()) { ++vr::validated; ++vr::nontrivial; for (int i = 0; i < 2; ++i) if (w.s[i]) { std::string o = obs(*w.s[i]); if (o != sp.want[w.r[i]]) bad += nm("o%d is ", i, 0) + o + " instead of " + sp.want[w.r[i]] + "; "; }
          if (w.v.size() != w.vr.size()) bad += "length of v; "; else for (size_t i = 0; i < w.v.size(); ++i) { std::string o = obs(w.v[i]); if (o != sp.want[w.vr[i]]) bad += nm("v[%d] is ", (int)i, 0) + o + " instead of " + sp.want[w.vr[i]] + "; "; } } }
      { std::string t; t.swap(bad); bool leak = g_live != live + (t.capacity() > 15 ? 1 : 0) || rules != ru; if (!t.empty()) vr::fail(name, t); else if (leak) vr::fail("released " + name, "the memory of the history is not balanced"); }
    }
    if (!enabled || (int)h.size() >= depth) return;
    for (size_t i = 0; i < ops.size(); ++i) { h.push_back((int)i); if (h.size() != 3 || vr::mine()) rec(h); h.pop_back(); }   // sharded at the third step
  };
  std::vector<int> h; h.reserve(16); rec(h);
}
static void warm() { vm::latex_translator t; obs(t); vm::numerical_quadrature q(new Rule(1)); obs(q); }
int main(int argc, char** argv) {
  vr::init(argc, argv); int D = vr::thorough ? 6 : 5; onev = new vm::vector_expr(1); (*onev)[0] = x; smp = new expr(x * y); warm();
  static vm::ct_constant<4> c4; static vm::ct_variable<0> cx; static vm::ct_variable<1> cy; (void)cx; (void)cy;
  { typedef vm::unary_expr T; Spec<T> s; s.name = "unary_expr"; s.make = {{"sin(x)", [] { return new T(vm::sin(x)); }}, {"exp(cos(x*y))", [] { return new T(vm::exp(vm::cos(x * y))); }}}; s.want = {str(U(SIN, X(0))), str(U(EXP, U(COS, B(MUL, X(0), X(1)))))};
    P idp = read(new T(constant(2.5))); T five(constant(4.0)); s.want.push_back(str(idp)); s.want.push_back(str(read(&five)));
    s.want.push_back(str(U(COS, B(MUL, X(0), X(1)))));
    s.set = {{"= 2.5", -1, 2, [](T& o) { o = 2.5; }}, {"= constant(2.5)", -1, 2, [](T& o) { constant c(2.5); o = c; }}, {"= ct_constant<4>", -1, 3, [](T& o) { o = c4; }}, {"= its operand", 1, 4, [](T& o) { o = *dynamic_cast<T const*>(o.lhs()); }}};
    explore(s, D); }
  { typedef vm::binary_expr T; Spec<T> s; s.name = "binary_expr"; s.make = {{"x+y", [] { return new T(x + y); }}, {"(x-2)/sin(y)", [] { return new T((x - 2.0) / vm::sin(y)); }}}; s.want = {str(B(ADD, X(0), X(1))), str(B(DIV, B(SUB, X(0), C(2)), U(SIN, X(1))))};
    T t1(x + y); t1 = 2.5; T t2(x + y); t2 = c4; s.want.push_back(str(read(&t1))); s.want.push_back(str(read(&t2))); s.want.push_back(str(B(SUB, X(0), C(2)))); s.want.push_back(str(B(MUL, X(0), X(1))));
    s.set = {{"= 2.5", -1, 2, [](T& o) { o = 2.5; }}, {"= constant(2.5)", -1, 2, [](T& o) { constant c(2.5); o = c; }}, {"= ct_constant<4>", -1, 3, [](T& o) { o = c4; }}, {"= its left operand", 1, 4, [](T& o) { o = *dynamic_cast<T const*>(o.lhs()); }}, {"= ct x*y", -1, 5, [](T& o) { o = cx * cy; }}};
    explore(s, D); }
  { typedef vm::vector_expr T; Spec<T> s; s.name = "vector_expr"; auto w = [](std::vector<P> c) { std::string r = str(mk(VEC, 0, 0, 0, c)) + "#" + std::to_string(c.size()); for (auto& p : c) r += "," + str(p); return r; };
    s.make = {{"(x,sin(y))", [] { T* o = new T(2); (*o)[0] = x; (*o)[1] = vm::sin(y); return o; }}, {"(x*y,2,y)", [] { T* o = new T(3); (*o)[0] = x * y; (*o)[1] = 2.0; (*o)[2] = y; return o; }}};
    s.want = {w({X(0), U(SIN, X(1))}), w({B(MUL, X(0), X(1)), C(2), X(1)}), w({U(SIN, X(1)), U(SIN, X(1))}), w({X(0), X(0)}), w({B(MUL, X(0), X(1)), B(ADD, B(MUL, X(0), X(1)), X(1)), X(1)})};
    s.set = {{"v[0] = v[1]", 0, 2, [](T& o) { o[0] = o[1]; }}, {"v[1] = v[0]", 0, 3, [](T& o) { o[1] = o[0]; }}, {"v[1] = v[0] + v[2]", 1, 4, [](T& o) { o[1] = o[0] + o[2]; }}};
    explore(s, D); }
  { typedef vm::interval T; Spec<T> s; s.name = "interval"; s.make = {{"[x;y+1]", [] { return new T(expr(x), expr(y + 1.0)); }}, {"[0;sin(x)]", [] { return new T(0.0, expr(vm::sin(x))); }}}; s.want = {"[" + str(X(0)) + ";" + str(B(ADD, X(1), C(1))) + "]", "[" + str(C(0)) + ";" + str(U(SIN, X(0))) + "]", "[" + str(C(0)) + ";" + str(C(0)) + "]"};
    s.set = {{"= interval(x,y+1)", -1, 0, [](T& o) { o = T(expr(x), expr(y + 1.0)); }}, {"= interval of its own bounds", 1, 1, [](T& o) { o = T(o.lower(), o.upper()); }}};
    explore(s, D); }
  { typedef vm::equation T; Spec<T> s; s.name = "equation"; s.make = {{"x+y=2", [] { return new T(expr(x + y), expr(2.0)); }}, {"sin(x)=y", [] { return new T(expr(vm::sin(x)), expr(y)); }}, {"empty", [] { return new T(); }}}; s.want = {str(B(ADD, X(0), X(1))) + "=" + str(C(2)), str(U(SIN, X(0))) + "=" + str(X(1)), "(empty)=(empty)", str(X(1)) + "=" + str(U(SIN, X(0)))};
    s.set = {{"= equation with swapped sides", 1, 3, [](T& o) { o = T(o.rhs(), o.lhs()); }}};
    explore(s, D); }
  { typedef variable T; Spec<T> s; s.name = "variable"; s.make = {{"x0", [] { return new T(0); }}, {"x7", [] { return new T(7); }}}; s.want = {obs(T(0)), obs(T(7))}; explore(s, D); }
  { typedef constant T; Spec<T> s; s.name = "constant"; s.make = {{"2.5", [] { return new T(2.5); }}, {"-3", [] { return new T(-3.0); }}}; s.want = {obs(T(2.5)), obs(T(-3.0))}; explore(s, D); }
  { typedef function_symbol T; Spec<T> s; s.name = "function_symbol"; s.make = {{"u0", [] { return new T(0ul); }}, {"v3", [] { return new T(3ul, vm::test_tag<0>()); }}, {"u3", [] { return new T(3ul); }}}; s.want = {obs(T(0ul)), obs(T(3ul, vm::test_tag<0>())), obs(T(3ul))}; explore(s, D); }
  { typedef vm::symbolic_interval T; Spec<T> s; s.name = "symbolic_interval"; s.make = {{"0", [] { return new T(); }}, {"5", [] { return new T(5); }}}; s.want = {"W0", "W5"}; explore(s, D); }
  { typedef vm::numerical_quadrature T; Spec<T> s; s.name = "numerical_quadrature"; s.make = {{"rule A", [] { return new T(new Rule(3)); }}, {"rule B", [] { return new T(new Rule(-7)); }}, {"gauss", [] { return new T(new vm::gauss_quad_1()); }}}; s.want = {num(3), num(-7), num(1)};
    s.set = {{"= rule A", -1, 0, [](T& o) { T t(new Rule(3)); o = t; }}, {"= default, = rule B", -1, 1, [](T& o) { T e, t(new Rule(-7)); o = e; o = t; }}};
    explore(s, D); }
  { typedef vm::latex_translator T; Spec<T> s; s.name = "latex_translator"; s.make = {{"default", [] { return new T(); }}, {"x named a", [] { T* t = new T(); t->customize(x, "a"); return t; }}, {"with own processor", [] { T* t = new T(); t->add_processor(new Own("Q")); return t; }}};
    T d; std::string xs = d(x), ys = d(y), us = d(uf), unk = d(expr(*onev)); auto w = [&](std::string a, std::string v, std::string u) { std::string pr = d(*smp); size_t p = pr.find(xs); return pr.substr(0, p) + a + pr.substr(p + xs.size()) + "|" + v + "|" + u; };
    s.want = {w(xs, unk, us), w("a", unk, us), w(xs, "Q", us), w("bb", unk, us), w("a", unk, "F"), w(xs, "R", us)};
    s.set = {{"customize x again", 1, 3, [](T& o) { o.customize(x, "bb"); }}, {"customize u", 1, 4, [](T& o) { o.customize(uf, "F"); }}, {"customize vector", 2, 5, [](T& o) { o.customize(*onev, "R"); }}, {"customize x", 0, 1, [](T& o) { o.customize(x, "a"); }}};
    std::cerr.setstate(std::ios::failbit); explore(s, vr::thorough ? 5 : 4); }
  return vr::finish();
}
