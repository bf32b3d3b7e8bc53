// C09: handles are independent values over every bounded history (each history is replayed from scratch).
#include <new>
#include <cstdlib>
using std::size_t;
static long g_live = 0;
void* operator new(size_t n) { ++g_live; void* p = malloc(n ? n : 1); return p; }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --g_live; free(p); }
#include <cstdlib>
#include "build.hpp"
using namespace m; using namespace b;
static const variable x(0), y(1); static function_symbol usym(0); static vm::ct_variable<0> cx; static vm::ct_variable<1> cy; static vm::ct_constant<4> c4;
struct Skip {};
struct World {
  expr* h[3]; P p[3]; vm::binary_expr* bb[2]; P pb[2]; vm::unary_expr* uu[2]; P pu[2]; std::string bad; vm::equation* eq; P pe[2]; vm::interval* in; P pi[2];
  World() {
    h[0] = new expr(x * y + 2.0); p[0] = B(ADD, B(MUL, X(0), X(1)), C(2)); h[1] = new expr(vm::sin(x)); p[1] = U(SIN, X(0)); h[2] = new expr(3.5); p[2] = C(3.5);
    bb[0] = new vm::binary_expr(x * (y + x)); pb[0] = B(MUL, X(0), B(ADD, X(1), X(0))); bb[1] = new vm::binary_expr((x / y) - 1.5); pb[1] = B(SUB, B(DIV, X(0), X(1)), C(1.5));
    uu[0] = new vm::unary_expr(vm::exp(vm::sin(x))); pu[0] = U(EXP, U(SIN, X(0))); uu[1] = new vm::unary_expr(vm::cos(x + y)); pu[1] = U(COS, B(ADD, X(0), X(1)));
    eq = new vm::equation(x + y, expr(2.0)); pe[0] = B(ADD, X(0), X(1)); pe[1] = C(2); in = new vm::interval(expr(x), expr(vm::sin(y))); pi[0] = X(0); pi[1] = U(SIN, X(1));
  }
  ~World() { for (auto q : h) delete q; for (auto q : bb) delete q; for (auto q : uu) delete q; delete eq; delete in; }
  void same(const char* w, int i, If const* e, P const& want) {
    P got = read(e);
    if (!got && !want) return;
    if (!got || !want || !m::eq(got, want)) bad += std::string(w) + std::to_string(i) + " denotes " + (got ? str(got) : "(empty)") + " instead of " + (want ? str(want) : "(empty)") + "; ";
  }
  void check(bool objs) {
    for (int i = 0; i < 3; ++i) same("h", i, h[i]->get(), p[i]);
    if (!objs) return;
    for (int i = 0; i < 2; ++i) { same("binary", i, bb[i], pb[i]); same("unary", i, uu[i], pu[i]); }
    same("equation side ", 0, eq->lhs().get(), pe[0]); same("equation side ", 1, eq->rhs().get(), pe[1]); same("interval bound ", 0, in->lower().get(), pi[0]); same("interval bound ", 1, in->upper().get(), pi[1]);
  }
};
typedef std::function<void(World&)> Fn; struct Op { std::string name; Fn f; };
static void need(P const& p) { if (!p) throw Skip(); }
static void small(P const& p) { need(p); if (p->ops > 14) throw Skip(); }
static If const* part(If const* e, int k) { if (auto q = dynamic_cast<vm::binary_expr const*>(e)) return k ? q->rhs() : q->lhs(); if (auto q = dynamic_cast<vm::unary_expr const*>(e)) return k ? NULL : q->lhs(); return NULL; }
// assignment from a reference to a node living inside some handle, with its static node type
static void assign_ref(expr& t, If const* n) {
  if (auto q = dynamic_cast<vm::binary_expr const*>(n)) t = *q; else if (auto q = dynamic_cast<vm::unary_expr const*>(n)) t = *q; else if (auto q = dynamic_cast<variable const*>(n)) t = *q;
  else if (auto q = dynamic_cast<constant const*>(n)) t = *q; else if (auto q = dynamic_cast<function_symbol const*>(n)) t = *q; else if (auto q = dynamic_cast<vm::vector_expr const*>(n)) t = *q; else throw Skip();
}
static bool arith(P const& p) { return !has_kind(p, FS) && !has_kind(p, VEC) && !has_kind(p, FABS); }
static std::vector<Op> ops; 
static std::string n(const char* f, int i, int j = -1, int k = -1) { char b2[96]; snprintf(b2, sizeof b2, f, i, j, k); return b2; }
static void handle_ops(bool full) {
  for (int i = 0; i < 3; ++i) {
    ops.push_back({n("h%d = 2.5", i), [i](World& w) { *w.h[i] = 2.5; w.p[i] = C(2.5); }});
    ops.push_back({n("h%d = y*y", i), [i](World& w) { *w.h[i] = y * y; w.p[i] = B(MUL, X(1), X(1)); }});
    if (full) {
      ops.push_back({n("h%d = constant(3)", i), [i](World& w) { constant c(3); *w.h[i] = c; w.p[i] = C(3); }});
      ops.push_back({n("h%d = ct_constant<4>", i), [i](World& w) { *w.h[i] = c4; w.p[i] = C(4); }});
      ops.push_back({n("h%d = y", i), [i](World& w) { *w.h[i] = y; w.p[i] = X(1); }});
      ops.push_back({n("h%d = ct_variable<1>", i), [i](World& w) { *w.h[i] = cy; w.p[i] = X(1); }});
      ops.push_back({n("h%d = u", i), [i](World& w) { *w.h[i] = usym; w.p[i] = F(0); }});
      ops.push_back({n("h%d = log(y)", i), [i](World& w) { *w.h[i] = vm::log(y); w.p[i] = U(LOG, X(1)); }});
      ops.push_back({n("h%d = ct x*y-4", i), [i](World& w) { *w.h[i] = cx * cy - c4; w.p[i] = B(SUB, B(MUL, X(0), X(1)), C(4)); }});
      ops.push_back({n("h%d = vector(y,2)", i), [i](World& w) { vm::vector_expr v(2); v[0] = y; v[1] = 2.0; *w.h[i] = v; w.p[i] = mk(VEC, 0, 0, 0, {X(1), C(2)}); }});
      ops.push_back({n("h%d = expr()", i), [i](World& w) { *w.h[i] = expr(); w.p[i] = P(); }});
      ops.push_back({n("h%d = new variable", i), [i](World& w) { *w.h[i] = new variable(3); w.p[i] = X(3); }});
    }
    ops.push_back({n("inplace_simplify(h%d)", i), [i](World& w) { need(w.p[i]); expr t = vm::simplify(*w.h[i]); P e = read(t); vm::inplace_simplify(*w.h[i]); w.p[i] = e; }});
    ops.push_back({n("h%d = diff(h%d, x)", i, i), [i](World& w) { small(w.p[i]); if (!arith(w.p[i])) throw Skip(); expr t = vm::diff(*w.h[i], x); P e = read(t); *w.h[i] = vm::diff(*w.h[i], x); w.p[i] = e; }});
    for (int k = 0; k < 2; ++k) {
      ops.push_back({n(k ? "h%d = rhs of h%d (by reference)" : "h%d = operand of h%d (by reference)", i, i), [i, k](World& w) { need(w.p[i]); If const* q = part(w.h[i]->get(), k); if (!q || w.p[i]->k >= GRAD) throw Skip(); assign_ref(*w.h[i], q); w.p[i] = w.p[i]->ch[k]; }});
      if (full) ops.push_back({n(k ? "h%d = rhs of h%d (clone)" : "h%d = operand of h%d (clone)", i, i), [i, k](World& w) { need(w.p[i]); If const* q = part(w.h[i]->get(), k); if (!q || w.p[i]->k >= GRAD) throw Skip(); *w.h[i] = q->clone(); w.p[i] = w.p[i]->ch[k]; }});
    }
    for (int j = 0; j < 3; ++j) {
      ops.push_back({n("h%d = h%d", i, j), [i, j](World& w) { *w.h[i] = *w.h[j]; w.p[i] = w.p[j]; }});
      ops.push_back({n("h%d = h%d * h%d", i, j, i), [i, j](World& w) { small(w.p[i]); small(w.p[j]); *w.h[i] = *w.h[j] * *w.h[i]; w.p[i] = B(MUL, w.p[j], w.p[i]); }});
      if (!full) continue;
      ops.push_back({n("h%d = h%d - h%d", i, i, j), [i, j](World& w) { small(w.p[i]); small(w.p[j]); *w.h[i] = *w.h[i] - *w.h[j]; w.p[i] = B(SUB, w.p[i], w.p[j]); }});
      ops.push_back({n("h%d = exp(h%d)", i, j), [i, j](World& w) { small(w.p[j]); *w.h[i] = vm::exp(*w.h[j]); w.p[i] = U(EXP, w.p[j]); }});
      ops.push_back({n("h%d = simplify(h%d)", i, j), [i, j](World& w) { need(w.p[j]); expr t = vm::simplify(*w.h[j]); P e = read(t); *w.h[i] = vm::simplify(*w.h[j]); w.p[i] = e; }});
      ops.push_back({n("h%d = substitute(x, h%d, h%d)", i, j, i), [i, j](World& w) { small(w.p[j]); small(w.p[i]); expr t(w.h[i]->get()->substitute(&x, w.h[j]->get())); if (!m::eq(read(t), subst(w.p[i], {X(0)}, {w.p[j]}))) w.bad += "substitute gives " + str(read(t)); P e = read(vm::simplify(t)); *w.h[i] = vm::substitute(x, *w.h[j], *w.h[i]); w.p[i] = e; }});
      ops.push_back({n("destroy h%d; construct from h%d", i, j), [i, j](World& w) { expr* nw = new expr(*w.h[j]); delete w.h[i]; w.h[i] = nw; w.p[i] = w.p[j]; }});
      if (j < i) ops.push_back({n("swap(h%d, h%d)", i, j), [i, j](World& w) { std::swap(*w.h[i], *w.h[j]); std::swap(w.p[i], w.p[j]); }});
      ops.push_back({n("vector of copies of h%d, last one to h%d", j, i), [i, j](World& w) { std::vector<expr> v(2, *w.h[j]); v.push_back(*w.h[i]); v.push_back(*w.h[j]); *w.h[i] = v.back(); w.p[i] = w.p[j]; }});
    }
  }
}
static void object_ops() {
  for (int i = 0; i < 2; ++i) {
    for (int j = 0; j < 2; ++j) {
      ops.push_back({n("b%d = b%d", i, j), [i, j](World& w) { *w.bb[i] = *w.bb[j]; w.pb[i] = w.pb[j]; }});
      ops.push_back({n("u%d = u%d", i, j), [i, j](World& w) { *w.uu[i] = *w.uu[j]; w.pu[i] = w.pu[j]; }});
      ops.push_back({n("b%d = b%d + h0", i, j), [i, j](World& w) { small(w.pb[j]); small(w.p[0]); *w.bb[i] = *w.bb[j] + *w.h[0]; w.pb[i] = B(ADD, w.pb[j], w.p[0]); }});
      ops.push_back({n("b%d = u%d / b%d", i, j, i), [i, j](World& w) { small(w.pb[i]); small(w.pu[j]); *w.bb[i] = *w.uu[j] / *w.bb[i]; w.pb[i] = B(DIV, w.pu[j], w.pb[i]); }});
      ops.push_back({n("u%d = sqrt(u%d)", i, j), [i, j](World& w) { small(w.pu[j]); *w.uu[i] = vm::sqrt(*w.uu[j]); w.pu[i] = U(SQRT, w.pu[j]); }});
      ops.push_back({n("u%d = tan(b%d)", i, j), [i, j](World& w) { small(w.pb[j]); *w.uu[i] = vm::tan(*w.bb[j]); w.pu[i] = U(TAN, w.pb[j]); }});
    }
    for (int k = 0; k < 2; ++k) ops.push_back({n(k ? "b%d = its rhs" : "b%d = its lhs", i), [i, k](World& w) { auto q = dynamic_cast<vm::binary_expr const*>(k ? w.bb[i]->rhs() : w.bb[i]->lhs()); if (!q) throw Skip(); *w.bb[i] = *q; w.pb[i] = w.pb[i]->ch[k]; }});
    ops.push_back({n("u%d = its operand", i), [i](World& w) { auto q = dynamic_cast<vm::unary_expr const*>(w.uu[i]->lhs()); if (!q) throw Skip(); *w.uu[i] = *q; w.pu[i] = w.pu[i]->ch[0]; }});
    auto numb = [](World& w, int i2, bool bin, double v) { If const* e = bin ? (If const*)w.bb[i2] : (If const*)w.uu[i2]; P q = read(e); if (has_var(q) || std::fabs(ieee(q, {0, 0, 0, 0}) - v) > 0) w.bad += "assigned number is read as " + str(q); std::vector<double> z(2, 0.5); if (e->eval(z) != v) w.bad += "assigned number evaluates to " + m::num(e->eval(z)); (bin ? w.pb[i2] : w.pu[i2]) = q; };
    ops.push_back({n("b%d = 2.5", i), [i, numb](World& w) { *w.bb[i] = 2.5; numb(w, i, true, 2.5); }});
    ops.push_back({n("b%d = constant(3)", i), [i, numb](World& w) { constant c(3); *w.bb[i] = c; numb(w, i, true, 3); }});
    ops.push_back({n("b%d = ct_constant<4>", i), [i, numb](World& w) { *w.bb[i] = c4; numb(w, i, true, 4); }});
    ops.push_back({n("b%d = ct x*y-4", i), [i](World& w) { *w.bb[i] = cx * cy - c4; w.pb[i] = B(SUB, B(MUL, X(0), X(1)), C(4)); }});
    ops.push_back({n("u%d = 2.5", i), [i, numb](World& w) { *w.uu[i] = 2.5; numb(w, i, false, 2.5); }});
    ops.push_back({n("u%d = ct_constant<4>", i), [i, numb](World& w) { *w.uu[i] = c4; numb(w, i, false, 4); }});
    ops.push_back({n("h0 = b%d", i), [i](World& w) { *w.h[0] = *w.bb[i]; w.p[0] = w.pb[i]; }});
    ops.push_back({n("h0 = u%d", i), [i](World& w) { *w.h[0] = *w.uu[i]; w.p[0] = w.pu[i]; }});
  }
  ops.push_back({"h0 = h1", [](World& w) { *w.h[0] = *w.h[1]; w.p[0] = w.p[1]; }});
  ops.push_back({"equation = (b0, h0)", [](World& w) { *w.eq = vm::equation(*w.bb[0], *w.h[0]); w.pe[0] = w.pb[0]; w.pe[1] = w.p[0]; }});
  ops.push_back({"equation = (rhs, lhs) of itself", [](World& w) { *w.eq = vm::equation(w.eq->rhs(), w.eq->lhs()); std::swap(w.pe[0], w.pe[1]); }});
  ops.push_back({"equation = itself", [](World& w) { *w.eq = *w.eq; vm::equation c(*w.eq); *w.eq = c; }});
  ops.push_back({"h0 = left side", [](World& w) { *w.h[0] = w.eq->lhs(); w.p[0] = w.pe[0]; }});
  ops.push_back({"interval = (u0, h0)", [](World& w) { vm::interval t(*w.uu[0], *w.h[0]); *w.in = t; w.pi[0] = w.pu[0]; w.pi[1] = w.p[0]; }});
  ops.push_back({"interval = itself", [](World& w) { *w.in = *w.in; vm::interval c(*w.in); *w.in = c; }});
  ops.push_back({"h0 = upper bound", [](World& w) { *w.h[0] = w.in->upper(); w.p[0] = w.pi[1]; }});
}
static void run(std::vector<int> const& hist, bool objs) {
  std::string key; for (int o : hist) key += (key.empty() ? "" : "; ") + ops[o].name; vr::cur(key);
  std::string bad; bool skip = false; long before = g_live;
  {
    World w;
    try { for (int o : hist) { ops[o].f(w); ++vr::transitions; w.check(objs); if (!w.bad.empty()) break; } } catch (Skip&) { skip = true; } catch (std::exception const& e) { w.bad += std::string("unexpected exception ") + e.what(); }
    bad = w.bad; w.bad = std::string();
    if (skip) w.p[0] = P();
  }
  long grown = g_live - before - (bad.capacity() > 15 ? 1 : 0);
  if (skip) { ++vr::counters["inapplicable"]; }
  ++vr::states; ++vr::validated; if ((vr::states & 511) == 1) vr::sample(key);
  if (!bad.empty()) vr::fail(key, bad);
  else if (grown != 0 && !skip) vr::fail("leak " + key, std::to_string(grown) + " allocations are never released");
}
static void explore(int depth, bool objs) {
  std::vector<int> h(depth, 0);
  for (;;) {
    if (vr::mine()) run(h, objs);
    int i = depth - 1; for (; i >= 0; --i) { if (++h[i] < (int)ops.size()) break; h[i] = 0; }
    if (i < 0) break;
  }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  ops.clear(); handle_ops(true); { std::vector<int> warm(1, 0); for (size_t i = 0; i < ops.size(); ++i) { warm[0] = i; World w; try { ops[i].f(w); } catch (Skip&) {} } vr::counters["handle_ops"] = vr::shard ? 0 : ops.size(); }
  vr::counters["inapplicable"] += 0;
  explore(1, false); explore(2, false); if (T) explore(3, false);
  else { // length 3: an arbitrary operation, a core operation, an arbitrary operation
    size_t nf = ops.size(); handle_ops(false); for (size_t a = 0; a < nf; ++a) for (size_t c = nf; c < ops.size(); ++c) for (size_t d = 0; d < nf; ++d) if (vr::mine()) run({(int)a, (int)c, (int)d}, false); }
  ops.clear(); handle_ops(false); vr::counters["core_ops"] = vr::shard ? 0 : ops.size(); explore(3, false); if (T) explore(4, false);
  ops.clear(); object_ops(); vr::counters["object_ops"] = vr::shard ? 0 : ops.size(); explore(1, true); explore(2, true); explore(3, true); if (T) explore(4, true);
  // documented defect: storage leaked when differentiation raises in the middle (see DESIGN.md)
  if (vr::shard == 0) {
    std::vector<P> ps; P bad[] = {U(FABS, X(0)), F(0), F(0, 1)};
    for (P q : bad) { for (Kind k : ALLBIN) for (P o : {X(0), C(2), U(SIN, X(0))}) { ps.push_back(B(k, q, o)); ps.push_back(B(k, o, q)); for (Kind k2 : ALLBIN) { ps.push_back(B(k2, B(k, q, o), o)); ps.push_back(B(k2, o, B(k, o, q))); ps.push_back(B(k2, o, B(k, q, o))); } } for (Kind f : ALLFUN) { ps.push_back(U(f, q)); ps.push_back(U(f, B(DIV, X(0), q))); ps.push_back(B(MUL, X(0), U(f, q))); } ps.push_back(mk(VEC, 0, 0, 0, {X(0), q, X(1)})); }
    for (P p : ps) {
      vr::cur("diff raising " + str(p)); long l0 = 0, l1 = 0; bool raised = false;
      for (int rep = 0; rep < 2; ++rep) { l0 = g_live; { expr e = build(p); try { expr d = vm::diff(e, x); } catch (std::exception const&) { raised = true; } } l1 = g_live; }
      ++vr::states; ++vr::transitions; if (!raised) ++vr::counters["did_not_raise"]; if (l1 != l0) vr::fail("leak-on-exception diff " + str(p), "memory is not released when differentiation raises");
    }
  }
  return vr::finish();
}
