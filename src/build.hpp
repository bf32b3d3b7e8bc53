// Building viennamath expressions from model trees through the public API only.
#ifndef VERIF_BUILD_HPP
#define VERIF_BUILD_HPP
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "model.hpp"
#include "run.hpp"
namespace b {
namespace vm = viennamath;
using vm::expr; using vm::variable; using vm::constant; using vm::function_symbol;
typedef vm::default_interface_type If;

template <class T> vm::unary_expr ufun(m::Kind k, T const& a) {
  switch (k) {
    case m::EXP: return vm::exp(a); case m::SIN: return vm::sin(a); case m::COS: return vm::cos(a);
    case m::TAN: return vm::tan(a); case m::FABS: return vm::fabs(a); case m::SQRT: return vm::sqrt(a);
    case m::LOG: return vm::log(a); case m::LOG10: return vm::log10(a); default: abort();
  }
}
template <class A, class Bt> expr bop(m::Kind k, A const& a, Bt const& c) {
  switch (k) {
    case m::ADD: return expr(a + c); case m::SUB: return expr(a - c);
    case m::MUL: return expr(a * c); case m::DIV: return expr(a / c); default: abort();
  }
}
// plain builder: everything through handles
inline expr build(m::P const& p) {
  switch (p->k) {
    case m::CONST: return expr(p->c);
    case m::VAR: return expr(variable(p->id));
    case m::FS: return expr(function_symbol(p->id, p->tag));
    case m::ADD: case m::SUB: case m::MUL: case m::DIV: { expr l = build(p->ch[0]), r = build(p->ch[1]); return bop(p->k, l, r); }
    case m::EXP: case m::SIN: case m::COS: case m::TAN: case m::FABS: case m::SQRT: case m::LOG: case m::LOG10: {
      expr a = build(p->ch[0]); return expr(ufun(p->k, a)); }
    case m::SYMINT: { expr a = build(p->ch[0]); return vm::integral(vm::symbolic_interval(p->id), a); }
    case m::INTEG: { expr a = build(p->ch[0]), lo = build(p->ch[1]), hi = build(p->ch[2]);
      return vm::integral(vm::interval(lo, hi), a, variable(p->tag)); }
    case m::VEC: { vm::vector_expr v(p->ch.size()); for (size_t i = 0; i < p->ch.size(); ++i) v[i] = build(p->ch[i]); return expr(v); }
    case m::GRAD: { m::P q = p->ch[0]; if (q->k == m::FS) return expr(vm::grad(function_symbol(q->id, q->tag)));
      expr a = build(q); return expr(static_cast<If const*>(new vm::unary_expr(a.get()->clone(), new vm::op_unary<vm::op_gradient<double>, If>()))); }
    case m::PD: { m::P q = p->ch[0]; if (q->k == m::FS) return expr(vm::diff(function_symbol(q->id, q->tag), variable(p->id)));
      expr a = build(q); return expr(static_cast<If const*>(new vm::unary_expr(a.get()->clone(), new vm::op_unary<vm::op_partial_deriv<double>, If>(vm::op_partial_deriv<double>(p->id))))); }
    case m::DIVG: { m::P q = p->ch[0]; if (q->k == m::FS) return expr(vm::div(function_symbol(q->id, q->tag))); expr a = build(q); return expr(vm::div(a)); }
  }
  abort();
}
// natural builder: operands keep the C++ type the operators return
struct Obj { int t; double d; std::shared_ptr<variable> v; std::shared_ptr<constant> c; std::shared_ptr<vm::binary_expr> be;
  std::shared_ptr<vm::unary_expr> ue; std::shared_ptr<expr> e; std::shared_ptr<function_symbol> f; Obj() : t(-1), d(0) {} };
enum { TD, TC, TV, TB, TU, TE, TF };
template <class Fn> void with(Obj const& o, Fn fn) {
  switch (o.t) { case TD: fn(o.d); break; case TC: fn(*o.c); break; case TV: fn(*o.v); break; case TB: fn(*o.be); break;
    case TU: fn(*o.ue); break; case TE: fn(*o.e); break; case TF: fn(*o.f); break; default: abort(); }
}
inline expr to_expr(Obj const& o) { expr r; with(o, [&](auto const& x) { r = expr(x); }); return r; }
inline Obj wrap(expr const& x) { Obj o; o.t = TE; o.e = std::make_shared<expr>(x); return o; }
template <class A, class Bt> Obj bobj(m::Kind k, A const& a, Bt const& c) {
  Obj o; o.t = TB;
  switch (k) {
    case m::ADD: o.be = std::make_shared<vm::binary_expr>(a + c); break; case m::SUB: o.be = std::make_shared<vm::binary_expr>(a - c); break;
    case m::MUL: o.be = std::make_shared<vm::binary_expr>(a * c); break; case m::DIV: o.be = std::make_shared<vm::binary_expr>(a / c); break; default: abort(); }
  return o;
}
inline Obj bobj(m::Kind, double const&, double const&) { abort(); }
// choices: bit string consumed left to right; each operand may be presented as handle
struct Choice { unsigned long bits; int used; int take(int n) { int r = bits % n; bits /= n; ++used; return r; } };
inline Obj natural(m::P const& p, Choice& ch, bool avoid_double = false) {
  Obj o;
  switch (p->k) {
    case m::CONST: { int w = ch.take(3); if (w == 0 && avoid_double) w = 1;
      if (w == 0) { o.t = TD; o.d = p->c; return o; } if (w == 1) { o.t = TC; o.c = std::make_shared<constant>(p->c); return o; } return wrap(expr(p->c)); }
    case m::VAR: if (ch.take(2)) return wrap(expr(variable(p->id))); o.t = TV; o.v = std::make_shared<variable>(p->id); return o;
    case m::FS: if (ch.take(2)) return wrap(expr(function_symbol(p->id, p->tag))); o.t = TF; o.f = std::make_shared<function_symbol>(p->id, p->tag); return o;
    default: break;
  }
  if (m::is_bin(p->k)) {
    Obj l = natural(p->ch[0], ch), r = natural(p->ch[1], ch, l.t == TD);
    with(l, [&](auto const& a) { with(r, [&](auto const& c) { o = bobj(p->k, a, c); }); });
  } else {
    Obj a = natural(p->ch[0], ch, true); o.t = TU;
    with(a, [&](auto const& x) {
      if constexpr (!std::is_same<std::decay_t<decltype(x)>, double>::value && !std::is_same<std::decay_t<decltype(x)>, function_symbol>::value)
        o.ue = std::make_shared<vm::unary_expr>(ufun(p->k, x));
      else if constexpr (std::is_same<std::decay_t<decltype(x)>, function_symbol>::value)
        o.ue = std::make_shared<vm::unary_expr>(ufun(p->k, expr(x)));
      else abort();
    });
  }
  if (ch.take(2)) return wrap(to_expr(o));
  return o;
}
// reading an expression back into the model, through the public node interface only
inline m::P (*extra_read)(If const*) = nullptr;   // nodes and operations defined by a harness
template <template <class> class Op> bool isb(vm::binary_expr const* e) { return dynamic_cast<vm::op_binary<Op<double>, If> const*>(e->op()) != NULL; }
template <template <class> class Op> bool isu(vm::unary_expr const* e) { return dynamic_cast<vm::op_unary<Op<double>, If> const*>(e->op()) != NULL; }
inline m::P read(If const* e) {
  if (!e) return m::P();
  if (extra_read) if (m::P x = extra_read(e)) return x;
  if (auto q = dynamic_cast<constant const*>(e)) return m::C(static_cast<double>(*q));
  if (auto q = dynamic_cast<variable const*>(e)) return m::X(q->id());
  if (auto q = dynamic_cast<function_symbol const*>(e)) return m::F(q->id(), q->tag_id());
  if (auto q = dynamic_cast<vm::vector_expr const*>(e)) { std::vector<m::P> ch; for (size_t i = 0; i < q->size(); ++i) ch.push_back(read((*q)[i].get())); return m::mk(m::VEC, 0, 0, 0, ch); }
  if (auto q = dynamic_cast<vm::binary_expr const*>(e)) {
    m::P l = read(q->lhs()), r = read(q->rhs());
    m::Kind k = isb<vm::op_plus>(q) ? m::ADD : isb<vm::op_minus>(q) ? m::SUB : isb<vm::op_mult>(q) ? m::MUL : isb<vm::op_div>(q) ? m::DIV : m::VEC;
    if (k == m::VEC) throw std::runtime_error("binary node with unknown operation");
    return m::B(k, l, r); }
  if (auto q = dynamic_cast<vm::unary_expr const*>(e)) {
    m::P a = read(q->lhs());
    if (isu<vm::op_id>(q)) return a;
    if (isu<vm::op_exp>(q)) return m::U(m::EXP, a);
    if (isu<vm::op_sin>(q)) return m::U(m::SIN, a);
    if (isu<vm::op_cos>(q)) return m::U(m::COS, a);
    if (isu<vm::op_tan>(q)) return m::U(m::TAN, a);
    if (isu<vm::op_fabs>(q)) return m::U(m::FABS, a);
    if (isu<vm::op_sqrt>(q)) return m::U(m::SQRT, a);
    if (isu<vm::op_log>(q)) return m::U(m::LOG, a);
    if (isu<vm::op_log10>(q)) return m::U(m::LOG10, a);
    if (isu<vm::op_gradient>(q)) return m::U(m::GRAD, a);
    if (isu<vm::op_divergence>(q)) return m::U(m::DIVG, a);
    if (auto o = dynamic_cast<vm::op_unary<vm::op_partial_deriv<double>, If> const*>(q->op())) return m::mk(m::PD, 0, o->op().id(), 0, {a});
    if (auto o = dynamic_cast<vm::op_unary<vm::op_rt_symbolic_integral<If>, If> const*>(q->op())) return m::mk(m::SYMINT, 0, o->op().interval().id(), 0, {a});
    if (auto o = dynamic_cast<vm::op_unary<vm::op_rt_integral<If>, If> const*>(q->op())) return m::mk(m::INTEG, 0, 0, o->op().variable().id(), {a, read(o->op().interval().lower().get()), read(o->op().interval().upper().get())});
    throw std::runtime_error("unary node with unknown operation"); }
  throw std::runtime_error("node of unknown kind");
}
inline m::P read(expr const& e) { return read(e.get()); }
inline bool deq(expr const& a, expr const& c) { return a.get()->deep_equal(c.get()); }

// node count through the public traversal interface
struct Counter : public vm::rt_traversal_interface<> { int* n; Counter(int* p) : n(p) {} void operator()(If const*) const { ++*n; } };
inline int nodes(expr const& e) { int n = 0; vm::rt_traversal_wrapper<> w(new Counter(&n)); e.get()->recursive_traversal(w); return n; }

static const std::vector<std::vector<double>> PTS = {
  {0.6, 1.7, -0.4}, {2.3, 0.45, 1.1}, {-1.25, 0.8, 3.0}, {1.0, 1.0, 1.0}, {0.0, 2.0, -1.0}, {-0.3, -2.2, 0.7}, {3.7, -0.9, -1.6}, {0.05, 5.0, 0.2}};
}
#endif
