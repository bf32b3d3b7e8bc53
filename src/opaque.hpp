// Equality of formulas up to simplification: opaque nodes (symbols, formal operators, integrals) act as smooth injective functions of their parts.
// Vectors have componentwise algebra; a scalar may stand for the zero vector (0*v simplifies to 0).
#ifndef VERIF_OPAQUE_HPP
#define VERIF_OPAQUE_HPP
#include "model.hpp"
namespace m {
struct OV { E s; std::vector<E> c; bool vec; OV(E e) : s(e), vec(false) {} OV(std::vector<E> const& x) : s(0), c(x), vec(true) {} };
inline bool ov_zero(E e) { return e.ok && std::fabs(e.v) <= 50 * e.e; }
inline OV ov_norm(std::vector<E> const& c) { bool z = true; double er = 0; for (auto& e : c) { if (!ov_zero(e)) z = false; er = std::max(er, e.e); } return z ? OV(E(0, er, true)) : OV(c); }
inline E ov_hash(OV const& o) { if (!o.vec) return o.s; E s(0.77 + 0.113 * o.c.size()); for (size_t i = 0; i < o.c.size(); ++i) s = s + E(0.319 + 0.231 * i + 0.017 * i * i) * o.c[i]; return s; }
inline OV evv(P const& p, std::vector<double> const& x);
inline E evo(P const& p, std::vector<double> const& x) { return ov_hash(evv(p, x)); }
inline OV evv(P const& p, std::vector<double> const& x) {
  auto h = [](E a, double s, double o) { return e_fun(SIN, a * E(s) + E(o)) + a * E(0.173); };
  if (is_bin(p->k)) {
    OV a = evv(p->ch[0], x), b = evv(p->ch[1], x); auto op = [&](E u, E v) { return p->k == ADD ? u + v : p->k == SUB ? u - v : p->k == MUL ? u * v : u / v; };
    if (!a.vec && !b.vec) return op(a.s, b.s);
    if (p->k == ADD || p->k == SUB) {
      size_t n = a.vec ? a.c.size() : b.c.size(); if (!a.vec && ov_zero(a.s)) a = OV(std::vector<E>(n, a.s)); if (!b.vec && ov_zero(b.s)) b = OV(std::vector<E>(n, b.s));
      if (a.vec && b.vec && a.c.size() == b.c.size()) { std::vector<E> r; for (size_t i = 0; i < a.c.size(); ++i) r.push_back(op(a.c[i], b.c[i])); return ov_norm(r); }
    } else if (p->k == MUL) {
      if (a.vec && b.vec && a.c.size() == b.c.size()) { E s(0); for (size_t i = 0; i < a.c.size(); ++i) s = s + a.c[i] * b.c[i]; return s; }
      if (a.vec != b.vec) { std::vector<E> r; for (auto& e : a.vec ? a.c : b.c) r.push_back(e * (a.vec ? b.s : a.s)); return ov_norm(r); }
    } else if (a.vec && !b.vec) { std::vector<E> r; for (auto& e : a.c) r.push_back(e / b.s); return ov_norm(r); }
    return op(ov_hash(a), ov_hash(b));
  }
  switch (p->k) {
    case CONST: return E(p->c);
    case VAR: return p->id < x.size() ? E(x[p->id]) : E(0.37 + 0.011 * p->id);
    case FS: return E(1.237 + std::sin(3.1 * p->id + 7.7 * p->tag + 0.5) * 0.9 + 0.0137 * (p->id % 1000) + 0.0331 * (p->tag % 100));
    case GRAD: return h(evo(p->ch[0], x), 0.71, 0.9);
    case DIVG: return h(evo(p->ch[0], x), 0.53, 1.9);
    case PD: return h(evo(p->ch[0], x), 0.61, 2.3 + 0.77 * p->id);
    case SYMINT: return h(evo(p->ch[0], x), 0.47, 0.2 + 0.83 * p->id);
    case INTEG: return h(evo(p->ch[0], x) + E(0.31) * evo(p->ch[1], x) + E(0.67) * evo(p->ch[2], x), 0.41, 1.1 + 0.59 * p->tag);
    case VEC: { std::vector<E> r; for (auto& q : p->ch) r.push_back(evo(q, x)); return ov_norm(r); }
    default: return fun(p->k, evo(p->ch[0], x));
  }
}
// not refuted: false only if some point tells the formulas apart (singular everywhere: undecided, counted)
inline long& undecided() { static long n = 0; return n; }
inline bool equiv(P const& a, P const& b) {
  if (eq(a, b)) return true;
  if (a->k == VEC && b->k == VEC) { if (a->ch.size() != b->ch.size()) return false; for (size_t i = 0; i < a->ch.size(); ++i) if (!equiv(a->ch[i], b->ch[i])) return false; return true; }
  static const std::vector<std::vector<double>> pts = {{0.6, 1.7, -0.4, 0.3}, {2.3, 0.45, 1.1, -0.8}, {-1.25, 0.8, 3.0, 1.9}, {0.9, -2.2, 0.7, 2.4}, {3.7, 0.9, -1.6, 0.55}};
  int inf = 0;
  for (auto& x : pts) { E u = evo(a, x), v = evo(b, x); if (!v.ok) continue; if (!u.ok) { if (std::fabs(v.v) > 1e-20 && std::fabs(v.v) < 1e20) return false; continue; } if (!informative(v)) continue; ++inf;
    if (!(std::fabs(u.v - v.v) <= 50 * (u.e + v.e) + 1e-12 * std::fabs(v.v))) return false; }
  if (!inf) ++undecided();
  return true;
}
}
#endif
