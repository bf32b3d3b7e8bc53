// Reference model of expressions: independent of viennamath.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>

namespace m {

enum Kind { CONST, VAR, FS, ADD, SUB, MUL, DIV, EXP, SIN, COS, TAN, FABS, SQRT, LOG, LOG10,
            GRAD, DIVG, SYMINT, INTEG, VEC, PD };
static const char* const kname[] = {"c","v","f","+","-","*","/","exp","sin","cos","tan","fabs","sqrt","log","log10",
            "grad","div","symint","integ","vec","d/dx"};
inline bool is_bin(Kind k) { return k >= ADD && k <= DIV; }
inline bool is_fun(Kind k) { return k >= EXP && k <= LOG10; }

struct Node;
typedef std::shared_ptr<const Node> P;
struct Node {
  Kind k; double c; unsigned long id, tag;   // id: variable / symbol / interval id; tag: symbol family or integration variable
  std::vector<P> ch;                          // INTEG: integrand, lower, upper
  int ops;
};
inline P mk(Kind k, double c, unsigned long id, unsigned long tag, std::vector<P> ch) {
  auto n = std::make_shared<Node>();
  n->k = k; n->c = c; n->id = id; n->tag = tag; n->ops = (k == CONST || k == VAR || k == FS) ? 0 : 1;
  for (auto& x : ch) n->ops += x->ops;
  n->ch = std::move(ch);
  return n;
}
inline P C(double c) { return mk(CONST, c, 0, 0, {}); }
inline P X(unsigned long id) { return mk(VAR, 0, id, 0, {}); }
inline P F(unsigned long id, unsigned long tag = 0) { return mk(FS, 0, id, tag, {}); }
inline P B(Kind k, P a, P b) { return mk(k, 0, 0, 0, {a, b}); }
inline P U(Kind k, P a) { return mk(k, 0, 0, 0, {a}); }

inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline void str(P const& p, std::string& o) {
  switch (p->k) {
    case CONST: o += num(p->c); return;
    case VAR: o += "x" + std::to_string(p->id); return;
    case FS: o += (p->tag == 0 ? "u" : p->tag == 1 ? "t" : "s" + std::to_string(p->tag) + "_") + std::to_string(p->id); return;
    case ADD: case SUB: case MUL: case DIV:
      o += '('; str(p->ch[0], o); o += kname[p->k]; str(p->ch[1], o); o += ')'; return;
    default:
      o += kname[p->k];
      if (p->k == PD) o += std::to_string(p->id);
      if (p->k == SYMINT) o += std::to_string(p->id);
      if (p->k == INTEG) o += "_x" + std::to_string(p->tag);
      o += '(';
      for (size_t i = 0; i < p->ch.size(); ++i) { if (i) o += ','; str(p->ch[i], o); }
      o += ')';
  }
}
inline std::string str(P const& p) { std::string o; str(p, o); return o; }

inline bool eq(P const& a, P const& b) {
  if (a.get() == b.get()) return true;
  if (a->k != b->k || a->ch.size() != b->ch.size()) return false;
  if (a->k == CONST && !(a->c == b->c)) return false;
  if (a->id != b->id || a->tag != b->tag) return false;
  for (size_t i = 0; i < a->ch.size(); ++i) if (!eq(a->ch[i], b->ch[i])) return false;
  return true;
}
inline bool contains(P const& e, std::function<bool(P const&)> const& f) {
  if (f(e)) return true;
  for (auto& c : e->ch) if (contains(c, f)) return true;
  return false;
}
inline bool has_kind(P const& e, Kind k) { return contains(e, [k](P const& n) { return n->k == k; }); }
inline bool has_var(P const& e) { return has_kind(e, VAR); }
inline long max_var(P const& e) {
  long r = e->k == VAR ? (long)e->id : -1;
  for (auto& c : e->ch) { long x = max_var(c); if (x > r) r = x; }
  return r;
}
// simultaneous replacement of maximal matching subtrees, first pattern wins
inline P subst(P const& e, std::vector<P> const& pat, std::vector<P> const& rep) {
  for (size_t i = 0; i < pat.size(); ++i) if (eq(e, pat[i])) return rep[i];
  if (e->ch.empty()) return e;
  std::vector<P> ch; bool same = true;
  size_t lim = e->k == INTEG ? 1 : e->ch.size();
  for (size_t i = 0; i < e->ch.size(); ++i) {
    P n = i < lim ? subst(e->ch[i], pat, rep) : e->ch[i];
    if (n.get() != e->ch[i].get()) same = false; ch.push_back(n);
  }
  return same ? e : mk(e->k, e->c, e->id, e->tag, ch);
}

// ---- error-bounded numbers -------------------------------------------------
struct E {            // value, absolute error bound, usable?
  double v, e; bool ok;
  E(double x = 0) : v(x), e(0), ok(std::isfinite(x)) {}
  E(double x, double er, bool k) : v(x), e(er), ok(k && std::isfinite(x) && std::isfinite(er)) {}
};
static const double EPS = 4e-15;
// out of the range in which intermediate results of equivalent formulas cannot over- or underflow: undecided
inline bool range_ok(double v) { v = std::fabs(v); return v == 0 || (v < 1e70 && v > 1e-70); }
inline E rnd(double v, double e, bool ok) { ok = ok && range_ok(v); return E(v, e + EPS * std::fabs(v) + 1e-290, ok); }
inline E operator+(E a, E b) { return rnd(a.v + b.v, a.e + b.e, a.ok && b.ok); }
inline E operator-(E a, E b) { return rnd(a.v - b.v, a.e + b.e, a.ok && b.ok); }
inline E operator-(E a) { return E(-a.v, a.e, a.ok); }
inline E operator*(E a, E b) { return rnd(a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e, a.ok && b.ok); }
inline E operator/(E a, E b) {
  double lo = std::fabs(b.v) - b.e;
  if (!(lo > 0) || b.e > 1e-3 * std::fabs(b.v)) return E(0, 0, false);
  double q = a.v / b.v;
  return rnd(q, (a.e + std::fabs(q) * b.e) / lo, a.ok && b.ok);
}
inline E e_fun(Kind k, E a) {
  if (!a.ok || a.e > 1e-2) return E(0, 0, false);
  double v, d;
  switch (k) {
    case EXP: v = std::exp(a.v); d = v * 1.1; break;
    case SIN: v = std::sin(a.v); d = 1; break;
    case COS: v = std::cos(a.v); d = 1; break;
    case TAN: { v = std::tan(a.v); d = 2 * (1 + v * v); if (a.e * d > 1e-2 * (1 + std::fabs(v)) || std::fabs(v) > 1e7) return E(0, 0, false); break; }
    case FABS: v = std::fabs(a.v); d = 1; break;
    case SQRT: if (a.v - a.e < 0) return E(0, 0, false);
      v = std::sqrt(a.v); if (a.e == 0) d = 0; else { if (a.e > 0.1 * a.v) return E(0, 0, false); d = 1 / v; } break;
    case LOG: case LOG10: if (!(a.v > 0) || a.e > 0.1 * a.v) return E(0, 0, false);
      v = k == LOG ? std::log(a.v) : std::log10(a.v); d = 1.2 / a.v; break;
    default: std::abort();
  }
  if (std::fabs(a.v) > 1e6 && (k == SIN || k == COS || k == TAN)) return E(0, 0, false);
  return rnd(v, d * a.e + EPS, true);
}
inline E e_mix(E a, bool pos) { return pos ? a : -a; }

// ---- dual numbers over T -----------------------------------------------------
template <class T> struct D { T v, d; D(double x = 0) : v(x), d(0.0) {} D(T a, T b) : v(a), d(b) {} };
template <class T> D<T> operator+(D<T> a, D<T> b) { return D<T>(a.v + b.v, a.d + b.d); }
template <class T> D<T> operator-(D<T> a, D<T> b) { return D<T>(a.v - b.v, a.d - b.d); }
template <class T> D<T> operator-(D<T> a) { return D<T>(-a.v, -a.d); }
template <class T> D<T> operator*(D<T> a, D<T> b) { return D<T>(a.v * b.v, a.v * b.d + a.d * b.v); }
template <class T> D<T> operator/(D<T> a, D<T> b) { T q = a.v / b.v; return D<T>(q, (a.d - q * b.d) / b.v); }
inline E real(E x) { return x; }
template <class T> E real(D<T> const& x) { return real(x.v); }
inline E fun(Kind k, E a) { return e_fun(k, a); }
template <class T> D<T> fun(Kind k, D<T> a) {
  T v = fun(k, a.v), d;
  switch (k) {
    case EXP: d = v; break;
    case SIN: d = fun(COS, a.v); break;
    case COS: d = -fun(SIN, a.v); break;
    case TAN: d = T(1.0) + v * v; break;
    case FABS: { E r = real(a.v); if (!(std::fabs(r.v) > r.e)) d = T(std::numeric_limits<double>::infinity()); else d = T(r.v > 0 ? 1.0 : -1.0); break; }
    case SQRT: d = T(0.5) / v; break;
    case LOG: d = T(1.0) / a.v; break;
    case LOG10: d = T(1.0 / std::log(10.0)) / a.v; break;
    default: std::abort();
  }
  return D<T>(v, d * a.d);
}
struct NotEvaluable : std::runtime_error { NotEvaluable() : std::runtime_error("model: not evaluable") {} };
template <class T> T ev(P const& p, std::vector<T> const& x) {
  switch (p->k) {
    case CONST: return T(p->c);
    case VAR: return x.at(p->id);
    case ADD: return ev(p->ch[0], x) + ev(p->ch[1], x);
    case SUB: return ev(p->ch[0], x) - ev(p->ch[1], x);
    case MUL: return ev(p->ch[0], x) * ev(p->ch[1], x);
    case DIV: return ev(p->ch[0], x) / ev(p->ch[1], x);
    case FS: case GRAD: case DIVG: case SYMINT: case INTEG: case VEC: case PD: throw NotEvaluable();
    default: return fun(p->k, ev(p->ch[0], x));
  }
}
inline double ieee(P const& p, std::vector<double> const& x) {
  double a, b;
  switch (p->k) {
    case CONST: return p->c;
    case VAR: return x.at(p->id);
    case ADD: a = ieee(p->ch[0], x); b = ieee(p->ch[1], x); return a + b;
    case SUB: a = ieee(p->ch[0], x); b = ieee(p->ch[1], x); return a - b;
    case MUL: a = ieee(p->ch[0], x); b = ieee(p->ch[1], x); return a * b;
    case DIV: a = ieee(p->ch[0], x); b = ieee(p->ch[1], x); return a / b;
    case EXP: return std::exp(ieee(p->ch[0], x));
    case SIN: return std::sin(ieee(p->ch[0], x));
    case COS: return std::cos(ieee(p->ch[0], x));
    case TAN: return std::tan(ieee(p->ch[0], x));
    case FABS: return std::fabs(ieee(p->ch[0], x));
    case SQRT: return std::sqrt(ieee(p->ch[0], x));
    case LOG: return std::log(ieee(p->ch[0], x));
    case LOG10: return std::log10(ieee(p->ch[0], x));
    default: throw NotEvaluable();
  }
}
inline E at(P const& p, std::vector<double> const& x) {
  std::vector<E> v(x.begin(), x.end()); return ev(p, v);
}
inline E d1(P const& p, std::vector<double> const& x, size_t i) {
  std::vector<D<E>> v; for (double q : x) v.push_back(D<E>(q));
  if (i < v.size()) v[i].d = E(1.0);
  return ev(p, v).d;
}
inline E d2(P const& p, std::vector<double> const& x, size_t i, size_t j) {
  std::vector<D<D<E>>> v; for (double q : x) v.push_back(D<D<E>>(q));
  if (i < v.size()) v[i].v.d = E(1.0);
  if (j < v.size()) v[j].d.v = E(1.0);
  return ev(p, v).d.d;
}
// does a measured double agree with the error-bounded reference?
inline bool agrees(double got, E ref) {
  if (!ref.ok) return true;
  double tol = 50 * ref.e + 1e-13 * std::fabs(ref.v) + 1e-280;
  return std::fabs(got - ref.v) <= tol;   // NaN -> false
}
inline bool informative(E ref) { return ref.ok && ref.e < 1e-6 * (1 + std::fabs(ref.v)); }
inline bool same_ieee(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= 1e-14 * (std::fabs(a) + std::fabs(b));
}

// ---- enumeration of all trees with at most n operations ------------------------
struct Alphabet { std::vector<P> leaves; std::vector<Kind> un, bin; };
struct Enum {
  Alphabet al; std::vector<std::vector<P>> lv;
  Enum(Alphabet const& a, int store) : al(a) {
    lv.push_back(a.leaves);
    for (int n = 1; n <= store; ++n) { lv.emplace_back(); std::vector<P> cur; each_exact(n, [&](P const& p) { cur.push_back(p); }); lv[n].swap(cur); }
  }
  template <class Fn> void each_exact(int n, Fn fn) {
    if (n == 0) { for (auto& p : lv[0]) fn(p); return; }
    while ((int)lv.size() < n) { int k = lv.size(); std::vector<P> cur; std::function<void(P const&)> f = [&](P const& p) { cur.push_back(p); }; each_exact(k, f); lv.push_back(cur); }
    if ((int)lv.size() > n && !lv[n].empty()) { for (auto& p : lv[n]) fn(p); return; }
    for (auto& a : lv[n - 1]) for (Kind k : al.un) fn(U(k, a));
    for (int i = 0; i < n; ++i) for (auto& a : lv[i]) for (auto& b : lv[n - 1 - i]) for (Kind k : al.bin) fn(B(k, a, b));
  }
  template <class Fn> void upto(int n, Fn fn) { for (int i = 0; i <= n; ++i) each_exact(i, fn); }
};
static const std::vector<Kind> ALLBIN = {ADD, SUB, MUL, DIV};
static const std::vector<Kind> ALLFUN = {EXP, SIN, COS, TAN, FABS, SQRT, LOG, LOG10};
// formulas whose parts are told apart only by constants which look alike: the same six digits, the same number as a float or as an int, opposite signs, ...
static const double ALIKE[][2] = {{1234567, 1234571}, {0.1, 0.10000003}, {16777216, 16777217}, {4294967297.0, 1}, {2, 2.25}, {-0.5, 0.5}, {2, 2.0000001}, {1e-7, 1.0000003e-7}, {1, 1.0000000001}, {3, -3}};
template <class Fn> void lookalikes(P x, P y, Fn fn) {
  for (auto& c : ALIKE) for (Kind k : {ADD, SUB, MUL, DIV}) for (int side = 0; side < 2; ++side) {
    P u = side ? B(k, C(c[0]), x) : B(k, x, C(c[0])), v = side ? B(k, C(c[1]), x) : B(k, x, C(c[1]));
    for (Kind o : {ADD, SUB, MUL, DIV}) { auto b = [&](P a, P d) { return mk(o, 0, 0, 0, {a, d}); }; auto f = [](Kind q, P a) { return mk(q, 0, 0, 0, {a}); };
      fn(b(u, v)); fn(b(v, u)); fn(b(f(SQRT, u), f(SQRT, v))); fn(b(f(SIN, v), f(SIN, u))); fn(b(C(c[1]), u)); fn(b(v, C(c[0])));
      if (!side) { fn(b(B(MUL, u, y), B(MUL, v, y))); fn(b(B(ADD, y, u), B(ADD, y, v))); } } }
}
// identifiers: small ones, and those around the limits of narrower integer types
inline std::vector<unsigned long> wide_ids() { return {0, 1, 2, 9, 10, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 2147483647ul, 2147483648ul, 4294967295ul, 4294967296ul, 4294967297ul, 1ul << 63, (1ul << 63) + 1, ~0ul - 1}; }
// pumped words: deep formulas.  A step (an operator with a leaf on one side, a function) is repeated, two steps alternate, or a block of one
// lies inside a block of another; doubled: e op e repeated.
template <class Fn> void pumped(P x, P y, std::vector<Kind> const& funs, std::vector<int> const& lens, int pairs, Fn fn) {
  typedef std::function<P(P)> S; std::vector<S> st;
  for (Kind k : {ADD, SUB, MUL, DIV}) for (int side = 0; side < 2; ++side) for (P l : {x, y, C(2), C(1), C(0), C(-0.5)}) {
    if (k == DIV && !side && l->k == CONST && l->c == 0) continue;
    st.push_back([=](P e) { return side ? B(k, l, e) : B(k, e, l); }); }
  for (Kind f : funs) st.push_back([=](P e) { return U(f, e); });
  std::vector<P> seeds{x, C(0), C(3)};
  for (S& a : st) for (P d : seeds) { int n = 0; P e = d; for (int l : lens) { for (; n < l; ++n) e = a(e); fn(e); } }
  if (pairs) for (S& a : st) for (S& b : st) if (&a != &b) {
    P e = x, f = x, g = C(0); for (int n = 0; n < pairs; ++n) e = b(a(e)), f = a(f), g = b(a(g)); for (int n = 0; n < pairs; ++n) f = b(f); fn(e); fn(f); fn(g); }
  for (Kind k : {ADD, SUB, MUL, DIV}) for (P d : {x, C(3), C(0), B(ADD, x, y)}) { P e = d; for (int n = 0; n < 5; ++n) { e = B(k, e, e); if (n > 2) fn(e); } }
}
// combs: operator words applied to a seed, with the chain on the left or on the right
template <class Fn> void combs(int len, std::vector<Kind> const& ops, std::vector<P> const& leaves, P seed, Fn fn) {
  std::vector<int> w(len, 0);
  for (;;) {
    for (int side = 0; side < 3; ++side) {
      P e = seed;
      for (int i = 0; i < len; ++i) {
        Kind k = ops[w[i]];
        if (is_bin(k)) { P l = leaves[i % leaves.size()]; bool left = side == 0 || (side == 2 && i % 2); e = left ? B(k, e, l) : B(k, l, e); }
        else e = U(k, e);
      }
      fn(e);
    }
    int i = 0; for (; i < len; ++i) { if (++w[i] < (int)ops.size()) break; w[i] = 0; }
    if (i == len) break;
  }
}
}
#endif
