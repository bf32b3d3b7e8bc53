// Parsers of viennamath's textual form and of its LaTeX output, back into model trees.
#ifndef VERIF_PARSE_HPP
#define VERIF_PARSE_HPP
#include "model.hpp"
#include <map>
namespace ps {
using m::P; using m::Kind;
struct Syntax : std::runtime_error { Syntax(std::string const& s) : std::runtime_error(s) {} };
inline m::Kind fkind(std::string const& n) {
  for (int k = m::EXP; k <= m::LOG10; ++k) if (n == m::kname[k]) return (m::Kind)k;
  if (n == "grad") return m::GRAD; if (n == "div") return m::DIVG;
  return m::CONST;
}
// ---- textual form --------------------------------------------------------------
struct Text {
  std::string s; size_t i; Text(std::string const& t) : s(t), i(0) {}
  void ws() { while (i < s.size() && s[i] == ' ') ++i; }
  bool opt(std::string const& t) { ws(); if (s.compare(i, t.size(), t) == 0) { i += t.size(); return true; } return false; }
  void need(std::string const& t) { if (!opt(t)) throw Syntax("expected '" + t + "' at ..." + s.substr(i, 30)); }
  double number() { ws(); char* e; double d = strtod(s.c_str() + i, &e); if (e == s.c_str() + i) throw Syntax("number expected at ..." + s.substr(i, 30)); i = e - s.c_str(); return d; }
  unsigned long id() { ws(); if (i >= s.size() || !isdigit((unsigned char)s[i])) throw Syntax("id expected at ..." + s.substr(i, 30)); char* e; unsigned long d = strtoul(s.c_str() + i, &e, 10); i = e - s.c_str(); return d; }
  P expr() {
    ws();
    if (opt("expr(") || opt("unary(")) { --i; return paren(); }
    if (opt("expr[") ) { --i; return expr(); }
    if (opt("expr") || opt("unary")) return expr();
    if (i < s.size() && s[i] == '(') return paren();
    if (opt("constant(")) { double d = number(); need(")"); return m::C(d); }
    if (opt("variable(")) { auto d = id(); need(")"); return m::X(d); }
    if (opt("function_symbol<unknown(")) { auto d = id(); need(")>"); return m::F(d, 0); }
    if (opt("function_symbol<test(")) { auto d = id(); need(")>"); return m::F(d, 1); }
    if (opt("function_symbol<invalid>")) return m::F(0, 999);
    if (opt("partial_deriv<")) { auto d = id(); need(">"); P a = paren(); return m::mk(m::PD, 0, d, 0, {a}); }
    if (opt("rt_integral[interval(")) { P lo = expr(); need(","); P hi = expr(); need(")"); need(","); need("variable("); auto d = id(); need(")"); need("]"); P a = paren(); return m::mk(m::INTEG, 0, 0, d, {a, lo, hi}); }
    if (opt("symbolic_integral[symbolic_interval[")) { auto d = id(); need("]"); need("]"); P a = paren(); return m::mk(m::SYMINT, 0, d, 0, {a}); }
    if (opt("[")) { auto n = id(); need("]"); need("("); std::vector<P> ch; for (unsigned long k = 0; k < n; ++k) { if (k) need(","); ch.push_back(expr()); } need(")"); return m::mk(m::VEC, 0, 0, 0, ch); }
    size_t j = i; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) ++j;
    std::string n = s.substr(i, j - i); i = j;
    if (n == "id") return paren();
    Kind k = fkind(n); if (n.empty() || k == m::CONST) throw Syntax("unknown name '" + n + "' at ..." + s.substr(i, 30));
    return m::U(k, paren());
  }
  P paren() {
    need("("); P a = expr(); ws();
    if (i >= s.size()) throw Syntax("unbalanced parenthesis");
    char c = s[i];
    if (c == '+' || c == '-' || c == '*' || c == '/') { ++i; P r = expr(); need(")"); return m::B(c == '+' ? m::ADD : c == '-' ? m::SUB : c == '*' ? m::MUL : m::DIV, a, r); }
    need(")"); return a;
  }
  P all() { P p = expr(); ws(); if (i != s.size()) throw Syntax("trailing text " + s.substr(i, 30)); return p; }
};
inline P text(std::string const& t) { return Text(t).all(); }
inline double printed(double d) { char b[40]; snprintf(b, sizeof b, "%.6g", d); return strtod(b, 0); }
inline P rounded(P const& p) {
  if (p->k == m::CONST) return m::C(printed(p->c));
  if (p->ch.empty()) return p; std::vector<P> ch; for (auto& c : p->ch) ch.push_back(rounded(c)); return m::mk(p->k, p->c, p->id, p->tag, ch);
}
// agrees up to the printed precision (6 significant digits or better)
inline bool like(P const& a, P const& c) {
  if (a->k != c->k || a->ch.size() != c->ch.size() || a->id != c->id || a->tag != c->tag) return false;
  if (a->k == m::CONST && !(a->c == c->c || std::fabs(a->c - c->c) <= 6e-6 * std::fabs(a->c) || (std::isnan(a->c) && std::isnan(c->c)))) return false;
  for (size_t i = 0; i < a->ch.size(); ++i) if (!like(a->ch[i], c->ch[i])) return false;
  return true;
}
// ---- LaTeX ---------------------------------------------------------------------
// Usual precedence: sum/difference (left associative) < product by \cdot < function application to the next factor.
struct Latex {
  std::string s; size_t i; std::map<std::string, P> names;
  Latex(std::string const& t, std::map<std::string, P> const& n) : s(t), i(0), names(n) {}
  void ws() { for (;;) { while (i < s.size() && (s[i] == ' ' || s[i] == '~')) ++i; bool adv = false; for (const char* t : {"\\,", "\\:", "\\;", "\\!", "\\left", "\\right"}) { size_t n = strlen(t); if (s.compare(i, n, t) == 0 && !(n > 2 && isalpha((unsigned char)s[i + n]))) { i += n; adv = true; } } if (!adv) return; } }
  bool opt(std::string const& t) { ws(); if (s.compare(i, t.size(), t)) return false;
    if (t[0] == '\\' && isalpha((unsigned char)t.back()) && i + t.size() < s.size() && isalpha((unsigned char)s[i + t.size()])) return false; i += t.size(); return true; }
  bool at(std::string const& t) { size_t k = i; bool r = opt(t); i = k; return r; }
  void need(std::string const& t) { if (!opt(t)) throw Syntax("expected '" + t + "' at ..." + s.substr(i, 30)); }
  P sum() {
    P a = prod();
    for (;;) { if (opt("+")) a = m::B(m::ADD, a, prod()); else if (opt("-")) a = m::B(m::SUB, a, prod()); else return a; }
  }
  P prod() { P a = factor(); while (opt("\\cdot") || opt("*") || opt("\\times")) a = m::B(m::MUL, a, factor()); if (opt("/")) throw Syntax("inline division"); return a; }
  P group() { need("{"); P a = sum(); need("}"); return a; }
  unsigned long id() { ws(); if (i >= s.size() || !isdigit((unsigned char)s[i])) throw Syntax("id expected at ..." + s.substr(i, 30)); char* e; unsigned long d = strtoul(s.c_str() + i, &e, 10); i = e - s.c_str(); return d; }
  P factor() {
    ws();
    // customised names: longest first
    { std::string best; for (auto& n : names) if (n.first.size() > best.size()) { size_t k = i; if (opt(n.first)) { best = n.first; } i = k; }
      if (!best.empty()) { i += best.size(); return names[best]; } }
    if (opt("(")) { P a = sum(); need(")"); return a; }
    if (opt("{")) { P a = sum(); need("}"); return a; }
    if (opt("|")) { P a = sum(); need("|"); return m::U(m::FABS, a); }
    if (opt("\\frac")) {
      size_t k = i; need("{");
      if (opt("\\partial")) { P a = factor(); need("}"); need("{"); need("\\partial"); P v = factor(); need("}"); if (v->k != m::VAR) throw Syntax("derivative by something that is no variable"); return m::mk(m::PD, 0, v->id, 0, {a}); }
      i = k; P a = group(); P c = group(); return m::B(m::DIV, a, c); }
    if (opt("\\sqrt")) return m::U(m::SQRT, group());
    struct { const char* n; Kind k; } fn[] = {{"\\exp", m::EXP}, {"\\sin", m::SIN}, {"\\cos", m::COS}, {"\\tan", m::TAN}, {"\\ln", m::LOG}, {"\\log_{10}", m::LOG10}, {"\\log", m::LOG10}};
    for (auto& f : fn) if (opt(f.n)) return m::U(f.k, factor());
    if (opt("\\nabla")) { if (opt("\\cdot")) return m::U(m::DIVG, factor()); return m::U(m::GRAD, factor()); }
    if (opt("\\int")) {
      need("_"); need("{");
      if (opt("\\Omega")) { need("_"); need("{"); auto d = id(); need("}"); need("}"); P a = sum(); need("\\mathrm{d}"); need("\\Omega"); return m::mk(m::SYMINT, 0, d, 0, {a}); }
      P lo, hi; interval(lo, hi); need("}"); P a = sum(); need("\\mathrm{d}"); P v = factor(); if (v->k != m::VAR) throw Syntax("integration by something that is no variable"); return m::mk(m::INTEG, 0, 0, v->id, {a, lo, hi}); }
    if (opt("x_{")) { auto d = id(); need("}"); return m::X(d); }
    if (opt("u_{")) { auto d = id(); need("}"); return m::F(d, 0); }
    if (opt("v_{")) { auto d = id(); need("}"); return m::F(d, 1); }
    if (i < s.size() && (isdigit((unsigned char)s[i]) || s[i] == '-' || s[i] == '.' || s[i] == '+' || !s.compare(i, 3, "inf") || !s.compare(i, 3, "nan"))) { char* e; double d = strtod(s.c_str() + i, &e); if (e != s.c_str() + i) { i = e - s.c_str(); return m::C(d); } }
    throw Syntax("unreadable at ..." + s.substr(i, 40));
  }
  void interval(P& lo, P& hi) { need("["); lo = sum(); if (!opt(";")) need(","); hi = sum(); need("]"); }
  void end() { ws(); if (i != s.size()) throw Syntax("trailing text " + s.substr(i, 30)); }
};
// canonical form up to associativity of sums and products (mathematically the same text may drop those parentheses)
inline P canon(P const& p);
inline void terms(P const& p, bool neg, std::vector<P>& out) {
  if (p->k == m::ADD) { terms(p->ch[0], neg, out); terms(p->ch[1], neg, out); }
  else if (p->k == m::SUB) { terms(p->ch[0], neg, out); terms(p->ch[1], !neg, out); }
  else { P c = canon(p); out.push_back(neg ? m::U(m::LOG10, m::U(m::LOG10, m::U(m::LOG10, c))) : c); }   // wrapper marks a subtracted term
}
inline void factors(P const& p, std::vector<P>& out) { if (p->k == m::MUL) { factors(p->ch[0], out); factors(p->ch[1], out); } else out.push_back(canon(p)); }
inline P canon(P const& p) {
  if (p->k == m::ADD || p->k == m::SUB) { std::vector<P> t; terms(p, false, t); return m::mk(m::ADD, 0, 0, 0, t); }
  if (p->k == m::MUL) { std::vector<P> t; factors(p, t); return m::mk(m::MUL, 0, 0, 0, t); }
  if (p->ch.empty()) return p;
  std::vector<P> ch; for (auto& c : p->ch) ch.push_back(canon(c)); return m::mk(p->k, p->c, p->id, p->tag, ch);
}
}
#endif
