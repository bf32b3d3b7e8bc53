// C32: chains of manipulations keep their meaning: explicit-state exploration of operation sequences on two live handles.
#include "build.hpp"
#include "opaque.hpp"
#include <unordered_set>
using namespace m; using namespace b;
// textbook derivative, no simplification; symbols are independent of the variables
static P D_(P const& e, unsigned long i) {
  auto z = [](double d) { return C(d); };
  if (e->k == CONST || e->k == FS) return z(0);
  if (e->k == VAR) return z(e->id == i ? 1 : 0);
  P a = e->ch[0], p = D_(a, i);
  switch (e->k) {
    case ADD: case SUB: return B(e->k, p, D_(e->ch[1], i));
    case MUL: return B(ADD, B(MUL, p, e->ch[1]), B(MUL, a, D_(e->ch[1], i)));
    case DIV: return B(DIV, B(SUB, B(MUL, p, e->ch[1]), B(MUL, a, D_(e->ch[1], i))), B(MUL, e->ch[1], e->ch[1]));
    case EXP: return B(MUL, p, e); case SIN: return B(MUL, p, U(COS, a)); case COS: return B(MUL, p, B(SUB, C(0), U(SIN, a)));
    case SQRT: return B(DIV, p, B(MUL, C(2), e)); case LOG: return B(DIV, p, a); default: abort();
  }
}
struct St { expr h[2]; P r[2]; std::string path; int sz; };
static size_t count(P const& p) { size_t n = 1; for (auto& c : p->ch) n += count(c); return n; }
static const char* const OPN[] = {"simplify", "inplace_simplify", "d/dx0", "d/dx1", "x0:=other", "x1:=2.5", "x1:=other", "u:=other", "{x0,x1}:={x1,x0}", "+other", "-other", "*other", "/other", "+=1.5", "0-", "1/", "sin", "log", "copy", "clone", "swap", "2*", "self*self", "subexpression other:=x1", "evaluate"};
static const int NOP = sizeof OPN / sizeof *OPN;
static bool apply(St& s, int i, int op) {
  expr& a = s.h[i]; expr const& o = s.h[1 - i]; P& r = s.r[i]; P const& q = s.r[1 - i];
  vm::variable x0(0), x1(1); vm::function_symbol u(0);
  if ((op == 2 || op == 3) && has_kind(read(a), FS)) return false;      // raises by design
  switch (op) {
    case 0: a = vm::simplify(a); break;
    case 1: vm::inplace_simplify(a); break;
    case 2: a = vm::diff(a, x0); r = D_(r, 0); break;
    case 3: a = vm::diff(a, x1); r = D_(r, 1); break;
    case 4: a = vm::substitute(x0, o, a); r = subst(r, {X(0)}, {q}); break;
    case 5: a = vm::substitute(x1, 2.5, a); r = subst(r, {X(1)}, {C(2.5)}); break;
    case 6: a = vm::substitute(expr(x1), o, a); r = subst(r, {X(1)}, {q}); break;
    case 7: if (!has_kind(r, FS)) return false; a = vm::substitute(u, o, a); r = subst(r, {F(0)}, {q}); break;
    case 8: { std::vector<expr> se{expr(x0), expr(x1)}, re{expr(x1), expr(x0)}; a = vm::substitute(se, re, a); r = subst(r, {X(0), X(1)}, {X(1), X(0)}); break; }
    case 9: a = a + o; r = B(ADD, r, q); break;
    case 10: a = a - o; r = B(SUB, r, q); break;
    case 11: a = a * o; r = B(MUL, r, q); break;
    case 12: a = a / o; r = B(DIV, r, q); break;
    case 13: a = a + 1.5; r = B(ADD, r, C(1.5)); break;
    case 14: a = 0.0 - a; r = B(SUB, C(0), r); break;
    case 15: a = 1.0 / a; r = B(DIV, C(1), r); break;
    case 16: a = vm::sin(a); r = U(SIN, r); break;
    case 17: a = vm::log(a); r = U(LOG, r); break;
    case 18: a = o; r = q; break;
    case 19: a = expr(o.get()->clone()); r = q; break;
    case 20: { expr t(a); a = s.h[1 - i]; s.h[1 - i] = t; std::swap(s.r[0], s.r[1]); break; }
    case 21: a = vm::constant(2.0) * a; r = B(MUL, C(2), r); break;
    case 22: a = a * a; r = B(MUL, r, r); break;
    case 23: { expr t = vm::substitute(o, expr(x1), a); P rt = read(a), ro = read(o); a = t; r = subst(rt, {ro}, {X(1)}); break; }    // matched by structure
    case 24: { try { (void)a({0.4, 1.3}); } catch (std::exception const&) {} { std::ostringstream os; os << a; } (void)a.get()->deep_str(); (void)a.get()->deep_equal(o.get()); (void)a.get()->shallow_equal(o.get()); (void)a.get()->is_constant(); (void)a.get()->can_simplify(); break; }
    default: return false;
  }
  return true;
}
static std::string key(St const& s) { return str(read(s.h[0])) + "|" + str(read(s.h[1])); }
static bool finite(P const& p) { return !contains(p, [](P const& n) { return n->k == CONST && !std::isfinite(n->c); }); }
static bool check(St const& s) {
  for (int j = 0; j < 2; ++j) {
    P t = read(s.h[j]); ++vr::validated;
    if (!equiv(t, s.r[j])) return vr::fail(s.path, std::string("handle ") + "ab"[j] + " is " + str(t) + " but the operations give " + str(s.r[j]).substr(0, 600));
    if (!has_kind(s.r[j], FS)) for (size_t k = 0; k < 3; ++k) { E w = at(s.r[j], PTS[k]); if (!informative(w)) continue; ++vr::nontrivial; double g; try { g = s.h[j](PTS[k]); } catch (std::exception const& x) { return vr::fail(s.path, std::string("evaluation of ") + str(t) + " raises " + x.what()); }
      if (!agrees(g, w)) return vr::fail(s.path, std::string("handle ") + "ab"[j] + " evaluates to " + num(g) + " instead of " + num(w.v)); }
  }
  return true;
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough; int depth = T ? 5 : 4; size_t cap = T ? 60 : 40;
  std::vector<std::pair<P, P>> init{{B(ADD, X(0), C(2)), B(MUL, X(0), X(1))}, {X(0), F(0)}, {B(DIV, X(1), X(0)), B(SUB, C(3), X(1))}, {B(MUL, F(0), X(0)), U(EXP, X(0))}, {U(SQRT, B(ADD, B(MUL, X(0), X(0)), C(1))), C(2)}, {B(SUB, B(MUL, C(2), X(0)), U(SIN, X(1))), B(ADD, X(0), X(1))}};
  std::unordered_set<std::string> seen; unsigned long pruned = 0;
  for (size_t n = 0; n < (T ? init.size() : 4); ++n) {
    std::vector<St> level; { St s; s.h[0] = build(init[n].first); s.h[1] = build(init[n].second); s.r[0] = init[n].first; s.r[1] = init[n].second; s.path = "a=" + str(s.r[0]) + " b=" + str(s.r[1]); check(s); level.push_back(s); }
    seen.clear(); seen.insert(key(level[0]));
    for (int d = 0; d < depth; ++d) {
      std::vector<St> next;
      for (auto& s : level) for (int op = 0; op < NOP; ++op) for (int i = 0; i < 2; ++i) {
        if (d == 1 && !vr::mine()) continue;              // the work is split over the second step
        if (d == 0 && depth == 1 && !vr::mine()) continue;
        St t = s; t.path = s.path + "; " + "ab"[i] + " " + OPN[op]; vr::cur(t.path);
        try { if (!apply(t, i, op)) continue; } catch (std::exception const& x) { vr::fail(t.path, std::string("raises ") + x.what()); continue; }
        ++vr::transitions;
        P ra = read(t.h[0]), rb = read(t.h[1]); if (!finite(ra) || !finite(rb)) { ++vr::counters["non-finite"]; continue; }
        if (!seen.insert(str(ra) + "|" + str(rb)).second && d + 1 < depth) { if (!check(t)) continue; continue; }
        ++vr::states; if (!check(t)) continue;
        if ((vr::states & 4095) == 1) vr::sample(t.path + " -> " + str(ra));
        if (d + 1 == depth) continue;
        if (count(t.r[0]) > cap * 4 || count(t.r[1]) > cap * 4 || count(ra) > cap || count(rb) > cap) { ++pruned; continue; }
        next.push_back(t);
      }
      level.swap(next);
    }
  }
  vr::counters["n_not_expanded_further"] = pruned; vr::counters["n_undecided"] = undecided();
  return vr::finish();
}
