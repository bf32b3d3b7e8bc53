// C27: traversal visits, manipulation rebuilds; every subset of declined / modified nodes.
#include "build.hpp"
#include <bitset>
#include <map>
#include <set>
using namespace m; using namespace b;
struct Nd { If const* p; P m; std::vector<int> ch; };
static void walk(If const* e, std::vector<Nd>& v) {   // preorder, through the accessors
  int me = v.size(); v.push_back(Nd{e, read(e), {}});
  std::vector<If const*> ch;
  if (auto q = dynamic_cast<vm::binary_expr const*>(e)) ch = {q->lhs(), q->rhs()};
  else if (auto q = dynamic_cast<vm::unary_expr const*>(e)) ch = {q->lhs()};
  else if (auto q = dynamic_cast<vm::vector_expr const*>(e)) for (size_t i = 0; i < q->size(); ++i) ch.push_back((*q)[i].get());
  for (auto c : ch) { v[me].ch.push_back(v.size()); walk(c, v); }
}
typedef std::map<If const*, int> Ix;
enum { MAXN = 256 }; typedef std::bitset<MAXN> M;
struct Visit : public vm::rt_traversal_interface<> {
  Ix const& ix; M declined; std::vector<int>& seq; int& unknown;
  Visit(Ix const& i, M const& d, std::vector<int>& s, int& u) : ix(i), declined(d), seq(s), unknown(u) {}
  void operator()(If const* e) const { auto it = ix.find(e); if (it == ix.end()) ++unknown; else seq.push_back(it->second); }
  bool step_into(If const* e) const { auto it = ix.find(e); return it == ix.end() || !declined[it->second]; }
};
struct Plain : public vm::rt_traversal_interface<> { std::vector<If const*>& s; Plain(std::vector<If const*>& q) : s(q) {} void operator()(If const* e) const { s.push_back(e); } };
static P repl(int i) { return i % 3 == 0 ? C(1000 + i) : i % 3 == 1 ? X(100 + i) : B(ADD, X(200 + i), C(i)); }
struct Manip : public vm::rt_manipulation_interface<> {
  Ix const& ix; M mod; std::vector<int>& asked; std::vector<int>& called; int& unknown;
  Manip(Ix const& i, M const& d, std::vector<int>& a, std::vector<int>& c, int& u) : ix(i), mod(d), asked(a), called(c), unknown(u) {}
  If* operator()(If const* e) const { auto it = ix.find(e); if (it == ix.end()) { ++unknown; return e->clone(); } called.push_back(it->second); if (mod[it->second]) return build(repl(it->second)).get()->clone(); return e->clone(); }
  bool modifies(If const* e) const { auto it = ix.find(e); if (it == ix.end()) { ++unknown; return false; } asked.push_back(it->second); return mod[it->second]; }
};
struct Default : public vm::rt_manipulation_interface<> {};
struct Cb { int& n; void const*& a; Cb(int& x, void const*& y) : n(x), a(y) {} template <class T> void operator()(T const& t) const { ++n; a = dynamic_cast<void const*>(&t); } };
static P expect(std::vector<Nd> const& v, int i, M mod) {
  if (mod[i]) return repl(i);
  P p = v[i].m; if (v[i].ch.empty()) return p; std::vector<P> ch; for (int c : v[i].ch) ch.push_back(expect(v, c, mod)); for (size_t k = ch.size(); k < p->ch.size(); ++k) ch.push_back(p->ch[k]); return mk(p->k, p->c, p->id, p->tag, ch);
}
static void reach(std::vector<Nd> const& v, int i, M stop, bool leafstop, std::set<int>& r) { r.insert(i); if (stop[i]) return; for (int c : v[i].ch) reach(v, c, stop, leafstop, r); }
static std::string bits(M const& s) { std::string o = "{"; for (int i = 0; i < MAXN; ++i) if (s[i]) o += (o.size() > 1 ? "," : "") + std::to_string(i); return o + "}"; }
static void handle(P const& p, int maxsub) {
  if (!vr::mine()) return; std::string s = str(p); vr::cur(s); ++vr::states; vr::sample(s);
  expr e = build(p); std::vector<Nd> v; walk(e.get(), v); Ix ix; for (size_t i = 0; i < v.size(); ++i) ix[v[i].p] = i;
  if (!eq(v[0].m, p)) { vr::fail(s, "built as " + str(v[0].m)); return; } if (ix.size() != v.size()) { vr::fail(s, "two positions share one node object"); return; }
  int N = v.size();
  { std::vector<If const*> seq; vm::rt_traversal_wrapper<> w(new Plain(seq)); e.get()->recursive_traversal(w); ++vr::transitions; std::set<If const*> u(seq.begin(), seq.end()); bool ok = seq.size() == v.size() && u.size() == v.size(); for (auto q : seq) if (!ix.count(q)) ok = false; if (!ok) vr::fail(s + " plain traversal", "visits " + std::to_string(seq.size()) + " nodes (" + std::to_string(u.size()) + " different) of " + std::to_string(N)); }
  { vm::rt_manipulation_wrapper<> w(new Default()); expr r(static_cast<If const*>(e.get()->recursive_manipulation(w))); ++vr::transitions; if (!eq(read(r), p)) vr::fail(s + " default manipulation", "gives " + str(read(r))); if (!deq(r, e)) vr::fail(s + " default manipulation", "result compares unequal"); }
  if (N > MAXN) abort();
  std::vector<M> subs; if (N <= maxsub) for (unsigned long b = 0; b < (1ul << N); ++b) subs.push_back(M(b));
  else { M all; for (int i = 0; i < N; ++i) all.set(i); subs.push_back(M()); subs.push_back(all); for (int i = 0; i < N; ++i) { M m; m.set(i); subs.push_back(m); subs.push_back(all ^ m); if (N <= 64) for (int j = 0; j < i; ++j) { M k = m; k.set(j); subs.push_back(k); } } }
  for (M const& d : subs) {
    { std::vector<int> seq; int unk = 0; vm::rt_traversal_wrapper<> w(new Visit(ix, d, seq, unk)); e.get()->recursive_traversal(w); ++vr::transitions; ++vr::validated; if (d.any()) ++vr::nontrivial;
      std::set<int> r, g(seq.begin(), seq.end()); reach(v, 0, d, true, r); std::string key = s + " declining " + bits(d);
      if (unk) vr::fail(key, "visits objects that are not nodes of the expression"); if (g.size() != seq.size()) vr::fail(key, "visits a node twice");
      for (int i : g) if (!r.count(i)) vr::fail(key, "visits node " + std::to_string(i) + " = " + str(v[i].m) + " below a declined node"); for (int i : r) if (!g.count(i)) vr::fail(key, "does not visit node " + std::to_string(i) + " = " + str(v[i].m)); }
    { std::vector<int> asked, called; int unk = 0; std::string key = s + " modifying " + bits(d); vm::rt_manipulation_wrapper<> w(new Manip(ix, d, asked, called, unk)); expr r(static_cast<If const*>(e.get()->recursive_manipulation(w))); ++vr::transitions; ++vr::validated; P want = expect(v, 0, d), g = read(r);
      if (!g || !eq(g, want)) vr::fail(key, "gives " + (g ? str(g) : "nothing") + " instead of " + str(want));
      std::set<int> top; reach(v, 0, d, true, top); for (int i : called) { if (!top.count(i)) vr::fail(key, "manipulates node " + std::to_string(i) + " below a replaced node"); else if (!d[i] && !v[i].ch.empty()) vr::fail(key, "manipulates node " + std::to_string(i) + " which is not to be modified"); }
      for (int i : asked) if (!top.count(i)) vr::fail(key, "descends into a replaced node"); std::set<int> once(called.begin(), called.end()); if (once.size() != called.size()) vr::fail(key, "manipulates a node twice"); if (unk) vr::fail(key, "asks about objects that are not nodes");
      for (int i : top) if (d[i] && !once.count(i)) vr::fail(key, "does not manipulate node " + std::to_string(i)); }
  }
  if (!eq(read(e), p)) vr::fail(s, "operand changed");
  for (int i = 0; i < N; ++i) { auto t = [&](const char* nm, bool want, auto* dummy) { typedef std::remove_pointer_t<decltype(dummy)> Ty; int n = 0; void const* a = NULL; bool g = vm::callback_if_castable<Ty>::apply(v[i].p, Cb(n, a)); ++vr::transitions; if (g != want || n != (want ? 1 : 0) || (want && a != dynamic_cast<void const*>(v[i].p))) vr::fail(s + " callback for " + nm + " at " + str(v[i].m), want ? "does not fire" : "fires"); };
    Kind k = v[i].m->k; bool id = false; t("constant", k == CONST, (constant*)0); t("variable", k == VAR, (variable*)0); t("function symbol", k == FS, (function_symbol*)0); t("vector", k == VEC, (vm::vector_expr*)0); t("binary expression", is_bin(k), (vm::binary_expr*)0); t("unary expression", !is_bin(k) && !v[i].ch.empty() && k != VEC, (vm::unary_expr*)0); (void)id; }
}
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough; int M = T ? 13 : 10;
  std::vector<P> L{X(0), C(2), F(0), mk(VEC, 0, 0, 0, {X(1), C(3)}), mk(SYMINT, 0, 1, 0, {F(1)}), mk(INTEG, 0, 0, 0, {X(0), C(0), C(1)}), U(GRAD, F(0, 1))};
  { Alphabet al{L, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(1, [&](P const& p) { handle(p, M); }); Alphabet a2{L, {SIN, SQRT}, {ADD, DIV}}; Enum e2(a2, 1); e2.each_exact(2, [&](P const& p) { handle(p, M); }); }
  { Alphabet al{{X(0), C(2)}, {EXP}, {MUL, SUB}}; Enum en(al, 2); en.each_exact(3, [&](P const& p) { handle(p, M); }); Alphabet a2{{X(0)}, {LOG}, {SUB}}; Enum e2(a2, 2); e2.each_exact(4, [&](P const& p) { handle(p, M); }); e2.each_exact(5, [&](P const& p) { handle(p, T ? M : 9); }); if (T) e2.each_exact(6, [&](P const& p) { handle(p, 11); }); }
  { std::vector<Kind> ops = ALLBIN; ops.insert(ops.end(), {COS, FABS}); combs(T ? 5 : 4, ops, {C(1.5), X(2)}, F(0), [&](P const& p) { handle(p, 8); }); }
  // other node kinds nested to depth 3, vectors to length 5
  std::vector<std::function<P(P const&)>> W{[](P const& a) { return mk(VEC, 0, 0, 0, {a}); }, [](P const& a) { return mk(VEC, 0, 0, 0, {X(1), a, a}); }, [](P const& a) { return mk(SYMINT, 0, 2, 0, {a}); }, [](P const& a) { return mk(INTEG, 0, 0, 1, {a, C(0), C(1)}); }, [](P const& a) { return U(DIVG, a); }, [](P const& a) { return U(GRAD, a); }, [](P const& a) { return mk(PD, 0, 1, 0, {a}); }, [](P const& a) { return B(ADD, a, a); }, [](P const& a) { return B(DIV, C(1), a); }, [](P const& a) { return U(TAN, a); }};
  std::function<void(P const&, int)> nest = [&](P const& p, int d) { handle(p, M); if (d < (T ? 4 : 3)) for (auto& w : W) nest(w(p), d + 1); }; nest(X(0), 0); nest(F(1, 1), 0);
  for (size_t n = 1; n <= 40; ++n) { std::vector<P> c; for (size_t i = 0; i < n; ++i) c.push_back(i % 2 ? X(i) : B(MUL, C(i), X(i))); if (n <= 25) handle(mk(VEC, 0, 0, 0, c), 8); else { P q = mk(VEC, 0, 0, 0, std::vector<P>(n, X(0))); handle(q, 8); } }
  pumped(X(0), X(1), {SIN, FABS}, {6, 13}, 0, [&](P const& p) { handle(p, 0); });
  return vr::finish();
}
