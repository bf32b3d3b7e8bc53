// C08: deep_equal is exactly structural equality (all pairs of a large family of expressions).
#include "build.hpp"
using namespace m; using namespace b;
int main(int argc, char** argv) {
  vr::init(argc, argv); bool T = vr::thorough;
  std::vector<P> fam; auto add = [&](P const& p) { fam.push_back(p); };
  std::vector<P> leaves{X(0), X(1), X(2), C(0), C(1), C(-1), C(2), C(2.5), F(0), F(1), F(0, 1), F(1, 1), F(0, 2), F(0, 3)};
  { Alphabet al{leaves, ALLFUN, ALLBIN}; Enum en(al, 1); en.upto(1, add); }
  { Alphabet al{{X(0), X(1), C(2)}, {SIN, EXP}, T ? ALLBIN : std::vector<Kind>{ADD, SUB, MUL}}; Enum en(al, 1); en.each_exact(2, add); }
  if (T) { Alphabet al{{X(0), C(1)}, {SIN}, {ADD, MUL}}; Enum en(al, 2); en.each_exact(3, add); }
  for (auto& c : ALIKE) for (double d : c) { P k = C(d); add(k); add(B(ADD, X(0), k)); add(B(MUL, k, X(0))); add(U(SIN, B(SUB, X(0), k))); add(mk(VEC, 0, 0, 0, {X(0), k})); add(mk(INTEG, 0, 0, 0, {X(0), C(0), k})); add(mk(INTEG, 0, 0, 0, {B(DIV, k, X(0)), C(0), C(1)})); add(B(DIV, F(0), k)); }
  std::vector<P> small{X(0), X(1), C(1), C(2), F(0), B(ADD, X(0), X(1)), U(SIN, X(0)), F(0, 1)};
  // vectors of every length up to 4 over a small component alphabet (different lengths share prefixes)
  for (P a : small) { add(mk(VEC, 0, 0, 0, {a})); for (P c : small) { add(mk(VEC, 0, 0, 0, {a, c})); for (P d : {X(0), C(1), F(0)}) { add(mk(VEC, 0, 0, 0, {a, c, d})); if (eq(a, c)) for (P f : {X(0), C(1)}) add(mk(VEC, 0, 0, 0, {a, c, d, f})); } } }
  for (P q : small) for (unsigned id : {0u, 1u, 2u, 7u}) add(mk(SYMINT, 0, id, 0, {q}));
  for (P q : {X(0), C(1), B(MUL, X(0), X(1))}) for (P lo : {C(0), C(1), X(1)}) for (P hi : {C(1), C(2), X(1)}) for (unsigned v : {0u, 1u, 2u}) add(mk(INTEG, 0, 0, v, {q, lo, hi}));
  for (P u : {F(0), F(1), F(0, 1), F(1, 1)}) { add(U(GRAD, u)); add(U(DIVG, u)); for (unsigned i : {0u, 1u, 2u, 5u}) add(mk(PD, 0, i, 0, {u})); }
  // ... nested in bigger expressions
  { size_t n = fam.size(); for (size_t i = 0; i < n; ++i) if (fam[i]->k >= GRAD && (fam[i]->k != VEC || fam[i]->ch.size() < 2)) { add(B(MUL, C(2), fam[i])); if (fam[i]->k != VEC) add(U(SIN, fam[i])); } }
  // wide identities
  for (unsigned long i = 3; i < 400; i += (i < 70 ? 1 : 37)) { add(X(i)); add(F(i)); add(F(i, 1)); add(C(i)); add(C(-(double)i)); add(C(i + 0.5)); add(U(SIN, X(i))); add(B(ADD, X(i), C(i))); }
  for (unsigned long i : {65536ul, 65537ul, 4294967296ul, 4294967297ul}) { add(X(i)); add(F(i)); add(F(0, i)); add(mk(SYMINT, 0, i, 0, {X(0)})); }
  for (double c : {1e-3, 1.001e-3, 1e-9, 2e-9, 1e-17, 2e-17, 1e300, 1.0000001e300, 1 + 1e-15, 1 - 1e-15, 1e9 + 1, 0.1, 0.1 + 1e-12}) add(C(c));
  pumped(X(0), X(1), {SIN, COS}, T ? std::vector<int>{7, 15, 16, 40} : std::vector<int>{7, 16}, T ? 8 : 0, add);
  std::vector<expr> ex; std::vector<P> un; 
  { std::set<std::string> seen; for (auto& p : fam) if (seen.insert(str(p)).second) un.push_back(p); }
  for (auto& p : un) { vr::cur(str(p)); ex.push_back(build(p)); }
  std::vector<expr> copy; for (auto& p : un) copy.push_back(build(p));
  vr::counters["family"] = vr::shard ? 0 : un.size();
  for (size_t i = 0; i < un.size(); ++i) {
    if (!vr::mine()) continue; ++vr::states; vr::sample(str(un[i]));
    for (size_t j = 0; j < un.size(); ++j) {
      ++vr::transitions; ++vr::validated;
      bool want = i == j; char b2[2]; (void)b2;
      bool got = ex[i].get()->deep_equal(copy[j].get());
      if (want && !got) vr::fail("unequal " + str(un[i]), "two separately built copies do not compare equal");
      if (!want && got) vr::fail("equal " + str(un[i]) + " == " + str(un[j]), "structurally different expressions compare equal");
      if (want) { ++vr::nontrivial; expr c = ex[i]; if (!c.get()->deep_equal(ex[i].get()) || !ex[i].get()->deep_equal(ex[i].get())) vr::fail("reflexive " + str(un[i]), "not equal to its copy / itself"); }
    }
    if ((i & 7) == 0) vr::cur("row " + str(un[i]));
  }
  return vr::finish();
}
