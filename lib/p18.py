"""C18: coefficient() and drop_dependent_terms() split a polynomial."""
from p13 import *
F0, F1 = ('f', 'test_tag<0ul>'), ('f', 'unknown_tag<1ul>')
def drop(e, s): return c(0) if e == s else (e[0], drop(e[1], s), drop(e[2], s)) if is_bin(e) else e
def dep(e, s): return has(e, lambda n: n == s)
def admissible(e, s): return not any(n[0] == '/' and dep(n[2], s) for n in subs(e))
# a point assigns values to variables; symbols keep theirs, so a symbol is compared through a variable standing for it
def rename(e, s, t): return t if e == s else (e[0], rename(e[1], s, t), rename(e[2], s, t)) if is_bin(e) else e
def case(e, s, form):
    z = v(3)                                   # the split off quantity as a further variable
    m0 = rename(drop(e, s), s, z); me = rename(e, s, z)
    def check(o):
        d, k = typ(o[0][1]), typ(o[1][1])
        if dep(d, s): return 'drop_dependent_terms gives %s' % show(d)
        dz, kz = rename(d, s, z), rename(k, s, z)
        x = same(m0, dz)
        if x: return 'drop_dependent_terms gives %s: %s' % (show(d), x)
        x = same(me, b('+', dz, b('*', z, kz)))
        if x: return 'terms without %s: %s, coefficient %s: %s' % (show(s), show(d), show(k), x)
    f = raw(e) + '()' if form == 'type' else opx(e)
    return Case('split %s %s by %s' % (form, show(e), show(s)), 'auto e = %s; auto d = vm::drop_dependent_terms(%s(), e); T_(I, d); auto k = vm::coefficient(%s(), e); T_(I, k);' % (f, raw(s), raw(s)), check, nt=dep(e, s))
def cases():
    T = TIER == 'thorough'; out = []; P = ['+', '-', '*']; S = []; L = [c(1), c(-2), c(3), v(0), v(1), F0]
    for n in (0, 1, 2): S += trees(n, L, P)
    S += trees(3, [c(2), v(0), v(1)], P) if T else trees(3, [c(2), v(0)], P) + trees(3, [v(1), v(0)], P)
    if T: S += trees(4, [v(0), v(1)], P)
    else: S += trees(4, [v(0)], P)
    S += patterns(3, [v(0), v(1), v(2), c(3)], P) + patterns(4, [v(0), v(1), v(2)] if T else [v(0), v(1)], P)
    S += wide(1, P, [v(0), v(1)]) + wide(2, P)
    # sums and differences of monomials
    M = [c(3), v(0), v(1), b('*', v(0), v(1)), b('*', v(1), b('*', c(2), v(0))), b('*', b('*', v(0), v(0)), v(1)), b('*', v(1), v(1)), b('*', F0, v(0)), b('*', b('*', c(2), F1), b('*', v(1), F0)), b('/', b('*', v(0), v(1)), c(2)), b('*', b('/', v(0), v(1)), v(0)), b('/', c(5), v(1))]
    S += trees(1, M, P) + trees(2, M if T else M[1:9], P)
    A = [b('+', v(0), c(1)), b('-', v(1), v(0)), b('*', v(1), b('+', v(0), c(3))), b('/', b('+', v(0), v(1)), c(2)), b('/', b('-', v(0), v(1)), b('+', v(1), c(1))), v(0), F0]
    S += trees(1, A, P) + trees(2, A, P)
    for n in (1, 2): S += [e for e in trees(n, [c(2), v(0), v(1)]) if has(e, lambda n: n[0] == '/')]
    for w in combs(5 if T else 4, [v(0), c(3), b('*', v(1), v(0)), v(1)], v(0), P): S.append(w)
    seen = set()
    for e in S:
        if e in seen: continue
        seen.add(e)
        for s in (v(0), v(1), F0):
            if not admissible(e, s) or (s != v(0) and not dep(e, s)): continue
            if bad(e) or bad(drop(e, s)): continue
            out.append(case(e, s, 'type'))
    for e in trees(2, [c(2), v(0), v(1)], P) + trees(1, A, P):
        if not bad(e): out.append(case(e, v(0), 'operators'))
    # every id
    for i in (0, 1, 2, 5, 31):
        for j in (0, 1, 2, 5, 31): out.append(case(b('+', b('*', v(i), c(7)), b('-', v(j), b('*', v((i + j) % 3), v(i)))), v(i), 'type'))
    return out
