"""C19: integration of compile-time polynomials."""
from p13 import *
# polynomials: {exponents (x0,x1,x2): Fraction}
def padd(p, q, s=1):
    r = dict(p)
    for k, a in q.items(): r[k] = r.get(k, 0) + s * a
    return {k: a for k, a in r.items() if a}
def pmul(p, q):
    r = {}
    for k, a in p.items():
        for l, d in q.items():
            m = tuple(x + y for x, y in zip(k, l)); r[m] = r.get(m, 0) + a * d
    return {k: a for k, a in r.items() if a}
def poly(e):
    k = e[0]
    if k == 'c': return {(0, 0, 0, 0): Fr(e[1])} if e[1] else {}
    if k == 'v': return {tuple(int(j == e[1]) for j in range(4)): Fr(1)}
    if k == '/':
        d = poly(e[2])
        if set(d) != {(0, 0, 0, 0)}: raise Undef()
        return {m: a / d[(0, 0, 0, 0)] for m, a in poly(e[1]).items()}
    if k == '*': return pmul(poly(e[1]), poly(e[2]))
    return padd(poly(e[1]), poly(e[2]), 1 if k == '+' else -1)
def pint(p, i, lo, hi):
    r = {}
    for m, a in p.items():
        n = m[i]; rest = tuple(0 if j == i else x for j, x in enumerate(m)); t = {rest: a / (n + 1)}
        u, l = hi, lo
        for _ in range(n): u, l = pmul(u, hi), pmul(l, lo)
        r = padd(r, pmul(t, padd(u, l, -1)))
    return r
def pval(p, x): return sum((a * x[0] ** m[0] * x[1] ** m[1] * x[2] ** m[2] * x[3] ** m[3] for m, a in p.items()), Fr(0))
def cxx(e, doms):
    t = e
    for i, lo, hi in doms: t = 'vm::integrate(vm::make_interval(%s, %s), %s, V<%d>())' % (lo, hi, t, i)
    return t
def case(e, doms, form='type'):
    try:
        p = poly(e)
        for i, lo, hi in doms: p = pint(p, i, poly(lo), poly(hi))
    except (Undef, ZeroDivisionError): return None
    spell = (lambda x: raw(x) + '()') if form == 'type' else opx
    def check(o):
        r = typ(o[0][1])
        for x in PTS:
            w = pval(p, x); q = val(r, x)
            if q is None: return 'is %s: undefined at %s where it should be %s' % (show(r), pt(x), w)
            if q != w: return 'is %s: value %s instead of %s at %s' % (show(r), q, w, pt(x))
    key = ' '.join('x%d:[%s,%s]' % (i, show(lo), show(hi)) for i, lo, hi in doms)
    return Case('integrate %s %s over %s' % (form, show(e), key), 'auto r = %s; T_(I, r);' % cxx(spell(e), [(i, spell(lo), spell(hi)) for i, lo, hi in doms]), check)
def cases():
    T = TIER == 'thorough'; out = []; P = ['+', '-', '*']; S = []
    K = [(c(0), c(1)), (c(-2), c(3)), (c(1), c(1)), (c(3), c(-1))]
    Bd = [(c(0), v(1)), (v(1), c(2)), (c(0), b('-', c(1), v(1))), (b('*', v(1), v(2)), b('+', v(1), c(2))), (b('/', v(2), c(2)), b('*', v(1), v(1))), (b('/', c(1), c(2)), b('/', c(7), c(3))), (v(0), c(1)), (c(0), v(0)), (v(0), b('*', c(2), v(0)))]
    L = [c(0), c(1), c(-2), v(0), v(1), v(2)]; S1 = [x for n in (0, 1) for x in trees(n, L, P)]; S2 = trees(2, L if T else [c(0), c(3), v(0), v(1)], P); S3 = trees(3, [v(0), c(2)], P)
    A = [b('+', v(0), c(1)), b('-', v(1), v(0)), b('*', v(1), b('+', v(0), c(3))), b('/', b('+', v(0), v(1)), c(2)), b('/', b('*', v(0), v(0)), c(3)), b('*', c(2), b('/', v(0), c(5))), v(0), v(1), c(4)]
    A2 = trees(1, A, P) + [b('/', x, c(6)) for x in A] + (trees(2, A, P) if T else trees(2, A[:5], P))
    S3 += patterns(3, [v(0), v(1), v(2), c(3)], P) + patterns(4, [v(0), v(1)], P if T else ['-', '*'])
    S3 += wide(1, P) + wide(2, P)
    W = list(combs(5 if T else 4, [v(0), c(3), v(1), v(0)], v(0), P))
    M = []      # monomials: every degree up to 9 in every association
    for n in range(1, 16 if T else 12):
        l = r = v(0)
        for k in range(n): l, r = b('*', l, v(0)), b('*', v(0), r)
        M += [l, r, b('*', l, v(1)), b('*', v(1), r), b('*', c(7), l), b('/', r, c(4))]
    def add(e, *doms):
        x = case(e, doms)
        if x: out.append(x)
    for e in S1 + A2 + W + M:
        for k in K: add(e, (0,) + k)
    for e in S2 + S3:
        add(e, (0,) + K[0])
        if T or e in S2: add(e, (0,) + K[1])
    for e in S1 + A + M[:12]:
        for k in K[2:] + Bd: add(e, (0,) + k)
        for i in (1, 2): add(e, (i, c(0), c(1))); add(e, (i, b('-', v(0), c(2)), b('*', v(3), c(2))))
    for e in S1[:6] + A + M[:6] + (A2 if T else A2[::6]):      # iterated: triangle, simplex, boxes, with both orders
        add(e, (1, c(0), b('-', c(1), v(0))), (0, c(0), c(1)))
        add(e, (0, c(0), v(1)), (1, c(0), c(2)))
        add(e, (0, c(0), c(1)), (1, c(-1), c(1)), (2, c(0), c(3)))
        add(e, (2, c(0), b('-', b('-', c(1), v(0)), v(1))), (1, c(0), b('-', c(1), v(0))), (0, c(0), c(1)))
    for e in trees(2, [c(2), v(0), v(1)], P) + A:
        x = case(e, ((0, c(0), c(1)),), 'operators'); x and out.append(x)
        x = case(e, ((0, c(-1), b('+', v(1), c(1))),), 'operators'); x and out.append(x)
    return out
