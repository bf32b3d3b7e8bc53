"""C14: compile-time simplification preserves the value."""
from ct import *
def konst(e): return not has(e, lambda n: n[0] in ('v', 'f', 'u'))
def isfrac(e): return e[0] == 'c' or (e[0] == '/' and e[1][0] == 'c' and e[2][0] == 'c')
LIM = 2**63 - 1
def fits(e):
    """(numerator, denominator) pairs as combined by the straightforward fraction rules stay within long"""
    try: fr(e); return True
    except OverflowError: return False
def ck(n):
    if not -LIM <= n <= LIM: raise OverflowError()
    return n
def fr(e):
    if e[0] == 'c': return (ck(e[1]), 1)
    if e[0] not in OPT: return (0, 0) if False else (1, 1)
    a, bb = fr(e[1]), fr(e[2])
    if e[0] == '+': return (ck(ck(a[0] * bb[1]) + ck(bb[0] * a[1])), ck(a[1] * bb[1]))
    if e[0] == '-': return (ck(ck(a[0] * bb[1]) - ck(bb[0] * a[1])), ck(a[1] * bb[1]))
    if e[0] == '*': return (ck(a[0] * bb[0]), ck(a[1] * bb[1]))
    return (ck(a[0] * bb[1]), ck(a[1] * bb[0]))
def mk(e, ops):
    src = raw(e) + '()' if not ops else opx(e)
    def check(o):
        r = typ(o[0][1]); d = same(e, r)
        if d: return 'simplifies to %s: %s' % (show(r), d)
        r2 = typ(o[1][1]); d = same(r, r2)
        if d: return 'simplifying the result %s again gives %s: %s' % (show(r), show(r2), d)
        if konst(e) and not isfrac(r): return 'simplifies to %s, which is no constant or fraction' % show(r)
        for x in ('0',):
            pass
        w = val(e, {0: Fr(3), 1: Fr(-2), 2: Fr(5)})
        if w is not None and o[2][0] == 'N' and not has(e, lambda n: n[0] in ('f', 'u')):
            g = float(o[2][1])
            if abs(g - float(w)) > 1e-9 * (1 + abs(float(w))): return 'the simplified expression %s evaluates to %s instead of %s' % (show(r), g, w)
        return None
    num = '' if has(e, lambda n: n[0] in ('f', 'u')) else ' std::vector<double> p{3,-2,5}; N_(I, vm::eval(r, p));'
    code = 'auto r = vm::simplify(%s); T_(I, r); T_(I, vm::simplify(r)); ' % src + (num or 'N_(I, 0);')
    return Case(('operators ' if ops else '') + show(e), code, check, True)
def cases():
    T = TIER == 'thorough'; L = [c(0), c(1), c(2), c(-3), v(0), v(1), c(-1)]; S = []
    for n in (0, 1, 2): S += trees(n, L)
    S += trees(3, [c(2), c(1), v(0)] if not T else [c(0), c(2), c(-1), v(0)])
    for e in combs(5 if T else 4, [c(6), c(-4), v(1), c(0), c(1)], v(0)): S.append(e)
    S += patterns(3, [v(0), v(1), v(2), c(3)]); S += patterns(4, [v(0), v(1), v(2)] if T else [v(0), v(1)])
    for e in combs(5 if T else 4, [c(6), c(-4), c(9), c(1)], c(10)): S.append(e)
    # every pair of fractions of small integers
    R = range(-3, 4) if not T else range(-6, 7); fr_ = [b('/', c(p), c(q)) for p in R for q in R if q]
    for x in fr_:
        for y in fr_[::1 if T else 3] + [c(p) for p in R]:
            for o in OPS: S.append(b(o, x, y)); S.append(b(o, y, x))
    # large constants
    big = [2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**32 + 3, -2**31, -2**31 - 1, 10**10, 3 * 10**9, 2**53 + 1, 2**62, LIM, -LIM, 999999937, 46341, 65537]
    for p in big:
        for q in big + [1, 2, 3, -1, 7]:
            for o in OPS: S += [b(o, c(p), c(q)), b(o, c(q), c(p))]
            for s_ in ((2, 3, 5, -7) if T else (2,)):
                for o in OPS: S += [b(o, b('/', c(p), c(s_)), b('/', c(q), c(3))), b(o, b('/', c(s_), c(p)), c(q)), b(o, c(q), b('/', c(p), c(s_))), b(o, b('/', c(p), c(s_)), v(0))]
            S += [b('*', b('/', c(p), c(q)), v(0)), b('+', b('*', c(p), c(q)), v(0))]
    # unary expressions and function symbols as operands
    U_ = [('f', 'test_tag<0ul>'), ('f', 'unknown_tag<1ul>')]
    for q in U_:
        for l in L + [b('/', c(1), c(3)), b('-', c(0), v(0)), b('/', c(1), v(1))]:
            for o in OPS:
                S += [b(o, q, l), b(o, l, q)]
                for k in (c(0), c(1), v(0)):
                    for o2 in OPS: S += [b(o2, b(o, q, l), k), b(o2, k, b(o, l, q))]
    # structural rules: fractions with one in the numerator, negations, nested
    A = [b('/', c(1), v(0)), b('/', c(1), c(4)), b('-', c(0), v(0)), b('-', c(0), c(5)), b('/', c(2), c(4)), b('-', c(0), b('/', c(1), v(1))), b('/', c(1), b('-', c(0), v(1))), b('*', c(1), v(0)), b('+', v(1), c(0)), b('/', v(0), c(1)), b('*', v(0), v(1)), c(0), c(1), c(-1), v(1)]
    for n in (1, 2): S += trees(n, A if n == 1 or T else A[:7])
    seen = set(); out = []
    for e in S:
        if e in seen: continue
        seen.add(e)
        # undefined everywhere, or not representable: no claim
        if any(n[0] == '/' and konst(n[2]) and val(n[2], PTS[0]) in (0, None) for n in subs(e)) or not defined(e): continue
        if any(konst(n) and not fits(n) for n in subs(e)): continue
        if any(n[0] == '/' and not has(n[2], lambda q: q[0] == 'f' or q[0] == 'u') and all(val(n[2], x) in (0, None) for x in PTS) for n in subs(e)): continue
        out.append(mk(e, False))
    for e in trees(1, L) + trees(2, L[:6]):
        if any(n[0] == '/' and all(val(n[2], x) in (0, None) for x in PTS) for n in subs(e)) or not defined(e): continue
        out.append(mk(e, True))
    return out
