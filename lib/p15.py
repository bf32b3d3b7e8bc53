"""C15: differentiation of compile-time expressions."""
from p13 import *
def D(e, i):
    """derivative by the textbook rules, no shortcuts"""
    k = e[0]
    if k in ('c', 'f'): return c(0)
    if k == 'v': return c(1 if e[1] == i else 0)
    p, q = D(e[1], i), D(e[2], i)
    if k in '+-': return (k, p, q)
    if k == '*': return b('+', b('*', p, e[2]), b('*', e[1], q))
    return b('/', b('-', b('*', p, e[2]), b('*', e[1], q)), b('*', e[2], e[2]))
def dval(e, x, i):
    try: return dual(e, x, i)
    except Undef: return None
def judge_d(e, r, i, exact=True):
    for x in PTS:
        w = dval(e, x, i)
        if w is None: continue
        q = val(r, x)
        if q is None: return 'undefined at %s where it should be %s' % (pt(x), w.d)
        if (q != w.d) if exact else not abs(q - w.d) <= Fr(1, 10**9) * (1 + abs(w.d)): return 'value %s instead of %s at %s' % (q, w.d, pt(x))
    return None
def first(e, ids, rt, form):
    x = raw(e) + '()' if form == 'raw' else opx(e)
    def check(o):
        for i, (k, t) in zip(ids, o):
            r = typ(t); d = judge_d(e, r, i)
            if d: return 'derivative by x%d is %s: %s' % (i, show(r), d)
        if len(o) < len(ids): return 'nothing printed'
        for i, (k, t) in zip(ids, o[len(ids):]):
            if k != 'R': return 'runtime derivative by x%d: %s' % (i, t)
            r = prefix(t); d = judge_d(e, r, i, False)
            if d: return 'runtime derivative by x%d of the converted expression is %s: %s' % (i, show(r), d)
    return Case('diff %s %s by %s' % (form, show(e), ids), 'auto e = %s; %s %s' % (x, ' '.join('{ auto r = vm::diff(e, V<%d>()); T_(I, r); }' % i for i in ids), ' '.join('R_(I, vm::diff(vm::expr(e), vm::variable(%d)));' % i for i in ids) if rt else ''), check)
def second(e, i, j):
    d1 = D(e, i)
    def check(o):
        r = typ(o[0][1])
        for x in PTS:
            if val(e, x) is None: continue
            w = dual(d1, x, j); q = val(r, x)
            if q is None: return 'undefined at %s where it should be %s' % (pt(x), w.d)
            if q != w.d: return 'is %s: value %s instead of %s at %s' % (show(r), q, w.d, pt(x))
    return Case('diff %s by x%d, x%d' % (show(e), i, j), 'auto r = vm::diff(vm::diff(%s(), V<%d>()), V<%d>()); T_(I, r);' % (raw(e), i, j), check)
def cases():
    T = TIER == 'thorough'; out = []; S = []; L = [c(0), c(1), c(2), c(-3), v(0), v(1)]
    S += L
    for n in (1, 2): S += trees(n, L)
    S += trees(3, [c(2), v(0), v(1)] if T else [c(2), v(0)])
    S += patterns(3, [v(0), v(1), v(2)]); S += patterns(4, [v(0), v(1)]) if T else [e for e in patterns(4, [v(0), v(1)], ['-', '*', '/']) if not any(has(x, lambda n: n[0] == '/') for x in e[1:])]
    WD = wide(1) + wide(2); S += WD; ill = set(e for e in WD if has(e, lambda n: n[0] == '/'))   # quotients by large constants: double arithmetic is too ill-conditioned for the runtime comparison
    W = list(combs(5 if T else 4, [v(0), c(3), v(1), v(0)], v(0))); S += W
    A = [b('+', v(0), c(1)), b('-', v(0), v(1)), b('*', v(0), v(1)), b('*', v(0), v(0)), b('/', v(0), v(1)), b('/', c(2), v(0)), b('+', b('*', v(0), v(0)), v(1)), b('/', b('+', v(0), v(1)), b('-', v(0), c(3))), v(0), c(4)]
    S += trees(1, A)
    S += trees(2, A if T else A[:5])
    seen = set()
    for e in S:
        if e in seen or bad(e): continue
        seen.add(e); out.append(first(e, (0, 1), e not in ill, 'raw'))
    for e in [x for n in (1, 2) for x in trees(n, [c(2), v(0), v(1)])] + trees(1, A):
        if not bad(e): out.append(first(e, (0, 1, 2), False, 'operators'))
    seen = set()
    for e in [x for n in (0, 1, 2) for x in trees(n, [c(2), v(0), v(1)])] + trees(1, A) + (W if T else W[::3]) + (trees(2, A[:4]) if T else []):
        if bad(e) or e in seen: continue
        seen.add(e)
        for i in (0, 1):
            for j in (0, 1): out.append(second(e, i, j))
    # wide formulas: sums and products of many factors
    for o in OPS:
        for n in range(5, 13 if T else 9):
            e = v(0)
            for k in range(n): e = b(o, e, b('+', v(k % 2), c(k + 1)))
            out.append(first(e, (0, 1), True, 'raw'))
            e = v(0)
            for k in range(n): e = b(o, b('*', c(k + 2), v((k + 1) % 2)), e)
            out.append(first(e, (0, 1), True, 'raw'))
    return out
