"""C17: expansion of compile-time polynomials."""
from p13 import *
F0 = ('f', 'test_tag<0ul>')
def factors(e):
    if e[0] == '*': yield from factors(e[1]); yield from factors(e[2])
    elif e[0] == '/': yield from factors(e[1])
    else: yield e
def unexpanded(e):
    for n in subs(e):
        if n[0] == '*':
            for f in factors(n):
                if f[0] in '+-': return show(n)
    return None
def polynomial(e): return e[0] in 'cvf' or e[0] in '+-*' and polynomial(e[1]) and polynomial(e[2]) or e[0] == '/' and polynomial(e[1]) and e[2][0] == 'c'
def case(e, form):
    p = polynomial(e)
    def check(o):
        r = typ(o[0][1]); d = same(e, r)
        if d: return 'expands to %s: %s' % (show(r), d)
        if p and unexpanded(r): return 'expands to %s, where %s is not multiplied out' % (show(r), unexpanded(r))
        r2 = typ(o[1][1]); d = same(e, r2)
        if d: return 'expanding %s again gives %s: %s' % (show(r), show(r2), d)
        if p and unexpanded(r2): return 'expanded twice: %s' % show(r2)
    return Case('expand %s %s' % (form, show(e)), 'auto r = vm::expand(%s); T_(I, r); auto q = vm::expand(r); T_(I, q);' % (raw(e) + '()' if form == 'type' else opx(e)), check, nt=unexpanded(e) is not None)
def cases():
    T = TIER == 'thorough'; out = []; P = ['+', '-', '*']; S = []; L = [c(0), c(1), c(-2), c(3), v(0), v(1), F0]
    for n in (0, 1, 2): S += trees(n, L, P)
    S += trees(3, [c(2), v(0), v(1)], P)
    S += trees(4, [v(0), c(2)] if T else [v(0)], P)
    if T: S += trees(5, [v(0)], P)
    S += patterns(3, [v(0), v(1), v(2), c(3)], P) + patterns(4, [v(0), v(1), v(2)] if T else [v(0), v(1)], P) + (patterns(5, [v(0), v(1)], ['-', '*']) if T else [])
    S += wide(1, P) + wide(2, P)
    for n in (2, 3): S += [e for e in trees(n, [c(2), v(0), v(1)] if n == 2 or T else [c(2), v(0)], OPS) if has(e, lambda n: n[0] == '/')]
    A = [b('+', v(0), c(1)), b('-', v(1), c(2)), b('-', v(0), v(1)), b('*', v(0), v(1)), b('*', v(1), b('+', v(0), c(3))), b('/', b('+', v(0), v(1)), c(2)), b('+', b('*', v(0), v(0)), b('-', c(4), v(1))), v(0), c(3)]
    S += trees(1, A, P) + trees(2, A, P) + (trees(3, A[:4], P) if T else trees(3, A[:2], ['*', '-']))
    for w in (combs(6 if T else 5, [v(0), b('-', v(1), c(2)), c(3), b('+', v(0), v(1))], b('+', v(0), c(1)), P)): S.append(w)
    # powers of sums, associated to the left, to the right and balanced
    for s in (b('+', v(0), v(1)), b('-', v(0), c(1)), b('+', v(0), b('-', v(1), c(2))), b('-', b('*', v(0), v(1)), b('*', c(2), F0))):
        for n in range(2, 7 if T else 5):
            l = r = s
            for k in range(n - 1): l, r = b('*', l, s), b('*', s, r)
            S += [l, r, b('*', b('*', s, s), b('*', s, s))]
    S += [b('/', x, c(k)) for x in trees(1, A, P) for k in (2, -3)] + [b('*', b('/', x, c(5)), y) for x in A for y in A] + [b('*', y, b('/', x, c(5))) for x in A for y in A]
    seen = set()
    for e in S:
        if e in seen or bad(e): continue
        seen.add(e); out.append(case(e, 'type'))
    for e in trees(2, [c(2), v(0), v(1)], P) + trees(1, A, P):
        out.append(case(e, 'operators'))
    return out
