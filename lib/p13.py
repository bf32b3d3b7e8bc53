"""C13: compile-time operator shortcuts preserve the value; C03: conversion to and mixing with runtime objects (p03 uses hybrid())."""
from ct import *
# runtime operands: ('r', text, tree)
def rk(x): return ('r', 'vm::constant(%r)' % x, c(Fr(x)))
def rd(x): return ('r', '%r' % x, c(Fr(x)))
def rv(i): return ('r', 'vm::variable(%d)' % i, v(i))
def re_(txt, t): return ('r', txt, t)
def is_leaf(e): return e[0] in ('c', 'v', 'f', 'r')
def text(e):
    if e[0] == 'r': return e[1]
    if e[0] in OPT: return '(%s%s%s)' % (text(e[1]), e[0], text(e[2]))
    return raw(e) + '()'
def model(e):
    if e[0] == 'r': return e[2]
    if e[0] in OPT: return (e[0], model(e[1]), model(e[2]))
    return e
def name(e):
    if e[0] == 'r': return e[1].replace('vm::', '')
    if e[0] in OPT: return '(%s%s%s)' % (name(e[1]), e[0], name(e[2]))
    return {'c': 'C<%s>', 'v': 'ct%s', 'f': 'f<%s>'}[e[0]] % e[1]
PT3 = [(0.5, 1.25, -3.0), (-2.0, 0.75, 4.0), (1.0, 1.0, 1.0), (3.0, -1.5, 0.0)]
def bad(e): return any(n[0] == '/' and all(val(n[2], x) in (0, None) for x in PTS) for n in subs(e)) or not defined(e)
def native(e):   # a number by the C++ built-in operators
    return e[0] == 'r' and not e[1].startswith(('vm','B<','C<','V<')) or (e[0] in OPT and native(e[1]) and native(e[2]))
def pure(e):
    def check(o):
        r = typ(o[0][1]); d = same(e, r)
        if d: return 'is of type %s: %s' % (show(r), d)
        return numbers(e, o[1:])
    return Case('operators ' + show(e), 'auto r = %s; T_(I, r); %s' % (opx(e), evals('r')), check)
def evals(x): return ' '.join('{ std::vector<double> p{%s}; N_(I, vm::eval(%s, p)); }' % (','.join(map(repr, q)), x) for q in PT3[:2])
def numbers(e, o, pts=PT3[:2]):
    for q, (k, t) in zip(pts, o):
        w = val(e, {i: Fr(a) for i, a in enumerate(q)})
        if w is None: continue
        if k != 'N': return 'raises ' + t
        if not abs(float(t) - float(w)) <= 1e-11 * (1 + abs(float(w))) * (1 + size(e)): return 'evaluates to %s instead of %s at %s' % (t, float(w), q)
    return None
def close(e, r, tol=1e-11):
    """None or counterexample: r (tree with rounded constants) has the value of e"""
    for x in PTS:
        a = val(e, x)
        if a is None: continue
        try: q = ev(r, x)
        except Undef: return 'undefined at %s where it should be %s' % (pt(x), float(a))
        if abs(q - a) > Fr(tol) * (1 + abs(a)): return 'value %s instead of %s at %s' % (float(q), float(a), pt(x))
    return None
def hybrid(e, pid_eval=True):
    m = model(e)
    def check(o):
        if o[0][0] != 'R': return 'conversion gives ' + o[0][1]
        r = prefix(o[0][1]); d = close(m, r)
        if d: return 'is %s: %s' % (show(r), d)
        return numbers(m, o[1:])
    return Case('mixed ' + name(e), 'auto r = %s; vm::expr e_(r); R_(I, e_); { std::vector<double> p{%s}; N_(I, e_(p)); } { std::vector<double> p{%s}; N_(I, e_(p)); }' % (text(e), ','.join(map(repr, PT3[0])), ','.join(map(repr, PT3[1]))), check)
def cases():
    T = TIER == 'thorough'; L = [c(0), c(1), c(2), c(-3), v(0), v(1)]; S = []; out = []
    for n in (1, 2): S += trees(n, L)
    S += trees(3, [c(2), v(0), v(1)] if T else [c(2), v(0)])
    for e in combs(4 if T else 3, [c(6), v(0), c(-4), v(1)], v(0)): S.append(e)
    # equal operands and sub-expressions on both sides
    A = [b('+', v(0), v(1)), b('-', v(0), c(2)), b('*', v(0), v(1)), b('/', v(0), v(1)), b('/', c(2), v(0)), b('-', c(3), v(1)), b('*', c(2), v(0)), v(0), v(1), c(2), b('/', c(1), c(2)), b('+', b('/', v(0), v(1)), c(1))]
    S += trees(1, A)
    for x in A:
        for y in A:
            for z in A[:8]:
                for o in OPS:
                    for o2 in OPS: S += [b(o2, b(o, x, y), z), b(o2, z, b(o, x, y))]
    seen = set()
    S += patterns(3, [v(0), v(1), v(2), c(3)])
    S += wide(1) + wide(2)
    if T: S += patterns(4, [v(0), v(1)])
    for e in S:
        if e in seen or bad(e): continue
        seen.add(e); out.append(pure(e))
    # with runtime constants
    H = [c(2), v(0), c(-3), v(1)]; R = [rk(2.5), rk(-4.0), rk(0.0)] ; K = H + R
    M = []
    for n in (1, 2): M += trees(n, K)
    B_ = [b(o, x, y) for o in OPS for x in K[:6] for y in K[:6] if (x[0] == 'r') != (y[0] == 'r')]
    for x in B_:
        for y in (B_ if T else B_[::3]):
            for o in OPS: M.append(b(o, x, y))
    for x in B_:
        for o in OPS: M.append(b(o, x, x))
    # two sums with different runtime constants combined: never to be treated as equal
    G = [b(o, x, y) for o in '+-' for x in (c(2), c(-3)) for y in (v(0), b('*', v(0), v(1)), b('-', v(1), c(4)))]
    P = [b(o, r, g) for o in '+-' for g in G for r in R[:2]] + [b(o, g, r) for o in '+-' for g in G for r in R[:2]]
    for x in (P if T else P[:12]):
        for y in (P if T else P[:12]):
            for o in OPS: M.append(b(o, x, y))
    M += P + [b(o, x, y) for o in OPS for x in P for y in (v(1), c(5), rk(1.5))] + [b(o, y, x) for o in OPS for x in P for y in (v(1), c(5), rk(1.5))]
    seen = set()
    for e in M:
        if e in seen or not has(e, lambda n: n[0] == 'r') or not has(e, lambda n: n[0] in ('c', 'v')) or bad(model(e)): continue
        seen.add(e); out.append(hybrid(e))
    return out
