"""C16: substitution in compile-time expressions."""
from p13 import *
F0, F1 = ('f', 'test_tag<0ul>'), ('f', 'unknown_tag<1ul>')
def sub(e, s, r):
    if e == s: return r
    return (e[0], sub(e[1], s, r), sub(e[2], s, r)) if is_bin(e) else e
def rts(e): return 'vm::expr(%s)' % {'c': 'vm::constant(%s)', 'v': 'vm::variable(%s)'}[e[0]] % e[1] if e[0] in 'cv' else 'vm::expr(%s{})' % raw(e)
def case(e, s, r, rt):
    m = sub(e, s, r)
    def check(o):
        g = typ(o[0][1]); d = same(m, g)
        if d: return 'gives %s: %s' % (show(g), d)
        if s != e and not has(e, lambda n: n == s) and g != e: return 'nothing to replace, but gives %s' % show(g)
        if rt:
            k, t = o[1]
            if k != 'R': return 'runtime substitution: ' + t
            d = same(m, prefix(t)) if not has(m, lambda n: n[0] == '/') else close(m, prefix(t), 1e-9)
            if d: return 'runtime substitution gives %s: %s' % (show(prefix(t)), d)
    return Case('substitute %s by %s in %s' % (show(s), show(r), show(e)), 'auto r = vm::substitute(%s(), %s(), %s()); T_(I, r); %s' % (raw(s), raw(r), raw(e), 'R_(I, vm::substitute(%s, %s, vm::expr(%s{})));' % (rts(s), rts(r), raw(e)) if rt else ''), check, nt=has(e, lambda n: n == s))
def cases():
    T = TIER == 'thorough'; out = []; L = [c(1), c(2), v(0), v(1), F0, F1]
    R = [c(0), c(-3), v(0), v(1), v(2), F0, F1, b('+', v(0), v(1)), b('*', c(2), v(0)), b('/', v(1), v(2)), b('-', F0, v(0))]
    E1 = [x for n in (0, 1) for x in trees(n, L)]; E2 = trees(2, L if T else [c(2), v(0), F0]); seen = set()
    def add(e, s, r):
        if (e, s, r) in seen: return
        m = sub(e, s, r)
        if not defined(m): return
        seen.add((e, s, r)); f = lambda x: not has(x, lambda n: n[0] == 'f'); ce = lambda n: n[0] == '/' and any(val(n[2], x) == 0 for x in PTS[:3])
        out.append(case(e, s, r, f(e) and f(s) and f(r) and not has(m, ce)))
    for e in E1:
        for s in E1[:6] + list(set(subs(e))): 
            for r in R: add(e, s, r)
    for i, e in enumerate(E2):
        S = sorted(set(list(subs(e)) + [v(0), v(1), F0, F1, b('*', v(0), c(2)), b('+', c(2), v(0))]), key=str)
        for j, s in enumerate(S):
            for k, r in enumerate(R):
                if T or (i + j + k) % 2 == 0: add(e, s, r)
    for e in patterns(3, [v(0), v(1), c(2)] if T else [v(0), v(1)]):
        for s in sorted(set(x for x in subs(e) if T or is_bin(x)), key=str):
            if s != e: add(e, s, R[4]); add(e, s, b('-', v(2), s))
    for e in wide(1) + wide(2):
        add(e, v(0), b('+', v(1), c(3)))
        for x in subs(e):
            if x != e and is_bin(x): add(e, x, v(2))
    # deep formulas; the search formula occurs at several levels, also inside itself
    for n in range(3, 8 if T else 6):
        for o in OPS:
            for o2 in OPS:
                e = v(0)
                for k in range(n): e = b((o, o2)[k % 2], e, e if k < 2 else v(k % 2))
                for s in sorted(set(subs(e)), key=str):
                    for r in (v(2), b('*', v(0), v(2)), e) if n < 5 else (v(2), b('-', v(1), s)): add(e, s, r)
    for e in combs(4 if T else 3, [v(0), c(2), v(1), F0], v(0)):
        for s in (v(0), v(1), c(2), F0):
            for r in R[3:9:2]: add(e, s, r)
    # names: every id is replaced by exactly itself
    ids = [0, 1, 2, 3, 7]
    for i in ids:
        for j in ids:
            out.append(case(b('+', b('*', v(i), v((j + 1) % 5)), v(j)), v(i), c(11), False))
            e = b('-', ('f', 'test_tag<%dul>' % i), ('f', 'unknown_tag<%dul>' % j))
            for s in ('test_tag<%dul>' % j, 'unknown_tag<%dul>' % i, 'unknown_tag<%dul>' % i): out.append(case(e, ('f', s), v(0), False))
    return out
