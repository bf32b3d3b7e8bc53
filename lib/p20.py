"""C20: evaluation of compile-time expressions at compile-time and run-time points."""
from p13 import *
def mv(ns, kind):
    t = {'c': 'C<%d>()', 'i': '%d', 'd': '%d.0', 'r': 'vm::constant(%d.0)', 'l': '%dL'}
    return 'vm::make_vector(%s)' % ', '.join(t[k] % n for n, k in zip(ns, kind))
def maxabs(e, x):
    """largest numerator or denominator met when the fractions are combined without reduction"""
    if e[0] == 'c': return e[1], 1, abs(e[1])
    if e[0] == 'v': return int(x[e[1]]), 1, abs(int(x[e[1]]))
    a, p, m = maxabs(e[1], x); d, q, n = maxabs(e[2], x)
    r = {'+': (a * q + d * p, p * q), '-': (a * q - d * p, p * q), '*': (a * d, p * q), '/': (a * q, p * d)}[e[0]]
    return r[0], r[1], max(m, n, abs(r[0]), abs(r[1]), abs(a * q), abs(d * p))
def sensitive(e, x):
    return max([abs(val(n, x)) for n in subs(e)] + [1])
def case(e, pts, kinds=('c',), rt=True):
    rows = []; code = []
    for ns in pts:
        x = {i: Fr(n) for i, n in enumerate(ns)}; w = val(e, x)
        if w is None: continue
        mm = maxabs(e, x)[2]
        if mm >= 2**63: continue
        s = sensitive(e, x)
        for k in kinds:
            kk = k if len(k) == len(ns) else k * len(ns)
            code.append('N_(I, vm::eval(e, %s));' % mv(ns, kk)); rows.append((ns, 'eval at ' + mv(ns, kk), w, Fr(0) if kk == 'c' * len(ns) and mm < 2**53 else Fr(1, 10**12) * s))
        if len(ns) == 1:
            code.append('N_(I, vm::eval(e, C<%d>()));' % ns[0]); rows.append((ns, 'eval at C<%d>' % ns[0], w, Fr(1, 10**12) * s))
            code.append('N_(I, e(C<%d>()));' % ns[0]); rows.append((ns, 'call with C<%d>' % ns[0], w, Fr(1, 10**12) * s))
            if e[0] != 'c' and abs(ns[0]) < 2**53:
                code.append('N_(I, e(vm::constant(%d.0))); %s' % (ns[0], 'N_(I, vm::eval(e, vm::constant(%d.0)));' % ns[0] if is_bin(e) else '')); rows += [(ns, h, w, Fr(1, 10**12) * s) for h in (('call with a runtime constant', 'eval at a runtime constant') if is_bin(e) else ('call with a runtime constant',))]
        if rt:
            code.append('{ std::vector<double> p{%s}; N_(I, vm::eval(e, p)); N_(I, vm::expr(e)(p)); }' % ','.join(map(str, ns))); rows += [(ns, 'eval at the vector %s' % (ns,), w, Fr(1, 10**12) * s), (ns, 'run time value at %s' % (ns,), w, Fr(1, 10**12) * s)]
            if len(ns) > 1 or e[0] != 'c': code.append('{ std::vector<double> p{%s}; N_(I, e(p)); }' % ','.join(map(str, ns))); rows.append((ns, 'call with the vector %s' % (ns,), w, Fr(1, 10**12) * s))
            code.append('N_(I, e(%s));' % mv(ns, 'c' * len(ns))); rows.append((ns, 'call with ' + mv(ns, 'c' * len(ns)), w, Fr(1, 10**12) * s))
    if not rows: return None
    def check(o):
        for (ns, how, w, tol), (k, t) in zip(rows, o):
            if k != 'N': return '%s raises %s' % (how, t)
            g = float(t)
            if g != g or abs(g) == float('inf') or (g != float(w) if tol == 0 else abs(Fr(g) - w) > tol): return '%s is %s instead of %s' % (how, t, w)
        if len(o) < len(rows): return '%d of %d values' % (len(o), len(rows))
    return Case('%s at %s kinds %s' % (show(e), pts, ','.join(kinds)), 'auto e = %s(); %s' % (raw(e), ' '.join(code)), check)
def missing(e):
    """points with too few coordinates"""
    m = max(x[1] for x in leaves(e) if x[0] == 'v'); code = []; how = []
    T = lambda x: 'try { N_(I, %s); } catch (vm::variable_index_out_of_bounds_exception const&) { OUT(I, \'Y\', \"\"); }' % x
    for n in range(0, min(m, 3) + 1):
        p = 'std::vector<double> p{%s};' % ','.join('%d.5' % (i + 2) for i in range(n))
        code.append('{ %s %s %s }' % (p, T('e(p)'), T('vm::eval(e, p)') if is_bin(e) else '')); how += ['call with %d coordinates' % n] + (['eval at %d coordinates' % n] if is_bin(e) else [])
    if m > 0: code.append(T('e(vm::constant(1.5))')); how.append('call with a runtime constant')
    def check(o):
        for h, (k, t) in zip(how, o):
            if k != 'Y': return '%s gives %s %s instead of reporting the missing coordinate' % (h, k, t)
        if len(o) < len(how): return '%d of %d outcomes' % (len(o), len(how))
    return Case('missing coordinates of ' + show(e), 'auto e = %s(); %s' % (raw(e), ' '.join(code)), check)
def cases():
    T = TIER == 'thorough'; out = []
    P1 = [(2,), (-3,), (0,)]; P2 = [(2, 3), (-4, 0)]; P3 = [(4, 6, 8), (-1, 5, -7)]; seen = set()
    def add(e, pts, *a):
        if (e, tuple(pts)) in seen: return
        seen.add((e, tuple(pts))); x = case(e, pts, *a)
        if x: out.append(x)
    L1 = [c(0), c(1), c(-2), c(6), v(0)]; L2 = [c(2), c(-3), v(0), v(1)]; L3 = [c(3), v(0), v(1), v(2)]
    for n in (0, 1, 2): 
        for e in trees(n, L1 if T or n < 2 else L1[1:]): add(e, P1)
    for n in (1, 2):
        for e in trees(n, L2): add(e, P2)
        for e in trees(n, L3): add(e, P3)
    for e in trees(3, L2 if T else [c(2), v(0)]): add(e, P1 if not has_var(e, 1) else P2, ('c',), T)
    for e in trees(3, [v(0), v(1)]): add(e, P2[:1], ('c',), False)
    for e in combs(5 if T else 4, [v(0), v(1), c(3), v(2)], v(1)): add(e, P3)
    # every mixture of component kinds
    KD = list(itertools.product('cidr', repeat=2)); K3 = list(itertools.product('cid', repeat=3))
    for e in trees(1, L2): add(e, P2 + [(7, -5)], tuple(''.join(k) for k in KD))
    for e in trees(1, L3) + (trees(2, L3) if T else trees(2, [v(0), v(1), v(2)])): add(e, P3[:1] + [(5, -2, 9)], tuple(''.join(k) for k in (K3 if T else K3[::4])))
    for e in L1 + trees(1, L1) + L2: 
        if not has_var(e, 1): add(e, P1 + [(9,)], ('c', 'i', 'd', 'r'))
    for e in L3: add(e, P3, ('ccc', 'iii', 'ddd', 'rrr', 'cdr'))
    # large numbers at compile time
    BIG = [2**31, -2**31 - 7, 2**32 + 15, 3037000499, -4611686018427387904, 10**18, 999999937]
    for x in BIG:
        for y in BIG[:4] + [3, -1]:
            for e in trees(1, [v(0), v(1)]) + [b('/', b('*', v(0), c(2)), v(1)), b('-', b('/', v(0), c(5)), b('/', v(1), c(7))), b('/', b('/', v(0), v(1)), b('/', v(1), v(0)))]:
                add(e, [(x, y)], ('c',), False)
    M = [v(i) for i in (0, 1, 2, 3, 9, 255, 256, 65536)] + [e for l in ([v(0), c(0), v(1)], [v(2), c(3), v(1)], [v(1), v(300)]) for n in (1, 2) for e in trees(n, l) if has_var(e)]
    return out + [missing(e) for e in dict.fromkeys(M)]
