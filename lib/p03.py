"""C03: compile-time expressions convert to runtime ones with the same meaning; mixing with every kind of runtime operand."""
from p13 import *
FT = '\x00'
def fs(i): return re_('vm::function_symbol(%d)' % i, ('f', '%d_0' % i))
def conv(e):
    """construction, assignment to an empty handle, assignment over a previous formula, assignment of a copy"""
    t = raw(e) + '()'
    def check(o):
        for k, (n, x) in zip(('initialised', 'assigned', 'reassigned', 'wrapped twice', 'copy-initialised', 'binary'), o[:6] if is_bin(e) else o[:5]):
            if n != 'R': return '%s: %s' % (k, x)
            d = same(e, prefix(x), PTS[:4])
            if d: return '%s handle is %s: %s' % (k, show(prefix(x)), d)
        return numbers(e, o[6:] if is_bin(e) else o[5:], PT3)
    return Case('conversion of ' + show(e), 'auto r = %s; vm::expr a(r); R_(I, a); vm::expr d; d = r; R_(I, d); vm::expr h(vm::variable(1) * vm::variable(0)); h = r; R_(I, h); vm::expr g(a); vm::expr w; w = g; R_(I, w); vm::expr y = r; R_(I, y); %s %s' % (t, 'vm::rt_binary_expr<> q(r); R_(I, vm::expr(q));' if is_bin(e) else '', ' '.join('{ std::vector<double> p{%s}; N_(I, a(p)); }' % ','.join(map(repr, q)) for q in PT3)), check)
def cases():
    T = TIER == 'thorough'; out = []; S = []
    L = [c(0), c(1), c(2), c(-3), v(0), v(1), v(2)]; S += L
    for n in (1, 2): S += trees(n, L if T or n == 1 else L[1:2] + L[3:])
    S += trees(3, [c(2), v(0), v(1)] if T else [c(2), v(0)])
    S += combs(4 if T else 3, [c(6), v(0), c(-4), v(1)], v(2))
    S += [c(x) for x in (2**53, -2**53, 2**31, -2**31, 2**40 + 1, 123456789)] + [v(i) for i in (3, 7, 63, 1000)]
    seen = set()
    for e in S:
        if e in seen or bad(e): continue
        seen.add(e); out.append(conv(e)) if not has(e, lambda n: n[0] == 'v' and n[1] > 2) else out.append(tree_only(e))
    # operand kinds
    CT = [c(2), c(-3), v(0), b('+', v(0), c(1)), b('*', c(2), v(1)), b('/', v(1), v(0)), b('-', c(4), v(0)), b('*', b('+', v(0), v(1)), b('-', v(0), c(5)))]
    ctx = [('r', raw(x) + '()', x) for x in CT]        # spelled types, so nothing has been shortened by operators
    X = lambda t: 'vm::expr(%s)' % t
    RT = [rd(2.5), ('r', '(-4.0)', c(-4)), ('r', '3', c(3)), ('r', '7L', c(7)), ('r', '0.5f', c(Fr(1, 2))), rk(0.75), rv(0), rv(1),
          re_(X('vm::variable(1)'), v(1)), re_(X('vm::constant(1.5)'), c(Fr(3, 2))), re_('(vm::variable(0)+vm::variable(1))', b('+', v(0), v(1))),
          re_(X('vm::variable(0)*vm::variable(1)'), b('*', v(0), v(1))), re_(X(raw(CT[3]) + '()'), CT[3]),
          re_('vm::exp(vm::variable(1))', ('u', 'exp', v(1))), re_(X('vm::sin(vm::variable(0)+1.0)'), ('u', 'sin', b('+', v(0), c(1)))), fs(0), re_(X('vm::function_symbol(1)'), ('f', '1_0'))]
    K = ctx + RT; M = []
    mix = lambda x, y: (x in ctx) != (y in ctx) or not (native(x) and native(y))
    for x in K:
        for y in K:
            if (x in ctx) == (y in ctx) == True: continue
            if native(x) and native(y): continue
            for o in OPS: M.append(b(o, x, y))
    P = [m for m in M if (m[1] in ctx) != (m[2] in ctx)]
    Z = ctx[:4] + [RT[i] for i in (0, 2, 5, 7, 8, 11, 13, 15)] if not T else K
    for i, m in enumerate(P):
        if not T and i % 3: continue
        for j, z in enumerate(Z):
            for o in (OPS if T else [OPS[(i + j) % 4]]): M += [b(o, m, z), b(o, z, m)]
    seen = set()
    for e in M:
        if e in seen or bad2(model(e)): continue
        seen.add(e); out.append(mixed(e))
    return out + functions(T, seen)
def functions(T, seen):
    """every elementary function on compile-time and runtime operands of every kind, their results combined with operands of every kind"""
    A = [v(i) for i in (0, 1, 2, 3, 7, 63, 64, 255, 256, 1000, 65536)] + trees(1, [v(0), v(5), c(2)]) + trees(2, [v(0), v(3), c(-7)] if T else [v(3), c(-7)])
    A += [b('/', v(1), b('+', v(0), c(2**40 + 1))), b('-', b('*', v(0), v(1)), b('/', v(2), c(3))), b('*', b('+', v(0), v(1)), b('-', v(4), c(5)))]
    A = [a for a in A if not bad(a) and has_var(a)]
    R = [('vm::variable(%d)' % i, v(i)) for i in (0, 1, 3, 1000)] + [('vm::constant(0.75)', c(Fr(3, 4))), ('(vm::variable(0)+vm::variable(3))', b('+', v(0), v(3))), ('vm::expr(vm::variable(2))', v(2)),
         ('vm::expr(vm::constant(-1.5))', c(Fr(-3, 2))), ('vm::expr(vm::variable(0)*vm::constant(2.5))', b('*', v(0), c(Fr(5, 2)))), ('(vm::variable(1)/vm::variable(0)-vm::constant(2.0))', b('-', b('/', v(1), v(0)), c(2)))]
    out = []; F = []
    for k, f in enumerate(FUN):
        fx = lambda t, m: re_('vm::%s(%s)' % (f, t), ('u', f, m))
        l0 = [fx(raw(a) + '()', a) for a in A]; l1 = [fx(t, m) for t, m in R]
        l2 = [re_('vm::%s(%s)' % (g, x[1]), ('u', g, x[2])) for j, g in enumerate(FUN) for i, x in enumerate(l0 + l1) if T or (i + j) % 4 == k % 4]   # functions of functions
        l3 = [fx('(%s%s%s)' % (x[1], o, y[1]), (o, x[2], y[2])) for x in (l0[3], l0[-1]) for y in (l1[0], l1[-2], re_('V<7>()', v(7)), re_('C<-3>()', c(-3))) for o in OPS]   # of mixed formulas
        F += l0 + l1 + l2 + l3
        Z = [re_('C<2>()', c(2)), re_('V<7>()', v(7)), re_(raw(A[-2]) + '()', A[-2]), rd(2.5), ('r', '3', c(3)), rk(0.75), rv(1), re_('vm::expr(vm::variable(1))', v(1)), re_('(vm::variable(0)+vm::variable(1))', b('+', v(0), v(1))), fs(0), l0[1], l0[-1]]
        for x in [l0[3], l0[-1], l1[0], l2[0]] + ([l0[0], l2[-1]] if T else []):
            for z in Z:
                for o in OPS: F += [b(o, x, z), b(o, z, x)]
    for e in F:
        if e in seen or bad2(model(e)): continue
        seen.add(e); out.append(mixed(e))
    return out
def bad2(m): return not any(val2(m, x) is not None for x in PTS)
def val2(m, x): return val(m, x)
def tree_only(e):
    def check(o): return None if o[0][0] == 'R' and prefix(o[0][1]) == e else 'converts to ' + o[0][1]
    return Case('conversion of ' + show(e), 'vm::expr a = %s{}; R_(I, a);' % raw(e), check)
def mixed(e):
    m = model(e)
    def check(o):
        for k, (n, x) in zip(('initialised', 'assigned'), o):
            if n != 'R': return '%s: %s' % (k, x)
            d = close(m, prefix(x))
            if d: return '%s: is %s: %s' % (k, show(prefix(x)), d)
        if len(o) < 2: return 'nothing assigned'
    return Case('mixed ' + name3(e), 'auto const& r = %s; vm::expr a(r); R_(I, a); vm::expr d(vm::constant(9.0)); d = r; R_(I, d);' % text(e), check)
def name3(e): return text(e).replace('vm::', '')
