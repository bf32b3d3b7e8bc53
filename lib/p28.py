"""C28: equations and intervals keep their two sides."""
from p13 import *
F0 = ('f', 'test_tag<0ul>')
X = lambda t: 'vm::expr(%s)' % t
def kinds(i):
    """operand kinds; i makes left and right operands differ"""
    p = i + 1
    return [('number', '%d.5' % p, c(Fr(2 * p + 1, 2))), ('int', '%d' % (p + 3), c(p + 3)), ('constant', 'vm::constant(-%d.25)' % p, c(Fr(-4 * p - 1, 4))), ('variable', 'vm::variable(%d)' % i, v(i)),
      ('fsymbol', 'vm::function_symbol(%d)' % p, ('f', '%d_0' % p)), ('unary', 'vm::rt_unary_expr<>(vm::variable(%d).clone(), vm::exp(vm::variable(0)).op()->clone())' % i, ('u', 'exp', v(i))),
      ('binary', '(vm::variable(%d) - vm::variable(%d))' % (i, p), b('-', v(i), v(p))), ('expr', X('vm::variable(%d) / 3.0' % i), b('/', v(i), c(3))), ('expr-constant', X('vm::constant(%d.75)' % p), c(Fr(4 * p + 3, 4))), ('expr-unary', X('vm::sin(vm::variable(%d))' % p), ('u', 'sin', v(p))), ('expr-variable', X('vm::variable(%d)' % p), v(p)),
      ('ct_constant', 'C<%d>()' % (p * 5), c(p * 5)), ('ct_variable', 'V<%d>()' % i, v(i)), ('ct_binary', raw(b('-', v(i), b('*', c(p), v(p)))) + '()', b('-', v(i), b('*', c(p), v(p)))), ('ct_quotient', raw(b('/', c(p), c(3))) + '()', b('/', c(p), c(3)))]
def side(w, k, t, what):
    if k == 'T': r = typ(t); d = None if r == w else 'differs'
    elif k == 'R': r = prefix(t); d = close(w, r, 1e-14)
    else: return '%s: %s' % (what, t)
    return '%s is %s instead of %s: %s' % (what, show(r), show(w), d) if d else None
PRE = ''
def pair(what, L, R, code):
    get = ('lhs', 'rhs') if what == 'equation' else ('lower', 'upper')
    def check(o):
        names = ['left side', 'right side', 'left side of the copy', 'right side of the copy', 'left side after assignment', 'right side after assignment', 'left side of the copy after the original changed', 'right side of the copy after the original changed', 'left side after self-assignment', 'right side after self-assignment']
        if len(o) not in (2, 10): return '%d sides printed' % len(o)
        for n, (k, t) in zip(names, o):
            m = side(L[2] if n[0] == 'l' else R[2], k, t, n)
            if m: return m
    return Case('%s(%s, %s)' % (what, L[1].replace('vm::', ''), R[1].replace('vm::', '')), code or 'sides28(I, vm::make_%s(%s, %s));' % (what, L[1], R[1]), check)
HEAD_EXTRA = r'''
template <class L, class R> void sides28(int I, vm::ct_equation<L, R> const&) { T_(I, L()); T_(I, R()); }
template <class L, class R> void sides28(int I, vm::ct_interval<L, R> const&) { T_(I, L()); T_(I, R()); }
template <class P> void ops28(int I, P e, P other, vm::expr const& (*l)(P const&), vm::expr const& (*r)(P const&)) {
  R_(I, l(e)); R_(I, r(e)); P c(e); R_(I, l(c)); R_(I, r(c)); P a(other); a = e; R_(I, l(a)); R_(I, r(a)); e = other; R_(I, l(c)); R_(I, r(c)); P& s = a; a = s; R_(I, l(a)); R_(I, r(a)); }
inline void sides28(int I, vm::rt_equation<> const& e) { typedef vm::rt_equation<> P; ops28<P>(I, e, P(vm::expr(vm::variable(9)), vm::expr(vm::constant(99.0))), [](P const& p) -> vm::expr const& { return p.lhs(); }, [](P const& p) -> vm::expr const& { return p.rhs(); }); }
inline void sides28(int I, vm::rt_interval<> const& e) { typedef vm::rt_interval<> P; ops28<P>(I, e, P(vm::expr(vm::variable(9)), vm::expr(vm::constant(99.0))), [](P const& p) -> vm::expr const& { return p.lower(); }, [](P const& p) -> vm::expr const& { return p.upper(); }); }
'''
def supported(what, l, r):
    """pairs for which the library offers a generator"""
    num = ('number', 'int'); ctc = ('ct_binary', 'ct_quotient')
    if what == 'equation': return not (l in num and r in num + ('fsymbol', 'ct_constant') + ctc)
    return not (l in num and r in ('fsymbol',) + ctc or l in ctc and r in num)
def cases():
    out = []
    for what in ('equation', 'interval'):
        for L in kinds(0):
            for R in kinds(1):
                if supported(what, L[0], R[0]): out.append(pair(what, L, R, None))
                out.append(pair(what, L, R, 'sides28(I, vm::rt_%s<>(%s, %s));' % (what, L[1], R[1])))
    # every formula as either side
    lv = [c(2), v(0), v(1)]; T = TIER == 'thorough'
    for n in (1, 2):
        for e in trees(n, lv if n == 1 or T else lv[1:]):
            if has(e, lambda q: q[0] == '/' and q[2] == c(0)): continue
            for what in ('equation', 'interval'):
                A = ('', X(raw(e) + '()'), e); B_ = ('', X('vm::variable(2) * vm::variable(1)'), b('*', v(2), v(1)))
                out.append(pair(what, A, B_, None)); out.append(pair(what, B_, A, None))
                out.append(pair(what, ('', raw(e) + '()', e), B_, None)); out.append(pair(what, B_, ('', raw(e) + '()', e), None)); out.append(pair(what, ('', raw(e) + '()', e), ('', raw(e) + '()', e), None))
    return out
