"""C36: the printed text of compile-time objects shows their structure."""
from p13 import *
import re
HEAD_EXTRA = r'''
#include <sstream>
template <class X> void str36(int I, X const& x) { std::ostringstream o; std::ostream& r = (o << x); o << "|"; bool same = &r == &o; o << x << "|"; OUT(I, same ? 'S' : 'Q', o.str().c_str()); }
'''
def tokens(s):
    t = re.findall(r'ct_constant<-?\d+>|ct_variable<\d+>|unknown\[\d+\]|test\[\d+\]|ct_equation\(|ct_interval\(|vector<|[\[\]+*/=,()>-]', s)
    return t if ''.join(t) == s.replace(' ', '') else None
def parse(s):
    """text -> tree ('eq' l r) ('iv' l r) ('vec' ...) or an expression; None if it is not one"""
    t = tokens(s); p = [0]
    if t is None: return None
    def eat(x):
        if p[0] < len(t) and t[p[0]] == x: p[0] += 1; return
        raise ValueError
    def node():
        if p[0] >= len(t): raise ValueError
        k = t[p[0]]; p[0] += 1
        if k == '[':
            l = node(); o = t[p[0]] if p[0] < len(t) else ''; p[0] += 1
            if o not in OPT: raise ValueError
            r = node(); eat(']'); return (o, l, r)
        if k.startswith('ct_constant'): return c(int(k[12:-1]))
        if k.startswith('ct_variable'): return v(int(k[12:-1]))
        if k.startswith(('unknown', 'test')): n, i = k[:-1].split('['); return ('f', '%s_tag<%sul>' % (n, i))
        raise ValueError
    def top():
        if t and t[0] in ('ct_equation(', 'ct_interval('):
            p[0] = 1; l = node(); eat('=' if t[0] == 'ct_equation(' else ','); r = node(); eat(')'); return ('eq' if t[0] == 'ct_equation(' else 'iv', l, r)
        if t and t[0] == 'vector<':
            p[0] = 1; a = [node()]
            while p[0] < len(t) and t[p[0]] == ',': p[0] += 1; a.append(node())
            eat('>'); return ('vec',) + tuple(a)
        return node()
    try: r = top()
    except ValueError: return None
    return r if p[0] == len(t) else None
def mk36(e, code, how):
    def check(o):
        if not o: return 'prints nothing'
        if o[0][0] == 'Q': return 'the output operator returns another stream'
        if o[0][0] != 'S': return 'raises ' + o[0][1]
        q = o[0][1].split('|')
        if len(q) != 3 or q[2] or q[0] != q[1]: return 'is printed differently the second time: ' + o[0][1]
        r = parse(q[0])
        if r is None: return 'the text %r is not the form of a formula' % q[0]
        if r != e: return 'is printed as %r, which is %s' % (q[0], r)
        return None
    return Case('%s %s' % (how, sh36(e)), 'str36(I, %s);' % code, check)
def sh36(e): return '%s(%s)' % (e[0], ', '.join(show(x) for x in e[1:])) if e[0] in ('eq', 'iv', 'vec') else show(e)
def cases():
    T = TIER == 'thorough'; F_ = [('f', 'unknown_tag<0ul>'), ('f', 'test_tag<2ul>')]; out = []; seen = set()
    def typed(e):
        if ('t', e) in seen: return
        seen.add(('t', e)); out.append(mk36(e, raw(e) + '()', 'type'))
    L = [c(0), c(1), c(-3), v(0), v(2)] + F_
    for n in (0, 1, 2):
        for e in trees(n, L): typed(e)
    for e in trees(3, [c(2), v(0), F_[0]] if T else [c(2), v(1)]): typed(e)
    for e in combs(5 if T else 4, [v(0), c(-3), v(1), F_[0]], v(0)): typed(e)
    for x in (2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 10**10, 2**62, 2**63 - 1, -2**63 + 1, 10, 100, -10, 255, 256): typed(c(x)); typed(b('-', c(x), v(0))); typed(b('*', v(0), c(x)))
    for x in (1, 9, 10, 11, 100, 255, 256, 1000, 65536, 2**31, 2**32 + 1):
        typed(v(x)); typed(b('/', v(x), v(x + 1)))
        for f in ('unknown', 'test'):
            g = ('f', '%s_tag<%dul>' % (f, x)); typed(g); typed(b('+', g, v(0)))
    # objects written with the operators, and results of manipulations, print as the type they have
    for e in trees(1, [v(0), F_[0], c(2)]) + trees(2, [v(0), F_[0], c(2)] if T else [v(0), F_[1]]):
        try:
            if bad(e): continue
        except Exception: pass
        def chk(e):
            def check(o):
                if len(o) != 2 or o[1][0] != 'S': return 'raises ' + str(o)
                r = parse(o[1][1].split('|')[0]); w = typ(o[0][1])
                return None if r == w else 'is printed as %r, is %s' % (o[1][1], show(w))
            return check
        out.append(Case('object ' + show(e), 'auto r = %s; T_(I, r); str36(I, r);' % opx(e), chk(e)))
    # both sides of equations and intervals, components of vectors
    S = [c(0), c(-7), v(0), v(3), F_[0], F_[1], b('+', v(0), c(2)), b('/', F_[1], v(1)), b('-', b('*', v(0), c(-2)), v(1))] + ([b(o, v(1), v(0)) for o in OPS] if T else [])
    for l in S:
        for r in S:
            out.append(mk36(('eq', l, r), 'vm::ct_equation<%s,%s >()' % (raw(l), raw(r)), 'equation')); out.append(mk36(('iv', l, r), 'vm::ct_interval<%s,%s >()' % (raw(l), raw(r)), 'interval'))
            out.append(mk36(('vec', l, r), 'vm::make_vector(%s(), %s())' % (raw(l), raw(r)), 'vector'))
            for q in (S if T else S[::2]): out.append(mk36(('vec', l, r, q), 'vm::make_vector(%s(), %s(), %s())' % (raw(l), raw(r), raw(q)), 'vector'))
        out.append(mk36(('vec', l), 'vm::make_vector(%s())' % raw(l), 'vector'))
    return out
