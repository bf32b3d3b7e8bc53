"""Driver of the compile-time explorers: the code under test runs inside the compiler.
Every state is one compile-time expression; every transition applies one operation to it in a generated program.
Programs print the resulting type (or the runtime tree / number), which is judged here by exact rational arithmetic."""
import itertools, multiprocessing, os, re
from fractions import Fraction as Fr
from common import *

# ---- expressions: ('c',n) ('v',i) ('f',tag) ('+',a,b) ('-',..) ('*',..) ('/',..) ('u',fun,a) ----
OPS = ['+', '-', '*', '/']
OPT = {'+': 'PL', '-': 'MI', '*': 'MU', '/': 'DI'}
FUN = ['exp', 'sin', 'cos', 'tan', 'fabs', 'sqrt', 'log', 'log10']
def c(n): return ('c', n)
def v(i): return ('v', i)
def b(o, x, y): return (o, x, y)
def is_bin(e): return e[0] in OPT
def show(e):
    k = e[0]
    if k == 'c': return str(e[1])
    if k == 'v': return 'x%d' % e[1]
    if k == 'f': return 'f<%s>' % e[1]
    if k == 'u': return '%s(%s)' % (e[1], show(e[2]))
    if k in OPT: return '(%s%s%s)' % (show(e[1]), k, show(e[2]))
    return str(e)
def raw(e):
    """the C++ type, spelled out"""
    k = e[0]
    if k == 'c': return 'C<%d>' % e[1] if e[1] != -2**63 else 'C<(-9223372036854775807L-1)>'
    if k == 'v': return 'V<%d>' % e[1]
    if k == 'f': return 'F<vm::%s>' % e[1].replace('ul', '')
    if k == 'u': return 'U<%s,vm::op_%s<double> >' % (raw(e[2]), e[1])
    return 'B<%s,%s,%s>' % (raw(e[1]), OPT[k], raw(e[2]))
def opx(e):
    """the C++ expression written with the library's operators"""
    k = e[0]
    if k in ('c', 'v', 'f'): return raw(e) + '()'
    if k == 'u': return 'vm::%s(%s)' % (e[1], opx(e[2]))
    return '(%s%s%s)' % (opx(e[1]), k, opx(e[2]))
def size(e): return 0 if e[0] in ('c', 'v', 'f') else 1 + sum(size(x) for x in e[1:] if isinstance(x, tuple))
def leaves(e):
    if e[0] in ('c', 'v', 'f'): yield e
    else:
        for x in e[1:]:
            if isinstance(x, tuple): yield from leaves(x)
def subs(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple): yield from subs(x)
def has(e, pred): return any(pred(x) for x in subs(e))
def has_var(e, i=None): return has(e, lambda n: n[0] == 'v' and (i is None or n[1] == i))

class Undef(Exception): pass
def hfun(name, x):   # opaque functions: distinct rational functions, exact
    k = FUN.index(name) + 2; d = x * x + k + 11
    return (x * k + Fr(k * k + 1, 3)) / d + x * Fr(k, 17)
def ev(e, x):
    """exact value at the point x (dict of variable -> Fraction); raises Undef"""
    k = e[0]
    if k == 'c': return Fr(e[1])
    if k == 'v':
        if e[1] in x: return x[e[1]]
        return Fr(3 + 2 * e[1], 7 + e[1])
    if k == 'f': return Fr(sum(map(ord, e[1])) % 97 + 2, 13) + 1
    if k == 'u': return hfun(e[1], ev(e[2], x))
    a = ev(e[1], x); d = ev(e[2], x)
    if k == '+': return a + d
    if k == '-': return a - d
    if k == '*': return a * d
    if d == 0: raise Undef()
    return a / d
def val(e, x):
    try: return ev(e, x)
    except Undef: return None
class Dual:
    __slots__ = ('a', 'd')
    def __init__(s, a, d): s.a, s.d = a, d
def dual(e, x, i):
    k = e[0]
    if k in ('c', 'f'): return Dual(ev(e, x), Fr(0))
    if k == 'v': return Dual(ev(e, x), Fr(1 if e[1] == i else 0))
    p, q = dual(e[1], x, i), dual(e[2], x, i)
    if k == '+': return Dual(p.a + q.a, p.d + q.d)
    if k == '-': return Dual(p.a - q.a, p.d - q.d)
    if k == '*': return Dual(p.a * q.a, p.a * q.d + p.d * q.a)
    if q.a == 0: raise Undef()
    return Dual(p.a / q.a, (p.d * q.a - p.a * q.d) / (q.a * q.a))
PTS = [{0: Fr(2, 3), 1: Fr(-5, 7), 2: Fr(3), 3: Fr(1, 5)}, {0: Fr(-7, 4), 1: Fr(9, 11), 2: Fr(-1, 3), 3: Fr(13, 6)}, {0: Fr(5), 1: Fr(3, 8), 2: Fr(17, 5), 3: Fr(-4)},
       {0: Fr(0), 1: Fr(1), 2: Fr(2), 3: Fr(0)}, {0: Fr(1), 1: Fr(0), 2: Fr(-1), 3: Fr(1)}, {0: Fr(-2), 1: Fr(-2), 2: Fr(1, 2), 3: Fr(7)}]
def same(e, r, pts=PTS):
    """None if r has the value of e wherever e is defined, else the counterexample"""
    n = 0
    for x in pts:
        a = val(e, x)
        if a is None: continue
        n += 1; q = val(r, x)
        if q is None: return 'undefined at %s where it should be %s' % (pt(x), a)
        if q != a: return 'value %s instead of %s at %s' % (q, a, pt(x))
    return None
def defined(e, pts=PTS): return any(val(e, x) is not None for x in pts)
def pt(x): return '(' + ','.join(str(x[k]) for k in sorted(x)) + ')'

# ---- enumeration ----
def trees(n, lv, ops=OPS):
    memo = {0: list(lv)}
    def get(k):
        if k not in memo: memo[k] = [(o, l, r) for i in range(k) for l in get(i) for r in get(k - 1 - i) for o in ops]
        return memo[k]
    return get(n)
def shapes(n):
    """binary trees with n inner nodes, as nested pairs"""
    return [None] if n == 0 else [(l, r) for k in range(n) for l in shapes(k) for r in shapes(n - 1 - k)]
def patterns(n, lv, ops=OPS):
    """all formulas with n operations and every pattern of equal and different leaves with at most len(lv) different ones (leaves in order of first use)"""
    def words(m, used):
        if m == 0: yield (); return
        for i in range(min(used + 1, len(lv))):
            for w in words(m - 1, max(used, i + 1)): yield (lv[i],) + w
    W = list(words(n + 1, 0)); out = []
    def put(t, o, w):
        if t is None: return next(w)
        k = next(o); l = put(t[0], o, w); return (k, l, put(t[1], o, w))
    for t in shapes(n):
        for o in itertools.product(ops, repeat=n):
            for w in W: out.append(put(t, iter(o), iter(w)))
    return out
def wide(n, ops=OPS, lv=None):
    """formulas with n operations over a variable and constants beyond the ranges of narrower integer types, such that everything computed from the constants fits in long"""
    out = []; seen = set()
    for A, B_ in ((46341, 65537), (-65537, 99999), (2147483649, 3), (-4294967299, 2), (100000, 100000)):
        for e in trees(n, (lv or [v(0)]) + [c(A), c(B_)], ops):
            m = 1
            for x in subs(e):
                if x[0] == 'c': m *= abs(x[1])
            if m < 2 ** 61 and m > 1 and e not in seen: seen.add(e); out.append(e)
    return out
def combs(n, lv, seed, ops=OPS):
    for w in itertools.product(ops, repeat=n):
        for side in range(3):
            e = seed
            for i, o in enumerate(w):
                l = lv[i % len(lv)]
                e = (o, e, l) if side == 0 or (side == 2 and i % 2) else (o, l, e)
            yield e

# ---- types printed by the programs ----
def typ(s):
    if s[:1] != '@': raise ValueError(s)
    return prefix(s[1:], int)
# prefix text of runtime trees: (+ a b) x0 2.5 (sin a)
def prefix(s, num=None):
    t = s.replace('(', ' ( ').replace(')', ' ) ').split(); pos = [0]
    def node():
        k = t[pos[0]]; pos[0] += 1
        if k == '(':
            h = t[pos[0]]; pos[0] += 1; a = []
            while t[pos[0]] != ')': a.append(node())
            pos[0] += 1
            if h in OPT: return (h, a[0], a[1])
            return ('u', h, a[0])
        if k[0] == 'x': return v(int(k[1:]))
        if k[0] == 'f': return ('f', k[1:].replace('viennamath::', ''))
        if num: return c(int(k))
        return c(Fr(float(k)) if k not in ('inf', '-inf', 'nan', '-nan') else None)
    return node()

HEAD = r'''#include <typeinfo>
#include <cxxabi.h>
#include <cstdio>
#include <cstdlib>
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
#include "viennamath/manipulation/integrate.hpp"
#include "viennamath/compiletime/ct_interval.hpp"
#include "viennamath/compiletime/ct_equation.hpp"
#include "viennamath/compiletime/ct_vector.hpp"
#include "build.hpp"
namespace vm = viennamath;
template <class L, class O, class R> using B = vm::ct_binary_expr<L, O, R>; template <class L, class O> using U = vm::ct_unary_expr<L, O>;
typedef vm::op_plus<vm::default_numeric_type> PL; typedef vm::op_minus<vm::default_numeric_type> MI; typedef vm::op_mult<vm::default_numeric_type> MU; typedef vm::op_div<vm::default_numeric_type> DI;
template <long n> using C = vm::ct_constant<n>; template <vm::id_type n> using V = vm::ct_variable<n>; template <class T> using F = vm::ct_function_symbol<T>;
static void OUT(int i, char k, const char* s) { printf("%d %c %s\n", i, k, s); }
/* types are written as prefix terms; other types by their name */
template <class X> struct TP { static void w(std::string& o) { int st; char* d = abi::__cxa_demangle(typeid(X).name(), 0, 0, &st); o += d ? d : typeid(X).name(); free(d); } };
template <long n> struct TP<vm::ct_constant<n>> { static void w(std::string& o) { o += std::to_string(n); } };
template <vm::id_type n> struct TP<vm::ct_variable<n>> { static void w(std::string& o) { o += "x" + std::to_string(n); } };
template <class T> struct TP<vm::ct_function_symbol<T>> { static void w(std::string& o) { int st; char* d = abi::__cxa_demangle(typeid(T).name(), 0, 0, &st); o += "f"; for (char* q = d; *q; ++q) if (*q != ' ') o += *q; free(d); } };
template <class N> struct TP<vm::op_plus<N>> { static void w(std::string& o) { o += "+"; } }; template <class N> struct TP<vm::op_minus<N>> { static void w(std::string& o) { o += "-"; } };
template <class N> struct TP<vm::op_mult<N>> { static void w(std::string& o) { o += "*"; } }; template <class N> struct TP<vm::op_div<N>> { static void w(std::string& o) { o += "/"; } };
template <class L, class O, class R> struct TP<vm::ct_binary_expr<L, O, R>> { static void w(std::string& o) { o += "("; TP<O>::w(o); o += " "; TP<L>::w(o); o += " "; TP<R>::w(o); o += ")"; } };
template <class X> void tp_(int i, X const&) { std::string o("@"); TP<X>::w(o); OUT(i, 'T', o.c_str()); }
#define T_(I, r) tp_(I, r)
static void N_(int i, double d) { char b[60]; snprintf(b, sizeof b, "%.17g", d); OUT(i, 'N', b); }
static void px(m::P const& p, std::string& o) { switch (p->k) { case m::CONST: o += m::num(p->c); return; case m::VAR: o += "x" + std::to_string(p->id); return; case m::FS: o += "f" + std::to_string(p->id) + "_" + std::to_string(p->tag); return;
  default: o += "("; o += p->k == m::SYMINT || p->k == m::INTEG || p->k == m::PD ? std::string(m::kname[p->k]) + std::to_string(p->id) : std::string(m::kname[p->k]); for (auto& c : p->ch) { o += " "; px(c, o); } o += ")"; } }
static void R_(int i, vm::expr const& e) { std::string o; m::P p; try { p = b::read(e); } catch (std::exception const& x) { OUT(i, 'X', x.what()); return; } if (!p) { OUT(i, 'X', "empty expression"); return; } px(p, o); OUT(i, 'R', o.c_str()); }
'''
class Case:
    __slots__ = ('key', 'code', 'check', 'nt', 'pre')
    def __init__(s, key, code, check, nt=True, pre=''):
        s.key, s.code, s.check, s.nt, s.pre = key, code, check, nt, pre

def compile_chunk(job):
    name, cases, bd, flags = job
    """returns (outputs {index: [(kind,text)]}, failures {index: message})"""
    fails = {}; live = list(range(len(cases))); out = {}
    for rnd in range(6):
        src = os.path.join(bd, name + '.cpp'); exe = os.path.join(bd, name)
        line = {}; txt = ['#include "head.hpp"']
        for i in live:
            if cases[i].pre: line[len(txt) + 1] = i; txt.append(cases[i].pre.replace('\n', ' '))
            line[len(txt) + 1] = i; txt.append('static void c%d() { const int I = %d; (void)I; try { %s } catch (std::exception const& x) { OUT(I, \'X\', x.what()); } }' % (i, i, cases[i].code.replace('\n', ' ')))
        txt.append('int main() {'); txt += ['c%d();' % i for i in live]; txt.append('return 0; }')
        open(src, 'w').write('\n'.join(txt) + '\n')
        r = sh(['g++', '-std=c++17', '-w', '-O0', '-fmax-errors=4000'] + flags + ['-I' + bd, '-I' + REPO, '-I' + os.path.join(VERIF, 'src'), src, '-o', exe], timeout=600)
        if r.returncode == 0: break
        bad = {}; base = os.path.basename(src)
        for l in r.stderr.splitlines():
            mm = re.search(re.escape(base) + r':(\d+):', l)
            if mm and int(mm.group(1)) in line: bad.setdefault(line[int(mm.group(1))], None)
        errs = [l for l in r.stderr.splitlines() if ' error: ' in l]
        if not bad: return {}, {-1: 'the generated program does not compile:\n' + errlines(r.stderr)}
        # the first error message after the last mention of another case
        cur = None
        for l in r.stderr.splitlines():
            mm = re.search(re.escape(base) + r':(\d+):', l)
            if mm and int(mm.group(1)) in line: cur = line[int(mm.group(1))]
            if ' error: ' in l and cur is not None and bad.get(cur) is None: bad[cur] = re.sub(r'^\S+/', '', l)[:400]
        for i in bad: fails[i] = 'does not compile: ' + (bad[i] or (errs[0][:400] if errs else '?'))
        live = [i for i in live if i not in bad]
        if not live: return {}, fails
    else:
        fails[-1] = 'the generated programs do not compile:\n' + errlines(r.stderr); return {}, fails
    r = sh([exe], timeout=300)
    for l in r.stdout.splitlines():
        p = l.split(' ', 2)
        if len(p) == 3 and p[0].isdigit(): out.setdefault(int(p[0]), []).append((p[1], p[2]))
    if r.returncode != 0:
        last = max(out) if out else -1; nxt = [i for i in live if i > last]
        who = nxt[0] if last >= 0 and nxt else live[0]
        for i in live: out.setdefault(i, None)
        fails[who] = 'the program stops here (exit %d) %s' % (r.returncode, r.stderr[-300:])
    for f in (src, exe):
        if os.path.exists(f): os.unlink(f)
    return out, fails

JOBS = []
def judge(j):
    name, cs, bd, flags = JOBS[j]; out, fails = compile_chunk(JOBS[j]); viol = []; ok = nt = 0
    for i, msg in fails.items(): viol.append((cs[i].key if i >= 0 else 'chunk ' + name, msg))
    for i, cc in enumerate(cs):
        if i in fails or -1 in fails: continue
        o = out.get(i)
        if o is None:
            if not fails: viol.append((cc.key, 'the program prints nothing'))
            continue
        ok += 1; nt += bool(cc.nt)
        try: msg = cc.check(o)
        except Exception as x: msg = 'unreadable result %s (%s: %s)' % (o, type(x).__name__, x)
        if msg: viol.append((cc.key, msg))
    return len(cs), viol, ok, nt

def run(pid, cases, chunk=500, flags=[], res=None):
    res = res or Result(pid); bd = builddir(pid)
    open(os.path.join(bd, 'head.hpp'), 'w').write(HEAD)
    r = sh(['g++', '-std=c++17', '-w', '-O0', '-x', 'c++-header'] + flags + ['-I' + REPO, '-I' + os.path.join(VERIF, 'src'), os.path.join(bd, 'head.hpp'), '-o', os.path.join(bd, 'head.hpp.gch')], timeout=600)
    if r.returncode != 0:
        res.add('compile:headers', 'the library headers do not compile together:\n' + errlines(r.stderr)); return res
    chunk = max(20, min(chunk, (len(cases) + NCPU - 1) // NCPU))
    global JOBS
    JOBS = [('p%d' % (k // chunk), cases[k:k + chunk], bd, flags) for k in range(0, len(cases), chunk)]
    with multiprocessing.get_context('fork').Pool(NCPU) as pool: done = pool.map(judge, range(len(JOBS)), 1)
    step = max(1, len(cases) // 8)
    for n, viol, ok, nt in done:
        res.cov['states'] += n; res.cov['transitions'] += n; res.cov['traces_validated_against_impl'] += ok
        res.extra['nontrivial'] = res.extra.get('nontrivial', 0) + nt
        for k, d in viol: res.add(k, d)
    for k in range(0, len(cases), step):
        if len(res.samples) < 10: res.samples.append(cases[k].key)
    for f in ('head.hpp.gch',):
        if os.path.exists(os.path.join(bd, f)): os.unlink(os.path.join(bd, f))
    return res
