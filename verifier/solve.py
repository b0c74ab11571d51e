"""Solver back ends: z3 (first order), a polynomial/rational normaliser with uninterpreted atoms,
and cvc5 as an independent cross-check."""
import time, math
from fractions import Fraction
import z3
from .terms import *
from . import terms as tm

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'nf_calls': 0, 'nf_time': 0.0, 'z3_unsat': 0, 'nf_true': 0, 'cvc5_calls': 0, 'cvc5_time': 0.0}
z3.set_param('smt.random_seed', 7)

# ================================================================ z3
_S = None
def _ssort():
    global _S
    if _S is None: _S = z3.DeclareSort('Obj')
    return _S
def zsort(s):
    return {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort(), 'S': _ssort()}[s]
_zc = {}
_funcs = {}
def _func(name, sorts):
    k = (name, sorts)
    f = _funcs.get(k)
    if f is None:
        f = z3.Function(str(name) + '|' + ''.join(sorts), *[zsort(s) for s in sorts])
        _funcs[k] = f
    return f
def fv_bound(t):
    """ids of canonical bound variables occurring free in t"""
    if t.fv is not None: return t.fv
    st = [(t, 0)]
    while st:
        x, d = st.pop()
        if x.fv is not None: continue
        if not d:
            st.append((x, 1)); st.extend((a, 0) for a in x.args + (x.data[0].init + x.data[0].step if x.op == 'recval' else ()) if a.fv is None)
        else:
            s = frozenset()
            if x.op == 'v' and isinstance(x.data, str) and x.data.startswith('%'): s = frozenset([x])
            for a in x.args: s |= a.fv
            if x.op == 'recval':
                ld = x.data[0]
                for a in ld.step: s |= a.fv
                s -= set(ld.st) | {ld.kvar}
                for a in ld.init + x.args: s |= a.fv
            if x.op in BINDERS: s = (s - {x.args[3]}) | x.args[0].fv | x.args[1].fv
            x.fv = s
    return t.fv
def toz(t):
    r = _zc.get(t.id)
    if r is not None: return r
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x.id in _zc: continue
        if x.op in BINDERS and x.op not in ('forall', 'exists'):
            bs = sorted(fv_bound(x), key=lambda v: v.id)
            for b in bs:
                if b.id not in _zc: _zc[b.id] = z3.Const('%s#%s' % (b.data, b.sort), zsort(b.sort))
            f = _func('bind!%d' % x.id, tuple(b.sort for b in bs) + (x.sort,))
            _zc[x.id] = f(*[_zc[b.id] for b in bs]) if bs else z3.Const('bind!%d' % x.id, zsort(x.sort))
            continue
        if not done:
            st.append((x, True))
            st.extend((a, False) for a in x.args if a.id not in _zc)
        else:
            _zc[x.id] = _toz1(x, [_zc[a.id] for a in x.args])
    return _zc[t.id]
def _toz1(t, a):
    op = t.op
    if op == 'c':
        if t.sort == 'R': return z3.RealVal(t.data.numerator) / z3.RealVal(t.data.denominator) if t.data.denominator != 1 else z3.RealVal(t.data.numerator)
        if t.sort == 'I': return z3.IntVal(t.data)
        return z3.BoolVal(t.data)
    if op == 'v': return z3.Const('%s#%s' % (t.data, t.sort), zsort(t.sort))
    if op == 'app':
        if not t.args: return z3.Const('%s()#%s' % (t.data, t.sort), zsort(t.sort))
        return _func(t.data, tuple(x.sort for x in t.args) + (t.sort,))(*a)
    if op == 'lin': return z3.Sum([z3.IntVal(t.data[0])] + [k * x if k != 1 else x for x, k in zip(a, t.data[1])])
    if op == 'radd': return z3.Sum(a)
    if op == 'rmul': return z3.Product(a)
    if op == 'rdiv': return a[0] / a[1]
    if op == 'imul': return a[0] * a[1]
    if op == 'idiv': return a[0] / z3.IntVal(t.data)
    if op == 'imod': return a[0] % z3.IntVal(t.data)
    if op == 'toreal': return z3.ToReal(a[0])
    if op == 'floor': return z3.ToInt(a[0])
    if op == 'not': return z3.Not(a[0])
    if op == 'and': return z3.And(*a)
    if op == 'or': return z3.Or(*a)
    if op == 'iff': return a[0] == a[1]
    if op == 'lt': return a[0] < a[1]
    if op == 'le': return a[0] <= a[1]
    if op == 'eq': return a[0] == a[1]
    if op == 'ite': return z3.If(*a)
    if op in ('forall', 'exists'):
        body = z3.And(a[0] <= a[3], a[3] < a[1], a[2]) if op == 'exists' else z3.Implies(z3.And(a[0] <= a[3], a[3] < a[1]), a[2])
        return (z3.ForAll if op == 'forall' else z3.Exists)([a[3]], body)
    if op == 'recval':
        return _func('rec!%d.%d' % (id(t.data[0]), t.data[1]), ('I', t.sort))(a[0])
    raise ValueError('toz ' + op)

def background(ts):
    """facts about the symbols occurring in ts that hold by construction"""
    out = []
    for t in subterms(*ts):
        if t.op == 'app':
            if t.data == 'n' or t.data == 'len': out += [le(I0, t), le(t, ic(2 ** 31 - 1))]
            elif t.data == 'sqrt':
                out.append(le(ZERO, t)); out.append(implies(le(ZERO, t.args[0]), eq(rmul(t, t), t.args[0])))
            elif t.data == 'exp': out += [lt(ZERO, t), implies(le(t.args[0], ZERO), le(t, ONE)), implies(le(ZERO, t.args[0]), le(ONE, t))]
            elif t.data.startswith('tab:') and len(tm.TABLES.get(t.data[4:], ())) and len(t.args) == 1:
                tb = tm.TABLES[t.data[4:]]; k = ic if t.sort == 'I' else rc
                out.append(implies(and_(le(I0, t.args[0]), lt(t.args[0], ic(len(tb)))), and_(le(k(min(tb)), t), le(t, k(max(tb))))))
                out += [implies(eq(t.args[0], ic(j)), eq(t, k(tb[j]))) for j in {0, len(tb) - 1}]     # at the ends of the table
        elif t.op == 'floor' and t.args[0].op == 'rdiv':
            a, b = t.args[0].args
            f = toreal(t)
            out.append(implies(lt(ZERO, b), and_(le(rmul(f, b), a), lt(a, rmul(radd(f, ONE), b)))))
    return [o for o in out if not fv_bound(o)]

# z3 does not always keep its time limit: a watchdog ends a worker stuck in a call, and the work is
# started again with every call in a process of its own that can be stopped
APART = False
HANG = None         # called by the watchdog
_since = None
def watchdog():
    import threading
    def run():
        while True:
            time.sleep(1)
            t = _since
            if t is not None and time.time() > t[0] + t[1] and HANG is not None: HANG()
    threading.Thread(target=run, daemon=True).start()
def guarded(s, secs):
    global _since
    if not APART:
        _since = (time.time(), secs + 15)
        try: return str(s.check())
        finally: _since = None
    import os, select, signal
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import ctypes
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # ends with the worker
            os.write(wfd, str(s.check()).encode())
        finally: os._exit(0)
    os.close(wfd)
    try:
        if select.select([rfd], [], [], secs)[0]: return os.read(rfd, 64).decode() or 'unknown'
        os.kill(pid, signal.SIGKILL)
        return 'unknown'
    finally:
        os.close(rfd); os.waitpid(pid, 0)
_vcache = {}
def check(facts, goal=None, timeout=2000, bg=True):
    """satisfiability of facts (and not goal): 'sat' | 'unsat' | 'unknown'"""
    fs = [f for f in facts if f is not TRUE]
    if goal is not None:
        if goal is TRUE: return 'unsat'
        fs = fs + [not_(goal)]
    if any(f is FALSE for f in fs): return 'unsat'
    key = (tuple(sorted(set(f.id for f in fs))), timeout)
    r = _vcache.get(key)
    if r is not None: return r
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', timeout * 4); s.set('rlimit', timeout * 2500)
    if bg: fs = fs + background(fs)
    for f in fs: s.add(toz(f))
    r = guarded(s, timeout * 4 / 1000 + 5)
    STATS['z3_calls'] += 1; STATS['z3_time'] += time.time() - t0
    if r == 'unsat': STATS['z3_unsat'] += 1
    _vcache[key] = r
    return r
def valid(facts, goal, timeout=2000):
    if goal is TRUE: return True
    if goal is FALSE: return check(facts, None, timeout) == 'unsat'
    for f in facts:
        if f is goal: return True
    return check(facts, goal, timeout) == 'unsat'
def model(facts, timeout=3000):
    s = z3.Solver(); s.set('timeout', timeout)
    for f in list(facts) + background(list(facts)): s.add(toz(f))
    if APART: return None
    global _since
    _since = (time.time(), timeout / 1000 + 20)
    try:
        if str(s.check()) != 'sat': return None
    finally: _since = None
    return s.model()
def feasible(facts, c, timeout=300):
    return check(list(facts) + [c], None, timeout) != 'unsat'

# ================================================================ normaliser
TOL = Fraction(1, 10 ** 10)
_consts = {}
def canon_const(c):
    """map coefficients that agree to ~12 digits to one representative (constants differ only by
    the rounding of compile-time folding)"""
    if c == 0 or (c.denominator == 1 and abs(c.numerator) < 10 ** 6): return c
    r = round(c)
    if r and abs(r) < 10 ** 6 and abs(r - c) <= abs(c) * Fraction(1, 10 ** 11): return Fraction(r)
    f = float(c)
    if f == 0 or math.isinf(f): return c
    m, e = math.frexp(f)
    key = round(m * 2 ** 38)
    for k in (key, key - 1, key + 1):
        r = _consts.get((k, e))
        if r is not None and abs(r - c) <= abs(c) * Fraction(1, 10 ** 11): return r
    for b, kk in ((c, (key, e)),):
        _consts[kk] = c
    return c

class Poly:
    """sum of coef * product of atoms^int; atoms are canonical keys (hashable)"""
    __slots__ = ('d', '_k')
    def __init__(self, d): self.d = d; self._k = None
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((m, canon_const(c)) for m, c in self.d.items()), key=lambda p: p[0]))
        return self._k
_akeys = {}
_ainfo = []
def akey(k, info=None):
    i = _akeys.get(k)
    if i is None:
        i = len(_ainfo); _akeys[k] = i; _ainfo.append((k, info))
    return i
def pconst(c): return Poly({(): c} if c else {})
def padd(a, b, s=1):
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, 0)
        w = v + s * c
        if w == 0 or (v != 0 and abs(w) <= abs(v) * Fraction(1, 10 ** 12)): d.pop(m, None)
        else: d[m] = w
    return Poly(d)
class TooBig(Exception): pass
def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0: del d[a]
    return tuple(sorted(d.items()))
def pmul(a, b):
    if len(a.d) * len(b.d) > 40000: raise TooBig()
    d = {}
    red = False
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mmul(m1, m2); d[m] = d.get(m, 0) + c1 * c2
    p = Poly({m: c for m, c in d.items() if c})
    return reduce_sqrt(p)
def reduce_sqrt(p):
    """sqrt(x)^2 -> x, and q*inv(q) -> 1"""
    out = None
    for m, c in p.d.items():
        for a, e in m:
            k = _ainfo[a][0]
            if k[0] == 'sqrt' and abs(e) >= 2:
                if out is None: out = True
                break
    if out is None: return p
    acc = Poly({})
    for m, c in p.d.items():
        rest, f = [], Poly({(): c})
        for a, e in m:
            k, info = _ainfo[a]
            if k[0] == 'sqrt' and abs(e) >= 2:
                q = int(e / 2); r = e - 2 * q
                if r: rest.append((a, r))
                f = pmul(f, ppow(info, q))
            else: rest.append((a, e))
        acc = padd(acc, pmul(f, Poly({tuple(sorted(rest)): Fraction(1)})))
    return acc
def pinv(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return Poly({tuple((a, -e) for a, e in m): 1 / c})
    if not p.d:
        a = akey(('inv0',)); return Poly({((a, 1),): Fraction(1)})
    # factor out the leading coefficient and common monomial
    k = p.key()
    lead = k[0][1]
    q = Poly({m: c / lead for m, c in p.d.items()})
    common = None
    for m in q.d:
        dm = dict(m)
        common = dm if common is None else {a: min(e, dm.get(a, 0)) if (e > 0 and dm.get(a, 0) > 0) else (max(e, dm.get(a, 0)) if e < 0 and dm.get(a, 0) < 0 else 0) for a, e in common.items()}
        common = {a: e for a, e in common.items() if e}
        if not common: break
    cm = ()
    if common:
        cm = tuple(sorted(common.items()))
        inv = tuple((a, -e) for a, e in cm)
        q = Poly({mmul(m, inv): c for m, c in q.d.items()})
        k2 = q.key(); l2 = k2[0][1]
        if l2 != 1:
            lead *= l2; q = Poly({m: c / l2 for m, c in q.d.items()})
    a = akey(('poly', q.key()), q)
    return Poly({tuple(sorted(mmul(((a, -1),), tuple((x, -e) for x, e in cm)))): 1 / lead})
def ppow(p, n):
    if n == 0: return pconst(Fraction(1))
    if n < 0: return ppow(pinv(p), -n)
    r = p
    for _ in range(n - 1): r = pmul(r, p)
    return r
LN10 = Fraction(math.log(10))
class NF:
    def __init__(self, unfold=None, facts=()):
        self.memo = {}; self.unfold = unfold
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is not None: return r
        if t.sort == 'I': r = self.nf_int(t)
        else: r = self._nf(t)
        self.memo[t.id] = r
        return r
    def key(self, t):
        if t.sort in ('R', 'I'): return self.nf(t).key()
        if t.sort == 'B': return self.bkey(t)
        return self.skey(t)
    def skey(self, t):
        if t.op == 'app': return ('S', t.data, tuple(self.key(a) for a in t.args))
        if t.op == 'ite': return ('Site',) + tuple(self.key(a) for a in t.args)
        return ('S', t.id)
    def bkey(self, t):
        if t.op == 'c': return ('B', t.data)
        if t.op in ('and', 'or'): return (t.op, tuple(sorted((self.bkey(a) for a in t.args), key=repr)))
        if t.op in ('lt', 'le', 'eq'):
            # compare through the difference, up to a positive factor
            a, b = t.args
            if a.sort in ('R', 'I'):
                p = padd(self.nf(b), self.nf(a), -1)
                if not p.d: return ('B', t.op != 'lt')
                k = p.key(); lead = abs(k[0][1]); 
                if t.op == 'eq': lead = k[0][1]
                q = Poly({m: c / lead for m, c in p.d.items()})
                if len(q.d) == 1 and () in q.d and t.op != 'eq':
                    return ('B', q.d[()] > 0)
                return (t.op, q.key())
            return (t.op, self.key(a), self.key(b))
        if t.op == 'not': return ('not', self.bkey(t.args[0]))
        if t.op == 'app': return ('Bapp', t.data, tuple(self.key(a) for a in t.args))
        if t.op in BINDERS: return ('bind', t.op, self.key(t.args[0]), self.key(t.args[1]), self.key(t.args[2]), t.args[3].id)
        return (t.op, t.data, tuple(self.key(a) for a in t.args))
    def atom(self, k, info=None):
        return Poly({((akey(k, info), 1),): Fraction(1)})
    def nf_int(self, t):
        if t.op == 'c': return pconst(Fraction(t.data))
        if t.op == 'lin':
            r = pconst(Fraction(t.data[0]))
            for a, k in zip(t.args, t.data[1]): r = padd(r, pmul(pconst(Fraction(k)), self.nf(a)))
            return r
        if t.op == 'imul': return pmul(self.nf(t.args[0]), self.nf(t.args[1]))
        return self.generic(t)
    def generic(self, t):
        if t.op == 'v': return self.atom(('v', t.id))
        if t.op == 'ite': return self.atom(('ite', self.bkey(t.args[0]), self.key(t.args[1]), self.key(t.args[2])))
        if t.op in BINDERS:
            return self.atom(('bind', t.op, t.data, self.key(t.args[0]), self.key(t.args[1]), self.key(t.args[2]), t.args[3].id))
        if t.op == 'recval': return self.atom(('rec', id(t.data[0]), t.data[1], self.key(t.args[0])))
        return self.atom((t.op, t.data, tuple(self.key(a) for a in t.args)))
    def _nf(self, t):
        op = t.op
        if op == 'c': return pconst(t.data)
        if op == 'radd':
            r = Poly({})
            for a in t.args: r = padd(r, self.nf(a))
            return r
        if op == 'rmul':
            r = pconst(Fraction(1))
            for a in t.args: r = pmul(r, self.nf(a))
            return r
        if op == 'rdiv':
            n, d = self.nf(t.args[0]), self.nf(t.args[1])
            if n.d and d.d and set(n.d) == set(d.d):   # proportional
                k, l = n.key(), d.key()
                r = k[0][1] / l[0][1]
                if all(abs(a[1] - r * b[1]) <= abs(a[1]) * Fraction(1, 10**12) for a, b in zip(k, l)): return pconst(r)
            return pmul(n, pinv(d))
        if op == 'toreal': return self.nf(t.args[0])
        if op == 'app':
            if t.data == 'sqrt': return self.sqrt(self.nf(t.args[0]))
            if t.data == 'cbrt': return self.pow(self.nf(t.args[0]), pconst(Fraction(1, 3)))
            if t.data == 'pow': return self.pow(self.nf(t.args[0]), self.nf(t.args[1]))
            if t.data == 'log10': return pmul(self.log(self.nf(t.args[0])), pconst(1 / LN10))
            if t.data == 'log1p': return self.log(padd(self.nf(t.args[0]), pconst(Fraction(1))))
            if t.data == 'expm1': return padd(self.exp(self.nf(t.args[0])), pconst(Fraction(1)), -1)
            if t.data == 'log': return self.log(self.nf(t.args[0]))
            if t.data == 'exp': return self.exp(self.nf(t.args[0]))
        if op in ('sum', 'quad'): return self.linear_binder(t)
        return self.generic(t)
    def linear_binder(self, t):
        """sum/quad are linear: pull out factors free of the bound variable and split additions"""
        lo, hi, body, bv = t.args
        out, ins = free_factors(body, bv)
        if out is not ONE: return pmul(self.nf(out), self.nf(bind(t.op, lo, hi, ins, bv, t.data, t.sort)))
        b = self.nf(body)
        bva = akey(('v', bv.id))
        lok, hik = self.key(lo), self.key(hi)
        if op_empty(lo, hi): return Poly({})
        groups = {}
        for m, c in b.d.items():
            ins = tuple((a, e) for a, e in m if self.dep(a, bva))
            outs = tuple((a, e) for a, e in m if not self.dep(a, bva))
            groups.setdefault(ins, []).append((outs, c))
        acc = Poly({})
        for ins, lst in groups.items():
            at = self.atom(('bind', t.op, t.data, lok, hik, ins, bv.id), ('deps', tuple(a for a, _ in ins), lok, hik, bva))
            acc = padd(acc, pmul(at, Poly(dict_sum(lst))))
        return acc
    def dep(self, a, bva):
        r = _deps.get((a, bva))
        if r is None:
            r = a == bva or key_mentions(_ainfo[a][0], bva)
            _deps[(a, bva)] = r
        return r
    def sqrt(self, p):
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if all(e % 2 == 0 for _, e in m) and c > 0:
                # sqrt(c*x^2) = sqrt(c)*|x| : only rewritten for constants
                if not m:
                    n, d = c.numerator, c.denominator
                    if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d: return pconst(Fraction(math.isqrt(n), math.isqrt(d)))
                    return pconst(Fraction(math.sqrt(c)))
        return self.atom(('sqrt', p.key()), p)
    def log(self, p):
        if len(p.d) == 1 and () in p.d and p.d[()] > 0: return pconst(Fraction(math.log(p.d[()]))) if p.d[()] != 1 else Poly({})
        return self.atom(('log', p.key()), p)
    def exp(self, p):
        if not p.d: return pconst(Fraction(1))
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if not m: return pconst(Fraction(math.exp(c)))
            for i, (a, e) in enumerate(m):
                k, info = _ainfo[a]
                if k[0] == 'log' and e == 1:
                    y = Poly({m[:i] + m[i + 1:]: c})
                    return self.pow(info, y)
        return self.atom(('exp', p.key()), p)
    def pow(self, x, y):
        if len(y.d) == 1 and () in y.d or not y.d:
            c = y.d.get((), Fraction(0))
            cr = Fraction(round(c))
            if abs(c - cr) < Fraction(1, 10 ** 13) and abs(cr) <= 16: return ppow(x, int(cr))
            if abs(c - Fraction(1, 2)) < Fraction(1, 10 ** 13): return self.sqrt(x)
            if abs(c + Fraction(1, 2)) < Fraction(1, 10 ** 13): return pinv(self.sqrt(x))
            if len(x.d) == 1 and () in x.d and x.d[()] > 0: return pconst(Fraction(float(x.d[()]) ** float(c)))
            if c < 0: return pinv(self.pow(x, pconst(-c)))
            c3 = round(c * 3)
            if abs(c * 3 - c3) < Fraction(1, 10 ** 12) and c3 not in (1,) and abs(c3) <= 12:
                return ppow(self.pow(x, pconst(Fraction(1, 3))), c3)
        elif len(y.d) > 0 and y.key()[0][1] < 0: return pinv(self.pow(x, Poly({m: -c for m, c in y.d.items()})))      # x^-y = 1/x^y
        return self.atom(('pow', x.key(), y.key()))
def dict_sum(lst):
    d = {}
    for m, c in lst: d[m] = d.get(m, 0) + c
    return d
def op_empty(lo, hi): return isc(isub(hi, lo)) and isub(hi, lo).data <= 0 if lo.sort == 'I' else lo is hi
_deps = {}
def key_mentions(k, bva):
    """does the canonical key mention atom id bva (bound variable atom)?"""
    st = [k]; vid = _ainfo[bva][0][1]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            # monomial part: tuple of (atom, exp)
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], int) and not isinstance(x[0], bool):
                if x[0] < len(_ainfo) and _dep_atom(x[0], bva): return True
                continue
            if len(x) >= 2 and x[0] == 'v' and x[1] == vid: return True
            if len(x) == 2 and x[0] == 'S' and isinstance(x[1], int) and x[1] == vid: return True
            st.extend(x)
    return False
def _dep_atom(a, bva):
    r = _deps.get((a, bva))
    if r is None:
        _deps[(a, bva)] = False
        r = a == bva or key_mentions(_ainfo[a][0], bva)
        _deps[(a, bva)] = r
    return r

def poly_zero(p, a, b):
    """is the difference p = a-b zero up to the coefficient tolerance"""
    for m, c in p.d.items():
        ref = max(abs(a.d.get(m, 0)), abs(b.d.get(m, 0)))
        if abs(c) > TOL * ref: return False
    return True

def nf_equal(a, b):
    r = _nf_equal(a, b)
    if r: STATS['nf_true'] += 1
    return r
def _nf_equal(a, b):
    t0 = time.time(); STATS['nf_calls'] += 1
    try:
        n = NF()
        x, y = n.nf(a), n.nf(b)
        d = padd(x, y, -1)
        if poly_zero(d, x, y): return True
        # clear denominators: multiply both sides by all inverses, repeatedly since denominators contain fractions
        def clear(p, inv):
            acc = Poly({})
            for m, c in p.d.items():
                dm = dict(m); f = Poly({(): c}); rest = []
                for at in set(inv) | set(dm):
                    e = dm.get(at, 0) - inv.get(at, 0)
                    if _ainfo[at][0][0] == 'poly':
                        if e: f = pmul(f, ppow(_ainfo[at][1], e))
                    elif e: rest.append((at, e))
                acc = padd(acc, reduce_sqrt(pmul(f, Poly({tuple(sorted(rest)): Fraction(1)}))))
            return acc
        for _ in range(8):
            inv = {}
            for p in (x, y):
                for m in p.d:
                    for at, e in m:
                        if e < 0 and (_ainfo[at][0][0] in ('poly', 'sqrt', 'log', 'exp', 'v', 'app', 'pow', 'ite', 'rec')): inv[at] = min(inv.get(at, 0), e)
            if not inv or len(inv) > 8: return False
            x, y = clear(x, inv), clear(y, inv)
            if poly_zero(padd(x, y, -1), x, y): return True
        return False
    except (TooBig, OverflowError, ValueError):
        return False
    finally:
        STATS['nf_time'] += time.time() - t0

# ================================================================ cvc5 cross-check
def cvc5_valid(facts, goal, timeout=10000):
    """ask cvc5 for validity through SMT-LIB; returns True/False/None"""
    import cvc5
    t0 = time.time(); STATS['cvc5_calls'] += 1
    try:
        s = z3.Solver()
        fs = list(facts) + [not_(goal)]
        for f in fs + background(fs): s.add(toz(f))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        slv = cvc5.Solver(); slv.setOption('tlimit-per', str(timeout))
        p = cvc5.InputParser(slv); p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager(); res = None
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            o = c.invoke(slv, sm)
            if 'unsat' in str(o): res = True
            elif 'sat' in str(o): res = False
        return res
    except Exception:
        return None
    finally:
        STATS['cvc5_time'] += time.time() - t0

def free_factors(t, bv):
    """t = out * ins with out free of the bound variable"""
    if not mentions(t, [bv]): return t, ONE
    if t.op == 'rmul':
        out = [a for a in t.args if not mentions(a, [bv])]
        rest = [free_factors(a, bv) for a in t.args if mentions(a, [bv])]
        return rmul(*out, *[o for o, i in rest]), rmul(*[i for o, i in rest])
    if t.op == 'rdiv':
        (oa, ia), (ob, ib) = free_factors(t.args[0], bv), free_factors(t.args[1], bv)
        return rdiv(oa, ob), rdiv(ia, ib)
    return ONE, t
