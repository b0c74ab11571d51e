"""Hash-consed first-order terms over reals, integers, booleans and opaque values.

Sorts: 'R' real, 'I' integer, 'B' boolean, 'S' opaque value (sequence, object, ...).
Doubles are mapped to mathematical reals, machine integers to mathematical integers.
"""
from fractions import Fraction
import math

class T:
    __slots__ = ('op', 'args', 'data', 'sort', 'id', '_h', 'ites', 'fv')
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

_tab = {}
_next = [0]

def mk(op, args=(), data=None, sort='R'):
    key = (op, tuple(a.id for a in args), data, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.data, t.sort = op, tuple(args), data, sort
        t.id = _next[0]; _next[0] += 1
        t.ites = (op == 'ite') or any(a.ites for a in args)
        t.fv = None
        _tab[key] = t
    return t

# ---------------------------------------------------------------- constants
def rc(x):
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return mk('app', (), 'nonfinite:%r' % x, 'R')
        x = Fraction(x)
    return mk('c', (), Fraction(x), 'R')
def ic(n):
    return mk('c', (), int(n), 'I')
TRUE = mk('c', (), True, 'B')
FALSE = mk('c', (), False, 'B')
def bc(b):
    return TRUE if b else FALSE
def isc(t):
    return t.op == 'c'
def var(name, sort='R'):
    return mk('v', (), name, sort)
_fresh = [0]
def fresh(name, sort='R'):
    _fresh[0] += 1
    return mk('v', (), '%s!%d' % (name, _fresh[0]), sort)
TABLES = {}     # contents of tables: name -> list of numbers
def app(fn, args=(), sort='R'):
    if len(args) == 1 and args[0].op == 'c' and isinstance(fn, str) and fn[:4] == 'tab:':
        t = TABLES.get(fn[4:])
        if t is not None and 0 <= args[0].data < len(t): return rc(t[args[0].data]) if sort == 'R' else ic(t[args[0].data])
    return mk('app', tuple(args), fn, sort)
ZERO, ONE = rc(0), rc(1)
I0, I1 = ic(0), ic(1)

# ---------------------------------------------------------------- integers: linear normal form
def _lin(t):
    """(const, {atom: coef})"""
    if t.op == 'c':
        return t.data, {}
    if t.op == 'lin':
        return t.data[0], dict(zip(t.args, t.data[1]))
    return 0, {t: 1}
def _mklin(c, d):
    items = sorted(((a, k) for a, k in d.items() if k), key=lambda p: p[0].id)
    if not items:
        return ic(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', tuple(a for a, _ in items), (c, tuple(k for _, k in items)), 'I')
def iadd(*ts):
    c, d = 0, {}
    for t in ts:
        c2, d2 = _lin(t)
        c += c2
        for a, k in d2.items():
            d[a] = d.get(a, 0) + k
    return _mklin(c, d)
def iscale(t, k):
    c, d = _lin(t)
    return _mklin(c * k, {a: v * k for a, v in d.items()})
def isub(a, b):
    return iadd(a, iscale(b, -1))
def imul(a, b):
    if isc(a): return iscale(b, a.data)
    if isc(b): return iscale(a, b.data)
    if a.id > b.id: a, b = b, a
    return mk('imul', (a, b), None, 'I')
def idiv_floor(a, k):
    """floor division by positive constant"""
    if isc(a): return ic(a.data // k)
    if k == 1: return a
    c, d = _lin(a)
    if c % k == 0 and all(v % k == 0 for v in d.values()):
        return _mklin(c // k, {x: v // k for x, v in d.items()})
    return mk('idiv', (a,), k, 'I')
def imod(a, k):
    if isc(a): return ic(a.data % k)
    c, d = _lin(a)
    if all(v % k == 0 for v in d.values()):
        return ic(c % k)
    return mk('imod', (a,), k, 'I')

# ---------------------------------------------------------------- reals
def radd(*ts):
    out, c = [], Fraction(0)
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t.op == 'radd':
            st.extend(reversed(t.args))
        elif isc(t):
            c += t.data
        else:
            out.append(t)
    if c: out.append(rc(c))
    if not out: return ZERO
    if len(out) == 1: return out[0]
    return mk('radd', tuple(out))
def rmul(*ts):
    out, c = [], Fraction(1)
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t.op == 'rmul':
            st.extend(reversed(t.args))
        elif isc(t):
            c *= t.data
        else:
            out.append(t)
    if c == 0: return ZERO
    if c != 1: out.insert(0, rc(c))
    if not out: return ONE
    if len(out) == 1: return out[0]
    return mk('rmul', tuple(out))
def rneg(a):
    return rmul(rc(-1), a)
def rsub(a, b):
    if a is b: return ZERO
    return radd(a, rneg(b))
def rdiv(a, b):
    if isc(b) and b.data != 0:
        if isc(a): return rc(a.data / b.data)
        if b.data == 1: return a
        return rmul(rc(1 / b.data), a)
    if isc(a) and a.data == 0 and isc(b) is False:
        return ZERO
    return mk('rdiv', (a, b))
def toreal(t):
    if isc(t): return rc(t.data)
    if t.op == 'ite':
        return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    return mk('toreal', (t,), None, 'R')
def floor_(t):
    if isc(t): return ic(math.floor(t.data))
    if t.op == 'toreal': return t.args[0]
    return mk('floor', (t,), None, 'I')
def trunc_(t):
    if isc(t): return ic(int(t.data))
    if t.op == 'toreal': return t.args[0]
    return ite(le(ZERO, t), floor_(t), iscale(floor_(rneg(t)), -1))

# elementary functions; all are total uninterpreted symbols with rewriting in the normaliser
def fn(name, *args):
    if name == 'fabs':
        a = args[0]
        if isc(a): return rc(abs(a.data))
        return ite(lt(a, ZERO), rneg(a), a)
    if name == 'sqrt' and isc(args[0]):
        d = args[0].data
        if d >= 0:
            for v in (d.numerator, d.denominator):
                if math.isqrt(v) ** 2 != v: break
            else:
                return rc(Fraction(math.isqrt(d.numerator), math.isqrt(d.denominator)))
    if name == 'pow':
        x, y = args
        if isc(y):
            if y.data == 0: return ONE
            if y.data == 1: return x
    if name in ('exp',) and isc(args[0]) and args[0].data == 0: return ONE
    if name in ('log',) and isc(args[0]) and args[0].data == 1: return ZERO
    return mk('app', tuple(args), name, 'R')

# ---------------------------------------------------------------- booleans
def not_(a):
    if isc(a): return bc(not a.data)
    if a.op == 'not': return a.args[0]
    if a.op == 'lt': return le(a.args[1], a.args[0])
    if a.op == 'le': return lt(a.args[1], a.args[0])
    if a.op == 'ite' and a.sort == 'B':
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', (a,), None, 'B')
def and_(*ts):
    out = []
    for t in ts:
        if t.op == 'and':
            out.extend(t.args)
        elif isc(t):
            if not t.data: return FALSE
        else:
            out.append(t)
    seen, o2 = set(), []
    for t in out:
        if t.id in seen: continue
        seen.add(t.id); o2.append(t)
    if not o2: return TRUE
    if len(o2) == 1: return o2[0]
    return mk('and', tuple(o2), None, 'B')
def or_(*ts):
    out = []
    for t in ts:
        if t.op == 'or':
            out.extend(t.args)
        elif isc(t):
            if t.data: return TRUE
        else:
            out.append(t)
    seen, o2 = set(), []
    for t in out:
        if t.id in seen: continue
        seen.add(t.id); o2.append(t)
    if not o2: return FALSE
    if len(o2) == 1: return o2[0]
    return mk('or', tuple(o2), None, 'B')
def implies(a, b):
    return or_(not_(a), b)
def iff(a, b):
    if isc(a): return b if a.data else not_(a=b)
    if isc(b): return a if b.data else not_(a)
    if a is b: return TRUE
    return mk('iff', (a, b), None, 'B')
def _cmpconst(a, b):
    if isc(a) and isc(b):
        return (a.data > b.data) - (a.data < b.data)
    if a.sort == 'I':
        d = isub(a, b)
        if isc(d): return (d.data > 0) - (d.data < 0)
    if a is b: return 0
    if a.sort == 'R' and ground(a) and ground(b):
        x, y = gval(a), gval(b)
        if x is not None and y is not None and abs(x - y) > 1e-9 * max(abs(x), abs(y)): return (x > y) - (x < y)
    return None
_gr, _gv = {}, {}
GFN = {'sqrt', 'pow', 'exp', 'log', 'log10', 'log1p', 'expm1', 'cbrt'}
def ground(t):
    """constant expression built from numbers and elementary functions"""
    if t.op == 'c': return True
    r = _gr.get(t.id)
    if r is None:
        r = (t.op in ('radd', 'rmul', 'rdiv') or (t.op == 'app' and t.data in GFN)) and all(ground(x) for x in t.args)
        _gr[t.id] = r
    return r
def gval(t):
    """numeric value of a constant expression, None if not defined"""
    if t.op == 'c': return float(t.data)
    if t.id not in _gv:
        import mpmath
        mpmath.mp.dps = 40
        def ev(t):
            if t.op == 'c': return mpmath.mpf(t.data.numerator) / t.data.denominator
            xs = [ev(x) for x in t.args]
            if t.op == 'radd': return mpmath.fsum(xs)
            if t.op == 'rmul': return mpmath.fprod(xs)
            if t.op == 'rdiv': return xs[0] / xs[1]
            return {'sqrt': mpmath.sqrt, 'pow': mpmath.power, 'exp': mpmath.exp, 'log': mpmath.log, 'log10': mpmath.log10, 'log1p': mpmath.log1p, 'expm1': mpmath.expm1, 'cbrt': mpmath.cbrt}[t.data](*xs)
        try:
            v = ev(t)
            _gv[t.id] = float(v) if isinstance(v, mpmath.mpf) and mpmath.isfinite(v) else None
        except (ZeroDivisionError, ValueError, OverflowError): _gv[t.id] = None
    return _gv[t.id]
def _isfrac(t):
    """a real term that is a non-integer constant / integer conversion pair"""
    return t
def lt(a, b):
    k = _cmpconst(a, b)
    if k is not None: return bc(k < 0)
    if a.op == 'toreal' and b.op == 'toreal': return lt(a.args[0], b.args[0])
    if a.op == 'toreal' and isc(b): return lt(a.args[0], ic(math.ceil(b.data)))
    if b.op == 'toreal' and isc(a): return lt(ic(math.floor(a.data)), b.args[0])
    if a.sort == 'I':
        return le(iadd(a, I1), b)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]) and isc(b):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == 'ite' and isc(b.args[1]) and isc(b.args[2]) and isc(a):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    return mk('lt', (a, b), None, 'B')
def le(a, b):
    k = _cmpconst(a, b)
    if k is not None: return bc(k <= 0)
    if a.op == 'toreal' and b.op == 'toreal': return le(a.args[0], b.args[0])
    if a.op == 'toreal' and isc(b): return le(a.args[0], ic(math.floor(b.data)))
    if b.op == 'toreal' and isc(a): return le(ic(math.ceil(a.data)), b.args[0])
    if a.sort == 'I':
        if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]) and isc(b):
            return ite(a.args[0], le(a.args[1], b), le(a.args[2], b))
        if b.op == 'ite' and isc(b.args[1]) and isc(b.args[2]) and isc(a):
            return ite(b.args[0], le(a, b.args[1]), le(a, b.args[2]))
        d = isub(b, a)          # canonical: 0 <= d
        c, m = _lin(d)
        g = 0
        for v in m.values(): g = math.gcd(g, v)
        if g > 1:
            d = _mklin(c // g, {x: v // g for x, v in m.items()})
        return mk('le', (I0, d), None, 'B')
    return mk('le', (a, b), None, 'B')
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B': return iff(a, b)
    if isc(a) and isc(b): return bc(a.data == b.data)
    if a.sort == 'I':
        d = isub(a, b)
        if isc(d): return bc(d.data == 0)
    if a.op == 'toreal' and b.op == 'toreal': return eq(a.args[0], b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'toreal' and isc(y):
            if y.data.denominator != 1: return FALSE
            return eq(x.args[0], ic(y.data))
        if x.op == 'ite' and isc(y) and isc(x.args[1]) and isc(x.args[2]):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
        if x.op == 'ite' and isc(y) and (isc(x.args[1]) or isc(x.args[2])) and x.sort in 'I':
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if a.sort == 'I':
        c, m = _lin(isub(a, b))
        g = 0
        for v in m.values(): g = math.gcd(g, v)
        if g > 1:
            if c % g: return FALSE
            c //= g; m = {x: v // g for x, v in m.items()}
        s = sorted(m, key=lambda t: t.id)
        if m[s[0]] < 0:
            c = -c; m = {x: -v for x, v in m.items()}
        return mk('eq', (I0, _mklin(c, m)), None, 'B')
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), None, 'B')
def ne(a, b): return not_(eq(a, b))
def ite(c, a, b):
    if isc(c): return a if c.data else b
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c, b)
        if b is FALSE: return and_(c, a)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
    if c.op == 'not': return ite(c.args[0], b, a)
    return mk('ite', (c, a, b), None, a.sort)
def tmin(a, b): return ite(lt(b, a), b, a)
def tmax(a, b): return ite(lt(a, b), b, a)
def bitset(x, b):
    """bit b of the non-negative integer x is set"""
    return eq(imod(idiv_floor(x, 1 << b), 2), I1)

# ---------------------------------------------------------------- binders
# ('sum', (lo, hi, body), bound var term)   body mentions the bound variable
# canonical bound variables are named by depth so that alpha-equivalent terms coincide
def _depth(t, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None: return r
    d = 0
    for a in t.args: d = max(d, _depth(a, memo))
    if t.op == 'recval':
        for a in t.data[0].init + t.data[0].step: d = max(d, _depth(a, memo))
    if t.op in BINDERS: d += 1
    memo[t.id] = d
    return d
BINDERS = {'sum', 'prod', 'quad', 'forall', 'exists', 'rec', 'tabul'}
def bind(op, lo, hi, body, v, data=None, sort='R'):
    d = _depth(body)
    bv = mk('v', (), '%%%s%d' % (v.sort, d), v.sort)
    body = subst(body, {v: bv})
    return mk(op, (lo, hi, body, bv), data, sort)
def upward(lo, hi, body, v):
    """a range run through downwards, as the same range run through upwards"""
    seen = set(); st = [body]; hit = False
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t is v or t.op == 'recval': return body
        if t.op == 'lin':
            m = _lin(t)[1]
            if m.get(v, 0) > 0: return body
            if v in m: hit = True; st.extend(x for x in m if x is not v); continue
        st.extend(t.args)
    return subst(body, {v: iadd(lo, hi, ic(-1), iscale(v, -1))}) if hit else body
def sum_(lo, hi, f, v=None):
    """sum over lo <= j < hi of f(j); f is a python function or a term with bound variable v"""
    if v is None:
        v = fresh('j', 'I'); body = f(v)
    else: body = f
    if body is ZERO: return ZERO
    return bind('sum', lo, hi, upward(lo, hi, body, v), v)
def prod_(lo, hi, f, v=None):
    if v is None:
        v = fresh('j', 'I'); body = f(v)
    else: body = f
    return bind('prod', lo, hi, upward(lo, hi, body, v), v)
def quad(rule, a, b, f, v=None):
    """the quadrature rule applied to x -> body over [a,b]"""
    if v is None:
        v = fresh('x', 'R'); body = f(v)
    else: body = f
    return bind('quad', a, b, body, v, rule)
def forall(lo, hi, f, v=None):
    if v is None:
        v = fresh('j', 'I'); body = f(v)
    else: body = f
    if body is TRUE: return TRUE
    return bind('forall', lo, hi, body, v, None, 'B')
def exists(lo, hi, f, v=None):
    if v is None:
        v = fresh('j', 'I'); body = f(v)
    else: body = f
    if body is FALSE: return FALSE
    return bind('exists', lo, hi, body, v, None, 'B')
def tabulate(elem, n, f):
    """the sequence of length n whose element j has the leaf values f(j)"""
    v = fresh('j', 'I')
    return bind('tabul', I0, n, app('tuple', tuple(f(v)), 'S'), v, elem, 'S')
def inst(t, x):
    """body of a binder term with the bound variable replaced by x"""
    return subst(t.args[2], {t.args[3]: x})

def _ldepth(t):
    seen = set(); q = [t]; d = 0
    while q:
        x = q.pop()
        if x.id in seen: continue
        seen.add(x.id); q.extend(x.args)
        if x.op == 'recval': d = max(d, x.data[0].depth); q.extend(x.data[0].init)
    return d
class LoopDef:
    """Recurrence of a loop: state vector with initial values and step terms.
    names: tuple of state names; init: tuple of terms; step: tuple of terms over
    placeholders st[i] (variables) and the ghost counter variable kvar."""
    _tab = {}
    def __new__(cls, names, init, st, step, kvar):
        # canonical placeholders, named by nesting depth, so that equal recurrences coincide
        d = 1 + max([_ldepth(t) for t in step], default=0)
        names = tuple('x%d' % n for n in range(len(st)))
        cst = tuple(mk('v', (), '%%s%d.%d' % (d, n), s.sort) for n, s in enumerate(st)); ck = mk('v', (), '%%k%d' % d, 'I')
        if st != cst or kvar is not ck:
            m = dict(zip(st, cst)); m[kvar] = ck
            step = tuple(subst(t, m) for t in step); st, kvar = cst, ck
        key = (names, init, st, step, kvar)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.names, o.init, o.st, o.step, o.kvar = key; o.depth = d
            cls._tab[key] = o
        return o
def recval(ld, i, k):
    """value of state component i of the recurrence at the start of iteration k"""
    if isc(k) and k.data == 0: return ld.init[i]
    return mk('recval', (k,), (ld, i), ld.init[i].sort)

# ---------------------------------------------------------------- traversal
def rebuild(t, args):
    if all(x is y for x, y in zip(args, t.args)): return t
    op = t.op
    if op == 'lin':
        return iadd(ic(t.data[0]), *[iscale(a, k) if a.sort == 'I' else None for a, k in zip(args, t.data[1])])
    if op == 'radd': return radd(*args)
    if op == 'rmul': return rmul(*args)
    if op == 'rdiv': return rdiv(*args)
    if op == 'imul': return imul(*args)
    if op == 'idiv': return idiv_floor(args[0], t.data)
    if op == 'imod': return imod(args[0], t.data)
    if op == 'toreal': return toreal(args[0])
    if op == 'floor': return floor_(args[0])
    if op == 'not': return not_(args[0])
    if op == 'and': return and_(*args)
    if op == 'or': return or_(*args)
    if op == 'iff': return iff(*args)
    if op == 'lt': return lt(*args)
    if op == 'le': return le(*args)
    if op == 'eq': return eq(*args)
    if op == 'ite': return ite(*args)
    if op == 'app' and t.sort == 'R' and t.data in ELEM: return fn(t.data, *args)
    if op == 'recval': return recval(t.data[0], t.data[1], args[0])
    if op == 'app': return app(t.data, tuple(args), t.sort)
    return mk(op, tuple(args), t.data, t.sort)
ELEM = {'sqrt', 'pow', 'exp', 'log', 'log10', 'log1p', 'expm1', 'cbrt', 'sin', 'cos'}

def subst(t, m, memo=None):
    """replace terms by terms (keys are terms); loop definitions are substituted too"""
    if memo is None: memo = {}
    ids = {k.id: v for k, v in m.items()}
    return _subst(t, ids, memo)
def _subst(t, ids, memo):
    r = memo.get(t.id)
    if r is not None: return r
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x.id in memo: continue
        y = ids.get(x.id)
        if y is not None:
            memo[x.id] = y; continue
        if not x.args and x.op != 'recval':
            memo[x.id] = x; continue
        if not done:
            st.append((x, True))
            for a in x.args:
                if a.id not in memo: st.append((a, False))
            if x.op == 'recval':
                ld = x.data[0]
                for a in ld.init + ld.step:
                    if a.id not in memo: st.append((a, False))
        else:
            args = [memo[a.id] for a in x.args]
            if x.op == 'recval':
                ld = x.data[0]
                n = LoopDef(ld.names, tuple(memo[a.id] for a in ld.init), ld.st,
                            tuple(memo[a.id] for a in ld.step), ld.kvar)
                memo[x.id] = recval(n, x.data[1], args[0])
            else:
                memo[x.id] = rebuild(x, args)
    return memo[t.id]

def map_atoms(t, f, memo=None):
    """bottom-up rewrite: f(term) -> term or None"""
    if memo is None: memo = {}
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x.id in memo: continue
        if not x.args:
            y = f(x); memo[x.id] = x if y is None else y; continue
        if not done:
            st.append((x, True))
            for a in x.args:
                if a.id not in memo: st.append((a, False))
        else:
            n = rebuild(x, [memo[a.id] for a in x.args])
            y = f(n)
            memo[x.id] = n if y is None else y
    return memo[t.id]

def subterms(*ts):
    seen = set(); out = []
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id); out.append(t)
        st.extend(t.args)
        if t.op == 'recval':
            st.extend(t.data[0].init); st.extend(t.data[0].step)
    return out
def variables(*ts):
    return [t for t in subterms(*ts) if t.op == 'v']
def mentions(t, vs):
    ids = {v.id for v in vs}
    return any(x.id in ids for x in subterms(t))

# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth == 0: return '...'
    s = lambda x: show(x, depth - 1)
    if t.op == 'c':
        if t.sort == 'R':
            f = float(t.data); return repr(f) if Fraction(f) == t.data else '%r~' % f
        return str(t.data)
    if t.op == 'v': return str(t.data)
    if t.op == 'app': return '%s(%s)' % (t.data, ', '.join(map(s, t.args))) if t.args else str(t.data)
    if t.op == 'lin':
        r = ' + '.join((('%d*' % k) if k != 1 else '') + s(a) for a, k in zip(t.args, t.data[1]))
        return '(%s%s)' % (r, ' + %d' % t.data[0] if t.data[0] else '')
    if t.op == 'recval': return '%s@loop[%s]' % (t.data[0].names[t.data[1]], s(t.args[0]))
    sym = {'radd': ' + ', 'rmul': '*', 'rdiv': '/', 'imul': '*', 'and': ' && ', 'or': ' || ',
           'lt': ' < ', 'le': ' <= ', 'eq': ' == ', 'iff': ' <=> '}
    if t.op in sym: return '(' + sym[t.op].join(map(s, t.args)) + ')'
    if t.op == 'ite': return '(%s ? %s : %s)' % tuple(map(s, t.args))
    if t.op in BINDERS:
        return '%s%s[%s in %s..%s](%s)' % (t.op, ':' + str(t.data) if t.data else '', s(t.args[3]), s(t.args[0]), s(t.args[1]), s(t.args[2]))
    if t.op == 'toreal': return s(t.args[0])
    return '%s%s(%s)' % (t.op, '' if t.data is None else ':%s' % (t.data,), ', '.join(map(s, t.args)))

# ---------------------------------------------------------------- numeric evaluation
class EvalError(Exception): pass
GLOBVALS = {}      # numeric values of globals, by variable name
def evaluate(t, env, uf, noise=None, cmp=None):
    """numeric value of a term. env: {variable name: value}; uf(name, args) -> value
    noise: random generator; every rounded operation is perturbed by a few units in the last place
    cmp:   called with the operands of every comparison of reals"""
    memo = {}
    if noise is None: nz = lambda x: x
    else: nz = lambda x: x * (1 + (noise.random() - 0.5) * 2e-15)
    def ev(t, loc):
        key = (t.id, loc) if loc else t.id
        if key in memo: return memo[key]
        r = ev1(t, loc); memo[key] = r
        return r
    def look(v, loc):
        for n, x in reversed(loc):
            if n == v.data: return x
        if v.data in env: return env[v.data]
        if v.data in GLOBVALS: return GLOBVALS[v.data]
        if v.sort == 'S' and v.data.startswith(('tab:', 'glob:', 'arr:')): return v.data
        raise EvalError('no value for %s' % v.data)
    def two(t, loc):
        a, b = ev(t.args[0], loc), ev(t.args[1], loc)
        if cmp is not None and t.args[0].sort == 'R' and not (exact(t.args[0]) and exact(t.args[1])): cmp(a, b)
        return a, b
    def ev1(t, loc):
        op = t.op
        if op == 'c': return float(t.data) if t.sort == 'R' else t.data
        if op == 'v': return look(t, loc)
        if op == 'lin': return t.data[0] + sum(k * ev(a, loc) for a, k in zip(t.args, t.data[1]))
        if op == 'radd':
            xs = [nz(ev(a, loc)) for a in t.args]
            try: return math.fsum(xs)
            except (ValueError, OverflowError): return sum(xs)
        if op == 'rmul':
            r = 1.0
            for a in t.args: r *= ev(a, loc)
            return nz(r)
        if op == 'rdiv':
            a, b = ev(t.args[0], loc), ev(t.args[1], loc)
            if b == 0: return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
            return nz(a / b)
        if op == 'imul': return ev(t.args[0], loc) * ev(t.args[1], loc)
        if op == 'idiv': return ev(t.args[0], loc) // t.data
        if op == 'imod': return ev(t.args[0], loc) % t.data
        if op == 'toreal': return float(ev(t.args[0], loc))
        if op == 'floor':
            x = ev(t.args[0], loc)
            if math.isnan(x) or math.isinf(x): raise EvalError('floor of non-finite')
            if cmp is not None and not exact(t.args[0]): cmp(x, float(round(x)))
            return math.floor(x)
        if op == 'not': return not ev(t.args[0], loc)
        if op == 'and': return all(ev(a, loc) for a in t.args)
        if op == 'or': return any(ev(a, loc) for a in t.args)
        if op == 'iff': return bool(ev(t.args[0], loc)) == bool(ev(t.args[1], loc))
        if op == 'lt': a, b = two(t, loc); return a < b
        if op == 'le': a, b = two(t, loc); return a <= b
        if op == 'eq': a, b = two(t, loc); return a == b
        if op == 'ite': return ev(t.args[1], loc) if ev(t.args[0], loc) else ev(t.args[2], loc)
        if op == 'app':
            a = [ev(x, loc) for x in t.args]
            try:
                return nz(elem(t.data, a)) if t.data in MATH else uf(t.data, a)
            except (ValueError, OverflowError, ZeroDivisionError):
                return math.nan
        if op == 'tabul':
            return [uf('tuple:' + t.data, [ev(x, loc + ((t.args[3].data, j),)) for x in t.args[2].args]) for j in range(ev(t.args[1], loc))]
        if op in ('sum', 'prod', 'forall', 'exists'):
            lo, hi = ev(t.args[0], loc), ev(t.args[1], loc)
            vals = (ev(t.args[2], loc + ((t.args[3].data, j),)) for j in range(lo, hi))
            if op == 'sum':
                xs = [nz(x) for x in vals]
                try: return math.fsum(xs)
                except (ValueError, OverflowError): return sum(xs)
            if op == 'forall': return all(vals)
            if op == 'exists': return any(vals)
            r = 1.0
            for v in vals: r *= v
            return nz(r)
        if op == 'quad':
            a, b = ev(t.args[0], loc), ev(t.args[1], loc)
            xs, ws = gauss(int(t.data.split(':')[1]))
            p, q = 0.5 * (b - a), 0.5 * (b + a)
            return p * math.fsum(w * ev(t.args[2], loc + ((t.args[3].data, p * x + q),)) for x, w in zip(xs, ws))
        if op == 'recval':
            ld, i = t.data
            k = ev(t.args[0], loc)
            s = [ev(x, loc) for x in ld.init]
            for j in range(k):
                l2 = loc + tuple((v.data, x) for v, x in zip(ld.st, s)) + ((ld.kvar.data, j),)
                s = [ev(x, l2) for x in ld.step]
            return s[i]
        raise EvalError('cannot evaluate ' + op)
    return ev(t, ())
def exact(t):
    """values that carry no rounding of their own: inputs, constants and integers"""
    return t.op in ('v', 'c') or t.op == 'toreal' or (t.op == 'app' and '.' in str(t.data) and len(t.args) == 2 and t.args[0].sort == 'S')
def gauss(n, _c={}):
    if n not in _c:
        import numpy as np
        x, w = np.polynomial.legendre.leggauss(n)
        _c[n] = ([float(v) for v in x], [float(v) for v in w])
    return _c[n]
MATH = {'sqrt', 'pow', 'exp', 'log', 'log10', 'log1p', 'expm1', 'cbrt', 'sin', 'cos', 'tan', 'atan', 'atan2', 'lround'}
def elem(n, a):
    if n == 'lround': return int(math.copysign(math.floor(abs(a[0]) + 0.5), a[0]))
    if n == 'cbrt': return math.copysign(abs(a[0]) ** (1 / 3), a[0])
    if n == 'pow': return math.pow(a[0], a[1])
    if n == 'log' and a[0] == 0: return -math.inf
    if n == 'log10' and a[0] == 0: return -math.inf
    return getattr(math, n)(*a)
