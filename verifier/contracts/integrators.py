"""C07 quadrature rules.

A rule is executed on an arbitrary integrand f and arbitrary limits; its loops have constant bounds and are unrolled
completely.  The result is then a combination of values of f whose coefficients are polynomials of the limits.  The
property is decided on that combination, so it does not matter how the code arrives at it: nodes are affine in the limits
and inside the interval, weights are positive and proportional to its length, the moments of the Legendre polynomials
are those of the integral (exact rational nodes and weights, recurrence in 60 digits)."""
from fractions import Fraction as Fr
from ..spec import *
from .. import spec, sym, prove
from ..sym import *
from ..verify import ite_leaves

GL = (3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 32, 64, 128)
GLA = [(n, n) for n in GL] + [(3, 8), (8, 5), (7, 16)]
GK = (7, 15, 21, 31, 61)
TOL = Fr(3, 10 ** 15)
def gauss_points(n): return (n - 1) // 2                              # points of the Gauss rule embedded in the Kronrod rule with n points
def kronrod_degree(n):
    g = gauss_points(n)
    return 3 * g + 1 + g % 2
a, b, c, d = [var(x, 'R') for x in 'abcd']

# ---------------------------------------------------------------- combinations of integrand values
def pmul(x, y):
    r = {}
    for m, u in x.items():
        for n, v in y.items():
            k = tuple(sorted(m + n)); r[k] = r.get(k, 0) + u * v
    return r
def padd(x, y):
    r = dict(x)
    for k, v in y.items(): r[k] = r.get(k, 0) + v
    return r
def uses_f(t): return any(s.op == 'app' and s.data in ('f', 'f2') for s in subterms(t))
def combination(t, memo=None):
    """{value of the integrand or None: polynomial of the variables}"""
    memo = {} if memo is None else memo
    if t.id in memo: return memo[t.id]
    if isc(t): r = {None: {(): Fr(t.data)}} if t.data else {}
    elif t.op == 'v': r = {None: {(t.data,): Fr(1)}}
    elif t.op == 'app' and t.data in ('f', 'f2'): r = {t: {(): Fr(1)}}
    elif t.op == 'radd':
        r = {}
        for x in t.args:
            for k, v in combination(x, memo).items(): r[k] = padd(r[k], v) if k in r else v
    elif t.op == 'rmul':
        r = {None: {(): Fr(1)}}
        for x in t.args:
            y = combination(x, memo)
            if any(k is not None for k in r) and any(k is not None for k in y): raise Unsupported('product of values of the integrand')
            if any(k is not None for k in y): r, y = y, r
            if not y: r = {}; break
            r = {k: pmul(v, y[None]) for k, v in r.items()}
    elif t.op == 'rdiv' and isc(t.args[1]) and t.args[1].data: r = {k: {m: u / Fr(t.args[1].data) for m, u in v.items()} for k, v in combination(t.args[0], memo).items()}
    else: raise Unsupported('not a combination of values of the integrand: ' + show(t, 3))
    r = {k: {m: u for m, u in v.items() if u} for k, v in r.items()}
    r = {k: v for k, v in r.items() if v}
    memo[t.id] = r
    return r
def affine(t, lo, hi):
    """coefficients of the two limits in a node, and whatever else there is"""
    p = combination(t).get(None, {})
    return p.get((lo,), Fr(0)), p.get((hi,), Fr(0)), sum((abs(v) for k, v in p.items() if k not in ((lo,), (hi,))), Fr(0))
def close(x, tol=TOL): return And(Le(rc(-tol), rc(x)), Le(rc(x), rc(tol)))
def legendre(x, M):
    from mpmath import mp, mpf
    mp.dps = 60
    x = mpf(x.numerator) / mpf(x.denominator)
    p = [mpf(1), x]
    for m in range(1, M): p.append(((2 * m + 1) * x * p[m] - m * p[m - 1]) / (m + 1))
    return p[:M + 1]
def moments(nodes, M):
    """sum of weight * P_m(node) for m = 0..M, rounded to a rational"""
    from mpmath import mp, mpf, nstr
    mp.dps = 60
    L = [(legendre(x, M), mpf(w.numerator) / mpf(w.denominator)) for x, w in nodes]
    return [Fr(nstr(sum(w * l[m] for l, w in L), 40)) for m in range(M + 1)]
class Rule:
    """nodes on (-1, 1) and weights of a combination of values of f; slack is the distance from that form"""
    def __init__(self, t, lims=('a', 'b')):
        lo, hi = lims
        q = combination(t)
        self.free = sum((abs(v) for v in q.pop(None, {}).values()), Fr(0))
        self.scale = self.off = Fr(0); ns = {}
        for k, v in q.items():
            al, be, rest = affine(k.args[0], lo, hi)
            self.off = max(self.off, rest, abs(al + be - 1))
            g = (v.get((hi,), Fr(0)) - v.get((lo,), Fr(0))) / 2
            self.scale = max(self.scale, sum((abs(u) for m, u in v.items() if m not in ((lo,), (hi,))), abs(v.get((hi,), Fr(0)) + v.get((lo,), Fr(0)))))
            ns[be - al] = ns.get(be - al, Fr(0)) + 2 * g
        self.nodes = merge(ns)
def merge(ns):
    out = []
    for x in sorted(ns):
        if out and abs(out[-1][0] - x) < Fr(1, 10 ** 15): out[-1][1] += ns[x]
        else: out.append([x, ns[x]])
    return [(x, w) for x, w in out]
def one_rule(nodes, deg, what=''):
    """goals about nodes on (-1, 1) and their weights"""
    yield what + 'weights are positive', bc(all(w > 0 for x, w in nodes) and len(nodes) > 0)
    n = len(nodes)
    yield what + 'changes sign when the limits are swapped', And(*[And(close(nodes[i][0] + nodes[n - 1 - i][0]), close(nodes[i][1] - nodes[n - 1 - i][1])) for i in range(n)])
    for m, v in enumerate(moments(nodes, deg)): yield what + 'exact for polynomials of degree %d' % m, close(v - (2 if m == 0 else 0))
def degenerate(pc, t, *pairs):
    """a branch without values of the integrand: the interval is empty and the result zero"""
    return Implies(And(*pc), And(Eq(t, 0), Or(*[Eq(x, y) for x, y in pairs])))
def evaluated(E, *lims):
    """every evaluation of the integrand, also one whose value is not used, is inside the interval"""
    done = set(); ok = []; out = []
    for pc, args in E.evals:
        for t, lo, hi in zip(args, lims[::2], lims[1::2]):
            if t in done: continue
            try:
                al, be, rest = affine(t, lo.data, hi.data)
                if al >= 0 and be >= 0 and rest <= TOL and abs(al + be - 1) <= TOL: done.add(t); ok.append(t); continue
            except Unsupported: pass
            out.append((pc, And(Le(Min(lo, hi), t), Le(t, Max(lo, hi)))))
    yield 'integrand evaluated inside the interval only (%d places)' % len(ok), (), bc(len(ok) > 0)
    for pc, g in out: yield 'integrand evaluated inside the interval only', pc, g
def rule_goals(deg, get=lambda r: r):
    def goals(E, st, ret, e, objs, sret):
        yield from evaluated(E, a, b)
        for cond, t in ite_leaves(get(ret)):
            pc = st.pc + cond
            if not uses_f(t):
                yield 'zero on an empty interval', pc, degenerate((), t, (a, b)); continue
            r = Rule(t)
            yield 'linear in the integrand', pc, close(r.free, Fr(0))
            yield 'weights proportional to the length of the interval', pc, close(r.scale)
            yield 'nodes divide the interval in fixed ratios', pc, close(r.off)
            for txt, g in one_rule(r.nodes, deg): yield txt, pc, g
    return goals
def goals2(n, m):
    """rules for rectangles: the product of two rules"""
    def goals(E, st, ret, e, objs, sret):
        yield from evaluated(E, a, b, c, d)
        for cond, t in ite_leaves(ret):
            pc = st.pc + cond
            if not uses_f(t):
                yield 'zero on an empty rectangle', pc, degenerate((), t, (a, b), (c, d)); continue
            q = combination(t)
            yield 'linear in the integrand', pc, close(sum((abs(v) for v in q.pop(None, {}).values()), Fr(0)), Fr(0))
            scale = off = Fr(0); G = {}; memo = {}
            for k, v in q.items():
                xy = []
                for arg, lo, hi in ((k.args[0], 'a', 'b'), (k.args[1], 'c', 'd')):
                    if arg.id not in memo: memo[arg.id] = affine(arg, lo, hi)
                    al, be, rest = memo[arg.id]
                    off = max(off, rest, abs(al + be - 1)); xy.append(be - al)
                w = {('b', 'd'): 1, ('a', 'c'): 1, ('a', 'd'): -1, ('b', 'c'): -1}
                g = sum((s * v.get(mm, Fr(0)) for mm, s in w.items()), Fr(0)) / 4
                scale = max([scale] + [abs(v.get(mm, Fr(0)) - s * g) for mm, s in w.items()] + [abs(u) for mm, u in v.items() if mm not in w])
                G[tuple(xy)] = G.get(tuple(xy), Fr(0)) + 4 * g
            yield 'weights proportional to the area', pc, close(scale)
            yield 'nodes divide the sides in fixed ratios', pc, close(off)
            X, Y = {}, {}
            for (x, y), w in G.items(): X[x] = X.get(x, Fr(0)) + w / 2; Y[y] = Y.get(y, Fr(0)) + w / 2
            yield 'weights are products of the weights of two rules', pc, close(max(abs(G.get((x, y), Fr(0)) - u * v) for x, u in X.items() for y, v in Y.items()))
            for txt, g in one_rule(merge(X), 2 * n - 1, 'first variable: '): yield txt, pc, g
            for txt, g in one_rule(merge(Y), 2 * m - 1, 'second variable: '): yield txt, pc, g
    return goals

# ---------------------------------------------------------------- failing rules on the real code
WHAT = ['evaluated outside the interval', 'weight not positive', 'not linear', 'no change of sign', 'not exact for a polynomial', 'node or weight not scaled with the interval', 'error estimate', 'number of evaluations',
        'listed points are not the nodes', 'sum over the intervals', 'call operator']
def native(kind, n, m=0):
    def search(nat, secs, seed):
        import random, time
        from ..native import Crash
        r = random.Random(seed); end = time.time() + secs
        for k in range(12):
            if time.time() > end: break
            args = [float(kind), float(n), float(m), float(r.randint(0, 2 ** 31)), float(k)]
            try: out = nat.raw('!quad', args, 100)
            except Crash as x: return dict(rule=args), str(x)[:1500], k
            if out[0] >= 0: return dict(order=n, rule=args, at=out[1:4]), WHAT[int(out[0])] + ': result %r, expected %r' % (out[4], out[5]), k
        return None, None, 12
    return search

# ---------------------------------------------------------------- the rules
def opaque(E, name='f'): return Ptr(E.newobj(name, 'param', 1))
def gl_setup(E, c_, F, alias):
    st = St()
    return st, [opaque(E, 'this'), opaque(E), a, b], {}, Env({}), None
def gl2_setup(E, c_, F, alias):
    return St(), [opaque(E, 'this'), opaque(E), a, b, c, d], {}, Env({}), None
def gk_setup(E, c_, F, alias): return St(), [opaque(E), a, b], {}, Env({}), None
def points_goals(n, cls, member):
    """the listed points are the nodes of the rule"""
    def goals(E, st, ret, e, objs, sret):
        f = E.P.find(cls + ('::integrate<OpaqueF>' if member else '::integrate_nonadaptive<OpaqueF>') + '(OpaqueF, double, double)')
        if f is None: raise Unsupported('no rule')
        E.quiet += 1
        try: rets = E.call_function(f, ([opaque(E, 'this')] if member else []) + [opaque(E), a, b], St())
        finally: E.quiet -= 1
        t = next((t for s, r in rets for cond, t in ite_leaves(r if member else r.f[0]) if uses_f(t)), None)
        if t is None: raise Unsupported('no rule')
        want = Rule(t)
        got = []; off = Fr(0)
        for i in range(n):
            al, be, rest = affine(E.read(st, Ptr(sret, ic(8 * i))), 'a', 'b')
            off = max(off, rest, abs(al + be - 1)); got.append(be - al)
        yield 'points divide the interval in fixed ratios', st.pc, close(off)
        yield 'as many points as nodes', st.pc, bc(len(want.nodes) == n)
        yield 'points are the nodes of the rule', st.pc, And(*[close(x - y) for x, (y, w) in zip(sorted(got), want.nodes)])
    return goals
def points_setup(n, member):
    def setup(E, c_, F, alias):
        o = E.newobj('result', 'result', 8 * n, [(0, 8 * n, 8)], None)
        return St(), [Ptr(o)] + ([opaque(E, 'this')] if member else []) + [a, b], {}, Env({}), o
    return setup
for n in GL:
    cls = 'integrators::GaussLegendreIntegration<%d>' % n
    for op, nm in (('integrate', ''), ('operator()', '_call')):
        C(cls + '::%s<OpaqueF>(OpaqueF f, double a, double b)' % op, name='gauss%d%s' % (n, nm), props=['C07'], own={}, setup=gl_setup, goals=rule_goals(2 * n - 1), native=False, search=native(0, n))
    C(cls + '::get_points(double a, double b)', name='gauss%d_points' % n, ret='void', props=['C07'], own={}, setup=points_setup(n, True), goals=points_goals(n, cls, True), native=False, search=native(0, n))
    C('integrators::GaussLegendreIntegration2D<%d>::integrate<OpaqueF2>(OpaqueF2 f, double a, double b, double c, double d)' % n, name='gauss%d_2d' % n, props=['C07'], own={}, setup=gl2_setup, goals=goals2(n, n), native=False, search=native(1, n, n))
for n, m in GLA:
    C('integrators::GaussLegendreIntegration2DA<%d, %d>::integrate<OpaqueF2>(OpaqueF2 f, double a, double b, double c, double d)' % (n, m), name='gauss%d_%d_2d' % (n, m), props=['C07'], own={}, setup=gl2_setup, goals=goals2(n, m), native=False, search=native(2, n, m))

# ---------------------------------------------------------------- Gauss-Kronrod pairs
def functionals(t, out, memo):
    """maximal combinations of integrand values inside t"""
    if not uses_f(t): return
    try:
        q = combination(t, memo)
        if None not in q: out[t] = q; return
    except Unsupported: pass
    for x in t.args: functionals(x, out, memo)
def kronrod_goals(n):
    g = gauss_points(n); first = rule_goals(kronrod_degree(n), lambda r: r.f[0])
    def goals(E, st, ret, e, objs, sret):
        if not isinstance(ret, Agg): raise Unsupported('result of the rule')
        yield from first(E, st, ret, e, objs, sret)
        # the error estimate is built from combinations that vanish on all polynomials of degree 2g-1
        fs = {}
        functionals(ret.f[1], fs, {})
        sub = {}
        for k, t in enumerate(fs):
            q = fs[t]; at = {}
            for x, v in q.items():
                al, be, rest = affine(x.args[0], 'a', 'b')
                val = sum((u * Fr((-1) ** m.count('a')) for m, u in v.items()), Fr(0))          # coefficient on (-1, 1)
                at[be - al] = at.get(be - al, Fr(0)) + val
            for m, v in enumerate(moments(merge(at), 2 * g - 1)): yield 'error estimate, combination %d: vanishes for degree %d' % (k, m), st.pc, close(v, 8 * TOL)
            yield 'error estimate, combination %d: does not vanish for degree %d' % (k, 2 * g), st.pc, Not(close(moments(merge(at), 2 * g)[2 * g], Fr(1, 1000)))
            sub[t] = ZERO
        yield 'error estimate uses the integrand', st.pc, bc(bool(fs))
        z = subst(ret.f[1], sub)
        if uses_f(z): raise Unsupported('form of the error estimate')
        yield 'error estimate is zero, up to rounding, where these vanish', st.pc, Le(Abs(z), rc(Fr(1, 10 ** 15)) * Abs(b - a))
    return goals
def pair(x, y): return Agg((app('K', (x, y), 'R'), app('Kerr', (x, y), 'R')))
def use_kronrod(c_, E, st, vals, i): return [(st, pair(vals[1], vals[2]))]
def between(x): return And(Le(Min(a, b), x), Le(x, Max(a, b)))
def use_adaptive(c_, E, st, vals, i):
    f, x, y, eps, reps, lvl = vals
    if not E.quiet:
        if E.measure is not None: E.oblige('pre', st, And(Le(0, lvl), Lt(lvl, E.measure)), 'termination: the number of subdivisions left decreases and stays non-negative')
        else: E.oblige('pre', st, And(Le(0, lvl), Le(lvl, 10000)), 'adaptive integration starts with a limited number of subdivisions')
        if E.confine: E.oblige('pre', st, And(between(x), between(y)), 'integrates inside the interval only')
    return [(st, app('AD', (x, y), 'R'))]
def J(x): return app('J', (x,), 'R')
def exact(t):
    """t for an integrand with antiderivative J that the rule integrates exactly"""
    return subst(t, {s: J(s.args[1]) - J(s.args[0]) for s in subterms(t) if s.op == 'app' and s.data in ('K', 'AD')})
def flip(t, x, y):
    """t with the results for the swapped limits expressed by those for the limits themselves"""
    s = {}
    for u in subterms(t):
        if u.op == 'app' and u.data in ('K', 'AD') and u.args != (x, y): s[u] = -app(u.data, (u.args[1], u.args[0]), 'R')
        if u.op == 'app' and u.data == 'Kerr': s[u] = app('Kerr', (x, y), 'R')
    return subst(t, s)
EPS, REPS, LEVEL, NN = var('eps', 'R'), var('reps', 'R'), var('level', 'I'), var('N', 'I')
def ad_setup(E, c_, F, alias):
    st = St(); E.measure = LEVEL; E.confine = True
    st.assume(le(I0, LEVEL))
    return st, [opaque(E), a, b, EPS, REPS, LEVEL], {}, Env({}), None
def ad_goals(c_):
    def goals(E, st, ret, e, objs, sret):
        if not hasattr(E, 'swapped'):
            f = E.P.find(c_.key); E.quiet += 1
            try: E.swapped = E.call_function(f, [opaque(E), b, a, EPS, REPS, LEVEL], St({}, (le(I0, LEVEL),), {}))
            finally: E.quiet -= 1
        if E.evals: yield from evaluated(E, a, b)
        yield 'exact where the rule is exact', st.pc, Eq(exact(ret), J(b) - J(a))
        for s2, r2 in E.swapped:
            yield 'changes sign when the limits are swapped', st.pc + tuple(flip(p, a, b) for p in s2.pc), Eq(flip(r2, a, b), -ret)
    return goals
def int_setup(E, c_, F, alias):
    st = St(); E.measure = None; E.confine = True
    st.assume(le(I1, NN)); st.assume(le(NN, ic(2 ** 31 - 1)))
    return st, [opaque(E), a, b, EPS, REPS, NN], {}, Env({}), None
def int_goals(E, st, ret, e, objs, sret):
    if E.evals: yield from evaluated(E, a, b)
    t = exact(ret)
    if t.op == 'sum' and isc(t.args[0]) and t.args[0].data == 0 and t.args[1] is NN:        # telescoping sum, by induction over the number of parts
        k = fresh('k', 'I'); end = lambda k: a + R(k) * ((b - a) / R(NN)); pc = st.pc + (le(I0, k), lt(k, NN))
        yield 'sum of the parts: first part starts at the lower limit', st.pc, Eq(end(I0), a)
        yield 'sum of the parts: one more part', pc, Eq(inst(t, k), J(end(iadd(k, I1))) - J(end(k)))
        yield 'sum of the parts: last part ends at the upper limit', st.pc, Eq(end(NN), b)
    else: yield 'sum of the parts', st.pc, Eq(t, J(b) - J(a))
def iv_setup(E, c_, F, alias):
    st = St(); E.measure = None; E.confine = False
    el = 'std::pair<double, double>'
    E.vec_paths(el)
    v = VecVal(el, var('iv', 'S'))
    o = E.newobj('iv', 'param', 24, (), [(0, '', 'V', 'std::vector<%s>' % el)], lambda key, idx: v)
    return st, [opaque(E), Ptr(o), EPS, REPS], dict(iv=o), Env(dict(iv=SeqV(el, var('iv', 'S')))), None
def iv_goals(E, st, ret, e, objs, sret):
    yield 'sum over the intervals', st.pc, Eq(ret, Sum(e.iv.n, lambda j: app('AD', (e.iv[j].first, e.iv[j].second), 'R')))
for n in GK:
    cls = 'integrators::GaussKronrodIntegration<%d>' % n
    k = C(cls + '::integrate_nonadaptive<OpaqueF>(OpaqueF f, double a, double b)', name='kronrod%d' % n, ret='pair', props=['C07'], own={}, setup=gk_setup, goals=kronrod_goals(n), custom=use_kronrod, native=False, search=native(3, n))
    own = {k.key: k}
    ad = C(cls + '::integrate_adaptive<OpaqueF>(OpaqueF f, double a, double b, double eps, double reps, int level)', name='kronrod%d_adaptive' % n, props=['C07'], own=own, setup=ad_setup, custom=use_adaptive, native=False, search=native(4, n))
    ad.goals = ad_goals(ad); own[ad.key] = ad
    C(cls + '::integrate<OpaqueF>(OpaqueF f, double a, double b, double eps, double reps, int N)', name='kronrod%d_integrate' % n, props=['C07'], own=own, setup=int_setup, goals=int_goals, native=False, search=native(4, n))
    C(cls + '::integrate_intervals<OpaqueF>(OpaqueF f, vector<std::pair<double, double>> intervals, double eps, double reps)', name='kronrod%d_intervals' % n, props=['C07'], own=own, setup=iv_setup, goals=iv_goals, native=False, search=native(4, n))
    C(cls + '::get_points(double a, double b)', name='kronrod%d_points' % n, ret='void', props=['C07'], own={}, setup=points_setup(n, False), goals=points_goals(n, cls, False), native=False, search=native(3, n))
