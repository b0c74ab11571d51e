"""C17 energy grids and linear table interpolation"""
import re
from bisect import bisect_right
from ..spec import *
from .. import spec, sym
from ..sym import *
from .const import *

# rounding slack of the lookup: the interval contains the energy up to this relative and absolute amount
RT = rc(1e-9)
GLOBALS = {'catima::energy_table': (MAXE, -3, 7), 'catima::ls_coefficients::ls_energy_table': (200, 0, 7)}
def offs(N):
    ls = {p: o for o, p, k, t in spec.LAY.leaves('catima::EnergyTable<%d>' % N)}
    return ls['values'], ls['step'], ls['num']
def globtable(name):
    """the global grid as a record value"""
    N = GLOBALS[name][0]
    v, s, n = offs(N)
    d = {'values': view('glob:%s+%d' % (name, v), 0, N), 'step': var('@%s+%d' % (name, s), 'R'), 'num': var('@%s+%d' % (name, n), 'I')}
    return RecV('catima::EnergyTable<%d>' % N, lambda p: d[p])
def isglob(t):
    """one of the global grids, whose invariant is established by their constructor (item grid_globals)"""
    s = t.leaf('values')
    return s.op == 'app' and s.data == 'view' and isc(s.args[1]) and s.args[1].data == 0 and s.args[0].data in ['glob:%s+%d' % (g, offs(N)[0]) for g, (N, a, b) in GLOBALS.items()]
def ginv(t, N):
    """grid invariant: positive, logarithmically equidistant values"""
    if isglob(t): return []
    x = t.values
    return [Gt(t.step, 0), Eq(t.num, N), All(N, lambda k: And(*point(t, k)))]
def point(t, k): return [Ge(t.values[k], rc(0.0009)), Eq(Log(t.values[k]), Log(t.values[0]) + R(k) * t.step * LN10)]
def bracket(x, N):
    """the lookup finds the interval of the grid x(0)..x(N-1) that contains v"""
    def rel(e, r):
        v = e.v
        below = Lt(v, x(e, 0))
        up = lambda k: x(e, k) + Abs(x(e, k)) * RT
        dn = lambda k: x(e, k) - Abs(x(e, k)) * RT
        return [('-1 below the first grid point', Implies(below, Eq(r, -1))),
                ('inside the grid otherwise', Implies(Not(below), And(Le(0, r), Le(r, N - 1)))),
                ('last index above the last grid point', Implies(Gt(v, x(e, N - 1)), Eq(r, N - 1))),
                ('last index only up to rounding before the last grid point', Implies(And(Not(below), Eq(r, N - 1)), Ge(v, dn(N - 1)))),
                ('interval starts at or below the energy, up to rounding', Implies(Not(below), Ge(v, dn(r)))),
                ('interval ends above the energy, up to rounding', Implies(And(Not(below), Lt(r, N - 1)), Le(v, up(r + 1))))]
    return rel
def lemmas(x, lx, pt, N):
    """instances, around the returned index, of the grid invariant and of two laws of the logarithm of positive numbers:
    it is strictly increasing, and the logarithm of a quotient is the difference"""
    def h(e, r):
        v = e.v
        out = [Implies(Gt(v, 0), Eq(Log(v / x(e, 0)), Log(v) - lx(e, 0)))]
        out += [Implies(Gt(z, 0), Eq(Log10(z) * LN10, Log(z))) for z in (v, v / x(e, 0), x(e, 0))]
        for k in (ic(0), ic(N - 1), r - 1, r, r + 1):
            out += [Implies(And(Le(0, k), Le(k, N - 1)), And(*pt(e, k))),
                    Implies(And(Gt(v, 0), Gt(x(e, k), 0)), And(Implies(Lt(v, x(e, k)), Lt(Log(v), lx(e, k))), Implies(Gt(v, x(e, k)), Gt(Log(v), lx(e, k))))) ]
        return out
    return h

# ---------------------------------------------------------------- failing energies on the real code
def near_points(kind, N):
    """energies around every grid point, far away, infinite and not a number, on the library's grids and on others"""
    def search(nat, secs, seed):
        import random, time
        from ..native import Crash
        r = random.Random(seed); end = time.time() + secs; n = 0
        grids = [g[1:] for g in GLOBALS.values() if g[0] == N] or [(-3, 7)]
        grids += [(r.choice([-3, -1.5, 0, 0.3]), r.choice([2, 3.7, 7, 9.1])) for _ in range(40)]
        for a, b in grids:
            if time.time() > end: break
            n += 1
            try: out = nat.raw('!grid', [float(kind), float(N), float(a), float(b), float(r.randint(0, 2 ** 31))], 60)
            except Crash as x: return dict(grid=[N, a, b], energies='around the grid points'), str(x)[:1500], n
            if out[0] >= 0: return dict(grid=[N, a, b], energy=out[1], energy_hex=float(out[1]).hex()), WHAT[int(out[0])] + ': result %r, expected %r' % (out[2], out[3]), n
        return None, None, n * N * 20
    return search
WHAT = ['index below the grid', 'index outside the grid', 'interval does not contain the energy', 'last index', 'value at a grid point', 'value between grid points', 'value outside the grid', 'spline evaluation', 'spline derivative', 'grid point']

etidx, interp = {}, {}
def evt(N):
    def ev(vals, step, num, v):
        if not v >= vals[0]: return -1
        return min(bisect_right(vals, v) - 1, N - 1)
    return ev
for N in (MAXE, 200):
    X = lambda e, k: e.this.values[k]
    etidx[N] = C('catima::EnergyTable<%d>::index(double v)' % N, name='index%d' % N, ret='I', reads='this v', props=['C17'], pre=lambda e, N=N: ginv(e.this, N), rel=bracket(X, N),
                 hints=lemmas(X, lambda e, k: Log(e.this.values[k]), lambda e, k: point(e.this, k), N), evalf=evt(N), search=near_points(0, N))
    def post(e, N=N):
        x, y, v = e.table.values, e.y, e.xval
        i = etidx[N](e.table, v)
        f = (v - x[i]) / (x[i + 1] - x[i])
        return Case((Not(And(Ge(v, x[0]), Le(v, x[N - 1]))), R(0)), (Ge(i, N - 1), y[N - 1]), y[i] * (1 - f) + y[i + 1] * f)
    interp[N] = C('catima::EnergyTable_interpolate<catima::EnergyTable<%d>>(EnergyTable<%d> table, double xval, double[%d] y)' % (N, N, N), name='interp%d' % N,
             reads='table xval y', props=['C17'], pre=lambda e, N=N: ginv(e.table, N), post=post, search=near_points(1, N))

# ---------------------------------------------------------------- grids computed on the fly
VN = MAXE
def LV(e, k): return Exp(LN10 * (e.this.logmin + R(co(k, I0)) * e.this.step))
log_index = C('catima::LogVArray<%d>::index(double v)' % VN, name='log_index', ret='I', reads='this v', props=['C17'], pre=lambda e: [Gt(e.this.step, 0), Ge(LV(e, 0), rc(0.0009))], rel=bracket(LV, VN), native=False,
    hints=lemmas(LV, lambda e, k: LN10 * (e.this.logmin + R(co(k, I0)) * e.this.step), lambda e, k: [Ge(LV(e, k), rc(0.0009)), Ge(LV(e, k), LV(e, 0))], VN), search=near_points(2, VN))
log_value = C('catima::LogVArray<%d>::value(int i)' % VN, name='log_value', reads='this i', inline=True, props=['C17'], native=False, post=lambda e: LV(e, e.i), search=near_points(2, VN))
for op in ('[]', '()'):
    C('catima::LogVArray<%d>::operator%s(int i)' % (VN, op), name='log_value' + op, reads='this i', inline=True, props=['C17'], native=False, post=lambda e: LV(e, e.i), search=near_points(2, VN))
log_ctor = C('catima::LogVArray<%d>::LogVArray(double logmin, double logmax)' % VN, name='log_ctor', ret='void', props=['C17'], native=False, search=near_points(2, VN),
    mod=lambda e: {'this.logmin': e.logmin, 'this.logmax': e.logmax, 'this.step': (e.logmax - e.logmin) / (VN - 1)})
def NV(e, k): return R(co(k, I0)) * e.this.step + e.this.min
lin_index = C('catima::LinearVArray<%d>::index(double v)' % VN, name='lin_index', ret='I', reads='this v', props=['C17'], pre=lambda e: [Gt(e.this.step, 0), Eq(e.this.max, NV(e, VN - 1))], rel=bracket(NV, VN), native=False, search=near_points(3, VN))
lin_value = C('catima::LinearVArray<%d>::operator[](int i)' % VN, name='lin_value', reads='this i', inline=True, props=['C17'], native=False, post=lambda e: NV(e, e.i), search=near_points(3, VN))
lin_ctor = C('catima::LinearVArray<%d>::LinearVArray(double min, double max)' % VN, name='lin_ctor', ret='void', props=['C17'], native=False, search=near_points(3, VN),
    mod=lambda e: {'this.min': e.min, 'this.max': e.max, 'this.step': If(Le(e.max, e.min), R(0), (e.max - e.min) / (VN - 1))})

# ---------------------------------------------------------------- the invariant of the tabulated grids
def table_goals(E, st, obj, N, logmin, logmax):
    v, s, n = offs(N)
    step = (R(logmax) - R(logmin)) / (N - 1)
    yield 'step', st.pc, Eq(E.read(st, Ptr(obj, ic(s))), step)
    yield 'number of points', st.pc, Eq(E.read(st, Ptr(obj, ic(n))), N)
    k = fresh('k', 'I')
    pc = st.pc + (le(I0, k), lt(k, ic(N)))
    E.quiet += 1
    try: x = E.read(St(st.mem, pc, st.regs), Ptr(obj, iadd(ic(v), iscale(k, 8))))
    finally: E.quiet -= 1
    yield 'grid point', pc, Eq(x, Exp(LN10 * (R(logmin) + R(k) * step)))
for N in (MAXE, 200):
    C('catima::EnergyTable<%d>::EnergyTable(double logmin, double logmax)' % N, name='table_ctor%d' % N, ret='void', props=['C17'], native=False, inline=True, search=near_points(0, N), mod=lambda e: {},
      goals=lambda E, st, ret, e, objs, sret, N=N: table_goals(E, st, objs['this'], N, e.logmin, e.logmax))
    for op in ('[]', '()'):
        C('catima::EnergyTable<%d>::operator%s(int i)' % (N, op), name='table%d%s' % (N, op), reads='this i', inline=True, props=['C17'], native=False, search=near_points(0, N),
          pre=lambda e, N=N: [Le(0, e.i), Lt(e.i, N)], post=lambda e: e.this.values[e.i])
def _globals(ctx):
    """the initialisers of the two grids make tables for which the invariant holds"""
    from ..exec import Executor, Obl
    from .. import prove
    out = []
    for name, (N, a, b) in GLOBALS.items():
        g = next((n for n in ctx.P.mod.globals if ctx.P.dem.get(n, n) == name), None)
        if g is None: raise Unsupported('no grid ' + name)
        fs = [f for f in ctx.P.mod.funcs if f.startswith('__cxx_global_var_init') and any(re.search('@%s\\b' % re.escape(g), l) for _, ls in ctx.P.mod.funcs[f].raw for l in ls)]
        if len(fs) != 1: raise Unsupported('initialiser of ' + name)
        E = Executor(ctx.P, spec.REG); st = St()
        rets = E.call_function(fs[0], [], st)
        if len(rets) != 1: raise Unsupported('initialiser of %s' % name)
        st = rets[0][0]
        for text, pc, goal in table_goals(E, st, E.global_obj(g), N, a, b):
            out.append(dict(kind='post', text='%s: %s' % (name, text), ok=bool(prove.prove(list(pc), goal, 60)), secs=0))
    return dict(status='proved', obls=out)
Item('grid_globals', ['C17'], _globals)
def _lowest(ctx):
    """the lowest energy of the library's grid is the one below which results are zero (Ezero)"""
    r = _globals(ctx)
    obls = [dict(kind='post', text='the lowest tabulated energy is Ezero', ok=all(o['ok'] for o in r['obls']) and abs(10.0 ** GLOBALS['catima::energy_table'][1] - 1e-3) < 1e-15, secs=0)]
    out = dict(status='proved', obls=obls)
    if not obls[0]['ok']:
        x = ctx.native().raw('!etable', [], 20)
        if abs(x[0] - 1e-3) > 1e-9 * 1e-3: out.update(status='open', violation=dict(args={'energy_table.values[0]': x[0]}, mismatch='the grid starts at %r, results are zero below 0.001' % x[0], asan=False))
        else: raise Unsupported('grid not recognised')
    return out
Item('lowest_energy', ['C03', 'C05'], _lowest)
def _invariant():
    """a table made by the constructor from logmin >= -3 and logmax > logmin satisfies the invariant the lookup relies on"""
    lo, hi, k = var('logmin', 'R'), var('logmax', 'R'), var('k', 'I')
    for N in (MAXE, 200):
        step = (hi - lo) / (N - 1); x = lambda k: Exp(LN10 * (lo + R(k) * step))
        f = [Ge(lo, -3), Gt(hi, lo), Le(0, k), Lt(k, N)]
        d, arg = hi - lo, lambda k: LN10 * (lo + R(k) * step)
        mono = Implies(Ge(arg(k), LN10 * rc(-3.0)), Ge(x(k), rc(0.0009)))       # exp is increasing and exp(-3 ln 10) = 0.001
        inv = [Eq(Log(x(j)), arg(j)) for j in (k, ic(0))]                         # log is the inverse of exp
        yield 'step is positive, %d points' % N, f, Gt(step, 0)
        yield 'energies at least 0.0009, %d points' % N, f + [mono, Ge(R(k) * d, 0)], Ge(x(k), rc(0.0009))
        yield 'product of non-negative numbers, %d points' % N, f, Ge(R(k) * d, 0)
        yield 'logarithmically equidistant, %d points' % N, f + inv, Eq(Log(x(k)), Log(x(ic(0))) + R(k) * step * LN10)
Lemma('grid_invariant', ['C17'], _invariant)
def _nodes():
    """linear interpolation at the grid points and between them, from the contract of the lookup"""
    i, k, v = var('i', 'I'), var('k', 'I'), var('v', 'R')
    X = lambda j: app('x', (co(j, I0),), 'R'); Y = lambda j: app('y', (co(j, I0),), 'R')
    N = MAXE
    f = (v - X(i)) / (X(i + 1) - X(i)); val = If(Ge(i, N - 1), Y(N - 1), Y(i) * (1 - f) + Y(i + 1) * f)
    inc = lambda a, b: Implies(And(Lt(a, b), Le(0, a), Lt(b, N)), Lt(X(a) * (1 + 4 * RT), X(b)))      # grid points are further apart than the slack of the lookup
    cont = [Le(0, i), Le(i, N - 1), Ge(v, X(i) - X(i) * RT), Implies(Lt(i, N - 1), Le(v, X(i + 1) + X(i + 1) * RT)), Implies(Gt(v, X(N - 1)), Eq(i, N - 1)), Gt(X(i), 0), Gt(X(i + 1), 0), Gt(X(k), 0)]
    at = [Le(0, k), Lt(k, N), Eq(v, X(k)), inc(i, k), inc(k, i), inc(i + 1, k), inc(k, i + 1)]
    yield 'tabulated value at every grid point', cont + at, Eq(val, Y(k))
    bt = [Le(0, k), Lt(k, N - 1), Gt(v, X(k) * (1 + 2 * RT)), Lt(v, X(k + 1) * (1 - 2 * RT)), Gt(X(k + 1), 0)] + [inc(a, b) for a in (i, i + 1) for b in (k, k + 1)] + [inc(b, a) for a in (i, i + 1) for b in (k, k + 1)]
    g = (v - X(k)) / (X(k + 1) - X(k))
    yield 'straight line between grid points', cont + bt, Eq(val, Y(k) * (1 - g) + Y(k + 1) * g)
Lemma('interp_nodes', ['C17'], _nodes)

# ---------------------------------------------------------------- every double, whatever the rounding
# All floating-point operations give arbitrary results here (not-a-number included); only comparisons of the inputs are
# interpreted.  What is proved: the index is inside the grid or -1, and no table is read outside its bounds.
def any_index(N, x):
    def use(c, E, st, vals, i):
        r = fresh('idx', 'I')
        st.assume(and_(le(ic(-1), r), le(r, ic(N - 1))))
        if x: st.assume(iff(le(I0, r), E.fcmp('oge', vals[1], E.read(st, E.addp(vals[0], x(N))))))
        return [(st, r)]
    def goals(E, st, ret, e, objs, sret):
        yield 'inside the grid or -1', st.pc, And(Le(-1, ret), Le(ret, N - 1))
        if x: yield '-1 exactly if the energy is not at or above the first grid point', st.pc, iff(le(I0, ret), E.fcmp('oge', e.v, e.this.values[0]))
    return use, goals
first = lambda N: offs(N)[0]
ANY = {}
for N in (MAXE, 200):
    use, goals = any_index(N, first)
    c = C('catima::EnergyTable<%d>::index(double v)' % N, name='index%d_any_double' % N, ret='I', reads='this v', props=['C17'], pre=lambda e: [Gt(e.this.step, 0)], goals=goals, custom=use, native=False, search=near_points(0, N), anyfp=True, own={})
    ANY[c.key] = c
    C('catima::EnergyTable_interpolate<catima::EnergyTable<%d>>(EnergyTable<%d> table, double xval, double[%d] y)' % (N, N, N), name='interp%d_any_double' % N, reads='table xval y', props=['C17'], native=False, search=near_points(1, N), anyfp=True, own=ANY,
      goals=lambda E, st, ret, e, objs, sret: [('table elements read are inside the table (see bounds)', st.pc, TRUE)])
for nm, kind in (('Log', 2), ('Linear', 3)):
    use, goals = any_index(MAXE, None)
    C('catima::%sVArray<%d>::index(double v)' % (nm, MAXE), name='%s_index_any_double' % nm.lower(), ret='I', reads='this v', props=['C17'], pre=lambda e: [Gt(e.this.step, 0)], goals=goals, native=False, search=near_points(kind, MAXE), anyfp=True, own={})
for _c in ORDER:
    if isinstance(_c, Contract) and 'C17' in _c.props and _c.search: _c.soft = True      # an undischarged obligation is followed by a search around every grid point
