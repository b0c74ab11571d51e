"""C06 natural cubic splines: the tridiagonal solver, the construction and the evaluation.

The class layout is not used: the constructor is executed on an object without contents, the value and the slope of the
spline are then obtained by executing eval and derivative in the state the constructor left.  The solver is used through
its contract (the rows of the system), the grid lookup through an arbitrary interval."""
from ..spec import *
from .. import spec, sym, prove, solve, terms as tm
from ..sym import *
from ..verify import make_leaf
from .const import *
from .transport import CSPL
from .grid import ANY

N = MAXE
def tri_type(n): return 'catima::tridiagonal_matrix<%d>' % n
TABLE = 'catima::EnergyTable<%d>' % N

# ---------------------------------------------------------------- tridiagonal systems
def entries(E, st, A, n=N):
    """elements of the matrix, read by its access operator"""
    f = next((g for g in E.P.mod.funcs if E.P.dem.get(g, '').startswith(tri_type(n) + '::operator()') and E.P.dem[g].endswith('const')), None)
    if f is None: raise Unsupported('no access operator of the matrix')
    def M(i, j):
        i, j = co(i, I0), co(j, I0)
        E.quiet += 1
        try: rets = E.call_function(f, [A, i, j], St(st.mem, st.pc + (le(I0, i), lt(i, ic(n)), le(I0, j), lt(j, ic(n))), st.regs))
        finally: E.quiet -= 1
        if len(rets) != 1: raise Unsupported('matrix element')
        return rets[0][1]
    return M
def rows(M, x, b, n=N):
    """(condition on j, equation) of the rows of the system"""
    def row(j):
        j = co(j, I0)
        t = radd(rmul(M(j, j), x(j)))
        if not (isc(j) and j.data == 0): t = radd(t, rmul(M(j, isub(j, I1)), x(isub(j, I1))))
        if not (isc(j) and j.data == n - 1): t = radd(t, rmul(M(j, iadd(j, I1)), x(iadd(j, I1))))
        return eq(t, b(j))
    return row
def pivots(M):
    return Rec_(['q'], [M(0, 0)], lambda k, s: [rsub(M(iadd(k, I1), iadd(k, I1)), rmul(M(iadd(k, I1), k), rdiv(M(k, iadd(k, I1)), s[0])))])[0]
def elem(E, st, o, n=N):
    def f(j):
        j = co(j, I0); E.quiet += 1
        try: return E.read(St(st.mem, st.pc + (le(I0, j), lt(j, ic(n))), st.regs), Ptr(o, iscale(j, 8)))
        finally: E.quiet -= 1
    return f
def tri_setup(E, c, F, alias):
    n = c.size
    st = St()
    A = E.shaped('A', tri_type(n), make_leaf(E, 'A'))
    b = E.newobj('b', 'param', 8 * n, [(0, 8 * n, 8)], None, lambda key, idx: app('arr:b', (idx,), 'R'))
    x = E.newobj('x', 'result', 8 * n, [(0, 8 * n, 8)], None)
    return st, [Ptr(x), Ptr(A), Ptr(b)], dict(A=A, b=b, x=x), Env({}), x
def tri_goals(E, st, ret, e, objs, sret):
    n = sret.size // 8
    M = entries(E, st, Ptr(objs['A']), n); q = pivots(M)
    x = elem(E, st, sret, n); b = elem(E, st, objs['b'], n)
    # precondition: no pivot of the elimination vanishes.  The code's own pivots are recognised as the specified ones.
    k = fresh('k', 'I'); pc = []
    same = {}
    for t in subterms(*st.pc):
        if t.op == 'recval' and t.sort == 'R':
            ld = t.data
            if ld not in same: same[ld] = bool(prove.prove([le(I0, k)], eq(tm.recval(ld[0], ld[1], k), q(k)), 5))
    for t in subterms(*st.pc):
        if t.op == 'recval' and same.get(t.data) and not prove.free_bound(t):
            i = t.args[0]; ld, w = t.data
            s = {v: tm.recval(ld, m, i) for m, v in enumerate(ld.st)}; s[ld.kvar] = i
            pc += [not_(eq(subst(ld.step[w], s), ZERO)), not_(eq(t, ZERO))]
    pc.append(not_(eq(M(0, 0), ZERO)))
    J = fresh('j', 'I')
    for i in (isub(J, I1), J, iadd(J, I1)):
        for ld, ok in same.items():
            if ok:
                s = {v: tm.recval(ld[0], m, i) for m, v in enumerate(ld[0].st)}; s[ld[0].kvar] = i
                pc += [implies(le(I0, i), not_(eq(tm.recval(ld[0], ld[1], i), ZERO))), implies(le(I0, i), not_(eq(subst(ld[0].step[ld[1]], s), ZERO)))]
    if n <= 4:        # loops of a few iterations are executed, not summarised
        z = M(0, 0)
        for i in range(1, n):
            z = rsub(M(i, i), rmul(M(i, i - 1), rdiv(M(i - 1, i), z))); pc.append(not_(eq(z, ZERO)))
    row = rows(M, x, b, n)
    base = tuple(st.pc) + tuple(pc)
    for j in sorted({0, 1, n - 2, n - 1}): yield 'row %d' % j, base, row(j)
    if n > 4: yield 'rows 2 to %d' % (n - 3), base + (le(ic(2), J), le(J, ic(n - 3))), row(J)
def write_array(st, p, f):
    o, b = p.obj, p.off.data
    r = next((r for r in o.regions if r[0] <= b < r[1]), None)
    if r is None or r[2] != 8: raise Unsupported('array at %d' % b)
    k = (o.id, r[0], 0); n0 = (b - r[0]) // 8
    st.mem[k] = st.mem.get(k, ()) + (('seg', ic(n0), ic(n0 + N), lambda j: f(isub(j, ic(n0)))),)
def use_tri(c, E, st, vals, i):
    """the result is an array that satisfies the rows"""
    x, A, b = vals
    if b.off is not I0: raise Unsupported('right-hand side inside another object')
    s0 = St(dict(st.mem), st.pc, {})
    name = 'tri%d' % len(E.solved)
    E.solved.append((entries(E, s0, A), elem(E, s0, b.obj), lambda j, name=name: app(name, (co(j, I0),), 'R')))
    write_array(st, x, E.solved[-1][2])
    return [(st, None)]
def tri_search(nat, secs, seed):
    import random
    from ..native import Crash
    r = random.Random(seed)
    for n in range(200):
        a = [float(r.randint(0, 2 ** 31)), float(n % 2)]
        try: out = nat.raw('!tri', a, 60)
        except Crash as x: return dict(system=a), str(x)[:1500], n
        if out[0] >= 0: return dict(system=a, row=out[1], column=out[2]), ('matrix element' if out[0] == 0 else 'row of the system') + ': result %r, expected %r' % (out[3], out[4]), n
    return None, None, 200
def solver(n):
    c = C(tri_type(n) + '::trig_solve(std::array<double, %dul> b)' % n, name='tridiagonal_solve%d' % n, ret='void', props=['C06'], own={}, setup=tri_setup, goals=tri_goals, custom=use_tri, native=False, search=tri_search)
    c.size = n
    return c
tri = solver(N)
for _n in (3, 4, 300): solver(_n)

# ---------------------------------------------------------------- construction and evaluation
def lookup(c, E, st, vals, i): return [(st, E.interval)]
OWN = {tri.key: tri}
index = C(TABLE + '::index(double v)', name='any_interval', ret='I', reads='this v', props=[], own={}, custom=lookup, native=False)
OWN[index.key] = index
def spl_setup(E, c, F, alias):
    st = St(); E.solved = []
    x = E.shaped('x', TABLE, make_leaf(E, 'x'))
    E.vec_paths('double')
    yv = VecVal('double', var('y', 'S'))
    y = E.newobj('y', 'param', 24, (), [(0, '', 'V', 'std::vector<double>')], lambda key, idx: yv)
    ls = spec.LAY.leaves(CSPL, opaque=False)
    this = E.newobj('this', 'param', spec.LAY.size(CSPL), [(o, o + spec.LAY.size(t[0]) * t[1], spec.LAY.size(t[0])) for o, p, k, t in ls if k == 'A'], None)
    e = Env(dict(x=lambda j: app('arr:x.values', (co(j, I0),), 'R'), y=SeqV('double', var('y', 'S'))))
    st.assume(eq(seq_len(var('y', 'S')), ic(N)))
    return st, [Ptr(this), Ptr(x), Ptr(y)], dict(this=this, x=x, y=y), e, None
def diff(t, v):
    """derivative of a rational expression with respect to the variable v"""
    if t is v: return ONE
    if not mentions(t, [v]): return ZERO
    if t.op == 'radd': return radd(*[diff(a, v) for a in t.args])
    if t.op == 'rmul': return radd(*[rmul(diff(a, v), *(t.args[:n] + t.args[n + 1:])) for n, a in enumerate(t.args)])
    if t.op == 'rdiv' and not mentions(t.args[1], [v]): return rdiv(diff(t.args[0], v), t.args[1])
    raise Unsupported('derivative of ' + show(t, 3))
def member(E, name):
    f = E.P.find(CSPL + '::' + name + '(double)')
    if f is None: raise Unsupported('no ' + name)
    return f
def at(E, st, objs, name, k, v, cond):
    """value (or slope) at v, the lookup giving interval k"""
    E.interval = co(k, I0); E.quiet += 1
    try: rets = E.call_function(member(E, name), [Ptr(objs['this']), v], St(dict(st.mem), st.pc + tuple(cond), {}))
    finally: E.quiet -= 1
    if len(rets) != 1: raise Unsupported('several results of ' + name)
    return rets[0][1]
def spl_goals(E, st, ret, e, objs, sret):
    x, y = e.x, e.y
    inc = lambda *js: tuple(lt(x(j), x(iadd(co(j, I0), I1))) for j in js)
    Y = lambda j: y[co(j, I0)]
    if len(E.solved) != 1: raise Unsupported('%d systems solved' % len(E.solved))
    M, b, B = E.solved[0]
    row = rows(M, B, b)
    K = fresh('k', 'I'); V = fresh('v', 'R'); I = lambda n: iadd(K, ic(n))
    # the system has no vanishing pivot: by induction q(i) >= M(i,i+1) >= 0 and q(i) > 0
    q = fresh('q', 'R')
    yield 'elimination of the spline system: first pivot', st.pc + inc(0, 1), And(Gt(M(0, 0), 0), Ge(M(0, 0), M(0, 1)), Ge(M(0, 1), 0))
    def step(i, last):
        p = isub(i, I1)
        nq = rsub(M(i, i), rmul(M(i, p), rdiv(M(p, i), q)))
        f = (Gt(q, 0), Ge(q, M(p, i)), Ge(M(p, i), 0))
        # for 0 <= m <= q:  0 <= m/q <= 1
        r = rdiv(M(p, i), q); f += (Ge(r, 0), Le(r, 1))
        g = [Gt(nq, 0)] if last else [Gt(nq, 0), Ge(nq, M(i, iadd(i, I1))), Ge(M(i, iadd(i, I1)), 0)]
        return f, And(*g)
    yield 'quotient of the elimination', (Gt(q, 0), Ge(q, V), Ge(V, 0)), And(Ge(rdiv(V, q), 0), Le(rdiv(V, q), 1))
    for i, txt, c, last in ((ic(1), 'row 1', (), 0), (ic(N - 2), 'row %d' % (N - 2), (), 0), (ic(N - 1), 'last row', (), 1), (K, 'rows 2 to %d' % (N - 3), (le(ic(2), K), le(K, ic(N - 3))), 0)):
        f, g = step(i, last)
        yield 'elimination of the spline system: ' + txt, st.pc + tuple(c) + inc(isub(i, I1), i, isub(i, ic(2))) + f, g
    # the rows needed around interval k
    inside = lambda k, v: (le(x(0), v), le(v, x(N - 1)))
    def poly(k, c):
        """value and slope on interval k as expressions in V"""
        pc = tuple(c) + inside(k, V)
        return [simp_in(st.pc + pc, at(E, st, objs, n, k, V, pc)) for n in ('eval', 'derivative')]
    cases = [(ic(0), 'first interval', ()), (ic(1), 'second interval', ()), (ic(N - 3), 'last interval but one', ()), (ic(N - 2), 'last interval', ()), (K, 'inner intervals', (le(ic(2), K), le(K, ic(N - 4))))]
    for k, txt, c in cases:
        k1 = iadd(k, I1); nat = st.pc + tuple(c) + inc(isub(k, I1), k, k1)
        f, d = poly(k, c)
        sub = lambda t, z: subst(t, {V: z})
        ends = [row(0), row(N - 1)]
        fc = nat + tuple(ends) + (row(k),) + ((row(k1),) if k1 is not None else ())
        yield txt + ': passes through its left point', fc, eq(sub(f, x(k)), Y(k))
        yield txt + ': passes through its right point', fc, eq(sub(f, x(k1)), Y(k1))
        yield txt + ': the slope is the derivative of the value', fc, eq(d, diff(f, V))
        last = isc(k) and k.data == N - 2
        g, dg = poly(k1, [le(ic(3), k1), le(k1, ic(N - 3))] if k is K else ())
        # row k+1 of the system, solved for its diagonal unknown
        if not last:
            m = [simp_in(fc, M(k1, j)) for j in (k, k1, iadd(k1, I1))]
            z = rdiv(rsub(simp_in(fc, b(k1)), radd(rmul(m[0], B(k)), rmul(m[2], B(iadd(k1, I1))))), m[1])
            yield txt + ': diagonal element of the next row', fc, not_(eq(m[1], ZERO))
            use = lambda t: subst(t, {B(k1): z})
        else: use = lambda t: t
        yield txt + ': slope continuous at its right end', fc, eq(use(sub(d, x(k1))), use(sub(dg, x(k1))))
        yield txt + ': curvature continuous at its right end', fc, eq(sub(diff(d, V), x(k1)), ZERO if last else sub(diff(dg, V), x(k1)))
        if isc(k) and k.data == 0: yield 'curvature zero at the first point', fc, eq(sub(diff(d, V), x(0)), ZERO)
        if last:
            yield 'passes through the last point, whatever the interval', fc, eq(sub(g, x(k1)), Y(k1))
    for k, side, cond in ((0, 'below', lt(V, x(0))), (N - 1, 'above', gt_(V, x(N - 1)))):
        j = 0 if k == 0 else N - 2
        f0, d0 = poly(ic(j), ())
        slope = subst(d0, {V: x(k)})
        for kk in ([-1, 0] if k == 0 else [N - 1]):
            f = simp_in(st.pc + (cond,), at(E, st, objs, 'eval', kk, V, (cond,) + inc(0, N - 2) + (lt(x(0), x(N - 1)),)))
            d = simp_in(st.pc + (cond,), at(E, st, objs, 'derivative', kk, V, (cond,) + inc(0, N - 2) + (lt(x(0), x(N - 1)),)))
            fc = st.pc + (cond, lt(x(0), x(N - 1))) + inc(0, N - 2) + (row(0), row(N - 1), row(1), row(N - 2))
            yield 'straight line %s the grid (interval %d)' % (side, kk), fc, eq(f, radd(Y(k), rmul(slope, rsub(V, x(k)))))
            yield 'slope of the line %s the grid (interval %d)' % (side, kk), fc, eq(d, slope)
def gt_(a, b): return lt(b, a)
def simp_in(pc, t):
    """the branch of t that pc selects"""
    while True:
        c = prove.pick_cond(t)
        if c is None: return t
        r = prove.decide(pc, c)
        if r is None: raise Unsupported('undecided branch ' + show(c, 3))
        t = subst(t, {c: bc(r), not_(c): bc(not r)})
def spl_search(nat, secs, seed):
    import random, time
    from ..native import Crash
    from .grid import WHAT
    r = random.Random(seed); end = time.time() + secs
    for n in range(400):
        if time.time() > end: break
        a = [-3.0, 7.0] if n < 6 else [float(r.choice([-3, -2, 0, 0.5])), float(r.choice([2, 4, 7]))]
        a += [float(r.randint(0, 2 ** 31)), float(n % 3)]
        try: out = nat.raw('!spl', a, 60)
        except Crash as x: return dict(spline=a), str(x)[:1500], n
        if out[0] >= 0: return dict(spline=a, at=out[1]), WHAT[int(out[0])] + ': result %r, expected %r' % (out[2], out[3]), n
    a, bad, k = splh_search(nat, max(5, end - time.time()), seed)
    return a, bad, n * N + k
spline = C(CSPL + '::InterpolatorCSpline(EnergyTable<%d> table, vector<double> y)' % N, name='natural_spline', ret='void', props=['C06'], own=OWN, setup=spl_setup, goals=spl_goals, native=False, search=spl_search)

# ---------------------------------------------------------------- no table is read outside its bounds, whatever the energy
def any_goals(E, st, ret, e, objs, sret):
    """eval and derivative for every double, all floating-point operations giving arbitrary results"""
    v = var('v', 'R')
    E.contracts = ANY; E.nan_mode = E.anyfp = True
    for name in ('eval', 'derivative', 'operator()'):
        n = len(E.obls)
        rets = E.call_function(member(E, name), [Ptr(objs['this']), v], St(dict(st.mem), st.pc, {}))
        if not rets: raise Unsupported('no result of ' + name)
        for o in E.obls[n:]: yield '%s: %s' % (name, o.text), o.pc, o.goal
        yield name + ' returns', st.pc, TRUE
C(CSPL + '::InterpolatorCSpline(EnergyTable<%d> table, vector<double> y)' % N, name='spline_any_double', ret='void', props=['C17'], own=OWN, setup=spl_setup, goals=any_goals, native=False, search=spl_search)

# ---------------------------------------------------------------- values depend on the table and the energy only
def pure_spline_goals(E, st, ret, e, objs, sret):
    from ..verify import symbols, value_terms, READONLY
    def bad(ts): return sorted(x for x in symbols(ts) if x.startswith(('@', 'glob:')) and not x.lstrip('@').replace('glob:', '').startswith(READONLY))
    def writes(a, b, ids): return sorted({o.name for k, v in b.items() if k[0] in ids for o in [E.objs[k[0]]] if a.get(k) is not v and not (isinstance(v, T) and o.init is not None and len(k) == 2 and v is o.init(k[1], None))})
    outer = lambda: {o.id for o in E.gobj.values()}
    old = {objs['x'].id, objs['y'].id}
    w = writes({}, st.mem, outer() | old)
    yield 'frame: construction changes nothing else%s' % (' (%s)' % ', '.join(w) if w else ''), st.pc, FALSE if w else TRUE
    v = var('v', 'R'); E.interval = var('interval', 'I')
    for name in ('eval', 'derivative', 'operator()'):
        E.quiet += 1
        try: rets = E.call_function(member(E, name), [Ptr(objs['this']), v], St(dict(st.mem), st.pc, {}))
        finally: E.quiet -= 1
        if not rets: raise Unsupported('no result of ' + name)
        for s, r in rets:
            b = bad(value_terms(E, s, r) + list(s.pc))
            yield '%s depends on the table and the energy only%s' % (name, ' (depends on %s)' % ', '.join(b) if b else ''), s.pc, FALSE if b else TRUE
            w = writes(st.mem, s.mem, outer() | old | {objs['this'].id})
            yield 'frame: %s changes nothing%s' % (name, ' (%s)' % ', '.join(w) if w else ''), s.pc, FALSE if w else TRUE
def splh_search(nat, secs, seed):
    """the value of a spline in a fresh process against its value after others were built and evaluated"""
    import random, time
    from ..native import Crash
    r = random.Random(seed); end = time.time() + secs; n = 0
    def op(s): return [float(s), 10 ** r.uniform(-4, 6) if r.random() < 0.8 else r.choice([0.0, -1.0, 1e-3, 1e5, 5e6])]
    while time.time() < end and n < 150:
        ss = [r.randint(1, 10 ** 6) for _ in range(r.choice([1, 2, 3]))]
        ops = [op(r.choice(ss)) for _ in range(r.choice([1, 2, 5, 30]))]; last = op(r.choice(ss))
        if r.random() < 0.5: last[1] = r.choice(ops)[1] * r.choice([1, 1, 1 + 1e-4, 0.99])
        try:
            nat.stop(); a = nat.raw('!splh', [1.0] + last, 60)
            b = nat.raw('!splh', [float(len(ops) + 1)] + [x for o in ops + [last] for x in o], 60)
        except Crash as x: return dict(splines=ops + [last]), str(x)[:1500], n
        n += 1
        if repr(a) != repr(b): return dict(splines=ops, then=last), 'value and slope %r in a fresh process, %r after the earlier calls' % (a, b), n
    return None, None, n
C(CSPL + '::InterpolatorCSpline(EnergyTable<%d> table, vector<double> y)' % N, name='spline_pure', ret='void', props=['C01'], full={'C01'}, own=OWN, setup=spl_setup, goals=pure_spline_goals, native=False, search=splh_search)
