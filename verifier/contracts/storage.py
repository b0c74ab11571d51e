"""C01 C02: equality of requests, the circular store of table entries, the lookup.

A slot is empty (projectile mass zero) or holds the tables of its own key, and splines built on the slot's own
table vectors.  This is the invariant: the constructor and Reset establish it, Add and Get keep it.  Get then
returns an entry for the key of the request, which is what every caller relies on."""
from ..spec import *
from ..sym import *
from .. import sym
from .transport import *

MAT, PRJ, CFG, DP, DATA = 'catima::Material', 'catima::Projectile', 'catima::Config', 'catima::DataPoint', 'catima::Data'
TABS = ['range', 'range_straggling', 'angular_variance']

# ---------------------------------------------------------------- looking for a failing history on the real code
def history(nat, secs, seed):
    """random requests to one store: repeated, slightly different, more than there are slots, with resets"""
    import time, copy
    from ..replay import Sampler, Skip
    from ..native import pack, Crash
    s = Sampler(seed); r = s.r; end = time.time() + secs; tried = 0
    what = {1: 'the entry is for another request', 2: 'range table', 3: 'range straggling table', 4: 'angular variance table', 5: 'range spline', 6: 'range straggling spline', 7: 'angular variance spline',
            8: 'another slot than the expected one', 9: 'number of slots', 10: 'index', 11: 'contents of the slots'}
    def request():
        p = dict(A=float(r.choice([1, 4, 12, 12, 40, 238])), Z=float(r.choice([1, 2, 6, 6, 18])), Q=float(r.choice([0, 0, 1])), T=r.choice([10.0, 1000.0]))
        m = dict(rho=r.choice([1.0, 2.5]), th=0.0, molar_mass=r.choice([12.011, 12.011, 20.0]), i_potential=r.choice([0.0, 0.0, 75.0]),
                 atoms=[dict(A=r.choice([12.011, 12.0]), Z=r.choice([6, 6, 7]), stn=r.choice([1.0, 1.0, 2.0])) for _ in range(r.choice([1, 1, 2]))])
        c = dict(z_effective=r.choice([1, 1, 3, 7]), corrections=r.choice([0, 0, 1, 4]), calculation=r.choice([1, 1, 0]), low_energy=r.choice([0, 0, 1]), scattering=r.choice([255, 255, 1]), scattering_factor=r.choice([1.0, 1.0, 0.9]))
        return p, m, c
    while time.time() < end:
        ops, ds = [], []
        n = r.choice([2, 3, 5, 130, 200]) if tried else 3
        pool = [request() for _ in range(3)]
        if tried % 4 == 2:      # once round with different requests, then earlier ones again, now and then a new one
            base = request(); n = 0; pool = []
            for k in range(SLOTS + r.choice([0, 0, 1, 5])):
                q = copy.deepcopy(base); q[0]['A'] = 12.0 + k / 64.0; pool.append(q); ops.append([r.choice([0, 1])] + list(q))
            for k in range(60):
                if r.random() < 0.1: q = copy.deepcopy(base); q[0]['A'] = 30.0 + k / 64.0; pool.append(q)
                else: q = r.choice(pool[-SLOTS:] if r.random() < 0.5 else [pool[-1], pool[0], pool[1], pool[SLOTS - 1], pool[SLOTS - 2]])
                ops.append([r.choice([0, 0, 1])] + list(q))
        for k in range(n):
            op = 2 if r.random() < 0.01 or (n < 6 and r.random() < 0.1) else r.choice([0, 0, 1])
            if op == 2: ops.append([2]); continue
            if r.random() < (0.5 if n < 100 else 0.25):
                q = copy.deepcopy(r.choice(pool)); z = request(); w = r.choice(['', 'p', 'm', 'c'])
                if w: f = r.choice(list(q['pmc'.index(w)])); q['pmc'.index(w)][f] = z['pmc'.index(w)][f]
            elif n >= 100: q = copy.deepcopy(r.choice(pool)); q[0]['A'] = 12.0 + k / 64.0
            else: q = request()
            pool.append(q); ops.append([op] + list(q))
        for o in ops:
            ds.append(float(o[0]))
            for t, v in zip(('catima::Projectile', MAT, CFG), o[1:]): pack(t, v, ds)
        tried += 1
        try: out = nat.raw('!history', [float(len(ops))] + ds, 60)
        except Crash as x:
            if x.args[0] == 'timeout': continue
            return dict(operations=ops), str(x)[:2000], tried
        if out and out[0] >= 0: return dict(operations=ops[:int(out[0]) + 1], kinds='0 Get, 1 Add, 2 Reset'), 'operation %d: %s' % (out[0], what.get(int(out[1]), out[1])), tried
    return None, None, tried

# ---------------------------------------------------------------- equality
def pairs(ty):
    """two records that agree but for one member, which differs a little or a lot"""
    def gen(s):
        import copy
        while True:
            a = s.value('a', ty); b = copy.deepcopy(a) if s.r.random() < 0.85 else s.value('b', ty)
            for _ in range(s.r.choice([0, 1, 1, 1, 2])):
                q = s.r.choice(list(b))
                if isinstance(b[q], float): b[q] = b[q] * s.r.choice([1 + 10.0 ** -s.r.randint(3, 14), 1.05, 2]) if b[q] else s.r.choice([1e-9, 1.0])
                else: b[q] = (b[q] + s.r.choice([1, 2, 255])) % 256
            yield dict(a=a, b=b) if s.r.random() < 0.5 else dict(a=b, b=a)
    return gen
eqP = C('catima::operator==(Projectile a, Projectile b)', name='same_projectile', ret='B', reads='a.A a.Z a.Q b.A b.Z b.Q', props=['C01', 'C02'], expand=True, sample=pairs('Projectile'),
    post=lambda e: And(Eq(e.a.A, e.b.A), Eq(e.a.Z, e.b.Z), Eq(e.a.Q, e.b.Q)))
def cfg_leaves(): return [q for o, q, k, t in spec_layout(CFG)]
eqC = C('catima::operator==(Config a, Config b)', name='same_config', ret='B', props=['C01', 'C02'], expand=True, sample=pairs('Config'), post=lambda e: And(*[Eq(e.a.leaf(q), e.b.leaf(q)) for q in cfg_leaves()]))
def same_element(a, b): return And(Eq(a.A, b.A), Eq(a.Z, b.Z), Eq(a.stn, b.stn))
def eqm_rel(e, r):
    a, b = e.a, e.b
    els = And(Eq(a.atoms.n, b.atoms.n), All(a.atoms.n, lambda i: same_element(a.atoms[i], b.atoms[i])))
    num = And(Eq(a.molar_mass, b.molar_mass), Eq(a.i_potential, b.i_potential))
    return [('equal materials have the same number of elements', Implies(r, Eq(a.atoms.n, b.atoms.n))),
            ('equal materials have the same elements in the same proportions', Implies(r, els)),
            ('equal materials have the same molar mass and ionisation potential', Implies(r, num)),
            ('materials with the same elements, molar mass, ionisation potential and density are equal', Implies(And(els, num, Eq(a.rho, b.rho)), r))]
def eqm_use(c, E, st, vals, i):
    e, ptrs, _ = c.bind(E, st, vals, i)
    return [(st, c.symbol(c.args_of_env(e)))]
def eqm_sample(s):
    import copy
    while True:
        a = s.value('a', 'Material'); b = copy.deepcopy(a) if s.r.random() < 0.85 else s.value('b', 'Material')
        for _ in range(s.r.choice([0, 1, 1, 2])):
            k = s.r.choice(['rho', 'th', 'molar_mass', 'i_potential', 'atoms', 'atoms', 'atoms'])
            f = s.r.choice([1 + 10.0 ** -s.r.randint(3, 14), 1.05, 2, 0.5])
            if k != 'atoms': b[k] = b[k] * f if b[k] else s.r.choice([1.0, 75.0])
            elif b['atoms']:
                t = s.r.choice(b['atoms']); q = s.r.choice(['A', 'Z', 'stn', 'drop', 'swap'])
                if q == 'drop': b['atoms'].pop()
                elif q == 'swap': b['atoms'].reverse()
                elif q == 'Z': t['Z'] = t['Z'] + s.r.choice([1, -1])
                else: t[q] = t[q] * f
        yield dict(a=a, b=b) if s.r.random() < 0.5 else dict(a=b, b=a)
eqM = C('catima::operator==(Material a, Material b)', name='same_material', ret='B', props=['C01', 'C02'], rel=eqm_rel, custom=eqm_use, sample=eqm_sample)
def eqm(a, b): return eqM.symbol(eqM.args_of_env(Env(dict(a=a, b=b))))
def eqm_facts(a, b):
    """the contract of operator== for materials, with sequences of equal length and elements being equal"""
    r = eqm(a, b)
    return [Implies(r, And(Eq(a.molar_mass, b.molar_mass), Eq(a.i_potential, b.i_potential), Eq(a.atoms.s, b.atoms.s))),
            Implies(And(Eq(a.atoms.s, b.atoms.s), Eq(a.molar_mass, b.molar_mass), Eq(a.i_potential, b.i_potential), Eq(a.rho, b.rho)), r)]
eqD = C('catima::operator==(DataPoint a, DataPoint b)', name='same_entry', search=history, ret='B', reads='a.p a.m a.config b.p b.m b.config', props=['C01', 'C02'], expand=True, native=False,
    post=lambda e: And(eqP(e.a.p, e.b.p), eqm(e.a.m, e.b.m), eqC(e.a.config, e.b.config)))

# ---------------------------------------------------------------- the store
n_slots = ic(SLOTS)
def stride(): return spec_size(DP)
def spec_size(t):
    from .. import spec
    return spec.LAY.size(t)
def offsets(): return {q: (o, k, t) for o, q, k, t in spec_layout(DP)}
def index_leaf(): return next((o, k) for o, q, k, t in spec_layout(DATA) if q == 'index')
def index_off(): return index_leaf()[0]
def index_counts(): return index_leaf()[1] == 'I'       # kept as the number of a slot, not as an iterator
def store_off(): return next(o for o, q, k, t in spec_layout(DATA) if q == 'storage')
def sub(e, p): return RecV(e._ty, e._get, e._pre + p + '.')
def tseq(kind, p, m, c): return app(kind + '_table', key(p, m, c), 'S')
def slot_ok(x):
    """a slot is empty or holds the tables of its key"""
    ks = key(x.p, x.m, x.config)
    return Implies(Gt(x.p.A, 0), And(*[Eq(x.leaf(q), app(q + '_table', ks, 'S')) for q in TABS] + [Eq(x.leaf(q + '_spline'), app('spline_of', (app(q + '_table', ks, 'S'),), 'S')) for q in TABS]))
def wanted(x, e): return And(eqP(x.p, e.p), eqm(x.m, e.t), eqC(x.config, e.c))
def new_slot(e):
    """leaves of the slot filled for a request"""
    d = {}
    for q in ('A', 'Z', 'Q', 'T'): d['p.' + q] = e.p.leaf(q)
    for q in ('rho', 'th', 'molar_mass', 'i_potential', 'atoms'): d['m.' + q] = e.t.leaf(q)
    for q in cfg_leaves(): d['config.' + q] = e.c.leaf(q)
    for q in TABS:
        d[q] = tseq(q, e.p, e.t, e.c); d[q + '_spline'] = app('spline_of', (d[q],), 'S')
    return d
IDX = var('this.index', 'I')
def index_at(E, st, b, k): return k if index_counts() else Ptr(b, iscale(k, stride()), 0, E.gen(st, b))
def data_init(E, st, objs, e):
    """the store: n slots, index at a slot or one past the last"""
    o = objs['this']
    b = E.vec_buf(st, Ptr(o, ic(store_off()))).buf
    st.mem[(o.id, index_off())] = index_at(E, st, b, IDX)
    n = e.this.storage.n
    st.assume(le(I1, n)); st.assume(le(I0, IDX)); st.assume(le(IDX, n))
    if hasattr(e, 'p'): st.assume(Gt(e.p.A, 0))
def slot0(e, j): return e.this.storage[j]
def cases(layers, idx, base):
    """contents of an array cell as (condition, value) alternatives"""
    for n in range(len(layers) - 1, -1, -1):
        x = layers[n]; rest = layers[:n]
        if x[0] in ('st', 'seg'):
            c = eq(x[1], idx) if x[0] == 'st' else and_(le(x[1], idx), lt(idx, x[2]))
            if c is FALSE: continue
            out = [(c, x[2] if x[0] == 'st' else x[3](idx))]
            return out if c is TRUE else out + [(and_(not_(c), d), v) for d, v in cases(rest, idx, base)]
        if x[0] == 'ite':
            return [(and_(x[1], d), v) for d, v in cases(rest + x[2], idx, base)] + [(and_(not_(x[1]), d), v) for d, v in cases(rest + x[3], idx, base)]
        return [(TRUE, x[1](idx, lambda: read_layers(rest, idx, base)))]
    return [(TRUE, base(idx))]
def buf_of(E, st, o):
    v = E.rawread(st, ('p', o, store_off()))
    if not isinstance(v, VecVal) or v.buf is None: raise Unsupported('store %r' % (v,))
    return v.buf
def slot_goals(E, st, b, j, want, text, extra=()):
    """every leaf of slot j has the wanted value; want: leaf -> term, or None where any value is accepted"""
    for q, (o, k, t) in offsets().items():
        w = want(q)
        if w is None: continue
        for cond, v in cases(st.mem.get((b.id, 0, o), ()), j, lambda i: b.init((0, o), i)):
            pc = st.pc + tuple(extra) + ((cond,) if cond is not TRUE else ())
            if isinstance(v, T) and v.op == 'app' and v.data == 'spline_at':
                # built on a vector: that vector has to be the slot's own table
                tab = q[:-len('_spline')]
                own = [(c2, x) for c2, x in cases(st.mem.get((b.id, 0, offsets()[tab][0]), ()), j, lambda i: b.init((0, offsets()[tab][0]), i))]
                for c2, x in own:
                    ok = isinstance(x, VecVal) and x.buf is not None and v.args[1].data == 'heap:%d' % x.buf.id
                    yield '%s: %s is built on the slot\'s own %s table' % (text, q, tab), pc + ((c2,) if c2 is not TRUE else ()), TRUE if ok else FALSE
                v = app('spline_of', (v.args[0],), 'S')
            if isinstance(v, Undef):
                yield '%s: %s is set' % (text, q), pc, FALSE; continue
            if isinstance(v, VecVal): v = E.to_seq(st, v)
            if not isinstance(v, T): raise Unsupported('slot leaf %r' % (v,))
            yield '%s: %s' % (text, q), pc, eq(v, w)
def index_goals(E, st, o, b, want, text):
    def go(p, pc):
        if isinstance(p, PIte):
            yield from go(p.a, pc + (p.c,)); yield from go(p.b, pc + (not_(p.c),)); return
        if index_counts():
            if isinstance(p, T): yield text, pc, eq(p, want)
            else: yield text + ': is set', pc, FALSE
            return
        ok = isinstance(p, Ptr) and p.obj is b and p.gen is not None
        yield text + ': points into the store', pc, eq(E.gen(st, b), p.gen) if ok else FALSE
        if ok: yield text, pc, eq(p.off, iscale(want, stride()))
    yield from go(E.rawread(st, ('p', o, index_off())), st.pc)
def add_goals(E, st, ret, e, objs, sret):
    o = objs['this']; b = buf_of(E, st, o); n = e.this.storage.n
    found = Any(n, lambda j: wanted(slot0(e, j), e))
    at = ite(eq(IDX, n), I0, IDX)
    yield 'the number of slots is unchanged', st.pc, eq(E.blen(st, b), n)
    yield from index_goals(E, st, o, b, ite(found, IDX, iadd(at, I1)), 'index unchanged for a present request, else one past the filled slot')
    j = fresh('slot', 'I')
    inr = (le(I0, j), lt(j, n))
    new = new_slot(e)
    yield from slot_goals(E, st, b, j, lambda q: slot0(e, j).leaf(q), 'a present request changes nothing', inr + (found,))
    yield from slot_goals(E, st, b, j, lambda q: slot0(e, j).leaf(q), 'the other slots are unchanged', inr + (not_(found), not_(eq(j, at))))
    yield from slot_goals(E, st, b, at, lambda q: new[q], 'the next slot is filled for the request', (not_(found),))
    yield from frames(E, st, e, objs)
def frames(E, st, e, objs):
    from .. import spec
    for p in ('p', 't', 'c'):
        for off, q, k, t in spec.LAY.leaves(objs[p].elem or {'p': PRJ, 't': MAT, 'c': CFG}[p]):
            x, x0 = E.rawread(st, ('p', objs[p], off)), objs[p].init(off, None)
            if x is x0 or x == x0 or (isinstance(x, VecVal) and E.to_seq(st, x) is x0.seq): continue
            yield 'frame: %s.%s unchanged' % (p, q), st.pc, FALSE
def add_use(c, E, st, vals, i):
    """contract of Add at call sites"""
    e, ptrs, _ = c.bind(E, st, vals, i)
    o = ptrs['this'].obj
    if o.kind != 'param': raise Unsupported('Add on %r' % o)
    b = buf_of(E, st, o); n = E.blen(st, b)
    ix = E.rawread(st, ('p', o, index_off()))
    if not (isinstance(ix, T) if index_counts() else isinstance(ix, Ptr) and ix.obj is b): raise Unsupported('index %r' % ix)
    for g in TP(e): E.oblige('pre', st, g, 'precondition of Data::Add: valid projectile and material')
    if index_counts():
        k = ix
        E.oblige('pre', st, and_(le(I0, k), le(k, n)), 'precondition of Data::Add')
    else:
        E.oblige('pre', st, and_(le(I0, ix.off), le(ix.off, iscale(n, stride())), eq(ix.gen, E.gen(st, b))), 'precondition of Data::Add')
        k = idiv_floor(ix.off, stride())
    snap = dict(st.mem)
    s0 = St(snap, st.pc)
    def at0(j):
        return RecV(DP, lambda q: (lambda v: E.to_seq(s0, v) if isinstance(v, VecVal) else v)(E.rawread(s0, ('r', b, (0, offsets()[q][0]), j))))
    found = Any(n, lambda j: wanted(at0(j), e))
    sa, sb = st.copy().assume(found), st.copy().assume(not_(found))
    at = ite(eq(k, n), I0, k)
    for q, v in new_slot(e).items():
        off, kd, t = offsets()[q]
        E.rawwrite(sb, ('r', b, (0, off), at), VecVal(vector_elem(t), v) if kd == 'V' else v)
    sb.mem[(o.id, index_off())] = index_at(E, sb, b, iadd(at, I1))
    return [(s, None) for s in (sa, sb) if E.feasible(s, TRUE) and solve_ok(s)]
def solve_ok(s):
    from .. import solve
    return solve.check(list(s.pc), None, 3000) != 'unsat'
Add_ = C('catima::Data::Add(Projectile p, Material t, Config c)', name='Data_Add', search=history, ret='void', props=['C02', 'C01'], init=data_init, goals=add_goals, custom=add_use, native=False, pre=TP)
def get_goals(E, st, ret, e, objs, sret):
    o = objs['this']; b = buf_of(E, st, o); n = e.this.storage.n
    inv = All(n, lambda j: slot_ok(slot0(e, j)))
    def go(p, pc):
        if isinstance(p, PIte):
            yield from go(p.a, pc + (p.c,)); yield from go(p.b, pc + (not_(p.c),)); return
        q = E.split_ite(p)
        if isinstance(q, PIte): yield from go(q, pc); return
        ok = isinstance(p, Ptr) and p.obj is b
        yield 'the returned reference is a slot of the store', pc, and_(le(I0, p.off), lt(p.off, iscale(n, stride())), eq(imod(p.off, stride()), I0)) if ok else FALSE
        if not ok: return
        j = idiv_floor(p.off, stride())
        fs = (inv, slot_ok(slot0(e, j))) + tuple(eqm_facts(slot0(e, j).m, e.t))
        new = new_slot(e)
        want = lambda q: None if q in ('p.T', 'm.rho', 'm.th') else new[q]
        yield from slot_goals(E, St(st.mem, pc, st.regs), b, j, want, 'the returned slot holds the tables of the request', fs)
    yield from go(ret, st.pc)
    # the invariant is kept
    j = fresh('slot', 'I')
    ls = {q: cases(st.mem.get((b.id, 0, off), ()), j, lambda i, off=off: b.init((0, off), i)) for q, (off, k, t) in offsets().items()}
    conds = {c for q in ls for c, v in ls[q]}
    for c in conds:
        d = {}
        for q in ls:
            v = next((v for c2, v in ls[q] if c2 is c), None)
            if v is None: break
            d[q] = E.to_seq(st, v) if isinstance(v, VecVal) else v
        if len(d) < len(ls): raise Unsupported('slots written differently')
        x = RecV(DP, lambda q: d[q])
        yield 'every slot is empty or holds the tables of its key', st.pc + (le(I0, j), lt(j, n), inv, slot_ok(slot0(e, j)), c), slot_ok(x)
    found = Any(n, lambda j: wanted(slot0(e, j), e))
    at = ite(eq(IDX, n), I0, IDX)
    yield 'the number of slots is unchanged', st.pc, eq(E.blen(st, b), n)
    yield from index_goals(E, st, o, b, ite(found, IDX, iadd(at, I1)), 'index unchanged for a present request, else one past the filled slot')
    i = fresh('slot', 'I')
    yield from slot_goals(E, st, b, i, lambda q: slot0(e, i).leaf(q), 'a present request changes nothing', (le(I0, i), lt(i, n), found))
    yield from slot_goals(E, st, b, i, lambda q: slot0(e, i).leaf(q), 'the other slots are unchanged', (le(I0, i), lt(i, n), not_(found), not_(eq(i, at))))
    yield from frames(E, st, e, objs)
def get_entry(c, E, st, vals, i):
    """contract of Data::Get at call sites: a reference to an entry holding the tables of the request's key"""
    e, ptrs, _ = c.bind(E, st, vals, i)
    k = key(e.p, e.t, e.c)
    if not hasattr(E, 'entries'): E.entries = {}
    o = E.entries.get(k)
    if o is None:
        want = {'p.A': e.p.A, 'p.Z': e.p.Z, 'p.Q': e.p.Q, 'm.molar_mass': e.t.molar_mass, 'm.i_potential': e.t.i_potential, 'm.atoms': e.t.atoms.s}
        for q in cfg_leaves(): want['config.' + q] = e.c.leaf(q)
        for q in TABS: want[q] = app(q + '_table', k, 'S'); want[q + '_spline'] = app('spline_of', (want[q],), 'S')
        def mk(path, kind, t, idx):
            if kind == 'V':
                E.vec_paths(vector_elem(t)); return VecVal(vector_elem(t), want[path])
            if path in want: return want[path]
            if kind in ('R', 'I'): return app('entry.' + path, k, kind)
            raise Unsupported('cache entry leaf ' + path)
        o = E.entries[k] = E.shaped('cache entry', DP, mk)
    if not E.quiet:
        for g in TP(e): E.oblige('pre', st, g, 'precondition of Data::Get: valid projectile and material')
    return [(st, Ptr(o))]
Get = C('catima::Data::Get(Projectile p, Material t, Config c)', name='Data_Get', search=history, ret='ref', props=['C01', 'C02'], init=data_init, goals=get_goals, custom=get_entry, native=False, pre=TP)

# ---------------------------------------------------------------- construction
def empty_goals(E, st, ret, e, objs, sret):
    o = objs['this']; b = buf_of(E, st, o)
    yield 'the store has its fixed number of slots', st.pc, eq(E.blen(st, b), n_slots)
    yield from index_goals(E, st, o, b, I0, 'index at the first slot')
    j = fresh('slot', 'I')
    for off, q in ((offsets()['p.A'][0], 'p.A'),):
        for cond, v in cases(st.mem.get((b.id, 0, off), ()), j, lambda i: b.init((0, off), i)):
            yield 'every slot is empty', st.pc + (le(I0, j), lt(j, n_slots), cond), eq(v, ZERO) if isinstance(v, T) else FALSE
Reset = C('catima::Data::Reset()', name='Data_Reset', search=history, ret='void', props=['C02'], init=data_init, goals=empty_goals, native=False, mod=lambda e: {})
Ctor = C('catima::Data::Data()', name='Data_ctor', search=history, ret='void', props=['C02'], goals=empty_goals, native=False, mod=lambda e: {})
GetN = C('catima::Data::GetN()', name='Data_GetN', search=history, ret='I', props=['C02'], reads='this.storage', init=data_init, native=False, post=lambda e: e.this.storage.n)
get_index = C('catima::Data::get_index()', name='Data_get_index', search=history, ret='I', props=['C02'], init=data_init, native=False, goals=lambda E, st, ret, e, objs, sret: [('the number of the slot filled next', st.pc, eq(ret, IDX))], mod=lambda e: {})

# ---------------------------------------------------------------- splines are built on a vector
def build_spline(c, E, st, vals, i):
    this, table, y = vals
    v = E.vec_buf(st, y)
    E.write(st, this, app('spline_at', (E.to_seq(st, v), var('heap:%d' % v.buf.id, 'S')), 'S'))
    return [(st, None)]
Spline = C(CSPL + '::InterpolatorCSpline(EnergyTable<%d> table, vector<double> y)' % MAXE, name='Interpolator_ctor', search=history, ret='void', custom=build_spline, native=False,
    trusted='the interpolating spline through the table (its coefficients are C06)')

# C01 asks of every calculating function that its result is a function of its arguments
for _c in list(ORDER):
    if not isinstance(_c, Contract): continue
    if _c.cls in (DATA, DP) or _c.name.startswith('same_'): _c.full = ('C01',)
    elif (_c.post is not None or _c.rel) and not _c.mod and 'C01' not in _c.props and _c.ret not in ('void', 'ref') and not (_c.cls or '').startswith('integrators'): _c.props += ('C01',)
    elif _c.mod and _c.own is None and not getattr(_c, 'goals', None) and not _c.trusted and _c.ret in ('void', 'ref') and 'C01' not in _c.props: _c.props += ('C01',)
