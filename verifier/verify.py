"""Verification of one function body against its contract."""
import re, time, traceback
from . import spec, prove, solve
from .spec import *
from .exec import Executor, Obl
from .sym import *

class Res:
    """outcome for one contract"""
    def __init__(self, c):
        self.c = c; self.obls = []; self.status = None; self.why = ''; self.secs = 0.0
        self.terms = {}; self.reach = None; self.E = None; self.canary = 0; self.env = None; self.rets = []
    def failed(self): return [o for o in self.obls if not o.ok]

def make_leaf(E, name):
    def mk(path, kind, t, idx):
        n = '%s.%s' % (name, path) if path else name
        if kind in ('R', 'I'): return var(n, kind)
        if kind == 'V':
            E.vec_paths(vector_elem(t)); return VecVal(vector_elem(t), var(n, 'S'))
        if kind == 'O': return var(n, 'S')
        if kind == 'A':
            el, cnt = t
            return app('arr:' + n, (idx,), 'R' if el in ('double', 'float') else 'I')
        raise Unsupported('parameter leaf %s of kind %s' % (n, kind))
    return mk
def setup(E, c, F, alias=None):
    """symbolic arguments; alias maps a parameter name to another one sharing its object"""
    st = St()
    args = []; objs = {}; env = {}
    ir = list(F.f.params)
    sret = None
    if c.ret not in ('R', 'I', 'B', 'void', 'pair', 'ref') and not c.agg_ret():
        if c.ret.startswith('vector<'): sret = E.newobj('result', 'result', 24)
        else: sret = E.newobj('result', 'result', spec.LAY.size(ptype(c.ret)[1]), [r for r in regions_of(ptype(c.ret)[1])], None)
        args.append(Ptr(sret)); ir.pop(0)
    for p, t in c.all_params():
        k, ft = ptype(t) if p != 'this' else ('rec', c.cls)
        ty, nm, attrs = ir.pop(0)
        if alias and p in alias:
            args.append(Ptr(objs[alias[p]])); env[p] = env[alias[p]]; objs[p] = objs[alias[p]]
            continue
        if k == 'scalar':
            s = SCALAR[ft]
            v = var(p, s)
            if ty == ('ptr',):
                o = E.newobj(p, 'param', 8, (), [(0, '', s if s != 'B' else 'I', ft)], lambda key, idx, v=v: v)
                args.append(Ptr(o)); objs[p] = o
            else: args.append(v)
            env[p] = v
            if ft == 'int': st.assume(and_(le(ic(-2 ** 31), v), le(v, ic(2 ** 31 - 1))))
            if ft == 'unsigned char': st.assume(and_(le(I0, v), le(v, ic(255))))
            if ft in ('unsigned long', 'unsigned int', 'size_t'): st.assume(le(I0, v))
        elif k == 'vec':
            E.vec_paths(ft)
            v = VecVal(ft, var(p, 'S'))
            o = E.newobj(p, 'param', 24, (), [(0, '', 'V', 'std::vector<%s>' % ft)], lambda key, idx, v=v: v)
            args.append(Ptr(o)); objs[p] = o; env[p] = SeqV(ft, var(p, 'S'))
        elif k == 'ilist':
            E.vec_paths(ft); ir.pop(0)
            s = var(p, 'S')
            args += [Ptr(E.view(ft, s), I0, 0), sym.seq_len(s)]; env[p] = SeqV(ft, s)
        elif k == 'arr':
            s = SCALAR[ft[0]]; w = spec.LAY.size(ft[0])
            o = E.newobj(p, 'param', w * ft[1], [(0, w * ft[1], w)], None, lambda key, idx, p=p, s=s: app('arr:' + p, (idx,), s))
            args.append(Ptr(o)); objs[p] = o; env[p] = SeqV(ft[0], view('arr:' + p, 0, ft[1]))
        else:
            o = E.shaped(p, ft, make_leaf(E, p)); objs[p] = o
            args.append(Ptr(o))
            def get(path, o=o, p=p, ft=ft):
                for off, q, kind, tt in spec.LAY.leaves(ft):
                    if q == path:
                        if kind == 'A': return view('arr:%s.%s' % (p, q), 0, tt[1])
                        x = o.init(off, None)
                        return x.seq if isinstance(x, VecVal) else x
                raise AttributeError(path)
            env[p] = RecV(ft, get)
            for off, q, kind, tt in spec.LAY.leaves(ft):
                if tt == 'unsigned char': st.assume(and_(le(I0, var('%s.%s' % (p, q), 'I')), le(var('%s.%s' % (p, q), 'I'), ic(255))))
    return st, args, objs, Env(env), sret
def regions_of(ty):
    out = []
    for o, p, k, t in spec.LAY.leaves(ty):
        if k == 'A': out.append((o, o + spec.LAY.size(t[0]) * t[1], spec.LAY.size(t[0])))
    return out

def value_goals(E, st, what, got, want, path=''):
    """obligations that an actual value equals the specified one; yields (name, pc, goal)"""
    if isinstance(want, SeqV): want = want.s
    if isinstance(got, VecVal):
        n = E.vec_len(st, got)
        if isinstance(want, tuple): wn, wf = co(want[0], I0), want[1]
        else:
            wn = seq_len(want)
            el = got.elem
            wf = None
            try:
                s = E.to_seq(st, got)
                if s is want:
                    yield what, st.pc, TRUE; return
            except Unsupported: pass
        yield what + ' length', st.pc, eq(n, wn)
        j = fresh('e', 'I')
        pc = st.pc + (le(I0, j), lt(j, wn))
        s2 = St(st.mem, pc, st.regs)
        buf = got.buf if got.buf is not None else None
        for off, p, k, t in E.elem_leaves(got.elem):
            if k not in 'RIVO': continue
            if buf is None: x = seq_get(got.seq, got.elem, p, k if k in 'RI' else 'S', j)
            else: x = E.rawread(s2, ('r', buf, (0, off), j))
            if wf is not None: w = wf(j) if p == 'v' else wf(j, p)
            else: w = seq_get(want, got.elem, p, k if k in 'RI' else 'S', j)
            yield from value_goals(E, s2, '%s[j]%s' % (what, '' if p == 'v' else '.' + p), x, w if isinstance(w, (T, SeqV, tuple)) else co(w))
        return
    if isinstance(got, T):
        if not isinstance(want, T): want = co(want, got)
        if got.sort == 'I' and want.sort == 'R': want_, got = want, toreal(got); yield what, st.pc, eq(got, want_); return
        if got.sort == 'R' and want.sort == 'I': want = toreal(want)
        if got.sort == 'I' and want.sort == 'B': got = E.asbool(got)
        if got.sort == 'B' and want.sort == 'I': got = ite(got, I1, I0)
        yield what, st.pc, (iff(got, want) if got.sort == 'B' else eq(got, want))
        return
    if isinstance(got, Undef):
        yield what + ' is set', st.pc, FALSE; return
    raise Unsupported('%s is %r' % (what, got))

def ite_leaves(t):
    """(conditions, value) of every branch of a conditional value"""
    if t.op != 'ite': return [((), t)]
    c, a, b = t.args
    return [((c,) + p, v) for p, v in ite_leaves(a)] + [((not_(c),) + p, v) for p, v in ite_leaves(b)]
def post_goals(E, c, st, ret, e, objs, sret):
    post = c.post(e) if c.post else None
    if c.rel:
        for cond, leaf in ite_leaves(ret) if c.hints else [((), ret)]:
            pc = st.pc + cond
            if c.hints: pc = tuple(f for f in pc if f.op != 'forall') + tuple(c.hints(e, leaf))
            for text, g in c.rel(e, leaf): yield text, pc, g
    elif c.ret in ('R', 'I', 'B'):
        yield from value_goals(E, st, 'result', ret, post)
    elif c.ret == 'pair':
        for n, (x, w) in enumerate(zip(ret.f, post)): yield from value_goals(E, st, 'result.' + ('first', 'second')[n], x, w)
    elif c.ret.startswith('vector<'):
        yield from value_goals(E, st, 'result', E.read(st, Ptr(sret)), post)
    elif c.ret not in ('void', 'ref'):
        ty = ptype(c.ret)[1]
        for off, path, kind, t in spec.LAY.leaves(ty):
            if kind not in 'RIVO': continue
            w = post[path] if isinstance(post, dict) else post.leaf(path)
            yield from value_goals(E, st, 'result.' + path, E.read(st, Ptr(sret, ic(off))), w)
    elif c.ret == 'ref' and not c.refto:
        yield 'the returned reference is the object itself', st.pc, TRUE if isinstance(ret, Ptr) and ret.obj is objs['this'] and ret.off is I0 else FALSE
    elif c.ret == 'ref':
        leaf, idx = c.refto(e)
        off = next(o for o, p, k, t in spec.LAY.leaves(c.cls) if p == leaf)
        v = E.rawread(st, ('p', objs['this'], off))
        b = v.buf if isinstance(v, VecVal) and v.buf is not None else None
        ok = isinstance(ret, Ptr) and b is not None and ret.obj is b
        yield 'the returned reference is element %s of %s' % (idx, leaf), st.pc, eq(ret.off, iscale(co(idx, I0), b.regions[0][2])) if ok else FALSE
    yield from frame_goals(E, c, st, e, objs)
def foreign(x, barred=()):
    """a variable that is neither an argument nor one of the inputs everybody shares"""
    return (x.startswith(('@', 'glob:')) and not x.lstrip('@').replace('glob:', '').startswith(READONLY)) or x in barred
def frame_goals(E, c, st, e, objs, pure=False):
    """state changes and frame; pure: of what the contract lets it change only where the new value comes from"""
    def changed(name, x, want):
        if not pure: yield from value_goals(E, st, name, x, want); return
        bad = sorted(v for v in symbols(value_terms(E, st, x) + list(st.pc)) if foreign(v) and v != name)
        yield '%s depends on the arguments only%s' % (name, ' (depends on %s)' % ', '.join(bad) if bad else ''), st.pc, FALSE if bad else TRUE
    mods = dict(c.mod(e)) if c.mod else {}
    done = set(); ctor = re.search(r'\b(\w+)(<[^(]*>)?::\1\(', c.key)
    for p, t in c.all_params():
        o = objs.get(p)
        if o is None or o.id in done: continue
        done.add(o.id)
        byval = False
        for off, path, kind, tt in (o.leaves or ()):
            if kind not in 'RIVO': continue
            name = '%s.%s' % (p, path) if path else p
            x = E.rawread(st, ('p', o, off))
            x0 = o.init(off, None)
            if name in mods: yield from changed(name, x, mods.pop(name)); continue
            if p in c.byvalue: continue
            if x is x0: continue
            if p == 'this' and ctor: continue      # a member the contract does not speak of
            yield from value_goals(E, st, 'frame: %s unchanged' % name, x, x0.seq if isinstance(x0, VecVal) else x0)
    for nm, o in E.gobj.items():
        for k, v in st.mem.items():
            if k[0] != o.id: continue
            if len(k) == 3: yield 'frame: global %s unchanged' % o.name, st.pc, FALSE; continue
            key = '%s+%s' % (o.name, k[1])
            v0 = o.init(k[1], None) if o.init else UNDEF
            if key in mods: yield from changed(key, v, mods.pop(key)); continue
            if v is v0: continue
            yield from value_goals(E, st, 'frame: global %s unchanged' % o.name, v, v0)
    yield from entry_frames(E, st)
    for k in list(mods) if not pure else ():
        if k.startswith('@'):   # not written: must equal the initial value
            o = next((o for o in E.gobj.values() if k.startswith(o.name + '+')), None)
            v0 = var(k, mods[k].sort if isinstance(mods[k], T) else 'R')
            yield from value_goals(E, st, k, v0, mods[k])

READONLY = ('catima::energy_table', 'catima::ls_coefficients::ls_energy_table', 'catima::default_config')   # the last one is an input where no configuration is passed
def symbols(ts, seen=None):
    """free variables and global arrays a term depends on"""
    out = set(); seen = set(); q = list(ts)
    while q:
        t = q.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op == 'v': out.add(t.data)
        if t.op == 'app' and isinstance(t.data, str) and t.data.startswith('glob:'): out.add(t.data)
        if t.op == 'recval': q.extend(t.data[0].init); q.extend(t.data[0].step)
        q.extend(t.args)
    return out
def value_terms(E, st, v):
    if isinstance(v, T): return [v]
    if isinstance(v, VecVal):
        if v.buf is None: return [v.seq]
        j = fresh('e', 'I'); out = [E.vec_len(st, v)]
        for off, p, k, t in E.elem_leaves(v.elem):
            if k in 'RIVO': out += value_terms(E, st, E.rawread(st, ('r', v.buf, (0, off), j)))
        return out
    if isinstance(v, Agg): return [x for f in v.f for x in value_terms(E, st, f)]
    if isinstance(v, PIte): return [v.c] + value_terms(E, st, v.a) + value_terms(E, st, v.b)
    return []
def pure_goals(E, c, st, ret, e, objs, sret):
    """the result is a function of the arguments: no other variable occurs in it or in the path condition.
    Density, thickness (and energy where the contract says so) may occur only if the contract lists them."""
    if sret is None: outs = [('result', ret)]
    elif c.ret.startswith('vector<'): outs = [('result', E.read(st, Ptr(sret)))]
    else: outs = [('result.' + path, E.read(st, Ptr(sret, ic(off)))) for off, path, kind, t in spec.LAY.leaves(ptype(c.ret)[1]) if kind in 'RIV']
    reads = {'%s.%s' % (p, q) if q else p for p, q, s in c.reads()}
    barred = {'%s.%s' % (p, q) for p, t in c.all_params() for q in ('rho', 'th') if p + '.' + q not in reads}
    for n, v in outs:
        if c.nokey and n[7:] in c.nokey: bar = barred | {'%s.%s' % (p, q) for p, t in c.all_params() for q in ('rho', 'th', 'T')}
        elif c.nokey: bar = set()
        else: bar = barred
        bad = sorted(x for x in symbols(value_terms(E, st, v) + list(st.pc)) if foreign(x, bar))
        yield '%s depends on the arguments only%s' % (n, ' (depends on %s)' % ', '.join(bad) if bad else ''), st.pc, FALSE if bad else TRUE
    yield from frame_goals(E, c, st, e, objs, True)
def entry_frames(E, st):
    """cache entries handed out by Data::Get are not written"""
    ids = {o.id for o in getattr(E, 'entries', {}).values()}
    for k, v in st.mem.items():
        if k[0] in ids:
            o = E.objs[k[0]]
            if isinstance(v, VecVal) and len(k) == 2 and v.buf is not None and v.buf.tag is o.init(k[1], None).seq and not any(q[0] == v.buf.id and len(q) == 3 and x for q, x in st.mem.items()): continue
            if len(k) == 2 and v is o.init(k[1], None): continue
            yield 'frame: cache entry unchanged', st.pc, FALSE
def verify(prog, c, contracts, secs=60, alias=None, nan=False, pure=False):
    r = Res(c); t0 = time.time()
    fname = prog.find(c.key)
    if fname is None and c.cfun and c.qual in prog.mod.funcs: fname = c.qual
    if fname is None:
        r.status, r.why = 'absent', 'function %s not found' % c.key; return r
    try:
        cs = {k: v for k, v in contracts.items() if v is not c and (v.post is not None or v.trusted or v.custom or v.mod or v.rel)}
        E = Executor(prog, cs); E.nan_mode = nan or c.nanmode
        if c.own is not None: E.contracts = c.own
        if c.anyfp: E.nan_mode = E.anyfp = True
        F = prog.func(fname)
        st, args, objs, e, sret = (c.setup or setup)(E, c, F, alias)
        c.byvalue = {nm for (ty, nm, at), (nm, t) in zip(F.f.params[len(F.f.params) - len(c.params):], c.params) if 'byval' in at} if False else byval_params(F, c)
        if c.pre:
            for g in as_list(c.pre(e)): st.assume(g)
        if c.init_extra: c.init_extra(E, st, objs, e)
        r.E = E
        r.pc0 = st.pc
        rets = E.call_function(fname, args, st)
        for o in E.obls: o.ok = None; r.obls.append(o)
        r.env = e
        for s, v in rets:
            gs = pure_goals if pure else None
            for name, pc, g in (gs(E, c, s, v, e, objs, sret) if gs else c.goals(E, s, v, e, objs, sret) if getattr(c, 'goals', None) else post_goals(E, c, s, v, e, objs, sret)):
                o = Obl('frame' if name.startswith('frame') else 'post', pc, g, c.key, name); o.ok = None
                r.obls.append(o)
        r.rets = rets
        # vacuity: some return must be reachable, and a false assertion there must not be provable
        r.reach = sum(1 for s, v in rets if solve.check(list(s.pc), None, 2000) != 'unsat')
        for o in r.obls:
            o.t0 = time.time(); before = dict(solve.STATS)
            bud = prove.Budget(secs)
            o.ok = prove.prove_bool(o.pc, prove.range_simp(o.goal), bud)
            o.secs = time.time() - o.t0
            o.timeout = not o.ok and bud.out(); o.leaf = None if o.ok else bud.leaf
            o.by = [n for n, k in (('z3', 'z3_unsat'), ('normaliser', 'nf_true')) if solve.STATS[k] > before[k]] or ['structural']
        r.status = 'proved' if all(o.ok for o in r.obls) else 'open'
        if not rets or r.reach == 0: r.status, r.why = 'unsupported', 'no reachable return'
        else: r.canary = canary(r, rets)
    except Vacuous as x:
        r.status, r.why = 'vacuous', str(x)
    except Unsupported as x:
        r.status, r.why = 'unsupported', str(x)
    except RecursionError:
        r.status, r.why = 'unsupported', 'recursion limit'
    except (KeyError, AttributeError, AssertionError, TypeError, ValueError, IndexError) as x:
        r.status, r.why = 'unsupported', 'internal: %s' % ''.join(traceback.format_exception(x))[-1500:]
    r.secs = time.time() - t0
    return r
def canary(r, rets):
    """an assertion that must fail: on some reachable path a wrong result must not be provable.
    Returns the number of wrong assertions rejected, or raises if one is accepted."""
    n = 0
    for o in r.obls:
        if o.kind != 'post' or not o.ok: continue
        if solve.check(list(o.pc), None, 1000) == 'unsat': continue
        g = o.goal
        if g.op == 'eq' and g.args[0].sort == 'R': w = eq(g.args[0], radd(g.args[1], ONE))
        elif g.op == 'eq' and g.args[0].sort == 'I': w = eq(g.args[0], iadd(g.args[1], I1))
        else: w = FALSE
        if prove.prove(o.pc, w, 2): raise Vacuous('%s: a wrong result is provable (%s)' % (r.c.name, o.text))
        n += 1
        if n >= 2: break
    return n
class Vacuous(Exception): pass
def byval_params(F, c):
    """parameters passed by value (their object is a private copy of the callee)"""
    ps = [nm for nm, t in c.all_params()]
    ir = F.f.params[len(F.f.params) - len(ps):]
    out = set()
    sig = F_argtypes(F)
    for (ty, nm, at), p in zip(ir, ps):
        if 'byval' in at: out.add(p)
    for p, t in zip(c.params, sig or []):
        if not t.endswith(('&', '*')): out.add(p[0])
    return out
DEM = {}
def F_argtypes(F):
    from .prog import split_sig, split_args
    d = DEM.get(F.name)
    if d is None: return None
    q, a = split_sig(d)
    return split_args(a or '')
