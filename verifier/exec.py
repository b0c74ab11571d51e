"""Symbolic execution of the IR of one function; callees under contract are replaced by their
contracts, all other callees are executed.  Produces the value and memory effect of the function
for all inputs together with the safety obligations met on the way."""
import re, math
from .sym import *
from .terms import *
from . import solve
from .prog import Program, norm_sig, split_sig
from .layout import vector_elem, clean

class Obl:
    """proof obligation: pc |- goal"""
    def __init__(self, kind, pc, goal, where, text):
        self.kind, self.pc, self.goal, self.where, self.text = kind, tuple(pc), goal, where, text
    def __repr__(self): return '%s: %s in %s' % (self.kind, self.text, self.where)

UNROLL, UNROLL_SYM = 140, 16

def struct_delta(N, g, comb):
    """N = g (+) delta structurally; comb is 'radd' or 'rmul'"""
    unit = ZERO if comb == 'radd' else ONE
    if N is g: return unit
    if N.op == comb:
        hits = [a for a in N.args if mentions(a, [g])]
        if len(hits) == 1:
            d = struct_delta(hits[0], g, comb)
            if d is None: return None
            rest = [a for a in N.args if a is not hits[0]]
            f = radd if comb == 'radd' else rmul
            return f(*rest, d)
        return None
    if N.op == 'ite' and not mentions(N.args[0], [g]):
        a, b = struct_delta(N.args[1], g, comb), struct_delta(N.args[2], g, comb)
        if a is None or b is None: return None
        return ite(N.args[0], a, b)
    if comb == 'rmul' and N.op == 'rdiv' and not mentions(N.args[1], [g]):
        a = struct_delta(N.args[0], g, comb)
        return None if a is None else rdiv(a, N.args[1])
    return None

GOLDEN = {}     # reference contents of tables, by name (see golden.py)
GOLDEN_BY = {}
def table_name(dn, table):
    """symbol of a table: the reference name if the contents agree with it, otherwise a symbol of its own"""
    k = tuple(table)
    g = GOLDEN.get(dn)
    if g is not None and g == k: pass
    elif k in GOLDEN_BY: dn = GOLDEN_BY[k]
    elif g is not None: dn = dn + '#current'
    tm.TABLES.setdefault(dn, list(k))
    return dn

class Executor:
    def __init__(self, prog, contracts=None):
        self.P = prog; self.M = prog.mod; self.TY = prog.mod.types; self.lay = prog.lay
        self.contracts = contracts or {}
        self.obls = []; self.quiet = 0; self.active = []
        self.gobj = {}; self.objs = {}; self.views = {}; self.bufs = {}
        self.inlining = []
        self.stack = []
        self.used_contracts = set(); self.used_models = set(); self.inlined = set(); self.tables = set()
        self.nan_mode = False
        self.anyfp = False; self.in_loop = 0     # anyfp: results of floating-point operations are arbitrary
        self.steps = 0; self.max_steps = 2000000
        self.loop_count = 0; self.unrolled = 0; self.evals = []
        from . import models
        self.models = models

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, st, goal, text):
        if self.quiet or goal is TRUE: 
            if goal is TRUE and not self.quiet: self.trivial = getattr(self, 'trivial', 0) + 1
            return
        self.obls.append(Obl(kind, st.pc, goal, self.stack[-1] if self.stack else '?', text))

    # ------------------------------------------------------------ objects
    def newobj(self, *a, **k):
        o = Obj(*a, **k); self.objs[o.id] = o
        return o
    def type_regions(self, t, base=0, flat=True):
        """array members: (start, end, stride); arrays of uniform scalars are flattened"""
        t = self.TY.resolve(t)
        if t[0] == 'arr':
            n = self.TY.size(t)
            sc = self.uniform(t)
            if sc: return [(base, base + n, sc)] if n else []
            return [(base, base + n, self.TY.size(t[2]))] if n else []
        if t[0] == 'struct':
            u = self.uniform(t)
            if flat and u and len(t[1]) > 1 and any(self.TY.resolve(f)[0] in ('arr', 'struct') for f in t[1]) and self.TY.size(t) > 256:
                return [(base, base + self.TY.size(t), u)]
            out = []
            for i, f in enumerate(t[1]): out += self.type_regions(f, base + self.TY.field_offset(t, i), flat)
            return out
        return []
    def uniform(self, t):
        """size of the scalar if the type is made only of one scalar type without padding"""
        t = self.TY.resolve(t)
        if t[0] in ('f64', 'f32', 'i'): return self.TY.size(t)
        if t[0] == 'arr': return self.uniform(t[2]) if t[1] else None
        if t[0] == 'struct':
            us = {self.uniform(f) for f in t[1]}
            if len(us) == 1 and None not in us and len({self.scalar_of(f)[0] for f in t[1]}) == 1:
                u = us.pop()
                if self.TY.size(t) % u == 0 and all(self.TY.field_offset(t, i) % u == 0 for i in range(len(t[1]))) and sum(self.TY.size(f) for f in t[1]) == self.TY.size(t): return u
        return None
    def global_obj(self, name):
        o = self.gobj.get(name)
        if o is not None: return o
        const, t, v = self.M.global_init(name)
        dn = self.P.dem.get(name, name)
        size = self.TY.size(t)
        regs = self.type_regions(t)
        o = self.newobj('@' + dn, 'global', size, regs, ro=const)
        self.gobj[name] = o
        flat = {}
        table = None
        if v is not None and v != ('zero',) and regs and len(regs) == 1 and regs[0] == (0, size, self.uniform(t)):
            table = self.flat_table(t, v)
        if table is not None:
            o.kind = 'table'; o.tag = (dn, table)
            self.P.tables = getattr(self.P, 'tables', {}); self.P.tables[dn] = table
            dn = table_name(dn, table)
            ty = 'R' if self.scalar_of(t)[0] in ('f64', 'f32') else 'I'
            def init(key, idx, dn=dn, table=table, ty=ty):
                if isc(idx) and 0 <= idx.data < len(table): return rc(table[idx.data]) if ty == 'R' else ic(table[idx.data])
                self.tables.add(dn)
                return app('tab:' + dn, (idx,), ty)
            o.init = init
            return o
        if const and v is not None:
            vals = {}
            self.flat_init(t, v, 0, vals)
            def init(key, idx, vals=vals, stride={r[0]: r[2] for r in regs}):
                if isinstance(key, tuple):
                    if isc(idx): off = key[0] + stride[key[0]] * idx.data + key[1]
                    else: raise Unsupported('symbolic index into constant aggregate')
                else: off = key
                if off not in vals: raise Unsupported('constant offset')
                return vals[off]
            o.init = init
            return o
        scal = {off: ty for off, ty in self.TY.flatten(t)}
        def init(key, idx, dn=dn):
            if isinstance(key, tuple):
                return app('glob:%s+%d' % (dn, key[0] + key[1]), (idx,), 'R')
            ty = scal.get(key)
            if ty is None: raise Unsupported('global %s offset %s' % (dn, key))
            if ty[0] == 'ptr': raise Unsupported('pointer in global ' + dn)
            return var('@%s+%d' % (dn, key), 'R' if ty[0] in ('f64', 'f32') else 'I')
        o.init = init
        return o
    def scalar_of(self, t):
        t = self.TY.resolve(t)
        while t[0] in ('arr', 'struct'): t = self.TY.resolve(t[2] if t[0] == 'arr' else t[1][0])
        return t
    def flat_table(self, t, v):
        out = []
        def go(t, v):
            t = self.TY.resolve(t)
            if v[0] == 'zero':
                out.extend([Fraction(0)] * (self.TY.size(t) // self.uniform(t))); return
            if t[0] == 'arr':
                if v[0] == 'bytes': out.extend(v[1]); return
                for et, ev in v[1]: go(et, ev)
            elif t[0] == 'struct':
                for et, ev in v[1]: go(et, ev)
            else:
                if v[0] in ('f', 'i'): out.append(v[1])
                else: raise Unsupported('table')
        try: go(t, v)
        except Unsupported: return None
        return out
    def flat_init(self, t, v, off, out):
        t = self.TY.resolve(t)
        if v[0] == 'zero':
            for o, s in self.TY.flatten(t, 0, 10000):
                out[off + o] = ZERO if s[0] in ('f64', 'f32') else (NULL if s[0] == 'ptr' else I0)
            return
        if t[0] == 'arr':
            s = self.TY.size(t[2])
            if v[0] == 'bytes':
                for i, b in enumerate(v[1]): out[off + i] = ic(b)
                return
            for i, (et, ev) in enumerate(v[1]): self.flat_init(et, ev, off + i * s, out)
        elif t[0] == 'struct':
            for i, (et, ev) in enumerate(v[1]): self.flat_init(et, ev, off + self.TY.field_offset(t, i), out)
        else: out[off] = self.const(t, v)
    def const(self, t, v):
        k = v[0]
        if k == 'i':
            if t == ('i', 1): return bc(v[1] & 1)
            return ic(v[1])
        if k == 'f': return rc(v[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero': return self.zero(t)
        if k == 'glb':
            n = v[1]
            if self.P.has(n) or n in self.M.decls: return FnPtr(self.P.resolve(n))
            return Ptr(self.global_obj(n))
        if k == 'agg': return Agg(self.const(et, ev) for et, ev in v[1])
        if k == 'gep': return self.gep(v[1], self.const(v[2][0], v[2][1]), [self.const(a, b) for a, b in v[3]])
        raise Unsupported('constant %r' % (v,))
    def zero(self, t):
        t = self.TY.resolve(t)
        if t[0] in ('f64', 'f32', 'f80'): return ZERO
        if t == ('i', 1): return FALSE
        if t[0] == 'i': return I0
        if t[0] == 'ptr': return NULL
        if t[0] == 'struct': return Agg(self.zero(f) for f in t[1])
        if t[0] == 'arr': return Agg(self.zero(t[2]) for _ in range(t[1]))
        raise Unsupported('zero of %r' % (t,))

    # ------------------------------------------------------------ addresses
    def gep(self, bt, base, idxs):
        if isinstance(base, PIte): return PIte(base.c, self.gep(bt, base.a, idxs), self.gep(bt, base.b, idxs))
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        off = base.off
        t = bt
        hint = base.hint
        if isc(base.off):
            r = base.obj.region_at(base.off.data)
            hint = r[0] if r else None
        cur = off
        for n, i in enumerate(idxs):
            if not isinstance(i, T): raise Unsupported('gep index %r' % (i,))
            if i.sort == 'B': i = ite(i, I1, I0)
            if n == 0:
                cur = iadd(cur, iscale(i, self.TY.size(t)))
            else:
                t = self.TY.resolve(t)
                if t[0] == 'struct':
                    cur = iadd(cur, ic(self.TY.field_offset(t, i.data))); t = t[1][i.data]
                    if isc(cur):
                        r = base.obj.region_at(cur.data)
                        hint = r[0] if r else None
                elif t[0] == 'arr':
                    if isc(cur):
                        r = base.obj.region_at(cur.data)
                        if r: hint = r[0]
                    t = t[2]; cur = iadd(cur, iscale(i, self.TY.size(t)))
                else: raise Unsupported('gep into %r' % (t,))
        if isc(cur):
            r = base.obj.region_at(cur.data)
            if r is not None and (hint is None or isc(base.off)): 
                if not (hint is not None and base.obj.region_start(hint) and cur.data == (base.obj.region_start(hint)[1] or -1)): hint = r[0]
        return Ptr(base.obj, cur, hint, base.gen)
    def addp(self, p, n):
        if isinstance(p, PIte): return PIte(p.c, self.addp(p.a, n), self.addp(p.b, n))
        return Ptr(p.obj, iadd(p.off, n if isinstance(n, T) else ic(n)), p.hint, p.gen)
    def loc(self, st, p, size, text='access'):
        """resolve to ('p', obj, off) or ('r', obj, key, idx) with key=(start, inner); emits bounds obligations"""
        if isinstance(p, Null):
            self.oblige('null', st, FALSE, 'null dereference'); raise Unsupported('null dereference')
        if not isinstance(p, Ptr): raise Unsupported('address %r' % (p,))
        o = p.obj
        if p.gen is not None:
            g = st.mem.get((o.id, '#gen'), I0)
            c = eq(g, p.gen)
            if c is not TRUE: self.oblige('iterator', st, c, 'iterator of %s used after the container changed' % o.name)
        r = None
        if o.regions:
            if isc(p.off):
                r = o.region_at(p.off.data)
                if r is None and p.hint is not None: r = o.region_start(p.hint)
            if r is None and p.hint is not None: r = o.region_start(p.hint)
            if r is None and not isc(p.off):
                if len(o.regions) == 1: r = o.regions[0]
                else:
                    r = o.region_at(tm._lin(p.off)[0])
            if r is None and not isc(p.off): raise Unsupported('address %r' % (p,))
        if r is None:
            if not isc(p.off): raise Unsupported('symbolic offset into %s' % o.name)
            if o.size is not None and not (0 <= p.off.data and p.off.data + size <= o.size):
                self.oblige('bounds', st, FALSE, 'access outside %s' % o.name)
                raise Unsupported('constant offset outside object')
            return ('p', o, p.off.data)
        d = isub(p.off, ic(r[0]))
        c, m = tm._lin(d)
        if all(v % r[2] == 0 for v in m.values()):
            inner = c % r[2]
            idx = idiv_floor(isub(d, ic(inner)), r[2])
        elif o.kind == 'buf' and by_stride(d, r[2]) is not None: idx, inner = by_stride(d, r[2])
        elif p.off.op == 'ite':
            raise Unsupported('ite address')
        else: raise Unsupported('offset %r not a multiple of the stride %d in %s' % (p.off, r[2], o.name))
        n = self.count(st, o, r)
        if n is not None:
            g = and_(le(I0, idx), lt(idx, n))
            if g is not TRUE: self.oblige('bounds', st, g, 'index %s within %s' % (idx, o.name))
        return ('r', o, (r[0], inner), idx)
    def count(self, st, o, r):
        if o.kind == 'buf': return self.blen(st, o)
        if r[1] is not None: return ic((r[1] - r[0]) // r[2])
        return None
    def split_ite(self, p):
        """address with ite offset -> PIte"""
        if isinstance(p, Ptr) and p.off.op in ('ite', 'lin') and p.obj.regions:
            if p.obj.kind == 'buf' and by_stride(p.off, p.obj.regions[0][2]) is not None: return p      # one element with a conditional number
            x = p.off if p.off.op == 'ite' else next((x for x, v in tm._lin(p.off)[1].items() if x.op == 'ite' and v % p.obj.regions[0][2]), None)
            if x is not None:
                a, b = (iadd(isub(p.off, iscale(x, tm._lin(p.off)[1][x])), iscale(y, tm._lin(p.off)[1][x])) for y in x.args[1:])
                return PIte(x.args[0], self.split_ite(Ptr(p.obj, a, p.hint, p.gen)), self.split_ite(Ptr(p.obj, b, p.hint, p.gen)))
        return p
    def rawread(self, st, l):
        if l[0] == 'p':
            v = st.mem.get((l[1].id, l[2]))
            if v is None:
                if l[1].init is None: return UNDEF
                v = l[1].init(l[2], None)
            return v
        o, key, idx = l[1], l[2], l[3]
        ls = st.mem.get((o.id,) + key, ())
        def base(i):
            if o.init is None: return UNDEF
            return o.init(key, i)
        return read_layers(ls, idx, base)
    def read(self, st, p, size=1, text=''):
        if isinstance(p, PIte):
            sa = St(st.mem, st.pc, st.regs).assume(p.c); sb = St(st.mem, st.pc, st.regs).assume(not_(p.c))
            return merge_val(p.c, self.read(sa, p.a, size), self.read(sb, p.b, size))
        q = self.split_ite(p)
        if isinstance(q, PIte): return self.read(st, q, size)
        return self.rawread(st, self.loc(st, p, size, text))
    def rawwrite(self, st, l, v):
        if l[1].ro or l[1].kind == 'table':
            self.oblige('frame', st, FALSE, 'write to constant %s' % l[1].name)
            if l[1].kind == 'table': raise Unsupported('write to table')
        if l[0] == 'p': st.mem[(l[1].id, l[2])] = v
        else:
            k = (l[1].id,) + l[2]
            ls = st.mem.get(k, ())
            if ls and ls[-1][0] == 'st' and ls[-1][1] is l[3]: ls = ls[:-1]
            st.mem[k] = ls + (('st', l[3], v),)
    def write(self, st, p, v, size=1):
        if isinstance(p, PIte):
            old_a = old_b = None
            sa = St(st.mem, st.pc, st.regs).assume(p.c); sb = St(st.mem, st.pc, st.regs).assume(not_(p.c))
            old_a = self.read(sa, p.a, size); self.write(st, p.a, merge_val(p.c, v, old_a), size)
            old_b = self.read(sb, p.b, size); self.write(st, p.b, merge_val(p.c, old_b, v), size)
            return
        q = self.split_ite(p)
        if isinstance(q, PIte): return self.write(st, q, v, size)
        self.rawwrite(st, self.loc(st, p, size), v)
    def load(self, st, t, p):
        t = self.TY.resolve(t)
        if t[0] in ('struct', 'arr'):
            fs = [(self.TY.field_offset(t, i), f) for i, f in enumerate(t[1])] if t[0] == 'struct' else [(i * self.TY.size(t[2]), t[2]) for i in range(t[1])]
            return Agg(self.load(st, f, self.addp(p, o)) for o, f in fs)
        n = self.TY.size(t)
        if t == ('i', 64) and isinstance(p, Ptr) and isc(p.off):
            offs = sorted(k[1] - p.off.data for k in st.mem if k[0] == p.obj.id and isinstance(k[1], int) and len(k) == 2 and p.off.data <= k[1] < p.off.data + 8)
            if len(offs) > 1: return Pack([st.mem[(p.obj.id, p.off.data + o)] for o in offs], offs)
        if t == ('f64',) and isinstance(p, Ptr) and isc(p.off):
            pass
        v = self.read(st, p, n)
        if isinstance(v, Undef):
            if t[0] == 'ptr' or self.quiet: return UNDEF
            return UNDEF
        if isinstance(v, T):
            if t == ('i', 1) and v.sort == 'I': v = eq(imod(v, 2), I1)
            if t[0] == 'i' and t[1] > 1 and v.sort == 'B': v = ite(v, I1, I0)
            want = 'R' if t[0] in ('f64', 'f32', 'f80') else 'B' if t == ('i', 1) else 'I'
            if t[0] != 'ptr' and v.sort != want and v.sort != 'S': raise Unsupported('type punning load %r of %s' % (t, v))
        return v
    def store(self, st, t, v, p):
        t = self.TY.resolve(t)
        if isinstance(v, Pack):
            for o, x in zip(v.offs, v.f): self.write(st, self.addp(p, o), x)
            return
        if t[0] in ('struct', 'arr') and isinstance(v, Agg):
            fs = [(self.TY.field_offset(t, i), f) for i, f in enumerate(t[1])] if t[0] == 'struct' else [(i * self.TY.size(t[2]), t[2]) for i in range(t[1])]
            for (o, f), x in zip(fs, v.f): self.store(st, f, x, self.addp(p, o))
            return
        if isinstance(v, T) and v.sort == 'B': v = ite(v, I1, I0)
        if t == ('i', 8) and isinstance(v, T) and isc(v) and v.data < 0: v = ic(v.data + 256)    # options are unsigned
        self.write(st, p, v, self.TY.size(t))
    def memcpy(self, st, dst, src, n):
        if isinstance(src, PIte):
            s2 = st.copy(); self.memcpy(s2, dst, src.b, n)
            self.memcpy(st, dst, src.a, n)
            m = self.merge2(st, s2, src.c, not_(src.c), ())
            st.mem = m.mem
            return
        if not isc(n): raise Unsupported('memcpy size')
        n = n.data
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr): raise Unsupported('memcpy')
        if n == 0: return
        so, do = src.obj, dst.obj
        # objects whose inside is not looked at (splines)
        if do.elem and do.kind == 'buf':
            for o, q, k, t in self.lay.leaves(do.elem):
                if k == 'O' and n == self.lay.size(t) and eq(imod(isub(dst.off, ic(o)), do.regions[0][2]), I0) is TRUE:
                    v = st.mem.get((so.id, src.off.data)) if isc(src.off) else self.read(st, src)
                    self.write(st, dst, v if isinstance(v, T) and v.sort == 'S' else UNDEF)
                    return
        # whole-array copies
        if so.regions and isc(src.off):
            rs = [r for r in so.regions if r[1] is not None and src.off.data <= r[0] and r[1] <= src.off.data + n]
        else: rs = []
        if rs and isc(dst.off):
            delta = dst.off.data - src.off.data
            for r in rs:
                dr = do.region_at(r[0] + delta)
                if dr is None or dr[2] != r[2]: raise Unsupported('memcpy array layout')
                inn = {k[2] for k in st.mem if len(k) == 3 and k[0] == so.id and k[1] == r[0]} | {0}
                for inner in inn:
                    ls = st.mem.get((so.id, r[0], inner), ())
                    cnt = (r[1] - r[0]) // r[2]; shift = (r[0] + delta - dr[0]) // r[2]
                    def f(i, ls=ls, key=(r[0], inner), sh=shift):
                        return read_layers(ls, isub(i, ic(sh)), lambda j: so.init(key, j) if so.init else UNDEF)
                    k = (do.id, dr[0], inner)
                    st.mem[k] = st.mem.get(k, ()) + (('seg', ic(shift), ic(shift + cnt), f),)
        offs = set()
        inreg = lambda o: any(r[0] <= o < r[1] for r in rs)
        def inelem(r):
            """leaves of the elements of an array inside the copied range, which may start within an element"""
            b = imod(isub(src.off, ic(r[0])), r[2])
            b = b.data if isc(b) else 0
            return {k * r[2] + o - b for k in range((b + n - 1) // r[2] + 1) for o, *_ in self.lay.leaves(so.elem) if b <= k * r[2] + o < b + n}
        if isc(src.off):
            b = src.off.data
            if not so.leaves and not so.regions and so.kind == 'global' and so.init is not None:
                g = next((k for k, v in self.gobj.items() if v is so), None)
                if g is not None: offs |= {o - b for o, _ in self.TY.flatten(self.M.global_init(g)[1]) if b <= o < b + n}
            if so.leaves: offs |= {o - b for o, *_ in so.leaves if b <= o < b + n and not inreg(o)}
            offs |= {k[1] - b for k in st.mem if len(k) == 2 and k[0] == so.id and isinstance(k[1], int) and b <= k[1] < b + n}
            if so.regions and not rs:
                for r in so.regions:
                    if r[0] <= b and (r[1] is None or b < r[1]):
                        if so.leaves is None or not any(r[0] <= o for o, *_ in so.leaves): offs |= set(range(0, n, min(r[2], 8) if r[2] % 8 == 0 or r[2] in (1, 2, 4) else r[2])) if so.elem is None else set()
                        if so.elem: offs |= inelem(r)
        else:
            if so.elem: offs |= inelem(so.regions[0]) if so.regions else {o for o, *_ in self.lay.leaves(so.elem) if o < n}
            elif so.regions: offs |= set(range(0, n, so.regions[0][2]))
        if not offs and not rs:
            if so.kind == 'global' and so.init is not None: offs = {o for o, _ in self.TY.flatten(self.M.global_init(next(k for k, v in self.gobj.items() if v is so))[1]) if o < n}
            elif so.init is None: return     # copying an uninitialised object
            else: raise Unsupported('memcpy of %r' % (src,))
        for o in sorted(offs):
            v = self.read(st, self.addp(src, o), 1)
            if isinstance(v, Undef): 
                continue
            self.write(st, self.addp(dst, o), v, 1)

    # ------------------------------------------------------------ vectors
    def vec_paths(self, elem):
        r = PATHS.get(elem)
        if r is None:
            out = []
            for off, path, kind, ty in self.lay.leaves(elem):
                if kind in ('R', 'I'): out.append((path or 'v', kind))
                elif kind in ('V', 'O', 'P'): out.append((path or 'v', 'S'))
            r = PATHS[elem] = out
        return r
    def elem_leaves(self, elem):
        return [(o, p or 'v', k, t) for o, p, k, t in self.lay.leaves(elem)]
    def make_buf(self, st, elem, seq, length, name='vec'):
        stride = self.lay.size(elem)
        leaves = {o: (p, k, t) for o, p, k, t in self.elem_leaves(elem)}
        self.vec_paths(elem)
        def init(key, idx):
            if key[1] not in leaves: raise Unsupported('offset %d in %s' % (key[1], elem))
            p, k, t = leaves[key[1]]
            if seq is None: return UNDEF
            if k in ('R', 'I'): return seq_get(seq, elem, p, k, idx)
            v = seq_get(seq, elem, p, 'S', idx)
            if k == 'V': return VecVal(vector_elem(t), v)
            return v
        b = self.newobj(name, 'buf', None, [(0, None, stride)], None, init, elem, seq)
        st.mem[(b.id, '#len')] = length
        st.mem[(b.id, '#gen')] = I0
        return b
    def view(self, elem, seq):
        """read-only buffer showing a sequence value"""
        v = self.views.get((elem, seq))
        if v is None:
            s = St(); v = self.make_buf(s, elem, seq, seq_len(seq), 'view:%s' % elem.split('::')[-1]); v.ro = True
            self.views[(elem, seq)] = v
        return v
    def blen(self, st, b):
        n = st.mem.get((b.id, '#len'))
        return seq_len(b.tag) if n is None else n
    def gen(self, st, b): return st.mem.get((b.id, '#gen'), I0)
    def bump(self, st, b): st.mem[(b.id, '#gen')] = iadd(self.gen(st, b), I1)
    def getvec(self, st, p):
        v = self.read(st, p)
        if not isinstance(v, VecVal): raise Unsupported('vector at %r is %r' % (p, v))
        return v
    def vec_buf(self, st, p):
        v = self.getvec(st, p)
        if v.buf is None:
            if isinstance(p, PIte): raise Unsupported('vector behind conditional pointer')
            # the same vector materialised on two paths gets the same buffer object, so that the paths can be merged
            ck = (p.obj.id, p.off, v.elem, v.seq)
            b = self.bufs.get(ck)
            if b is None or any(x[0] == b.id for x in st.mem):
                b = self.make_buf(st, v.elem, v.seq, seq_len(v.seq), 'vec:%s' % p.obj.name)
                self.bufs.setdefault(ck, b)
            else: st.mem[(b.id, '#len')] = seq_len(v.seq); st.mem[(b.id, '#gen')] = I0
            v = VecVal(v.elem, None, b)
            self.write(st, p, v)
        return v
    def vec_len(self, st, v):
        return seq_len(v.seq) if v.buf is None else self.blen(st, v.buf)
    def to_seq(self, st, v):
        if v.buf is None: return v.seq
        b = v.buf; n = self.blen(st, b); s0 = b.tag
        cells = {k: x for k, x in st.mem.items() if k[0] == b.id and len(k) == 3}
        if not any(cells.values()) and s0 is not None and n is seq_len(s0): return s0
        ps = self.elem_leaves(v.elem)
        self.vec_paths(v.elem)
        def elem_terms(i):
            out = []
            for o, p, k, t in ps:
                x = self.rawread(st, ('r', b, (0, o), i))
                if isinstance(x, VecVal): x = self.to_seq(st, x)
                if not isinstance(x, T): raise Unsupported('sequence of %r' % (x,))
                out.append(x)
            return out
        if isc(n) and n.data <= 64:
            args = [n]
            for i in range(n.data): args += elem_terms(ic(i))
            return app('lit', args, 'S')
        if s0 is not None:
            d = isub(n, seq_len(s0))
            ok = isc(d) and 0 <= d.data <= 64 and all(e[0] == 'st' and isc(isub(e[1], seq_len(s0))) and 0 <= isub(e[1], seq_len(s0)).data < d.data for x in cells.values() for e in x)
            if ok:
                s = s0
                for i in range(d.data): s = push(s, elem_terms(iadd(seq_len(s0), ic(i))))
                return s
        return tm.tabulate(v.elem, n, elem_terms)
    def copy_vec(self, st, v):
        """value copy"""
        if v.buf is None: return v
        try: return VecVal(v.elem, self.to_seq(st, v))
        except Unsupported: pass
        b = v.buf
        snap = {k: x for k, x in st.mem.items() if k[0] == b.id}
        nb = self.newobj(b.name + "'", 'buf', None, b.regions, None, None, v.elem, None)
        def init(key, idx):
            return read_layers(snap.get((b.id,) + key, ()), idx, lambda i: b.init(key, i) if b.init else UNDEF)
        nb.init = init
        st.mem[(nb.id, '#len')] = st.mem[(b.id, '#len')]; st.mem[(nb.id, '#gen')] = I0
        return VecVal(v.elem, None, nb)
    def copy_elem(self, st, src, dst, elem):
        for o, p, k, t in self.elem_leaves(elem):
            x = self.read(st, self.addp(src, o))
            if isinstance(x, VecVal): x = self.copy_vec(st, x)
            self.write(st, self.addp(dst, o), x)

    # ------------------------------------------------------------ records and sequences for contracts
    def read_record(self, st, p, ty):
        """dict path -> value of a record in memory"""
        out = {}
        for off, path, kind, t in self.lay.leaves(ty):
            if kind in ('?', 'P', 'A'): continue
            v = self.read(st, self.addp(p, off))
            if isinstance(v, VecVal): v = self.to_seq(st, v)
            out[path] = v
        return out
    def write_record(self, st, p, ty, vals):
        for off, path, kind, t in self.lay.leaves(ty):
            if path in vals:
                v = vals[path]
                if kind == 'V' and isinstance(v, T): v = VecVal(vector_elem(t), v)
                self.write(st, self.addp(p, off), v)
    def shaped(self, name, ty, mk, kind='param'):
        """object of record type ty; mk(path, kind, type) gives the initial content of a leaf"""
        leaves = self.lay.leaves(ty)
        d = {o: (p, k, t) for o, p, k, t in leaves}
        regs = []
        for o, p, k, t in leaves:
            if k == 'A': regs.append((o, o + self.lay.size(t[0]) * t[1], self.lay.size(t[0])))
        o = self.newobj(name, kind, self.lay.size(ty), regs, leaves)
        def init(key, idx):
            if isinstance(key, tuple):
                p, k, t = d[key[0]]
                return mk(p, 'A', t, idx)
            if key not in d: raise Unsupported('offset %d in %s' % (key, ty))
            p, k, t = d[key]
            return mk(p, k, t, None)
        o.init = init
        return o

    # ------------------------------------------------------------ execution
    def val(self, st, t, v):
        if v[0] == 'loc':
            r = st.regs.get(v[1])
            if r is None: raise Unsupported('register %s' % v[1])
            return r
        return self.const(t, v)
    def feasible(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if c in st.pc: return True
        n = not_(c)
        if n in st.pc: return False
        return solve.feasible(st.pc, c)
    def merge2(self, a, b, ca, cb, regs):
        """merge state b into a (ca, cb: their path conditions beyond the common prefix)"""
        ga, gb = has_ghost(ca, self.active), has_ghost(cb, self.active)
        if ga and gb: raise Unsupported('ghost conditions')
        c, inv = (ca, False) if not ga and (gb or size_of(ca) <= size_of(cb)) else (cb, True)
        if inv: a, b = b, a
        m = St({}, (), {})
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is y: m.mem[k] = x; continue
            o = self.objs[k[0]]
            if len(k) == 3:
                x, y = x or (), y or ()
                n = 0
                while n < len(x) and n < len(y) and x[n] == y[n]: n += 1
                m.mem[k] = x[:n] + (('ite', c, x[n:], y[n:]),)
            else:
                if x is None: x = o.init(k[1], None) if o.init and not isinstance(k[1], str) else UNDEF
                if y is None: y = o.init(k[1], None) if o.init and not isinstance(k[1], str) else UNDEF
                if isinstance(x, VecVal) and isinstance(y, VecVal) and (x.buf is not None or y.buf is not None) and x != y:
                    # a buffer against the sequence it was made from
                    for p, q in ((x, y), (y, x)):
                        if p.buf is not None and q.buf is None and p.buf.tag is q.seq:
                            z = p; ln = (b if p is x else a)
                            if (p.buf.id, '#len') not in ln.mem:
                                ln.mem[(p.buf.id, '#len')] = seq_len(q.seq); ln.mem[(p.buf.id, '#gen')] = I0
                                return self.merge2(*((a, b, ca, cb) if not inv else (b, a, ca, cb)), regs)
                            m.mem[k] = p; break
                    else:
                        x2, y2 = VecVal(x.elem, self.to_seq(a, x)), VecVal(y.elem, self.to_seq(b, y))
                        m.mem[k] = merge_val(c, x2, y2)
                    continue
                m.mem[k] = merge_val(c, x, y)
        for r in regs:
            x, y = a.regs.get(r), b.regs.get(r)
            if x is None or y is None: continue
            m.regs[r] = merge_val(c, x, y)
        return m
    def merge(self, sts, regs):
        """merge a list of states where possible"""
        out = list(sts)
        n = 0
        while len(out) > 1 and n < len(out) - 1:
            done = False
            for j in range(n + 1, len(out)):
                a, b = out[n], out[j]
                k = 0
                while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]: k += 1
                ea, eb = a.pc[k:], b.pc[k:]
                sa, sb = set(ea), set(eb)
                com = [x for x in ea if x in sb]
                ea = [x for x in ea if x not in sb]; eb = [x for x in eb if x not in set(com)]
                ca, cb = and_(*ea), and_(*eb)
                try: m = self.merge2(a, b, ca, cb, regs)
                except Unsupported: continue
                m.pc = a.pc[:k] + tuple(com)
                if not complementary(ca, cb): m.assume(simp_or(ca, cb))
                out[n] = m; del out[j]; done = True
                break
            if not done: n += 1
        return out
    def call_function(self, name, args, st, depth=0):
        """execute the body; returns list of (state, value)"""
        F = self.P.func(name)
        if len(self.stack) > 60: raise Unsupported('recursion')
        if name in self.inlining: raise Unsupported('recursive call of ' + self.P.dem.get(name, name))
        self.inlining.append(name)
        self.stack.append(self.P.dem.get(F.name, F.name))
        saved = st.regs
        s = St(dict(st.mem), st.pc, {})
        for (t, nm, a), v in zip(F.f.params, args):
            s.regs[nm] = v
        n0 = tm_oid()
        try:
            rets = []
            self.run(F, s, F.entry, frozenset(), rets)
        finally:
            self.stack.pop(); self.inlining.pop()
        # drop the frame's local objects
        dead = {oid for oid, o in self.objs.items() if oid > n0 and o.kind == 'alloca'}
        out = []
        for r, v in rets:
            if dead: r.mem = {k: x for k, x in r.mem.items() if k[0] not in dead}
            r.regs = {'#ret': v} if v is not None else {}
            out.append(r)
        out = self.merge(out, ('#ret',))
        res = []
        for r in out:
            v = r.regs.get('#ret')
            r.regs = dict(saved)
            res.append((r, v))
        return res
    def phis(self, F, st, b, prev):
        new = {}
        for i in F.blocks[b]:
            if i.op != 'phi': break
            for v, pb in i.a[0]:
                if pb == prev: new[i.dst] = self.val(st, i.ty, v); break
            else: raise Unsupported('phi')
        st.regs.update(new)
    def run(self, F, st, blk, stops, rets, first=False):
        """execute from the start of block blk (phis already evaluated) until a block in stops;
        returns list of (block, state) arrivals with phis evaluated"""
        out = []
        work = [(blk, 0, st, first)]
        while work:
            b, pos, st, skip = work.pop()
            if pos == 0 and not skip:
                if b in stops: out.append((b, st)); continue
                if b in F.loops:
                    for eb, es in self.do_loop(F, st, b, rets):
                        work.append((eb, 0, es, False))
                    continue
            ins = F.blocks[b]
            n = pos
            while True:
                i = ins[n]
                self.steps += 1
                if self.steps > self.max_steps: raise Unsupported('step limit')
                op = i.op
                if op == 'phi': n += 1; continue
                if op in ('call', 'invoke'):
                    rs = self.do_call(st, i)
                    nb = None if op == 'call' else i.a[2]
                    nxt = []
                    for s2, v in rs:
                        if i.dst is not None: s2.regs[i.dst] = v if v is not None else UNDEF
                        nxt.append(s2)
                    if not nxt: break
                    if nb is not None:
                        for s2 in nxt: self.phis(F, s2, nb, b); work.append((nb, 0, s2, False))
                        break
                    st = nxt[0]
                    for s2 in nxt[1:]: work.append((b, n + 1, s2, True))
                    n += 1; continue
                if op == 'br':
                    if len(i.a) == 1:
                        self.phis(F, st, i.a[0], b); work.append((i.a[0], 0, st, False)); break
                    c = self.val(st, ('i', 1), i.a[0])
                    if isinstance(c, Undef): raise Unsupported('branch on undef')
                    self.branch(F, b, st, [(c, i.a[1]), (not_(c), i.a[2])], stops, rets, out, work)
                    break
                if op == 'switch':
                    v = self.val(st, i.ty, i.a[0])
                    cs, others = [], []
                    for cv, tb in i.a[2]:
                        e = eq(v, ic(cv[1]))
                        cs.append((e, tb)); others.append(not_(e))
                    bt = {}
                    for e, tb in cs: bt.setdefault(tb, []).append(e)
                    br = [(or_(*es), tb) for tb, es in bt.items()]
                    dflt = and_(*others)
                    if i.a[1] in bt:
                        br = [(or_(c, dflt) if tb == i.a[1] else c, tb) for c, tb in br]
                    else: br.append((dflt, i.a[1]))
                    self.branch(F, b, st, br, stops, rets, out, work)
                    break
                if op == 'ret':
                    v = None if i.a[0] is None else self.val(st, i.ty, i.a[0])
                    rets.append((st, v)); break
                if op == 'unreachable': break
                self.instr(st, i)
                n += 1
        return out
    def branch(self, F, b, st, br, stops, rets, out, work):
        live = [(c, t) for c, t in br if self.feasible(st, c)]
        if not live: return
        if len(live) == 1:
            c, t = live[0]
            if c is not TRUE and not solve_implied(st, c): st.assume(c)
            self.phis(F, st, t, b); work.append((t, 0, st, False)); return
        J = F.ipdom[b]
        sub = stops | ({J} if J is not None else set())
        arr = []
        for c, t in live:
            s = st.copy().assume(c)
            self.phis(F, s, t, b)
            arr += self.run(F, s, t, frozenset(sub), rets)
        atJ = [s for x, s in arr if x == J]
        rest = [(x, s) for x, s in arr if x != J]
        # arrivals at the same stop block are merged too
        by = {}
        for x, s in rest: by.setdefault(x, []).append(s)
        for x, ss in by.items():
            for s in self.merge(ss, F.livein[x]): out.append((x, s))
        if atJ:
            ms = self.merge(atJ, F.livein[J])
            for s in ms:
                if J in stops: out.append((J, s))
                else: work.append((J, 0, s, False))

    # ------------------------------------------------------------ instructions
    def instr(self, st, i):
        op = i.op
        V = lambda t, v: self.val(st, t, v)
        if op == 'alloca':
            t = i.ty
            o = self.newobj(i.dst, 'alloca', self.TY.size(t), self.type_regions(t, flat=False))
            o.leaves = None; o.tag = t
            st.regs[i.dst] = Ptr(o); return
        if op == 'load':
            st.regs[i.dst] = self.load(st, i.ty, V(('ptr',), i.a[0])); return
        if op == 'store':
            self.store(st, i.ty, V(i.ty, i.a[0]), V(('ptr',), i.a[1])); return
        if op == 'getelementptr':
            base = V(*i.a[0]); idx = [V(t, v) for t, v in i.a[1]]
            r = self.gep(i.ty, base, idx)
            st.regs[i.dst] = r; return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(i.ty, i.a[0]), V(i.ty, i.a[1])
            self.need(a, b)
            if self.anyfp: r = self.any_double()
            elif op == 'fadd': r = radd(a, b)
            elif op == 'fsub': r = rsub(a, b)
            elif op == 'fmul': r = rmul(a, b)
            else: r = rdiv(a, b)
            st.regs[i.dst] = r; return
        if op == 'fneg':
            a = V(i.ty, i.a[0]); self.need(a); st.regs[i.dst] = rneg(a); return
        if op == 'fcmp':
            a, b = V(i.ty, i.a[1]), V(i.ty, i.a[2]); self.need(a, b)
            st.regs[i.dst] = self.fcmp(i.a[0], a, b); return
        if op == 'icmp':
            st.regs[i.dst] = self.icmp(st, i.a[0], V(i.ty, i.a[1]), V(i.ty, i.a[2]), i.ty); return
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            st.regs[i.dst] = self.iop(st, op, V(i.ty, i.a[0]), V(i.ty, i.a[1]), i.ty); return
        if op in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            st.regs[i.dst] = self.cast(st, op, V(i.a[0], i.a[1]), i.a[0], i.ty); return
        if op == 'select':
            c = V(('i', 1), i.a[0])
            st.regs[i.dst] = merge_val(c, V(i.ty, i.a[1]), V(i.ty, i.a[2])); return
        if op == 'extractvalue':
            v = V(i.ty, i.a[0])
            for k in i.a[1]:
                if isinstance(v, Undef): break
                v = v.f[k]
            st.regs[i.dst] = v; return
        if op == 'insertvalue':
            v = V(i.ty, i.a[0]); t2, x = i.a[1]; x = V(t2, x)
            def ins(v, t, idx):
                t = self.TY.resolve(t)
                n = len(t[1]) if t[0] == 'struct' else t[1]
                f = list(v.f) if isinstance(v, Agg) else [UNDEF] * n
                f[idx[0]] = x if len(idx) == 1 else ins(f[idx[0]], t[1][idx[0]] if t[0] == 'struct' else t[2], idx[1:])
                return Agg(f)
            st.regs[i.dst] = ins(v, i.ty, i.a[2]); return
        if op == 'freeze': st.regs[i.dst] = V(i.ty, i.a[0]); return
        raise Unsupported('instruction ' + i.text.strip()[:80])
    def any_double(self):
        """an arbitrary floating-point number; infinities are the ends of the order, which is all that is used of them"""
        if self.in_loop: raise Unsupported('floating-point operation in a loop')
        return fresh('fp', 'R')
    def need(self, *vs):
        for v in vs:
            if not isinstance(v, T): raise Unsupported('operand %r' % (v,))
    def isnan(self, t):
        if isc(t): return FALSE
        if t.op == 'v': return app('isnan', (t,), 'B')
        if t.op == 'ite': return ite(t.args[0], self.isnan(t.args[1]), self.isnan(t.args[2]))
        if t.op == 'app' and t.data in ('log', 'sqrt'): return or_(self.isnan(t.args[0]), lt(t.args[0], ZERO))
        return or_(*[self.isnan(a) for a in t.args if a.sort == 'R'])
    def fcmp(self, pred, a, b):
        if pred == 'true': return TRUE
        if pred == 'false': return FALSE
        nan = or_(self.isnan(a), self.isnan(b)) if self.nan_mode else FALSE
        if pred == 'ord': return not_(nan)
        if pred == 'uno': return nan
        k = pred[1:]
        r = {'lt': lt, 'le': le, 'gt': gt, 'ge': ge, 'eq': eq, 'ne': ne}[k](a, b)
        return and_(not_(nan), r) if pred[0] == 'o' else or_(nan, r)
    def nonneg(self, st, t):
        if isc(t): return t.data >= 0
        if t.op == 'app' and t.data in ('n',): return True
        if t.op == 'app' and t.data.startswith('tab:') and t.data[4:] in tm.TABLES: return min(tm.TABLES[t.data[4:]]) >= 0
        if t.op == 'ite' and isc(t.args[1]) and isc(t.args[2]): return t.args[1].data >= 0 and t.args[2].data >= 0
        return solve.valid(st.pc, le(I0, t), 300)
    def unsigned(self, st, t, w):
        if t.sort == 'B': t = ite(t, I1, I0)
        if self.nonneg(st, t): return t
        return ite(lt(t, I0), iadd(t, ic(1 << w)), t)
    def icmp(self, st, pred, a, b, ty):
        pt = (Ptr, PIte, FnPtr, Null)
        if isinstance(a, pt) or isinstance(b, pt):
            if isinstance(a, PIte): return ite(a.c, self.icmp(st, pred, a.a, b, ty), self.icmp(st, pred, a.b, b, ty))
            if isinstance(b, PIte): return ite(b.c, self.icmp(st, pred, a, b.a, ty), self.icmp(st, pred, a, b.b, ty))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return {'eq': eq, 'ne': ne, 'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge}[pred](a.off, b.off)
            if pred in ('eq', 'ne') and not isinstance(a, Undef) and not isinstance(b, Undef):
                same = isinstance(a, type(b)) and a == b
                return bc(same == (pred == 'eq'))
            raise Unsupported('pointer comparison')
        self.need(a, b)
        if a.sort == 'B' or b.sort == 'B':
            if pred == 'eq': return iff(self.asbool(a), self.asbool(b))
            if pred == 'ne': return not_(iff(self.asbool(a), self.asbool(b)))
            a, b = [ite(x, I1, I0) if x.sort == 'B' else x for x in (a, b)]
        w = ty[1] if ty[0] == 'i' else 64
        if pred in ('eq', 'ne'):
            if isc(b) and b.data < 0 and w == 8: b = ic(b.data + 256)
            if isc(a) and a.data < 0 and w == 8: a = ic(a.data + 256)
            return eq(a, b) if pred == 'eq' else ne(a, b)
        if pred[0] == 's': return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)
        a, b = self.unsigned(st, a, w), self.unsigned(st, b, w)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)
    def asbool(self, x):
        if x.sort == 'B': return x
        if isc(x): return bc(x.data & 1)
        return eq(imod(x, 2), I1)
    def iop(self, st, op, a, b, ty):
        if isinstance(a, (Ptr,)) and isinstance(b, Ptr) and op == 'sub' and a.obj is b.obj: return isub(a.off, b.off)
        if isinstance(a, Ptr) and isinstance(b, T) and op in ('add', 'sub'):
            return Ptr(a.obj, iadd(a.off, b) if op == 'add' else isub(a.off, b), a.hint, a.gen)
        if isinstance(a, PIte): return merge_val(a.c, self.iop(st, op, a.a, b, ty), self.iop(st, op, a.b, b, ty))
        if isinstance(b, PIte): return merge_val(b.c, self.iop(st, op, a, b.a, ty), self.iop(st, op, a, b.b, ty))
        self.need(a, b)
        if ty == ('i', 1):
            a, b = self.asbool(a), self.asbool(b)
            if op == 'and': return and_(a, b)
            if op == 'or': return or_(a, b)
            if op in ('xor', 'add', 'sub'): return not_(iff(a, b))
            raise Unsupported('i1 ' + op)
        a, b = [ite(x, I1, I0) if x.sort == 'B' else x for x in (a, b)]
        w = ty[1]
        if op == 'add': return iadd(a, b)
        if op == 'sub': return isub(a, b)
        if op == 'mul': return imul(a, b)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if not isc(b) or b.data <= 0: raise Unsupported('division by %s' % b)
            if op[0] == 'u': a = self.unsigned(st, a, w)
            c, m = tm._lin(a)
            exact = c % b.data == 0 and all(v % b.data == 0 for v in m.values())
            if exact: return idiv_floor(a, b.data) if op[1:] == 'div' else I0
            if op[0] == 'u' or self.nonneg(st, a):
                return idiv_floor(a, b.data) if op[1:] == 'div' else imod(a, b.data)
            q = ite(le(I0, a), idiv_floor(a, b.data), iscale(idiv_floor(iscale(a, -1), b.data), -1))
            return q if op[1:] == 'div' else isub(a, iscale(q, b.data))
        if op == 'and' and isc(a): a, b = b, a
        if op == 'and' and isc(b):
            if isc(a): return ic(a.data & b.data)
            m = b.data
            if m >= 0 and (m & (m + 1)) == 0: return imod(a, m + 1)
            if m < 0: return isub(a, self.iop(st, 'and', a, ic(~m), ty))
            bits = [k for k in range(m.bit_length()) if m >> k & 1] if m > 0 else None
            if bits is not None and len(bits) <= 8: return iadd(*[ite(bitset(a, k), ic(1 << k), I0) for k in bits])
        if op in ('or', 'xor') and isc(a) and isc(b): return ic(a.data | b.data if op == 'or' else a.data ^ b.data)
        if op == 'xor' and isc(b) and b.data == -1: return isub(ic(-1), a)
        if op == 'shl' and isc(b): return iscale(a, 1 << b.data)
        if op in ('lshr', 'ashr') and isc(b):
            if op == 'lshr': a = self.unsigned(st, a, w)
            return idiv_floor(a, 1 << b.data)
        raise Unsupported('integer operation %s' % op)
    def cast(self, st, op, v, t1, t2):
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if isinstance(v, (Ptr, PIte, Null)) or t1 == t2: return v
            raise Unsupported(op)
        self.need(v)
        if op == 'zext':
            if t1 == ('i', 1): return ite(self.asbool(v), I1, I0)
            return self.unsigned(st, v, t1[1])
        if op == 'sext':
            if t1 == ('i', 1): return ite(v, ic(-1), I0)
            return v
        if op == 'trunc':
            if t2 == ('i', 1):
                if v.sort == 'B': return v
                if v.op == 'ite' and isc(v.args[1]) and isc(v.args[2]): return ite(v.args[0], bc(v.args[1].data & 1), bc(v.args[2].data & 1))
                return self.asbool(v)
            if t2[1] < 32 and not isc(v):
                w = t2[1]
                if solve.valid(st.pc, and_(le(I0, v), lt(v, ic(1 << w))), 300): return v
                return imod(v, 1 << w)
            if isc(v) and t2[1] < 32: return ic(v.data % (1 << t2[1]))
            return v
        if op in ('sitofp', 'uitofp'):
            if v.sort == 'B': v = ite(v, I1, I0)
            if op == 'uitofp': v = self.unsigned(st, v, t1[1])
            return toreal(v)
        if op in ('fptosi', 'fptoui'):
            if self.anyfp:
                if self.in_loop: raise Unsupported('floating-point conversion in a loop')
                r = fresh('fi', 'I'); w = 1 << t2[1]
                st.assume(and_(le(ic(-w // 2), r), le(r, ic(w // 2 - 1))) if op == 'fptosi' else and_(le(I0, r), le(r, ic(w - 1))))
                return r
            if self.nan_mode:
                lim = rc(2 ** 31) if t2[1] == 32 else rc(2 ** 63)
                self.oblige('conversion', st, and_(not_(self.isnan(v)), lt(rneg(lim), v), lt(v, lim)), 'double to integer conversion is in range')
            return trunc_(v)
        return v    # fpext / fptrunc: treated as exact

    # ------------------------------------------------------------ calls
    def do_call(self, st, i):
        callee, args = i.a[0], i.a[1]
        if callee[0] == 'loc':
            f = self.val(st, ('ptr',), callee)
            return self.call_value(st, f, i)
        name = self.P.resolve(callee[1])
        vals = [self.val(st, t, v) if t[0] != 'metadata' else UNDEF for t, v, a in args]
        # byval arguments are copies
        for n, (t, v, a) in enumerate(args):
            if 'byval' in a:
                bt = a['byval']
                o = self.newobj('byval', 'alloca', self.TY.size(bt), self.type_regions(bt, flat=False))
                self.memcpy(st, Ptr(o), vals[n], ic(self.TY.size(bt)))
                vals[n] = Ptr(o)
        return self.call_named(st, name, vals, i)
    def call_value(self, st, f, i):
        if isinstance(f, PIte):
            out = []
            for c, g in ((f.c, f.a), (not_(f.c), f.b)):
                if not self.feasible(st, c): continue
                out += self.call_value(st.copy().assume(c), g, i)
            if len(out) > 1:
                for s, v in out: s.regs = dict(s.regs); s.regs['#r'] = v
                ms = self.merge([s for s, v in out], set(st.regs) | {'#r'})
                out = []
                for s in ms:
                    v = s.regs.pop('#r'); out.append((s, v))
            return out
        if not isinstance(f, FnPtr): raise Unsupported('indirect call')
        vals = [self.val(st, t, v) for t, v, a in i.a[1]]
        return self.call_named(st, f.name, vals, i)
    def call_named(self, st, name, vals, i):
        if name == '_ZSt9terminatev' or 'throw' in name or name in ('abort', 'exit', '__assert_fail', '_ZSt20__throw_length_errorPKc'): return []
        sig = self.P.sig.get(name)
        c = self.contracts.get(sig) if sig else None
        if c is None and sig is None: c = self.contracts.get(name)
        if c is not None and not c.inline:
            self.used_contracts.add(c.key)
            return c.apply(self, st, vals, i)
        d = self.P.dem.get(name, name)
        m = self.models.lookup(d, name)
        if m is not None:
            r = m(self, st, vals, d, i)
            if isinstance(r, list): return r
            if self.anyfp and isinstance(r, T) and r.sort == 'R': r = self.any_double()
            return [(st, r)]
        if self.P.has(name):
            if not d.startswith(('std::', '__gnu_cxx::')) and ' std::' not in d.split('(')[0]: self.inlined.add(d)
            return self.call_function(name, vals, st)
        raise Unsupported('external function ' + d)

    # ------------------------------------------------------------ loops
    def do_loop(self, F, st, h, rets):
        L = F.loops[h]
        exits = {s for b in L for s in F.succ[b] if s not in L}
        stops = frozenset(exits | {h})
        bound = self.static_bound(F, L, h, st)
        self.loop_count += 1
        if bound is not None and bound <= UNROLL:
            try: return self.unroll(F, st, h, stops, rets, bound)
            except MixedExit: pass
        elif bound is None and self.data_exit(F, L, h, st):
            try: return self.unroll(F, st, h, stops, rets, 8)
            except MixedExit: pass
        n_obl, n_ret = len(self.obls), len(rets)
        self.in_loop += 1
        try: return self.summarise(F, st, h, L, stops, rets)
        except Unsupported:
            if bound is None or bound > UNROLL: raise
        finally: self.in_loop -= 1
        # a search with a constant number of steps
        del self.obls[n_obl:]; del rets[n_ret:]
        try: return self.unroll(F, st, h, stops, rets, bound, True)
        except MixedExit: raise Unsupported('loop with %d steps and exits in between' % bound)
    def data_exit(self, F, L, h, st):
        """left only through comparisons of doubles, counting from a constant: may end after a few steps"""
        n = 0
        for b in L:
            t = F.blocks[b][-1]
            if all(s in L for s in F.succ[b]): continue
            if t.op != 'br' or len(t.a) != 3 or t.a[0][0] != 'loc': return False
            if not any(i.dst == t.a[0][1] and i.op == 'fcmp' for bb in L for i in F.blocks[bb]): return False
            n += 1
        ph = [st.regs.get(i.dst) for i in F.blocks[h] if i.op == 'phi']
        return n > 0 and any(isinstance(v, T) and isc(v) and v.sort == 'I' for v in ph) and all(isinstance(v, T) and isc(v) for v in ph)
    def static_bound(self, F, L, h, st):
        """number of iterations bound by a constant comparison of an integer induction variable, or None"""
        best = None
        for b in L:
            t = F.blocks[b][-1]
            if t.op != 'br' or len(t.a) != 3 or all(s in L for s in F.succ[b]): continue
            if t.a[0][0] != 'loc': continue
            for bb in L:
                for i in F.blocks[bb]:
                    if i.dst == t.a[0][1] and i.op == 'icmp':
                        for v in (i.a[1], i.a[2]):
                            try: x = self.val(st, i.ty, v)
                            except Unsupported: continue
                            if isinstance(x, T) and isc(x) and x.sort == 'I':
                                # the other operand must be an induction variable with constant start
                                o = i.a[2] if v is i.a[1] else i.a[1]
                                s = self.induction_start(F, h, o, st)
                                if s is not None:
                                    n = abs(x.data - s) + 1
                                    best = n if best is None else min(best, n)
                            elif isinstance(x, Ptr) and isc(x.off) and (v[0] != 'loc' or not any(j.dst == v[1] for bb2 in L for j in F.blocks[bb2])):
                                s = [st.regs.get(j.dst) for j in F.blocks[h] if j.op == 'phi']
                                for p in s:
                                    if isinstance(p, Ptr) and p.obj is x.obj and isc(p.off):
                                        n = abs(x.off.data - p.off.data) // 8 + 1
                                        best = n if best is None else min(best, n)
        return best
    def induction_start(self, F, h, o, st):
        if o[0] != 'loc': return None
        seen = set(); n = o[1]
        for _ in range(6):
            for bb in F.order:
                for i in F.blocks[bb]:
                    if i.dst == n:
                        if i.op == 'phi' and bb == h:
                            v = st.regs.get(n)
                            return v.data if isinstance(v, T) and isc(v) else None
                        if i.op in ('add', 'sub', 'sext', 'zext', 'trunc'):
                            nx = [x for x in locs_of(i.a)]
                            if len(nx) == 1: n = nx[0]; break
                        return None
                else: continue
                break
        return None
    def unroll(self, F, st, h, stops, rets, bound, force=False):
        n_obl, n_ret = len(self.obls), len(rets)
        cur, outs = [st.copy()], []
        mixed = False
        for it in range(bound + 2):
            nxt = []
            for s in cur:
                for b, s2 in self.run(F, s, h, stops, rets, first=True):
                    (nxt if b == h else outs).append(s2 if b == h else (b, s2))
            if nxt and (outs or len(rets) > n_ret): mixed = True
            if mixed and bound > UNROLL_SYM and not force:
                del self.obls[n_obl:]; del rets[n_ret:]
                raise MixedExit()
            if not nxt:
                self.unrolled += 1
                by = {}
                for b, s in outs: by.setdefault(b, []).append(s)
                return [(b, s) for b, ss in by.items() for s in self.merge(ss, F.livein[b])]
            cur = self.merge(nxt, F.livein[h])
            if len(cur) > 40:
                del self.obls[n_obl:]; del rets[n_ret:]
                raise MixedExit()
        del self.obls[n_obl:]; del rets[n_ret:]
        raise MixedExit()

    def summarise(self, F, st0, h, L, stops, rets):
        k = fresh('k', 'I')
        self.active.append(k)
        try: return self.summarise_loop(F, st0, h, L, stops, rets, k)
        finally:
            if k in self.active: self.active.remove(k)
    def summarise_loop(self, F, st0, h, L, stops, rets, k):
        phis = [i.dst for i in F.blocks[h] if i.op == 'phi']
        st0 = st0.copy()
        items = {}          # key -> dict(v0, g, closed)
        arrs = {}           # mem key -> dict(w, stride, val)
        def generic(v0, nm):
            if isinstance(v0, T): return fresh('g_' + nm, v0.sort)
            if isinstance(v0, Ptr):
                r = v0.obj.region_at(v0.off.data) if isc(v0.off) else None
                h_ = v0.hint if v0.hint is not None else (r[0] if r else None)
                if r is None: r = v0.obj.region_start(h_) if h_ is not None else v0.obj.regions[0] if len(v0.obj.regions or ()) == 1 else None
                sd = r[2] if r is not None else 1
                g = fresh('g_' + nm, 'I')
                p_ = Ptr(v0.obj, iadd(v0.off, iscale(g, sd)), h_, v0.gen)
                gvars[id(p_)] = (g, sd, p_)
                return p_
            return UNDEF
        gvars = {}
        def gvar(g): return gvars[id(g)][0] if isinstance(g, Ptr) else g
        for p in phis: items[('phi', p)] = dict(v0=st0.regs[p], g=generic(st0.regs[p], p), closed=None)
        cont = None; base_pc = st0.pc
        def setup():
            s = st0.copy()
            s.assume(le(I0, k))
            for key, it in items.items():
                v = it['closed'] if it['closed'] is not None else it['g']
                if key[0] == 'phi': s.regs[key[1]] = v
                elif key[0] == 'cell': s.mem[key[1]] = v
            for key, a in arrs.items():
                s.mem[key] = st0.mem.get(key, ()) + (a['marker'],)
            if cont is not None:
                s.assume(implies(lt(I0, k), subst(cont, {k: isub(k, I1)})))
                j = fresh('j', 'I')
                s.assume(forall(I0, k, subst(cont, {k: j}), j))
            return s
        def mkmarker(key):
            a = arrs[key]
            def read(idx, older):
                a['read'] = True
                if a.get('w') is None:
                    v = older()
                    return fresh('unk', v.sort if isinstance(v, T) else 'R')
                w, sd = a['w'], a['stride']
                d = isub(idx, w)
                pk = ('prev', key)
                if isc(d):
                    x = d.data * sd
                    if x >= 0: return older()
                    if x == -1:
                        if pk not in items:
                            i0 = subst(iadd(w, ic(-sd)), {k: I0})
                            v0 = read_layers(st0.mem.get(key, ()), i0, lambda i: self.objs[key[0]].init(key[1:], i) if self.objs[key[0]].init else UNDEF)
                            items[pk] = dict(v0=v0, g=generic(v0 if isinstance(v0, T) else ZERO, 'prev'), closed=None)
                        it = items[pk]
                        return it['closed'] if it['closed'] is not None else it['g']
                    raise Unsupported('read of an element written two iterations before')
                # index relation must be decided
                pcs = base_pc + (le(I0, k),)
                goal = le(w, idx) if sd > 0 else le(idx, w)
                if solve.valid(pcs, goal, 1000): return older()
                if a.get('val') is not None:
                    w0 = subst(w, {k: I0})
                    kk = isub(idx, w0) if sd > 0 else isub(w0, idx)
                    c = and_(le(I0, kk), lt(kk, k))
                    return merge_val(c, subst_val(a['val'], lambda t: subst(t, {k: kk})), older())
                raise Unsupported('array index relation in loop')
            return ('loop', read)
        m = None
        self.quiet += 1
        try:
            for rnd in range(200):
                s = setup()
                r2 = []
                known = set(self.objs)
                arr = self.run(F, s.copy(), h, stops, r2, first=True)
                backs = [x for b, x in arr if b == h]
                if not backs:
                    self.quiet -= 1
                    try: return [(b, x) for b, x in self.run(F, st0.copy(), h, stops, rets, first=True)]
                    finally: self.quiet += 1
                ms = self.merge(backs, phis)
                if len(ms) != 1: raise Unsupported('loop body paths cannot be merged')
                m = ms[0]
                new = False
                for key, v in m.mem.items():
                    old = s.mem.get(key)
                    if old is v or (not isinstance(v, T) and old == v): continue
                    o = self.objs[key[0]]
                    if o.id not in known: continue      # created by this iteration: not carried to the next
                    if o.id not in {kk[0] for kk in st0.mem} and key not in st0.mem and o.kind == 'buf' and o.name.startswith('vec:') and any(isinstance(x, VecVal) and x.buf is o for x in m.mem.values()):
                        continue
                    if len(key) == 3:
                        if key not in arrs:
                            arrs[key] = dict(w=None, stride=None, val=None, read=False); arrs[key]['marker'] = mkmarker(key); new = True
                    elif ('cell', key) not in items:
                        v0 = st0.mem.get(key)
                        if v0 is None and o.init is not None and not isinstance(key[1], str): v0 = o.init(key[1], None)
                        if v0 is None: v0 = UNDEF
                        if isinstance(v0, VecVal) and isinstance(v, VecVal) and v0.buf is None and v.buf is not None and v.buf.tag is v0.seq:
                            # materialise the buffer before the loop
                            st0.mem[key] = v
                            st0.mem[(v.buf.id, '#len')] = seq_len(v0.seq); st0.mem[(v.buf.id, '#gen')] = I0
                            new = True; continue
                        items[('cell', key)] = dict(v0=v0, g=generic(v0, 'c'), closed=None); new = True
                extra = [x for x in m.pc if x not in set(s.pc)]
                if new: cont = None; continue
                # ---- solve
                def N(key):
                    if key[0] == 'phi': return m.regs[key[1]]
                    if key[0] == 'cell': return m.mem[key[1]]
                    a = arrs[key[1]]
                    return self.stored(m, key[1], a, s)
                U = [gvar(it['g']) for it in items.values() if it['closed'] is None and isinstance(it['g'], (T, Ptr))]
                progress = False
                for pas in (0, 1):
                    for key, it in items.items():
                        if it['closed'] is not None: continue
                        n, g, v0 = N(key), it['g'], it['v0']
                        c = None
                        if isinstance(g, Undef):
                            if isinstance(v0, Undef) or n is not None: it['closed'] = UNDEF; progress = True
                            continue
                        if isinstance(n, Undef): continue
                        isp = isinstance(g, Ptr)
                        if isp:
                            if not isinstance(n, Ptr) or n.obj is not g.obj:
                                if isinstance(n, Ptr) and n == v0: it['closed'] = v0; progress = True
                                continue
                            nt, gt_, vt = n.off, g.off, v0.off
                        else:
                            if not isinstance(n, T): continue
                            nt, gt_, vt = n, g, v0
                            if not isinstance(vt, T): vt = None
                        if pas == 0:
                            if nt.sort == 'I' and vt is not None:
                                d = isub(nt, gt_)
                                if not mentions(d, U + [k]): c = iadd(vt, imul(k, d))
                            if nt is gt_: c = vt
                        else:
                            if nt.sort == 'R' and vt is not None:
                                d = struct_delta(nt, gt_, 'radd')
                                if d is not None and not mentions(d, U):
                                    j = fresh('j', 'I'); c = radd(vt, sum_(I0, k, subst(d, {k: j}), j) if mentions(d, [k]) else rmul(toreal(k), d))
                                else:
                                    d = struct_delta(nt, gt_, 'rmul')
                                    if d is not None and not mentions(d, U):
                                        j = fresh('j', 'I'); c = rmul(vt, prod_(I0, k, subst(d, {k: j}), j))
                            elif nt.sort == 'B' and vt is not None and nt.op in ('or', 'and'):
                                if gt_ in nt.args:
                                    rest = [a for a in nt.args if a is not gt_]
                                    if not mentions(and_(*rest), U):
                                        j = fresh('j', 'I')
                                        if nt.op == 'or': c = or_(vt, exists(I0, k, subst(or_(*rest), {k: j}), j))
                                        else: c = and_(vt, forall(I0, k, subst(and_(*rest), {k: j}), j))
                            if c is None and not mentions(nt, U):
                                nn = subst(nt, {k: isub(k, I1)})
                                c = ite(eq(k, I0), vt, nn) if vt is not None else nn
                        if c is not None:
                            it['closed'] = Ptr(g.obj, c, g.hint, g.gen) if isp else c
                            progress = True
                            if pas == 1: break
                    if progress: break
                if progress: cont = None; continue
                # array write positions
                for key, a in arrs.items():
                    if a['w'] is None:
                        w = self.store_index(m, key, a, s)
                        if w is None: raise Unsupported('array written at several positions per iteration')
                        if mentions(w, U): raise Unsupported('array position depends on unsolved state')
                        d = isub(subst(w, {k: iadd(k, I1)}), w)
                        if not isc(d) or abs(d.data) != 1: raise Unsupported('array position does not advance by one')
                        a['w'], a['stride'] = w, d.data; progress = True
                if progress: cont = None; continue
                un = [key for key, it in items.items() if it['closed'] is None]
                if un:
                    # strongly connected group that depends on nothing unsolved outside itself
                    gt_of = {key: gvar(items[key]['g']) for key in un}
                    deps = {}
                    for key in un:
                        n = N(key)
                        if isinstance(n, Undef): n = items[key]['g']
                        if isinstance(n, Ptr):
                            if not isinstance(items[key]['g'], Ptr) or n.obj is not items[key]['g'].obj: raise Unsupported('loop pointer')
                            n = isub(n.off, items[key]['v0'].off)
                            sd = gvars[id(items[key]['g'])][1]
                            if sd != 1:
                                co, mm = tm._lin(n)
                                if co % sd or any(v % sd for v in mm.values()): raise Unsupported('loop pointer step')
                                n = idiv_floor(n, sd)
                        if not isinstance(n, T): raise Unsupported('loop value %r' % (n,))
                        items[key]['n'] = n
                        deps[key] = {q for q in un if mentions(n, [gt_of[q]])}
                    def closure(key):
                        s_ = {key}; w_ = [key]
                        while w_:
                            for q in deps[w_.pop()]:
                                if q not in s_: s_.add(q); w_.append(q)
                        return s_
                    best = min((closure(q) for q in un), key=len)
                    grp = [q for q in un if q in best]
                    for q in grp:
                        if not isinstance(items[q]['v0'], (T, Ptr)): raise Unsupported('loop-carried value uninitialised')
                    ini = tuple(I0 if isinstance(items[q]['v0'], Ptr) else items[q]['v0'] for q in grp)
                    ld = LoopDef(tuple('x%d' % n for n in range(len(grp))), ini, tuple(gt_of[q] for q in grp), tuple(items[q]['n'] for q in grp), k)
                    for n, q in enumerate(grp):
                        g = items[q]['g']
                        c = mk('recval', (k,), (ld, n), ini[n].sort)
                        items[q]['closed'] = Ptr(g.obj, iadd(items[q]['v0'].off, iscale(c, gvars[id(g)][1])), g.hint, g.gen) if isinstance(g, Ptr) else c
                    cont = None; continue
                # element values
                ch = False
                for key, a in arrs.items():
                    if a['val'] is None:
                        v = self.stored(m, key, a, s)
                        a['val'] = v; ch = True
                if cont is None:
                    cont = and_(*[x for x in m.pc if x not in set(s.pc)])
                    continue
                if ch: continue
                break
            else: raise Unsupported('loop analysis did not converge')
        finally: self.quiet -= 1
        # ---- final pass with obligations
        s = setup()
        for key, it in items.items():
            if isinstance(it['closed'], Undef) and key[0] == 'cell': s.mem.pop(key[1], None)
        self.termination(s, cont, k, F, h, st0.pc)
        arr = self.run(F, s.copy(), h, stops, rets_proxy := [], first=True)
        for r in rets_proxy: raise Unsupported('return inside summarised loop')
        out = []
        for b, x in arr:
            if b == h: continue
            for key, a in arrs.items():
                w0 = subst(a['w'], {k: I0})
                if a['stride'] > 0:
                    seg = ('seg', w0, iadd(w0, k), (lambda v, w0: lambda i: subst_val(v, lambda t: subst(t, {k: isub(i, w0)})))(a['val'], w0))
                else:
                    seg = ('seg', iadd(isub(w0, k), I1), iadd(w0, I1), (lambda v, w0: lambda i: subst_val(v, lambda t: subst(t, {k: isub(w0, i)})))(a['val'], w0))
                x.mem[key] = tuple(seg if e is a['marker'] else e for e in x.mem.get(key, ()))
            x = self.solve_exit(x, s, st0, k)
            out.append((b, x))
        self.active.remove(k)
        by = {}
        for b, x in out: by.setdefault(b, []).append(x)
        return [(b, x) for b, ss in by.items() for x in self.merge(ss, F.livein[b])]
    def store_index(self, m, key, a, s):
        ls = m.mem[key]
        n = next(i for i, e in enumerate(ls) if e is a['marker'])
        idx = []
        def go(es):
            for e in es:
                if e[0] == 'st': idx.append(e[1])
                elif e[0] == 'ite': go(e[2]); go(e[3])
                else: idx.append(None)
        go(ls[n + 1:])
        if not idx or any(i is not idx[0] for i in idx): return None
        return idx[0]
    def stored(self, m, key, a, s):
        ls = m.mem[key]
        n = next(i for i, e in enumerate(ls) if e is a['marker'])
        w = a['w']
        return read_layers(ls[n + 1:], w, lambda i: a['marker'][1](i, lambda: read_layers(ls[:n], i, lambda j: self.objs[key[0]].init(key[1:], j) if self.objs[key[0]].init else UNDEF)))
    def termination(self, s, cont, k, F, h, base):
        """cont(k) bounds k from above by something fixed"""
        ok = False
        for c in (cont.args if cont.op == 'and' else (cont,)):
            if c.op == 'le' and c.args[0] is I0 and c.args[1].sort == 'I':
                co, m = tm._lin(c.args[1])
                if m.get(k, 0) < 0 and not any(mentions(x, [k]) for x in m if x is not k): ok = True
            if c.op == 'not' and c.args[0].op == 'eq' and c.args[0].args[0].sort == 'I':
                d = isub(c.args[0].args[0], c.args[0].args[1]); co, m = tm._lin(d)
                if abs(m.get(k, 0)) == 1 and not any(mentions(x, [k]) for x in m if x is not k):
                    # k != t with k starting below t
                    t = iadd(*[iscale(x, -v * m[k]) for x, v in m.items() if x is not k], ic(-co * m[k]))
                    if solve.valid(s.pc, le(I0, t), 1000): ok = True; s.assume(le(k, t))
        if not ok:
            # an iteration t >= 0 at which the loop does not go on: none after it is reached
            for t in self.counts(cont, k):
                if solve.valid(base, le(I0, t), 500) and solve.check(list(base) + [subst(cont, {k: t})], None, 500) == 'unsat':
                    ok = True; s.assume(le(k, t)); break
        self.oblige('termination', s, TRUE if ok else FALSE, 'loop ends')
    def counts(self, c, k):
        """values of the iteration count at which a comparison in c changes"""
        out = []
        for x in subterms(c):
            if x.op in ('le', 'eq') and x.args[0].sort == 'I':
                co, m = tm._lin(isub(x.args[1], x.args[0]))
                if abs(m.get(k, 0)) == 1:
                    t = _neg_without(co, m, k)
                    if not mentions(t, [k]) and not free_bound_(t): out += [t, iadd(t, I1), isub(t, I1)]
        return list(dict.fromkeys(out))[:12]
    def solve_exit(self, x, s, st0, k):
        """replace the ghost iteration count by its value where the exit condition determines it"""
        extra = [c for c in x.pc if c not in set(st0.pc)]
        cands = []
        def lin_cands(c):
            if c.op in ('le', 'eq') and c.args[0].sort == 'I':
                d = isub(c.args[1], c.args[0]); co, m = tm._lin(d)
                if abs(m.get(k, 0)) == 1:
                    t = _neg_without(co, m, k)
                    if not mentions(t, [k]):
                        cands.extend([t, iadd(t, I1), isub(t, I1), tmax(t, I0), tmax(iadd(t, I1), I0), tmax(isub(t, I1), I0)])
            elif c.op in ('not', 'and', 'or'):
                for y in c.args: lin_cands(y)
        for c in extra: lin_cands(c)
        for t in dict.fromkeys(cands):
            if solve.valid(x.pc, eq(k, t), 500):
                f = lambda y: subst(y, {k: t})
                pc = st0.pc
                n = St({}, pc, {})
                for c in extra:
                    c2 = f(c)
                    if c2 is TRUE or solve.valid(n.pc, c2, 200): continue
                    n.assume(c2)
                for key, v in x.mem.items():
                    n.mem[key] = subst_layers(v, f) if len(key) == 3 else subst_val(v, f)
                for r, v in x.regs.items(): n.regs[r] = subst_val(v, f)
                return n
        return x

def free_bound_(t): return bool(solve.fv_bound(t))
def _neg_without(co, m, k):
    s = -m[k]
    return iadd(ic(co * s), *[iscale(a, v * s) for a, v in m.items() if a is not k])
def by_stride(t, s):
    """(element, inner offset) of a byte offset whose conditional parts are multiples of the element size"""
    if t.op not in ('ite', 'lin', 'c'): return None
    c, m = tm._lin(t)
    idx = ic((c - c % s) // s)
    for x, v in m.items():
        if v % s == 0: idx = iadd(idx, iscale(x, v // s)); continue
        if x.op != 'ite' or v != 1: return None
        a, b = by_stride(x.args[1], s), by_stride(x.args[2], s)
        if a is None or b is None or a[1] != b[1] or a[1]: return None
        idx = iadd(idx, ite(x.args[0], a[0], b[0]))
    return idx, c % s
def locs_of(x):
    from .prog import locs
    return list(locs(x))
class MixedExit(Exception): pass
def tm_oid():
    from . import sym
    return sym._oid[0]
def has_ghost(c, active=()):
    return any(isinstance(v.data, str) and re.match(r'k!\d', v.data) and v not in active for v in variables(c))
_szc = {}
def size_of(t):
    r = _szc.get(t.id)
    if r is None: r = _szc[t.id] = len(subterms(t))
    return r
def complementary(a, b):
    if not_(a) is b: return True
    return solve.check([not_(a), not_(b)], None, 300) == 'unsat'
def simp_or(a, b):
    return or_(a, b)
def solve_implied(st, c):
    return c in st.pc
from fractions import Fraction
