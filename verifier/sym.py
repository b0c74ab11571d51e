"""Symbolic values, memory objects and states used by the executor."""
from .terms import *
from . import terms as tm
from .layout import Layouts, clean, vector_elem

class Unsupported(Exception):
    """the function uses something the verifier does not model (never reported as a violation)"""

class Ptr:
    __slots__ = ('obj', 'off', 'hint', 'gen')
    def __init__(self, obj, off=I0, hint=None, gen=None):
        self.obj, self.off, self.hint, self.gen = obj, off, hint, gen
    def __repr__(self): return '&%s+%s' % (self.obj.name, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj is o.obj and self.off is o.off and self.gen is o.gen
    def __hash__(self): return hash((self.obj.id, self.off.id))
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'fn:' + self.name
    def __eq__(self, o): return isinstance(o, FnPtr) and self.name == o.name
    def __hash__(self): return hash(self.name)
class Null:
    def __repr__(self): return 'null'
    def __eq__(self, o): return isinstance(o, Null)
    def __hash__(self): return 7
NULL = Null()
class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return '(%s?%r:%r)' % (self.c, self.a, self.b)
    def __eq__(self, o): return isinstance(o, PIte) and (self.c, self.a, self.b) == (o.c, o.a, o.b)
    def __hash__(self): return hash((self.c.id, self.a, self.b))
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()
class Agg:
    """first-class aggregate"""
    __slots__ = ('f',)
    def __init__(self, f): self.f = tuple(f)
    def __repr__(self): return '{%s}' % ', '.join(map(repr, self.f))
    def __eq__(self, o): return isinstance(o, Agg) and self.f == o.f
    def __hash__(self): return hash(self.f)
class Pack(Agg):
    """several adjacent memory cells read as one integer register; offs are relative offsets"""
    __slots__ = ('offs',)
    def __init__(self, f, offs): self.f = tuple(f); self.offs = tuple(offs)
class VecVal:
    """std::vector: a sequence value, or a buffer object (its length lives in the memory cell
    (buffer, '#len') and its iterator generation in (buffer, '#gen'))"""
    __slots__ = ('elem', 'seq', 'buf')
    def __init__(self, elem, seq=None, buf=None): self.elem, self.seq, self.buf = elem, seq, buf
    def __repr__(self): return 'vec<%s>(%s)' % (self.elem, self.seq if self.buf is None else self.buf.name)
    def __eq__(self, o): return isinstance(o, VecVal) and self.elem == o.elem and self.seq is o.seq and self.buf is o.buf
    def __hash__(self): return hash((self.elem, id(self.buf)))

# ---------------------------------------------------------------- sequences
EMPTY = app('lit', (I0,), 'S')
def push(s, xs):
    """sequence with one more element at the end"""
    if s.op == 'app' and s.data == 'lit': return app('lit', (ic(s.args[0].data + 1),) + tuple(s.args[1:]) + tuple(xs), 'S')
    return app('push', (s,) + tuple(xs), 'S')
SEQDEF = {}     # name -> (length, fn(path, sort, idx))
PATHS = {}      # element type -> list of (path, sort)
def seq_len(s):
    if s.op == 'app':
        if s.data == 'push': return iadd(seq_len(s.args[0]), I1)
        if s.data == 'lit': return ic(s.args[0].data)
        if s.data == 'cat': return iadd(seq_len(s.args[0]), seq_len(s.args[1]))
        if s.data in SEQDEF: return SEQDEF[s.data][0](s.args)
    if s.op == 'tabul': return s.args[1]
    if s.op == 'ite': return ite(s.args[0], seq_len(s.args[1]), seq_len(s.args[2]))
    return app('n', (s,), 'I')
def short(elem): return elem.split('::')[-1]
def seq_get(s, elem, path, sort, idx):
    if s.op == 'app':
        if s.data == 'push':
            k = [p for p, _ in PATHS[elem]].index(path)
            c = eq(idx, seq_len(s.args[0]))
            if c is TRUE: return s.args[1 + k]
            r = seq_get(s.args[0], elem, path, sort, idx)
            return r if c is FALSE else ite(c, s.args[1 + k], r)
        if s.data == 'lit':
            n = s.args[0].data; ps = [p for p, _ in PATHS[elem]]; k = ps.index(path)
            vals = [s.args[1 + i * len(ps) + k] for i in range(n)]
            if isc(idx) and 0 <= idx.data < n: return vals[idx.data]
            if not vals: return app('undef:' + path, (idx,), sort)
            r = vals[-1]
            for i in range(n - 2, -1, -1): r = ite(eq(idx, ic(i)), vals[i], r)
            return r
        if s.data == 'cat':
            n0 = seq_len(s.args[0])
            return ite(lt(idx, n0), seq_get(s.args[0], elem, path, sort, idx), seq_get(s.args[1], elem, path, sort, isub(idx, n0)))
        if s.data in SEQDEF: return SEQDEF[s.data][1](s.args, path, sort, idx)
    if s.op == 'tabul': return inst(s, idx).args[[p for p, _ in PATHS[elem]].index(path)]
    if s.op == 'ite': return ite(s.args[0], seq_get(s.args[1], elem, path, sort, idx), seq_get(s.args[2], elem, path, sort, idx))
    return app('%s.%s' % (short(elem), path), (s, idx), sort)

# ---------------------------------------------------------------- objects
_oid = [0]
class Obj:
    __slots__ = ('id', 'name', 'kind', 'size', 'regions', 'leaves', 'init', 'elem', 'tag', 'ro', 'dead')
    def __init__(self, name, kind, size=None, regions=(), leaves=None, init=None, elem=None, tag=None, ro=False):
        _oid[0] += 1
        self.id, self.name, self.kind, self.size, self.regions = _oid[0], name, kind, size, tuple(regions)
        self.leaves, self.init, self.elem, self.tag, self.ro = leaves, init, elem, tag, ro
        self.dead = False
    def __repr__(self): return '<%s#%d>' % (self.name, self.id)
    def region_at(self, off):
        for r in self.regions:
            if r[0] <= off and (r[1] is None or off < r[1]): return r
        return None
    def region_start(self, s):
        for r in self.regions:
            if r[0] == s: return r
        return None

class St:
    __slots__ = ('mem', 'pc', 'regs')
    def __init__(self, mem=None, pc=(), regs=None):
        self.mem = mem if mem is not None else {}
        self.pc = pc
        self.regs = regs if regs is not None else {}
    def copy(self): return St(dict(self.mem), self.pc, dict(self.regs))
    def assume(self, c):
        if c is TRUE: return self
        if c.op == 'and':
            for x in c.args: self.assume(x)
            return self
        if c not in self.pc: self.pc = self.pc + (c,)
        return self

# layers of an array cell: tuple of entries, later entries override earlier ones
#   ('st', idx, val)            a single element
#   ('seg', lo, hi, fn)         elements lo <= i < hi have value fn(i)
#   ('ite', cond, A, B)         layers A if cond else layers B
#   ('loop', fn)                contents while a loop is being analysed: fn(idx, older) -> value
def read_layers(layers, idx, base):
    for n in range(len(layers) - 1, -1, -1):
        e = layers[n]
        if e[0] == 'st':
            c = eq(e[1], idx)
            if c is TRUE: return e[2]
            if c is FALSE: continue
            return merge_val(c, e[2], read_layers(layers[:n], idx, base))
        if e[0] == 'seg':
            c = and_(le(e[1], idx), lt(idx, e[2]))
            if c is TRUE: return e[3](idx)
            if c is FALSE: continue
            return merge_val(c, e[3](idx), read_layers(layers[:n], idx, base))
        if e[0] == 'ite':
            rest = layers[:n]
            return merge_val(e[1], read_layers(rest + e[2], idx, base), read_layers(rest + e[3], idx, base))
        if e[0] == 'loop':
            return e[1](idx, lambda: read_layers(layers[:n], idx, base))
    return base(idx)

def merge_val(c, a, b):
    if a is b or (type(a) is type(b) and not isinstance(a, T) and a == b): return a
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort:
            if {a.sort, b.sort} == {'B', 'I'}:
                a, b = [ite(x, I1, I0) if x.sort == 'B' else x for x in (a, b)]
            else: raise Unsupported('merge of sorts %s %s' % (a.sort, b.sort))
        return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.gen is b.gen:
        return Ptr(a.obj, ite(c, a.off, b.off), a.hint if a.hint == b.hint else None, a.gen)
    pt = (Ptr, PIte, FnPtr, Null)
    if isinstance(a, pt) and isinstance(b, pt): return PIte(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f) and type(a) is type(b):
        f = [merge_val(c, x, y) for x, y in zip(a.f, b.f)]
        return Pack(f, a.offs) if isinstance(a, Pack) else Agg(f)
    if isinstance(a, VecVal) and isinstance(b, VecVal) and a.elem == b.elem and a.buf is None and b.buf is None:
        return VecVal(a.elem, ite(c, a.seq, b.seq))
    raise Unsupported('merge of %r and %r' % (a, b))

def subst_val(v, s):
    if isinstance(v, T): return s(v)
    if isinstance(v, Ptr): return Ptr(v.obj, s(v.off), v.hint, s(v.gen) if v.gen is not None else None)
    if isinstance(v, PIte):
        c = s(v.c)
        if isc(c): return subst_val(v.a if c.data else v.b, s)
        return PIte(c, subst_val(v.a, s), subst_val(v.b, s))
    if isinstance(v, Pack): return Pack([subst_val(x, s) for x in v.f], v.offs)
    if isinstance(v, Agg): return Agg(subst_val(x, s) for x in v.f)
    if isinstance(v, VecVal): return VecVal(v.elem, s(v.seq) if v.seq is not None else None, v.buf)
    return v
def subst_layers(ls, s):
    out = []
    for e in ls:
        if e[0] == 'st': out.append(('st', s(e[1]), subst_val(e[2], s)))
        elif e[0] == 'seg': out.append(('seg', s(e[1]), s(e[2]), (lambda f: lambda i: subst_late(f, i, s))(e[3])))
        elif e[0] == 'ite': out.append(('ite', s(e[1]), subst_layers(e[2], s), subst_layers(e[3], s)))
        else: out.append(e)
    return tuple(out)
def subst_late(f, i, s):
    """apply the substitution to everything in f(i) except i itself"""
    z = fresh('ix', 'I')
    v = subst_val(f(z), s)
    return subst_val(v, lambda t: subst(t, {z: i}))
def val_mentions(v, vs):
    if isinstance(v, T): return mentions(v, vs)
    if isinstance(v, Ptr): return mentions(v.off, vs) or (v.gen is not None and mentions(v.gen, vs))
    if isinstance(v, PIte): return mentions(v.c, vs) or val_mentions(v.a, vs) or val_mentions(v.b, vs)
    if isinstance(v, Agg): return any(val_mentions(x, vs) for x in v.f)
    if isinstance(v, VecVal): return v.seq is not None and mentions(v.seq, vs)
    return False
