"""Contract language.

A contract is attached to a function of /repo by its signature.  It names the parts of the arguments
the result may depend on (reads), a precondition, and a postcondition giving the result (and the
post-state of whatever is modified) as a term over those parts.  A caller sees a call only as an
application of the contract's symbol to the values of the reads (plus the instantiated sequence
contracts); the body is verified against the postcondition and against the frame 'nothing else changes'."""
import re
from fractions import Fraction
from .terms import *
from . import terms as tm
from .sym import *
from . import sym
from .layout import clean, vector_elem
from .prog import split_args, norm_type

# ---------------------------------------------------------------- arithmetic on terms
def co(x, like=None):
    if isinstance(x, T): return x
    if isinstance(x, bool): return bc(x)
    if isinstance(x, int): return ic(x) if like is not None and like.sort == 'I' else rc(x)
    if isinstance(x, (float, Fraction)): return rc(x)
    raise TypeError(x)
def two(a, b):
    if not isinstance(a, T): a = co(a, b if isinstance(b, T) else None)
    if not isinstance(b, T): b = co(b, a)
    if a.sort != b.sort:
        if a.sort == 'I' and b.sort == 'R': a = toreal(a)
        elif a.sort == 'R' and b.sort == 'I': b = toreal(b)
        elif {a.sort, b.sort} == {'B', 'I'}: a, b = [ite(x, I1, I0) if x.sort == 'B' else x for x in (a, b)]
    return a, b
def _r(x):
    x = co(x)
    return toreal(x) if x.sort == 'I' else x
def Add(a, b):
    a, b = two(a, b); return iadd(a, b) if a.sort == 'I' else radd(a, b)
def Sub(a, b):
    a, b = two(a, b); return isub(a, b) if a.sort == 'I' else rsub(a, b)
def Mul(a, b):
    a, b = two(a, b); return imul(a, b) if a.sort == 'I' else rmul(a, b)
def Div(a, b): return rdiv(_r(a), _r(b))
T.__add__ = Add; T.__radd__ = lambda a, b: Add(b, a)
T.__sub__ = Sub; T.__rsub__ = lambda a, b: Sub(b, a)
T.__mul__ = Mul; T.__rmul__ = lambda a, b: Mul(b, a)
T.__truediv__ = Div; T.__rtruediv__ = lambda a, b: Div(b, a)
T.__neg__ = lambda a: rneg(a) if a.sort == 'R' else iscale(a, -1)
def Pow(a, b):
    if isinstance(b, int):
        if b == 0: return ONE
        r = rmul(*[_r(a)] * abs(b)) if abs(b) > 1 else _r(a)
        return r if b > 0 else rdiv(ONE, r)
    return fn('pow', _r(a), _r(b))
T.__pow__ = Pow
def Lt(a, b): return lt(*two(a, b))
def Le(a, b): return le(*two(a, b))
def Gt(a, b): return lt(*reversed(two(a, b)))
def Ge(a, b): return le(*reversed(two(a, b)))
def Eq(a, b):
    a, b = two(a, b); return eq(a, b)
def Ne(a, b): return not_(Eq(a, b))
def If(c, a, b):
    a, b = two(a, b); return ite(c, a, b)
def And(*a): return and_(*a)
def Or(*a): return or_(*a)
def Not(a): return not_(a)
def Implies(a, b): return implies(a, b)
def Exp(x): return fn('exp', _r(x))
def Log(x): return fn('log', _r(x))
def Log10(x): return fn('log10', _r(x))
def Log1p(x): return fn('log', radd(ONE, _r(x)))
def Sqrt(x): return fn('sqrt', _r(x))
def Abs(x): return fn('fabs', _r(x))
def Min(a, b):
    a, b = two(a, b); return ite(lt(b, a), b, a)
def Max(a, b):
    a, b = two(a, b); return ite(lt(a, b), b, a)
def R(x): return _r(x)
def Sum(n, f, lo=0):
    return sum_(co(lo, I0), co(n, I0), lambda j: _r(f(j)))
def Prod(n, f, lo=0): return prod_(co(lo, I0), co(n, I0), lambda j: _r(f(j)))
def All(n, f, lo=0): return forall(co(lo, I0), co(n, I0), f)
def Any(n, f, lo=0): return exists(co(lo, I0), co(n, I0), f)
def Quad(rule, a, b, f): return quad(rule, _r(a), _r(b), lambda x: _r(f(x)))
def Tab(name, i): return app('tab:' + name, (co(i, I0),), 'R')
def Bit(x, mask):
    """x & mask != 0 for a one-bit mask"""
    return bitset(x, mask.bit_length() - 1)
def Trunc(x): return trunc_(_r(x))
def Case(*cs):
    """Case((cond, value), ..., default)"""
    r = cs[-1]
    for c, v in reversed(cs[:-1]): r = If(c, v, r)
    return r
def Rec_(names, init, step):
    """recurrence: step(k, state tuple) -> state tuple; returns list of functions of k"""
    k = var('%k', 'I')
    init = [co(x) for x in init]
    st = tuple(var('%%s%d' % i, x.sort) for i, x in enumerate(init))
    ns = tuple(co(x) for x in step(k, st))
    ld = LoopDef(tuple(names), tuple(init), st, ns, k)
    return [lambda kk, i=i: recval(ld, i, co(kk, I0)) for i in range(len(init))]

# ---------------------------------------------------------------- views of arguments
LAY = None      # layouts of the program under verification
SEQ_ELEM = {}   # leaf type -> element type
class RecV:
    """record value: path -> term"""
    def __init__(self, ty, get, pre=''):
        object.__setattr__(self, '_ty', ty); object.__setattr__(self, '_get', get); object.__setattr__(self, '_pre', pre)
    def __getattr__(self, n):
        p = self._pre + n
        for off, path, kind, t in LAY.leaves(self._ty):
            if path == p:
                v = self._get(p)
                if kind == 'V': return SeqV(vector_elem(t), v)
                if kind == 'A': return SeqV(t[0], v)
                return v
            if path.startswith(p + '.'): return RecV(self._ty, self._get, p + '.')
        raise AttributeError('%s has no member %s' % (self._ty, p))
    def with_(self, **kw):
        old = self._get
        new = {self._pre + k: (v if isinstance(v, T) else (v.s if isinstance(v, SeqV) else rc(v))) for k, v in kw.items()}
        return RecV(self._ty, lambda p: new[p] if p in new else old(p), self._pre)
    def leaf(self, p): return self._get(self._pre + p)
class SeqV:
    """sequence value with element view"""
    def __init__(self, elem, s): self.elem, self.s = elem, s
    @property
    def n(self): return sym.seq_len(self.s)
    def __getitem__(self, i):
        i = co(i, I0)
        el = self.elem
        ls = [(o, p or 'v', k, t) for o, p, k, t in LAY.leaves(el)]
        if el not in PATHS: PATHS[el] = [(p, k if k in 'RI' else 'S') for o, p, k, t in ls if k in 'RIVOP']
        if len(ls) == 1 and ls[0][1] == 'v': return seq_get(self.s, el, 'v', ls[0][2], i)
        def get(p):
            for o, q, k, t in ls:
                if q == p: return seq_get(self.s, el, p, k if k in 'RI' else 'S', i)
            raise AttributeError(p)
        return RecV(el, get)
def record(ty, **kw):
    """record value from leaf terms"""
    d = {k: (v.s if isinstance(v, SeqV) else v if isinstance(v, T) else rc(v)) for k, v in kw.items()}
    return RecV(ty, lambda p: d[p])
TYPES = {'Projectile': 'catima::Projectile', 'Material': 'catima::Material', 'Target': 'catima::Target', 'Config': 'catima::Config',
         'Layers': 'catima::Layers', 'Result': 'catima::Result', 'Phasespace': 'catima::Phasespace', 'DataPoint': 'catima::DataPoint',
         'MultiResult': 'catima::MultiResult', 'Data': 'catima::Data'}
SCALAR = {'double': 'R', 'float': 'R', 'int': 'I', 'bool': 'B', 'unsigned int': 'I', 'unsigned long': 'I', 'unsigned char': 'I', 'long': 'I', 'material': 'I', 'size_t': 'I', 'short': 'I', 'char': 'I'}
def view(name, off, n):
    """elements off..off+n-1 of the array read as app(name, (index,)), as a sequence"""
    return app('view', (var(name, 'S'), co(off, I0), co(n, I0)), 'S')
def _view_get(a, path, sort, idx):
    nm = a[0].data if a[0].op == 'v' else None
    if nm is None: raise Unsupported('view')
    i = iadd(a[1], idx)
    if isc(i) and nm.startswith('tab:') and 0 <= i.data < len(tm.TABLES.get(nm[4:], ())): return rc(tm.TABLES[nm[4:]][i.data])
    return app(nm, (i,), sort)
SEQDEF['view'] = (lambda a: a[2], _view_get)
def view_at(E, st, p, n, text=''):
    """view of n elements of an array starting at a pointer; emits the obligation that they exist"""
    if isinstance(p, PIte): raise Unsupported('view of merged pointer')
    o = p.obj
    q = E.quiet; E.quiet += 1
    try: l = E.loc(st, p, 8)
    finally: E.quiet = q
    if l[0] != 'r': raise Unsupported('view of a scalar')
    if st.mem.get((o.id,) + l[2]): raise Unsupported('view of a modified array')
    c = E.count(st, o, o.region_start(l[2][0]))
    if c is not None: E.oblige('bounds', st, and_(le(I0, l[3]), le(iadd(l[3], ic(n)), c)), '%d elements from index %s within %s%s' % (n, l[3], o.name, text))
    j = fresh('v', 'I')
    t = o.init(l[2], j)
    if not (isinstance(t, T) and t.op == 'app' and len(t.args) == 1): raise Unsupported('view of %s' % o.name)
    d = isub(t.args[0], j)
    return view(t.data, iadd(l[3], d), n)
def ptype(t):
    """contract parameter type -> (kind, full type)"""
    m = re.match(r'(\w+)\[(\d+)\]$', t)
    if m: return ('arr', (m.group(1), int(m.group(2))))
    if t in SCALAR: return ('scalar', t)
    if t.startswith('vector<'): return ('vec', clean(t[7:-1]))
    if t == 'initlist3': return ('ilist', 'vf::triple')
    if t in TYPES: return ('rec', TYPES[t])
    if LAY is not None and t in LAY.recs: return ('rec', t)
    if LAY is not None and 'catima::' + t in LAY.recs: return ('rec', 'catima::' + t)
    return ('rec', t)

class Env:
    """values of a contract's parameters"""
    def __init__(self, d): self.__dict__.update(d)

REG = {}        # key -> Contract
BYNAME = {}     # symbol -> Contract
ORDER = []

class Contract:
    """see module docstring.
    sig    'catima::f(Type name, ...)'; for member functions 'this' is implicit
    name   symbol; default the unqualified function name
    ret    'R' | 'I' | 'B' | record type | 'vector<..>' | 'pair' | 'void' | 'ref'
    reads  list of 'param' / 'param.leaf'
    post   e -> term | {leaf: term} | (len, fn(j))
    """
    def __init__(self, sig, name=None, ret='R', reads=None, pre=None, post=None, mod=None, props=(), trusted=None, rule=None, free=False, doc='',
                 facts=None, vec=None, custom=None, init=None, native=True, sample=None, alias=None, nanmode=False, expand=False, goals=None, rel=None, evalf=None, hints=None, inline=False, refto=None, search=None, full=(), nokey=(), anyfp=False, own=None, setup=None):
        m = re.match(r'(.*)\((.*)\)$', sig)
        if m: q, a = m.group(1), m.group(2)
        else: q, a = sig, None
        self.qual = q
        self.params = []
        types = []
        for x in split_args(a or ''):
            ty, nm = x.rsplit(' ', 1)
            self.params.append((nm, ty)); types.append(re.sub(r'\[\d+\]$', '', ty))
        self.key = q if (a is None) else '%s(%s)' % (q, ', '.join(types))
        self.cfun = '::' not in q
        if self.cfun: self.key = q
        self.cls = q.rsplit('::', 1)[0] if '::' in q else None
        self.member = bool(re.match(r'catima::(Material|Layers|Data|DataPoint|Projectile|Target|EnergyTable<\d+>|LogVArray<\d+>|LinearVArray<\d+>|InterpolatorCSpline<.*>|cspline_special<.*>|tridiagonal_matrix<\d+>)$', self.cls or '')) or (self.cls or '').startswith('integrators::')
        if free: self.member = False
        self.name = name or q.rsplit('::', 1)[-1]
        self.ret, self.pre, self.post, self.mod = ret, pre, post, mod
        self.props, self.trusted, self.doc = tuple(props), trusted, doc
        self._reads = reads.split() if isinstance(reads, str) else reads
        self.facts, self.custom, self.init_extra, self.native, self.sample = facts, custom, init, native, sample
        self.nanmode = nanmode; self.alias = alias
        self.rel, self.evalf, self.hints = rel, evalf, hints   # relational postcondition (e, result) -> [(text, term)]; its numeric meaning; lemma instances for its proof
        if goals: self.goals = goals
        self.vec = vec; self.refto = refto
        self.full = full          # properties this contract decides through its whole postcondition although they only ask for purity of others
        self.nokey = nokey        # members of the result that may not depend on density, thickness or energy
        self.search = search      # (native driver, seconds, seed) -> (failing input, what differs, number tried) for functions with state
        self.inline = inline      # callers execute the body (which is verified against this contract on its own)
        self.expand = expand      # accessors: callers use the postcondition itself instead of a symbol
        assert self.name not in BYNAME, self.name
        self.anyfp = anyfp        # verified with arbitrary results of all floating-point operations (NaN included)
        self.own = own            # a second contract of the function, verified with these contracts of its callees; callers do not see it
        self.setup = setup        # (E, contract, function) -> symbolic arguments, for functions whose objects have no plain layout
        self.soft = False         # undischarged obligations without a failing input among the searched ones are reported as bounded
        if own is None:
            assert self.key not in REG, self.key
            REG[self.key] = self
        BYNAME[self.name] = self; ORDER.append(self)
        if ret.startswith('vector<'):
            c = self
            def ln(args): return co(c.post(c.env_of_reads(args))[0], I0)
            def el(args, path, sort, idx): return co(c.post(c.env_of_reads(args))[1](idx))
            SEQDEF[self.name] = (ln, el)
    # ---- parameters
    def all_params(self):
        return ([('this', self.cls)] if self.member else []) + self.params
    def reads(self):
        """list of (param, leaf or None, sort)"""
        if getattr(self, '_rl', None) is not None: return self._rl
        out = []
        pd = dict(self.all_params())
        names = self._reads
        if names is None: names = [n for n, t in self.all_params()]
        for r in names:
            p, _, leaf = r.partition('.')
            k, t = ptype(pd[p]) if p != 'this' else ('rec', self.cls)
            if k == 'scalar': out.append((p, None, SCALAR[t]))
            elif k in ('vec', 'arr'): out.append((p, None, 'S'))
            else:
                for off, path, kind, ty in LAY.leaves(t):
                    if kind not in 'RIVOA': continue
                    if not leaf or leaf == '*' or path == leaf or path.startswith(leaf + '.'):
                        out.append((p, path, kind if kind in 'RI' else 'S'))
        self._rl = out
        return out
    def env_of_reads(self, args):
        d = {}
        pd = dict(self.all_params())
        groups = {}
        for (p, leaf, s), a in zip(self.reads(), args): groups.setdefault(p, {})[leaf] = a
        for p, t in self.all_params():
            k, ft = ptype(t) if p != 'this' else ('rec', self.cls)
            g = groups.get(p)
            if k == 'scalar':
                if g: d[p] = g[None]
            elif k == 'vec':
                if g: d[p] = SeqV(ft, g[None])
            elif k == 'arr':
                if g: d[p] = SeqV(ft[0], g[None])
            else:
                def get(path, g=g or {}, p=p):
                    if path in g: return g[path]
                    raise KeyError('%s reads %s.%s outside its contract' % (self.name, p, path))
                d[p] = RecV(ft, get)
        return Env(d)
    def args_of_env(self, e):
        out = []
        for p, leaf, s in self.reads():
            v = getattr(e, p)
            if leaf is not None: v = v.leaf(leaf) if isinstance(v, RecV) else v[leaf]
            elif isinstance(v, SeqV): v = v.s
            else:
                v = co(v, I0 if s == 'I' else None)
                if s == 'R' and v.sort == 'I': v = toreal(v)
                if s == 'I' and v.sort == 'B': v = ite(v, I1, I0)
            out.append(v)
        return out
    def __call__(self, *args):
        """symbol applied to argument values, for use inside other contracts"""
        ps = self.all_params()
        e = Env({n: a for (n, t), a in zip(ps, args)})
        return self.symbol(self.args_of_env(e))
    def symbol(self, rargs, leaf=None):
        s = self.ret
        if self.expand:
            r = self.post(self.env_of_reads(rargs))
            if s in ('R', 'I', 'B'): return co(r, I0 if s == 'I' else None)
            if isinstance(r, dict): return RecV(ptype(s)[1], lambda p: r[p].s if isinstance(r[p], SeqV) else r[p])
            return r
        if s in ('R', 'I', 'B'): return app(self.name, rargs, s)
        if s.startswith('vector<'): return SeqV(clean(s[7:-1]), app(self.name, rargs, 'S'))
        if s == 'pair': return (app(self.name + '.first', rargs, 'R'), app(self.name + '.second', rargs, 'R'))
        if s in ('void', 'ref'): return None
        ty = ptype(s)[1]
        def get(p):
            for off, path, kind, t in LAY.leaves(ty):
                if path == p:
                    if kind == 'V': self.seqleaf(p)
                    return app('%s.%s' % (self.name, p), rargs, kind if kind in 'RI' else 'S')
            raise AttributeError(p)
        return RecV(ty, get)
    def seqleaf(self, p):
        """meaning of a vector member of a record result that the contract gives element by element"""
        nm = '%s.%s' % (self.name, p)
        if nm in SEQDEF or self.post is None: return
        def val(args):
            r = self.post(self.env_of_reads(args))
            r = r[p] if isinstance(r, dict) else r.leaf(p)
            return r
        def ln(args):
            r = val(args)
            return co(r[0], I0) if isinstance(r, tuple) else sym.seq_len(r.s if isinstance(r, SeqV) else r)
        def el(args, path, sort, idx):
            r = val(args)
            if isinstance(r, tuple): return co(r[1](idx) if path == 'v' else r[1](idx, path))
            if isinstance(r, SeqV): r = r.s
            return seq_get(r, vector_elem(next(t for o, q, k, t in LAY.leaves(ptype(self.ret)[1]) if q == p)), path, sort, idx)
        SEQDEF[nm] = (ln, el)
    def definition(self, args, leaf=None):
        """the postcondition as a term (used to unfold the symbol)"""
        e = self.env_of_reads(args)
        r = self.post(e)
        if leaf is not None:
            if isinstance(r, dict): return r[leaf]
            if isinstance(r, tuple): return co(r[0 if leaf == 'first' else 1])
            return r.leaf(leaf)
        r = co(r, I0 if self.ret == 'I' else None)
        if self.ret == 'R' and r.sort == 'I': r = toreal(r)
        return r
    # ---- call sites
    def bind(self, E, st, vals, i=None):
        vals = list(vals)
        sret = None
        if self.ret not in ('R', 'I', 'B', 'void', 'pair', 'ref'):
            if not self.agg_ret(): sret = vals.pop(0)
        d, ptrs = {}, {}
        for p, t in self.all_params():
            k, ft = ptype(t) if p != 'this' else ('rec', self.cls)
            v = vals.pop(0)
            if k == 'scalar':
                if isinstance(v, (Ptr, PIte)): v = E.load(st, {'R': ('f64',), 'I': ('i', 32), 'B': ('i', 8)}[SCALAR[ft]], v)
                if not isinstance(v, T): raise Unsupported('argument %s of %s is %r' % (p, self.name, v))
                s = SCALAR[ft]
                if s == 'B' and v.sort == 'I': v = E.asbool(v)
                if s == 'I' and v.sort == 'B': v = ite(v, I1, I0)
                d[p] = v
            elif k == 'vec':
                w = E.getvec(st, v); d[p] = SeqV(ft, E.to_seq(st, w)); ptrs[p] = v
            elif k == 'arr':
                d[p] = SeqV(ft[0], view_at(E, st, v, ft[1])); ptrs[p] = v
            elif k == 'ilist':
                n = vals.pop(0)
                if not isc(n): raise Unsupported('initializer list of unknown length')
                d[p] = SeqV(ft, app('lit', (n,) + tuple(E.read(st, E.addp(v, 24 * j + 8 * q)) for j in range(n.data) for q in range(3)), 'S'))
            else:
                ptrs[p] = v
                def get(path, v=v, ft=ft):
                    for off, q, kind, ty in LAY.leaves(ft):
                        if q == path:
                            if kind == 'A': return view_at(E, st, E.addp(v, off), ty[1])
                            x = E.read(st, E.addp(v, off))
                            if isinstance(x, VecVal): x = E.to_seq(st, x)
                            if isinstance(x, T) and x.sort == 'B': x = ite(x, I1, I0)
                            if not isinstance(x, T): raise Unsupported('%s.%s of %s is %r' % (p, path, self.name, x))
                            return x
                    raise AttributeError(path)
                d[p] = RecV(ft, get)
        return Env(d), ptrs, sret
    def agg_ret(self):
        """record returned in registers"""
        return False
    def apply(self, E, st, vals, i):
        if self.custom: return self.custom(self, E, st, vals, i)
        e, ptrs, sret = self.bind(E, st, vals, i)
        if self.pre and not E.quiet:
            for g in as_list(self.pre(e)):
                E.oblige('pre', st, g, 'precondition of %s: %s' % (self.name, show(g, 4)))
        rargs = self.args_of_env(e) if self.ret not in ('void', 'ref') else None
        ret = ptrs['this'] if self.ret == 'ref' else None
        if self.mod:
            post = self.mod(e)
            for path, v in post.items():
                p, _, leaf = path.partition('.')
                E.write_record(st, ptrs[p], self.ptypes()[p], {leaf: v.s if isinstance(v, SeqV) else v})
        if self.ret in ('R', 'I', 'B'): ret = self.symbol(rargs)
        elif self.ret == 'pair': ret = Agg(self.symbol(rargs))
        elif self.ret.startswith('vector<'):
            s = self.symbol(rargs); E.write(st, sret, VecVal(s.elem, s.s))
            E.vec_paths(s.elem)
        elif self.ret not in ('void', 'ref'):
            ty = ptype(self.ret)[1]; s = self.symbol(rargs)
            E.write_record(st, sret, ty, {path: s.leaf(path) for off, path, kind, t in LAY.leaves(ty) if kind in 'RIVO'})
        if self.facts:
            for f in as_list(self.facts(e, ret)): st.assume(f)
        if self.rel:
            for text, f in self.rel(e, ret): st.assume(f)
        return [(st, ret)]
    def ptypes(self):
        return {p: (ptype(t)[1] if p != 'this' else self.cls) for p, t in self.all_params()}
def as_list(x): return x if isinstance(x, (list, tuple)) else [x]
class Lemma:
    """consequence of contracts: goals() -> [(text, facts, goal)], proved over the contracts' postconditions"""
    def __init__(self, name, props, goals, doc=''):
        self.name, self.props, self.goals, self.doc = name, tuple(props), goals, doc
        ORDER.append(self)
class Item:
    """obligations that are not about one function: run(ctx) -> [dict(text, ok, ...)] (see check.py)"""
    def __init__(self, name, props, run, doc='', kind='proof'):
        self.name, self.props, self.run, self.doc, self.kind = name, tuple(props), run, doc, kind
        ORDER.append(self)
C = Contract
