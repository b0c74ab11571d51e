"""Searching for and replaying failing inputs on the real code.

The oracle is the contract: its postcondition evaluated numerically, with the results of callees taken
from the real functions (or from their own contracts when a function is not callable)."""
import math, random, time, json, os, itertools
from . import spec, terms as tm, golden, solve
from .terms import *
from .spec import *
from .native import Native, Crash, REC
from .contracts import const

class Skip(Exception): pass
LN10 = 2.30258509299404568401799145468
def grid(lo, hi, n): return [math.exp(LN10 * (lo + i * (hi - lo) / (n - 1.0))) for i in range(n)]

class Oracle:
    def __init__(self, nat, use_native=True):
        self.nat, self.use_native = nat, use_native
        self.globs = {'glob:catima::energy_table+0': grid(-3, 7, const.MAXE), 'glob:catima::ls_coefficients::ls_energy_table+0': grid(0, 7, 200)}
        self.memo = {}; self.arrs = {}
        from .contracts import grid as g
        for name, (N, a, b) in g.GLOBALS.items():
            try: v, s, n = g.offs(N)
            except KeyError: continue
            tm.GLOBVALS.update({'@%s+%d' % (name, s): (b - a) / (N - 1.0), '@%s+%d' % (name, n): N})
        self.depth = 0; self.noise = None
    def uf(self, name, a):
        if name == 'view':
            key = (name,) + tuple(a)
            if key not in self.memo: self.memo[key] = tuple(self.uf(a[0], (a[1] + i,)) for i in range(a[2]))
            return self.memo[key]
        if name.startswith('arr:'): return self.arrs[name[4:]][a[0]]
        if name == 'n' or name == 'len': return len(a[0])
        if name == 'fabs': return abs(a[0])
        if name.startswith('tab:'):
            t = tm.TABLES.get(name[4:])
            if t is None or not (0 <= a[0] < len(t)): raise Skip('table %s[%s]' % (name, a[0]))
            v = t[int(a[0])]
            return v if isinstance(v, int) else float(v)
        if name in self.globs:
            g = self.globs[name]
            if not 0 <= a[0] < len(g): raise Skip('grid index')
            return g[a[0]]
        if name in ('range_table', 'range_straggling_table', 'angular_variance_table'): return (name[:-5] + 'spline',) + tuple(self.freeze(x) for x in a)
        if name == 'spline_of': return a[0]
        if name in ('S_eval', 'S_deriv'):
            return self.spline(a[0], a[1])[0 if name == 'S_eval' else 1]
        if name.startswith('tuple:'):
            ps = [p for p, _ in PATHS[name[6:]]]
            return a[0] if ps == ['v'] else dict(zip(ps, a))
        if name == 'push': return list(a[0]) + [self.elem(a[1:])]
        if name == 'cat': return list(a[0]) + list(a[1])
        if name == 'atoms_of': return [dict(A=x['a'] if x['a'] > 0 else self.uf('element_atomic_weight', (int(x['b']),)), Z=int(x['b']), stn=x['c']) for x in a[0]]
        if name == 'lit' and a[0] and (len(a) - 1) // a[0] in (3, 5):
            w = (len(a) - 1) // a[0]
            return [self.elem(a[1 + i * w:1 + (i + 1) * w]) for i in range(a[0])]
        if name == 'lit':
            return a[1:]
        c = BYNAME.get(name); leaf = None
        if c is None and '.' in name:
            h, _, leaf = name.partition('.')
            if isinstance(a[0], (list, tuple)) and len(a) == 2 and h not in BYNAME:
                if not 0 <= a[1] < len(a[0]): raise Skip('index')
                x = a[0][a[1]]
                return x if leaf == 'v' else x[leaf]
            c = BYNAME.get(h)
        if c is None: raise EvalError('no meaning for %s' % name)
        key = (name, tuple(self.freeze(x) for x in a))
        if key in self.memo: return self.memo[key]
        r = self.contract(c, a, leaf)
        if len(self.memo) > 200000: self.memo.clear()
        self.memo[key] = r
        return r
    def elem(self, a):
        """element of a sequence from its leaf values"""
        if len(a) == 1: return a[0]
        ty = {3: 'catima::Target', 5: 'catima::Material'}.get(len(a))
        if ty is None: raise EvalError('element of %d leaves' % len(a))
        return dict(zip([p for o, p, k, t in spec.LAY.leaves(ty)], a))
    def freeze(self, x):
        if isinstance(x, list): return tuple(self.freeze(y) for y in x)
        if isinstance(x, dict): return tuple(sorted((k, self.freeze(v)) for k, v in x.items()))
        return x
    def contract(self, c, a, leaf):
        if c.evalf: return c.evalf(*a)
        if self.use_native and self.nat is not None and self.nat.has(c.name) and c.native and c.ret in ('R', 'I', 'B') or (self.nat is not None and self.nat.has(c.name) and c.ret not in ('R', 'I', 'B', 'void', 'ref')):
            args = default_args(c)
            for (p, lf, s), v in zip(c.reads(), a):
                if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].endswith('_spline'): args[p] = self.spline_arg(v)
                elif lf is None: args[p] = v
                else: setleaf(args[p], lf, v)
            try: ret, outs = self.nat.call(c.name, [args[p] for p, t in c.all_params()])
            except Crash as x: raise Skip('callee %s crashed' % c.name)
            if leaf is None: return ret
            for k in leaf.split('.'): ret = ret[k]
            return ret
        return self.by_spec(c, a, leaf)
    def by_spec(self, c, a, leaf):
        if self.depth > 30: raise Skip('depth')
        self.depth += 1
        try:
            vs = []; env = {}
            for n, ((p, lf, s), v) in enumerate(zip(c.reads(), a)):
                x = var('?%d' % n, s); vs.append(x); env[x.data] = v
            key = (c.name, leaf)
            t = c.definition(vs, leaf)
            return tm.evaluate(t, env, self.uf, self.noise)
        finally: self.depth -= 1
    def spline_arg(self, ident):
        name, A, Z, Q, mm, ip, atoms = ident[:7]
        cfg = ident[7:]
        p = dict(A=A, Z=Z, Q=Q, T=1.0)
        m = dict(rho=1.0, th=0.0, molar_mass=mm, i_potential=ip, atoms=[dict(t) for t in atoms])
        c = dict(zip([q for o, q, k, t in spec.LAY.leaves('catima::Config')], cfg))
        return dict(p=p, m=m, c=c, kind={'range_spline': 0, 'range_straggling_spline': 1, 'angular_variance_spline': 2}[name])
    def spline(self, ident, x):
        key = ('spl', ident, x)
        if key in self.memo: return self.memo[key]
        from .native import pack
        ds = []
        pack('SplineArg', self.spline_arg(ident), ds)
        try: r = self.nat.raw('!spline', ds + [float(x)])
        except Crash: raise Skip('spline')
        self.memo[key] = r
        return r
    def value(self, t, env):
        if isinstance(t, (int, float, bool)): return t
        return tm.evaluate(t, env, self.uf, self.noise)
def setleaf(d, path, v):
    ks = path.split('.')
    for k in ks[:-1]: d = d[k]
    d[ks[-1]] = v
def getleaf(d, path):
    for k in path.split('.'): d = d[k]
    return d
def default_args(c):
    d = {}
    for p, t in c.all_params():
        k, ft = ptype(t) if p != 'this' else ('rec', c.cls)
        d[p] = default_value(k, ft)
    return d
def default_value(k, ft):
    if k == 'scalar': return {'R': 1.0, 'I': 1, 'B': False}[SCALAR[ft]]
    if k in ('vec', 'ilist'): return []
    if ft == 'catima::Projectile': return dict(A=12.0, Z=6.0, Q=6.0, T=100.0)
    if ft == 'catima::Target': return dict(A=12.0, Z=6, stn=1.0)
    if ft == 'catima::Material': return dict(rho=1.0, th=0.01, molar_mass=12.0, i_potential=0.0, atoms=[dict(A=12.0, Z=6, stn=1.0)])
    if ft == 'catima::Config': return dict(z_effective=1, corrections=0, calculation=1, low_energy=0, scattering=255, scattering_factor=1.0)
    if ft == 'catima::Layers': return dict(materials=[default_value('rec', 'catima::Material')])
    if ft == 'catima::Phasespace': return dict(sigma_x=0.0, sigma_a=0.0, cov_x=0.0)
    if 'InterpolatorCSpline' in ft: return dict(p=default_value('rec', 'catima::Projectile'), m=default_value('rec', 'catima::Material'), c=default_value('rec', 'catima::Config'), kind=0)
    raise Skip('no default for ' + ft)

# ---------------------------------------------------------------- inputs
AW = {1: 1.008, 2: 4.0026, 3: 6.94, 4: 9.0122, 5: 10.81, 6: 12.011, 7: 14.007, 8: 15.999, 10: 20.18, 13: 26.982, 14: 28.085, 18: 39.948, 22: 47.867, 26: 55.845, 29: 63.546, 32: 72.63, 47: 107.87, 50: 118.71, 54: 131.29, 74: 183.84, 79: 196.97, 82: 207.2, 83: 208.98, 92: 238.03}
def aw(z): return AW.get(z) or (z * (2.0 + 0.006 * z))
class Sampler:
    def __init__(self, seed=1, special=None, bounds=None):
        self.r = random.Random(seed); self.special = special or {}; self.bounds = bounds or {}
    def sp(self, name, default, prob=0.5):
        b = self.bounds.get(name)
        if b and self.r.random() < 0.95: return self.inside(b, default)
        v = self.special.get(name)
        if v and self.r.random() < prob:
            return self.r.choice(v)
        return default()
    def inside(self, b, default):
        """a value within bounds taken from a path condition"""
        lo, hi, k = b
        if k == 'I':
            lo = lo if lo is None else math.ceil(lo); hi = hi if hi is None else math.floor(hi)
        for _ in range(6):
            v = default()
            if (lo is None or v >= lo) and (hi is None or v <= hi): return v
        if k == 'I':
            if lo is None: lo = hi - 50
            if hi is None: hi = lo + 50
            return self.r.choice([lo, hi, self.r.randint(lo, hi)]) if lo <= hi else default()
        if lo is None: lo = hi - max(1.0, abs(hi)) if hi <= 0 or self.r.random() < 0.1 else hi * 10 ** self.r.uniform(-6, 0)
        if hi is None: hi = lo + max(1.0, abs(lo)) * 10 ** self.r.uniform(-3, 3)
        if lo > hi: return default()
        if lo > 0 and hi / lo > 10 and self.r.random() < 0.5: return self.logu(lo, hi)
        if lo == 0 and hi > 0 and self.r.random() < 0.5: return hi * 10 ** self.r.uniform(-8, 0)
        return self.r.choice([lo, hi, self.r.uniform(lo, hi), self.r.uniform(lo, hi), self.r.uniform(lo, hi)])
    def logu(self, a, b): return math.exp(self.r.uniform(math.log(a), math.log(b)))
    def energy(self): return self.r.choice([lambda: self.logu(1e-4, 1e6), lambda: self.logu(0.1, 2000), lambda: self.r.uniform(1, 50), lambda: self.r.choice([0.001, 0.025, 1.0, 2.5, 10.0, 20.0, 30.0, 100.0, 1000.0, 2000.0, 1e5])])()
    def z(self): return self.r.choice([lambda: self.r.randint(1, 20), lambda: self.r.randint(1, 118), lambda: self.r.choice([1, 2, 3, 4, 6, 7, 8, 13, 14, 18, 19, 20, 26, 28, 29, 32, 47, 54, 79, 82, 92, 93, 97, 98, 99, 106, 107, 108, 109, 110])])()
    def scalar(self, name, t):
        r = self.r; s = SCALAR[t]; n = name.lower()
        if s == 'B': return bool(r.randint(0, 1))
        if s == 'I':
            if n in ('z', 'pz', 'tz', 'zt', 'zp', 'zt'): return self.z()
            if n == 'at' or n == 'ap': return r.randint(1, 250)
            if n == 'order': return r.randint(0, 3)
            return r.choice([lambda: r.randint(-2, 6), lambda: r.randint(-400, 400), lambda: r.choice([-2147483648, 2147483647, -1, 0, 1, 99, 100, 109, 110, 120, 130, 200, 201, 340, 350])])()
        if n in ('beta', 'beta1'): return r.choice([lambda: r.uniform(0.001, 0.9999), lambda: 1 - self.logu(1e-6, 0.5)])()
        if n in ('z', 'pz', 'tz', 'z1', 'z2', 'zt', 'zp'): return float(self.z())
        if n in ('zp_eff',): return r.uniform(0.1, 90)
        if n in ('eta',): return self.logu(1e-3, 100)
        if n in ('m', 'm2', 'ta', 'pa', 'ap', 'at', '_a', 'a'): return r.choice([0.0, r.uniform(1, 250), float(r.randint(1, 250))]) if n in ('_a', 'ta') else r.uniform(1, 250)
        if n in ('i', 'ipot', '_ipot'): return r.choice([0.0, r.uniform(10, 900)])
        if n in ('es2', 'x', 'x0'): return self.logu(0.1, 500)
        if n in ('thickness', 'th', '_th', 'l'): return r.choice([0.0, self.logu(1e-5, 50)])
        if n in ('density', '_rho', '_density', 'rho'): return r.choice([-1.0, 0.0, self.logu(1e-4, 20)])
        if n in ('sigma', 'cs', 'rcs_projectile', 'rcs_product'): return r.choice([0.0, r.uniform(0, 3000), r.uniform(1000, 1010)])
        if n in ('_stn', 'stn'): return r.choice([r.uniform(0, 1), 1.0, float(r.randint(1, 20))])
        return self.energy()
    def projectile(self, pre):
        z = self.sp(pre + '.Z', lambda: float(self.z()), 0.2)
        a = self.sp(pre + '.A', lambda: self.r.choice([float(round(aw(int(max(1, min(z, 118)))))), self.r.uniform(1, 280)]), 0.1)
        q = self.sp(pre + '.Q', lambda: self.r.choice([float(z), float(max(1, z - self.r.randint(0, 5)))]), 0.1)
        return dict(A=a, Z=float(z), Q=q, T=self.sp(pre + '.T', self.energy))
    def target(self, pre, stn=None):
        z = int(self.sp(pre + '.Z', self.z, 0.3))
        return dict(A=self.r.choice([aw(max(1, min(z, 118))), self.r.uniform(1, 250)]), Z=z, stn=stn if stn is not None else self.sp(pre + '.stn', lambda: self.r.choice([1.0, float(self.r.randint(1, 9)), self.r.uniform(0, 1)])))
    def material(self, pre):
        n = max(0, min(40, self.sp(pre + '.atoms.n', lambda: self.r.choice([1, 1, 2, 3, 4]), 0.3)))
        kind = self.r.randint(0, 2)
        ats = []
        ws = [self.r.uniform(0.05, 1) for _ in range(n)]; s = sum(ws)
        for i in range(n):
            stn = float(self.r.randint(1, 9)) if kind == 0 else ws[i] / s if n > 1 and kind == 1 else self.r.choice([float(self.r.randint(1, 9)), self.r.uniform(0.01, 0.99)])
            t = self.target(pre + '.atoms', stn)
            if self.r.random() < 0.8:
                t['Z'] = self.r.choice(list(AW)); t['A'] = AW[t['Z']]
            ats.append(t)
        if not ats: return dict(rho=1.0, th=self.logu(1e-4, 1), molar_mass=0.0, i_potential=0.0, atoms=[])
        mm = sum(t['A'] * t['stn'] for t in ats) if kind != 1 else 1 / sum(t['stn'] / t['A'] for t in ats)
        return dict(rho=self.sp(pre + '.rho', lambda: self.r.choice([1.0, self.logu(1e-4, 22), aw(ats[0]['Z']) / 12]), 0.2), th=self.sp(pre + '.th', lambda: self.r.choice([self.logu(1e-6, 1e-2), self.logu(1e-3, 20), 0.0, self.r.uniform(0.01, 0.5)]), 0.2),
                    molar_mass=mm, i_potential=self.sp(pre + '.i_potential', lambda: self.r.choice([0.0, 0.0, self.r.uniform(20, 800)]), 0.3), atoms=ats)
    def config(self, pre='c'):
        r = self.r
        b = lambda f: f & 255 if isinstance(f, int) else f
        return dict(z_effective=b(self.sp(pre + '.z_effective', lambda: r.choice([0, 1, 1, 1, 2, 3, 4, 5, 6, 7]), 0.2)), corrections=b(self.sp(pre + '.corrections', lambda: r.choice([0, 0, 1, 2, 4, 8, 3, 5, 9, 15, r.randint(0, 15)]), 0.2)),
                    calculation=b(self.sp(pre + '.calculation', lambda: r.randint(0, 1), 0.2)), low_energy=b(self.sp(pre + '.low_energy', lambda: r.randint(0, 1), 0.2)),
                    scattering=b(self.sp(pre + '.scattering', lambda: r.choice([0, 1, 2, 255]), 0.2)), scattering_factor=self.sp(pre + '.scattering_factor', lambda: r.choice([1.0, 1.0, r.uniform(0.5, 2)])))
    def value(self, name, t, cls=None):
        k, ft = ptype(t) if name != 'this' else ('rec', cls)
        if k == 'scalar': return self.sp(name, lambda: self.scalar(name, ft))
        if k == 'vec':
            n = max(0, min(60, self.sp(name + '.n', lambda: self.r.choice([0, 1, 2, 3, 5]), 0.4)))
            if ft == 'double': return [self.energy() for _ in range(n)]
            if ft == 'catima::Material': return [self.material(name) for _ in range(n)]
            raise Skip('vector of ' + ft)
        if k == 'ilist':
            n = self.r.choice([1, 2, 3, 5])
            fr = self.r.random() < 0.4
            return [dict(a=self.r.choice([0.0, self.r.uniform(1, 250)]), b=float(self.z()), c=self.r.uniform(0.01, 0.99) if fr else self.r.choice([float(self.r.randint(1, 9)), float(self.r.randint(1, 9)), self.r.uniform(0.01, 0.99)])) for _ in range(n)]
        if ft == 'catima::Projectile': return self.projectile(name)
        if ft == 'catima::Target': return self.target(name)
        if ft == 'catima::Material': return self.material(name)
        if ft == 'catima::Config': return self.config(name)
        if ft == 'catima::Layers': return dict(materials=[self.material(name + '.materials') for _ in range(max(0, min(30, self.sp(name + '.materials.n', lambda: self.r.choice([0, 1, 2, 3]), 0.3))))])
        if ft == 'catima::Phasespace': return dict(sigma_x=self.r.choice([0.0, self.r.uniform(0, 1)]), sigma_a=self.r.choice([0.0, self.r.uniform(0, 0.1)]), cov_x=self.r.choice([0.0, self.r.uniform(-0.01, 0.01)]))
        if 'InterpolatorCSpline' in ft: return dict(p=self.projectile('p'), m=self.material('m'), c=dict(default_value('rec', 'catima::Config')), kind=0)
        raise Skip('no sample for ' + ft)
def special_values(ts):
    """values of single variables at which a comparison in the terms changes"""
    out = {}
    def add(n, v):
        l = out.setdefault(n, [])
        for x in ((v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf), v * (1 + 1e-3), v * (1 - 1e-3), v * 1.05, v * 0.95) if isinstance(v, float) else (v, v + 1, v - 1)):
            if x not in l: l.append(x)
    for t in subterms(*ts):
        if t.op not in ('lt', 'le', 'eq') or t.args[0].sort not in 'RI': continue
        a, b = t.args
        if a.sort == 'I':
            c, m = tm._lin(isub(b, a))
            if len(m) == 1:
                x, k = next(iter(m.items()))
                if c % abs(k) == 0: add(vname(x), -c // k if True else 0)
            continue
        for u, v in ((a, b), (b, a)):
            if isc(u) and abs(u.data) < 1e30:
                c = float(u.data)
                if v.op == 'rmul' and len(v.args) == 2 and isc(v.args[0]) and v.args[0].data != 0: c /= float(v.args[0].data); v = v.args[1]
                if v.op == 'radd' and len(v.args) == 2 and isc(v.args[1]): c -= float(v.args[1].data); v = v.args[0]
                if v.op == 'toreal': add(vname(v.args[0]), int(c))
                else: add(vname(v), c)
    out.pop(None, None)
    return out
def bounds_of(pc):
    """{name: (low, high, sort)} from the facts of a path condition about single inputs"""
    out = {}
    def add(n, lo, hi, k):
        if n is None: return
        l, h, _ = out.get(n, (None, None, k))
        if lo is not None: l = lo if l is None else max(l, lo)
        if hi is not None: h = hi if h is None else min(h, hi)
        out[n] = (l, h, k)
    def fact(f, pos):
        if f.op == 'not': return fact(f.args[0], not pos)
        if f.op == 'and' and pos or f.op == 'or' and not pos:
            for x in f.args: fact(x, pos)
            return
        if f.op not in ('lt', 'le', 'eq') or f.args[0].sort not in 'RI': return
        a, b = f.args
        if f.op == 'eq':
            if not pos: return
            rel = 'eq'
        elif pos: rel = f.op
        else: a, b, rel = b, a, {'lt': 'le', 'le': 'lt'}[f.op]
        if a.sort == 'I':
            c, m = tm._lin(isub(b, a))          # 0 rel c + k x
            if len(m) != 1: return
            x, k = next(iter(m.items()))
            n = vname(x)
            if rel == 'eq':
                if c % k == 0: add(n, -c // k, -c // k, 'I')
            else:
                c2 = c - (1 if rel == 'lt' else 0)   # k x >= -c2
                if k > 0: add(n, -(c2 // k), None, 'I')
                else: add(n, None, c2 // -k, 'I')
            return
        for x, y, up in ((a, b, True), (b, a, False)):
            if not isc(y) or abs(y.data) > 1e30: continue
            c = float(y.data)
            if x.op == 'rmul' and len(x.args) == 2 and isc(x.args[0]) and x.args[0].data != 0:
                c /= float(x.args[0].data)
                if x.args[0].data < 0: up = not up
                x = x.args[1]
            if x.op == 'radd' and len(x.args) == 2 and isc(x.args[1]): c -= float(x.args[1].data); x = x.args[0]
            if x.op == 'toreal':
                c = math.floor(c) if up else math.ceil(c)
                if rel == 'lt' and c == float(y.data): c += -1 if up else 1
            k = 'I' if x.op == 'toreal' else 'R'
            n = vname(x)
            if rel == 'eq': add(n, c, c, k)
            elif up: add(n, None, c if rel == 'le' or k == 'I' else math.nextafter(c, -math.inf), k)
            else: add(n, c if rel == 'le' or k == 'I' else math.nextafter(c, math.inf), None, k)
    for f in pc: fact(f, True)
    return out
def vname(t):
    if t.op == 'v': return t.data
    if t.op == 'floor': return vname(t.args[0])
    if t.op == 'toreal': return vname(t.args[0])
    if t.op == 'app' and t.data == 'n' and t.args[0].op == 'v': return t.args[0].data + '.n'
    if t.op == 'app' and t.args and t.args[0].op == 'v' and '.' in str(t.data):
        return '%s.%s' % (t.args[0].data, t.data.split('.')[1])
    return None

def close(a, b, tol):
    if isinstance(a, bool) or isinstance(b, bool): return bool(a) == bool(b)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict): return all(close(a[k], b[k], tol) for k in a)
    if a != a or b != b: return (a != a) == (b != b)
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300 or abs(a - b) < 1e-13 * 0

class Mismatch(Exception): pass
def env_of(c, args):
    """variable environment for terms over the contract's parameters"""
    env = {}; e = {}
    for p, t in c.all_params():
        k, ft = ptype(t) if p != 'this' else ('rec', c.cls)
        v = args[p]
        if k == 'scalar':
            x = var(p, SCALAR[ft]); env[p] = float(v) if SCALAR[ft] == 'R' else v; e[p] = x
        elif k in ('vec', 'ilist'): env[p] = list(v); e[p] = SeqV(ft, var(p, 'S'))
        elif isinstance(v, dict) and 'kind' in v and 'InterpolatorCSpline' in ft:
            e[p] = RecV(ft, lambda q, p=p: var(p, 'S'))
            env[p] = spline_ident(v)
        else:
            leaves = {}
            for off, path, kind, tt in spec.LAY.leaves(ft):
                if kind not in 'RIVO': continue
                n = '%s.%s' % (p, path)
                try: env[n] = getleaf(v, path)
                except KeyError: continue
                leaves[path] = var(n, kind if kind in 'RI' else 'S')
            e[p] = RecV(ft, lambda q, l=leaves: l[q])
    return Env(e), env
def spline_ident(v):
    p, m, c = v['p'], v['m'], v['c']
    cl = [q for o, q, k, t in spec.LAY.leaves('catima::Config')]
    fr = lambda t: tuple(sorted(t.items()))
    return (('range_spline', 'range_straggling_spline', 'angular_variance_spline')[v['kind']], p['A'], p['Z'], p['Q'], m['molar_mass'], m['i_potential'], tuple(fr(t) for t in m['atoms'])) + tuple(c[q] for q in cl)
def expected(c, e, env, orc, only=None):
    """{name: expected value} by the contract"""
    out = {}
    if c.post is not None and c.ret not in ('void', 'ref'):
        r = c.post(e)
        if c.ret in ('R', 'I', 'B'): out['result'] = orc.value(co(r), env)
        elif c.ret == 'pair': out['result.first'] = orc.value(co(r[0]), env); out['result.second'] = orc.value(co(r[1]), env)
        elif c.ret.startswith('vector<'):
            n = orc.value(co(r[0], I0), env); f = r[1]
            out['result length'] = n
            el = clean(c.ret[7:-1])
            for j in range(n) if n <= 40 else (0, 1, 2, 7, 30, n - 1):
                if only is not None and 'result[%d]' % j not in only: continue
                if el == 'double': out['result[%d]' % j] = orc.value(co(f(ic(j))), env)
        else:
            ty = ptype(c.ret)[1]
            for off, path, kind, t in spec.LAY.leaves(ty):
                if kind not in 'RIV': continue
                w = r[path] if isinstance(r, dict) else r.leaf(path)
                if only is not None and 'result.' + path not in only and not any(q.startswith('result.%s[' % path) for q in only): continue
                if kind == 'V' and isinstance(w, tuple) and clean(vector_elem(t)) == 'double':
                    n = out['result.%s length' % path] = orc.value(co(w[0], I0), env)
                    for j in range(n) if n <= 40 else (0, 1, 2, 7, 30, n - 1):
                        if only is None or 'result.%s[%d]' % (path, j) in only: out['result.%s[%d]' % (path, j)] = orc.value(co(w[1](ic(j))), env)
                elif kind == 'V': out['result.' + path] = listed(orc, env, vector_elem(t), w) if isinstance(w, tuple) else seqvalue(orc, env, w if isinstance(w, SeqV) else SeqV(vector_elem(t), w))
                else: out['result.' + path] = orc.value(co(w), env)
    if c.mod:
        for k, v in c.mod(e).items():
            if k.startswith('@') or isinstance(v, tuple): continue
            if isinstance(v, SeqV): out[k] = seqvalue(orc, env, v); continue
            if isinstance(v, T) and v.sort == 'S': continue
            out[k] = orc.value(co(v), env)
    return out
def listed(orc, env, el, w):
    """numeric contents of a sequence given by its length and elements"""
    n, f = orc.value(co(w[0], I0), env), w[1]
    if n > 2000: raise Skip('long sequence')
    if clean(el) == 'double': return [orc.value(co(f(ic(j))), env) for j in range(n)]
    ps = [q for o, q, k, t in spec.LAY.leaves(ptype(el)[1]) if k in 'RI']
    return [{q: orc.value(co(f(ic(j), q)), env) for q in ps} for j in range(n)]
def seqvalue(orc, env, s):
    """numeric contents of a sequence"""
    n = orc.value(s.n, env)
    if n > 2000: raise Skip('long sequence')
    out = []
    for j in range(n):
        x = s[ic(j)]
        if isinstance(x, T): out.append(orc.value(x, env)); continue
        d = {}
        for off, path, kind, t in spec.LAY.leaves(s.elem):
            if kind in 'RI': d[path] = orc.value(x.leaf(path), env)
            elif kind == 'V': d[path] = seqvalue(orc, env, SeqV(vector_elem(t), x.leaf(path)))
        out.append(d)
    return out
def actual(c, ret, outs, args):
    got = {}
    if c.ret in ('R', 'I', 'B'): got['result'] = ret
    elif c.ret == 'pair': got['result.first'] = ret['first']; got['result.second'] = ret['second']
    elif c.ret.startswith('vector<'):
        got['result length'] = len(ret)
        for j, v in enumerate(ret): got['result[%d]' % j] = v
    elif c.ret not in ('void', 'ref'):
        for off, path, kind, t in spec.LAY.leaves(ptype(c.ret)[1]):
            if kind in 'RIV':
                try: v = got['result.' + path] = getleaf(ret, path)
                except (KeyError, TypeError): continue
                if kind == 'V':
                    got['result.%s length' % path] = len(v)
                    for j, y in enumerate(v): got['result.%s[%d]' % (path, j)] = y
    for (p, t), o in zip(c.all_params(), outs):
        if o is None: continue
        if isinstance(o, dict):
            for q in flat(o):
                n = '%s.%s' % (p, q)
                got[n] = getleaf(o, q)
        else: got[p] = o
    return got
def flat(d, pre=''):
    for k, v in d.items():
        if isinstance(v, dict): yield from flat(v, pre + k + '.')
        else: yield pre + k

def near(s, a, b):
    """a with some leaves taken from b"""
    import copy
    r = copy.deepcopy({k: v for k, v in a.items() if k in b})
    for _ in range(s.r.choice([1, 1, 2])):
        p = s.r.choice(list(r))
        if isinstance(r[p], dict) and isinstance(b[p], dict):
            q = s.r.choice(list(r[p])); r[p][q] = copy.deepcopy(b[p][q])
        else: r[p] = copy.deepcopy(b[p])
    return r
def search_history(c, nat, secs, seed):
    """f(a) in a fresh process against f(a) after f(b), f(b') with b close to a"""
    s = Sampler(seed); s.orc = Oracle(nat); n = 0; end = time.time() + secs
    gen = c.sample(s) if c.sample else None
    def sample():
        if gen: return next(gen)
        return {p: s.value(p, t, c.cls) for p, t in c.all_params()}
    def call(a):
        ret, outs = nat.call(c.name, [a[p] for p, t in c.all_params()])
        return repr(ret)
    while time.time() < end:
        try:
            a = sample(); bs = [near(s, a, sample()) for _ in range(6)]
            e, env = env_of(c, a)
            if c.pre and not all(s.orc.value(g, env) for g in as_list(c.pre(e))): continue
            bs = [b for b in bs if not c.pre or all(s.orc.value(g, env_of(c, b)[1]) for g in as_list(c.pre(env_of(c, b)[0])))]
        except (Skip, StopIteration, EvalError, KeyError): continue
        n += 1
        try:
            nat.stop(); r1 = call(a)
            nat.stop()
            for b in bs:
                call(b)
                r2 = call(a)
                if r1 != r2: return dict(args=a, earlier=bs), 'result %s in a fresh process, %s after the earlier calls' % (r1[:300], r2[:300]), n
        except Crash: continue
    return None, None, n
def representable(v):
    """integers of 32 bits"""
    if isinstance(v, dict): return all(representable(x) for k, x in v.items() if k != '@alias')
    if isinstance(v, (list, tuple)): return all(representable(x) for x in v)
    return not isinstance(v, int) or -2 ** 31 <= v < 2 ** 31
def try_input(c, args, nat, orc, tol, frame=True, crash_only=False):
    """None if the contract holds (or does not apply); otherwise a description of the mismatch"""
    if not representable(args): raise Skip('integer out of range')
    e, env = env_of(c, args)
    orc.noise = None
    if c.pre:
        for g in as_list(c.pre(e)):
            if not orc.value(g, env): return None
    if getattr(c, 'replay_pre', None) and not c.replay_pre(args): return None
    exp = {} if crash_only else expected(c, e, env, orc)
    al = args.get('@alias') or {}
    nm = c.name + ('@' + ','.join('%s=%s' % kv for kv in al.items()) if al else '')
    try: ret, outs = nat.call(nm, [args[p] for p, t in c.all_params()])
    except Crash as x: return {'crash': str(x)[:2500]}
    if crash_only: return None
    got = actual(c, ret, outs, args)
    bad = {}
    if c.rel:
        env['%result'] = ret
        for text, g in c.rel(e, var('%result', c.ret)):
            if not orc.value(g, env): bad[text] = {'actual': ret}
    for k, w in exp.items():
        if k in got and not close(got[k], w, tol): bad[k] = {'expected': w, 'actual': got[k]}
    if bad:
        # how far does rounding alone move the expected values
        lo, hi = dict(exp), dict(exp)
        rnd = random.Random(5)
        for _ in range(10):
            orc.noise = rnd; memo, orc.memo = orc.memo, {}
            try: x = expected(c, e, env, orc, bad)
            finally: orc.noise = None; orc.memo = memo
            for k in x:
                if k not in bad or k not in lo or isinstance(x[k], (bool, list, tuple, dict)): continue
                if x[k] != x[k]: hi[k] = math.inf
                lo[k] = min(lo[k], x[k]); hi[k] = max(hi[k], x[k])
        for k in list(bad):
            if k not in exp: continue
            w, g = exp[k], got[k]
            if isinstance(w, (bool, list, tuple, dict)): continue
            d = 300 * (hi[k] - lo[k])
            if d != d or (g == g and w == w and abs(g - w) <= d): del bad[k]
    if frame:
        mods = set(c.mod(e)) if c.mod else set()
        for (p, t), o in zip(c.all_params(), outs):
            if o is None or p in getattr(c, 'byvalue', ()) or p in al: continue
            if isinstance(o, dict):
                for q in flat(o):
                    if '%s.%s' % (p, q) in mods: continue
                    if not same(getleaf(o, q), getleaf(args[p], q)): bad['frame: %s.%s unchanged' % (p, q)] = {'expected': getleaf(args[p], q), 'actual': getleaf(o, q)}
            elif p not in mods and not same(o, args[p]): bad['frame: %s unchanged' % p] = {'expected': args[p], 'actual': o}
    return bad or None
def same(a, b):
    if isinstance(a, dict): return all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)

def search(c, nat, terms=(), secs=30, seed=1, tol=1e-7, models=(), use_native=True, maxn=20000, crash_only=False, frame=True, bounds=None):
    """looks for an input on which the real function deviates from its contract; returns (args, mismatch, tried)"""
    orc = Oracle(nat, use_native)
    if not nat.has(c.name): return None, None, 0
    s = Sampler(seed, special_values(list(terms)), bounds)
    s.orc = orc
    end = time.time() + secs; n = 0; errs = 0; lasterr = None
    def gen():
        for m in models: yield m
        if c.sample:
            yield from c.sample(s)
        else:
            last = None
            while True:
                d = {p: s.value(p, t, c.cls) for p, t in c.all_params()}
                if last is not None and s.r.random() < 0.2: d = near(s, last, d)      # much like the call before
                last = d
                if c.alias and s.r.random() < 0.5:
                    al = s.r.choice(c.alias)
                    d.update({p: d[q] for p, q in al.items()}); d['@alias'] = al
                if s.r.random() < 0.5: relative(s, d)
                yield d
    for args in gen():
        if time.time() > end or n >= maxn: break
        try:
            r = try_input(c, args, nat, orc, tol, crash_only=crash_only)
            n += 1
        except (Skip, EvalError, KeyError, OverflowError, ValueError, ZeroDivisionError, TypeError) as x:
            errs += 1; lasterr = x
            if errs > 3000 and n < 5: break
            continue
        if r and not (crash_only and 'crash' not in r): return args, r, n
    return None, ({'no_samples': repr(lasterr)} if n == 0 else None), n

def fraction(s):
    """thickness as a fraction of the range"""
    return s.r.choice([s.r.uniform(0.05, 1), s.logu(1e-6, 0.1), 1 - s.logu(1e-9, 0.1), 1 + s.logu(1e-9, 0.1)])
def relative(s, d):
    """chooses the thickness of a layer relative to the range of the projectile in it"""
    p, t, c = d.get('p'), d.get('t', d.get('mat')), d.get('c')
    if not (isinstance(p, dict) and isinstance(t, dict) and isinstance(c, dict) and 'atoms' in t and p.get('T', 0) > 0) or 't.th' in s.bounds: return
    try: t['th'] = s.orc.spline(spline_ident(dict(p=p, m=t, c=c, kind=0)), p['T'])[0] * fraction(s)
    except (Skip, KeyError): pass
def eval_obligation(o, env, orc, rnd):
    """(path condition holds, goal holds up to rounding) on a sample"""
    env = dict(env)
    for x in variables(o.goal, *o.pc):
        if x.data not in env: env[x.data] = rnd.randint(0, 4) if x.sort == 'I' else rnd.uniform(0, 10)
    for f in o.pc:
        if not orc.value(f, env): return False, True
    if goal_holds(o.goal, env, orc): return True, True
    # does rounding alone decide
    try:
        for _ in range(10):
            orc.noise = rnd; orc.memo.clear()
            if not all(orc.value(f, env) for f in o.pc) or goal_holds(o.goal, env, orc): return False, True
    finally: orc.noise = None; orc.memo.clear()
    return True, False
def goal_holds(g, env, orc):
    if g.op == 'and': return all(goal_holds(x, env, orc) for x in g.args)
    if g.op == 'eq' and g.args[0].sort == 'R': return close(orc.value(g.args[0], env), orc.value(g.args[1], env), 1e-7)
    return bool(orc.value(g, env))

def main(argv):
    """replays a violation file: prints the call, what the contract requires and what the code does"""
    from . import check
    d = json.load(open(argv[0]))
    print('property', d['property'], 'function', d['function'])
    for o in d['failed_obligations'][:5]: print('failed obligation:', o['kind'], o['text'])
    v = d.get('violation')
    if not v: print('no failing input recorded'); return 1
    P = check.setup(); ctx = check.Ctx(P)
    if v.get('item'):
        c = next(x for x in spec.ORDER if x.name == d['contract']); r = c.replay(ctx, v) if hasattr(c, 'replay') else c.run(ctx)
        print(json.dumps(r, default=str)[:4000]); return 1 if r else 0
    c = BYNAME[d['contract']]
    nat = ctx.native(v['asan'])
    r = try_input(c, v['args'], nat, Oracle(ctx.native()), 1e-7)
    print('input', json.dumps(v['args'])); print('mismatch now:', json.dumps(r, default=str))
    return 1 if r else 0
if __name__ == '__main__':
    import sys
    from verifier import replay as _r
    sys.exit(_r.main(sys.argv[1:]))
