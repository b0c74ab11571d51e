"""Program representation: functions of the module with control-flow analyses, names and layouts."""
import os, re
from .ir import Module, IRError
from . import build
from .layout import Layouts, clean, vector_elem

def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([{': d += 1
        if c in '>)]}': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def norm_type(t):
    t = re.sub(r'\bconst\b', '', t).replace('&', '').replace('*', '').strip()
    t = re.sub(r'\s+', ' ', t)
    t = re.sub(r'std::vector<(.*), std::allocator<.*>>$', lambda m: 'vector<%s>' % norm_type(m.group(1)), t)
    t = t.replace('catima::', '')
    t = re.sub(r'std::initializer_list<std::array<double, 3ul>>', 'initlist3', t)
    return t.strip()

def split_sig(d):
    """demangled name -> (qualified name, argument string)"""
    # find the parameter list: last '(' at depth 0 that closes at the end (ignoring trailing const)
    d = re.sub(r'\s+const$', '', d.strip())
    d = re.sub(r' \[clone [^\]]*\]$', '', d)
    if not d.endswith(')'): return d, None
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ')': depth += 1
        elif d[i] == '(':
            depth -= 1
            if depth == 0: return d[:i], d[i + 1:-1]
    return d, None

def norm_sig(d):
    q, a = split_sig(d)
    # drop a leading return type (templates)
    depth, cut = 0, 0
    for i, c in enumerate(q):
        if c in '<(': depth += 1
        elif c in '>)': depth -= 1
        elif c == ' ' and depth == 0 and not q[:i].endswith('operator'): cut = i + 1
    q = q[cut:]
    if a is None: return q
    return '%s(%s)' % (q, ', '.join(norm_type(x) for x in split_args(a)))

class FInfo:
    def __init__(self, f):
        f.parse()
        self.f = f; self.name = f.name; self.blocks = f.blocks; self.order = f.order; self.entry = f.order[0]
        self.succ = {b: [] for b in self.order}; self.pred = {b: [] for b in self.order}
        for b in self.order:
            t = self.blocks[b][-1]
            if t.op == 'br': s = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': s = [t.a[1]] + [x for _, x in t.a[2]]
            elif t.op == 'invoke': s = [t.a[2]]
            else: s = []
            s = list(dict.fromkeys(s))
            self.succ[b] = s
            for x in s: self.pred[x].append(b)
        self.idom = self._dom(self.entry, self.succ, self.pred)
        self.ipdom = self._pdom()
        self._loops(); self._live()
    def _dom(self, entry, succ, pred):
        order, seen = [], set()
        st = [(entry, iter(succ[entry]))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                order.append(b); st.pop()
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        return idom
    def _pdom(self):
        X = '#exit'
        rs = {b: list(self.pred[b]) for b in self.order}; rp = {b: list(self.succ[b]) for b in self.order}
        rs[X] = []; rp[X] = []
        for b in self.order:
            # blocks ending in unreachable do not count as exits
            if not self.succ[b] and self.blocks[b][-1].op == 'ret':
                rs[X].append(b); rp[b] = rp[b] + [X]
        d = self._dom(X, rs, rp)
        return {b: (None if d.get(b) in (None, X) else d[b]) for b in self.order}
    def dominates(self, a, b):
        while True:
            if a == b: return True
            n = self.idom.get(b)
            if n is None or n == b: return False
            b = n
    def _loops(self):
        self.loops = {}
        for b in self.order:
            for s in self.succ[b]:
                if b in self.idom and self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(self.pred[x])
    def _live(self):
        use, dfn, phiuse = {}, {}, {b: set() for b in self.order}
        for b in self.order:
            u, d = set(), set()
            for i in self.blocks[b]:
                if i.op == 'phi':
                    for v, pb in i.a[0]:
                        if pb in phiuse: phiuse[pb] |= set(locs(v))
                else:
                    for x in locs(i.a):
                        if x not in d: u.add(x)
                if i.dst: d.add(i.dst)
            use[b], dfn[b] = u, d
        self.livein = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set(phiuse[b])
                for s in self.succ[b]:
                    o |= self.livein[s] - {i.dst for i in self.blocks[s] if i.op == 'phi'}
                n = use[b] | (o - dfn[b]) | {i.dst for i in self.blocks[b] if i.op == 'phi'}
                if n != self.livein[b]: self.livein[b] = n; ch = True

def locs(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'loc' and isinstance(x[1], str): yield x[1]
        else:
            for y in x: yield from locs(y)
    elif isinstance(x, list):
        for y in x: yield from locs(y)

class Program:
    def __init__(self, over=None):
        path = build.build_ir(over)
        d = os.path.dirname(path)
        self.dir = d
        self.mod = Module(open(path).read())
        self.alias = {}
        for n, s in list(self.mod.globals.items()):
            m = re.search(r'\balias\b.*@("[^"]*"|[-a-zA-Z$._0-9]+)\s*$', s)
            if m and n not in self.mod.funcs:
                self.alias[n] = m.group(1).strip('"')
        names = list(self.mod.funcs) + list(self.mod.decls) + list(self.alias) + list(self.mod.globals)
        self.dem = build.demangle(list(dict.fromkeys(names)))
        self.lay = Layouts(open(d + '/layouts.txt').read())
        self._fi = {}
        self.bysig = {}
        for n in self.mod.funcs:
            self.bysig.setdefault(norm_sig(self.dem[n]), []).append(n)
        self.sig = {n: s for s, ns in self.bysig.items() for n in ns}
        for a, t in self.alias.items():
            if t in self.sig: self.sig[a] = self.sig[t]
    def resolve(self, n):
        while n in self.alias: n = self.alias[n]
        return n
    def func(self, n):
        n = self.resolve(n)
        r = self._fi.get(n)
        if r is None:
            r = self._fi[n] = FInfo(self.mod.funcs[n])
        return r
    def has(self, n): return self.resolve(n) in self.mod.funcs
    def find(self, sig):
        ns = self.bysig.get(sig, [])
        if not ns: return None
        # complete-object constructors are preferred over base-object ones when both exist
        return sorted(ns, key=lambda n: (('C1' not in n), n))[0]
