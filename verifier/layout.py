"""Record layouts as computed by clang for /repo's current sources (clang -fdump-record-layouts)."""
import re

CANON = {  # field names used by the contracts; a renamed private member is matched by position
    'catima::Material': ['rho', 'th', 'molar_mass', 'i_potential', 'atoms'],
    'catima::Projectile': ['A', 'Z', 'Q', 'T'],
    'catima::Target': ['A', 'Z', 'stn'],
    'catima::Layers': ['materials'],
    'catima::Data': ['storage', 'index'],
}
SCALARS = {'double': ('R', 8), 'float': ('R', 4), 'int': ('I', 4), 'unsigned int': ('I', 4), 'unsigned char': ('I', 1), 'char': ('I', 1),
           'bool': ('I', 1), 'long': ('I', 8), 'unsigned long': ('I', 8), 'std::size_t': ('I', 8), 'size_t': ('I', 8), 'short': ('I', 2),
           'unsigned short': ('I', 2), 'size_type': ('I', 8), 'uint8_t': ('I', 1), 'signed char': ('I', 1)}

def clean(t):
    t = re.sub(r'\b(struct|class|const|volatile|enum|typename) ', '', t)
    while '> >' in t: t = t.replace('> >', '>>')
    return t.strip()

class Rec:
    def __init__(self, name): self.name = name; self.fields = []; self.size = 0

class Layouts:
    def __init__(self, text):
        self.recs = {}
        cur, path = None, []
        for ln in text.split('\n'):
            if ln.startswith('*** Dumping'): cur = None; continue
            m = re.match(r'\s*(\d+)(?::[\d-]+)? \| ( *)(.*)$', ln)
            if m:
                off, ind, txt = int(m.group(1)), len(m.group(2)) // 2, m.group(3)
                if ind == 0:
                    cur = Rec(clean(txt.replace(' (empty)', ''))); 
                    self.recs.setdefault(cur.name, cur); cur = self.recs[cur.name]; cur.fields = []
                elif ind == 1 and cur is not None:
                    txt = txt.replace(' (empty)', '')
                    if txt.endswith('(base)'):
                        cur.fields.append((off, clean(txt[:-6]), '#base'))
                    else:
                        tn, _, fn = txt.rpartition(' ')
                        cur.fields.append((off, clean(tn), fn))
                continue
            m = re.search(r'\[sizeof=(\d+)', ln)
            if m and cur is not None: cur.size = int(m.group(1))
        et = self.recs.get('catima::EnergyTable<max_datapoints>')
        if et:
            m = next((x for x in (re.search(r'\[(\d+)\]|std::array<.*, (\d+)(?:UL)?>$', f[1]) for f in et.fields) if x), None)
            m = m and (m.group(1) or m.group(2))
            for n in list(self.recs):
                if m and '<max_datapoints>' in n: self.recs.setdefault(n.replace('<max_datapoints>', '<%s>' % m), self.recs[n])
        r = self.recs['vf::triple'] = Rec('vf::triple'); r.size = 24     # std::array<double, 3> seen as three members
        r.fields = [(0, 'double', 'a'), (8, 'double', 'b'), (16, 'double', 'c')]
        for n, c in CANON.items():
            r = self.recs.get(n)
            if r and [f[2] for f in r.fields] != c and len(r.fields) == len(c):
                known = {f[2] for f in r.fields} & set(c)
                rest = [x for x in c if x not in known]
                r.fields = [(o, t, f if f in known else rest.pop(0)) for o, t, f in r.fields]
    def size(self, t):
        t = clean(t)
        if t in SCALARS: return SCALARS[t][1]
        if t.endswith('*') or t == 'pointer': return 8
        m = re.match(r'std::array<(.*), (\d+)(?:UL)?>$', t)
        if m: return self.size(m.group(1)) * int(m.group(2))
        if t not in self.recs:      # the same template spelled with other argument names
            same = [n for n in self.recs if n.split('<')[0] == t.split('<')[0] and '<' in t]
            if len(same) == 1: return self.recs[same[0]].size
        return self.recs[t].size
    def kind(self, t):
        t = clean(t)
        if t in SCALARS: return SCALARS[t][0]
        if t.endswith('*') or t == 'pointer' or '__normal_iterator<' in t[:40]: return 'P'
        if t.startswith('std::vector<'): return 'V'
        if t.startswith('std::array<'): return 'A'
        if re.match(r'catima::(InterpolatorCSpline|cspline_special|InterpolatorGSL)\b', t) or t.endswith('Interpolator'): return 'O'
        if re.search(r'\[\d+\]$', t): return 'A'
        return 'rec'
    def leaves(self, t, base=0, pre='', opaque=True):
        """(offset, path, kind, type) of every leaf of record t"""
        t = clean(t)
        k = self.kind(t)
        if k in ('R', 'I', 'P', 'V') or (k == 'O' and opaque): return [(base, pre.rstrip('.'), k, t)]
        if k == 'A':
            m = re.match(r'std::array<(.*), (\d+)(?:UL)?>$', t)
            if m: return [(base, pre.rstrip('.'), 'A', (clean(m.group(1)), int(m.group(2))))]
            m = re.match(r'(.*)\[(\d+)\]$', t)
            return [(base, pre.rstrip('.'), 'A', (clean(m.group(1)), int(m.group(2))))]
        out = []
        r = self.recs.get(t)
        if r is None: return [(base, pre.rstrip('.'), '?', t)]
        for off, ft, fn in r.fields:
            out += self.leaves(ft, base + off, pre + ('' if fn == '#base' else fn + '.'), opaque)
        return out

def vector_elem(t):
    """element type of std::vector<T[, alloc]>"""
    t = clean(t)
    s = t[len('std::vector<'):]
    d = 0
    for i, c in enumerate(s):
        if c == '<': d += 1
        elif c == '>':
            if d == 0: return clean(s[:i])
            d -= 1
        elif c == ',' and d == 0: return clean(s[:i])
    return clean(s)
