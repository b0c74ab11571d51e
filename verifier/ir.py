"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) produced from /repo's sources."""
import re, struct
from fractions import Fraction

class IRError(Exception): pass

# ---------------------------------------------------------------- types
# ('i', n) ('f64',) ('f32',) ('f80',) ('ptr',) ('void',) ('arr', n, t) ('struct', name|None, fields|None, packed)
class Types:
    def __init__(self):
        self.named = {}
        self._lay = {}
    def resolve(self, t):
        if t[0] == 'named':
            r = self.named.get(t[1])
            if r is None: raise IRError('opaque type ' + t[1])
            return r
        return t
    def size_align(self, t):
        k = self._lay.get(t)
        if k is not None: return k
        r = self._sa(t)
        self._lay[t] = r
        return r
    def _sa(self, t):
        c = t[0]
        if c == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n: a *= 2
            return a, a
        if c == 'f64': return 8, 8
        if c == 'f32': return 4, 4
        if c == 'f80': return 16, 16
        if c == 'ptr': return 8, 8
        if c == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if c == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if c == 'named': return self.size_align(self.resolve(t))
        if c == 'struct':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]: a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return off, al
        raise IRError('size of %r' % (t,))
    def size(self, t): return self.size_align(t)[0]
    def field_offset(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            if j == i: return off
            off += s
        raise IRError('field index')
    def flatten(self, t, base=0, limit=64):
        """list of (offset, scalar type); arrays longer than limit are reported as ('arr', n, t)"""
        c = t[0]
        if c == 'named': return self.flatten(self.resolve(t), base, limit)
        if c == 'struct':
            out = []
            for i, f in enumerate(t[1]):
                out += self.flatten(f, base + self.field_offset(t, i), limit)
            return out
        if c == 'arr':
            if t[1] > limit: return [(base, t)]
            s = self.size(t[2]); out = []
            for i in range(t[1]): out += self.flatten(t[2], base + i * s, limit)
            return out
        return [(base, t)]
    def arrays(self, t, base=0):
        """list of (start, end, stride) of the outermost array members"""
        c = t[0]
        if c == 'named': return self.arrays(self.resolve(t), base)
        if c == 'struct':
            out = []
            for i, f in enumerate(t[1]):
                out += self.arrays(f, base + self.field_offset(t, i))
            return out
        if c == 'arr':
            return [(base, base + self.size(t), self.size(t[2]), t[2])]
        return []

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"])*")|
  (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<glb>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<meta>![a-zA-Z0-9._]*)|
  (?P<attr>\#\d+)|
  (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
  (?P<flt>-?\d+\.\d*(?:e[+-]?\d+)?)|
  (?P<num>-?\d+)|
  (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)|
  (?P<dots>\.\.\.)|
  (?P<p>[<>{}()\[\],=*:|$])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise IRError('token at %r' % s[i:i + 60])
        k = m.lastgroup
        v = m.group(k)
        if k in ('loc', 'glb') and len(v) > 1 and v[1] == '"': v = v[0] + v[2:-1]
        out.append((k, v)); i = m.end()
    return out

PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'noalias', 'readonly', 'writeonly', 'signext', 'zeroext', 'returned',
               'writable', 'immarg', 'readnone', 'inreg', 'nofree', 'noext', 'dead_on_unwind', 'allocptr', 'allocalign', 'nest'}

class P:
    def __init__(self, s):
        self.t = tokenize(s); self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        r = self.peek(); self.i += 1; return r
    def acc(self, v):
        if self.peek()[1] == v: self.i += 1; return True
        return False
    def exp(self, v):
        k = self.next()
        if k[1] != v: raise IRError('expected %s got %r in %r' % (v, k, self.t[max(0,self.i-10):self.i+10]))
    def end(self): return self.i >= len(self.t)

    def type(self):
        k, v = self.next()
        t = None
        if k == 'word':
            if re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
            elif v == 'double': t = ('f64',)
            elif v == 'float': t = ('f32',)
            elif v == 'x86_fp80': t = ('f80',)
            elif v == 'ptr': t = ('ptr',)
            elif v == 'void': t = ('void',)
            elif v in ('label', 'metadata', 'token', 'opaque'): t = (v,)
        elif k == 'loc': t = ('named', v[1:])
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('struct', self._fields('}'), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next(); f = self._fields('}'); self.exp('>')
                t = ('struct', f, True)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>')
                t = ('vec', n, e)
        if t is None: raise IRError('type at %r %r' % (k, v))
        while self.peek()[1] == '(':   # function type
            d = 0
            while True:
                v = self.next()[1]
                if v == '(': d += 1
                if v == ')':
                    d -= 1
                    if d == 0: break
            t = ('fn', t)
        return t
    def _fields(self, close):
        out = []
        if self.acc(close): return ()
        while True:
            out.append(self.type())
            if self.acc(close): return tuple(out)
            self.exp(',')
    def attrs(self):
        """skip parameter attributes, return dict of interesting ones"""
        d = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in ('byval', 'sret', 'elementtype', 'byref', 'inalloca', 'preallocated'):
                self.next(); self.exp('('); d[v] = self.type(); self.exp(')')
            elif k == 'word' and v == 'align':
                self.next()
                if self.acc('('):
                    self.next(); self.exp(')')
                else: self.next()
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'memory', 'captures', 'range', 'nofpclass', 'initializes'):
                self.next()
                if self.acc('('):
                    dd = 1
                    while dd:
                        x = self.next()[1]
                        dd += (x == '(') - (x == ')')
            elif k == 'word' and v in PARAM_ATTRS: self.next()
            elif k == 'attr': self.next()
            elif k == 'str': 
                self.next()
                if self.acc('='): self.next()
            else: return d

    # operand value of the given type
    def value(self, t):
        k, v = self.next()
        if k == 'loc': return ('loc', v[1:])
        if k == 'glb': return ('glb', v[1:])
        if k == 'num':
            if t[0] in ('f64', 'f32'): return ('f', Fraction(int(v)))
            return ('i', int(v))
        if k == 'flt': return ('f', Fraction(v) if False else Fraction(float(v)))
        if k == 'hex': return ('f', hexfloat(v))
        if k == 'str': return ('bytes', cstring(v))
        if k == 'word':
            if v in ('true', 'false'): return ('i', int(v == 'true'))
            if v in ('null',): return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.t[self.i-1][1] == 'inrange':
                        while self.next()[1] != ')': pass
                self.exp('(')
                bt = self.type(); self.exp(',')
                ops = []
                while True:
                    ot = self.type(); self.attrs(); ops.append((ot, self.value(ot)))
                    if self.acc(')'): break
                    self.exp(',')
                return ('gep', bt, ops[0], ops[1:])
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
                self.exp('('); ot = self.type(); x = self.value(ot); self.exp('to'); nt = self.type(); self.exp(')')
                return ('cast', v, ot, x, nt)
            if v in ('sub', 'add', 'mul'):
                while self.peek()[1] in ('nsw', 'nuw'): self.next()
                self.exp('('); ot = self.type(); a = self.value(ot); self.exp(','); o2 = self.type(); b = self.value(o2); self.exp(')')
                return ('bin', v, ot, a, b)
        if v in ('{', '[', '<'):
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next(); v = '{'; packed = True
            close = {'{': '}', '[': ']', '<': '>'}[v]
            out = []
            if not self.acc(close):
                while True:
                    et = self.type(); out.append((et, self.value(et)))
                    if self.acc(close): break
                    self.exp(',')
            if packed: self.exp('>')
            return ('agg', out)
        raise IRError('value at %r %r' % (k, v))
    def tv(self):
        t = self.type(); a = self.attrs()
        if t[0] == 'metadata':
            # skip until , or )
            d = 0
            while not self.end():
                v = self.peek()[1]
                if d == 0 and v in (',', ')'): break
                d += (v in '({') - (v in ')}') if v else 0
                self.next()
            return t, ('undef',), a
        return t, self.value(t), a

def hexfloat(v):
    if v[2] in 'KLMHR':
        raw = int(v[3:], 16)
        if v[2] == 'K':
            s = -1 if raw >> 79 else 1
            e = (raw >> 64) & 0x7fff; m = raw & ((1 << 64) - 1)
            return s * Fraction(m) * Fraction(2) ** (e - 16383 - 63)
        raise IRError('fp constant ' + v)
    x = struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0]
    if x != x or x in (float('inf'), float('-inf')): return x
    return Fraction(x)

def cstring(v):
    b = v[v.index('"') + 1:-1]
    out = bytearray(); i = 0
    while i < len(b):
        if b[i] == '\\':
            out.append(int(b[i + 1:i + 3], 16)); i += 3
        else:
            out += b[i].encode('latin-1', 'replace'); i += 1
    return bytes(out)

class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text', 'line')
    def __init__(self, op, dst, ty, a, text):
        self.op, self.dst, self.ty, self.a, self.text = op, dst, ty, a, text
    def __repr__(self): return self.text.strip()

class Func:
    def __init__(self):
        self.blocks = {}; self.order = []; self.params = []; self.parsed = False
    def parse(self):
        if self.parsed: return self
        self.parsed = True
        cur = None
        for label, lines in self.raw:
            self.order.append(label); bl = []
            i = 0
            while i < len(lines):
                ln = lines[i]
                if re.match(r'\s*switch ', ln) and ']' not in ln:
                    while ']' not in lines[i]:
                        i += 1; ln += ' ' + lines[i].strip()
                ins = parse_instr(ln)
                if ins is not None: bl.append(ins)
                i += 1
            self.blocks[label] = bl
        return self

def strip_meta(s):
    s = re.sub(r',? *![a-zA-Z.]+ !\d+', '', s)
    s = re.sub(r',? *!llvm\.\w+ !\d+', '', s)
    return s

def parse_instr(line):
    s = line.strip()
    if not s or s.startswith(';'): return None
    if ' ;' in s and '"' not in s[s.index(' ;'):]: s = s[:s.index(' ;')]
    s = strip_meta(s)
    dst = None
    m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = ', s)
    if m:
        dst = m.group(1).strip('"'); s2 = s[m.end():]
    else: s2 = s
    p = P(s2)
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'): op = p.next()[1]
    I = lambda ty, *a: Instr(op, dst, ty, a, s)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        while p.peek()[1] in ('nsw', 'nuw', 'exact', 'fast', 'reassoc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'disjoint'): p.next()
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return I(t, a, b)
    if op == 'fneg':
        t = p.type(); return I(t, p.value(t))
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'samesign'): p.next()
        pred = p.next()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return I(t, pred, a, b)
    if op in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
        while p.peek()[1] in ('nneg', 'nsw', 'nuw'): p.next()
        t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
        return I(t2, t, a)
    if op == 'load':
        p.acc('volatile'); p.acc('atomic')
        t = p.type(); p.exp(','); pt = p.type(); a = p.value(pt)
        return I(t, a)
    if op == 'store':
        p.acc('volatile'); p.acc('atomic')
        t = p.type(); a = p.value(t); p.exp(','); pt = p.type(); b = p.value(pt)
        return I(t, a, b)
    if op == 'alloca':
        t = p.type(); n = ('i', 1)
        if p.acc(','):
            if p.peek()[1] != 'align':
                nt = p.type(); n = p.value(nt)
        return I(t, n)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.exp(',')
        ops = []
        while True:
            t = p.type(); ops.append((t, p.value(t)))
            if not p.acc(','): break
        return I(bt, ops[0], ops[1:])
    if op == 'phi':
        while p.peek()[1] in ('fast', 'nnan'): p.next()
        t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); b = p.next()[1][1:]; p.exp(']')
            inc.append((v, b))
            if not p.acc(','): break
        return I(t, inc)
    if op == 'select':
        while p.peek()[1] in ('fast', 'nnan'): p.next()
        ct = p.type(); c = p.value(ct); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2)
        return I(t, c, a, b)
    if op == 'br':
        t = p.type()
        if t[0] == 'label': return I(None, p.next()[1][1:])
        c = p.value(t); p.exp(','); p.type(); a = p.next()[1][1:]; p.exp(','); p.type(); b = p.next()[1][1:]
        return I(None, c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.type(); d = p.next()[1][1:]; p.exp('[')
        cases = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct); p.exp(','); p.type(); cases.append((cv, p.next()[1][1:]))
        return I(t, v, d, cases)
    if op == 'ret':
        t = p.type()
        return I(t, None if t[0] == 'void' else p.value(t))
    if op == 'unreachable': return I(None)
    if op in ('call', 'invoke'):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'ccc', 'coldcc'): p.next()
        p.attrs()
        t = p.type()
        if t[0] == 'fn': t = t[1]
        k, v = p.next()
        callee = ('glb', v[1:]) if k == 'glb' else ('loc', v[1:]) if k == 'loc' else None
        if callee is None: raise IRError('callee ' + s)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                args.append(p.tv())
                if p.acc(')'): break
                p.exp(',')
        r = Instr('call', dst, t, (callee, args), s)
        if op == 'invoke':
            p.attrs(); p.exp('to'); p.type(); nb = p.next()[1][1:]
            r = Instr('invoke', dst, t, (callee, args, nb), s)
        return r
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.acc(','): idx.append(int(p.next()[1]))
        return I(t, v, tuple(idx))
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); v2 = p.value(t2); idx = []
        while p.acc(','): idx.append(int(p.next()[1]))
        return I(t, v, (t2, v2), tuple(idx))
    if op == 'freeze':
        t = p.type(); return I(t, p.value(t))
    return Instr('unsupported:' + op, dst, None, (), s)

class Module:
    def __init__(self, text):
        self.types = Types(); self.globals = {}; self.funcs = {}; self.decls = {}
        self._parse(text.split('\n'))
    def _parse(self, lines):
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                nm = m.group(1).strip('"')
                if m.group(2).strip() != 'opaque':
                    self.types.named[nm] = P(m.group(2)).type()
            elif ln.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('define'):
                f = Func(); f.header = ln
                self._header(f, ln)
                i += 1
                raw = []; cur = None
                while not lines[i].startswith('}'):
                    l = lines[i]
                    m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                    if m:
                        cur = []; raw.append((m.group(1).strip('"'), cur))
                    elif l.strip():
                        if cur is None:
                            cur = []; raw.append((None, cur))
                        cur.append(l)
                    i += 1
                if raw and raw[0][0] is None:
                    raw[0] = (str(len([p for p in f.params if True])), raw[0][1])
                f.raw = raw
                self.funcs[f.name] = f
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                if m: self.decls[m.group(1).strip('"')] = ln
            i += 1
    def _header(self, f, ln):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        f.name = m.group(1).strip('"')
        pre = ln[len('define'):m.start()]
        pre = re.sub(r'\b(linkonce_odr|internal|weak_odr|dso_local|hidden|private|weak|available_externally|local_unnamed_addr|noundef|nonnull|signext|zeroext|noalias|fastcc)\b', '', pre)
        pre = re.sub(r'\b(align \d+|dereferenceable(_or_null)?\(\d+\))', '', pre)
        f.ret = P(pre).type()
        p = P(re.sub(r'\b(comdat|personality)\b.*', '', ln[m.end():]))
        idx = 0
        if not p.acc(')'):
            while True:
                if p.peek()[0] == 'dots':
                    p.next(); p.exp(')'); break
                t = p.type(); a = p.attrs()
                nm = None
                if p.peek()[0] == 'loc': nm = p.next()[1][1:]
                else: nm = str(idx)
                idx += 1
                f.params.append((t, nm, a))
                if p.acc(')'): break
                p.exp(',')
    def global_init(self, name):
        """(is_constant, type, value|None)"""
        s = self.globals[name]
        m = re.search(r'\b(global|constant)\b', s)
        const = m.group(1) == 'constant'
        ext = 'external' in s[:m.start()]
        p = P(re.sub(r', align \d+.*$', '', s[m.end():]))
        t = p.type()
        v = None
        if not ext and not p.end() and p.peek()[1] != ',': v = p.value(t)
        return const, t, v
