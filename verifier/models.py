"""Contracts assumed for the C and C++ runtime library: libm functions (as the real functions they
approximate), LLVM intrinsics, std::vector, std::array::fill and the predicate algorithms.  Everything
else from the library headers (iterators, pair, min, max, numeric loops, ...) is executed from its body."""
import re
from .sym import *
from .terms import *
from .layout import vector_elem, clean
from . import solve

USED = set()

def _f(name):
    def m(E, st, a, d, i):
        E.need(*a); return fn(name, *a)
    return m
def m_pow(E, st, a, d, i):
    E.need(*a)
    x, y = a
    if isc(y) and y.data.denominator == 1 and 2 <= y.data <= 4: return rmul(*[x] * int(y.data))
    if isc(x) and isc(y):
        try: return rc(float(x.data) ** float(y.data))
        except Exception: pass
    return fn('pow', x, y)
def m_floor(E, st, a, d, i): E.need(a[0]); return toreal(floor_(a[0]))
def m_ceil(E, st, a, d, i): E.need(a[0]); return toreal(iscale(floor_(rneg(a[0])), -1))
def m_lround(E, st, a, d, i):
    x = a[0]; h = rc(Fraction(1, 2))
    if E.nan_mode: E.oblige('conversion', st, not_(E.isnan(x)), 'lround of a number')
    r = ite(le(ZERO, x), floor_(radd(x, h)), iscale(floor_(radd(rneg(x), h)), -1))
    return r
def m_memcpy(E, st, a, d, i): E.memcpy(st, a[0], a[1], a[2])
def m_memset(E, st, a, d, i):
    p, v, n = a[0], a[1], a[2]
    if not (isc(n) and isc(v)): raise Unsupported('memset')
    if not isinstance(p, Ptr) or not isc(p.off): raise Unsupported('memset target')
    o, b, n = p.obj, p.off.data, n.data
    for r in o.regions:
        if r[1] is not None and b <= r[0] and r[1] <= b + n:
            k = (o.id, r[0], 0)
            st.mem[k] = (('seg', I0, ic((r[1] - r[0]) // r[2]), lambda j: ZERO),)
        elif r[1] is not None and r[0] <= b < r[1]:
            k = (o.id, r[0], 0)
            st.mem[k] = st.mem.get(k, ()) + (('seg', ic((b - r[0]) // r[2]), ic((b - r[0] + n) // r[2]), lambda j: ZERO),)
    if v.data != 0: raise Unsupported('memset value')
    leaves = []
    if o.tag is not None and o.kind == 'alloca':
        leaves = [(off, ZERO if t[0] in ('f64', 'f32') else NULL if t[0] == 'ptr' else I0) for off, t in E.TY.flatten(o.tag, 0, 100000)]
    elif o.leaves: leaves = [(off, ZERO if k == 'R' else NULL if k == 'P' else I0) for off, p_, k, t in o.leaves if k in 'RIP']
    for off, z in leaves:
        if b <= off < b + n and o.region_at(off) is None: st.mem[(o.id, off)] = z
def m_nop(E, st, a, d, i): return None
def m_false(E, st, a, d, i): return FALSE
def m_assume(E, st, a, d, i): return None
def m_fmin(E, st, a, d, i): return ite(lt(a[1], a[0]), a[1], a[0])
def m_fmax(E, st, a, d, i): return ite(lt(a[0], a[1]), a[1], a[0])
def m_fma(E, st, a, d, i): return radd(rmul(a[0], a[1]), a[2])
def m_hypot(E, st, a, d, i): return fn('sqrt', radd(rmul(a[0], a[0]), rmul(a[1], a[1])))
def m_opaque(name):
    def m(E, st, a, d, i):
        if not E.quiet: E.evals.append((st.pc, tuple(a)))
        return app(name, a, 'R')
    return m
def m_abs_i(E, st, a, d, i): return ite(lt(a[0], I0), iscale(a[0], -1), a[0])

EXACT = {'pow': m_pow, 'powf': m_pow, 'floor': m_floor, 'llvm.floor.f64': m_floor, 'ceil': m_ceil, 'llvm.ceil.f64': m_ceil,
         'trunc': lambda E, st, a, d, i: toreal(trunc_(a[0])), 'lround': m_lround, 'fmin': m_fmin, 'fmax': m_fmax, 'fma': m_fma, 'hypot': m_hypot,
         'llvm.minnum.f64': m_fmin, 'llvm.maxnum.f64': m_fmax, 'llvm.fmuladd.f64': m_fma, 'llvm.fma.f64': m_fma,
         'abs': m_abs_i, 'labs': m_abs_i, 'llvm.abs.i32': m_abs_i, '__cxa_atexit': lambda E, st, a, d, i: I0,
         'vf_integrand': m_opaque('f'), 'vf_integrand2': m_opaque('f2')}
for _n in ('sqrt', 'exp', 'log', 'log10', 'log1p', 'expm1', 'cbrt', 'sin', 'cos', 'tan', 'atan', 'atan2', 'fabs', 'sinh', 'cosh', 'tanh', 'log2', 'exp2'):
    EXACT[_n] = _f(_n); EXACT['llvm.%s.f64' % _n] = _f(_n); EXACT[_n + 'f'] = _f(_n)

# ---------------------------------------------------------------- vectors
def vec_access(E, st, p, const):
    """the buffer behind the vector at p"""
    if isinstance(p, PIte):
        return PIte(p.c, vec_access(E, st, p.a, const), vec_access(E, st, p.b, const))
    v = E.getvec(st, p)
    if v.buf is not None: return v.buf
    if p.obj.kind == 'buf' or (const and p.obj.kind == 'param'):
        return E.view(v.elem, v.seq)
    return E.vec_buf(st, p).buf
def bufptr(E, st, b, off):
    """off: function of the buffer giving the byte offset"""
    if isinstance(b, PIte): return PIte(b.c, bufptr(E, st, b.a, off), bufptr(E, st, b.b, off))
    return Ptr(b, off(b), 0, E.gen(st, b))
def stride(b): return b.regions[0][2]
def v_begin(E, st, a, d, i):
    b = vec_access(E, st, a[0], d.endswith('const')); return bufptr(E, st, b, lambda b: I0)
def v_end(E, st, a, d, i):
    b = vec_access(E, st, a[0], d.endswith('const')); return bufptr(E, st, b, lambda b: iscale(E.blen(st, b), stride(b)))
def v_index(E, st, a, d, i):
    b = vec_access(E, st, a[0], d.endswith('const'))
    def off(b):
        n = E.blen(st, b)
        g = and_(le(I0, a[1]), lt(a[1], n))
        if g is not TRUE: E.oblige('bounds', st, g, 'index %s within vector %s' % (a[1], b.name))
        return iscale(a[1], stride(b))
    return bufptr(E, st, b, off)
def v_front(E, st, a, d, i): return v_index(E, st, [a[0], I0], d, i)
def v_back(E, st, a, d, i):
    b = vec_access(E, st, a[0], d.endswith('const'))
    def off(b):
        n = E.blen(st, b); g = lt(I0, n)
        if g is not TRUE: E.oblige('bounds', st, g, 'back() of non-empty vector')
        return iscale(isub(n, I1), stride(b))
    return bufptr(E, st, b, off)
def v_size(E, st, a, d, i):
    p = a[0]
    if isinstance(p, PIte): return ite(p.c, v_size(E, st, [p.a], d, i), v_size(E, st, [p.b], d, i))
    return E.vec_len(st, E.getvec(st, p))
def v_empty(E, st, a, d, i): return eq(v_size(E, st, a, d, i), I0)
def elem_of(d):
    j = d.index('std::vector<')
    return vector_elem(d[j:])
def v_ctor(E, st, a, d, i):
    el = elem_of(d)
    E.vec_paths(el)
    E.write(st, a[0], VecVal(el, EMPTY))
def v_kill(E, st, p):
    try: v = E.read(st, p)
    except Unsupported: return
    if isinstance(v, VecVal) and v.buf is not None:
        E.bump(st, v.buf)
def v_copy(E, st, a, d, i):
    v = E.getvec(st, a[1])
    E.write(st, a[0], E.copy_vec(st, v))
def v_assign(E, st, a, d, i):
    if a[0] == a[1]: return a[0]
    v = E.copy_vec(st, E.getvec(st, a[1]))
    v_kill(E, st, a[0])
    E.write(st, a[0], v)
    return a[0]
def v_move(E, st, a, d, i):
    v = E.getvec(st, a[1])
    E.write(st, a[0], v); E.write(st, a[1], VecVal(v.elem, EMPTY))
def v_moveassign(E, st, a, d, i):
    if a[0] == a[1]: return a[0]
    v_kill(E, st, a[0]); v_move(E, st, a, d, i)
    return a[0]
def v_dtor(E, st, a, d, i): return None
def grow(E, st, p):
    b = E.vec_buf(st, p).buf
    n = E.blen(st, b)
    st.mem[(b.id, '#len')] = iadd(n, I1)
    E.bump(st, b)
    return b, n
def v_push(E, st, a, d, i):
    el = elem_of(d)
    # the pushed value is read before the vector grows
    vals = []
    for o, p, k, t in E.elem_leaves(el):
        x = E.read(st, E.addp(a[1], o))
        if isinstance(x, VecVal): x = E.copy_vec(st, x)
        vals.append((o, x))
    b, n = grow(E, st, a[0])
    for o, x in vals:
        if isinstance(x, Undef): continue
        E.rawwrite(st, ('r', b, (0, o), n), x)
    return Ptr(b, iscale(n, stride(b)), 0, E.gen(st, b))
def v_emplace(E, st, a, d, i):
    el = elem_of(d)
    m = re.search(r'emplace_back<(.*)>\((.*)\)$', d)
    ty = clean(re.sub(r'[&]', '', m.group(1))).replace('const', '').strip() if m else ''
    if len(a) == 2 and ty in (el, el + ' '): return v_push(E, st, a, d, i)
    if el == 'double' and len(a) == 2:
        x = E.read(st, a[1])
        if isinstance(x, T):
            if x.sort == 'I': x = toreal(x)
            b, n = grow(E, st, a[0]); E.rawwrite(st, ('r', b, (0, 0), n), x)
            return Ptr(b, iscale(n, stride(b)), 0, E.gen(st, b))
    raise Unsupported('emplace_back')
def v_pop(E, st, a, d, i):
    b = E.vec_buf(st, a[0]).buf; n = E.blen(st, b)
    E.oblige('bounds', st, lt(I0, n), 'pop_back of non-empty vector')
    st.mem[(b.id, '#len')] = isub(n, I1)
def v_reserve(E, st, a, d, i):
    v = E.getvec(st, a[0])
    if v.buf is not None: E.bump(st, v.buf)
def v_clear(E, st, a, d, i):
    v = E.getvec(st, a[0]); v_kill(E, st, a[0])
    E.write(st, a[0], VecVal(v.elem, EMPTY))
def default_elem(E, st, el):
    """leaf values of a value-initialised element"""
    ls = E.elem_leaves(el)
    if all(k in 'RI' for _, _, k, _ in ls) and el in ('double', 'int', 'float'): return {o: ZERO if k == 'R' else I0 for o, p, k, t in ls}
    ctor = E.P.find('%s::%s()' % (el, el.split('::')[-1]))
    if ctor is None: return {o: ZERO if k == 'R' else I0 if k == 'I' else NULL if k == 'P' else VecVal(vector_elem(t), EMPTY) if k == 'V' else UNDEF for o, p, k, t in ls}
    o = E.newobj('default', 'alloca', E.lay.size(el)); o.leaves = E.lay.leaves(el)
    rs = E.call_function(ctor, [Ptr(o)], st.copy())
    if len(rs) != 1: raise Unsupported('default constructor')
    s2 = rs[0][0]
    return {off: UNDEF if k == 'O' else s2.mem.get((o.id, off), UNDEF) for off, p, k, t in ls}
def fill_range(E, st, b, lo, hi, vals):
    for o, x in vals.items():
        if isinstance(x, Undef): continue
        k = (b.id, 0, o)
        st.mem[k] = st.mem.get(k, ()) + (('seg', lo, hi, (lambda x: lambda j: x)(x)),)
def v_resize(E, st, a, d, i):
    b = E.vec_buf(st, a[0]).buf; n0, n = E.blen(st, b), a[1]
    el = elem_of(d)
    if len(a) > 2 and isinstance(a[2], (Ptr, PIte)): vals = {o: E.read(st, E.addp(a[2], o)) for o, *_ in E.elem_leaves(el)}
    else: vals = default_elem(E, st, el)
    st.mem[(b.id, '#len')] = n; E.bump(st, b)
    fill_range(E, st, b, n0, n, vals)
def v_sized(E, st, a, d, i):
    el = elem_of(d)
    v_ctor(E, st, a, d, i)
    v_resize(E, st, a if len(a) > 3 else a[:2], d, i)
def v_initlist(E, st, a, d, i):
    el = elem_of(d)
    v_ctor(E, st, a, d, i)
    n, src = a[2], a[1]
    if not isc(n): raise Unsupported('initializer list length')
    b = E.vec_buf(st, a[0]).buf
    st.mem[(b.id, '#len')] = n
    for j in range(n.data):
        for o, p, k, t in E.elem_leaves(el):
            E.rawwrite(st, ('r', b, (0, o), ic(j)), E.read(st, E.addp(src, j * stride(b) + o)))
def v_insert_range(E, st, a, d, i):
    el = elem_of(d)
    pos, first, last = a[1], a[2], a[3]
    b = E.vec_buf(st, a[0]).buf; n = E.blen(st, b)
    if not (isinstance(pos, Ptr) and pos.obj is b): raise Unsupported('insert position')
    if eq(pos.off, iscale(n, stride(b))) is not TRUE: raise Unsupported('insert not at the end')
    if not (isinstance(first, Ptr) and isinstance(last, Ptr) and first.obj is last.obj): raise Unsupported('insert range')
    if first.obj is b: E.oblige('iterator', st, FALSE, 'range inserted into the container it comes from'); raise Unsupported('self insert')
    cnt = idiv_floor(isub(last.off, first.off), stride(b)); s0 = idiv_floor(first.off, stride(b))
    snap = dict(st.mem); so = first.obj
    for o, p, k, t in E.elem_leaves(el):
        def f(j, o=o): return read_layers(snap.get((so.id, 0, o), ()), iadd(isub(j, n), s0), lambda x: so.init((0, o), x) if so.init else UNDEF)
        k_ = (b.id, 0, o)
        st.mem[k_] = st.mem.get(k_, ()) + (('seg', n, iadd(n, cnt), f),)
    st.mem[(b.id, '#len')] = iadd(n, cnt); E.bump(st, b)
    return Ptr(b, pos.off, 0, E.gen(st, b))
def v_rangector(E, st, a, d, i):
    el = elem_of(d)
    v_ctor(E, st, a, d, i)
    b = E.vec_buf(st, a[0]).buf
    v_insert_range(E, st, [a[0], Ptr(b, I0, 0, E.gen(st, b)), a[1], a[2]], d, i)
def v_swap(E, st, a, d, i):
    x, y = E.getvec(st, a[0]), E.getvec(st, a[1])
    E.write(st, a[0], y); E.write(st, a[1], x)

def vector_member(d):
    if not d.startswith('std::vector<'): return None
    depth = 0
    for j, c in enumerate(d):
        if c == '<': depth += 1
        elif c == '>':
            depth -= 1
            if depth == 0: break
    rest = d[j + 1:]
    if not rest.startswith('::'): return None
    rest = rest[2:]
    m = re.match(r'(operator\[\]|operator=|~?\w+)', rest)
    if not m: return None
    n = m.group(1); args = rest[len(n):]
    if n in ('begin', 'cbegin', 'data'): return v_begin
    if n in ('end', 'cend'): return v_end
    if n in ('operator[]', 'at'): return v_index
    if n == 'front': return v_front
    if n == 'back': return v_back
    if n == 'size': return v_size
    if n == 'empty': return v_empty
    if n == '~vector': return v_dtor
    if n == 'push_back': return v_push
    if n == 'emplace_back': return v_emplace
    if n == 'pop_back': return v_pop
    if n == 'reserve' or n == 'shrink_to_fit': return v_reserve
    if n == 'clear': return v_clear
    if n == 'resize': return v_resize
    if n == 'swap': return v_swap
    if n == 'insert' and args.startswith('<'): return v_insert_range
    if n == 'operator=': return v_moveassign if args.rstrip(')').endswith('&&') else v_assign if 'initializer_list' not in args else None
    if n == 'vector':
        if args == '()': return v_ctor
        if args.startswith('<'): return v_rangector
        if args.startswith('(std::initializer_list'): return v_initlist
        if args.startswith('(unsigned long'): return v_sized
        if args.endswith('&&)'): return v_move
        if args.startswith('(std::vector'): return v_copy
        if args.startswith('(std::allocator'): return v_ctor
    return None

# ---------------------------------------------------------------- algorithms
def targs(d):
    """template arguments of the function std::name<...> demangled as d"""
    depth = 0; args = []; cur = ''
    m = re.search(r"(?:^| )std::(?:all_of|any_of|none_of|find|find_if|find_if_not|accumulate)<", d)
    j = m.end() - 1 if m else d.index('<')
    for c in d[j + 1:]:
        if c == '<' or c == '(' : depth += 1
        if c == '>' or c == ')':
            if depth == 0: break
            depth -= 1
        if c == ',' and depth == 0: args.append(cur.strip()); cur = ''
        else: cur += c
    args.append(cur.strip())
    return args
def lambda_call(E, d):
    """operator() of the closure type that is the last template argument of d"""
    cl = targs(d)[-1]
    for n, x in E.P.dem.items():
        if x.startswith(cl + '::operator()(') and E.P.has(n): return n
    raise Unsupported('closure ' + cl)
def over_range(E, st, first, last, f):
    """(number of elements, index j, value of f at element j)"""
    if not (isinstance(first, Ptr) and isinstance(last, Ptr) and first.obj is last.obj): raise Unsupported('range')
    sd = stride(first.obj)
    n = idiv_floor(isub(last.off, first.off), sd)
    j = fresh('j', 'I')
    s = st.copy(); s.assume(le(I0, j)); s.assume(lt(j, n))
    p = f(s, Ptr(first.obj, iadd(first.off, iscale(j, sd)), first.hint, first.gen))
    return n, j, p
def pure_call(E, f, args, s):
    old = dict(s.mem); known = set(E.objs)
    rs = E.call_function(f, args, s)
    if len(rs) != 1: raise Unsupported('predicate')
    if {k: v for k, v in rs[0][0].mem.items() if k[0] in known} != old: raise Unsupported('predicate with effects')
    return rs[0][1]
def closure_arg(a): return a[2] if len(a) > 2 else UNDEF
def alg_find(kind):
    """the first position at which the predicate holds"""
    def m(E, st, a, d, i):
        first, last = a[0], a[1]
        if kind == 'value':
            el = next((x for x in E.P.dem if re.match(r'(bool )?catima::operator==\((catima::)?%s const&, (catima::)?%s const&\)$' % ((re.escape(targs(d)[-1].replace('catima::', '')),) * 2), E.P.dem[x]) and E.P.has(x)), None)
            if el is not None: f = lambda s, p: pure_call(E, el, [p, a[2]], s)
            elif targs(d)[-1] in ('int', 'double', 'float', 'unsigned int', 'long', 'unsigned long'): f = lambda s, p: eq(E.read(s, p), E.read(s, a[2]))
            else: raise Unsupported('comparison of ' + targs(d)[-1])
        else:
            l = lambda_call(E, d)
            f = lambda s, p: pure_call(E, l, [closure_arg(a), p], s)
        n, j, p = over_range(E, st, first, last, f)
        if kind == 'not': p = not_(p)
        r = fresh('r', 'I')
        st.assume(le(I0, r)); st.assume(le(r, tmax(n, I0)))
        st.assume(forall(I0, r, not_(p), j)); st.assume(implies(lt(r, n), subst(p, {j: r})))
        return Ptr(first.obj, iadd(first.off, iscale(r, stride(first.obj))), first.hint, first.gen)
    return m
def alg_accumulate(E, st, a, d, i):
    """the sum over a range; with an operation only when it adds a value of the element to the running sum"""
    first, last, init = a[0], a[1], a[2]
    if not (isinstance(init, T) and init.sort in 'RI'): raise Unsupported('accumulate')
    if len(targs(d)) == 2:
        n, j, v = over_range(E, st, first, last, lambda s, p: E.read(s, p))
        if init.sort != v.sort: raise Unsupported('accumulate')
    else:
        l = lambda_call(E, d); acc = fresh('acc', init.sort)
        n, j, r = over_range(E, st, first, last, lambda s, p: pure_call(E, l, [a[3] if len(a) > 3 else UNDEF, acc, p], s))
        from .exec import struct_delta
        v = struct_delta(r, acc, 'radd') if init.sort == 'R' else None
        if v is None or mentions(v, [acc]): raise Unsupported('accumulate operation')
    if init.sort != 'R': raise Unsupported('accumulate')
    return radd(init, sum_(I0, n, v, j))
def alg_pred(kind):
    def m(E, st, a, d, i):
        f = lambda_call(E, d)
        n, j, p = over_range(E, st, a[0], a[1], lambda s, p: pure_call(E, f, [closure_arg(a), p], s))
        if kind == 'all': return forall(I0, n, p, j)
        if kind == 'any': return exists(I0, n, p, j)
        return forall(I0, n, not_(p), j)
    return m
def arr_fill(E, st, a, d, i):
    p, src = a[0], a[1]
    v = E.read(st, src)
    m = re.search(r'std::array<(?:[^,]*), (\d+)', d)
    n = int(m.group(1))
    r = p.obj.region_at(p.off.data)
    lo = (p.off.data - r[0]) // r[2]
    k = (p.obj.id, r[0], 0)
    st.mem[k] = st.mem.get(k, ()) + (('seg', ic(lo), ic(lo + n), lambda j: v),)

def quadrature(E, st, a, d, i):
    """integrate(f, a, b) under its contract: the quadrature rule of the given order applied to f"""
    m = re.search(r'(GaussLegendreIntegration|GaussKronrodIntegration)<(\d+)>::(integrate|operator\(\))<', d)
    order = int(m.group(2)); rule = ('GL:%d' if m.group(1).startswith('GaussL') else 'GK:%d') % order
    cl = d[d.index(m.group(3) + '<') + len(m.group(3)) + 1:]
    depth = 0
    for j, c in enumerate(cl):
        if c in '<(': depth += 1
        elif c in '>)':
            if depth == 0 and c == '>': break
            depth -= 1
    cl = cl[:j]
    f = None
    for n, x in E.P.dem.items():
        if x.startswith(cl + '::operator()(') and E.P.has(n): f = n
    if f is None: raise Unsupported('integrand ' + cl)
    # arguments: this, closure (may be absent when empty), lower, upper[, eps, depth]
    reals = [k for k, v in enumerate(a) if isinstance(v, T) and v.sort == 'R']
    lo, hi = a[reals[0]], a[reals[1]]
    clo = a[reals[0] - 1] if reals[0] >= 1 and isinstance(a[reals[0] - 1], (Ptr, PIte)) else UNDEF
    x = fresh('x', 'R')
    s = st.copy()
    E.used_models.add('integrate<%s>' % rule)
    rs = E.call_function(f, [clo, x], s)
    if len(rs) != 1: raise Unsupported('integrand with several outcomes')
    s2, body = rs[0]
    # cells the integrand writes have an unknown value afterwards
    for k, v in s2.mem.items():
        o = st.mem.get(k)
        if o is v or (not isinstance(v, T) and o == v): continue
        if len(k) == 3: raise Unsupported('integrand writes arrays')
        if isinstance(v, T): st.mem[k] = fresh('hav', v.sort)
        elif isinstance(v, VecVal): 
            if o is None: continue
            raise Unsupported('integrand changes a vector')
        else: st.mem.pop(k, None)
    # evaluated again after any of its own evaluations, the integrand must give the same value: it may not read what it leaves behind
    s3 = st.copy()
    rs = E.call_function(f, [clo, x], s3)
    if len(rs) != 1 or rs[0][1] is not body: raise Unsupported('integrand depends on its own side effects')
    return quad(rule, lo, hi, body, x)

def no_return_type(d):
    """a member of std::vector demangled with its return type (templates), without it"""
    depth = 0
    for j, c in enumerate(d):
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif c == '(' and depth == 0: break
        elif c == ' ' and depth == 0 and d.startswith('std::vector<', j + 1): return d[j + 1:]
    return d
def lookup(d, name):
    m = EXACT.get(name) or EXACT.get(d)
    if m is not None: return m
    if name.startswith('llvm.'):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'): return m_memcpy
        if name.startswith('llvm.memset'): return m_memset
        if name.startswith('llvm.is.constant'): return m_false
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant')): return m_nop
        return None
    d0 = no_return_type(d)
    if d0.startswith('std::vector<'):
        m = vector_member(d0)
        return m if m is None or d0 is d else lambda E, st, a, _, i: m(E, st, a, d0, i)
    k = d[5:] if d.startswith('bool std::') else d
    if d.startswith(('bool std::all_of<', 'std::all_of<')): return alg_pred('all')
    if d.startswith(('bool std::any_of<', 'std::any_of<')): return alg_pred('any')
    if d.startswith(('bool std::none_of<', 'std::none_of<')): return alg_pred('none')
    m = re.match(r'(?:.* )?std::(find|find_if|find_if_not|accumulate)<', d)
    if m and not d.startswith('std::vector<'):
        return {'find': alg_find('value'), 'find_if': alg_find('pred'), 'find_if_not': alg_find('not'), 'accumulate': alg_accumulate}[m.group(1)]
    if re.match(r'std::array<[^<>]*>::fill\(', d): return arr_fill
    if re.match(r'(double )?integrators::Gauss(Legendre|Kronrod)Integration<\d+>::integrate<', d) and 'OpaqueF' not in d: return quadrature
    return None
from fractions import Fraction
