"""Discharging obligations: case splits, congruence, unfolding of contract symbols, normal forms, z3."""
import time
from .terms import *
from . import terms as tm, solve
from .spec import BYNAME, SeqV
from .sym import *

class Budget:
    def __init__(self, secs): self.end = time.time() + secs; self.steps = 0; self.leaf = None
    def fail(self, pc, g):
        """remembers where a proof got stuck"""
        self.leaf = (tuple(pc), g); return False
    def out(self): return time.time() > self.end
DEBUG = None
def dbg(*a):
    if DEBUG: DEBUG(*a)

def atoms_of_fact(f, val, out):
    """truth values implied by a fact"""
    if f.op == 'and' and val:
        for x in f.args: atoms_of_fact(x, True, out)
    elif f.op == 'or' and not val:
        for x in f.args: atoms_of_fact(x, False, out)
    elif f.op == 'not': atoms_of_fact(f.args[0], not val, out)
    out[f] = bc(val)
    n = not_(f)
    if not isc(n): out[n] = bc(not val)
def facts_map(pc):
    m = {}
    for f in pc: atoms_of_fact(f, True, m)
    return m
def eq_solve(f):
    """x == t with x replaceable"""
    if f.op != 'eq': return None
    a, b = f.args
    if a.sort == 'I':
        d = isub(b, a)
        c, m = tm._lin(d)
        for x, v in m.items():
            if abs(v) == 1 and x.op in ('v', 'app'):
                t = tm._mklin(c * -v, {y: w * -v for y, w in m.items() if y is not x})
                if not mentions(t, [x]): return x, t
        return None
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if y.op in ('v', 'app'): return y, x
            if y.op == 'rmul' and len(y.args) == 2 and isc(y.args[0]): return y.args[1], rc(x.data / y.args[0].data)
            if y.op in ('rmul', 'rdiv', 'radd'): return y, x
    if a.op == 'v' and not mentions(b, [a]): return a, b
    if b.op == 'v' and not mentions(a, [b]): return b, a
    return None
def simp(t, pc, memo=None):
    m = facts_map(pc)
    r = subst(t, m) if m else t
    eqs = {}
    pcs = set(pc)
    for f in pc:
        if f.op == 'le' and f.args[0].sort == 'R' and le(f.args[1], f.args[0]) in pcs: f = eq(*f.args)
        s = eq_solve(f)
        if s and s[0] not in eqs: eqs[s[0]] = s[1]
    if eqs:
        r = subst(r, eqs)
    return r
def simp_fact_eqs(pc):
    eqs = {}
    for f in pc:
        s = eq_solve(f)
        if s: eqs[s[0]] = s[1]
    return eqs
def free_bound(t): return bool(solve.fv_bound(t))
def pick_cond(*ts):
    """an ite condition without bound variables, outermost first"""
    seen = set(); q = list(ts)
    while q:
        t = q.pop(0)
        if t.id in seen or not t.ites: continue
        seen.add(t.id)
        if t.op == 'ite':
            c = t.args[0]
            if not free_bound(c):
                if c.ites:
                    d = pick_cond(c)
                    if d is not None: return d
                return c
        q.extend(t.args)
    return None
def atom_cond(c):
    """a literal of a compound condition"""
    while c.op in ('and', 'or', 'not', 'iff'):
        nx = [x for x in c.args if not free_bound(x)]
        if not nx: return c
        c = nx[0]
    return c
def same_bool(a, b):
    n = solve.NF()
    try: return n.bkey(a) == n.bkey(b)
    except Exception: return False

def align_sums(pc, a, b):
    """sums over the same start whose ends differ by a small constant: the longer one as the shorter one plus its last terms"""
    ss = [x for x in subterms(a, b) if x.op == 'sum' and not free_bound(x.args[0]) and not free_bound(x.args[1])]
    m = {}
    for x in ss:
        if any(y.op == 'v' for y in tm._lin(isub(x.args[1], x.args[0]))[1]) and solve.valid(pc, le(x.args[1], x.args[0]), 500): m[x] = ZERO; continue
        best = None
        for y in ss:
            if y.args[0] is not x.args[0]: continue
            d = isub(x.args[1], y.args[1])
            if isc(d) and 0 < d.data <= 4 and (best is None or d.data > best[0]): best = (d.data, y.args[1])
        if best and solve.valid(pc, le(x.args[0], best[1]), 1000):
            d, h = best
            m[x] = radd(mk('sum', (x.args[0], h) + x.args[2:], x.data, x.sort), *[inst(x, iadd(h, ic(q))) for q in range(d)])
    # states of the same recurrence at iterations that differ by a small constant: the later one through the recurrence
    rs = [x for x in subterms(a, b) if x.op == 'recval' and not free_bound(x)]
    for x in rs:
        ds = [isub(x.args[0], y.args[0]) for y in rs if y.data[0] is x.data[0]]
        if any(isc(d) and 0 < d.data <= 4 for d in ds) or isc(x.args[0]) and 0 < x.args[0].data <= 4:
            k = isub(x.args[0], I1)
            if solve.valid(pc, le(I0, k), 1000):
                ld, i = x.data
                s = {v: tm.recval(ld, n, k) for n, v in enumerate(ld.st)}; s[ld.kvar] = k
                m[x] = subst(ld.step[i], s)
    return (subst(a, m), subst(b, m)) if m else None
def prove_eq(pc, a, b, bud, depth=0):
    if a is b: return True
    if bud.out() or depth > 40: return bud.fail(pc, eq(a, b))
    a, b = simp(a, pc), simp(b, pc)
    if a is b or solve.nf_equal(a, b): return True
    r = align_sums(pc, a, b)
    if r is not None: return prove_eq(pc, r[0], r[1], bud, depth + 1)
    if a.ites or b.ites:
        r = unfold_step(a, b, True)
        if r is not None: return prove_eq(pc, r[0], r[1], bud, depth + 1)
    c = pick_cond(a, b)
    if c is not None:
        c = atom_cond(c)
        r = decide(pc, c)
        if r is not None:
            s = {c: bc(r), not_(c): bc(not r)}
            return prove_eq(pc, subst(a, s), subst(b, s), bud, depth + 1)
        ok = True
        for v in (True, False):
            f = c if v else not_(c)
            s = {c: bc(v), not_(c): bc(not v)}
            # conditions that are the same up to normal form
            for x in subterms(a, b):
                if x.op == 'ite' and x.args[0] is not c and x.args[0].op == c.op and not free_bound(x.args[0]) and same_bool(x.args[0], c): s[x.args[0]] = bc(v)
            if not prove_eq(add_fact(pc, f), subst(a, s), subst(b, s), bud, depth + 1): ok = False; break
        return ok
    if a.sort == 'B': return prove_bool(pc, iff(a, b), bud, depth + 1)
    r = congruence(pc, a, b, bud, depth)
    if r is True: return True
    r = unfold_step(a, b)
    if r is not None: return prove_eq(pc, r[0], r[1], bud, depth + 1)
    if bud.out(): return bud.fail(pc, eq(a, b))
    r = solve.valid(pc, eq(a, b), min(4000, max(500, int((bud.end - time.time()) * 500))))
    if not r: dbg('leaf', depth, pc, a, b); bud.fail(pc, eq(a, b))
    return r
def add_fact(pc, f):
    if f.op == 'and': 
        for x in f.args: pc = add_fact(pc, x)
        return pc
    return pc if f in pc else tuple(pc) + (f,)
def decide(pc, c):
    """truth value of c under pc if determined"""
    k = facts_map(pc).get(c)
    if k is not None: return k.data
    rel = relevant(pc, c)
    if solve.check(rel + [c], None, 60) == 'unsat': return False
    if solve.check(rel + [not_(c)], None, 60) == 'unsat': return True
    # a comparison known already, written differently
    if c.op in ('lt', 'le', 'eq') and c.args[0].sort == 'R':
        n = solve.NF()
        try:
            key = n.bkey(c)
            if key[0] == 'B': return key[1]
            for f, v in facts_map(pc).items():
                if f.op == c.op and f.args[0].sort == 'R' and leafs(f) == leafs(c) and n.bkey(f) == key: return v.data
        except Exception: pass
    return None
def relevant(pc, c):
    """facts that share variables with c (transitively); keeps queries small"""
    vs = set(leafs(c)); rest = list(pc); out = []
    ch = True
    while ch and rest:
        ch = False
        for f in list(rest):
            lf = leafs(f)
            if lf & vs or not lf:
                out.append(f); rest.remove(f)
                if len(lf - vs): vs |= lf; ch = True
    return out
_lf = {}
def leafs(t):
    r = _lf.get(t.id)
    if r is None:
        r = frozenset(x.id for x in subterms(t) if x.op == 'v')
        _lf[t.id] = r
    return r

def is_sym(t):
    if t.op != 'app': return None
    n = t.data
    c = BYNAME.get(n)
    if c is not None and c.post is not None and c.ret in ('R', 'I', 'B'): return c, None
    if isinstance(n, str) and '.' in n:
        h, _, leaf = n.partition('.')
        c = BYNAME.get(h)
        if c is not None and c.post is not None and c.ret not in ('R', 'I', 'B', 'void', 'ref') : return c, leaf
    return None
def unfold_term(t):
    s = is_sym(t)
    if s is None: return None
    c, leaf = s
    try:
        d = c.definition(t.args, leaf)
        if isinstance(d, SeqV): d = d.s
        return d if isinstance(d, T) else None     # sequences given element by element are unfolded through SEQDEF
    except (KeyError, AttributeError): return None
def unfold_step(a, b, strict=False):
    """unfold contract symbols that occur on one side only (outermost first)"""
    A = {x: 1 for x in subterms(a) if is_sym(x)}
    B = {x: 1 for x in subterms(b) if is_sym(x)}
    only = [x for x in A if x not in B] + [x for x in B if x not in A]
    if not only: return None
    # names present on one side only are unfolded first
    na, nb = {x.data for x in A}, {x.data for x in B}
    first = [x for x in only if (x.data in na) != (x.data in nb)]
    if not first:
        if strict: return None
        first = only
    # outermost: not inside another candidate
    inner = set()
    for x in first:
        for y in subterms(*x.args): inner.add(y)
    cand = [x for x in first if x not in inner] or first
    m = {}
    for x in cand:
        d = unfold_term(x)
        if d is not None: m[x] = d
    if not m: return None
    a2, b2 = subst(a, m), subst(b, m)
    if a2 is a and b2 is b: return None
    return a2, b2
def unfold_all(t, rounds=6):
    for _ in range(rounds):
        m = {}
        for x in subterms(t):
            if is_sym(x) and not free_bound(x):
                d = unfold_term(x)
                if d is not None: m[x] = d
        if not m: break
        t = subst(t, m)
    return t

CONG = BINDERS | {'app', 'recval'}
def cong_atoms(t):
    return [x for x in subterms(t) if x.op in CONG and not free_bound(x)]
def congruence(pc, a, b, bud, depth):
    if depth > 14: return None
    A = set(cong_atoms(a)); B = set(cong_atoms(b))
    # integer valued compound atoms inside
    oa, ob = [x for x in A if x not in B], [x for x in B if x not in A]
    if not oa or not ob: return None
    # outermost first, so that arguments are compared in context
    key = lambda x: -len(subterms(x))
    m = {}
    for x in sorted(oa, key=key):
        for y in sorted(ob, key=key):
            if y in m.values() and False: continue
            if x.op != y.op or x.sort != y.sort: continue
            if x.op == 'recval':
                if rec_equal(pc, x, y, bud, depth): m[x] = y; break
                continue
            if x.data != y.data or len(x.args) != len(y.args): continue
            if x.op == 'app' and x.data in BYNAME and bud.out(): return None
            if args_equal(pc, x, y, bud, depth): m[x] = y; break
    if not m: return None
    a2 = subst(a, m)
    if a2 is a: return None
    return prove_eq(pc, a2, b, bud, depth + 1)
def args_equal(pc, x, y, bud, depth):
    if bud.out(): return False
    if x.op in BINDERS:
        if not val_equal(pc, x.args[0], y.args[0], bud, depth): return False
        if not val_equal(pc, x.args[1], y.args[1], bud, depth): return False
        bv = x.args[3]
        j = fresh('i', bv.sort)
        lo, hi = x.args[0], x.args[1]
        if bv.sort == 'I': f = and_(le(lo, j), lt(j, hi))
        else: f = or_(and_(lt(lo, j), lt(j, hi)), and_(lt(hi, j), lt(j, lo)), eq(lo, hi))
        if bv.sort != 'I' and solve.check(relevant(pc, lt(hi, lo)) + [lt(hi, lo)], None, 300) == 'unsat': f = and_(le(lo, j), le(j, hi))
        p2 = add_fact(pc, f)
        if x.op in ('forall', 'exists'):
            return prove_bool(p2, iff(inst(x, j), inst(y, j)), bud, depth + 1)
        return prove_eq(p2, inst(x, j), inst(y, j), bud, depth + 3)
    return all(val_equal(pc, u, v, bud, depth) for u, v in zip(x.args, y.args))
def val_equal(pc, u, v, bud, depth):
    if u is v: return True
    if u.sort != v.sort: return False
    if u.sort == 'S': return seq_equal(pc, u, v, bud, depth)
    if u.sort == 'B': return prove_bool(pc, iff(u, v), bud, depth + 2)
    return prove_eq(pc, u, v, bud, depth + 2)
def seq_equal(pc, u, v, bud, depth):
    u, v = simp(u, pc), simp(v, pc)
    if u is v: return True
    c = pick_cond(u, v)
    if c is not None:
        c = atom_cond(c)
        r = decide(pc, c)
        vs = (True, False) if r is None else (r,)
        return all(seq_equal(add_fact(pc, c if x else not_(c)), subst(u, {c: bc(x), not_(c): bc(not x)}), subst(v, {c: bc(x), not_(c): bc(not x)}), bud, depth + 1) for x in vs)
    if u.op == 'app' and v.op == 'app' and u.data == v.data and len(u.args) == len(v.args):
        if all(val_equal(pc, x, y, bud, depth + 1) for x, y in zip(u.args, v.args)): return True
    return False
def rec_equal(pc, x, y, bud, depth):
    """two recurrences agree: a relation between their states holds initially and is preserved"""
    (la, i), (lb, j) = x.data, y.data
    if la.init[i].sort != lb.init[j].sort: return False
    if not val_equal(pc, x.args[0], y.args[0], bud, depth): return False
    if la is lb: return i == j
    k = fresh('k', 'I')
    pairs = [(i, j)]
    p2 = add_fact(pc, and_(le(I0, k), lt(k, x.args[0])))     # only the steps that are taken
    tried = set()
    def attempt(pairs):
        # shared state variables
        sa, sb = {la.kvar: k}, {lb.kvar: k}
        for n, (u, v) in enumerate(pairs):
            z = var('%%rel%d_%d' % (n, k.id), la.init[u].sort)
            sa[la.st[u]] = z; sb[lb.st[v]] = z
        for n, s in enumerate(la.st):
            if s not in sa: sa[s] = var('%%la%d_%d' % (n, k.id), s.sort)
        for n, s in enumerate(lb.st):
            if s not in sb: sb[s] = var('%%lb%d_%d' % (n, k.id), s.sort)
        for u, v in pairs:
            if not val_equal(pc, la.init[u], lb.init[v], bud, depth + 1): return False
            if not val_equal(p2, subst(la.step[u], sa), subst(lb.step[v], sb), bud, depth + 1): return False
        return True
    if attempt(pairs): return True
    import itertools
    ra, rb = [n for n in range(len(la.st)) if n != i], [n for n in range(len(lb.st)) if n != j]
    for m in range(1, min(len(ra), len(rb)) + 1):
        for ca in itertools.combinations(ra, m):
            for cb in itertools.permutations(rb, m):
                if bud.out(): return False
                if any(la.init[u].sort != lb.init[v].sort for u, v in zip(ca, cb)): continue
                if attempt([(i, j)] + list(zip(ca, cb))): return True
    return False

def prove_bool(pc, g, bud, depth=0):
    if bud.out() or depth > 40: return bud.fail(pc, g)
    g = simp(g, pc)
    if g is TRUE: return True
    if any(f is FALSE for f in pc): return True
    if g.op == 'and': return all(prove_bool(pc, x, bud, depth + 1) for x in g.args)
    if g.op == 'eq' and g.args[0].sort in 'R':
        return prove_eq(pc, g.args[0], g.args[1], bud, depth + 1)
    if g.op == 'eq' and g.args[0].sort == 'S':
        return seq_equal(pc, g.args[0], g.args[1], bud, depth) or solve.valid(pc, g, 1500) or bud.fail(pc, g)
    if g.op == 'iff':
        a, b = g.args
        if same_bool(a, b): return True
        if a.op == b.op and a.op in ('forall', 'exists') and args_equal(pc, a, b, bud, depth + 1): return True
        if solve.valid(relevant(pc, g), g, 1500): return True
        return prove_bool(add_fact(pc, a), b, bud, depth + 1) and prove_bool(add_fact(pc, b), a, bud, depth + 1)
    if g.op == 'forall' and not free_bound(g):
        j = fresh('i', 'I')
        return prove_bool(add_fact(pc, and_(le(g.args[0], j), lt(j, g.args[1]))), inst(g, j), bud, depth + 1)
    rel = relevant(pc, g)
    if solve.valid(rel, g, 1500): return True
    if g.op == 'or':
        # assume the negation of all but one disjunct
        for n, x in enumerate(g.args):
            p2 = pc
            for m, y in enumerate(g.args):
                if m != n: p2 = add_fact(p2, not_(y))
            if x.op in ('eq', 'iff', 'forall') and prove_bool(p2, x, bud, depth + 1): return True
    if infeasible(pc): return True
    c = pick_cond(g)
    if c is not None:
        c = atom_cond(c)
        r = decide(pc, c)
        vs = (True, False) if r is None else (r,)
        return all(prove_bool(add_fact(pc, c if v else not_(c)), subst(g, {c: bc(v), not_(c): bc(not v)}), bud, depth + 1) for v in vs)
    g2 = unfold_all(g, 1)
    if g2 is not g:
        pc2 = tuple(unfold_all(f, 1) for f in pc)
        return prove_bool(pc2, g2, bud, depth + 1)
    # unify facts through the normal form
    n = solve.NF()
    try:
        k = n.bkey(g)
        for f in pc:
            if f.op == g.op and n.bkey(f) == k: return True
    except Exception: pass
    return solve.valid(pc, g, 3000) or bud.fail(pc, g)
def infeasible(pc): return solve.check(list(pc), None, 600) == 'unsat'
def range_simp(t, ctx=(), memo=None):
    """conditions on summation and quantifier indices that hold (or fail) on the whole range are resolved inside the body"""
    if memo is None: memo = {}
    if not t.ites or not t.args: return t
    k = (t.id, ctx)
    r = memo.get(k)
    if r is not None: return r
    if t.op in BINDERS and t.args[3].sort == 'I':
        lo, hi = range_simp(t.args[0], ctx, memo), range_simp(t.args[1], ctx, memo)
        r = t
        if t.args[2].ites:
            j = fresh('i', 'I')
            b0 = inst(t, j)
            b = range_simp(b0, ctx + (le(lo, j), lt(j, hi)), memo)
            if b is not b0: r = bind(t.op, lo, hi, b, j, t.data, t.sort)
        if r is t and (lo is not t.args[0] or hi is not t.args[1]): r = rebuild(t, (lo, hi) + t.args[2:])
    elif t.op in BINDERS: r = t
    elif t.op == 'ite' and ctx and index_cond(t.args[0], ctx):
        c = t.args[0]
        if solve.check(list(ctx) + [not_(c)], None, 100) == 'unsat': r = range_simp(t.args[1], ctx, memo)
        elif solve.check(list(ctx) + [c], None, 100) == 'unsat': r = range_simp(t.args[2], ctx, memo)
        else: r = ite(c, range_simp(t.args[1], ctx, memo), range_simp(t.args[2], ctx, memo))
    else: r = rebuild(t, tuple(range_simp(a, ctx, memo) for a in t.args))
    memo[k] = r
    return r
def index_cond(c, ctx):
    """comparisons of integers only, at least one of them with an index in scope"""
    js = {y for f in ctx for y in subterms(f) if y.op == 'v'}
    st = [c]; hit = False
    while st:
        x = st.pop()
        if x.op in ('and', 'or', 'not'): st.extend(x.args)
        elif x.op in ('lt', 'le', 'eq') and x.args[0].sort == 'I': hit = hit or any(y in js for y in subterms(x))
        else: return False
    return hit
def prove(pc, g, secs=60):
    if g.ites: g = range_simp(g)
    return prove_bool(tuple(pc), g, Budget(secs))
