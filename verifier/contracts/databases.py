"""C18 databases"""
import re, os
from ..spec import *
from .. import spec, prove, solve
from ..exec import Executor
from .const import *
from .composition import *
from .stopping import element_density

def TabI(n, i): return app('tab:' + n, (co(i, I0),), 'I')
isotopes_num = C('abundance::get_isotopes_num(int z)', name='get_isotopes_num', sample=every_z, ret='I', props=['C18', 'C20'], expand=True,
    post=lambda e: Case((Or(Lt(e.z, 1), Gt(e.z, 109)), ic(0)), (Eq(e.z, 109), 313 - TabI('abundance::abundance_z_index', e.z - 1)), TabI('abundance::abundance_z_index', e.z) - TabI('abundance::abundance_z_index', e.z - 1)))
def listed(e): return And(Le(1, e.z), Le(e.z, 109), Le(0, e.i), Lt(e.i, isotopes_num(e.z)))
def entry(e): return TabI('abundance::abundance_z_index', e.z - 1) + e.i
isotope_a = C('abundance::get_isotope_a(int z, int i)', name='get_isotope_a', sample=every_isotope, ret='I', props=['C18', 'C20'], post=lambda e: If(listed(e), TabI('abundance::isotopes_a', entry(e)), ic(0)))
abundance = C('abundance::get_abundance(int z, int i)', name='get_abundance', sample=every_isotope, props=['C18'], post=lambda e: If(listed(e), Tab('abundance::isotopes_abundance', entry(e)), R(0)))
isotope = C('abundance::get_isotope(int z, int i)', name='get_isotope', sample=every_isotope, ret='pair', props=['C18'],
    post=lambda e: (If(listed(e), TabI('abundance::isotopes_a', entry(e)), ic(0)), If(listed(e), Tab('abundance::isotopes_abundance', entry(e)), R(0))))

# ---------------------------------------------------------------- predefined materials
MATL = ('rho', 'th', 'molar_mass', 'i_potential', 'atoms')
def enumerators():
    """names and numbers of the predefined materials, from the header"""
    from ..build import REPO
    t = open(os.path.join(REPO, 'include/catima/material_database.h'), errors='replace').read()
    t = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)
    m = re.search(r'enum\s+class\s+material\b[^{]*\{(.*?)\}', t, re.S)
    if not m: raise Unsupported('enumeration of predefined materials not found')
    out, last = [], -1
    for x in m.group(1).split(','):
        x = x.strip()
        if not x: continue
        n, _, v = x.partition('=')
        try: last = int(v.strip(), 0) if v.strip() else last + 1
        except ValueError: raise Unsupported('number of predefined material %s' % x)
        out.append((n.strip(), last))
    return out
def malformed(rho, atoms):
    """what is wrong with a predefined material given as density and [(mass, charge, proportion)]; None if nothing"""
    if not rho > 0: return 'density %g is not positive' % rho
    if not atoms: return 'no elements'
    zs = [z for a, z, s in atoms]
    if len(set(zs)) != len(zs): return 'an element is listed twice'
    for a, z, s in atoms:
        if not (1 <= z <= 109) or not a > 0: return 'no element %d' % z
    ss = [s for a, z, s in atoms]
    if all(s >= 1 for s in ss): return None
    if not all(0 < s < 1 for s in ss): return 'atom counts and weight fractions mixed'
    if abs(sum(ss) - 1) > 0.01: return 'weight fractions sum to %g' % sum(ss)
def compound_goals(E, st, ret, e, objs, sret):
    en = enumerators(); F = E.P.find(get_compound.key)
    leaf = {q: o for o, q, k, t in spec.LAY.leaves('catima::Material')}
    def one(arg, pc):
        E2 = Executor(E.P, E.contracts); s = St()
        for g in pc: s.assume(g)
        o = E2.newobj('result', 'result', spec.LAY.size('catima::Material'), (), None)
        rets = E2.call_function(F, [Ptr(o), arg], s)
        for b in E2.obls: yield 'reads inside the tables: ' + b.text, b.pc, b.goal
        for s, v in rets:
            if solve.check(list(s.pc), None, 2000) != 'unsat': yield s, {q: E2.read(s, Ptr(o, ic(leaf[q]))) for q in MATL}, E2
    def num(t):
        if isinstance(t, T) and t.op == 'app' and t.data == 'element_atomic_weight' and isc(t.args[0]): 
            z = t.args[0].data
            return float(tm.TABLES['catima::element_atomic_weights'][z]) if 1 <= z <= 109 else 0.0
        if not isc(t): raise Unsupported('a predefined material is not constant')
        return t.data
    for name, k in en:
        n = 0
        for x in one(ic(k), ()):
            if isinstance(x[0], str): yield x; continue
            s, r, E2 = x; n += 1
            v = r['atoms']; L = E2.vec_len(s, v)
            if not isc(L): raise Unsupported('number of elements of a predefined material')
            sq = SeqV('catima::Target', E2.to_seq(s, v))
            bad = malformed(float(num(r['rho'])), [(float(num(sq[ic(j)].A)), num(sq[ic(j)].Z), float(num(sq[ic(j)].stn))) for j in range(L.data)])
            yield '%s (%d) is well formed%s' % (name, k, ': ' + bad if bad else ''), (), FALSE if bad else TRUE
        if n != 1: raise Unsupported('%d results for one material' % n)
    m = e.m; pc = [Ne(m, k) for n, k in en]
    for x in one(m, pc):
        if isinstance(x[0], str): yield x; continue
        s, r, E2 = x
        for q in ('th', 'molar_mass', 'i_potential'): yield 'any other number gives an empty material: ' + q, s.pc, Eq(r[q], 0)
        yield 'any other number gives an empty material: no elements', s.pc, Eq(E2.vec_len(s, r['atoms']), 0)
def compound_search(nat, secs, seed):
    import random
    from ..native import Crash
    r = random.Random(seed); en = enumerators(); n = 0; known = {k for _, k in en}
    for k in [k for _, k in en] + [-2 ** 31, -1, 0, 1, 99, 110, 200, 2 ** 31 - 1, max(known) + 1] + [r.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(200)] + list(range(-5, 700)):
        n += 1
        try: m, outs = nat.call('get_compound', [k])
        except Crash as x: return dict(m=k), str(x)[:1000], n
        if k in known: bad = malformed(m['rho'], [(t['A'], t['Z'], t['stn']) for t in m['atoms']])
        else: bad = None if not m['atoms'] and not (m['th'] or m['molar_mass'] or m['i_potential']) else 'number without entry does not give an empty material'
        if bad: return dict(m=k), bad, n
    return None, None, n
def compound_leaf(m, leaf): return app('get_compound.' + leaf, (m,), 'S' if leaf == 'atoms' else 'R')
def compound_use(c, E, st, vals, i):
    """callers see the members as functions of the number"""
    E.vec_paths('catima::Target')
    for o, q, k, t in spec.LAY.leaves('catima::Material'):
        v = compound_leaf(vals[1], q)
        E.write(st, E.addp(vals[0], o), VecVal('catima::Target', v) if q == 'atoms' else v)
    sq = SeqV('catima::Target', compound_leaf(vals[1], 'atoms'))   # proved below: elements of predefined materials are valid, other numbers have none
    st.assume(All(sq.n, lambda j: Le(1, sq[j].Z))); st.assume(All(sq.n, lambda j: Gt(sq[j].A, 0)))
    return [(st, None)]
get_compound = C('catima::get_compound(material m)', name='get_compound', ret='Material', props=['C18', 'C01'], goals=compound_goals, custom=compound_use, search=compound_search)
get_material = C('catima::get_material(int id)', name='get_material', ret='Material', inline=True, expand=True, props=['C18', 'C19'], post=lambda e: (lambda k: dict(
    rho=If(k, element_density(e.id), compound_leaf(e.id, 'rho')), th=If(k, R(0), compound_leaf(e.id, 'th')), i_potential=If(k, R(0), compound_leaf(e.id, 'i_potential')),
    molar_mass=If(k, element_atomic_weight(e.id), compound_leaf(e.id, 'molar_mass')),
    atoms=SeqV('catima::Target', If(k, pushT(EMPTY, element_atomic_weight(e.id), e.id, R(1)), compound_leaf(e.id, 'atoms')))))(And(Lt(0, e.id), Lt(e.id, 99))))

# ---------------------------------------------------------------- the isotope lists of the published table (the functions above read exactly this table)
def isotope_list(z):
    ix = tm.TABLES['abundance::abundance_z_index']; a = tm.TABLES['abundance::isotopes_a']; w = tm.TABLES['abundance::isotopes_abundance']
    lo, hi = ix[z - 1], ix[z] if z < 109 else len(a)
    return [(a[k], w[k]) for k in range(lo, hi)]
def _isotopes():
    for z in range(1, 110):
        l = isotope_list(z); b = lambda x: TRUE if x else FALSE
        yield 'element %d has isotopes, none lighter than its charge' % z, [], b(l and all(a >= z for a, w in l))
        yield 'element %d: abundances do not increase' % z, [], b(all(x[1] >= y[1] for x, y in zip(l, l[1:])))
        yield 'element %d: abundances sum to one' % z, [], b(abs(sum(w for a, w in l) - 1) < Fraction(1, 10 ** 4))
Lemma('isotope_lists', ['C18'], _isotopes)
