"""C19: the C interface.

Each C function returns the symbol of the C++ function of the same meaning, applied to the projectile, the material
described by the arguments, and the configuration the library starts with except for the effective-charge option, which
is the one set in catima_defaults.  That the outcome does not depend on earlier calls is the invariant that the library's
default configuration has its initial values except for the effective charge: every C function may assume it and keeps it."""
from ..spec import *
from ..sym import *
from .. import spec
from ..verify import value_goals
from .transport import *
from .databases import get_material, compound_leaf
from .composition import mass_of, pushT, EMPTY, element_atomic_weight

ZEFF = var('@catima_defaults+0', 'I')
DC = '@catima::default_config'
def start_values(E):
    """offset -> value the default configuration starts with"""
    nm = next((n for n in E.M.globals if '@' + E.P.dem.get(n, n) == DC), None)
    if nm is None: raise Unsupported('no default configuration')
    const, t, v = E.M.global_init(nm)
    if v is None: raise Unsupported('the default configuration is not initialised by a constant')
    vals = {}
    E.flat_init(t, v, 0, vals)
    out = {}
    for o, q, k, t in spec.LAY.leaves('catima::Config'):
        x = vals.get(o)
        if not (isinstance(x, T) and isc(x)): raise Unsupported('initial value of %s' % q)
        out[o] = ic(x.data % 256) if t == 'unsigned char' else x
    return out
def config(E):
    d = {}; vals = start_values(E)
    for o, q, k, t in spec.LAY.leaves('catima::Config'): d[q] = ZEFF if q == 'z_effective' else vals[o]
    return RecV('catima::Config', lambda q: d[q])
def c_init(E, st, objs, e):
    vals = start_values(E)
    for o, q, k, t in spec.LAY.leaves('catima::Config'):
        x = var('%s+%d' % (DC, o), k)
        if q == 'z_effective': st.assume(and_(le(I0, x), le(x, ic(255))))
        else: st.assume(eq(x, vals[o]))
    st.assume(and_(le(I0, ZEFF), le(ZEFF, ic(127))))
def density(e): return getattr(e, 'density', rc(-1))
def material(e):
    z = trunc_(e.tz); big = Lt(200, z)
    g = get_material(z)
    el = dict(th=R(0), i_potential=R(0), molar_mass=mass_of(e.ta, z), atoms=pushT(EMPTY, mass_of(e.ta, z), z, R(1)))
    d = {q: ite(big, g.leaf(q), el[q]) for q in ('i_potential', 'molar_mass', 'atoms')}
    d['th'] = getattr(e, 'thickness', R(0)); d['rho'] = If(Gt(density(e), 0), density(e), g.leaf('rho'))
    return RecV('catima::Material', lambda q: d[q])
def projectile(e, T): return record('catima::Projectile', A=e.pa, Z=R(e.pz), Q=R(e.pz), T=T)
def c_pre(e):
    """the target is an element with a tabulated mass and density or a predefined compound"""
    z = trunc_(e.tz); m = material(e)
    return [Gt(e.pa, 0), Ge(e.pz, 1), Lt(e.tz, 2 ** 31), Or(And(Le(1, z), Le(z, 98)), And(Le(99, z), Le(e.tz, 200), Gt(density(e), 0)), Lt(200, z)), Gt(mass_of(e.ta, z), 0), Gt(m.leaf('rho'), 0)]
def th_pre(e): return c_pre(e) + [Ge(e.thickness, 0)]
FIELDS = ('Ein', 'Eout', 'Eloss', 'range', 'dEdxi', 'dEdxo', 'sigma_E', 'sigma_a', 'sigma_r', 'tof')
def c_goals(want):
    def f(E, st, ret, e, objs, sret):
        w = want(e, config(E))
        if sret is None: yield from value_goals(E, st, 'result', ret, w)
        else:
            for o, q, k, t in spec.LAY.leaves('CatimaResult'): yield from value_goals(E, st, 'result.' + q, E.read(st, Ptr(sret, ic(o))), w.leaf(q))
        zo = next(o for o, q, k, t in spec.LAY.leaves('catima::Config') if q == 'z_effective')
        vals = start_values(E)
        for nm, o in E.gobj.items():
            for k, v in st.mem.items():
                if k[0] != o.id: continue
                if len(k) == 3: yield 'frame: global %s unchanged' % o.name, st.pc, FALSE; continue
                if o.name == DC and k[1] == zo: continue
                v0 = o.init(k[1], None) if o.init else UNDEF
                if v is v0: continue
                yield from value_goals(E, st, 'frame: %s unchanged' % ('the default configuration' if o.name == DC else 'global ' + o.name), v, vals[k[1]] if o.name == DC else v0)
    return f

# ---------------------------------------------------------------- failing input on the real code
FN = ['catima_calculate', 'catima_Eout', 'catima_range', 'catima_range_straggling', 'catima_angular_straggling_from_E', 'catima_energy_straggling_from_E', 'catima_nonreaction_rate', 'atomic_weight']
def c_search(which):
    def search(nat, secs, seed):
        import random, time
        from ..native import Crash
        r = random.Random(seed); end = time.time() + secs; n = 0
        known = [201, 202, 204, 210, 218, 230, 245, 260, 289, 290, 400]
        def call(k):
            u = r.random()
            z = r.choice([1, 2, 6, 7, 14, 29, 50, 82, 92, 98, 99, 105, 109, 110, 199, 200]) if u < 0.5 else r.choice(known) if u < 0.8 else r.randint(1, 109) if u < 0.9 else r.randint(201, 300)
            th, rho, T2 = r.choice([0.0, 1e-4, 0.01, 0.5, 30.0]), r.choice([-1.0, 0.0, 1e-3, 2.5, 19.3]), r.choice([0.0, 0.5, 30.0, 99.0, 500.0])
            if not (1 <= z <= 98 or z > 200): rho = 1.5
            return [k, r.choice([0, 1, 2, 3, 4, 5, 7]), r.choice([1.0, 4.0, 12.0, 40.5, 238.0]), r.choice([1, 2, 6, 18, 92]), r.choice([0.0, 1e-3, 0.5, 10.0, 100.0, 350.0, 1000.0, 3e4, 1e6]), T2,
                    r.choice([0.0, 0.0, 12.0, 63.5]) if not 109 < z < 201 else 250.0, float(z), th, rho]
        while time.time() < end:
            ops = [call(r.randrange(8)) for _ in range(r.choice([0, 0, 1, 3]))] + [call(which)]
            n += 1
            try: out = nat.raw('!capi', [float(len(ops))] + [float(x) for o in ops for x in o])
            except Crash as x: return dict(calls=ops), str(x)[:1000], n
            if out[0] >= 0 and int(ops[int(out[0])][0]) == which:
                o = ops[int(out[0])]
                return dict(function=FN[which], z_effective=o[1], pa=o[2], pz=o[3], T=o[4], Tout=o[5], ta=o[6], tz=o[7], thickness=o[8], density=o[9], earlier_calls=ops[:int(out[0])]), 'field %d: C interface returns %r, C++ interface %r' % tuple(out[1:4]), n
        return None, None, n
    return search
def angular_init(E, st, objs, e):
    c_init(E, st, objs, e)
    for g in angular_straggling_from_E.pre(Env(dict(p=projectile(e, e.Tin), Tout=e.Tout, t=material(e), c=config(E))))[-2:]: st.assume(g)     # some of the target is passed
def CF(k, sig, want, pre=c_pre, init=c_init, **kw):
    return C(sig, pre=pre, init=init, goals=c_goals(want), search=c_search(k), native=False, props=['C19'], **kw)
c_calculate = CF(0, 'catima_calculate(double pa, int pz, double T, double ta, double tz, double thickness, double density)', lambda e, c: calculate(projectile(e, e.T), material(e), c), th_pre, ret='CatimaResult')
c_Eout = CF(1, 'catima_Eout(double pa, int pz, double T, double ta, double tz, double thickness, double density)', lambda e, c: energy_out_p(projectile(e, e.T), material(e), c), th_pre)
c_range = CF(2, 'catima_range(double pa, int pz, double T, double ta, double tz)', lambda e, c: range_(projectile(e, e.T), material(e), c))
c_range_straggling = CF(3, 'catima_range_straggling(double pa, int pz, double T, double ta, double tz)', lambda e, c: range_straggling(projectile(e, R(0)), e.T, material(e), c))
c_angular = CF(4, 'catima_angular_straggling_from_E(double pa, int pz, double Tin, double Tout, double ta, double tz)', lambda e, c: angular_straggling_from_E(projectile(e, e.Tin), e.Tout, material(e), c), init=angular_init)
c_energy = CF(5, 'catima_energy_straggling_from_E(double pa, int pz, double Tin, double Tout, double ta, double tz)', lambda e, c: energy_straggling_from_E(projectile(e, R(0)), e.Tin, e.Tout, material(e), c))
c_nonreaction = CF(6, 'catima_nonreaction_rate(double pa, int pz, double T, double ta, double tz, double thickness)', lambda e, c: nonreaction(projectile(e, e.T), material(e), c), th_pre)
c_weight = CF(7, 'atomic_weight(int i)', lambda e, c: element_atomic_weight(e.i), lambda e: [])
