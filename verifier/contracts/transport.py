"""C03 C04 C05 C08 C13: tables, ranges, outgoing energy, single layer and stack of layers.

The cache lookup is used through the contract proved in storage.py: Get returns an entry whose tables and
splines are those of the request's key (projectile A, Z, Q; material molar mass, ionisation potential and
elements; every configuration option).  A spline is used through its value S_eval and slope S_deriv."""
import os
from ..spec import *
from ..sym import *
from .const import *
from .kinematics import *
from .composition import *
from .charge import *
from .stopping import *
from .grid import *
from .scattering import *
from .reactions import *
from .databases import *

SPL = 'InterpolatorCSpline<EnergyTable<%d>>' % MAXE
CSPL = 'catima::InterpolatorCSpline<catima::EnergyTable<%d>>' % MAXE
from ..spec import TYPES
TYPES[SPL] = CSPL
S_eval = C(CSPL + '::eval(double x)', name='S_eval', trusted='value of the interpolating spline (its formula is C06)', reads='this x', native=False)
S_deriv = C(CSPL + '::derivative(double x)', name='S_deriv', trusted='slope of the interpolating spline (its formula is C06)', reads='this x', native=False)
S_call = C(CSPL + '::operator()(double x)', name='S_call', reads='this x', props=['C08', 'C05'], post=lambda e: app('S_eval', (e.this.leaf(''), e.x), 'R'), expand=True, native=False)

def key(p, m, c):
    """what the tables of a cache entry depend on"""
    return (p.A, p.Z, p.Q, m.molar_mass, m.i_potential, m.atoms.s) + tuple(c.leaf(q) for o, q, k, t in spec_layout('catima::Config'))
def spec_layout(t):
    from .. import spec
    return spec.LAY.leaves(t)
def spline(kind, p, m, c): return app('spline_of', (app(kind + '_table', key(p, m, c), 'S'),), 'S')
def val(s, x): return app('S_eval', (s, R(x)), 'R')
def slope(s, x): return app('S_deriv', (s, R(x)), 'R')
def rng(e, x, m='t'): return val(spline('range', e.p, getattr(e, m), e.c), x)
GETK = 'p.A p.Z p.Q t.molar_mass t.i_potential t.atoms c'
def TP(e): return [validZ(e.t), validA(e.t), proj(e.p), Gt(e.p.A, 0)]
P = TP
N_ = False
range_ = C('catima::range(Projectile p, Material t, Config c)', name='range', reads=GETK + ' p.T', props=['C08', 'C01'], pre=P, post=lambda e: rng(e, e.p.T))
dedx_from_range = C('catima::dedx_from_range(Projectile p, Material t, Config c)', name='dedx_from_range', reads=GETK + ' p.T', props=['C08', 'C01'], pre=P,
    post=lambda e: e.p.A / slope(spline('range', e.p, e.t, e.c), e.p.T))
dedx_from_range_v = C('catima::dedx_from_range(Projectile p, vector<double> T, Material t, Config c)', name='dedx_from_range_v', ret='vector<double>', reads=GETK + ' T', props=['C08', 'C01'], pre=P,
    post=lambda e: (e.T.n, lambda j: If(Lt(e.T[j], Ezero), R(0), e.p.A / slope(spline('range', e.p, e.t, e.c), e.T[j]))))
range_straggling = C('catima::range_straggling(Projectile p, double T, Material t, Config c)', reads=GETK + ' T', props=['C08', 'C01'], pre=P,
    post=lambda e: Sqrt(val(spline('range_straggling', e.p, e.t, e.c), e.T)))
range_variance = C('catima::range_variance(Projectile p, double T, Material t, Config c)', reads=GETK + ' T', props=['C08', 'C01'], pre=P,
    post=lambda e: val(spline('range_straggling', e.p, e.t, e.c), e.T))
domega2de = C('catima::domega2de(Projectile p, double T, Material t, Config c)', reads=GETK + ' T', props=['C08', 'C01'], pre=P,
    post=lambda e: slope(spline('range_straggling', e.p, e.t, e.c), e.T))
da2de = C('catima::da2de(Projectile p, Material mat, Config c)', reads='p.A p.Z p.Q p.T mat.molar_mass mat.i_potential mat.atoms c', props=['C08', 'C13'], pre=lambda e: [validZ(e.mat), validA(e.mat), proj(e.p), Gt(e.p.A, 0)],
    post=lambda e: da2dx(e.p, e.mat, e.c) / dedx(e.p, e.mat, e.c))
def eout_rel(e, r):
    s = e.range_spline.leaf('')
    a = val(s, e.T)
    return [('zero when the material is at least as thick as the range', Implies(Le(a, e.thickness), Eq(r, 0))),
            ('otherwise zero, -1, or a solution of the range equation not below the lowest energy',
             Implies(Gt(a, e.thickness), Or(Eq(r, 0), Eq(r, -1), And(Ge(r, Ezero), Lt(Abs(a - val(s, r) - e.thickness), Eout_eps)))))]
def eout_sample(s):
    from ..replay import spline_ident, fraction, Skip
    while True:
        sp = s.value('range_spline', SPL)
        T = s.energy()
        try: r = s.orc.spline(spline_ident(sp), T)[0]
        except Skip: continue
        yield dict(T=T, thickness=s.r.choice([r * fraction(s), r * fraction(s), s.scalar('thickness', 'double')]), range_spline=sp)
energy_out_s = C('catima::energy_out(double T, double thickness, %s range_spline)' % SPL, name='energy_out_s', props=['C05'], rel=eout_rel, sample=eout_sample)
energy_out_p = C('catima::energy_out(Projectile p, Material t, Config c)', name='energy_out', reads=GETK + ' p.T t.th', props=['C05', 'C01'], pre=P,
    post=lambda e: eout(e.p.T, e.t.th, spline('range', e.p, e.t, e.c)))
def _found(ctx):
    """bounded: on the library's own tables the search finds every outgoing energy of at least 10 MeV/u (contract and statement allow -1)"""
    from ..native import Crash
    N = 20000 if ctx.tier == 'quick' else 200000
    try: out = ctx.native().raw('!eout', [float(int(os.environ.get('VERIF_SEED', '1') or 1) % 2 ** 31), float(N)], 100)
    except Crash as x: raise Unsupported('crash: ' + str(x)[:300])
    if out[0] < 0: return dict(status='unsupported', why='bounded by nature: %d outgoing energies found on the library\'s tables' % N, obls=[], bounded=dict(samples=N))
    return dict(status='open', obls=[dict(kind='bounded', text='the search finds outgoing energies of at least 10 MeV/u', ok=False, secs=0)],
                violation=dict(args=dict(A=out[1], Z=out[2], target=out[3], T=out[4], thickness=out[5]), mismatch='outgoing energy %r, range equation missed by %r g/cm2' % (out[6], out[7]), asan=False))
Item('outgoing_energy_found', ['C05'], _found)
def eout(T, th, s): return app('energy_out_s', (R(T), R(th), s), 'R')
energy_out_v = C('catima::energy_out(Projectile p, vector<double> T, Material t, Config c)', name='energy_out_v', ret='vector<double>', reads=GETK + ' T t.th', props=['C05', 'C01'], pre=P,
    post=lambda e: (e.T.n, lambda j: If(Lt(e.T[j], Ezero), R(0), eout(e.T[j], e.t.th, spline('range', e.p, e.t, e.c)))))

MATOK = lambda m: [validZ(m), validA(m)]
def inv_dedx(e, x, m='t'): return 1 / dedx(e.p.with_(T=x), getattr(e, m), e.c)
def tof_f(e): return lambda x: 1 / (dedx(e.p.with_(T=x), e.t, e.c) * beta_from_T(x))
def tof(e, a, b): return Quad('GL:8', a, b, tof_f(e)) * 10 * e.p.A / (c_light * e.t.rho)
TRAN = GETK + ' p.T t.rho t.th'
def TP(e): return [validZ(e.t), validA(e.t), proj(e.p), Gt(e.p.A, 0)]
tof_from_E = C('catima::calculate_tof_from_E(Projectile p, double Eout, Material t, Config c)', name='tof_from_E', reads=GETK + ' p.T Eout t.rho', props=['C03', 'C01'], pre=TP,
    post=lambda e: tof(e, e.Eout, e.p.T))

def enrg(i): return globtable('catima::energy_table').values[i]
tof_table = C('catima::calculate_tof(Projectile p, Material t, Config c)', name='calculate_tof', ret='vector<double>', reads=GETK + ' t.rho', props=['C03', 'C01'], pre=TP,
    post=lambda e: (MAXE, lambda i: (Quad('GL:8', Ezero, enrg(0), tof_f(e)) + Sum(i, lambda j: Quad('GL:8', enrg(j), enrg(j + 1), tof_f(e)))) * 10 * e.p.A / (c_light * e.t.rho)))

# ---- angular variance along the path
def avar(e):
    """variance weighted with the given power of the remaining path, in the selected model"""
    p, t, c = e.p, e.t, e.c
    T, s = p.T, spline('range', p, t, c)
    p1 = mom(T, p.A)
    beta1 = p1 / ((T + u) * p.A)
    rr = Min(val(s, T) / t.rho, t.th / t.rho)
    X0 = rad(t)
    def w(x): return ipow(rr - x, e.order)
    def E_(x): return eout(T, x * t.rho, s)
    def f(x):
        lnl = Log(x * t.rho / X0)
        ff = If(Eq(c.scattering, DHIGHLAND), rc(0.97) * (1 + lnl / rc(20.7)) * (1 + lnl / rc(22.7)), R(1))
        return w(x) * ff * Tfr(p.with_(T=E_(x)), R(1), R(1))
    def g(x): return w(x) * asp_xs(p.with_(T=E_(x)), t, p1, beta1, R(225))
    return If(Eq(c.scattering, GOTTSCHALK), Quad('GL:8', 0, rr, g) * t.rho, Quad('GL:8', 0, rr, f) * t.rho * p.Z ** 2 * model_Es2(c) / X0)
TRANQ = GETK + ' p.T t.rho t.th'
angular_variance = C('catima::angular_variance(Projectile p, Material t, Config c, int order)', reads=TRANQ + ' order', props=['C13', 'C01'], pre=lambda e: TP(e) + [Gt(e.t.rho, 0), Gt(e.t.th, 0), Gt(e.p.T, 0), Ge(e.order, 0)], post=avar)
angular_straggling = C('catima::angular_straggling(Projectile p, Material t, Config c)', reads=TRANQ, props=['C13', 'C01'], pre=lambda e: TP(e) + [Gt(e.t.rho, 0), Gt(e.t.th, 0), Gt(e.p.T, 0)],
    post=lambda e: Sqrt(angular_variance(e.p, e.t, e.c, 0)))
angular_straggling_from_E = C('catima::angular_straggling_from_E(Projectile p, double Tout, Material t, Config c)', reads=GETK + ' p.T t.rho Tout', props=['C13', 'C01'],
    pre=lambda e: TP(e) + [Gt(e.t.rho, 0), Gt(e.p.T, 0), Gt(rng(e, e.p.T), rng(e, e.Tout))],
    post=lambda e: angular_straggling(e.p, e.t.with_(th=rng(e, e.p.T) - rng(e, e.Tout)), e.c))
def sig(e, x): return val(spline('range_straggling', e.p, e.t, e.c), x)
def avr(e, x): return val(spline('angular_variance', e.p, e.t, e.c), x)
energy_straggling_from_E = C('catima::energy_straggling_from_E(Projectile p, double T, double Tout, Material t, Config c)', reads=GETK + ' T Tout', props=['C03', 'C01'], pre=P,
    post=lambda e: Sqrt(sig(e, e.T) - sig(e, e.Tout)) / slope(spline('range', e.p, e.t, e.c), e.Tout))

# ---- tables of a cache entry
def tables(e, record=True):
    def at(x): return (e.p.with_(T=x), e.t, e.c)
    def cum(f): return (MAXE, lambda i: e.p.A * Sum(i, lambda j: Quad('GL:8', enrg(j), enrg(j + 1), f)))
    d = {'range': cum(lambda x: 1 / dedx(*at(x))), 'range_straggling': cum(lambda x: domega2dx(*at(x)) / dedx(*at(x)) ** 3), 'angular_variance': cum(lambda x: da2de(*at(x)))}
    if not record: return d
    for q in ('A', 'Z', 'Q', 'T'): d['p.' + q] = e.p.leaf(q)
    for q in ('rho', 'th', 'molar_mass', 'i_potential', 'atoms'): d['m.' + q] = e.t.leaf(q)
    for o, q, k, t in spec_layout('catima::Config'): d['config.' + q] = e.c.leaf(q)
    return d
TABLES_ = ('range', 'range_straggling', 'angular_variance')
def tables_of_key(k):
    """the tables as functions of the key alone"""
    p = {'A': k[0], 'Z': k[1], 'Q': k[2]}; m = {'molar_mass': k[3], 'i_potential': k[4], 'atoms': k[5]}
    c = {q: x for (o, q, kd, t), x in zip(spec_layout('catima::Config'), k[6:])}
    d = tables(Env(dict(p=RecV('catima::Projectile', lambda q: p[q]), t=RecV('catima::Material', lambda q: m[q]), c=RecV('catima::Config', lambda q: c[q]))), False)
    return d
for _q in TABLES_: SEQDEF[_q + '_table'] = (lambda a: co(MAXE, I0), lambda a, path, sort, i, q=_q: tables_of_key(a)[q][1](i))
def new_point(c, E, st, vals, i):
    """calculate_DataPoint at call sites: copies of the request and the tables of its key"""
    e, ptrs, sret = c.bind(E, st, vals, i)
    if not E.quiet:
        for g in c.pre(e): E.oblige('pre', st, g, 'precondition of calculate_DataPoint')
    d = {q: v for q, v in tables(e).items() if q not in TABLES_}
    for q in TABLES_: d[q] = app(q + '_table', key(e.p, e.t, e.c), 'S')
    E.write_record(st, sret, 'catima::DataPoint', d)
    return [(st, None)]
def datapoint_goals(E, st, ret, e, objs, sret):
    from .. import verify
    want = tables(e)
    want.update(tables_of_key(key(e.p, e.t, e.c)))
    for off, path, kind, t in spec_layout('catima::DataPoint'):
        if kind == 'O': continue        # the splines are built when the entry is stored
        yield from verify.value_goals(E, st, 'result.' + path, E.read(st, Ptr(sret, ic(off))), want[path])
calculate_DataPoint = C('catima::calculate_DataPoint(Projectile p, Material t, Config c)', name='calculate_DataPoint', ret='DataPoint', reads='p t c', props=['C08', 'C01'], pre=TP, post=lambda e: tables(e), goals=datapoint_goals, custom=new_point, nokey=TABLES_)

# ---- one layer
RES = ['Ein', 'Eout', 'Eloss', 'range', 'dEdxi', 'dEdxo', 'sigma_E', 'sigma_a', 'sigma_r', 'sigma_x', 'cov', 'tof', 'sp']
EPS = rc(10 * 2.220446049250313e-16)
def nonreact(p, t, c): return app('nonreaction_rate', tuple(nonreaction.args_of_env(Env(dict(p=p, t=t, c=c)))), 'R')
def lround(x): return If(Lt(x, 0), -floor_(rc(0.5) - x), floor_(x + rc(0.5)))
def survival(e):
    """-1 below the reaction threshold, one for no thickness, else exp(-atoms * cross section), averaged over the path"""
    p, t, c = e.p, e.t, e.c
    s = spline('range', p, t, c)
    at = t.atoms; n = at.n
    def cs(x):
        E = eout(p.T, x, s)
        return Sum(n, lambda i: molar(t, i) * Kox(lround(p.A), lround(p.Z), E, isotope_a(at[i].Z, 0), at[i].Z)) / Sum(n, lambda i: molar(t, i))
    a, b = cs(R(0)), cs(t.th)
    k = If(Lt(Abs(a - b) / a, rc(0.05)), NA * t.th / t.molar_mass * (a + b) / 2, NA * Quad('GL:8', 0, t.th, cs) / t.molar_mass)
    return Case((Lt(p.T, emin_reaction), R(-1)), (Le(t.th, 0), R(1)), (Lt(eout(p.T, t.th, s), emin_reaction), R(-1)), Exp(-k * rc(0.0001)))
nonreaction = C('catima::nonreaction_rate(Projectile p, Material t, Config c)', name='nonreaction_rate', reads=TRANQ, props=['C20', 'C01'], pre=P, post=survival)
def layer(e):
    p, t, c = e.p, e.t, e.c
    sr, ss, sa = [spline(k, p, t, c) for k in ('range', 'range_straggling', 'angular_variance')]
    T, A, th = p.T, p.A, t.th
    low = Lt(T, Ezero - EPS)
    zero = Eq(th, 0)
    out = eout(T, th, sr)
    stop = Lt(out, Ezero)
    thin = Lt(thin_limit * T, out)
    tab = Eq(c.scattering, ATIMA)
    dEi, dEo = A / slope(sr, T), A / slope(sr, out)
    def two_(s): return If(thin, (T - out) * rc(0.5) * (slope(s, T) + slope(s, out)), val(s, T) - val(s, out))
    def some(v, z): return If(low, z, If(zero, z, v))
    z = R(0)
    return {'Ein': If(low, z, T), 'Eout': If(low, z, If(zero, T, out)), 'Eloss': some((T - out) * A, z), 'range': If(low, z, val(sr, T)), 'dEdxi': If(low, z, dEi),
            'dEdxo': If(low, z, If(zero, dEi, If(stop, z, dEo))), 'sigma_E': some(If(stop, z, dEo * Sqrt(two_(ss)) / A), z),
            'sigma_a': some(If(stop, z, If(tab, Sqrt(two_(sa)), If(Gt(val(sr, T), th), angular_straggling(p, t, c), z))), z),
            'sigma_r': If(low, z, Sqrt(val(ss, T))), 'sigma_x': some(Sqrt(angular_variance(p, t, c, 2)), z), 'cov': some(angular_variance(p, t, c, 1), z),
            'tof': some(If(stop, z, tof_from_E(p, out, t, c)), z), 'sp': some(nonreact(p, t, c), R(1))}
LP = lambda e: TP(e) + [Gt(e.t.rho, 0), Ge(e.t.th, 0)]
calculate = C('catima::calculate(Projectile p, Material t, Config c)', name='calculate', ret='Result', reads=TRANQ, props=['C03', 'C01'], pre=LP, post=layer)
calculate_T = C('catima::calculate(Projectile p, Material t, double T, Config c)', name='calculate_T', ret='Result', reads=GETK + ' t.rho t.th T', props=['C03', 'C01'], pre=LP,
    post=lambda e: calculate(e.p.with_(T=e.T), e.t, e.c), expand=True)

# ---- stack of layers
def stack(e):
    p, ps, c, mats = e.p, e.ps, e.c, e.layers.materials
    n = mats.n
    def at(k, T): return calculate(p.with_(T=T), mats[k], c)
    E, = Rec_(['e'], [p.T], lambda k, s: (at(k, s[0]).Eout,))
    def r(k): return at(k, E(k))
    sp, = Rec_(['sp'], [R(1)], lambda k, s: (If(Ge(r(k).sp, 0), s[0] * r(k).sp, R(-1)),))
    def cm(k): return mats[k].th / mats[k].rho
    def a2(k): return ps.sigma_a ** 2 + Sum(k, lambda j: r(j).sigma_a ** 2)
    def cov(k): return ps.cov_x + Sum(k, lambda j: a2(j) * cm(j) + r(j).cov)
    sx = ps.sigma_x ** 2 + Sum(n, lambda j: 2 * cm(j) * cov(j) + a2(j) * cm(j) ** 2 + r(j).sigma_x ** 2)
    out = Gt(E(n), Ezero)
    z = R(0)
    d = {'Ein': p.T, 'Eout': If(Eq(n, 0), z, E(n)), 'Eloss': Sum(n, lambda j: r(j).Eloss), 'range': z, 'dEdxi': z, 'dEdxo': z,
         'sigma_E': If(out, Sqrt(Sum(n, lambda j: r(j).sigma_E ** 2)), z), 'sigma_a': If(out, Sqrt(a2(n)), z), 'sigma_r': z, 'sigma_x': Sqrt(Abs(sx)),
         'cov': cov(n), 'tof': Sum(n, lambda j: r(j).tof), 'sp': sp(n)}
    d = {'total_result.' + k: v for k, v in d.items()}
    d['results'] = (n, lambda j, q: r(j).leaf(q))
    return d
def SP(e):
    m = e.layers.materials
    return [proj(e.p), Gt(e.p.A, 0), All(m.n, lambda k: And(validZ(m[k]), validA(m[k]), Gt(m[k].rho, 0), Ge(m[k].th, 0)))]
SREAD = 'p.A p.Z p.Q p.T layers.materials c'
calculate_layers = C('catima::calculate(Projectile p, Phasespace ps, Layers layers, Config c)', name='calculate_layers', ret='MultiResult', reads=SREAD + ' ps', props=['C04', 'C01'], pre=SP, post=stack)
def layers_(e, p, ps): return calculate_layers(p, ps, e.layers, e.c)
calculate_layers0 = C('catima::calculate(Projectile p, Layers layers, Config c)', name='calculate_layers0', ret='MultiResult', reads=SREAD, props=['C04', 'C01'], pre=SP, post=lambda e: layers_(e, e.p, NOPS_()), expand=True)
calculate_layersT = C('catima::calculate(Projectile p, double T, Layers layers, Config c)', name='calculate_layersT', ret='MultiResult', reads='p.A p.Z p.Q T layers.materials c', props=['C04', 'C01'], pre=SP,
    post=lambda e: layers_(e, e.p.with_(T=e.T), NOPS_()))
def NOPS_(): return record('catima::Phasespace', **{q: R(0) for o, q, k, t in spec_layout('catima::Phasespace')})
def default_config():
    """the global default configuration"""
    d = {q: var('@catima::default_config+%d' % o, k) for o, q, k, t in spec_layout('catima::Config')}
    return RecV('catima::Config', lambda q: d[q])
def simple(e):
    p = record('catima::Projectile', A=e.pa, Z=R(e.pz), Q=R(e.pz), T=e.T)
    z = trunc_(e.tz)
    m = RecV('catima::Material', lambda q: {'rho': e.density, 'th': e.thickness, 'i_potential': R(0), 'molar_mass': mass_of(e.ta, z), 'atoms': pushT(EMPTY, mass_of(e.ta, z), z, R(1))}[q])
    return calculate(p, m, default_config())
calculate_simple = C('catima::calculate(double pa, int pz, double T, double ta, double tz, double thickness, double density)', name='calculate_simple', ret='Result',
    reads='pa pz T ta tz thickness density', props=['C03', 'C19'], native=False,
    pre=lambda e: [Gt(e.pa, 0), Ge(e.pz, 1), Gt(e.density, 0), Ge(e.thickness, 0), Le(1, trunc_(e.tz)), Gt(mass_of(e.ta, trunc_(e.tz)), 0)], post=simple)
def wmag(e):
    es = [rc(0.99) * e.Ein, e.Ein, rc(1.01) * e.Ein]
    o = [If(Lt(x, Ezero), R(0), eout(x, e.t.th, spline('range', e.p, e.t, e.c))) for x in es]
    none = Or(Le(e.t.rho, 0), Le(e.t.th, 0))
    out = And(*[Gt(x, 0) for x in o])
    pm = lambda x: mom(x, e.p.A)
    return (If(none, R(1), If(out, es[1] * (o[2] - o[0]) / (o[1] * (es[2] - es[0])), R(0))),
            If(none, R(1), If(out, pm(es[1]) * (pm(o[2]) - pm(o[0])) / (pm(o[1]) * (pm(es[2]) - pm(es[0]))), R(0))))
w_magnification = C('catima::w_magnification(Projectile p, double Ein, Material t, Config c)', ret='pair', reads=GETK + ' t.rho t.th Ein', props=['C05', 'C01'], pre=P, post=wmag)
