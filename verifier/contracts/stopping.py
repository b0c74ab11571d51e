"""C09 total stopping power, C10 relativistic, C11 low-energy and nuclear, C14 energy straggling"""
from ..spec import *
from .const import *
from .kinematics import *
from .composition import *
from .charge import z_effective
from .grid import *

def validZ(m): return All(m.atoms.n, lambda j: Le(1, m.atoms[j].Z))
def validA(m): return All(m.atoms.n, lambda j: Gt(m.atoms[j].A, 0))
def proj(p): return Ge(p.Z, 1)
element_density = C('catima::element_density(int z)', sample=every_z, props=['C18'], post=lambda e: If(And(Le(1, e.z), Le(e.z, 98)), Tab('catima::element_densities', e.z), R(0)))

# ---------------------------------------------------------------- nuclear stopping
def z023(p, t): return fn('pow', p.Z, rc(0.23)) + fn('pow', R(t.Z), rc(0.23))
def eps(p, t): return rc(32530.0) * t.A * p.T * p.A / (p.Z * t.Z * (p.A + t.A) * z023(p, t))
reduced_energy = C('catima::reduced_energy_loss_unit(Projectile p, Target t)', reads='p.A p.Z p.T t.A t.Z', props=['C11'], post=lambda e: eps(e.p, e.t))
def dn(e):
    x = eps(e.p, e.t)
    lo = Log1p(rc(1.1383) * x) / (2 * (x + rc(0.01321) * fn('pow', x, rc(0.21226)) + rc(0.19593) * Sqrt(x)))
    hi = Log(x) / (2 * x)
    f = rc(846.21) * e.p.Z * e.t.Z * e.p.A * NA / ((e.p.A + e.t.A) * z023(e.p, e.t) * e.t.A)
    return Case((Le(x, 0), R(0)), (Le(x, 30), f * lo), f * hi)
dedx_n = C('catima::dedx_n(Projectile p, Target t)', name='dedx_n_el', reads='p.A p.Z p.T t.A t.Z', props=['C11', 'C09'], post=dn)
MATR = 'mat.molar_mass mat.atoms'
dedx_n_mat = C('catima::dedx_n(Projectile p, Material mat)', name='dedx_n', reads='p.A p.Z p.T ' + MATR, props=['C09', 'C11'],
    post=lambda e: Sum(e.mat.atoms.n, lambda i: weight(e.mat, i) * dedx_n(e.p, target(e.mat, i))))

# ---------------------------------------------------------------- proton and ion low-energy stopping
def proton(tab):
    def f(e):
        i = If(Gt(e.Z, 92), ic(91), e.Z - 1)
        c = lambda k: Tab(tab, i * 8 + k)
        x = 1000 * e.energy
        k = Max(x, R(25))
        sl = c(0) * fn('pow', k, c(1)) + c(2) * fn('pow', k, c(3))
        sh = c(4) / fn('pow', k, c(5)) * Log(c(6) / k + c(7) * k)
        s = sl * sh / (sl + sh)
        return If(Le(x, 25), s * If(Gt(e.Z, 6), fn('pow', x / 25, rc(0.45)), fn('pow', x / 25, rc(0.25))), s)
    return f
Zpos = lambda e: Le(1, e.Z)
p_se = C('catima::p_se(int Z, double energy)', props=['C11'], pre=Zpos, post=proton('catima::pse_95'))
p_se85 = C('catima::p_se85(int Z, double energy)', props=['C11'], pre=Zpos, post=proton('catima::proton_stopping_coef'))
def ion(e):
    x = e.energy * 1000
    ps = If(e.use_new, p_se(e.tZ, e.energy), p_se85(e.tZ, e.energy))
    # helium
    xh = Max(x, R(1)); b = Log(xh)
    a = rc(0.2865) + rc(0.1266) * b - rc(0.001429) * b ** 2 + rc(0.02402) * b ** 3 - rc(0.01135) * b ** 4 + rc(0.001475) * b ** 5
    bb = rc(7.6) - Max(R(0), b)
    g = 1 + (rc(0.007) + rc(0.00005) * e.tZ) * Exp(-(bb * bb))
    he = 4 * ps * (1 - Exp(-Min(R(30), a))) * g * g
    he = If(Eq(xh, 1), he * Sqrt(xh), he)
    # heavier ions
    z = R(e.pZ)
    i13 = 1 / fn('pow', z, rc(1 / 3)); i23 = i13 * i13
    vf = Tab('catima::atima_vfermi', If(Gt(e.tZ, 92), ic(91), e.tZ - 1))
    v = Sqrt(x / 25) / vf
    v2 = v * v
    vr = If(Ge(v, 1), v * vf * (1 + rc(0.2) / v2), 3 * vf / 4 * (1 + v2 * (rc(2 / 3) - v2 / 15)))
    yr = Max(Max(rc(0.130), vr * i23), i23)
    a = rc(-0.803) * fn('pow', yr, rc(0.3)) + rc(1.3167) * fn('pow', yr, rc(0.6)) + rc(0.38157) * yr + rc(0.008983) * yr * yr
    q = Min(R(1), Max(R(0), 1 - Exp(-Min(a, R(50)))))
    b = Min(rc(0.43), Max(rc(0.32), rc(0.12) + rc(0.025) * z)) * i13
    l0 = (rc(0.8) - q * Min(rc(1.2), rc(0.6) + z / 30)) * i13
    m9 = Max(R(0), rc(0.9) - rc(0.025) * z)
    z16 = Min(R(16), z)
    l1 = Case((Lt(q, 0.2), R(0)), (Lt(q, m9), b * (q - rc(0.2)) / Abs(m9 - rc(0.2000001))), (Lt(q, Max(R(0), 1 - rc(0.025) * z16)), b), b * (1 - q) / (rc(0.025) * z16))
    l = Max(l1, l0 * Tab('catima::atima_lambda_screening', If(Gt(e.pZ, 92), ic(91), e.pZ - 1)))
    h1 = 4 * l * vf / rc(1.919)
    zeta = q + (1 - q) / (2 * vf * vf) * Log1p(h1 * h1)
    a = rc(7.6) - Max(R(0), Log(x))
    zeta = zeta * (1 + 1 / (z * z) * (rc(0.18) + rc(0.0015) * e.tZ) * Exp(-(a * a)))
    hi = ps * (zeta * z) ** 2
    vm = Max(R(1), rc(0.130) / i23)
    vmin = rc(0.5) * (vm + Sqrt(Max(R(0), vm * vm - rc(0.8) * vf * vf)))
    ee = 25 * vmin * vmin
    ev = If(Or(Eq(e.tZ, 6), And(Or(Eq(e.tZ, 14), Eq(e.tZ, 32)), Le(e.pZ, 19))), rc(0.35), rc(0.5))
    pe = If(e.use_new, p_se(e.tZ, ee / 1000), p_se85(e.tZ, ee / 1000))
    lo = pe * (zeta * z) ** 2 * fn('pow', x / ee, ev)
    heavy = If(Le(yr, Max(rc(0.130), i23)), lo, hi)
    return Case((Eq(e.pZ, 1), ps), (Eq(e.pZ, 2), he), heavy)
srim = C('catima::srim_dedx_e(int pZ, int tZ, double energy, bool use_new)', props=['C11'], pre=lambda e: [Le(1, e.pZ), Le(1, e.tZ)], post=ion)
def sezi(e):
    return 100 * NA * Sum(e.mat.atoms.n, lambda i: weight(e.mat, i) * srim(Trunc(e.p.Z), e.mat.atoms[i].Z, e.p.T, Eq(e.c.low_energy, 1)) / e.mat.atoms[i].A)
sezi_dedx_e = C('catima::sezi_dedx_e(Projectile p, Material mat, Config c)', reads='p.Z p.T c.low_energy ' + MATR, props=['C09', 'C11'],
    pre=lambda e: [proj(e.p), validZ(e.mat)], post=sezi)

# ---------------------------------------------------------------- relativistic stopping
def barkas_v2(v1):
    pw = Case((Le(v1, 2), rc(0.33) + (v1 - 1) * rc(0.30 - 0.33)), (Le(v1, 3), rc(0.30) + (v1 - 2) * rc(0.26 - 0.30)), rc(0.26) + (v1 - 3) * rc(0.23 - 0.26))
    return Case((Ge(v1, 4), rc(0.45) / Sqrt(v1)), (Ge(v1, 1), pw), R(0))
def barkas(e):
    v1 = e.eta / (alpha * Sqrt(e.zt))
    return 1 + 2 * e.zp_eff * barkas_v2(v1) / (v1 * v1 * Sqrt(e.zt))
bethek_barkas = C('catima::bethek_barkas(double zp_eff, double eta, double zt)', props=['C10'], post=barkas)
def dens(e):
    g = 1 / Sqrt(1 - e.beta * e.beta)
    x = Log(e.beta * g) / rc(2.3025851)
    i = Min(e.zt, ic(97)) - 1
    D = lambda n: Tab('density_effect::' + n, i)
    lo = If(Gt(D('del_0'), 0), D('del_0') * fn('pow', R(10), 2 * (x - D('x0'))), R(0))
    hi = rc(4.6052) * x - D('c')
    return Case((Lt(x, D('x0')), lo), (Le(x, D('x1')), hi + D('a') * fn('pow', D('x1') - x, D('m'))), hi)
bethek_density = C('catima::bethek_density_effect(double beta, int zt)', props=['C10'], pre=lambda e: Le(1, e.zt), post=dens)
def pairp(e):
    g = gamma(e.p.T)
    d = 1 / Sqrt(g)
    ld = Log(d * d)
    l0 = Log(2 * g)
    z13 = 183 * fn('pow', R(e.t.Z), rc(-1 / 3))
    Ls = rc(19 / 9) * Log(z13 / (1 + rc(25.018803808) * z13 / g))
    p2 = PI * PI
    L1 = d * (rc(4178) / (81 * p2) - rc(21 / 27) - 248 * l0 / (27 * p2) + (28 * l0 / 9 - rc(446 / 27)) * ld / p2 + 14 * ld * ld / (9 * p2))
    s = rc(0.25) * K * alpha * alpha * e.p.Z ** 2 * R(e.t.Z) ** 2 * g * (1 + 1 / R(e.t.Z)) * (Ls + L1) / e.t.A
    return Max(s, R(0))
pair_production = C('catima::pair_production(Projectile p, Target t)', reads='p.Z p.T t.A t.Z', props=['C10'], pre=lambda e: Le(1, e.t.Z), post=pairp)
hbar = rc(6.582119514)
def brems(e):
    g = gamma(e.p.T)
    Rn = rc(1.18) * (fn('pow', e.p.A, rc(1 / 3)) + fn('pow', e.t.A, rc(1 / 3)))
    L = Log1p(2 * g * rc(0.1) * hbar * c_light / u / Rn / e.p.A)
    Cc = K * alpha * (me / u)
    return 16 * Cc * g * e.p.Z ** 4 * R(e.t.Z) ** 2 * L / (e.t.A * e.p.A * 3 * 4 * PI)
bremsstrahlung = C('catima::bremsstrahlung(Projectile p, Target t)', reads='p.A p.Z p.T t.A t.Z', props=['C10'], pre=lambda e: [Gt(e.p.A, 0), Gt(e.t.A, 0)], post=brems)

# ---------------------------------------------------------------- tabulated Lindhard-Sorensen coefficients
LSZ = 108
LST = 'catima::ls_coefficients::ls_energy_table'
def lsE(i): return globtable(LST).values[i]
def lsrow(name, z): return SeqV('double', view('tab:catima::ls_coefficients::' + name, 200 * (z - 1), 200))
def lsz(p):
    z = Trunc(p.Z)
    return Case((Gt(z, LSZ), ic(LSZ)), (Lt(z, 1), ic(1)), z)
def lscorr(p, T, lo, hi):
    """linear interpolation in energy in the element's row, linear correction for the mass"""
    z = lsz(p)
    w = element_atomic_weight(z)
    v1, v2 = (interp[200](globtable(LST), T, lsrow(n, z)) for n in (lo, hi))
    return v1 + (v2 - v1) * ((p.A - w) / w) / rc(0.05)
def ls_sample(s):
    """entries that are not those of the reference table first, then every element and energy"""
    grid = s.orc.globs['glob:%s+0' % LST]
    def at(z, T):
        p = s.value('p', 'Projectile'); p['Z'], p['T'] = float(z), T
        return dict(p=p)
    for n in ('a', 'ahi'):
        for x in ('', 'X_'):
            t = 'catima::ls_coefficients::ls_%scoefficients_%s' % (x, n)
            new = tm.TABLES.get(t + '#current')
            if new and len(new) == len(tm.TABLES[t]): yield from (at(k // 200 + 1, grid[k % 200]) for k in [k for k in range(len(new)) if new[k] != tm.TABLES[t][k]][:200])
    while True: yield at(s.r.choice([s.r.randint(1, LSZ), s.r.randint(1, LSZ), s.r.uniform(0.5, 130)]), s.r.choice([s.r.choice(grid), s.logu(1e-2, 2e7)]))
lindhard = C('catima::precalculated_lindhard(Projectile p)', reads='p.A p.Z p.T', props=['C10'], sample=ls_sample, post=lambda e: lscorr(e.p, If(Lt(e.p.T, lsE(0)), lsE(0), e.p.T), 'ls_coefficients_a', 'ls_coefficients_ahi'))
lindhard_X = C('catima::precalculated_lindhard_X(Projectile p)', reads='p.A p.Z p.T', props=['C14'], sample=ls_sample, post=lambda e: If(Lt(e.p.T, lsE(0)), R(1), lscorr(e.p, e.p.T, 'ls_X_coefficients_a', 'ls_X_coefficients_ahi')))
NO_BARKAS, NO_LINDHARD, NO_SHELL, NO_HIGHENERGY = 1, 2, 4, 8
def bethe(e):
    p, t, c = e.p, e.t, e.c
    g, b2 = gamma(p.T), beta2(p.T)
    eta = beta(p.T) * g
    z = z_effective(p, t, c)
    Ip = If(Gt(e.I, 0), e.I, ipot(t.Z))
    i2, i4, i6 = 1 / eta ** 2, 1 / eta ** 4, 1 / eta ** 6
    shell = (rc(0.422377) * i2 + rc(0.0304043) * i4 - rc(0.00038106) * i6) * rc(1e-6) * Ip ** 2 + (rc(3.858019) * i2 - rc(0.1667989) * i4 + rc(0.00157955) * i6) * rc(1e-9) * Ip ** 3
    off = lambda m: Bit(c.corrections, m)
    L = Log(2 * me * rc(1e6) * b2 / Ip) - If(And(Not(off(NO_SHELL)), Ge(eta, rc(0.13))), shell / t.Z, R(0)) + 2 * Log(g) - b2
    B = If(off(NO_BARKAS), R(1), bethek_barkas(z, eta, R(t.Z)))
    LS = If(off(NO_LINDHARD), R(0), lindhard(p))
    s = K * z * z * t.Z / (b2 * t.A) * (L * B + LS - bethek_density(beta(p.T), t.Z) / 2)
    hi = If(And(Gt(p.T, 50000), Not(off(NO_HIGHENERGY))), pair_production(p, t) + bremsstrahlung(p, t), R(0))
    return If(Eq(p.T, 0), R(0), s + hi)
bethek_el = C('catima::bethek_dedx_e(Projectile p, Target t, Config c, double I)', name='bethek_dedx_e_el', reads='p t.A t.Z c.z_effective c.corrections I', props=['C10', 'C09'],
    pre=lambda e: [Le(1, e.t.Z), Gt(e.t.A, 0), Gt(e.p.A, 0)], post=bethe)
bethek = C('catima::bethek_dedx_e(Projectile p, Material mat, Config c)', name='bethek_dedx_e', reads='p mat.molar_mass mat.i_potential mat.atoms c.z_effective c.corrections', props=['C09', 'C10'],
    pre=lambda e: [Gt(e.p.A, 0), validA(e.mat), validZ(e.mat)],
    post=lambda e: Sum(e.mat.atoms.n, lambda i: weight(e.mat, i) * bethek_el(e.p, target(e.mat, i), e.c, e.mat.i_potential)))
def total(e):
    p, m, c = e.p, e.mat, e.c
    lo, hi = sezi_dedx_e(p, m, c), bethek(p, m, c)
    f = (p.T - 10) / 20
    return If(Le(p.T, 0), R(0), dedx_n_mat(p, m) + Case((Le(p.T, 10), lo), (Lt(p.T, 30), (1 - f) * lo + f * hi), hi))
CFGS = 'c.z_effective c.corrections c.low_energy'
validmat = lambda e: [proj(e.p), Gt(e.p.A, 0), validA(e.mat), validZ(e.mat)]
dedx = C('catima::dedx(Projectile p, Material mat, Config c)', reads='p mat.molar_mass mat.i_potential mat.atoms ' + CFGS, props=['C09'], pre=validmat, post=total)

# ---------------------------------------------------------------- energy straggling
firsov = C('catima::energy_straggling_firsov(double z1, double energy, double z2, double m2)', props=['C14'],
    post=lambda e: rc(4.8184e-3) * fn('pow', e.z1 + e.z2, rc(8 / 3)) / e.m2 * beta2(e.energy) / (alpha * alpha))
def variance(e):
    p, t, c = e.p, e.t, e.c
    b2, g = beta2(p.T), gamma(p.T)
    f = K_me * z_effective(p, t, c) ** 2 * t.Z / t.A
    zt = R(t.Z)
    bind = rc(24.89) * fn('pow', zt, rc(1.2324)) / (me * rc(1e6) * b2) * Log(2 * me * rc(1e6) * b2 / (rc(33.05) * fn('pow', zt, rc(1.6364))))
    cor = If(Eq(c.calculation, 0), Max(bind, R(0)), R(0))
    v = f * (lindhard_X(p) * g * g + cor)
    return If(Lt(p.T, 30), Min(v, firsov(p.Z, p.T, zt, t.A)), v)
dedx_variance = C('catima::dedx_variance(Projectile p, Target t, Config c)', reads='p t.A t.Z c.z_effective c.calculation', props=['C14', 'C09'], post=variance)
domega2dx = C('catima::domega2dx(Projectile p, Material mat, Config c)', reads='p mat.molar_mass mat.atoms c.z_effective c.calculation', props=['C09', 'C14'],
    post=lambda e: Sum(e.mat.atoms.n, lambda i: weight(e.mat, i) * dedx_variance(e.p, target(e.mat, i), e.c)))

def _cont():
    lo, hi, x = var('lo', 'R'), var('hi', 'R'), var('n', 'R')
    f = lambda T: (R(T) - 10) / 20
    blend = lambda T: x + (1 - f(T)) * lo + f(T) * hi
    yield 'blend meets the low-energy model at 10 MeV/u', [], Eq(blend(10), x + lo)
    yield 'blend meets the relativistic model at 30 MeV/u', [], Eq(blend(30), x + hi)
    T = var('T', 'R')
    yield 'blend is a convex combination in between', [Ge(T, 10), Le(T, 30), Le(lo, hi)], And(Ge(blend(T), x + lo), Le(blend(T), x + hi))
Lemma('stopping_continuity', ['C09'], _cont)
def _cap():
    v, s = var('v', 'R'), var('s', 'R')
    a, f, g = var('a', 'R'), var('f', 'R'), var('g', 'R')
    yield 'below 30 MeV/u the variance does not exceed the Firsov value', [], Le(Min(v, s), s)
    yield 'the binding term is never negative', [], Ge(Max(a, R(0)), 0)
    yield 'linear interpolation stays between its end points', [Ge(f, 0), Le(f, 1), Le(a, g)], And(Ge(a * (1 - f) + g * f, a), Le(a * (1 - f) + g * f, g))
Lemma('straggling_cap', ['C14'], _cap)
