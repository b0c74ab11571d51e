"""C12 effective charge"""
from ..spec import *
from .const import *
from .kinematics import *

NONE, PB, AL, HUB, WIN, SCH, GLO, AT14 = range(8)   # checked against the enumeration values by the layout obligation
def v23(z): return fn('pow', z, rc(2 / 3))
pierce_blann = C('catima::z_eff_Pierce_Blann(double z, double beta)', props=['C12'],
    post=lambda e: e.z * (1 - Exp(-rc(0.95) * alpha_inv * e.beta / v23(e.z))))
def al(e):
    B = rc(1.18) - e.tz * (rc(7.5e-3) - rc(4.53e-5) * e.tz)
    A = rc(1.16) - e.tz * (rc(1.91e-3) - rc(1.26e-5) * e.tz)
    return e.pz * (1 - A * Exp(-alpha_inv * B * e.beta / v23(e.pz)))
anthony = C('catima::z_eff_Anthony_Landford(double pz, double beta, double tz)', props=['C12'], post=al)
def hub(e):
    l = Log(e.tz)
    be = (rc(2.045) + 2 * Exp(rc(-0.04369) * e.pz), rc(7.0), rc(0.2643), rc(0.4171))
    ca = (rc(2.584) + rc(1.91) * Exp(rc(-0.03958) * e.pz), rc(6.933), rc(0.2433), rc(0.3969))
    ge = (rc(1.164) + rc(0.2319) * Exp(rc(-0.004302) * e.tz) + rc(1.658) * Exp(rc(-0.0517) * e.pz), rc(8.144) + rc(0.09876) * l, rc(0.314) + rc(0.01072) * l, rc(0.5218) + rc(0.02521) * l)
    f = lambda x: e.pz * (1 - x[0] * Exp(-x[1] * fn('pow', e.E, x[2]) * fn('pow', e.pz, -x[3])))
    return Case((Lt(e.E, 2.5), R(0)), (Eq(e.tz, 4), f(be)), (Eq(e.tz, 6), f(ca)), f(ge))
hubert = C('catima::z_eff_Hubert(double pz, double E, double tz)', props=['C12'], post=hub)
def win(e):
    tz = Case((Eq(e.tz, 1), rc(2.6)), (Eq(e.tz, 2), rc(2.8)), e.tz)
    x = e.beta / rc(0.012) / fn('pow', e.pz, rc(0.45))
    lz, lt_ = Log(e.pz), Log(tz)
    a0 = rc(-0.4662)
    a1 = rc(-0.5491) * Exp(rc(0.7028) * lz - rc(0.1089) * lz ** 2 + rc(0.001644) * lz ** 3 - rc(0.5155) * lt_ + rc(0.05633) * lt_ ** 2)
    a2 = rc(0.005447) * Exp(rc(0.8795) * lz - rc(1.091) * lt_)
    a3 = rc(-0.0008261) * Exp(rc(2.848) * lz - rc(0.2442) * lz ** 3)
    a4 = rc(-0.00009293)
    return e.pz * (1 - Exp(a0 + a1 * x + a2 * x ** 2 + a3 * x ** 3 + a4 * x ** 4))
winger = C('catima::z_eff_Winger(double pz, double beta, double tz)', props=['C12'], post=win)
def sch(e):
    s = fn('pow', e.pz, rc(-0.543)) * e.beta / v_bohr
    c1 = 1 - rc(0.26) * Exp(-e.tz / 11) * Exp(-(e.tz - e.pz) * (e.tz - e.pz) / 9)
    c2 = 1 + rc(0.030) * s * Log(e.tz)
    x = c1 * fn('pow', s / c2 / rc(1.54), 1 + rc(1.83) / e.pz)
    return e.pz * (rc(8.29) * x + x ** 4) / (rc(0.06) / x + 4 + rc(7.4) * x + x ** 4)
schiwietz = C('catima::z_eff_Schiwietz(double pz, double beta, double tz)', props=['C12'], post=sch)
# GLOBAL is not part of this build: outside the Pierce-Blann region the formula is unavailable (-1); atima14 gives 0
glob = C('catima::z_eff_global(double pz, double E, double tz)', props=['C12'],
    post=lambda e: Case((Gt(e.E, 2000), e.pz), (Or(Lt(e.E, 30), Lt(e.pz, 29)), pierce_blann(e.pz, beta(e.E))), R(-1)))
at14 = C('catima::z_eff_atima14(double pz, double T, double tz)', props=['C12'], reads='pz T tz', post=lambda e: R(0))
def zeff(e):
    b = beta(e.p.T); z = e.c.z_effective; tz = R(e.t.Z)
    return Case((Eq(z, 0), e.p.Q), (Eq(z, 1), pierce_blann(e.p.Z, b)), (Eq(z, 2), anthony(e.p.Z, b, tz)), (Eq(z, 3), hubert(e.p.Z, e.p.T, tz)),
                (Eq(z, 4), winger(e.p.Z, b, tz)), (Eq(z, 5), schiwietz(e.p.Z, b, tz)), (Eq(z, 6), glob(e.p.Z, e.p.T, tz)), (Eq(z, 7), at14(e.p.Z, e.p.T, tz)), R(0))
z_effective = C('catima::z_effective(Projectile p, Target t, Config c)', reads='p t.Z c.z_effective', props=['C12', 'C10', 'C14'], post=zeff)

def _sat():
    z, k, x = var('z', 'R'), var('k', 'R'), var('x', 'R')
    b, tz, E = var('b', 'R'), var('tz', 'R'), var('E', 'R')
    sat = lambda k, x: z * (1 - k * Exp(x))
    yield 'a saturating exponential with positive coefficient never exceeds the nuclear charge', [Ge(z, 0), Gt(k, 0)], Le(sat(k, x), z)
    yield 'Pierce-Blann has this form', [], Eq(pierce_blann(z, b), sat(R(1), -rc(0.95) * alpha_inv * b / v23(z)))
    A = rc(1.16) - tz * (rc(1.91e-3) - rc(1.26e-5) * tz)
    B = rc(1.18) - tz * (rc(7.5e-3) - rc(4.53e-5) * tz)
    yield 'Anthony-Landford has this form', [], Eq(anthony(z, b, tz), sat(A, -alpha_inv * B * b / v23(z)))
    yield 'its coefficient is positive for every target', [], Gt(A, 0)
    p, q = var('p', 'R'), var('q', 'R')
    yield 'the coefficients of Hubert are positive', [], And(Gt(rc(2.045) + 2 * Exp(p), 0), Gt(rc(2.584) + rc(1.91) * Exp(p), 0), Gt(rc(1.164) + rc(0.2319) * Exp(q) + rc(1.658) * Exp(p), 0))
Lemma('charge_saturation', ['C12'], _sat)
