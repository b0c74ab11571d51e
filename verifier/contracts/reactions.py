"""C20 reaction cross section and probabilities (nonreaction_rate of a projectile in a material is in transport.py)"""
from ..spec import *
from ..sym import *
from .const import *
from .kinematics import *
from .composition import *

rate = C('catima::reaction_rate(double sigma, double t)', name='reaction_rate', props=['C20'], post=lambda e: 1 - Exp(-(e.sigma * e.t * rc(0.0001))))
norate = C('catima::nonreaction_rate(double sigma, double t)', name='nonreaction_rate2', props=['C20'], post=lambda e: Exp(-(e.sigma * e.t * rc(0.0001))))
def rate_search(nat, secs, seed):
    """cross sections that change linearly along the path"""
    import random, math
    from ..native import Crash
    r = random.Random(seed)
    for n in range(400):
        x = [r.uniform(0, 3000), r.uniform(-5, 50), r.uniform(0, 30)] if n else [1000.0, 0.0, 1.0]
        try: y = nat.raw('!rate', x, 10)[0]
        except Crash as e: return dict(cross_section='%r + %r x' % tuple(x[:2]), t=x[2]), str(e)[:500], n
        w = -math.expm1(-1e-4 * (x[0] * x[2] + x[1] * x[2] ** 2 / 2))
        if not abs(y - w) <= 1e-9 * abs(w) + 1e-13: return dict(cross_section='%r + %r x' % tuple(x[:2]), t=x[2]), 'reaction probability %r, expected %r' % (y, w), n
    return None, None, 400
def _rate_setup(E, c, F, alias):
    t = var('t', 'R')
    return St(), [Ptr(E.newobj('f', 'param', 1)), t], {}, Env(dict(t=t)), None
def _rate_goals(E, st, ret, e, objs, sret):
    # the integral is what the eight-point rule (C07) gives for the cross section between 0 and t
    f = E.P.find('integrators::GaussLegendreIntegration<8>::integrate<OpaqueF>(OpaqueF, double, double)')
    if f is None: raise Unsupported('no rule')
    E.quiet += 1
    try: rets = E.call_function(f, [Ptr(E.newobj('this', 'param', 1)), Ptr(E.newobj('f', 'param', 1)), R(0), var('t', 'R')], St())
    finally: E.quiet -= 1
    if len(rets) != 1: raise Unsupported('rule')
    yield 'result', st.pc, Eq(ret, 1 - Exp(-rc(0.0001) * rets[0][1]))
C('catima::reaction_rate<OpaqueF>(OpaqueF f, double t)', name='reaction_rate_path', props=['C20'], own={}, setup=_rate_setup, goals=_rate_goals, native=False, search=rate_search)
def kox(e):
    """Kox et al. parametrisation of the total reaction cross section, in mb"""
    Ap, Zp, At, Zt = R(e.Ap), R(e.Zp), R(e.At), R(e.Zt)
    a3, b3 = fn('pow', Ap, rc(1 / 3)), fn('pow', At, rc(1 / 3))
    D = 5 * (At - 2 * Zt) * Zp / (Ap * At)
    Bc = Zp * Zt / (rc(1.3) * (a3 + b3))
    L = Log10(e.E)
    c = If(Lt(L, rc(1.5)), rc(2 - 10.0 / 1.5 ** 5) * fn('pow', L / rc(1.5), R(3)), 2 - 10 / fn('pow', L, R(5)))
    Rs = rc(1.1) * (rc(1.85) * a3 * b3 / (a3 + b3) - c) + D
    Ri = rc(1.1) * (a3 + b3) + Rs
    return 10 * PI * Ri * Ri * (1 - Bc / Ecm_from_T(e.E, Ap, At))
Kox = C('catima::SigmaR_Kox(int Ap, int Zp, double E, int At, int Zt)', name='SigmaR_Kox', props=['C20'], post=kox)
def atoms_cm2(m): return NA * m.th / m.molar_mass
def prod(e):
    t = atoms_cm2(e.target); d = e.rcs_product - e.rcs_projectile; k = rc(0.0001)
    return If(Lt(Abs(d), 5), k * e.cs * t * Exp(-k * e.rcs_product * t), e.cs * (Exp(-k * e.rcs_projectile * t) - Exp(-k * e.rcs_product * t)) / d)
production_rate = C('catima::production_rate(double cs, double rcs_projectile, double rcs_product, Material target, Config c)', reads='cs rcs_projectile rcs_product target.th target.molar_mass', props=['C20'], post=prod)
def _prob():
    s, t, x, y = var('s', 'R'), var('t', 'R'), var('x', 'R'), var('y', 'R')
    yield 'reaction and survival probability add up to one', [], Eq(rate(s, t) + norate(s, t), R(1))
    yield 'survival probability is positive', [], Gt(norate(s, t), 0)
    yield 'its exponent is not positive for non-negative cross section and thickness', [Ge(s, 0), Ge(t, 0)], Le(-(s * t * rc(0.0001)), 0)
    yield 'the exponential of a non-positive number is at most one', [Le(x, 0)], Le(Exp(x), 1)
    z = R(0)
    p = record('catima::Material', th=t, molar_mass=x, rho=y, i_potential=y, atoms=SeqV('catima::Target', var('m.atoms', 'S')))
    yield 'the production rate vanishes with its cross section', [], Eq(production_rate(z, s, y, p, None), R(0))
Lemma('probabilities', ['C20'], _prob)
