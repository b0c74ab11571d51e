"""C21 kinematic conversions"""
from ..spec import *
from .const import *

def gamma(T): return 1 + T / u
def beta2(T): return 1 - 1 / (gamma(T) ** 2)
def beta(T): return Sqrt(beta2(T))
def mom(T, A): return Sqrt(T * (T + 2 * u)) * A
def vel(T, A): return mom(T, A) / ((T + u) * A)

gamma_from_T = C('catima::gamma_from_T(double T)', props=['C21'], post=lambda e: gamma(e.T))
beta_from_T = C('catima::beta_from_T(double T)', props=['C21'], post=lambda e: beta(e.T))
p_from_T = C('catima::p_from_T(double T, double M)', props=['C21', 'C13'], post=lambda e: mom(e.T, e.M))
p_inline = C('catima::p_from_T_inline(double T, double M)', props=['C21', 'C20'], post=lambda e: mom(e.T, e.M))
Ecm_from_T = C('catima::Ecm_from_T(double T, double Ap, double At)', props=['C21', 'C20'], post=lambda e: e.T * e.Ap * e.At / (e.Ap + e.At))
ipow = C('catima::ipow(double x, int y)', props=['C13', 'C14'], expand=True, post=lambda e: Case((Eq(e.y, 0), R(1)), (Eq(e.y, 1), e.x), (Eq(e.y, 2), e.x * e.x), fn('pow', e.x, R(e.y))))
power = C('catima::power(double x, double y)', props=['C10', 'C08'], expand=True, post=lambda e: Exp(Log(e.x) * e.y), doc='x to the power y for positive x')

def _kin():
    T, S, A = var('T', 'R'), var('S', 'R'), var('A', 'R')
    g, b = gamma_from_T, beta_from_T
    pos = [Ge(T, 0)]
    x, y = var('x', 'R'), var('y', 'R')
    yield 'gamma = 1 + T/u', pos, Eq(g(T), 1 + T / u)
    yield 'gamma >= 1', pos, Ge(gamma(T), 1)
    yield 'radicand of beta lies in [0,1)', [Ge(x, 1)], And(Ge(1 - 1 / (x * x), 0), Lt(1 - 1 / (x * x), 1))
    yield 'square root of [0,1) lies in [0,1)', [Ge(x, 0), Lt(x, 1)], And(Ge(Sqrt(x), 0), Lt(Sqrt(x), 1))
    yield 'beta^2 = 1 - 1/gamma^2', pos, Eq(b(T) * b(T), 1 - 1 / (g(T) * g(T)))
    yield '(A gamma beta u)^2 = p^2', pos, Eq((A * g(T) * b(T) * u) ** 2, p_from_T(T, A) ** 2)
    yield 'equal squares of non-negative numbers', [Ge(x, 0), Ge(y, 0), Eq(x * x, y * y)], Eq(x, y)
    yield 'gamma increases', [Ge(T, 0), Lt(T, S)], Lt(g(T), g(S))
    yield 'radicand of beta increases with gamma', [Ge(x, 1), Lt(x, y)], Lt(1 - 1 / (x * x), 1 - 1 / (y * y))
    yield 'square root increases', [Ge(x, 0), Lt(x, y)], Lt(Sqrt(x), Sqrt(y))
    yield 'radicand of p increases', [Ge(T, 0), Lt(T, S)], Lt(T * (T + 2 * u), S * (S + 2 * u))
    yield 'p increases with its root', [Gt(A, 0), Lt(x, y)], Lt(x * A, y * A)
    yield 'both momentum functions agree', pos, Eq(p_from_T(T, A), p_inline(T, A))
Lemma('kinematic_identities', ['C21'], _kin)
