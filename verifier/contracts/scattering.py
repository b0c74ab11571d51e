"""C13 angular scattering"""
from ..spec import *
from .const import *
from .kinematics import *
from .composition import *
from .stopping import validZ, validA, proj

PDG = {1: 63.04, 2: 94.32, 3: 82.78, 4: 65.19, 6: 42.7, 7: 37.99, 8: 34.24, 9: 32.93, 10: 28.94, 13: 24.01, 14: 21.82, 17: 19.28, 18: 19.55, 22: 16.16, 26: 13.84,
       29: 12.86, 32: 12.25, 50: 8.82, 54: 8.48, 74: 6.76, 78: 6.54, 79: 6.46, 82: 6.37, 92: 6.00}
def tsai(z, m):
    zr = R(z)
    a2 = alpha * alpha * zr * zr
    f = rc(1.202) * a2 - rc(1.0369) * a2 ** 2 + rc(1.008) * a2 ** 3 / (1 + a2)
    return rc(716.405) * m / (zr * zr * (Log(rc(184.15) / fn('pow', zr, rc(1 / 3))) + Log(1194 / fn('pow', zr, rc(1 / 3)) ** 2) / zr - f))
rad_el = C('catima::radiation_length(int z, double m)', name='radiation_length_el', props=['C13'], pre=lambda e: Le(1, e.z),
    post=lambda e: Case(*[(Eq(e.z, k), rc(v)) for k, v in PDG.items()], tsai(e.z, e.m)))
MATW = 'material.molar_mass material.atoms'
rad = C('catima::radiation_length(Material material)', name='radiation_length', reads=MATW, props=['C13'], pre=lambda e: validZ(e.material),
    post=lambda e: 1 / Sum(e.material.atoms.n, lambda i: weight(e.material, i) / rad_el(e.material.atoms[i].Z, e.material.atoms[i].A)))
def scat_sample(s):
    while True: yield dict(a=s.r.randint(1, 300), z=s.r.randint(1, 120))
scat_el = C('catima::scattering_length(int a, int z)', name='scattering_length_el', props=['C13'], sample=scat_sample,
    post=lambda e: 1 / (rc(0.00034896) * R(e.z) * R(e.z) * (2 * Log(33219 * fn('pow', R(e.a * e.z), rc(-1 / 3))) - 1) / R(e.a)))
scat = C('catima::scattering_length(Material material)', name='scattering_length', reads=MATW, props=['C13'],
    post=lambda e: 1 / Sum(e.material.atoms.n, lambda i: weight(e.material, i) / scat_el(Trunc(e.material.atoms[i].A), e.material.atoms[i].Z)))
def pv(p): return mom(p.T, p.A) * vel(p.T, p.A)
asp_el = C('catima::angular_scattering_power(Projectile p, Target t, double Es2)', name='scattering_power_el', reads='p.A p.Z p.T t.A t.Z Es2', props=['C13'], pre=lambda e: Le(1, e.t.Z),
    post=lambda e: If(Le(e.p.T, 0), R(0), e.Es2 * e.p.Z ** 2 / (rad_el(e.t.Z, e.t.A) * pv(e.p) ** 2)))
asp = C('catima::angular_scattering_power(Projectile p, Material mat, double Es2)', name='scattering_power', reads='p.A p.Z p.T mat.molar_mass mat.atoms Es2', props=['C13'], pre=lambda e: validZ(e.mat),
    post=lambda e: If(Le(e.p.T, 0), R(0), e.Es2 * e.p.Z ** 2 / (rad(e.mat) * pv(e.p) ** 2)))
def xs(e):
    x = pv(e.p)
    c1, c2 = Log10(1 - (x / (e.p1 * e.beta1)) ** 2), Log10(x)
    f = rc(0.5244) + rc(0.1975) * c1 + rc(0.2320) * c2 - rc(0.0098) * c1 * c2
    return If(Le(e.p.T, 0), R(0), f * e.Es2 * e.p.Z ** 2 / (scat(e.mat) * x * x))
asp_xs = C('catima::angular_scattering_power_xs(Projectile p, Material mat, double p1, double beta1, double Es2)', name='scattering_power_xs', reads='p.A p.Z p.T mat.molar_mass mat.atoms p1 beta1 Es2', props=['C13'], post=xs)
FERMI_ROSSI, DHIGHLAND, GOTTSCHALK, ATIMA = 0, 1, 2, 255
def model_Es2(c): return If(Or(Eq(c.scattering, DHIGHLAND), Eq(c.scattering, FERMI_ROSSI)), Es2, rc(198.81))
da2dx = C('catima::da2dx(Projectile p, Material mat, Config c)', reads='p.A p.Z p.T mat.molar_mass mat.atoms c.scattering c.scattering_factor', props=['C13'], pre=lambda e: validZ(e.mat),
    post=lambda e: e.c.scattering_factor * asp(e.p, e.mat, model_Es2(e.c)))
Tfr = C('catima::Tfr(Projectile p, double X, double Es2)', reads='p.A p.T X Es2', props=['C13'], post=lambda e: If(Le(e.p.T, 0), R(0), e.Es2 / (e.X * pv(e.p) ** 2)))
