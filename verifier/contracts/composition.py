"""Material, Target, Projectile and Layers (C15, C16)"""
from .. import spec
from ..spec import *
from .const import *

# ---------------------------------------------------------------- element data
ipot = C('catima::ipot(int z)', sample=every_z, props=['C10', 'C18'], post=lambda e: If(And(Le(1, e.z), Le(e.z, 120)), Tab('catima::ionisation_potentials_z', e.z), R(0)))
element_atomic_weight = C('catima::element_atomic_weight(int z)', sample=every_z, props=['C18', 'C15', 'C14'], post=lambda e: If(And(Le(1, e.z), Le(e.z, 109)), Tab('catima::element_atomic_weights', e.z), R(0)))

def stn(m, i): return m.atoms[i].stn
def weight(m, i):
    a = m.atoms[i]
    return If(Lt(a.stn, 1), a.stn, a.stn * a.A / m.molar_mass)
def molar(m, i):
    a = m.atoms[i]
    return If(Lt(a.stn, 1), a.stn * m.molar_mass / a.A, a.stn)
def inside(m, i): return And(Le(0, i), Lt(i, m.atoms.n))
def target(m, i):
    a = m.atoms[i]
    return record('catima::Target', A=a.A, Z=a.Z, stn=a.stn)
MR = 'this.molar_mass this.atoms'
ncomponents = C('catima::Material::ncomponents()', ret='I', reads='this.atoms', props=['C15'], expand=True, post=lambda e: e.this.atoms.n)
get_element = C('catima::Material::get_element(int i)', ret='Target', reads='this.atoms i', props=['C15'], expand=True, pre=lambda e: inside(e.this, e.i),
                post=lambda e: dict(A=e.this.atoms[e.i].A, Z=e.this.atoms[e.i].Z, stn=e.this.atoms[e.i].stn))
weight_fraction = C('catima::Material::weight_fraction(int i)', reads=MR + ' i', props=['C15', 'C09', 'C13'], expand=True, pre=lambda e: inside(e.this, e.i), post=lambda e: weight(e.this, e.i))
molar_fraction = C('catima::Material::molar_fraction(int i)', reads=MR + ' i', props=['C15', 'C20'], expand=True, pre=lambda e: inside(e.this, e.i), post=lambda e: molar(e.this, e.i))
number_density = C('catima::Material::number_density()', reads='this.rho this.molar_mass', props=['C15'], expand=True, post=lambda e: NA * e.this.rho / e.this.molar_mass)
number_density_i = C('catima::Material::number_density(int i)', name='number_density_i', reads='this.rho ' + MR + ' i', props=['C15'],
                     post=lambda e: If(inside(e.this, e.i), NA * e.this.rho / e.this.molar_mass * molar(e.this, e.i), R(0)))
number_density_cm2 = C('catima::Material::number_density_cm2()', reads='this.th this.molar_mass', props=['C15', 'C20'], expand=True, post=lambda e: NA * e.this.th / e.this.molar_mass)
number_density_cm2_i = C('catima::Material::number_density_cm2(int i)', name='number_density_cm2_i', reads='this.th ' + MR + ' i', props=['C15'],
                         post=lambda e: If(inside(e.this, e.i), NA * e.this.th / e.this.molar_mass * molar(e.this, e.i), R(0)))
thickness_cm = C('catima::Material::thickness_cm()', reads='this.th this.rho', props=['C15'], expand=True, post=lambda e: e.this.th / e.this.rho)
for f, leaf in (('M', 'molar_mass'), ('density', 'rho'), ('thickness', 'th'), ('I', 'i_potential')):
    C('catima::Material::%s()' % f, name='get_' + leaf, reads='this.' + leaf, props=['C15'], expand=True, post=lambda e, leaf=leaf: e.this.leaf(leaf))
    C('catima::Material::%s(double val)' % f, name='set_' + leaf, ret='ref', props=['C15'], mod=lambda e, leaf=leaf: {'this.' + leaf: e.val})
C('catima::Material::thickness_cm(double l)', name='set_thickness_cm', ret='ref', props=['C15'], mod=lambda e: {'this.th': e.this.rho * e.l})
def pushT(s, a, z, stn):
    v = dict(A=a, Z=z, stn=stn)
    return push(s, [v[q] for q in paths('catima::Target')])
def mass_of(a, z): return If(Gt(a, 0), a, element_atomic_weight(z))
add_element = C('catima::Material::add_element(double _a, int _z, double _stn)', ret='void', inline=True, props=['C15'],
    mod=lambda e: {'this.atoms': SeqV('catima::Target', pushT(e.this.atoms.s, mass_of(e._a, e._z), e._z, e._stn)), 'this.molar_mass': e.this.molar_mass + e._stn * mass_of(e._a, e._z)})
def fractions(m): return All(m.atoms.n, lambda i: Lt(m.atoms[i].stn, 1))
calculate_m = C('catima::Material::calculate()', name='material_calculate', ret='void', props=['C15'],
    mod=lambda e: {'this.molar_mass': If(fractions(e.this), 1 / Sum(e.this.atoms.n, lambda i: e.this.atoms[i].stn / e.this.atoms[i].A), e.this.molar_mass)})

def list_mass(l, i): return mass_of(l[i].a, trunc_(l[i].b))
SEQDEF['atoms_of'] = (lambda a: sym.seq_len(a[0]), lambda a, path, sort, i: (lambda l: {'A': list_mass(l, i), 'Z': trunc_(l[i].b), 'stn': l[i].c}[path])(SeqV('vf::triple', a[0])))
def atoms_of(l): return SeqV('catima::Target', app('atoms_of', (l.s,), 'S'))
material_ctor = C('catima::Material::Material(double _a, int _z, double _rho, double _th, double _ipot)', name='Material_element', ret='void', props=['C15'],
    mod=lambda e: {'this.rho': e._rho, 'this.th': e._th, 'this.i_potential': e._ipot, 'this.molar_mass': mass_of(e._a, e._z),
                   'this.atoms': SeqV('catima::Target', pushT(EMPTY, mass_of(e._a, e._z), e._z, R(1)))})
material_list = C('catima::Material::Material(initlist3 list, double _density, double _ipot, double mass)', name='Material_list', ret='void', props=['C15'],
    mod=lambda e: {'this.rho': e._density, 'this.th': R(0), 'this.i_potential': e._ipot, 'this.atoms': atoms_of(e.list),
                   'this.molar_mass': If(Ne(e.mass, 0), e.mass, If(All(e.list.n, lambda i: Lt(e.list[i].c, 1)), 1 / Sum(e.list.n, lambda i: e.list[i].c / list_mass(e.list, i)),
                                         Sum(e.list.n, lambda i: e.list[i].c * list_mass(e.list, i))))})

# ---------------------------------------------------------------- layers
LM = 'catima::Material'
def paths(el):
    if el not in PATHS: PATHS[el] = [(p, k if k in 'RI' else 'S') for o, p, k, t in spec.LAY.leaves(el) if k in 'RIVOP']
    return [p for p, k in PATHS[el]]
def pushM(s, m): return push(s, [m.leaf(p) for p in paths(LM)])
def cat(a, b): return SeqV(LM, app('cat', (a.s, b.s), 'S'))
Lnum = C('catima::Layers::num()', name='layers_num', ret='I', reads='this.materials', props=['C16'], expand=True, post=lambda e: e.this.materials.n)
Ladd = C('catima::Layers::add(Material m)', name='layers_add', ret='void', inline=True, props=['C16'], mod=lambda e: {'this.materials': SeqV(LM, pushM(e.this.materials.s, e.m))})
Laddl = C('catima::Layers::add(Layers l)', name='layers_append', ret='void', props=['C16'], alias=[{'l': 'this'}], mod=lambda e: {'this.materials': cat(e.this.materials, e.l.materials)})
Lth = C('catima::Layers::thickness()', name='layers_thickness', reads='this.materials', props=['C16'], post=lambda e: Sum(e.this.materials.n, lambda i: e.this.materials[i].th))
Lcm = C('catima::Layers::thickness_cm()', name='layers_length', reads='this.materials', props=['C16'], post=lambda e: Sum(e.this.materials.n, lambda i: e.this.materials[i].th / e.this.materials[i].rho))
Lcat = C('catima::operator+(Layers a, Layers b)', name='layers_concat', ret='Layers', props=['C16'], alias=[{'b': 'a'}], post=lambda e: dict(materials=cat(e.a.materials, e.b.materials)))
Lplus = C('catima::operator+(Layers a, Material b)', name='layers_plus', ret='Layers', props=['C16'], post=lambda e: dict(materials=SeqV(LM, pushM(e.a.materials.s, e.b))))
C('catima::Layers::operator[](int i)', name='layers_index', ret='ref', inline=True, props=['C16'], pre=lambda e: And(Le(0, e.i), Lt(e.i, e.this.materials.n)), refto=lambda e: ('materials', e.i), mod=lambda e: {})

# ---------------------------------------------------------------- consequences
def _fractions():
    atoms = SeqV('catima::Target', var('m.atoms', 'S')); n = atoms.n
    counts = All(n, lambda i: Ge(atoms[i].stn, 1)); fracs = All(n, lambda i: Lt(atoms[i].stn, 1))
    mass = Sum(n, lambda i: atoms[i].stn * atoms[i].A)
    mat = lambda M: record('catima::Material', molar_mass=M, atoms=atoms, rho=var('m.rho', 'R'), th=var('m.th', 'R'), i_potential=R(0))
    i = var('i', 'I')
    yield 'given by counts: weight fraction i is count times mass over molar mass', [counts, Le(0, i), Lt(i, n), Ne(mass, 0)], Eq(weight(mat(mass), i), atoms[i].stn * atoms[i].A / mass)
    yield 'given by counts: the weight fractions are the terms count times mass over molar mass', [counts, Ne(mass, 0)], Eq(Sum(n, lambda i: weight(mat(mass), i)), Sum(n, lambda i: atoms[i].stn * atoms[i].A / mass))
    yield 'those terms sum to one', [Ne(mass, 0)], Eq(Sum(n, lambda i: atoms[i].stn * atoms[i].A / mass), R(1))
    inv = 1 / Sum(n, lambda i: atoms[i].stn / atoms[i].A)
    yield 'given by weight fractions: atom fraction i is fraction times molar mass over mass', [fracs, Le(0, i), Lt(i, n)], Eq(molar(mat(inv), i), atoms[i].stn * inv / atoms[i].A)
    yield 'given by weight fractions: the atom fractions are those terms', [fracs], Eq(Sum(n, lambda i: molar(mat(inv), i)), Sum(n, lambda i: atoms[i].stn * inv / atoms[i].A))
    yield 'the atom fractions sum to one', [Ne(Sum(n, lambda i: atoms[i].stn / atoms[i].A), 0)], Eq(Sum(n, lambda i: atoms[i].stn * inv / atoms[i].A), R(1))
    a, z, s = var('a', 'R'), var('z', 'I'), var('s', 'R')
    p = SeqV('catima::Target', pushT(atoms.s, a, z, s))
    yield 'add_element keeps the molar mass equal to the sum over the elements of proportion times mass: earlier terms', [], Eq(Sum(n, lambda i: p[i].stn * p[i].A), mass)
    yield 'the added element contributes proportion times mass', [], And(Eq(p.n, n + 1), Eq(p[n].stn * p[n].A, s * a))
Lemma('weight_fractions_sum_to_one', ['C15'], _fractions)
