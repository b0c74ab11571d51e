"""Physical constants and limits, stated independently of the sources (CODATA 2014 values)."""
from ..spec import rc
from fractions import Fraction
def _f(x): return rc(float(x))
u = _f(931.4940954)            # atomic mass unit, MeV/c^2
me = _f(0.510998928)           # electron mass, MeV/c^2
alpha = _f(1 / 137.035999139)
alpha_inv = _f(137.035999139)
PI = _f(3.1415926535897932384626433832795)
LN10 = _f(2.30258509299404568401799145468)
NA = _f(6.022140857)           # 10^23
c_light = _f(299.792458)       # Mm/s
v_bohr = _f(2.19 / 299.792458)
Es2 = _f(2.0 * 3.141592653589793 * 137.035999139 * 0.510998928 ** 2)
K = _f(0.3070749187)           # 4 pi Na me c^2 re^2
K_me = _f(0.3070749187 * 0.510998928)
Ezero = _f(1e-3)
Eout_eps = _f(1e-5)
thin_limit = _f(1 - 1e-3)
emin_reaction = _f(30.0)
# sizes are a choice of the implementation, read from the sources
def size(name, default):
    import re, os
    from .. import build
    try: m = re.search(r'\bint\s+%s\s*=\s*(\d+)\s*;' % name, open(os.path.join(build.REPO, 'include/catima/constants.h')).read())
    except OSError: m = None
    return int(m.group(1)) if m else default
MAXE = size('max_datapoints', 600)
SLOTS = size('max_storage_data', 60)

def every_z(s):
    """all element numbers in and around the tables, then any"""
    yield from (dict(z=z) for z in range(-3, 140))
    while True: yield dict(z=s.r.choice([s.r.randint(-2 ** 31, 2 ** 31 - 1), s.r.randint(-1000, 1000), -2 ** 31, 2 ** 31 - 1]))
def every_isotope(s):
    yield from (dict(z=z, i=i) for z in range(-2, 125) for i in range(-1, 12))
    while True: yield dict(z=s.r.choice([s.r.randint(-2 ** 31, 2 ** 31 - 1), s.r.randint(0, 120), -2 ** 31, 2 ** 31 - 1]), i=s.r.choice([s.r.randint(-2 ** 31, 2 ** 31 - 1), s.r.randint(0, 20), -2 ** 31, 2 ** 31 - 1]))
