"""Reference contents of the data tables, recorded from the published tables the library ships.

The tables of the current tree are compared with these on every run; a table whose contents differ is
given a symbol of its own, so every obligation that depends on it has to be proved (or fails) on the new
numbers.  python3 -m verifier.golden records the file."""
import gzip, json, os
from fractions import Fraction
PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'golden.json.gz')
def load():
    from . import exec as ex, terms as tm
    if ex.GOLDEN: return
    d = json.loads(gzip.open(PATH, 'rt').read())
    for n, v in d.items():
        k = tuple(Fraction(float.fromhex(x)) if isinstance(x, str) else x for x in v)
        ex.GOLDEN[n] = k; ex.GOLDEN_BY.setdefault(k, n)
        tm.TABLES[n] = list(k)
SKIP = ('__const', 'constinit', '.str', 'integrators')
def record():
    from . import prog, exec as ex
    P = prog.Program(); E = ex.Executor(P, {})
    out = {}
    for g in P.mod.globals:
        if g in P.alias: continue
        d = P.dem[g]
        if d.startswith(SKIP) or not d.startswith(('catima::', 'density_effect::', 'abundance::')): continue
        try: o = E.global_obj(g)
        except Exception as x: continue
        if o.kind == 'table': out[d] = [float(v).hex() if isinstance(v, Fraction) else int(v) for v in o.tag[1]]
    with gzip.GzipFile(PATH, 'wb', mtime=0) as f: f.write(json.dumps(out, sort_keys=True).encode())
    for n in sorted(out): print(n, len(out[n]))
if __name__ == '__main__': record()
