"""the options of a configuration are told apart by their values: enumerators of one option are distinct, correction switches are separate bits"""
import os, re, glob
from ..spec import Item, Unsupported
from .. import build

def enums():
    """enumerations of the C++ headers: name -> {enumerator: value}"""
    out = {}
    for f in sorted(glob.glob(os.path.join(build.REPO, 'include', 'catima', '*.h'))):
        if os.path.basename(f) == 'cwrapper.h': continue
        s = open(f, errors='replace').read()
        s = re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', '', s, flags=re.S))
        for m in re.finditer(r'\benum\s+(?:class\s+|struct\s+)?(\w+)\s*(?::\s*[\w:\s]+?)?\s*\{([^}]*)\}', s):
            d, v = {}, -1
            for x in m[2].split(','):
                x = x.strip()
                if not x: continue
                n, _, val = x.partition('=')
                if val.strip() in d: continue       # another name for the same option
                if val.strip():
                    try: v = eval(re.sub(r'[A-Za-z_]\w*', lambda q: str(d[q[0]]), re.sub(r'\b(0[xb][0-9a-fA-F]+|\d+)[uUlL]*\b', r'\1', val)), {'__builtins__': {}})
                    except Exception: raise Unsupported('value of ' + n.strip())
                else: v += 1
                d[n.strip()] = int(v)
            out[m[1]] = d
    return out
def options(enum, bits=False):
    def run(ctx):
        d = enums().get(enum)
        if not d: raise Unsupported('no enumeration ' + enum)
        obls, viol = [], None
        ns = list(d)
        for i, a in enumerate(ns):
            if bits:
                ok = d[a] > 0 and d[a] < 256
                obls.append(dict(kind='post', text='%s::%s switches something off' % (enum, a), ok=ok))
                if not ok: viol = viol or (dict(option='%s::%s' % (enum, a), value=d[a]), 'not a bit of the option byte')
            for b in ns[i + 1:]:
                ok = d[a] & d[b] == 0 if bits else (d[a] - d[b]) % 256 != 0
                obls.append(dict(kind='post', text='%s::%s and %s::%s are different options' % (enum, a, enum, b), ok=ok))
                if not ok: viol = viol or ({'%s::%s' % (enum, a): d[a], '%s::%s' % (enum, b): d[b]}, 'a configuration with one of these options cannot be told from one with the other')
        r = dict(status='proved', obls=obls)
        if viol: r.update(status='open', violation=dict(args=viol[0], mismatch=viol[1], asan=False))
        return r
    return run
for _e, _p, _b in (('z_eff_type', 'C12', 0), ('corrections', 'C10', 1), ('low_energy_types', 'C11', 0), ('omega_types', 'C14', 0), ('scattering_types', 'C13', 0)):
    Item('options_' + _e, [_p], options(_e, bool(_b)), 'values of the enumeration ' + _e)
