"""Everything taken from /repo's current working tree: LLVM IR for the verifier and
native objects for replay.  Output goes to a scratch directory under /verif/.work."""
import os, subprocess, hashlib, shutil, sys, json, re, concurrent.futures as cf

REPO = os.environ.get('CATIMA_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WORK = os.path.join(VERIF, '.work')
LLVM = '/usr/lib/llvm-18/bin/'
DEFAULTS = {'THIN_TARGET_APPROXIMATION': 1, 'STORE_SPLINES': 1, 'REACTIONS': 1, 'ET_CALCULATED_INDEX': 1,
            'GSL_INTEGRATION': 0, 'GSL_INTERPOLATION': 0, 'GLOBAL': 0, 'NUREX': 0}
PASSES = 'sroa,early-cse,simplifycfg,loop-simplify'

class BuildError(Exception): pass

def tool(n):
    p = LLVM + n
    return p if os.path.exists(p) else n

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr.decode('utf8', 'replace')[:6000]))
    return r.stdout

def options():
    """default option values read from CMakeLists.txt, so that what is verified is the default build"""
    d = dict(DEFAULTS)
    try:
        for m in re.finditer(r'option\(\s*(\w+)\s+"[^"]*"\s+(ON|OFF)\s*\)', open(REPO + '/CMakeLists.txt').read()):
            if m.group(1) in d: d[m.group(1)] = int(m.group(2) == 'ON')
    except OSError: pass
    return d

def gen_config(dst, over=None):
    opts = options()
    if over: opts.update(over)
    src = open(REPO + '/build_config.in').read()
    def sub(m):
        return '#define ' + m.group(1) if opts.get(m.group(1), 0) else '/* #undef %s */' % m.group(1)
    out = re.sub(r'#cmakedefine\s+(\w+)', sub, src)
    os.makedirs(dst + '/catima', exist_ok=True)
    open(dst + '/catima/build_config.h', 'w').write(out)

def sources():
    s = os.path.join(REPO, 'src')
    return sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith('.cpp'))

def tree_hash(extra=''):
    h = hashlib.sha256()
    for base in ('src', 'include', 'bin'):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                if f.endswith(('.cpp', '.h', '.hpp', '.c', '.in')):
                    h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    for f in ('build_config.in', 'CMakeLists.txt'):
        try: h.update(open(os.path.join(REPO, f), 'rb').read())
        except OSError: pass
    for f in sorted(os.listdir(os.path.join(HERE, 'tu'))) if os.path.isdir(os.path.join(HERE, 'tu')) else []:
        h.update(open(os.path.join(HERE, 'tu', f), 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    h.update(extra.encode())
    return h.hexdigest()[:20]

def workdir(tag, over=None):
    d = os.path.join(WORK, tag + '-' + tree_hash(json.dumps(over or {}, sort_keys=True)))
    return d

def prune(keep):
    """drop scratch directories of other trees so that disk use stays bounded"""
    if not os.path.isdir(WORK): return
    ds = [os.path.join(WORK, x) for x in os.listdir(WORK)]
    ds = sorted((x for x in ds if os.path.isdir(x) and x not in keep), key=os.path.getmtime)
    for x in ds[:-24]: shutil.rmtree(x, ignore_errors=True)

def build_ir(over=None, extra_tu=()):
    """returns path of the linked, optimised IR module text"""
    d = workdir('ir', over)
    out = d + '/all.ll'
    if os.path.exists(out): return out
    tmp = '%s.tmp%d' % (d, os.getpid())
    os.makedirs(tmp, exist_ok=True)
    gen_config(tmp + '/gen', over)
    tus = sources() + [os.path.join(HERE, 'tu', f) for f in sorted(os.listdir(os.path.join(HERE, 'tu'))) if f.endswith('.cpp')]
    def one(src):
        o = tmp + '/' + os.path.basename(src) + '.bc'
        run([tool('clang++') if os.path.exists(LLVM + 'clang++') else 'clang++', '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions',
             '-ffp-contract=off', '-fno-discard-value-names', '-DNDEBUG', '-c', '-emit-llvm', '-I' + REPO + '/include', '-I' + REPO + '/include/catima', '-I' + tmp + '/gen', '-I' + tmp + '/gen/catima',
             '-w', src, '-o', o])
        return o
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, tus))
    run([tool('llvm-link'), *objs, '-o', tmp + '/link.bc'])
    run([tool('opt'), '-S', '-passes=' + PASSES, tmp + '/link.bc', '-o', tmp + '/all.ll'])
    for o in objs: os.unlink(o)
    lay = run(['clang++' if not os.path.exists(LLVM + 'clang++') else LLVM + 'clang++', '-std=c++17', '-S', '-emit-llvm', '-o', '/dev/null', '-Xclang', '-fdump-record-layouts', '-DNDEBUG',
               '-I' + REPO + '/include', '-I' + REPO + '/include/catima', '-I' + tmp + '/gen', '-I' + tmp + '/gen/catima', '-w', os.path.join(HERE, 'tu', 'inst.cpp')])
    open(tmp + '/layouts.txt', 'wb').write(lay)
    if os.path.exists(d): shutil.rmtree(tmp)
    else:
        os.makedirs(WORK, exist_ok=True)
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    prune({d})
    return out

def demangle(names):
    r = subprocess.run([tool('llvm-cxxfilt')], input='\n'.join(names).encode(), stdout=subprocess.PIPE, check=True)
    return dict(zip(names, r.stdout.decode().split('\n')))
