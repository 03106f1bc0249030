"""Front end: obtains the resolved program.

/repo's current working tree is configured with its own CMake files into a
scratch directory (outside /repo), the compile database CMake writes is read,
and every library translation unit is compiled to LLVM IR with the build's own
preprocessor definitions (-DNDEBUG included, exactly what ships).  Nothing that
is compiled is ever executed.
"""
import json, os, shlex, shutil, subprocess, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('ZTSA_REPO', '/repo')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
OPT = shutil.which('opt-18') or '/usr/lib/llvm-18/bin/opt'


class AnalysisBroken(Exception):
    """An anchor vanished or the program could not be obtained: error exit,
    never a pass and never a violation."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='ztsa-')
        pid = os.getpid()

        def _rm(d=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(_rm)
    return _scratch


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    return p


def compile_db():
    d = os.path.join(scratch(), 'cmake')
    if not os.path.exists(os.path.join(d, 'compile_commands.json')):
        env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8')
        for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS'):
            env.pop(k, None)
        p = run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                 '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_C_FLAGS=-Wno-error',
                 '-DCMAKE_CXX_FLAGS=-Wno-error', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'], env=env)
        if p.returncode != 0:
            raise AnalysisBroken('cmake configure failed:\n' + p.stdout[-2000:] + p.stderr[-2000:])
    with open(os.path.join(d, 'compile_commands.json')) as f:
        return json.load(f)


def lib_units():
    """[(file, [flags])] for every C translation unit of the shipped libraries."""
    seen = {}
    for e in compile_db():
        f = e['file']
        rel = os.path.relpath(f, REPO)
        if not rel.startswith('src' + os.sep) or not f.endswith('.c'):
            continue
        a = shlex.split(e['command'])[1:]
        out = []
        i = 0
        while i < len(a):
            x = a[i]
            if x in ('-o',):
                i += 2
                continue
            if x == '-c' or x == f or x.startswith('-W') or x.startswith('-O') or x == '-g':
                i += 1
                continue
            out.append(x)
            i += 1
        seen.setdefault(rel, out)
    if not seen:
        raise AnalysisBroken('no library translation unit in the compile database')
    return sorted(seen.items())


PASSES = 'function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-sink-common-insts>),function(loop-simplify)'
PASSES = 'function(sroa,instsimplify,loop-simplify)'


def compile_unit(src, flags, out, extra=()):
    ll = out + '.0.ll'
    cmd = [CLANG, '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w',
           '-femit-all-decls', '-fno-delete-null-pointer-checks', '-fno-discard-value-names'] + list(flags) + list(extra) + [src, '-o', ll]
    p = run(cmd)
    if p.returncode != 0:
        raise AnalysisBroken('cannot compile %s:\n%s' % (src, p.stderr[-3000:]))
    p = run([OPT, '-S', '-passes=' + PASSES, ll, '-o', out])
    if p.returncode != 0:
        raise AnalysisBroken('opt failed on %s:\n%s' % (src, p.stderr[-3000:]))
    os.unlink(ll)
    return out


_modules = {}


def load(units=None, clients=(), without=(), keep=False):
    """Compile and load.  clients: extra .c files under /verif analysed together
    with the library (compositions of API calls; never executed).
    keep: the build that keeps its assertions."""
    us = lib_units()
    if keep:
        us = [(rel, list(flags) + ['-UNDEBUG']) for rel, flags in us]
    d = os.path.join(scratch(), 'll-kept' if keep else 'll')
    os.makedirs(d, exist_ok=True)
    jobs = []
    for rel, flags in us:
        if any(rel.endswith('/' + o) for o in without):
            continue
        jobs.append((os.path.join(REPO, rel), flags, os.path.join(d, rel.replace('/', '_') + '.ll'), rel))
    base_flags = dict(us).get('src/libzt/zt_cstr.c') or us[0][1]
    for c in clients:
        jobs.append((c, base_flags, os.path.join(d, 'client_' + os.path.basename(c) + '.ll'), 'client:' + os.path.basename(c)))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: os.path.exists(j[2]) or compile_unit(j[0], j[1], j[2]), jobs))
    prog = ir.Program()
    for _, _, out, rel in jobs:
        if (out, rel) not in _modules:
            _modules[out, rel] = ir.load_module(out, rel)
        prog.add(_modules[out, rel])
    prog.link()
    return prog
