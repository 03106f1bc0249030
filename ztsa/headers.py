"""The public interface: what the installed headers declare, compared with what the library defines.

A unit that includes every header is parsed by clang as C and as C++; the library's units are parsed as the build
compiles them.  Every function and object declared in a header must be defined by a unit, under the very symbol the
program's declaration has in either language, and with the declared type."""
import json
import os
import re
from concurrent.futures import ProcessPoolExecutor
from . import frontend

FIRST = '#define ZT_WITH_GC 1\n#define ZT_WITH_UNIT 1\n#include <zt.h>\n'
LANGS = [('c', ['-x', 'c', '-std=gnu11']), ('c++', ['-x', 'c++', '-std=gnu++11'])]
# a program may be compiled so
VARIANTS = [('c', '-std=gnu99', []), ('c', '-std=gnu11', []), ('c', '-std=gnu17', []), ('c++', '-std=gnu++98', []), ('c++', '-std=gnu++11', []), ('c++', '-std=gnu++17', [])]


def first(err):
    ls = err.strip().split('\n')
    return next((l for l in ls if 'error:' in l), ls[0]).replace(frontend.scratch(), '')


def kids(n):
    return [k for k in n.get('inner', ()) if k]


def visit_files(n, cur, out):
    """document order: clang prints a file only when it differs from the one printed before"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(reversed(x))
            continue
        if not isinstance(x, dict):
            continue
        if 'file' in x and 'offset' in x:
            cur[0] = x['file']
        if 'loc' in x and isinstance(x['loc'], dict):
            for l in (x['loc'], x['loc'].get('spellingLoc', {}), x['loc'].get('expansionLoc', {})):
                cur[0] = l.get('file', cur[0])
            out[id(x)] = cur[0]
            st.extend(reversed([v for k, v in x.items() if k != 'loc' and isinstance(v, (dict, list))]))
        else:
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))


def decls(n):
    """file scope declarations, also those inside linkage specifications"""
    for d in kids(n):
        if d.get('kind') in ('LinkageSpecDecl', 'NamespaceDecl'):
            yield from decls(d)
        else:
            yield d


def norm(t):
    t = re.sub(r'\b(struct|union|enum|class)\s+', '', t)
    t = re.sub(r'\b(_Bool)\b', 'bool', t)
    t = re.sub(r'\(void\)', '()', t)
    t = re.sub(r'\s*__attribute__\(\(.*?\)\)', '', t)
    t = re.sub(r'\b(__restrict|restrict)\b', '', t)
    return re.sub(r'\s+', '', t)


def ast(src, flags):
    p = frontend.run([frontend.CLANG, '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + flags + [src])
    if p.returncode:
        return None, p.stderr
    return json.loads(p.stdout), ''


def declared(args):
    """functions and objects of external linkage the headers declare: (kind, name, symbol, type, header)"""
    src, flags, dirs = args
    tu, err = ast(src, flags)
    if tu is None:
        return None, err
    files = {}
    visit_files(tu, [None], files)
    out = []
    for d in decls(tu):
        if d.get('kind') not in ('FunctionDecl', 'VarDecl') or d.get('storageClass') == 'static':
            continue
        f = os.path.realpath(files.get(id(d)) or '/')
        if not any(f.startswith(x + os.sep) for x in dirs):
            continue
        if d['kind'] == 'FunctionDecl' and (d.get('inline') or any(k.get('kind') == 'CompoundStmt' for k in kids(d))):
            continue
        out.append((d['kind'], d['name'], d.get('mangledName', d['name']), norm(d['type']['qualType']), f))
    return out, ''


def defined(args):
    rel, path, flags = args
    tu, err = ast(path, flags)
    if tu is None:
        return rel, None, err
    out = []
    for d in decls(tu):
        k = d.get('kind')
        if k == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in kids(d)) and d.get('storageClass') != 'static' and not d.get('inline'):
            out.append((d.get('mangledName', d['name']), norm(d['type']['qualType'])))
        elif k == 'VarDecl' and d.get('storageClass') not in ('static', 'extern'):
            out.append((d.get('mangledName', d['name']), norm(d['type']['qualType'])))
    return rel, out, ''


def compiles(args):
    what, src, lang, std, extra, flags = args
    p = frontend.run([frontend.CLANG, '-fsyntax-only', '-w', '-x', lang, std] + flags + extra + [src])
    return p.returncode, p.stderr


def all_units():
    """the library's units, C and C++"""
    import shlex
    out = [(rel, os.path.join(frontend.REPO, rel), list(flags)) for rel, flags in frontend.lib_units()]
    for e in frontend.compile_db():
        rel = os.path.relpath(e['file'], frontend.REPO)
        if rel.startswith('src' + os.sep) and rel.endswith(('.cpp', '.cc', '.cxx')):
            a = [x for x in shlex.split(e['command'])[1:] if x.startswith(('-D', '-I', '-std', '-isystem'))]
            out.append((rel, e['file'], a))
    return out


def headers():
    """the headers the build installs, as included by a program"""
    d = os.path.join(frontend.scratch(), 'cmake')
    frontend.compile_db()
    found = []
    for dirpath, _, names in os.walk(d):
        if 'cmake_install.cmake' in names:
            with open(os.path.join(dirpath, 'cmake_install.cmake')) as f:
                text = f.read()
            for m in re.finditer(r'file\(INSTALL DESTINATION "\$\{CMAKE_INSTALL_PREFIX\}/include([^"]*)" TYPE FILE FILES([^)]*)\)', text):
                for h in re.findall(r'"([^"]+\.h)"', m.group(2)):
                    found.append((m.group(1).strip('/'), h))
    return sorted(set(found))


def run(ctx):
    hs = headers()
    if len(hs) < 20:
        raise frontend.AnalysisBroken('the installed headers were not found')
    base = [x for x in dict(frontend.lib_units())['src/libzt/zt_cstr.c'] if x.startswith(('-I', '-isystem', '-D'))]
    dirs = [os.path.realpath(os.path.join(frontend.REPO, 'src')), os.path.realpath(os.path.join(frontend.scratch(), 'cmake'))]
    w = os.path.join(frontend.scratch(), 'headers')
    os.makedirs(w, exist_ok=True)
    body = FIRST
    names = []
    for d, h in hs:
        inc = (d + '/' if d else '') + os.path.basename(h)
        if os.path.basename(h) in ('zt.h', 'zt_internal.h', 'zt_replace.h', 'zt_win32.h'):
            continue
        names.append(inc)
        body += '#include <%s>\n' % inc
    src = os.path.join(w, 'all.h.c')
    with open(src, 'w') as f:
        f.write(body)
    jobs = []
    for lang, std, extra in VARIANTS:
        jobs.append(('together', src, lang, std, extra, base))
        # a program knows none of the build's definitions
        jobs.append(('together', src, lang, std, extra, [x for x in base if not x.startswith('-D')]))
    # every header the program may include by itself, and in the build that keeps its assertions
    for inc in names + ['zt.h']:
        one = os.path.join(w, inc.replace('/', '_') + '.c')
        with open(one, 'w') as f:
            f.write('#include <%s>\n#include <%s>\n' % (inc, inc))
        for lang, fl in LANGS:
            jobs.append((inc, one, lang, fl[2], [], base))
        jobs.append((inc, one, 'c', '-std=gnu11', ['-UNDEBUG'], base))
    with ProcessPoolExecutor(8) as ex:
        ds = list(ex.map(declared, [(src, base + fl, dirs) for _, fl in LANGS]))
        us = list(ex.map(defined, all_units()))
        cs = list(ex.map(compiles, jobs))
    for j, (rc, err) in zip(jobs, cs):
        if rc:
            ctx.report('header', '%s: %s does not compile' % (j[2], j[0]), j[0], 'included by a %s program (%s)%s: %s' % (j[2], j[3], ', assertions kept' if j[4] else '', first(err)), root=j[0])
    have = {}
    for rel, out, err in us:
        if out is None:
            ctx.report('header', '%s does not compile' % rel, rel, first(err), root=rel)
        for s, t in out or ():
            have.setdefault(s, []).append((t, rel))
    n = 0
    for (lang, _), (out, err) in zip(LANGS, ds):
        for kind, name, sym, typ, f in sorted(set(out or ())):
            h = os.path.basename(f)
            n += 1
            what = 'the function' if kind == 'FunctionDecl' else 'the object'
            if sym not in have:
                if name in have:
                    ctx.report('header', '%s in %s' % (name, h), h, '%s %s is declared for %s with the linkage name %s, the library defines %s' % (what, name, lang, sym, name), root=h)
                else:
                    ctx.report('header', '%s in %s' % (name, h), h, '%s %s is declared, but no unit of the library defines it' % (what, name), root=h)
            elif lang == 'c' and all(re.sub(r'\[\d+\]', '[]', t) != re.sub(r'\[\d+\]', '[]', typ) for t, _ in have[sym]):
                ctx.report('header', 'type of %s in %s' % (name, h), h, '%s %s is declared as %s and defined as %s in %s' % (what, name, typ, have[sym][0][0], have[sym][0][1]), root=h)
    ctx.coverage.update(headers=len(names), declarations=n, variants=len(jobs), units=len(us), symbols_defined=len(have))
