"""Assertions observe: the conditions of the library's assertions, from the type-checked syntax tree.

The build that keeps its assertions is parsed by clang; every conditional whose failing branch reports a failed
assertion is an assertion, and its condition must write nothing outside the locals of the functions it calls."""
import json
import os
from concurrent.futures import ProcessPoolExecutor
from . import frontend

REPORTERS = {'_zt_log_assertion', '__assert_fail'}
# C library routines that change what the program can see
IMPURE = set('malloc calloc realloc free strdup strndup fopen fclose fgetc fgets fread fwrite fputs fputc putc getc ungetc printf fprintf sprintf snprintf vsnprintf '
             'read write open close unlink mkdir rmdir rename lseek memcpy memmove memset strcpy strncpy strcat strncat strtok strtok_r strsep exit abort fork wait waitpid '
             'pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_mutex_init pthread_mutex_destroy pthread_cond_signal pthread_cond_broadcast pthread_cond_wait '
             'pthread_create pthread_join pthread_detach setjmp longjmp srand rand random setenv putenv time gettimeofday'.split()) - {'time', 'gettimeofday'}
PASS = ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr')


def peel(n):
    while n.get('kind') in PASS and n.get('inner'):
        n = n['inner'][-1]
    return n


def kids(n):
    return [k for k in n.get('inner', ()) if k]


def walk(n):
    st = [n]
    while st:
        n = st.pop()
        yield n
        st.extend(reversed(kids(n)))


def callee(n):
    c = peel(kids(n)[0])
    if c.get('kind') == 'DeclRefExpr' and c.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
        return c['referencedDecl']['name']
    return None


def lvalue_local(n, locs):
    """is the thing written a local variable itself"""
    n = peel(n)
    while n.get('kind') in ('MemberExpr', 'ArraySubscriptExpr'):
        if n['kind'] == 'MemberExpr' and n.get('isArrow'):
            return False
        if n['kind'] == 'ArraySubscriptExpr':
            b = peel(kids(n)[0])
            if '[' not in b.get('type', {}).get('qualType', ''):
                return False
        n = peel(kids(n)[0])
    return n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('id') in locs


def effects(n, locs):
    """(what, callee) for each effect in the tree that is not on a variable in locs; callee is set for calls"""
    for x in walk(n):
        k = x.get('kind')
        if k == 'BinaryOperator' and x.get('opcode') == '=' or k == 'CompoundAssignOperator':
            if not lvalue_local(kids(x)[0], locs):
                yield 'an assignment', None
        elif k == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
            if not lvalue_local(kids(x)[0], locs):
                yield 'a ' + x['opcode'], None
        elif k == 'CallExpr':
            f = callee(x)
            if f:
                yield 'a call of ' + f, f


def summarise(args):
    rel, path, flags = args
    p = frontend.run([frontend.CLANG, '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + list(flags) + [path])
    if p.returncode:
        return rel, None, [], p.stderr[:1500]
    tu = json.loads(p.stdout)
    fns, found = {}, []
    for d in kids(tu):
        if d.get('kind') != 'FunctionDecl' or not any(k.get('kind') == 'CompoundStmt' for k in kids(d)):
            continue
        locs = {x['id'] for x in walk(d) if x.get('kind') in ('ParmVarDecl', 'VarDecl') and x.get('storageClass') not in ('static', 'extern')}
        # what the function does beyond reporting its own failed assertions
        fns[d['name']] = sorted(set(effects(d, locs)), key=str)
        nth = 0
        for x in walk(d):
            k = x.get('kind')
            if k not in ('ConditionalOperator', 'IfStmt'):
                continue
            parts = kids(x)
            cond, branches = parts[0], parts[1:]
            if not any(y.get('kind') == 'CallExpr' and callee(y) in REPORTERS for b in branches for y in tops(b)):
                continue
            nth += 1
            # within the condition nothing may be written at all
            inner = {y['id'] for y in walk(cond) if y.get('kind') == 'VarDecl'}
            found.append((d['name'], nth, list(effects(cond, inner))))
    return rel, fns, found, ''


def tops(b):
    """the calls made directly by a branch (not those below another decision)"""
    st = [b]
    while st:
        n = st.pop()
        yield n
        if n.get('kind') in ('ConditionalOperator', 'IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt', 'FunctionDecl') and n is not b:
            continue
        st.extend(kids(n))


def run(ctx):
    """conditions analysed, effects found"""
    us = [(rel, os.path.join(frontend.REPO, rel), list(flags) + ['-UNDEBUG']) for rel, flags in frontend.lib_units()]
    with ProcessPoolExecutor(8) as ex:
        res = list(ex.map(summarise, us))
    fns = {}
    for rel, f, found, err in res:
        if f is None:
            ctx.report('assert', '%s does not compile' % rel, rel, 'with assertions kept the unit does not compile: ' + err.strip().split('\n')[0], root=rel)
        else:
            fns.update(f)
    impure = {}

    def does(name, seen):
        """an effect of calling name, or None"""
        if name in IMPURE:
            return 'calls ' + name
        if name not in fns or name in seen or name in REPORTERS:
            return None
        if name not in impure:
            r = None
            for what, c in fns[name]:
                r = what + ' in ' + name if c is None else does(c, seen | {name})
                if r:
                    break
            impure[name] = r
        return impure[name]
    n, done = 0, set()
    for rel, f, found, err in res:
        for fn, nth, effs in found:
            if (fn, nth) in done:
                continue
            done.add((fn, nth))
            n += 1
            for what, c in effs:
                r = what if c is None else does(c, frozenset())
                if r:
                    ctx.report('assert', 'condition in %s' % fn, rel, 'assertion %d of %s does not only observe: %s (%s)' % (nth, fn, what, r), root=fn)
    ctx.coverage['assertion_conditions'] = n
    ctx.coverage['units_compiled_with_assertions'] = len([1 for r in res if r[1] is not None])
    return all(r[1] is not None for r in res)
