"""Library-wide safety rules evaluated by the abstract interpreter on every function."""
from . import terms as t
from .engine import Checker, NULL, InitName
from .facts import Z, zadd, zscale
from .ir import Instr


def reachable(eng, st, roots):
    """object bases reachable from the given values and from memory that outlives the analysis root"""
    seen = set()
    work = []

    def addv(v):
        if isinstance(v, tuple):
            for x in v[1] if v[0] == 'agg' else ():
                addv(x)
            return
        if not isinstance(v, t.Lin):
            return
        v = eng.canon(st, v)
        for a in deep_atoms(v):
            if a not in seen:
                seen.add(a)
                work.append(a)
    for r in roots:
        addv(r)
    for b, o in st.mem.items():
        if o.kind in ('sym', 'global', 'volatile', 'varargs'):
            if b not in seen:
                seen.add(b)
                work.append(b)
    for b, r in st.res.items():
        if r[0] == 'escaped' and b not in seen:
            seen.add(b)
            work.append(b)
    while work:
        a = work.pop()
        o = st.mem.get(a)
        if o is not None:
            for off, (v, n) in o.cells.items():
                addv(v)
    return seen


_deep = {}


def deep_atoms(v):
    r = _deep.get(v)
    if r is None:
        acc = set()
        todo = [v]
        while todo:
            x = todo.pop()
            for a, k in x.ts:
                if a in acc:
                    continue
                acc.add(a)
                for q in a.args:
                    if isinstance(q, t.Lin):
                        todo.append(q)
        r = _deep[v] = acc
    return r


def chain_key(st, ins):
    return '>'.join(f.func.name for f in st.frames)


class Leak(Checker):
    rule = 'leak'

    def check(self, st, roots, where, key_extra=''):
        live = [b for b, r in st.res.items() if r[0] == 'live']
        if not live:
            return
        seen = reachable(self.eng, st, roots)
        for b in live:
            if b in seen:
                continue
            if self.eng.truth(st, t.icmp('eq', self.eng.canon(st, t.of(b)), t.const(b.w, 0))) is True and b.w == 64:
                continue
            r = st.res[b]
            self.eng.report('leak', '%s acquired by %s in %s' % (r[1], r[3], r[4]), r[2],
                            '%s acquired at %s is neither released nor reachable when %s returns (%s)' % (
                                r[1], r[2], self.eng.root.name, where), st)

    def on_root_return(self, st, ins, v):
        self.check(st, [v] if v is not None else [], ins.where)

    def on_back_edge(self, st, hdr, frm):
        live = [b for b, r in st.res.items() if r[0] == 'live']
        if live:
            roots = []
            for f in st.frames:
                roots.extend(x for x in f.env.values())
            self.check(st, roots, 'loop iteration')


class Freed(Checker):
    """use after free, double free, free of something that was not acquired"""

    def status(self, st, addr):
        b, off = self.eng.split(st, addr)
        if b is None:
            return None, None, None
        return st.res.get(b), b, off

    def on_access(self, st, addr, n, rw, ins):
        r, b, off = self.status(st, addr)
        if r is not None and r[0] == 'freed':
            self.eng.report('use-after-free', '%s after release (%s acquired by %s)' % (chain_key(st, ins), r[1], r[3]), ins.where,
                            'memory released earlier on this path is %s at %s' % ('read' if rw == 'r' else 'written', ins.where), st)

    def on_free(self, st, ins, addr, kind):
        r, b, off = self.status(st, addr)
        if b is None:
            return
        if r is not None and r[0] == 'freed':
            self.eng.report('double-free', '%s releases twice (%s acquired by %s)' % (chain_key(st, ins), r[1], r[3]), ins.where,
                            'released again at %s' % ins.where, st)
            return
        o = st.mem.get(b)
        if o is not None and o.kind in ('alloca', 'global', 'func') and kind != 'fd':
            self.eng.report('bad-free', '%s releases %s storage %s' % (chain_key(st, ins), o.kind, o.name), ins.where,
                            'release of storage that was never acquired at %s' % ins.where, st)
        elif o is not None and o.kind == 'heap' and kind == 'heap' and off.is_const and off.c != 0:
            self.eng.report('bad-free', '%s releases an interior pointer' % chain_key(st, ins), ins.where,
                            'release of an interior pointer (offset %d) at %s' % (off.sc, ins.where), st)


class NullDeref(Checker):
    def on_access(self, st, addr, n, rw, ins):
        a = self.eng.canon(st, addr)
        if a.is_const and a.c < 1 << 16 and not (n.is_const and n.c == 0):
            nm = ''
            self.eng.report('null-deref', '%s in %s' % (self.desc(st, ins), st.frames[-1].func.name), ins.where,
                            'pointer known to be NULL on this path is %s at %s' % ('read' if rw == 'r' else 'written', ins.where), st)

    def desc(self, st, ins):
        if ins.op == 'call':
            return 'argument of %s' % (ins.extra.name if getattr(ins.extra, 'k', '') == 'func' else 'call')
        return ins.op


class Bounds(Checker):
    """accesses to storage of statically known size stay inside it"""
    def __init__(self):
        self.proved = 0
        self.unproved = {}

    def on_unbounded(self, st, ins, name, args):
        """text without a known bound is written to storage of a fixed size"""
        eng = self.eng
        b, off = eng.split(st, args[0])
        o = st.mem.get(b) if b is not None else None
        if o is None or eng.mute or o.kind not in ('alloca', 'global') or o.size is None or not o.size.is_const:
            return
        eng.report('bounds', '%s writes unbounded text to %s %s' % (st.frames[-1].func.name, o.kind, norm(o.name)), ins.where,
                   '%s writes text of any length to %s (size %s)' % (name, o.name, o.size), st)

    def on_access(self, st, addr, n, rw, ins):
        eng = self.eng
        b, off = eng.split(st, addr)
        if b is None:
            return
        o = st.mem.get(b)
        if o is None:
            o = eng.obj(st, b)
        if o.size is None or o.kind in ('sym', 'func', 'volatile'):
            return
        n = eng.canon(st, n)
        f = st.facts
        if n.is_const and off.is_const and o.size.is_const:
            ok_lo = off.sc >= 0
            ok_hi = off.sc + n.c <= o.size.c
            definite = True
        else:
            ok_lo = ok_hi = None
            rng = None
            g = ins.ops[1] if ins.op == 'store' else ins.ops[0] if ins.op == 'load' else None
            z = f.zs(off)
            ok_lo = f.entails(zscale(z, -1))
            zn = f.zu(n)
            e = zadd(zadd(z, zn), f.zs(o.size), -1)
            ok_hi = f.entails(e)
            definite = False
        if eng.mute:
            return
        if ok_lo and ok_hi:
            self.proved += 1
            return
        if not definite:
            # an overrun is reported when the offset range is known and leaves the object; an offset for which
            # no range is known is counted as undecided
            lo_x = hi_x = None
            loose = any(a.kind == 'strlen' or lazy_load(a) for a in deep_atoms(off) | deep_atoms(n))
            if not ok_hi and not loose and (o.size.is_const or f.entails(zadd(Z({}, 1), e, -1))):
                hi_x = excess(f, e)
            if not ok_lo and not (loose and any(lazy_load(a) for a in deep_atoms(off))):
                lo_x = excess(f, zscale(z, -1))
            if (hi_x is None) and (lo_x is None):
                self.unproved[(st.frames[-1].func.name, rw, norm(o.name))] = self.unproved.get((st.frames[-1].func.name, rw, norm(o.name)), 0) + 1
                return
        key = '%s %s of %s %s' % (st.frames[-1].func.name, 'write' if rw == 'w' else 'read', o.kind, norm(o.name))
        eng.report('bounds', key, ins.where, '%s of %s bytes at offset %s of %s (size %s)%s' % (
            'write' if rw == 'w' else 'read', n, off, o.name, o.size, ' [definite]' if definite else ''), st)


def lazy_load(a):
    """contents of memory that existed before the analysed call: invariants on it are unknown"""
    return a.kind == 'sym' and isinstance(a.args[0], InitName)


def excess(f, e, cap=1 << 12):
    """least M <= cap with facts |= e <= M, or None when no such range is known"""
    e2 = e.copy() if hasattr(e, 'copy') else Z(dict(e.d), e.c)
    e2.c -= cap
    if not f.entails(e2):
        return None
    lo, hi = 1, cap
    while lo < hi:
        m = (lo + hi) // 2
        q = Z(dict(e.d), e.c - m)
        if f.entails(q):
            hi = m
        else:
            lo = m + 1
    return lo


def norm(s):
    return s.split('#')[0]


COPIES = frozenset('memcpy memmove realloc __memcpy_chk __memmove_chk bcopy mempcpy'.split())


class Undef(Checker):
    def on_access(self, st, addr, n, rw, ins):
        # what a library routine reads (a string, a buffer); a mere copy is judged where the copy is read
        if rw != 'r' or ins.op not in ('call', 'invoke') or getattr(ins.extra, 'k', '') != 'func' or ins.extra.name in COPIES \
                or ins.extra.name.startswith('llvm.') or not n.is_const or n.c == 0:
            return
        eng = self.eng
        base, off = eng.split(st, addr)
        if base is None:
            return
        o = st.mem.get(base)
        if o is None or o.init != 'undef':
            return
        if any(eng.may_overlap(st, base, k, c[1], off, n) for k, c in o.cells.items()) \
                or any(eng.may_overlap(st, base, off, n.c, ro, rl) for ro, rl, _ in o.clobs):
            return
        self.on_undef_read(st, base, off, n, ins)

    def on_undef_read(self, st, base, off, n, ins):
        o = st.mem.get(base)
        self.eng.report('uninitialised', '%s reads uninitialised %s %s' % (st.frames[-1].func.name, o.kind, norm(o.name)), ins.where,
                        'read of bytes never written (offset %s) at %s' % (off, ins.where), st)


class Asserted(Checker):
    """in the build that keeps its assertions, the uses a lemma makes fail none"""
    def on_call(self, st, ins, name, args):
        if name in ('_zt_log_assertion', '__assert_fail'):
            fn = st.frames[-1].func
            # running out of memory is what these are for
            if not (fn.file or '').endswith('zt_malloc.c') and not fn.module.name.startswith('client:'):
                self.eng.report('assert', 'valid use in %s' % fn.name, ins.where, 'a valid use (%s) fails an assertion of %s' % (self.eng.root.name, fn.name), st)
        return None


class VaPairs(Checker):
    def on_intrinsic(self, st, ins, name, args):
        if not args or not isinstance(args[0], t.Lin):
            return
        b, off = self.eng.split(st, args[0])
        if b is None:
            return
        key = ('va', b, off)
        if name in ('va_start', 'va_copy'):
            if st.ts.get(key):
                self.eng.report('va_list', '%s starts an argument list twice' % st.frames[-1].func.name, ins.where,
                                'va_start/va_copy on a list that is still open at %s' % ins.where, st)
            st.ts = dict(st.ts)
            st.ts[key] = len(st.frames)
        elif name.startswith('llvm.va_end'):
            st.ts = dict(st.ts)
            st.ts.pop(key, None)

    def closing(self, st, ins, depth):
        for k, d in list(st.ts.items()):
            if isinstance(k, tuple) and k[0] == 'va' and d == depth:
                self.eng.report('va_list', '%s returns with an open argument list' % st.frames[-1].func.name, ins.where,
                                'va_start/va_copy without va_end before the return at %s' % ins.where, st)
                st.ts = dict(st.ts)
                st.ts.pop(k, None)

    def leave(self, st, f, v, ins):
        self.closing(st, ins, len(st.frames))

    def on_root_return(self, st, ins, v):
        self.closing(st, ins, 1)


def const_params(f):
    """names of the parameters of f declared as pointer to const"""
    di = f.module.di
    cache = getattr(di, '_cp', None)
    if cache is None:
        cache = di._cp = {}
        subs = {n: di.attr(b, 'name') for n, (k, b) in di.nodes.items() if k == 'DISubprogram'}
        for n, (k, b) in di.nodes.items():
            if k != 'DILocalVariable' or not di.attr(b, 'arg'):
                continue
            fn = subs.get(di.ref(b, 'scope'))
            if fn is None:
                continue
            d = di.type_desc(di.ref(b, 'type'))
            if d[0] == 'ptr' and d[2] is not None and d[2][1]:
                cache.setdefault(fn, set()).add(di.attr(b, 'name'))
    return cache.get(f.name, set())


class ConstArgs(Checker):
    """what a function receives through a pointer to const is not written through it"""
    def __init__(self):
        self.params = 0
        self.writes = 0
        self.const = {}

    def enter(self, st, f, args):
        if len(st.frames) != 1:
            return
        cp = const_params(f)
        for a, v in zip(f.args, args):
            if a.name in cp and isinstance(v, t.Lin) and len(v.ts) == 1:
                self.const[v.ts[0][0]] = a.name
        self.params = len(self.const)

    def on_access(self, st, addr, n, rw, ins):
        if rw != 'w' or not self.const:
            return
        self.writes += 1
        a = self.eng.canon(st, n)
        if a.is_const and a.c == 0:
            return
        b, off = self.eng.split(st, addr)
        nm = self.const.get(b)
        if nm is not None:
            self.eng.report('const', '%s writes through its parameter %s' % (self.eng.root.name, nm), ins.where,
                            'write at %s to what %s received through the pointer to const "%s"' % (ins.where, self.eng.root.name, nm), st)

    def result(self):
        return dict(params=self.params, writes=self.writes)


class Formats(Checker):
    """The format of a printf-family call is a literal, a constant table entry, the format the caller of the library
    passed to a variadic entry point, or text composed only of these; text copied in from anywhere else (arguments,
    caller data, names obtained from the system) taints the composed text."""
    COPY = {'strcpy': (0, 1), 'strcat': (0, 1), 'strncpy': (0, 1), 'strncat': (0, 1), 'memcpy': (0, 1), 'memmove': (0, 1), 'stpcpy': (0, 1),
            'strlcpy': (0, 1), 'strlcat': (0, 1)}
    SPR = {'sprintf': 2, 'snprintf': 3}
    CLEAN_OUT = ('strftime', 'memset', 'vsnprintf', 'vsprintf', 'sprintf', 'snprintf', 'realloc', 'calloc', 'malloc', 'free') + tuple(COPY)

    def __init__(self):
        self.calls = 0
        self.ok = set()

    def enter(self, st, f, args):
        if len(st.frames) == 1:
            self.ok = set()
            fs = list(zip(f.args, args))
            if not f.vararg:
                if len(fs) < 2 or fs[-1][0].ty.kind != 'ptr' or (fs[-1][0].name or '') not in ('ap', 'args', 'va', 'argp', 'arg', 'list', 'val'):
                    fs = []
                else:
                    fs = fs[:-1]
            for a, v in fs[::-1]:
                if a.ty.kind == 'ptr' and isinstance(v, t.Lin) and len(v.ts) == 1:
                    self.ok.add(v.ts[0][0])
                    break

    def origin(self, st, p):
        """None if the text at p may serve as format, else a description"""
        eng = self.eng
        b, off = eng.split(st, p)
        if b is None:
            return None
        tn = st.ts.get(('fmt', b))
        if tn:
            return tn
        if b in self.ok:
            return None
        o = st.mem.get(b)
        if o is None:
            o = eng.obj(st, b)
        if o.kind == 'global':
            if o.glob is not None and (o.glob.const or eng.is_ro(o.glob)):
                return None
            return 'the writable object %s' % norm(o.name)
        if o.kind in ('alloca', 'heap'):
            return None
        if b.kind == 'sym' and isinstance(b.args[0], InitName):
            if b.args[0].base.kind == 'base' and b.args[0].base.info and b.args[0].base.info[0] == 'global':
                return None             # entry of a table of the library
            return 'text found in caller data (%s)' % norm(str(b))
        return 'text of unknown origin (%s)' % norm(str(b))

    def taint(self, st, p, why):
        b, off = self.eng.split(st, p)
        if b is not None:
            st.ts = dict(st.ts)
            st.ts[('fmt', b)] = why

    def on_call(self, st, ins, name, args):
        nm = name
        if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
            nm = 'memcpy'
        if nm.startswith('__') and nm.endswith('_chk'):
            nm = nm[2:-4]
        if nm in self.COPY:
            w = self.origin(st, args[1])
            if w:
                self.taint(st, args[0], w)
        elif nm in self.SPR:
            for o, v in list(zip(ins.ops, args))[self.SPR[nm]:]:
                if o.ty is not None and o.ty.kind == 'ptr':
                    w = self.origin(st, v)
                    if w:
                        self.taint(st, args[0], w)
                        break
        elif nm in ('vsnprintf', 'vsprintf'):
            self.taint(st, args[0], 'text already formatted')
        elif nm in ('asprintf', 'vasprintf'):
            w = 'text already formatted' if nm == 'vasprintf' else None
            for o, v in list(zip(ins.ops, args))[2:]:
                if w is None and o.ty is not None and o.ty.kind == 'ptr':
                    w = self.origin(st, v)
            st.ts = dict(st.ts)
            st.ts[('fmtre',)] = (ins.where, w)
        return None

    def on_access(self, st, addr, n, rw, ins):
        if rw != 'w' or ins.op != 'call':
            return
        c = ins.extra
        nm = getattr(c, 'name', '') or ''
        if nm.startswith('llvm.') or nm in self.CLEAN_OUT or self.eng.prog.resolve(st.frames[-1].func.module, nm) is not None:
            return
        self.taint(st, addr, 'text produced by %s' % nm)

    def on_realloc(self, st, ins, p, n):
        b, off = self.eng.split(st, p)
        st.ts = dict(st.ts)
        st.ts[('fmtre',)] = (ins.where, st.ts.get(('fmt', b)) if b is not None else None)

    def on_alloc(self, st, ins, base, kind):
        w = st.ts.get(('fmtre',))
        if ('fmtre',) in st.ts:
            st.ts = dict(st.ts)
            del st.ts[('fmtre',)]
            # a failed call leaves its note behind: it says nothing about a later block
            if w[0] == ins.where and w[1]:
                st.ts[('fmt', base)] = w[1]

    def on_format(self, st, ins, name, fmt):
        self.calls += 1
        w = self.origin(st, fmt)
        if w:
            self.eng.report('format', '%s passes %s as format to %s' % (st.frames[-1].func.name, w, name), ins.where,
                            'the format argument of %s at %s contains %s' % (name, ins.where, w), st)

    def result(self):
        return dict(calls=self.calls)


def _bounds_result(self):
    return dict(proved=self.proved, unproved=self.unproved)


Bounds.result = _bounds_result


# Operations documented to act on process-wide state: everything else keeps none.
STATEFUL = {
    'zt_atexit.c', 'zt_log.c', 'zt_mem.c', 'zt_progname.c',
}
STATEFUL_OPS = STATEFUL - {'zt_mem.c'}
STATEFUL_FNS = {
    'zt_mem_pool_init', 'zt_mem_pool_destroy', 'zt_mem_pool_group_init', 'zt_mem_pool_group_destroy',
    'zt_fmt_register', 'zt_time_calibrate', 'zt_time', 'zt_threads_set_lock_callbacks', 'zt_threads_set_cond_callbacks',
    'zt_threads_set_cntrl_callbacks', 'zt_threadpool_set_callbacks', 'zt_threads_use_pthreads', 'zt_threadpool_disable_iput_loop', 'zt_threadpool_disable_oput_loop',
}


class GlobalWrites(Checker):
    """static storage is written only by the operations that manage process-wide state"""
    def __init__(self):
        self.writes = 0
        self.all = set()

    def on_access(self, st, addr, n, rw, ins):
        if rw != 'w':
            return
        self.writes += 1
        b, off = self.eng.split(st, addr)
        if b is None or b.kind != 'base' or not b.info or b.info[0] != 'global':
            return
        root = self.eng.root
        g = b.info[1]
        if g is not None and g.tls:
            return
        nm = g.name if g is not None else str(b)
        self.all.add((root.name, nm))
        if any(f.func.name in STATEFUL_FNS or not f.func.internal and f.func.file.split('/')[-1] in STATEFUL_OPS for f in st.frames):
            return
        if root.internal and root.file.split('/')[-1] in STATEFUL:      # callbacks of such operations
            return
        if g is None or g.isdecl:
            return
        self.eng.report('static-state', '%s writes the static object %s' % (root.name, nm), ins.where,
                        'write at %s to the process-wide object %s during a call of %s' % (ins.where, nm, root.name), st)

    def result(self):
        return dict(writes=self.writes, all=self.all)


class Progress(Checker):
    """a path once round a loop that leaves everything the loop can see as it was is taken for ever"""
    def __init__(self):
        self.loops = set()

    def on_loop_header(self, st, hdr):
        self.loops.add((hdr.func.name, hdr.idx))

    def on_no_progress(self, st, hdr, frm):
        eng = self.eng
        where = next((i.where for b in (hdr, frm) for i in b.instrs if getattr(i, 'where', None)), '')
        eng.report('no-progress', 'loop in %s' % hdr.func.name, where, 'a path once round the loop of %s at %s changes nothing it depends on, so it is never left' % (hdr.func.name, where), st)

    def result(self):
        return dict(loops=len(self.loops))
