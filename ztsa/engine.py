"""Path-sensitive abstract interpreter over LLVM IR.

Abstract domain: symbolic value terms (terms.py) x linear-inequality facts
(facts.py) x a region memory model with lazy initial contents x typestates of
acquired resources.  Calls to functions with a body are analysed in context
(inlined); loops are widened: loop-carried variables become either affine
functions of an iteration counter or unconstrained symbols, with inductive
inequalities discovered Houdini style; no loop is unrolled and nothing is
executed.  States that agree on live values, memory and typestates are joined
at control-flow merges (property simulation).
"""
import itertools
import struct
from fractions import Fraction
from . import terms as t
from . import cfg as cfgm
from .facts import Facts, Z, zadd, zscale
from .ir import Instr, Value


LOG_FILES = ('zt_log.c', 'log_file.c', 'log_private.c', 'log_stderr.c', 'log_syslog.c', 'zt_assert.c')


class Budget(Exception):
    pass


BITKINDS = {'lshr', 'and', 'or', 'xor', 'trunc', 'zext', 'sext', 'lut', 'ashr'}


class Obj:
    __slots__ = ('kind', 'size', 'init', 'cells', 'clobs', 'ver', 'name', 'glob', 'where', 'stamp', 'fpc')

    def __init__(self, kind, size=None, init='unk', name='', glob=None, where=None):
        self.kind, self.size, self.init, self.name, self.glob = kind, size, init, name, glob
        self.cells = {}
        self.clobs = ()
        self.ver = 0
        self.where = where
        self.stamp = 0
        self.fpc = False

    def copy(self):
        o = Obj(self.kind, self.size, self.init, self.name, self.glob, self.where)
        o.cells = dict(self.cells)
        o.clobs = self.clobs
        o.ver = self.ver
        o.stamp = self.stamp
        return o


class Frame:
    __slots__ = ('func', 'env', 'block', 'pc', 'prev', 'call', 'fid', 'allocas', 'varargs', 'args')

    def copy(self):
        f = Frame()
        f.func, f.block, f.pc, f.prev, f.call, f.fid = self.func, self.block, self.pc, self.prev, self.call, self.fid
        f.env = dict(self.env)
        f.allocas = list(self.allocas)
        f.varargs = self.varargs
        f.args = self.args
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'res', 'ts', 'uni', 'path', 'ret', 'log', 'cloc', 'cfp', 'cprio', 'nforks', 'ckey', 'nd')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = Facts()
        self.res = {}
        self.ts = {}
        self.uni = {}
        self.path = None
        self.ret = None
        self.log = None
        self.nd = 0           # calls so far whose outcome may differ from one time to the next
        self.cloc = self.cfp = self.cprio = self.ckey = None

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.res = dict(self.res)
        s.ts = dict(self.ts)
        s.uni = self.uni
        s.path = self.path
        s.ret = self.ret
        s.log = self.log
        s.nd = self.nd
        s.cloc = s.cfp = s.cprio = s.ckey = None
        return s

    @property
    def top(self):
        return self.frames[-1]

    def wobj(self, base):
        o = self.mem[base].copy()
        o.stamp += 1
        self.mem[base] = o
        return o

    def events(self):
        out = []
        l = self.log
        while l is not None:
            out.append(l[1])
            l = l[0]
        out.reverse()
        return out


NULL = t.const(64, 0)


class Undef:
    pass


def float_val(v):
    """the exact value of a floating-point constant"""
    a = v.atom if isinstance(v, t.Lin) else None
    if a is None or a.kind != 'fconst':
        return None
    x = a.args[0]
    try:
        return Fraction(x) if '/' in x else Fraction(float(x))
    except (ValueError, OverflowError):
        return None


def float_const(w, x):
    if w == 80:
        # kept only while exact in a 64 bit significand
        d = x.denominator
        if d & (d - 1) or x.numerator and abs(x.numerator).bit_length() - ((x.numerator & -x.numerator).bit_length() - 1) > 64:
            return None
        return t.of(t.atom(80, 'fconst', ('%d/%d' % (x.numerator, d),)))
    try:
        y = float(x)
    except OverflowError:
        return None
    if w == 32 and Fraction(struct.unpack('f', struct.pack('f', y))[0]) != x:
        return None
    return t.of(t.atom(w, 'fconst', (repr(y),)))


def fold_float(op, w, args):
    if op in ('uitofp', 'sitofp'):
        return float_const(w, Fraction(args[0].c if op == 'uitofp' else args[0].sc)) if args[0].is_const else None
    x = [float_val(a) for a in args]
    if any(a is None for a in x):
        return None
    if op in ('fptoui', 'fptosi'):
        n = int(x[0])
        return t.const(w, n) if -(1 << (w - 1)) <= n < 1 << w else None
    if op in ('fptrunc', 'fpext'):
        return float_const(w, x[0])
    if op == 'fdiv' and not x[1] or op in ('frem',):
        return None
    if any(a == 0 for a in x):
        return None              # signs of zeros
    r = {'fadd': lambda: x[0] + x[1], 'fsub': lambda: x[0] - x[1], 'fmul': lambda: x[0] * x[1], 'fdiv': lambda: x[0] / x[1],
         'fneg': lambda: -x[0]}[op]()
    return float_const(w, r)


def fcmp_const(pred, a, b):
    x, y = float_val(a), float_val(b)
    if x is None or y is None:
        return None
    n = int(str(pred)[1:])
    r = {1: x == y, 2: x > y, 3: x >= y, 4: x < y, 5: x <= y, 6: x != y}.get(n & 7 if n < 15 else 0)
    return None if r is None else t.const(1, int(r))


def leaves(ty, off):
    if ty.kind == 'struct':
        for e, o in zip(ty.elems, ty.offs):
            yield from leaves(e, off + o)
    elif ty.kind == 'array':
        for i in range(ty.count):
            yield from leaves(ty.elem, off + i * ty.elem.size)
    else:
        yield off, ty


def elookup(d, k):
    return d.get(k)


class Engine:
    def __init__(self, prog, checkers=(), max_steps=400000, alloc_fail=True, inline=None, models=None, max_depth=12, merge=True,
                 max_states=3000, coarse_after=6, peel=0, max_rec=0, pristine=False, stubs=True, errno_exact=False, boot=False, real_log=False, unroll=8):
        self.unroll = unroll
        self.prog = prog
        self.checkers = list(checkers)
        for c in self.checkers:
            c.eng = self
        self.max_steps = max_steps
        self.peel, self.max_rec, self.pristine = peel, max_rec, pristine
        self.stubs, self.errno_exact = stubs, errno_exact
        self.boot = boot                   # variables hold what the program starts with
        self.progress = any(type(c).on_no_progress is not Checker.on_no_progress for c in self.checkers)
        self.alloc_fail = alloc_fail
        self.inline_policy = inline or (lambda f: True)
        self.mute = 0
        self.steps = 0
        self.max_depth = max_depth
        self.fid = itertools.count(1)
        self.reports = {}
        from . import libc
        self.user_models = dict(models or {})
        self.models = dict(self.user_models)
        self.libc = libc.MODELS
        self.libc_mod = libc
        self.log_stubs = {} if real_log else libc.LOG_STUBS
        self.merge_on = merge
        self.coarse_after = coarse_after
        self.offhint = {}
        self.nalloc = itertools.count(1)
        self.site_ids = {}
        self.lctx = 0
        self.max_states = max_states
        self.stats = {'functions': set(), 'paths': 0, 'calls': 0, 'derefs': 0, 'loops': 0}
        self.roconst = {}
        self.root = None

    # ------------------------------------------------------------------
    def report(self, rule, key, where, msg, st=None):
        """key: stable identification of the construct (no line numbers)"""
        if self.mute:
            return
        k = (rule, key)
        if k not in self.reports:
            self.reports[k] = dict(rule=rule, key=key, where=where, msg=msg, root=self.root.name if self.root else '',
                                   path=self.path_of(st) if st else [])

    def path_of(self, st):
        out = []
        p = st.path
        while p is not None and len(out) < 40:
            out.append(p[1])
            p = p[0]
        out.reverse()
        stack = ['%s@%s' % (f.func.name, f.call.where if f.call else '') for f in st.frames[1:]]
        return out + (['in ' + ' > '.join(stack)] if stack else [])

    def emit(self, st, *ev):
        st.log = (st.log, ev)

    # ------------------------------------------------------------------
    # entry
    def new_state(self):
        return State()

    def run_function(self, f, args=None, setup=None, state=None):
        """abstractly interpret f from an arbitrary caller; returns final states (st.ret = value)"""
        self.root = f
        st = state or State()
        self.rng_cache = {}
        self.models = dict(self.user_models)
        if self.stubs and not (f.file or '').endswith('zt_mem.c'):
            for k, v in self.libc_mod.POOL_STUBS.items():
                self.models.setdefault(k, v)
        if not (f.file or '').endswith(LOG_FILES):
            for k, v in self.log_stubs.items():
                self.models.setdefault(k, v)
        else:
            for k in ('_zt_log_assertion', '_zt_log_abort'):
                if k != f.name and k in self.log_stubs:
                    self.models.setdefault(k, self.log_stubs[k])
        if args is None:
            args = [self.param(st, f, a) for a in f.args]
        if setup:
            r = setup(self, st, f, args)
            if r is not None:
                args = r
        self.push_frame(st, f, args, None)
        done = []
        self.explore([st], done, None, None)
        self.stats['paths'] += len(done)
        return done

    def param(self, st, f, a):
        nm = a.name or 'arg%d' % a.v
        return self.typed_sym(st, a.ty, '%s:%s' % (f.name, nm))

    def typed_sym(self, st, ty, name):
        if ty.kind == 'ptr':
            s = t.sym(64, name, ptr=True)
            return s
        if ty.kind == 'struct' and ty.elems is not None:
            return ('agg', [self.typed_sym(st, e, '%s.%d' % (name, i)) for i, e in enumerate(ty.elems)])
        w = ty.width or ty.size * 8 or 64
        return t.sym(w, name, info='size' if w == 64 else None)

    def push_frame(self, st, f, args, call):
        fr = Frame()
        fr.func = f
        fr.env = {}
        for a, v in zip(f.args, args):
            fr.env[a] = v
        fr.varargs = list(args[len(f.args):])
        fr.args = list(args)
        fr.block = f.blocks[0]
        fr.pc = 0
        fr.prev = None
        fr.call = call
        fr.fid = next(self.fid)
        fr.allocas = []
        st.frames.append(fr)
        self.stats['functions'].add(f.name)
        for c in self.checkers:
            c.enter(st, f, args)

    # ------------------------------------------------------------------
    # exploration
    def explore(self, states, done, loop, depth):
        """process states until they return (done) or, if loop given, until they
        leave/re-enter the loop in frame index depth: returns (backs, exits)"""
        work = list(states)
        backs = []
        exits = []
        while work:
            if len(work) > self.max_states:
                raise Budget('too many states in %s' % self.root.name)
            st = self.pick(work)
            st = self.join_here(st, work)
            st.cloc = st.cfp = st.cprio = st.ckey = None
            self.step_block(st, work, done, loop, depth, backs, exits)
        return backs, exits

    def prio(self, st):
        return tuple((cfgm.analyze(f.func).idx[f.block], f.pc) for f in st.frames)

    def order(self, a):
        return a

    def pick(self, work):
        if len(work) == 1:
            return work.pop()
        # deepest frame first, then lowest RPO
        best = 0
        bk = None
        for i, s in enumerate(work):
            k = s.cprio
            if k is None:
                k = s.cprio = (-len(s.frames), self.prio(s))
            if bk is None or k < bk:
                bk, best = k, i
        return work.pop(best)

    def loc(self, st):
        if st.cloc is None:
            st.cloc = tuple((id(f.func), f.block.idx, f.pc, id(f.call)) for f in st.frames)
        return st.cloc

    def fp(self, st):
        if st.cfp is None:
            st.cfp = self.fingerprint(st)
        return st.cfp

    def join_here(self, st, work):
        if not self.merge_on or not work:
            return st
        l = self.loc(st)
        same = [s for s in work if self.loc(s) == l]
        if not same:
            return st
        k = self.fp(st)
        for s in same:
            if self.fp(s) == k:
                work.remove(s)
                st = self.join(st, s)
        if self.coarse_after is not None and len(same) >= self.coarse_after:
            same = [s for s in work if self.loc(s) == l]
            ck = self.coarse_key(st)
            for s in same:
                if self.coarse_key(s) == ck:
                    work.remove(s)
                    st = self.coarse_join(st, s)
        return st

    def tracked(self, st, v):
        """does the value name an object whose identity must not be lost by a coarse join?"""
        if isinstance(v, tuple):
            return True
        for a, k in v.ts:
            if a.kind == 'base' or a in st.res:
                return True
        return False

    def coarse_key(self, st):
        if st.ckey is None:
            st.ckey = self._coarse_key(st)
        return st.ckey

    def _coarse_key(self, st):
        env = []
        for i, f in enumerate(st.frames):
            for v, x in self.live_vals(f):
                if self.tracked(st, x):
                    env.append((i, id(v), x if isinstance(x, t.Lin) else repr(x)))
        mem = []
        for b, o in st.mem.items():
            for off, (v, n) in o.cells.items():
                if self.tracked(st, v):
                    mem.append((b.id, t._lkey(off), n, v if isinstance(v, t.Lin) else repr(v)))
        mem.sort(key=lambda q: q[:3])
        res = tuple(sorted(((b.id, str(v)) for b, v in st.res.items())))
        ts = tuple(sorted((str(k), str(v)) for k, v in st.ts.items()))
        uni = tuple(sorted((a.id, repr(v)) for a, v in st.uni.items() if a in st.res))
        return (tuple(env), tuple(mem), res, ts, uni, self.key_facts(st))

    def live_vals(self, fr):
        c = cfgm.analyze(fr.func)
        live = set(c.liveout[fr.block])
        for i in fr.block.instrs[fr.pc:]:
            for o in i.ops:
                if isinstance(o, Instr) or o.k == 'arg':
                    live.add(o)
            if i.op == 'call' and (isinstance(i.extra, Instr) or i.extra.k == 'arg'):
                live.add(i.extra)
        if fr.call is not None and False:
            pass
        out = [(v, fr.env[v]) for v in live if fr.env.get(v) is not None]
        out.sort(key=lambda q: id(q[0]))
        return out

    def phi_value(self, a, b, va, vb, f, name):
        """fresh symbol standing for va (in state a) or vb (in state b)"""
        if not isinstance(va, t.Lin) or not isinstance(vb, t.Lin) or va.w != vb.w:
            return t.fresh(va.w if isinstance(va, t.Lin) else 64, name)
        ptr = va.w == 64 and any(x.ptr for x, k in va.ts + vb.ts)
        s = t.fresh(va.w, name, ptr=ptr)
        if ptr:
            za = a.facts.bool_value(t.icmp('eq', va, t.const(64, 0)))
            zb = b.facts.bool_value(t.icmp('eq', vb, t.const(64, 0)))
            if za is False and zb is False:
                f.assume(t.icmp('eq', s, t.const(64, 0)), False)
        elif va.w > 1:
            for sg in ('s', 'u'):
                ea, eb = (a.facts.zs(va), b.facts.zs(vb)) if sg == 's' else (a.facts.zu(va), b.facts.zu(vb))
                la, lb = a.facts.ilower(ea), b.facts.ilower(eb)
                ha, hb = a.facts.iupper(ea), b.facts.iupper(eb)
                es = f.zs(s) if sg == 's' else f.zu(s)
                l, h = min(la, lb), max(ha, hb)
                if l > f.ilower(es):
                    f.add_ineq(zadd(Z({}, l), es, -1))
                if h < f.iupper(es):
                    f.add_ineq(zadd(es, Z({}, h), -1))
        return s

    def coarse_join(self, a, b):
        memo = {}

        def jv(va, vb, name):
            if va is vb:
                return va
            k = (va if isinstance(va, t.Lin) else repr(va), vb if isinstance(vb, t.Lin) else repr(vb))
            r = memo.get(k)
            if r is None:
                r = memo[k] = self.phi_value(a, b, va, vb, newf, name)
            return r
        fa, fb = a.facts.copy(), b.facts.copy()
        a0, b0 = a.fork(), b.fork()
        newf = Facts()
        self.join_facts(a0, b0, newf)
        for fra, frb in zip(a.frames, b.frames):
            for v, x in self.live_vals(fra):
                y = frb.env.get(v)
                if y is None:
                    del fra.env[v]
                elif x is not y and (isinstance(x, t.Lin) or repr(x) != repr(y)):
                    fra.env[v] = jv(x, y, 'j')
        # aliases known on one side only are forgotten
        gone = [x for x, v in a.uni.items() if b.uni.get(x) is not v] + [x for x, v in b.uni.items() if a.uni.get(x) is not v]
        if gone:
            a.uni = {x: v for x, v in a.uni.items() if b.uni.get(x) is v}
            for x in set(gone):
                for s in (a, b):
                    if x in s.mem:
                        self.havoc_obj(s, x)
        for base in set(a.mem) | set(b.mem):
            oa, ob = a.mem.get(base), b.mem.get(base)
            if oa is ob:
                continue
            if oa is None:
                oa = self.blank_like(base, ob)
            if ob is None:
                ob = self.blank_like(base, oa)
            o = oa.copy()
            o.stamp += 1
            if oa.ver != ob.ver or oa.init != ob.init:
                o.cells = {}
                o.clobs = ()
                o.ver = next(self.nalloc)
                o.init = 'unk'
                a.mem[base] = o
                continue
            cells = {}
            for off in set(oa.cells) | set(ob.cells):
                ca, cb = oa.cells.get(off), ob.cells.get(off)
                if ca is None or cb is None:
                    one, oo = (ca, ob) if cb is None else (cb, oa)
                    if oo.init == 'unk' and not oo.clobs and not any(
                            self.may_overlap(a, base, k, oo.cells[k][1], off, t.const(64, one[1])) for k in oo.cells):
                        isv = self.init_sym(base, oo, off, one[1], None)
                        if isinstance(one[0], t.Lin) and any(q.ptr for q, _ in one[0].ts) and one[1] == 8 and isv.atom:
                            isv.atom.ptr = True
                        other = (isv, one[1])
                    elif oo.init == 'zero' and not oo.clobs and not oo.cells:
                        other = (t.const(8 * one[1], 0), one[1])
                    else:
                        continue
                    if cb is None:
                        cb = other
                    else:
                        ca = other
                if ca[1] != cb[1]:
                    continue
                cells[off] = (jv(ca[0], cb[0], 'jm'), ca[1])
            # cells forgotten by the join are unknown, not initial
            lost = [off for off in set(oa.cells) | set(ob.cells) if off not in cells]
            o.cells = cells
            cl = list(oa.clobs)
            for c in ob.clobs:
                if c not in cl:
                    cl.append(c)
            for off in lost:
                n = (oa.cells.get(off) or ob.cells.get(off))[1]
                cl.append((off, t.const(64, n), next(self.nalloc)))
            if len(cl) > 24:
                cl = [(t.const(64, -BIGOFF), t.const(64, 2 * BIGOFF), next(self.nalloc))]
            o.clobs = tuple(cl)
            a.mem[base] = o
        a.facts = newf
        a.cfp = None
        if a.log is not b.log:
            for c in self.checkers:
                c.on_join(a, b)
        return a

    def live_env(self, fr, top):
        c = cfgm.analyze(fr.func)
        b = fr.block
        out = []
        live = set(c.liveout[b])
        # anything used later in this block
        for i in b.instrs[fr.pc:]:
            for o in i.ops:
                if isinstance(o, Instr) or o.k == 'arg':
                    live.add(o)
            if i.op == 'call' and (isinstance(i.extra, Instr) or i.extra.k == 'arg'):
                live.add(i.extra)
        for v in live:
            x = fr.env.get(v)
            if x is not None:
                out.append((id(v), x if not isinstance(x, tuple) else repr(x)))
        out.sort(key=lambda q: q[0])
        return tuple(out)

    def fingerprint(self, st):
        env = tuple(self.live_env(f, i == len(st.frames) - 1) for i, f in enumerate(st.frames))
        mem = []
        for b, o in st.mem.items():
            c = o.fpc
            if c is False:
                c = o.fpc = self.obj_fp(b, o)
            if c is not None:
                mem.append(c)
        mem.sort(key=lambda q: q[0])
        res = tuple(sorted(((b.id, str(v)) for b, v in st.res.items())))
        ts = tuple(sorted((str(k), str(v)) for k, v in st.ts.items()))
        nul = ()
        return (env, tuple(mem), res, ts, tuple(sorted((a.id, repr(v)) for a, v in st.uni.items())), self.key_facts(st))

    def obj_fp(self, b, o):
        cells = []
        for off, (v, n) in o.cells.items():
            if o.init == 'unk' and isinstance(v, t.Lin) and v is self.init_sym_if(b, o, off, n):
                continue
            cells.append((t._lkey(off), n, v if isinstance(v, t.Lin) else repr(v)))
        cells.sort(key=lambda q: q[:2])
        if cells or o.clobs or o.ver:
            return (b.id, tuple(cells), o.ver)
        return None

    def key_facts(self, st):
        """facts that take part in the merge key: nullness of live resource handles, plus what
        checkers ask for"""
        out = []
        for b in st.res:
            if b.kind == 'sym':
                z = st.facts.bools.get(t.atom(1, 'eq', (t.of(b),)))
                out.append((b.id, z))
        for c in self.checkers:
            k = c.merge_key(st)
            if k is not None:
                out.append(k)
        return tuple(out)

    def join_facts(self, a, b, f):
        fa, fb = a.facts, b.facts
        f.bools = {k: v for k, v in fa.bools.items() if fb.bools.get(k) == v}

        def zkey(e):
            return (frozenset(((id(v[0]), v[1]), k) for v, k in e.d.items()))
        mb = {}
        for e in fb.ineqs:
            k = zkey(e)
            mb[k] = max(mb.get(k, -10**30), e.c)
        seen = set()
        for e in fa.ineqs:
            k = zkey(e)
            if (k, e.c) in seen:
                continue
            seen.add((k, e.c))
            if k in mb:
                f.ineqs.append(Z(e.d, min(e.c, mb[k])))
            elif len(fa.ineqs) < 60 and fb.entails(e):
                f.ineqs.append(e)
        ma = set(zkey(e) for e in fa.ineqs)
        for e in fb.ineqs:
            k = zkey(e)
            if k in ma or (k, e.c) in seen:
                continue
            seen.add((k, e.c))
            if len(fb.ineqs) < 60 and fa.entails(e):
                f.ineqs.append(e)
        nb = {(zkey(e), e.c) for e in fb.neqs}
        f.neqs = [e for e in fa.neqs if (zkey(e), e.c) in nb]
        return f

    def join(self, a, b):
        a.facts = self.join_facts(a, b, Facts())
        a.nd = max(a.nd, b.nd)
        # joining memory: only objects known on both sides are kept (lazy ones reappear)
        for base in list(a.mem):
            if base in b.mem:
                oa, ob = a.mem[base], b.mem[base]
                if len(ob.clobs) > len(oa.clobs):
                    a.mem[base] = ob
                elif oa.cells.keys() != ob.cells.keys():
                    o = oa.copy()
                    o.cells = dict(ob.cells)
                    o.cells.update(oa.cells)
                    a.mem[base] = o
        for base in b.mem:
            if base not in a.mem:
                a.mem[base] = b.mem[base]
        # keep the longer event log prefix only when equal
        if a.log is not b.log:
            for c in self.checkers:
                c.on_join(a, b)
        return a

    # ------------------------------------------------------------------
    def step_block(self, st, work, done, loop, depth, backs, exits):
        """run the top frame of st from its pc to the end of the block (or call/fork)"""
        while True:
            fr = st.frames[-1]
            b = fr.block
            if fr.pc >= len(b.instrs):
                raise Budget('fell off block')
            ins = b.instrs[fr.pc]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget('step budget exhausted in %s' % self.root.name)
            op = ins.op
            if op == 'br' or op == 'switch':
                self.branch(st, ins, work, done, loop, depth, backs, exits)
                return
            if op == 'ret':
                v = self.val(st, ins.ops[0]) if ins.ops else None
                self.do_ret(st, ins, v, work, done, loop, depth, exits)
                return
            if op == 'unreachable':
                return
            if op == 'call' or op == 'invoke':
                fr.pc += 1
                outs = self.call(st, ins)
                if outs is None:      # pushed a frame
                    st2 = st
                    work.append(st2)
                    return
                for s, v in outs:
                    if s.facts.dead:
                        continue
                    if v is not None:
                        s.frames[-1].env[ins] = v
                    elif ins.ty.kind != 'void':
                        s.frames[-1].env[ins] = self.fresh_val(ins.ty, 'ret')
                outs = [s for s, v in outs if not s.facts.dead]
                if len(outs) == 1 and outs[0] is st:
                    continue
                work.extend(outs)
                return
            if op == 'select':
                c = self.val(st, ins.ops[0])
                bv = self.truth(st, c)
                if bv is not None:
                    fr.env[ins] = self.val(st, ins.ops[1 if bv else 2])
                    fr.pc += 1
                    continue
                a1, a2 = self.val(st, ins.ops[1]), self.val(st, ins.ops[2])
                if a1 is a2:
                    fr.env[ins] = a1
                    fr.pc += 1
                    continue
                s2 = st.fork()
                fr.pc += 1
                s2.frames[-1].pc += 1
                fr.env[ins] = a1
                s2.frames[-1].env[ins] = a2
                if self.assume(s2, c, False, ins):
                    work.append(s2)
                if not self.assume(st, c, True, ins):
                    return
                continue
            outs = self.simple(st, ins)
            if outs is not None:
                work.extend(outs)
                return
            st.frames[-1].pc += 1
            if st.facts.dead:
                return

    def fresh_val(self, ty, name):
        if ty.kind == 'struct':
            return ('agg', [self.fresh_val(e, name) for e in ty.elems])
        if ty.kind == 'ptr':
            return t.fresh(64, name, ptr=True)
        w = ty.width or ty.size * 8 or 64
        return t.fresh(w, name)

    def truth(self, st, c):
        if not isinstance(c, t.Lin):
            return None
        b = st.facts.bool_value(c)
        if b is not None:
            return b
        if len(c.ts) == 1:
            x = c.ts[0][0]
            v = self.decide(st, x)
            if v is not None:
                return v ^ bool(c.c)
        return None

    def decide(self, st, x):
        f = st.facts
        if x.kind == 'eq':
            d = x.args[0]
            d2 = self.canon(st, d)
            if d2 is not d:
                if d2.is_const:
                    return d2.c == 0
                b = t.icmp('eq', d2, t.const(d2.w, 0))
                if b.is_const:
                    return bool(b.c)
                v = f.bool_value(b)
                if v is not None:
                    return v
                d = d2
            # distinct object bases never compare equal; a base is never null
            bases = [(a, k) for a, k in d.ts if a.kind == 'base']
            if bases and len(d.ts) == 1 and bases[0][1] == 1:
                if d.sc > -4096 and d.sc < 1 << 40:
                    return False
            if len(bases) == 2 and len(d.ts) == 2 and bases[0][0] is not bases[1][0]:
                if d.c == 0:
                    return False
                (a, k), (b, k2) = bases if bases[0][1] == 1 else bases[::-1]
                # equality would make the two objects overlap
                if k == 1 and k2 == (1 << 64) - 1 and -self.extent(st, b) < d.sc < self.extent(st, a):
                    return False
            if len(bases) == 1 and len(d.ts) == 2 and d.c == 0:
                # fresh object vs older symbol that existed before it: distinct
                other = [a for a, k in d.ts if a.kind != 'base'][0]
                if self.distinct(st, bases[0][0], other):
                    return False
            if not bases:
                r = self.lut_decide(st, d, lambda v: v == 0)
                if r is None and any(a.kind in BITKINDS for a, _ in d.ts):
                    r = t.bits_equal(d)
                return r
        elif x.kind in ('slt', 'ult'):
            a, b = x.args
            if b.is_const:
                return self.lut_decide(st, a, (lambda v: t.signed(a.w, v) < b.sc) if x.kind == 'slt' else (lambda v: v < b.c))
            if a.is_const:
                return self.lut_decide(st, b, (lambda v: a.sc < t.signed(b.w, v)) if x.kind == 'slt' else (lambda v: a.c < v))
        return None

    def lut_decide(self, st, l, p):
        """truth of a predicate of a table lookup, from the range the path gives the index"""
        lu = t.lut_of(l)
        if lu is None:
            return None
        u, vals = lu
        got = {p(v) for v in vals if v is not None}
        if len(got) == 1:
            return got.pop()
        f = st.facts
        e = f.zu(u)
        lo, hi = 0, len(vals) - 1
        from .facts import Z, zadd
        def ge(k):
            return f.entails(Z({v: -c for v, c in e.d.items()}, k - e.c))
        def le(k):
            return f.entails(Z(dict(e.d), e.c - k))
        a, b = lo, hi
        while a < b:
            m = (a + b + 1) // 2
            if ge(m):
                a = m
            else:
                b = m - 1
        lo = a
        a, b = lo, hi
        while a < b:
            m = (a + b) // 2
            if le(m):
                b = m
            else:
                a = m + 1
        hi = a
        got = set()
        for i in range(lo, hi + 1):
            if vals[i] is not None and f.bool_value(t.icmp('eq', u, t.const(u.w, i))) is not False:
                got.add(p(vals[i]))
                if len(got) > 1:
                    return None
        return got.pop() if got else None

    def extent(self, st, base):
        """bytes an object is known to span"""
        o = self.obj(st, base)
        if st.res.get(base, ('',))[0] == 'freed' or o.size is None or not o.size.is_const:
            return 1
        return max(o.size.c, 1)

    def distinct(self, st, base, other):
        """a locally created object (alloca / fresh heap) cannot equal a pointer value that was
        an input of the analysis root or initial memory content"""
        o = st.mem.get(base)
        if o is None or o.kind not in ('alloca', 'heap'):
            return False
        return other.kind == 'sym' and not ('#' in str(other.args[0]))

    def canon(self, st, l):
        if not st.uni or not isinstance(l, t.Lin):
            return l
        for _ in range(8):
            hit = False
            for x, k in l.ts:
                if x in st.uni:
                    hit = True
                    break
            if not hit:
                return l
            l = t.subst_atoms(l, lambda a: st.uni.get(a))
        return l

    def assume(self, st, c, truth, ins=None):
        if not isinstance(c, t.Lin):
            return True
        v = self.truth(st, c)
        if v is not None:
            if v != truth:
                st.facts.dead = True
                return False
            # decided by aliasing; still record
            return True
        ok = st.facts.assume(c, truth)
        if not ok:
            return False
        for x in st.facts.luts:
            # what was assumed of a table entry against what is now known of its index
            v = self.decide(st, x)
            if v is not None and v != st.facts.bools.get(x, v):
                st.facts.dead = True
                return False
        # pointer equality: unify
        if len(c.ts) == 1:
            x = c.ts[0][0]
            if x.kind == 'eq' and (truth ^ bool(c.c)):
                self.unify_eq(st, x.args[0])
        return not st.facts.dead

    def unify_eq(self, st, d):
        d = self.canon(st, d)
        if d.is_const:
            if d.c:
                st.facts.dead = True
            return
        if d.w != 64:
            # narrow equality with a constant: substitute the symbol
            if len(d.ts) == 1 and d.ts[0][1] == 1 and d.ts[0][0].kind == 'sym':
                st.uni = dict(st.uni)
                st.uni[d.ts[0][0]] = t.const(d.w, -d.c)
            return
        cand = [(a, k) for a, k in d.ts if a.kind == 'sym' and k in (1, (1 << 64) - 1)]
        # prefer eliminating pointer symbols that have no object yet
        if not cand:
            return
        cand.sort(key=lambda q: (not q[0].ptr, q[0] in st.res, -q[0].id))
        a, k = cand[0]
        rest = t.add(d, t.mk(64, 0, ((a, k),)), -1)
        val = t.neg(rest) if k == 1 else rest
        if a in t.atoms_of(val):
            return
        st.uni = dict(st.uni)
        st.uni[a] = val
        # merge objects
        o = st.mem.pop(a, None)
        if o is not None and o.cells:
            b, off = self.split(st, val)
            if b is not None:
                ob = self.obj(st, b)
                for co, (v, n) in o.cells.items():
                    no = t.add(co, off)
                    cur = ob.cells.get(no)
                    if cur is None:
                        ob = st.wobj(b)
                        ob.cells[no] = (v, n)
                    else:
                        v2 = cur[0]
                        if v2 is not v and isinstance(v, t.Lin) and isinstance(v2, t.Lin) and v.w == v2.w:
                            self.unify_eq(st, t.sub(v, v2))
        if a in st.res:
            b, off = self.split(st, val)
            if b is not None:
                st.res[b] = st.res.pop(a)
            else:
                st.res.pop(a)

    # ------------------------------------------------------------------
    def branch(self, st, ins, work, done, loop, depth, backs, exits):
        fr = st.frames[-1]
        b = fr.block
        if ins.op == 'br':
            if not ins.ops:
                self.goto(st, b.succs[0], work, done, loop, depth, backs, exits)
                return
            c = self.val(st, ins.ops[0])
            v = self.truth(st, c)
            if b.succs[0] is b.succs[1]:
                self.goto(st, b.succs[0], work, done, loop, depth, backs, exits)
                return
            if v is None:
                s2 = st.fork()
                if self.assume(s2, c, False, ins):
                    s2.path = (s2.path, '%s: condition false' % ins.where)
                    self.goto(s2, b.succs[1], work, done, loop, depth, backs, exits)
                if self.assume(st, c, True, ins):
                    st.path = (st.path, '%s: condition true' % ins.where)
                    self.goto(st, b.succs[0], work, done, loop, depth, backs, exits)
                return
            self.goto(st, b.succs[0 if v else 1], work, done, loop, depth, backs, exits)
            return
        # switch: successors [default, case targets...] in operand order
        x = self.val(st, ins.ops[0])
        x = self.canon(st, x)
        w = x.w
        dflt = b.succs[0]
        cases = list(zip(ins.extra, b.succs[1:]))
        if x.is_const:
            for cv, tb in cases:
                if cv == x.c:
                    self.goto(st, tb, work, done, loop, depth, backs, exits)
                    return
            self.goto(st, dflt, work, done, loop, depth, backs, exits)
            return
        for cv, tb in cases:
            s2 = st.fork()
            if self.assume(s2, t.icmp('eq', x, t.const(w, cv)), True, ins):
                s2.path = (s2.path, '%s: case %d' % (ins.where, cv))
                self.goto(s2, tb, work, done, loop, depth, backs, exits)
        ok = True
        for cv, tb in cases:
            if not self.assume(st, t.icmp('eq', x, t.const(w, cv)), False, ins):
                ok = False
                break
        if ok:
            st.path = (st.path, '%s: default case' % ins.where)
            self.goto(st, dflt, work, done, loop, depth, backs, exits)

    def goto(self, st, to, work, done, loop, depth, backs, exits):
        fr = st.frames[-1]
        frm = fr.block
        f = fr.func
        c = cfgm.analyze(f)
        # sub-exploration of a loop: classify edges of the loop's own frame
        if loop is not None and len(st.frames) == depth + 1:
            hdr, body = loop
            if to is hdr and frm in body:
                backs.append((st, frm))
                return
            if to not in body:
                exits.append(('edge', st, frm, to))
                return
        if to in c.loops and frm not in c.loops[to]:
            outs = self.do_loop(st, to, frm, done)
            for o in outs:
                self.deliver(o, work, done, loop, depth, backs, exits)
            return
        self.enter(st, frm, to)
        work.append(st)

    def deliver(self, o, work, done, loop, depth, backs, exits):
        """an exit of an inner loop: continue in the current exploration"""
        if o[0] == 'edge':
            _, s, frm, to = o
            self.goto(s, to, work, done, loop, depth, backs, exits)
        else:     # returned out of the loop's frame
            s = o[1]
            if loop is not None and len(s.frames) <= depth:
                exits.append(('ret', s))
            else:
                work.append(s)

    def enter(self, st, frm, to):
        fr = st.frames[-1]
        vals = []
        for ph in to.phis:
            for v, pb in zip(ph.ops, ph.extra):
                if pb is frm:
                    vals.append((ph, self.val(st, v)))
                    break
        for ph, v in vals:
            fr.env[ph] = v
        fr.prev = frm
        fr.block = to
        fr.pc = len(to.phis)

    # ------------------------------------------------------------------
    # loops
    def phi_in(self, st, ph, frm):
        for v, pb in zip(ph.ops, ph.extra):
            if pb is frm:
                return self.val(st, v)
        return None

    def do_loop(self, st, hdr, frm, done):
        fr = st.frames[-1]
        depth = len(st.frames) - 1
        f = fr.func
        body = cfgm.analyze(f).loops[hdr]
        peel = self.peel if not self.mute else 0
        if not self.peel and self.unroll:
            peel = self.counted(st, hdr, frm, body)
        if peel:
            # the first iterations are analysed separately; the remaining ones are widened
            outs = []
            cur = [(st, frm)]
            for i in range(peel):
                nxt = []
                for s, fb in cur:
                    self.enter(s, fb, hdr)
                    if self.progress:
                        h, K = s.fork(), t.fresh(64, 'iter')
                    backs, exits = self.explore([s], done, (hdr, body), depth)
                    if self.progress:
                        for bs, bfrm in backs:
                            self.check_progress(h, bs, hdr, bfrm, K)
                    outs.extend(exits)
                    nxt.extend(backs)
                cur = nxt
                if not cur:
                    return outs
            for s, fb in cur:
                outs.extend(self.widened_loop(s, hdr, fb, done))
            return outs
        return self.widened_loop(st, hdr, frm, done)

    def counted(self, st, hdr, frm, body):
        """header visits of a loop that counts a constant number of times, at most self.unroll; 0 otherwise"""
        if len(body) > 16:
            return 0
        for ph in hdr.phis:
            init = self.phi_in(st, ph, frm)
            if not (isinstance(init, t.Lin) and init.is_const):
                continue
            nxt = [v for v, pb in zip(ph.ops, ph.extra) if pb in body]
            if not nxt or any(v is not nxt[0] for v in nxt) or not isinstance(nxt[0], Instr) or nxt[0].op != 'add':
                continue
            nx = nxt[0]
            x, y = nx.ops
            if y is ph:
                x, y = y, x
            if x is not ph or isinstance(y, Instr) or y.k != 'int':
                continue
            step = self.val(st, y)
            for b in body:
                i = b.instrs[-1]
                if i.op != 'br' or not i.ops or not isinstance(i.ops[0], Instr) or all(x in body for x in b.succs):
                    continue
                c = i.ops[0]
                if c.op != 'icmp' or not (c.ops[0] is ph or c.ops[0] is nx) or isinstance(c.ops[1], Instr) or c.ops[1].k != 'int':
                    continue
                stay = b.succs[0] in body
                v, lim = init, self.val(st, c.ops[1])
                for n in range(1, self.unroll + 2):
                    w = t.add(v, step)
                    r = t.icmp(c.pred, w if c.ops[0] is nx else v, lim)
                    if not r.is_const:
                        break
                    if bool(r.c & 1) != stay:
                        return n
                    v = w
        return 0

    def widened_loop(self, st, hdr, frm, done):
        fr = st.frames[-1]
        depth = len(st.frames) - 1
        f = fr.func
        body = cfgm.analyze(f).loops[hdr]
        if not self.mute:
            self.stats['loops'] += 1
        init = {ph: self.phi_in(st, ph, frm) for ph in hdr.phis}
        nm = '%s.L%d' % (f.name, hdr.idx)
        plan_phi = {}
        for ph in hdr.phis:
            plan_phi[ph] = 'fresh'
        plan_mem = {}     # (base, off, n) -> 'fresh' | ('aff', c)
        plan_obj = {}     # base -> list of clob ranges (off, len)
        self_ver = set()  # objects made unknown by the body
        plan_obj['ver'] = self_ver
        first = True
        cands = None
        final_states = None
        plan_kind = 'discover'
        for rnd in range(12):
            K = t.fresh(64, nm + '.k', lo=0, hi=(1 << 62), info='size')
            h, syms = self.widen(st, hdr, frm, init, plan_phi, plan_mem, plan_obj, K, nm, discover=first)
            self.mute += 1
            octx, self.lctx = self.lctx, K.atom.id
            try:
                backs, exits = self.explore([h.fork()], [], (hdr, body), depth)
            finally:
                self.mute -= 1
                self.lctx = octx
            stable = True
            newphi = {}
            for ph in hdr.phis:
                hv = h.frames[-1].env[ph]
                vals = []
                for (bs, bfrm) in backs:
                    vals.append(self.phi_in(bs, ph, bfrm))
                newphi[ph] = self.classify(plan_phi[ph], init[ph], hv, vals, first, K)
                if newphi[ph] == 'fresh' and ph.ty.kind == 'ptr' and (first or plan_phi[ph] != 'fresh') and vals \
                        and self.same_object(init[ph], hv, vals):
                    newphi[ph] = 'off'
                if newphi[ph] != plan_phi[ph]:
                    stable = False
            # memory
            for (bs, bfrm) in backs:
                if self.diff_mem(h, bs, plan_mem, plan_obj, first, K):
                    stable = False
            plan_phi = newphi
            if first:
                first = False
                if not hdr.phis and not plan_mem and not plan_obj and stable:
                    pass
                continue
            if stable:
                break
        else:
            for ph in hdr.phis:
                plan_phi[ph] = 'fresh'
            for k in plan_mem:
                plan_mem[k] = 'fresh'
        # invariants
        inv = self.houdini(h, backs, exits, syms, init, hdr, K)
        # final run(s): one header state per typestate configuration
        hs = []
        h, syms2 = self.widen(st, hdr, frm, init, plan_phi, plan_mem, plan_obj, K, nm, reuse=syms)
        for e in inv:
            h.facts.add_ineq(e)
        queue = [h]
        keys = {self.ts_key(h)}
        outs = []
        n = 0
        while queue and n < 8:
            hh = queue.pop()
            n += 1
            for c in self.checkers:
                c.on_loop_header(hh, hdr)
            octx, self.lctx = self.lctx, K.atom.id
            try:
                backs, exits = self.explore([hh.fork()], done, (hdr, body), depth)
            finally:
                self.lctx = octx
            outs.extend(exits)
            for (bs, bfrm) in backs:
                if self.progress and not self.mute:
                    self.check_progress(hh, bs, hdr, bfrm, K)
                for c in self.checkers:
                    c.on_back_edge(bs, hdr, bfrm)
                for b in list(bs.res):
                    if b.id > K.atom.id or (bs.res[b][0] == 'freed' and b.kind == 'sym' and isinstance(b.args[0], InitName)):
                        del bs.res[b]
                k = self.ts_key(bs)
                if k not in keys:
                    keys.add(k)
                    nh = h.fork()
                    nh.ts = dict(bs.ts)
                    nh.res = dict(bs.res)
                    nh.log = bs.log
                    nh.path = bs.path
                    for base, o in bs.mem.items():
                        if base not in nh.mem:
                            nh.mem[base] = o
                    for a, v in bs.uni.items():
                        pass
                    for c in self.checkers:
                        c.on_loop_header(nh, hdr)
                    queue.append(nh)
        for s in outs:
            pass
        return outs

    def check_progress(self, h, bs, hdr, bfrm, K):
        """an iteration that comes back to the loop header with the state it started from comes back for ever"""
        if bs.nd != h.nd or h.facts.dead or bs.facts.dead:
            return
        for ph in hdr.phis:
            v, hv = self.phi_in(bs, ph, bfrm), h.frames[-1].env[ph]
            if v is not hv and not (isinstance(v, t.Lin) and isinstance(hv, t.Lin) and self.truth(bs, t.icmp('eq', v, hv)) is True):
                return
        if self.diff_mem(h, bs, {}, {'ver': set()}, False, K):
            return
        for c in self.checkers:
            c.on_no_progress(bs, hdr, bfrm)

    def ts_key(self, st):
        return (tuple(sorted((b.id, str(v)) for b, v in st.res.items())), tuple(sorted((str(k), str(v)) for k, v in st.ts.items())))

    def classify(self, cur, init, hv, vals, first, K):
        """plan for a loop-carried value given the values on the back edges"""
        if not vals:
            return 'inv'
        if not isinstance(hv, t.Lin) or not isinstance(init, t.Lin):
            return 'fresh'
        if cur == 'fresh' and not first:
            return 'fresh'
        if all(v is init for v in vals) or all(v is hv for v in vals):
            return 'inv' if (cur == 'inv' or first) else 'fresh'
        if cur == 'inv':
            return 'fresh'
        steps = set()
        for v in vals:
            if not isinstance(v, t.Lin):
                return 'fresh'
            d = t.sub(v, hv)
            if not d.is_const:
                return 'fresh'
            steps.add(d.sc)
        if first or isinstance(cur, tuple):
            if len(steps) == 1:
                c = steps.pop()
                if c == 0:
                    return 'inv'
                p = ('aff', c)
            elif all(s >= 0 for s in steps):
                p = ('mono', 1)
            elif all(s <= 0 for s in steps):
                p = ('mono', -1)
            else:
                return 'fresh'
            if isinstance(cur, tuple) and cur != p:
                return 'fresh' if cur[0] == 'mono' or p[0] == 'aff' else p
            return p
        return 'fresh'

    def same_object(self, init, hv, vals):
        """a pointer that moves within the object it points into at first"""
        if not isinstance(init, t.Lin) or not isinstance(hv, t.Lin) or init.is_const:
            return False

        def inside(d):
            return not any(a.ptr or a.kind == 'base' for a, _ in d.ts)
        return all(isinstance(v, t.Lin) and (inside(t.sub(v, hv)) or inside(t.sub(v, init))) for v in vals)

    def plan_value(self, plan, init, K, nm, ty_ptr, nsw=True):
        """value of a loop-carried variable at the header"""
        if plan == 'inv':
            return init, None
        if isinstance(plan, tuple) and plan[0] == 'aff':
            w = init.w
            k = K if w == 64 else t.trunc(K, w)
            v = t.add(init, t.mulc(k, plan[1]))
            return v, None
        if isinstance(plan, tuple) and plan[0] == 'mono':
            w = init.w
            J = t.fresh(w, nm + '.j', lo=0, hi=(1 << 62) if w == 64 else (1 << (w - 1)) - 1, info='size')
            return t.add(init, t.mulc(J, plan[1])), J
        if plan == 'off':
            J = t.fresh(init.w, nm + '.o')
            return t.add(init, J), J
        return None, None

    def widen(self, st, hdr, frm, init, plan_phi, plan_mem, plan_obj, K, nm, discover=False, reuse=None):
        h = st.fork()
        fr = h.frames[-1]
        syms = {'K': K, 'phi': {}, 'mem': {}}
        for i, ph in enumerate(hdr.phis):
            p = plan_phi[ph]
            v = None
            if reuse is not None and ph in reuse['phi']:
                v = reuse['phi'][ph]
            elif p == 'fresh' or not isinstance(init[ph], t.Lin):
                if isinstance(init[ph], tuple) or init[ph] is None:
                    v = self.fresh_val(ph.ty, nm + '.v')
                else:
                    iv = init[ph]
                    isp = ph.ty.kind == 'ptr'
                    v = t.fresh(iv.w, '%s.%s' % (nm, ph.name or 'v%d' % i), ptr=isp)
            else:
                v, J = self.plan_value(p, init[ph], K, nm, ph.ty.kind == 'ptr')
                if v.w < 64 and isinstance(p, tuple):
                    # increments of signed variables do not wrap (undefined otherwise)
                    if self.nsw_phi(ph):
                        t.nsw_ok.add(v)
            if isinstance(p, tuple) and p[0] == 'aff' and v.w < 64 and isinstance(init[ph], t.Lin) and self.nsw_phi(ph):
                # ... so that the counter is as far from its start as the iterations took it
                h.facts.add_eq0(zadd(zadd(h.facts.zs(v), h.facts.zs(init[ph]), -1), Z({(K.atom, 'u'): 1}, 0), -p[1]))
            syms['phi'][ph] = v
            fr.env[ph] = v
            if init[ph] is not None and v is not init[ph]:
                self.lose(h, init[ph])
        fr.prev = frm
        fr.block = hdr
        fr.pc = len(hdr.phis)
        vers = plan_obj.get('ver', ())
        plan_obj = {k: v for k, v in plan_obj.items() if k != 'ver'}
        for base in set(list(plan_obj) + [k[0] for k in plan_mem] + list(vers)):
            if base not in h.mem and self.pre_existing(base, K, h):
                self.obj(h, base)
        for base in vers:
            if base in h.mem:
                for off, (v, n) in h.mem[base].cells.items():
                    self.lose(h, v)
                self.havoc_obj(h, base)
        for base, ranges in plan_obj.items():
            if base in vers:
                continue
            if base in h.mem:
                o = h.mem[base].copy()
                o.stamp += 1
                keep = {}
                for off, cell in o.cells.items():
                    if not any(self.may_overlap(h, base, off, cell[1], ro, rl) for ro, rl in ranges):
                        keep[off] = cell
                    else:
                        self.lose(h, cell[0])
                o.cells = keep
                o.clobs = o.clobs + tuple((ro, rl, next(self.nalloc)) for ro, rl in ranges)
                h.mem[base] = o
        for (base, off, n), p in plan_mem.items():
            if base not in h.mem or base in vers:
                continue
            o = h.mem[base].copy()
            o.stamp += 1
            cur = o.cells.get(off)
            if reuse is not None and (base, off, n) in reuse['mem']:
                v = reuse['mem'][(base, off, n)]
            else:
                iv = cur[0] if cur else None
                if iv is None and o.init == 'unk' and not o.clobs:
                    iv = self.init_sym(base, o, off, n, None)
                if p == 'fresh' or iv is None or not isinstance(iv, t.Lin):
                    isp = n == 8 and (isinstance(iv, t.Lin) and (any(a.ptr or a.kind == 'base' for a, k in iv.ts) or iv is NULL) or iv is None)
                    v = t.fresh(8 * n, nm + '.m', ptr=isp)
                else:
                    v, J = self.plan_value(p, iv, K, nm, False)
                    if v.w < 64:
                        t.nsw_ok.add(v)
            for off2 in list(o.cells):
                if off2 is not off and self.may_overlap(h, base, off2, o.cells[off2][1], off, t.const(64, n)):
                    self.lose(h, o.cells[off2][0])
                    del o.cells[off2]
            if cur is not None and cur[0] is not v:
                self.lose(h, cur[0])
            o.cells[off] = (v, n)
            h.mem[base] = o
            syms['mem'][(base, off, n)] = v
        return h, syms

    def lose(self, st, v):
        """v is forgotten by widening: whatever it named can no longer be followed"""
        if isinstance(v, t.Lin) and v.w == 64:
            for a, k in v.ts:
                if a.kind == 'base' or a in st.res:
                    self.escape(st, a, set())

    def pre_existing(self, base, K, h):
        """does the object belong to the state at the loop header (as opposed to being created, or
        reached through values created, inside the body)?"""
        if base.kind == 'base':
            return bool(base.info) and base.info[0] == 'global' or base.id < K.atom.id
        nm = base.args[0]
        if isinstance(nm, InitName):
            o = h.mem.get(nm.base)
            if o is not None and o.ver != nm.ver or o is None and nm.ver:
                return False
            return self.pre_existing(nm.base, K, h)
        return base.id < K.atom.id

    def nsw_phi(self, ph):
        c = cfgm.analyze(ph.block.func)
        for v, pb in zip(ph.ops, ph.extra):
            if pb in c.loops.get(ph.block, ()):
                if isinstance(v, Instr) and v.op in ('add', 'sub') and v.nsw:
                    return True
                if isinstance(v, Instr) and v.op == 'phi':
                    return any(isinstance(q, Instr) and q.op in ('add', 'sub') and q.nsw for q in v.ops)
        return False

    def diff_mem(self, h, bs, plan_mem, plan_obj, first, K):
        """compare memory at a back edge with the header; extend the plan. True if changed"""
        ch = False
        for base, ob in bs.mem.items():
            oh = h.mem.get(base)
            if oh is None:
                # object unknown at the header: lazily created or allocated inside
                if ob.kind in ('alloca', 'heap', 'file'):
                    continue
                oh = self.blank_like(base, ob)
                existed = False
            else:
                existed = True
            if oh is ob or not self.pre_existing(base, K, h):
                continue
            if base in plan_obj['ver']:
                continue
            if ob.ver != oh.ver:
                plan_obj['ver'].add(base)
                ch = True
                continue
            # symbolic clobbers
            newcl = ob.clobs[len(oh.clobs):]
            if newcl:
                lst = plan_obj.setdefault(base, [])
                for (ro, rl, _) in newcl:
                    g = self.generalize(ro, rl, base, K, h)
                    if g not in lst:
                        if len(lst) > 6:
                            lst[:] = [(t.const(64, -BIGOFF), t.const(64, 2 * BIGOFF))]
                        else:
                            lst.append(g)
                        ch = True
                if not existed:
                    h.mem  # nothing
            for off, (v, n) in ob.cells.items():
                hc = oh.cells.get(off)
                if hc is not None:
                    if hc[0] is v and hc[1] == n:
                        continue
                    hv = hc[0]
                elif oh.init == 'unk' and not oh.clobs and v is self.init_sym_if(base, oh, off, n):
                    continue
                elif not oh.clobs and oh.init == 'unk' and off.is_const:
                    hv = self.init_sym(base, oh, off, n, None)
                else:
                    hv = None
                # is the address loop invariant (expressible at the header)?
                if self.loop_local(off, h, K):
                    lst = plan_obj.setdefault(base, [])
                    g = self.generalize(off, t.const(64, n), base, K, h)
                    if g not in lst:
                        if len(lst) > 6:
                            lst[:] = [(t.const(64, -BIGOFF), t.const(64, 2 * BIGOFF))]
                        else:
                            lst.append(g)
                        ch = True
                    continue
                key = (base, off, n)
                old = plan_mem.get(key)
                p = 'fresh'
                if isinstance(v, t.Lin) and isinstance(hv, t.Lin) and v.w == hv.w:
                    d = t.sub(v, hv)
                    if d.is_const and d.c and old is None:
                        p = ('aff', d.sc)
                    elif old is not None and isinstance(old, tuple) and d.is_const and d.sc == old[1]:
                        p = old
                if old is None and not existed and base not in h.mem:
                    # object not materialised at the header: make it so next time
                    h2 = None
                if old != p:
                    if old is not None and old != 'fresh':
                        p = 'fresh'
                    if old == 'fresh':
                        continue
                    plan_mem[key] = p
                    ch = True
            # cells that existed at the header but were dropped
            for off, (v, n) in oh.cells.items():
                if off not in ob.cells and not newcl:
                    key = (base, off, n)
                    if plan_mem.get(key) != 'fresh':
                        plan_mem[key] = 'fresh'
                        ch = True
            if not existed and (base in plan_obj or any(k[0] is base for k in plan_mem)):
                if base not in self._pre:
                    pass
        return ch

    _pre = ()

    def blank_like(self, base, ob):
        o = Obj(ob.kind, ob.size, ob.init, ob.name, ob.glob, ob.where)
        return o

    def loop_local(self, off, h, K):
        """does the offset mention the iteration counter or symbols created inside the loop?"""
        for a in t.atoms_of(off):
            if a is K.atom:
                return True
            if a.kind == 'sym' and a.id > K.atom.id:
                return True
        return False

    def generalize(self, ro, rl, base, K, h):
        """range written in some iteration, described without loop-local symbols"""
        hint = self.offhint.get((base, ro))
        if not self.loop_local(ro, h, K) and not self.loop_local(rl, h, K):
            return (ro, rl)
        if hint is not None:
            lo, hi = hint
            return (t.const(64, lo), t.const(64, hi - lo))
        # constant part with non-negative unknown
        return (t.const(64, -BIGOFF), t.const(64, 2 * BIGOFF))

    def houdini(self, h, backs, exits, syms, init, hdr, K):
        """inductive inequalities over loop-carried symbols"""
        loopvars = {(K.atom, 'u')}
        subst_init = {(K.atom, 'u'): Z({}, 0)}
        vals = []
        for ph, v in syms['phi'].items():
            vals.append((v, init[ph], ('phi', ph)))
        for key, v in syms['mem'].items():
            vals.append((v, None, ('mem', key)))
        freshes = []
        for v, iv, how in vals:
            if not isinstance(v, t.Lin):
                continue
            for a, k in v.ts:
                if a.kind == 'sym' and a.id >= K.atom.id and a is not K.atom:
                    freshes.append((a, v, iv, how))
        for a, v, iv, how in freshes:
            loopvars.add((a, 'u'))
            loopvars.add((a, 's'))
        cands = []
        seen = set()

        def add_cand(e):
            if not e.d:
                return
            if not any(v in loopvars for v in e.d):
                return
            for v in e.d:
                if v in loopvars:
                    continue
                x = v[0]
                if isinstance(x, t.Atom):
                    if x.kind == 'sym' and x.id > K.atom.id:
                        return
                    if any(q.kind == 'sym' and q.id >= K.atom.id for q in t.atoms_of(t.of(x))):
                        return
                else:
                    return
            k = (frozenset(e.d.items()), e.c)
            if k not in seen and len(cands) < 40:
                seen.add(k)
                cands.append(e)
        steps = [abs(t.sub(self.phi_in(bs, ph, bf), v).sc) for ph, v in syms['phi'].items() if isinstance(v, t.Lin)
                 for bs, bf in backs if isinstance(self.phi_in(bs, ph, bf), t.Lin) and t.sub(self.phi_in(bs, ph, bf), v).is_const]
        steps = sorted(set([0, 1] + [s for s in steps if s < 64]))
        n0 = len(h.facts.ineqs)
        srcs = [bs for bs, _ in backs] + [e[1] for e in exits]
        for s in srcs[:12]:
            for e in s.facts.ineqs[n0:]:
                for k in steps:
                    add_cand(Z(e.d, e.c - k))
            for e in s.facts.neqs:
                add_cand(e)
                add_cand(zscale(e, -1))
        # monotone fresh variables
        for a, v, iv, how in freshes:
            if v.atom is a and isinstance(iv, t.Lin) and not a.ptr:
                for z in ('s',):
                    zi = h.facts.zs(iv)
                    me = h.facts.zs(v)
                    add_cand(zadd(zi, me, -1))
                    add_cand(zadd(me, zi, -1))
        if not cands:
            return []
        # initial values
        def z_init(s, a, v, iv, how, sg):
            if how[0] == 'mem':
                return None
            if v.atom is a:
                return s.facts.zu(iv) if sg == 'u' else s.facts.zs(iv)
            d = t.sub(v, iv)           # v = iv +- J ; J starts at 0
            if d.ts and d.ts[0][0] is a and len(d.ts) == 1 and d.c == 0:
                return Z({}, 0)
            return None

        def z_back(s, bf, a, v, iv, how, sg):
            if how[0] == 'phi':
                nv = self.phi_in(s, how[1], bf)
            else:
                base, off, n = how[1]
                o = s.mem.get(base)
                c = o.cells.get(off) if o else None
                nv = c[0] if c else None
            if not isinstance(nv, t.Lin):
                return None
            if v.atom is a:
                return s.facts.zu(nv) if sg == 'u' else s.facts.zs(nv)
            d = t.sub(v, iv) if iv is not None else None
            if d is not None and len(d.ts) == 1 and d.ts[0][0] is a and d.c == 0:
                k = t.signed(d.w, d.ts[0][1])
                nd = t.sub(nv, iv)
                if k == -1:
                    nd = t.neg(nd)
                elif k != 1:
                    return None
                return s.facts.zs(nd) if nd.w < 64 else s.facts.zs(nd)
            return None

        def subst(e, m):
            r = Z({}, e.c)
            for v, k in e.d.items():
                if v in loopvars:
                    q = m.get(v)
                    if q is None:
                        return None
                    r = zadd(r, q, k)
                else:
                    r = zadd(r, Z({v: 1}, 0), k)
            return r
        mi = {(K.atom, 'u'): Z({}, 0)}
        for a, v, iv, how in freshes:
            for sg in ('u', 's'):
                if iv is not None:
                    z = z_init(h, a, v, iv, how, sg)
                    if z is not None:
                        mi[(a, sg)] = z
        keep = []
        for e in cands:
            s = subst(e, mi)
            if s is not None and h.facts.entails(s):
                keep.append(e)
        mbs = []
        for bs, bf in backs:
            m = {(K.atom, 'u'): Z({(K.atom, 'u'): 1}, 1)}
            for a, v, iv, how in freshes:
                for sg in ('u', 's'):
                    z = z_back(bs, bf, a, v, iv, how, sg)
                    if z is not None:
                        m[(a, sg)] = z
            mbs.append((bs, m))
        while keep:
            drop = []
            for bs, m in mbs:
                f = bs.facts.copy()
                for e in keep:
                    f.add_ineq(e)
                f.tighten()
                if f.dead:
                    continue
                for e in keep:
                    if e in drop:
                        continue
                    s = subst(e, m)
                    if s is None or not f.entails(s):
                        drop.append(e)
            if not drop:
                break
            keep = [e for e in keep if e not in drop]
        return keep

    # ------------------------------------------------------------------
    def do_ret(self, st, ins, v, work, done, loop, depth, exits):
        fr = st.frames[-1]
        if len(st.frames) == 1:
            st.ret = v
            for c in self.checkers:
                c.on_root_return(st, ins, v)
            done.append(st)
            return
        for c in self.checkers:
            c.leave(st, fr.func, v, ins)
        st.frames.pop()
        for a in fr.allocas:
            o = st.mem.pop(a, None)
        call = fr.call
        if v is not None:
            st.frames[-1].env[call] = v
        if loop is not None and len(st.frames) <= depth:
            exits.append(('ret', st))
        else:
            work.append(st)

    # ------------------------------------------------------------------
    # values
    def val(self, st, v):
        if isinstance(v, Instr):
            r = st.frames[-1].env.get(v)
            if r is None:
                # value from an unexecuted path (should not happen)
                r = self.fresh_val(v.ty, 'undef')
                st.frames[-1].env[v] = r
            return r
        k = v.k
        if k == 'arg':
            return st.frames[-1].env[v]
        return self.constval(v, st)

    def constval(self, v, st=None):
        k = v.k
        if k == 'int':
            return t.const(v.ty.width, v.v)
        if k == 'null':
            return NULL
        if k == 'zero':
            if v.ty.kind in ('struct', 'array'):
                return ('agg', [self.constval_zero(e) for e in (v.ty.elems or [v.ty.elem] * v.ty.count)])
            return t.const(v.ty.width or 64, 0)
        if k == 'undef':
            if v.ty.kind == 'struct':
                return ('agg', [t.fresh(e.width or 64, 'undef') for e in v.ty.elems])
            return t.fresh(v.ty.width or max(v.ty.size * 8, 1), 'undef')
        if k == 'global':
            return t.of(self.gbase(v, st))
        if k == 'func':
            m = st.frames[-1].func.module if st and st.frames else None
            return t.of(t.atom(64, 'base', ('@' + v.name,), ptr=True, info=('func', v.name, m)))
        if k == 'expr':
            if v.op == 'gep':
                base = self.constval(v.ops[0], st)
                off = self.gep_off(st, v.srcty, [self.constval(o, st) for o in v.ops[1:]])
                return t.add(base, off)
            if v.op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return self.constval(v.ops[0], st)
            if v.op in ('add', 'sub'):
                a, b = self.constval(v.ops[0], st), self.constval(v.ops[1], st)
                return t.add(a, b) if v.op == 'add' else t.sub(a, b)
            if v.op == 'trunc':
                return t.trunc(self.constval(v.ops[0], st), v.ty.width)
            return t.fresh(v.ty.width or 64, 'cexpr')
        if k == 'fp':
            return t.of(t.atom(v.ty.width, 'fconst', (repr(v.v),)))
        if k in ('agg', 'data'):
            if v.ty.kind == 'struct':
                return ('agg', [self.constval(o, st) for o in v.ops])
        return t.fresh(v.ty.width or 64, 'const')

    def constval_zero(self, ty):
        return t.const(ty.width or 64, 0)

    def gbase(self, v, st):
        m = st.frames[-1].func.module if st and st.frames else None
        return self.global_base(m, v.name)

    def global_base(self, m, name):
        g = self.prog.resolve_global(m, name) if m else self.prog.ext_globals.get(name)
        uname = name
        if g is not None and g.internal:
            uname = '%s:%s' % (g.module.name, name)
        return t.atom(64, 'base', ('@' + uname,), ptr=True, info=('global', g))

    def gep_off(self, st, ty, idx, base=None, baseoff=None):
        off = t.mulc(self.to64(idx[0]), ty.size)
        lo = hi = None
        hint = idx[0].is_const
        start = t.const(64, 0)
        cur = ty
        rng = None
        for ix in idx[1:]:
            if cur.kind == 'struct':
                off = t.add(off, t.const(64, cur.offs[ix.c]))
                cur = cur.elems[ix.c]
            elif cur.kind in ('array', 'vector'):
                i64 = self.to64(ix)
                if not i64.is_const and off.is_const and rng is None and cur.count:
                    rng = (off.sc, off.sc + cur.count * cur.elem.size)
                off = t.add(off, t.mulc(i64, cur.elem.size))
                cur = cur.elem
        if rng is not None:
            self.last_rng = rng
        else:
            self.last_rng = None
        return off

    last_rng = None

    def to64(self, v):
        return t.sext(v, 64) if v.w < 64 else v

    # ------------------------------------------------------------------
    # memory
    def split(self, st, addr):
        """(base atom, offset) of an address; (None, addr) if unknown, ('null', ..) for null"""
        addr = self.canon(st, addr)
        cands = [(x, k) for x, k in addr.ts if k == 1 and (x.kind == 'base')]
        if not cands:
            cands = [(x, k) for x, k in addr.ts if k == 1 and x.ptr]
        if not cands:
            cands = [(x, k) for x, k in addr.ts if k == 1 and x.w == 64 and x.kind == 'sym']
        if not cands:
            return None, addr
        if len(cands) > 1:
            # prefer one that is not subtracted elsewhere and has an object
            cands.sort(key=lambda q: (q[0] not in st.mem, q[0].id))
        b = cands[0][0]
        off = t.add(addr, t.of(b), -1)
        return b, off

    def obj(self, st, base):
        o = st.mem.get(base)
        if o is None:
            if base.kind == 'base' and base.info and base.info[0] == 'global':
                g = base.info[1]
                if g is None:
                    o = Obj('global', None, 'unk', str(base.args[0]))
                else:
                    ro = self.is_ro(g)
                    o = Obj('global', t.const(64, g.ty.size) if not g.isdecl else None,
                            'const' if ro else 'unk', g.name, g)
                    if self.boot and not ro and g.init is not None:
                        self.boot_cells(st, o, g)
            elif base.kind == 'base':
                o = Obj('func', None, 'unk', str(base.args[0]))
            else:
                o = Obj('sym', None, 'unk', str(base.args[0]))
            for c in self.checkers:
                c.on_lazy_obj(st, base, o)
            st.mem[base] = o
        return o

    def boot_cells(self, st, o, g):
        """the contents a variable has at program start"""
        cells = {}
        self._cm = g.module
        if g.init.k != 'zero':
            for off, ty in leaves(g.ty, 0):
                if len(cells) > 4096:
                    return
                v = const_at(self, g.init, off, ty.size, st)
                if v is None:
                    v = t.fresh(8 * ty.size, 'init')
                cells[t.const(64, off)] = (v, ty.size)
        o.init = 'zero'
        o.cells = cells

    def is_ro(self, g):
        r = self.roconst.get(id(g))
        if r is None:
            r = g.const or self.pristine and self.untouched(g) or (g.internal and g.init is not None and (readonly_global(g) or self.never_stored_type(g)))
            self.roconst[id(g)] = r
        return r

    def untouched(self, g):
        """a scalar variable with an initialiser that no instruction of the program assigns (only its user could)"""
        if g.init is None or g.isdecl:
            return False
        if g.ty.kind not in ('ptr', 'int'):
            # a table that nothing in the program writes or hands out
            return g.ty.kind == 'array' and not any(g.name in module_uses(m) for m in self.prog.modules)
        r = getattr(self.prog, '_direct', None)
        if r is None:
            r = self.prog._direct = set()
            for m in self.prog.modules:
                r |= module_direct(m)
        return g.name not in r and (not g.internal or readonly_global(g))

    def never_stored_type(self, g):
        """a static structure (operation table) of a named type no field of which is assigned anywhere in the program"""
        ty = g.init.ty
        if ty.kind != 'struct' or not getattr(ty, 'name', None):
            return False
        r = getattr(self.prog, '_stored_types', None)
        if r is None:
            r = set()
            for m in self.prog.modules:
                for f in m.functions.values():
                    if f.isdecl:
                        continue
                    for b in f.blocks:
                        for i in b.instrs:
                            if i.op == 'store':
                                p = i.ops[1]
                            elif i.op == 'call' and getattr(i.extra, 'k', '') == 'func' and i.extra.name.startswith(('llvm.mem', 'mem')):
                                p = i.ops[0]
                            else:
                                continue
                            while isinstance(p, Instr) and p.op in ('gep', 'bitcast'):
                                if p.op == 'gep':
                                    n = getattr(p.srcty, 'name', None)
                                    if n:
                                        r.add(n)
                                p = p.ops[0]
                        # direct stores through the variable itself
                if True:
                    for nm in module_direct(m):
                        gg = m.globals.get(nm)
                        if gg is not None and gg.init is not None and getattr(gg.init.ty, 'name', None):
                            r.add(gg.init.ty.name)
            self.prog._stored_types = r
        return ty.name not in r

    def init_sym_if(self, base, o, off, n):
        key = (8 * n, 'sym', (('init', base, o.ver, off, n),))
        a = t._atoms.get((8 * n, 'sym', InitName(base, o.ver, off, n)))
        return t.of(a) if a is not None else None

    def init_sym(self, base, o, off, n, ty):
        name = InitName(base, o.ver, off, n)
        isp = ty is not None and ty.kind == 'ptr'
        info = None
        if n == 8 and not isp:
            info = 'size'
        a = t.atom(8 * n, 'sym', (name,), ptr=isp, info=info)
        if isp and not a.ptr:
            a.ptr = True
        return t.of(a)

    def may_overlap(self, st, base, o1, n1, o2, l2):
        """may [o1,o1+n1) and [o2,o2+l2) intersect?"""
        d = t.sub(o2, o1)
        if d.is_const and l2.is_const:
            return not (d.sc >= n1 or -d.sc >= l2.c)
        h1 = self.offhint.get((base, o1))
        h2 = self.offhint.get((base, o2))
        if h2 is not None and o1.is_const:
            if o1.sc + n1 <= h2[0] or o1.sc >= h2[1]:
                return False
        if h1 is not None and o2.is_const and l2.is_const:
            if o2.sc + l2.c <= h1[0] or o2.sc >= h1[1]:
                return False
        if h1 is not None and h2 is not None and (h1[1] <= h2[0] or h2[1] <= h1[0]):
            return False
        f = st.facts
        e = f.zs(d)
        # o2 >= o1+n1 ?
        if f.entails(Z({v: -k for v, k in e.d.items()}, -e.c + n1)):
            return False
        # o2 + l2 <= o1 ?
        zl = f.zu(l2)
        e2 = zadd(e, zl)
        if f.entails(e2):
            return False
        # disequality known and same alignment/size: distinct elements
        if l2.is_const and l2.c == n1:
            b = t.icmp('eq', d, t.const(64, 0))
            if f.bool_value(b) is False and all(k % n1 == 0 or ((1 << 64) - k) % n1 == 0 for a, k in d.ts) and d.sc % n1 == 0:
                return False
        return True

    def load(self, st, addr, n, ty, ins):
        base, off = self.split(st, addr)
        if base is None:
            return self.fresh_val(ty, 'wild') if ty is not None else t.fresh(8 * n, 'wild')
        o = self.obj(st, base)
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            return self.as_type(c[0], ty)
        if o.init == 'const':
            v = self.const_load(o, off, n, ty, st)
            if v is not None:
                return v
        if o.kind == 'volatile':
            return self.fresh_val(ty, 'vol')
        # compose from overlapping constant-offset cells
        if off.is_const:
            v = self.compose(st, base, o, off, n)
            if v is not None:
                return self.as_type(v, ty)
        over = [k for k, cell in o.cells.items() if self.may_overlap(st, base, k, cell[1], off, t.const(64, n))]
        if over and o.init == 'unk':
            # a cell that merely remembers a read of the initial contents is not a write
            over = [k for k in over if o.cells[k][0] is not self.init_sym_if(base, o, k, o.cells[k][1])]
        clob = any(self.may_overlap(st, base, off, n, ro, rl) for ro, rl, _ in o.clobs)
        if not over and not clob:
            if o.init == 'zero':
                v = t.const(8 * n, 0)
            elif o.init == 'undef':
                for ch in self.checkers:
                    ch.on_undef_read(st, base, off, n, ins)
                v = self.fresh_val(ty, 'uninit')
            else:
                v = self.init_sym(base, o, off, n, ty)
        else:
            v = self.fresh_val(ty, 'mem')
        if isinstance(v, t.Lin):
            o = o.copy()
            o.cells[off] = (v, n)
            st.mem[base] = o
        return self.as_type(v, ty)

    def as_type(self, v, ty):
        if isinstance(v, t.Lin) and ty is not None and ty.kind == 'ptr':
            a = v.atom
            if a is not None and not a.ptr and a.kind == 'sym':
                a.ptr = True
        if isinstance(v, t.Lin) and ty is not None and ty.kind == 'int' and ty.width and v.w != ty.width:
            if v.w > ty.width:
                return t.trunc(v, ty.width)
            return t.zext(v, ty.width)
        return v

    def compose(self, st, base, o, off, n):
        a = off.sc
        parts = [None] * n
        hit = False
        for k, (v, m) in o.cells.items():
            if not k.is_const:
                if self.may_overlap(st, base, k, m, off, t.const(64, n)):
                    return None
                continue
            s = k.sc
            if s < a + n and a < s + m:
                if not isinstance(v, t.Lin):
                    return None
                hit = True
                for i in range(m):
                    if 0 <= s + i - a < n:
                        parts[s + i - a] = (v, i)
        if not hit:
            return None
        for ro, rl, _ in o.clobs:
            if self.may_overlap(st, base, off, n, ro, rl):
                # clobber happened possibly after/before: cells present were written later or survive
                if any(p is None for p in parts):
                    return None
        r = t.const(8 * n, 0)
        i = 0
        while i < n:
            p = parts[i]
            if p is None:
                if o.init == 'zero':
                    i += 1
                    continue
                if o.init == 'unk':
                    b = self.init_sym(base, o, t.const(64, a + i), 1, None)
                    r = t.add(r, t.shl(t.zext(b, 8 * n), t.const(8 * n, 8 * i)))
                    i += 1
                    continue
                b = t.fresh(8, 'uninit')
                r = t.add(r, t.shl(t.zext(b, 8 * n), t.const(8 * n, 8 * i)))
                i += 1
                continue
            v, j = p
            # maximal run from the same value
            run = 1
            while i + run < n and parts[i + run] is not None and parts[i + run][0] is v and parts[i + run][1] == j + run:
                run += 1
            x = v
            if j:
                x = t.lshr(x, t.const(x.w, 8 * j))
            if run * 8 < x.w:
                x = t.trunc(x, 8 * run)
            x = t.zext(x, 8 * n) if x.w < 8 * n else x
            r = t.add(r, t.shl(x, t.const(8 * n, 8 * i)))
            i += run
        return r

    def const_load(self, o, off, n, ty, st):
        g = o.glob
        if g is None or g.init is None:
            return None
        self._cm = g.module
        if off.is_const:
            v = const_at(self, g.init, off.sc, n, st)
            if v is not None:
                return self.as_type(v, ty) if isinstance(v, t.Lin) else v
            return None
        # symbolic index into a constant table
        if ty.kind == 'int' and n <= 8:
            v = self.lookup(g, off, n)
            if v is not None:
                return v
            vals = table_values(self, g, n)
            if vals:
                lo = hi = None
                ints = [x for x in vals if isinstance(x, int)]
                if len(ints) == len(vals):
                    lo, hi = min(ints), max(ints)
                a = t.atom(8 * n, 'tbl', (g.module.name, g.name, off), lo=lo, hi=hi)
                return t.of(a)
        if ty.kind == 'ptr':
            return t.of(t.atom(64, 'tblp', (g.module.name, g.name, off), ptr=True))
        return None

    def lookup(self, g, off, n):
        """a read at a symbolic offset of a constant: a function of the index, given by its values"""
        c = off.c
        if c >= g.ty.size:
            return None
        rest = t.sub(off, t.const(64, c))
        lu = t.lut_of(rest)
        if lu is not None:
            u, idx = lu
            offs = [None if v is None else c + v for v in idx]
        else:
            k = min((q for _, q in rest.ts), default=0)
            if not k or any(q % k for _, q in rest.ts) or k > g.ty.size:
                return None
            u = t.mk(64, 0, [(x, q // k) for x, q in rest.ts])
            u = t.frombits(t.bits(u), 64)
            top = t.maybits(u)
            if u.atom is not None and u.atom.hi is not None and u.atom.lo is not None and u.atom.lo >= 0:
                top = min(top, u.atom.hi)
            top = min(top, (g.ty.size - c) // k)
            if top > 4096:
                return None
            offs = [c + i * k for i in range(top + 1)]
        vals = []
        for o in offs:
            v = const_at(self, g.init, o, n, None) if o is not None and 0 <= o <= g.ty.size - n else None
            if v is not None and not (isinstance(v, t.Lin) and v.is_const):
                return None
            vals.append(None if v is None else v.c)
        if all(v is None for v in vals):
            return None
        return t.lut(8 * n, u, tuple(vals))

    def store(self, st, addr, v, n, ins):
        base, off = self.split(st, addr)
        if base is None:
            return
        self.obj(st, base)
        o = st.wobj(base)
        if self.last_store_rng is not None and not off.is_const:
            self.offhint[(base, off)] = self.last_store_rng
        for k in list(o.cells):
            if k is off and o.cells[k][1] <= n:
                continue
            cn = o.cells[k][1]
            if self.may_overlap(st, base, k, cn, off, t.const(64, n)):
                # partial overwrite of a constant cell: split into bytes
                cv = o.cells[k][0]
                if k.is_const and off.is_const and isinstance(cv, t.Lin) and cn <= 8:
                    del o.cells[k]
                    for i in range(cn):
                        p = k.sc + i
                        if off.sc <= p < off.sc + n:
                            continue
                        o.cells[t.const(64, p)] = (t.trunc(t.lshr(cv, t.const(cv.w, 8 * i)), 8), 1)
                else:
                    del o.cells[k]
        o.cells[off] = (v, n)
        if not off.is_const:
            o.clobs = o.clobs + ((off, t.const(64, n), next(self.nalloc)),)
            if len(o.clobs) > 24:
                o.clobs = ((t.const(64, -BIGOFF), t.const(64, 2 * BIGOFF), 0),)

    last_store_rng = None

    def clobber(self, st, addr, length, name='w'):
        """[addr, addr+length) now holds unknown (initialised) bytes"""
        base, off = self.split(st, addr)
        if base is None:
            return
        if base.kind == 'base' and base.info and base.info[0] == 'func':
            return
        self.obj(st, base)
        o = st.wobj(base)
        for k in list(o.cells):
            if self.may_overlap(st, base, k, o.cells[k][1], off, length):
                del o.cells[k]
        o.clobs = o.clobs + ((off, length, next(self.nalloc)),)
        if len(o.clobs) > 24:
            o.clobs = ((t.const(64, -BIGOFF), t.const(64, 2 * BIGOFF), 0),)

    def havoc_obj(self, st, base):
        if base is None:
            return
        if base.kind == 'base' and base.info and base.info[0] == 'func':
            return
        o = self.obj(st, base)
        if o.init == 'const':
            return
        o = st.wobj(base)
        o.cells = {}
        o.clobs = ()
        o.ver = next(self.nalloc)
        if o.init != 'unk':
            o.init = 'unk'

    def alloc(self, st, kind, size, init, name, where=None, ins=None):
        """new object; named by allocation site and calling context so that the same site reached
        along two paths yields the same name and the paths can be joined"""
        if ins is not None:
            key = (id(ins), tuple(id(f.call) for f in st.frames), self.lctx, kind)
            n = self.site_ids.get(key)
            if n is None:
                n = self.site_ids[key] = next(self.nalloc)
            i = 0
            while True:
                b = t.atom(64, 'base', ('%s#%d.%d' % (name, n, i) if i else '%s#%d' % (name, n),), ptr=True, info=('obj', kind))
                if b not in st.mem and b not in st.res:
                    break
                i += 1
        else:
            b = t.atom(64, 'base', ('%s#%d' % (name, next(self.nalloc)),), ptr=True, info=('obj', kind))
        st.mem[b] = Obj(kind, size, init, name, None, where)
        return b

    # ------------------------------------------------------------------
    def simple(self, st, ins):
        fr = st.frames[-1]
        env = fr.env
        op = ins.op
        if op == 'alloca':
            n = self.val(st, ins.ops[0]) if ins.ops else t.const(64, 1)
            size = t.mulc(t.zext(n, 64) if n.w < 64 else n, ins.srcty.size)
            b = self.alloc(st, 'alloca', size, 'undef', '%s.%s' % (fr.func.name, ins.name or 'tmp'), ins.where, ins)
            fr.allocas.append(b)
            env[ins] = t.of(b)
        elif op == 'load':
            a = self.val(st, ins.ops[0])
            n = ins.ty.size
            for c in self.checkers:
                c.on_access(st, a, t.const(64, n), 'r', ins)
            if st.facts.dead or not self.learn_access(st, a):
                return None
            env[ins] = self.load(st, a, n, ins.ty, ins)
        elif op == 'store':
            v = self.val(st, ins.ops[0])
            a = self.val(st, ins.ops[1])
            ty = ins.ops[0].ty
            n = ty.size
            for c in self.checkers:
                c.on_access(st, a, t.const(64, n), 'w', ins)
                c.on_store(st, a, v, n, ins)
            if st.facts.dead or not self.learn_access(st, a):
                return None
            g = ins.ops[1]
            self.last_store_rng = None
            if isinstance(g, Instr) and g.op == 'gep':
                self.last_store_rng = self.rng_cache.get((fr.fid, g))
            self.store(st, a, v, n, ins)
        elif op == 'gep':
            b = self.val(st, ins.ops[0])
            idx = [self.val(st, o) for o in ins.ops[1:]]
            off = self.gep_off(st, ins.srcty, idx)
            rng = self.last_rng
            env[ins] = t.add(b, off)
            if rng is not None:
                b0, o0 = self.split(st, b)
                if b0 is not None and o0.is_const:
                    r2 = (rng[0] + o0.sc, rng[1] + o0.sc)
                    bb, oo = self.split(st, env[ins])
                    self.offhint[(bb, oo)] = r2
                    self.rng_cache[(fr.fid, ins)] = r2
            for c in self.checkers:
                c.on_gep(st, ins, b, idx)
        elif op in ('add', 'sub', 'mul'):
            a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
            if not isinstance(a, t.Lin) or not isinstance(b, t.Lin) or a.w != b.w:
                env[ins] = self.fresh_val(ins.ty, op)
            else:
                r = t.add(a, b) if op == 'add' else t.sub(a, b) if op == 'sub' else t.mul(a, b)
                if ins.nsw and r.w < 64 and len(r.ts) >= 1 and r.c != 1 << (r.w - 1):
                    t.nsw_ok.add(r)
                env[ins] = r
        elif op in ('and', 'or', 'xor'):
            a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
            env[ins] = t.bitop(op, a, b) if isinstance(a, t.Lin) and isinstance(b, t.Lin) else self.fresh_val(ins.ty, op)
        elif op in ('shl', 'lshr', 'ashr'):
            a, b = self.val(st, ins.ops[0]), self.canon(st, self.val(st, ins.ops[1]))
            for c in self.checkers:
                c.on_shift(st, ins, a, b)
            env[ins] = {'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr}[op](a, b)
            if op == 'shl' and ins.nsw:
                t.nsw_ok.add(env[ins])
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.val(st, ins.ops[0]), self.canon(st, self.val(st, ins.ops[1]))
            for c in self.checkers:
                c.on_div(st, ins, a, b)
            env[ins] = t.divrem(op, a, b)
        elif op == 'zext':
            env[ins] = t.zext(self.val(st, ins.ops[0]), ins.ty.width)
        elif op == 'sext':
            env[ins] = t.sext(self.val(st, ins.ops[0]), ins.ty.width)
        elif op == 'trunc':
            env[ins] = t.trunc(self.val(st, ins.ops[0]), ins.ty.width)
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            v = self.val(st, ins.ops[0])
            if op == 'ptrtoint' and ins.ty.width != 64:
                v = t.trunc(v, ins.ty.width)
            env[ins] = v
        elif op == 'icmp':
            a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
            if isinstance(a, t.Lin) and isinstance(b, t.Lin) and a.w == b.w:
                c = env[ins] = t.icmp(ins.pred, self.canon(st, a), self.canon(st, b))
                if ins.pred in ('eq', 'ne') and a.w == 64 and not c.is_const and len(c.ts) == 1 and c.ts[0][0].kind == 'eq' and any(x.kind == 'base' for x, k in c.ts[0][0].args[0].ts):
                    v = self.truth(st, c)
                    if v is not None:
                        env[ins] = t.const(1, int(v))
            else:
                env[ins] = t.fresh(1, 'cmp')
        elif op == 'extractvalue':
            v = self.val(st, ins.ops[0])
            for i in ins.extra:
                v = v[1][i] if isinstance(v, tuple) else self.fresh_val(ins.ty, 'ev')
            env[ins] = v
        elif op == 'insertvalue':
            v = self.val(st, ins.ops[0])
            x = self.val(st, ins.ops[1])
            if isinstance(v, tuple) and len(ins.extra) == 1:
                l = list(v[1])
                l[ins.extra[0]] = x
                v = ('agg', l)
            env[ins] = v
        elif op in ('fcmp',):
            a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
            env[ins] = fcmp_const(ins.pred, a, b) or t.of(t.atom(1, 'fcmp', (ins.pred, a, b)))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
            args = tuple(self.val(st, o) for o in ins.ops)
            env[ins] = fold_float(op, ins.ty.width or 64, args) or t.of(t.atom(ins.ty.width or 64, op, args))
        elif op == 'fence':
            pass
        elif op in ('cmpxchg', 'atomicrmw'):
            env[ins] = self.fresh_val(ins.ty, op)
        else:
            env[ins] = self.fresh_val(ins.ty, op)
        return None

    rng_cache = {}

    def learn_access(self, st, addr):
        """execution continues past an access only when the pointer was valid"""
        addr = self.canon(st, addr)
        if not addr.ts:
            st.facts.dead = True
            return False
        b, off = self.split(st, addr)
        if b is not None and b.kind != 'base' and b.ptr:
            e = t.icmp('eq', t.of(b), NULL)
            if st.facts.bool_value(e) is None:
                st.facts.assume(e, False)
        return not st.facts.dead

    # ------------------------------------------------------------------
    # calls
    def callee_name(self, st, ins):
        c = ins.extra
        if isinstance(c, Value) and c.k == 'func':
            return c.name, None
        if isinstance(c, Value) and c.k == 'asm':
            return '<asm>', None
        v = self.canon(st, self.val(st, c))
        a = v.atom
        if a is not None and a.kind == 'base' and a.info and a.info[0] == 'func':
            return a.info[1], a.info[2]
        return None, v

    def call(self, st, ins):
        name, extra = self.callee_name(st, ins)
        args = [self.val(st, o) for o in ins.ops]
        if not self.mute:
            self.stats['calls'] += 1
        if name is None:
            for c in self.checkers:
                r = c.on_indirect(st, ins, extra, args)
                if r is not None:
                    return r
            st.nd += 1
            return self.unknown_call(st, ins, '<indirect>', args)
        for c in self.checkers:
            r = c.on_call(st, ins, name, args)
            if r is not None:
                return r
        m = self.models.get(name)
        if m is not None:
            st.nd += 1
            r = m(self, st, ins, args)
            if r is not None:
                return r
        mod = extra if extra is not None else st.frames[-1].func.module
        f = self.prog.resolve(mod, name)
        if f is not None:
            depth = len(st.frames)
            rec = sum(1 for fr in st.frames if fr.func is f)
            if depth < self.max_depth and rec <= self.max_rec and self.inline_policy(f):
                self.push_frame(st, f, args, ins)
                return None
            for c in self.checkers:
                c.on_opaque(st, ins, f)
            st.nd += 1
            return self.unknown_call(st, ins, name, args, f)
        if name.startswith('llvm.'):
            return self.intrinsic(st, ins, name, args)
        if name not in DETERMINISTIC:
            st.nd += 1
        m = self.libc.get(name)
        if m is not None:
            return m(self, st, ins, args)
        for c in self.checkers:
            c.on_external(st, ins, name, args)
        return self.unknown_call(st, ins, name, args, external=True)

    def intrinsic(self, st, ins, name, args):
        from . import libc
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return libc.memcpy(self, st, ins, args)
        if name.startswith('llvm.memset'):
            return libc.memset(self, st, ins, args)
        if name.startswith('llvm.va_start'):
            libc.va_start(self, st, ins, args)
            return [(st, None)]
        if name.startswith('llvm.va_end') or name.startswith('llvm.stack') or name.startswith('llvm.assume'):
            for c in self.checkers:
                c.on_intrinsic(st, ins, name, args)
            return [(st, t.fresh(64, 'stk', ptr=True) if ins.ty.kind == 'ptr' else None)]
        if name.startswith('llvm.va_copy'):
            libc.va_copy(self, st, ins, args)
            return [(st, None)]
        if name.startswith('llvm.bswap'):
            v = args[0]
            w = v.w
            r = t.const(w, 0)
            for i in range(w // 8):
                byte = t.trunc(t.lshr(v, t.const(w, 8 * i)), 8)
                r = t.add(r, t.shl(t.zext(byte, w), t.const(w, w - 8 - 8 * i)))
            return [(st, r)]
        if name.startswith('llvm.abs'):
            return [(st, t.of(t.atom(args[0].w, 'abs', (args[0],))))]
        if ins.ty.kind == 'void':
            return [(st, None)]
        return [(st, t.of(t.atom(ins.ty.width or 64, 'intr:' + name, tuple(a for a in args if isinstance(a, t.Lin)))))]

    def unknown_call(self, st, ins, name, args, f=None, external=False):
        for c in self.checkers:
            c.on_unknown_call(st, ins, name, args)
        for a in args:
            if isinstance(a, t.Lin) and a.w == 64:
                b, off = self.split(st, a)
                if b is None:
                    continue
                if b.kind == 'base' and b.info and b.info[0] == 'func':
                    continue
                if not (b.ptr or b.kind == 'base'):
                    continue
                self.escape(st, b, set())
                self.havoc_obj(st, b)
        v = None
        if ins.ty.kind != 'void':
            v = self.fresh_val(ins.ty, name)
        return [(st, v)]

    def escape(self, st, b, seen, status='escaped'):
        """b (and everything reachable from it) becomes known to code outside the analysis"""
        if b in seen:
            return
        seen.add(b)
        r = st.res.get(b)
        if r is not None and r[0] == 'live':
            st.res[b] = ('escaped',) + r[1:]
        o = st.mem.get(b)
        if o is None:
            return
        for off, (v, n) in o.cells.items():
            if isinstance(v, t.Lin) and v.w == 64:
                b2, _ = self.split(st, v)
                if b2 is not None and (b2.ptr or b2.kind == 'base'):
                    self.escape(st, b2, seen, status)


DETERMINISTIC = frozenset('memcpy memmove memset memcmp bcmp memchr strlen strnlen strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr strpbrk strspn strcspn strcpy strncpy '
                          'strcat atoi atol abs isspace isdigit isalpha toupper tolower __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc'.split())
BIGOFF = 1 << 50


class InitName:
    """name of an initial-content symbol; hashable and printable"""
    __slots__ = ('base', 'ver', 'off', 'n', 'h')

    def __init__(self, base, ver, off, n):
        self.base, self.ver, self.off, self.n = base, ver, off, n
        self.h = hash((base.id, ver, off, n))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, InitName) and self.base is o.base and self.ver == o.ver and self.off is o.off and self.n == o.n

    def __str__(self):
        return '%s[%s]%s' % (self.base.args[0], self.off, ("'" * 1 if self.ver else ''))
    __repr__ = __str__


# ---------------------------------------------------------------------------
def readonly_global(g):
    """internal global that no instruction of its module stores to or lets escape"""
    uses = module_uses(g.module)
    return g.name not in uses


def module_direct(m):
    """globals that a store or a memory intrinsic of the module names directly"""
    out = set()

    def names(v):
        if isinstance(v, Value):
            if v.k == 'global':
                out.add(v.name)
            elif v.k in ('expr', 'agg') and v.ops:
                for o in v.ops:
                    names(o)
    for f in m.functions.values():
        if f.isdecl:
            continue
        for b in f.blocks:
            for i in b.instrs:
                if i.op == 'store':
                    p = i.ops[1]
                elif i.op == 'call' and getattr(i.extra, 'k', '') == 'func' and i.extra.name.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                    p = i.ops[0]
                else:
                    continue
                while isinstance(p, Instr) and p.op in ('gep', 'bitcast'):
                    p = p.ops[0]
                names(p)
    return out


def module_uses(m):
    """names of globals that are (or may be) written in module m"""
    r = getattr(m, '_written', None)
    if r is not None:
        return r
    written = set()

    def names(v, acc):
        if isinstance(v, Value):
            if v.k == 'global':
                acc.add(v.name)
            elif v.k in ('expr', 'agg') and v.ops:
                for o in v.ops:
                    names(o, acc)
        return acc

    for f in m.functions.values():
        if f.isdecl:
            continue
        # derived pointers within the function
        der = {}

        def origin(v):
            if isinstance(v, Instr):
                return der.get(v, set())
            return names(v, set())
        for b in f.blocks:
            for i in b.instrs:
                if i.op in ('gep', 'bitcast', 'select', 'phi', 'freeze'):
                    s = set()
                    for o in i.ops:
                        s |= origin(o)
                    der[i] = s
        for _ in range(2):
            for b in f.blocks:
                for i in b.instrs:
                    if i.op in ('gep', 'bitcast', 'select', 'phi', 'freeze'):
                        s = set(der.get(i, ()))
                        for o in i.ops:
                            s |= origin(o)
                        der[i] = s
        for b in f.blocks:
            for i in b.instrs:
                if i.op == 'store':
                    written |= origin(i.ops[0]) | origin(i.ops[1])
                elif i.op in ('call', 'invoke'):
                    nm = i.extra.name if isinstance(i.extra, Value) and i.extra.k == 'func' else None
                    for k, o in enumerate(i.ops):
                        if nm in READONLY_ARGS:
                            continue
                        if nm and (nm.startswith('llvm.memcpy') or nm in ('memcpy', 'memmove')) and k == 1:
                            continue
                        written |= origin(o)
                elif i.op in ('ret', 'ptrtoint', 'icmp'):
                    if i.op != 'icmp':
                        for o in i.ops:
                            written |= origin(o)
    for g in m.globals.values():
        if g.init is not None:
            written |= names(g.init, set()) if g.init.k in ('agg', 'expr') else set()
    # globals whose address sits in another initializer may be written through it
    m._written = written
    return written


READONLY_ARGS = {'strlen', 'strcmp', 'strncmp', 'memcmp', 'printf', 'fprintf', 'strchr', 'strcasecmp', 'atoi', 'puts', 'fputs'}


def const_at(eng, init, off, n, st):
    """value of n bytes at offset off of a constant initializer"""
    ty = init.ty
    k = init.k
    if off < 0 or off + n > ty.size:
        return None
    if k == 'zero':
        return t.const(8 * n, 0)
    if k == 'undef':
        return None
    if k == 'data':
        es = ty.elem.size
        if isinstance(init.v, bytes):
            return t.const(8 * n, int.from_bytes(init.v[off:off + n].ljust(n, b'\0'), 'little'))
        if off % es == 0 and n == es:
            v = init.v[off // es]
            return t.const(8 * n, v) if isinstance(v, int) else None
        if ty.elem.kind == 'int':
            bs = b''.join(int(v).to_bytes(es, 'little') for v in init.v)
            return t.const(8 * n, int.from_bytes(bs[off:off + n], 'little'))
        return None
    if k == 'agg':
        if ty.kind == 'struct':
            for e, o, ov in zip(ty.elems, ty.offs, init.ops):
                if o <= off and off + n <= o + e.size:
                    return const_at(eng, ov, off - o, n, st)
            if n == 1:
                return t.const(8, 0)
            # several members and the padding between them
            bs = [const_at(eng, init, off + i, 1, st) for i in range(n)]
            if all(b is not None and b.is_const for b in bs):
                return t.const(8 * n, sum((b.c & 255) << (8 * i) for i, b in enumerate(bs)))
            return None
        es = ty.elem.size
        i = off // es
        if off + n <= (i + 1) * es:
            return const_at(eng, init.ops[i], off - i * es, n, st)
        return None
    if off == 0 and n == ty.size:
        return eng.constval_in(init)
    if k == 'int':
        return t.const(8 * n, init.v >> (8 * off))
    if k == 'null':
        return t.const(8 * n, 0)
    return None


def _constval_in(self, v):
    k = v.k
    if k == 'int':
        return t.const(v.ty.width if v.ty.width % 8 == 0 else 8, v.v)
    if k == 'null':
        return NULL
    if k == 'global':
        m = self._cm
        return t.of(self.global_base(m, v.name))
    if k == 'func':
        return t.of(t.atom(64, 'base', ('@' + v.name,), ptr=True, info=('func', v.name, self._cm)))
    if k == 'expr' and v.op == 'gep':
        return t.add(_constval_in(self, v.ops[0]), self.gep_off(None, v.srcty, [_constval_in(self, o) for o in v.ops[1:]]))
    if k == 'expr' and v.ops:
        return _constval_in(self, v.ops[0])
    return None


Engine.constval_in = _constval_in
Engine._cm = None


_tbl = {}


def table_values(eng, g, n):
    key = (id(g), n)
    if key in _tbl:
        return _tbl[key]
    vals = []
    eng._cm = g.module
    ty = g.ty
    if ty.size % n == 0 and ty.size // n <= 70000:
        for i in range(ty.size // n):
            v = const_at(eng, g.init, i * n, n, None)
            vals.append(v.c if isinstance(v, t.Lin) and v.is_const else v)
    _tbl[key] = vals
    return vals


class Checker:
    """hooks; subclasses override what they need"""
    eng = None

    def enter(self, st, f, args): pass
    def leave(self, st, f, v, ins): pass
    def on_access(self, st, addr, n, rw, ins): pass
    def on_store(self, st, addr, v, n, ins): pass
    def on_gep(self, st, ins, base, idx): pass
    def on_shift(self, st, ins, a, b): pass
    def on_div(self, st, ins, a, b): pass
    def on_call(self, st, ins, name, args): return None
    def on_indirect(self, st, ins, callee, args): return None
    def on_unknown_call(self, st, ins, name, args): pass
    def on_external(self, st, ins, name, args): pass
    def on_opaque(self, st, ins, f): pass
    def on_no_progress(self, st, hdr, frm): pass
    def on_intrinsic(self, st, ins, name, args): pass
    def on_root_return(self, st, ins, v): pass
    def on_undef_read(self, st, base, off, n, ins): pass
    def on_lazy_obj(self, st, base, o): pass
    def on_back_edge(self, st, hdr, frm): pass
    def on_loop_header(self, st, hdr): pass
    def on_join(self, a, b): pass
    def merge_key(self, st): return None
    def on_alloc(self, st, ins, base, kind): pass
    def on_free(self, st, ins, addr, kind): pass
