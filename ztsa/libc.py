"""Models of the C library functions the code base calls: effects on memory, resources and
values.  A model returns [(state, value)] - several pairs when the call has several outcomes."""
from . import terms as t

C64 = lambda v: t.const(64, v)
ONE = C64(1)


def acc(eng, st, addr, n, rw, ins):
    for c in eng.checkers:
        c.on_access(st, addr, n, rw, ins)
        if rw == 'w':
            c.on_store(st, addr, None, n, ins)


def new_heap(eng, st, ins, size, init, kind='heap'):
    b = eng.alloc(st, kind, size, init, '%s@%s' % (kind, ins.block.func.name), ins.where, ins)
    fr = st.frames
    chain = '>'.join(f.func.name for f in fr)
    st.res[b] = ('live', kind, ins.where, callee_of(ins), chain)
    for c in eng.checkers:
        c.on_alloc(st, ins, b, kind)
    return b


def callee_of(ins):
    return ins.extra.name if getattr(ins.extra, 'k', '') == 'func' else '?'


def no_such(args):
    """is the size asked for (a product, for calloc) beyond what can exist"""
    n = 1
    for a in args:
        if not a.is_const:
            return False
        n *= a.c
    return n >= 1 << 63


def alloc_model(size_fn, init):
    def m(eng, st, ins, args):
        size = size_fn(args)
        outs = []
        if no_such(args):
            return [(st, C64(0))]
        if eng.alloc_fail:
            s2 = st.fork()
            s2.path = (s2.path, '%s: %s fails' % (ins.where, callee_of(ins)))
            s2.ts = dict(s2.ts)
            outs.append((s2, C64(0)))
            for c in eng.checkers:
                f = getattr(c, 'on_alloc_fail', None)
                if f:
                    f(s2, ins)
        b = new_heap(eng, st, ins, size, init)
        outs.append((st, t.of(b)))
        return outs
    return m


def mulsz(a, b):
    return t.mul(a, b)


malloc = alloc_model(lambda a: a[0], 'undef')
calloc = alloc_model(lambda a: mulsz(a[0], a[1]), 'zero')


def do_free(eng, st, ins, addr, kind='heap'):
    """returns False if the path dies"""
    for c in eng.checkers:
        c.on_free(st, ins, addr, kind)
    b, off = eng.split(st, addr)
    if b is None:
        return
    r = st.res.get(b)
    if r is not None:
        st.res[b] = ('freed',) + r[1:]
    else:
        st.res[b] = ('freed', kind, ins.where, '(caller)', '')


def free(eng, st, ins, args):
    p = eng.canon(st, args[0])
    v = eng.truth(st, t.icmp('eq', p, C64(0)))
    if v is True:
        return [(st, None)]
    if v is None:
        s2 = st.fork()
        ok = eng.assume(s2, t.icmp('eq', p, C64(0)), True, ins)
        outs = []
        if ok:
            outs.append((s2, None))
        if eng.assume(st, t.icmp('eq', p, C64(0)), False, ins):
            do_free(eng, st, ins, p)
            outs.append((st, None))
        return outs
    do_free(eng, st, ins, p)
    return [(st, None)]


def realloc(eng, st, ins, args):
    p, n = eng.canon(st, args[0]), args[1]
    isnull = t.icmp('eq', p, C64(0))
    v = eng.truth(st, isnull)
    outs = []
    if v is not False:
        s2 = st.fork() if v is None else st
        if v is True or eng.assume(s2, isnull, True, ins):
            outs.extend(malloc(eng, s2, ins, [n]))
        if v is True:
            return outs
    if v is None and not eng.assume(st, isnull, False, ins):
        return outs
    if eng.alloc_fail:
        s3 = st.fork()
        s3.path = (s3.path, '%s: %s fails' % (ins.where, callee_of(ins)))
        for c in eng.checkers:
            f = getattr(c, 'on_alloc_fail', None)
            if f:
                f(s3, ins)
        outs.append((s3, C64(0)))
    b, off = eng.split(st, p)
    old = st.mem.get(b) if b is not None else None
    for c in eng.checkers:
        f = getattr(c, 'on_realloc', None)
        if f:
            f(st, ins, p, n)
    do_free(eng, st, ins, p)
    nb = new_heap(eng, st, ins, n, 'undef')
    if old is not None:
        o = st.mem[nb].copy()
        o.cells = dict(old.cells)
        o.init = 'undef' if old.init == 'undef' else 'unk'
        o.clobs = old.clobs
        if (eng.boot and old.init == 'zero' and not old.clobs and old.size is not None and old.size.is_const and old.size.c <= 1024 and n.is_const
                and all(k.is_const for k in old.cells)):
            # the bytes of the old block that were never written are zero, those beyond it undefined
            have = set()
            for k, (v, w) in old.cells.items():
                have.update(range(k.c, k.c + w))
            for i in range(min(old.size.c, n.c)):
                if i not in have:
                    o.cells[C64(i)] = (t.const(8, 0), 1)
            o.init = 'undef'
        st.mem[nb] = o
    outs.append((st, t.of(nb)))
    return outs


def strlen_of(eng, st, p):
    b, off = eng.split(st, p)
    if b is None:
        return t.fresh(64, 'strlen', lo=0, hi=1 << 62, info='size')
    o = eng.obj(st, b)
    if o.init == 'const' and o.glob is not None and off.is_const and o.glob.init is not None and o.glob.init.k == 'data' \
            and isinstance(o.glob.init.v, bytes):
        s = o.glob.init.v[off.sc:]
        i = s.find(b'\0')
        if i >= 0:
            return C64(i)
    if o.init == 'const' and o.glob is not None and o.glob.init is not None and o.glob.init.k == 'zero' and off.is_const:
        return C64(0)
    # explicit terminator cells
    if off.is_const:
        k = off.sc
        n = 0
        while n < 64:
            c = o.cells.get(t.const(64, k + n))
            if c is None or c[1] != 1 or not isinstance(c[0], t.Lin) or not c[0].is_const:
                break
            if c[0].c == 0:
                return C64(n)
            n += 1
        if o.init == 'zero' and not o.clobs and not o.cells:
            return C64(0)
    key = tuple(sorted(((t._lkey(k), v[0].h if isinstance(v[0], t.Lin) else 0) for k, v in o.cells.items()), key=lambda q: str(q)))
    if o.init == 'const' or not content_cells(eng, b, o):
        key = ()
    at = t.atom(64, 'strlen', (t.add(t.of(b), off), o.ver, o.clobs, key), lo=0, hi=1 << 62, info='size')
    r = t.of(at)
    # a terminated string fits its object
    if o.size is not None:
        from .facts import zadd
        e = zadd(zadd(st.facts.zs(r), st.facts.zs(off)), st.facts.zs(o.size), -1)
        e.c += 1
        st.facts.add_ineq(e)
    # a first character known not to be the terminator
    c = o.cells.get(off)
    if c is not None and c[1] == 1 and isinstance(c[0], t.Lin):
        v = eng.truth(st, t.icmp('eq', eng.canon(st, c[0]), t.const(8, 0)))
        if v is False:
            e = st.facts.zs(r)
            e = type(e)({k: -x for k, x in e.d.items()}, -e.c + 1)
            st.facts.add_ineq(e)
    return r


def content_cells(eng, b, o):
    for off, (v, n) in o.cells.items():
        if isinstance(v, t.Lin) and o.init == 'unk' and v is eng.init_sym_if(b, o, off, n):
            continue
        return True
    return False


def strlen(eng, st, ins, args):
    acc(eng, st, args[0], ONE, 'r', ins)
    return [(st, strlen_of(eng, st, args[0]))]


def strdup(eng, st, ins, args):
    acc(eng, st, args[0], ONE, 'r', ins)
    n = t.add(strlen_of(eng, st, args[0]), ONE)
    outs = malloc(eng, st, ins, [n])
    for s, v in outs:
        if not v.is_const:
            b, _ = eng.split(s, v)
            s.mem[b].init = 'unk'
            same_len(eng, s, v, t.add(n, C64(-1)))
    return outs


def strndup(eng, st, ins, args):
    acc(eng, st, args[0], ONE, 'r', ins)
    outs = malloc(eng, st, ins, [t.fresh(64, 'strndup', lo=1, hi=1 << 62, info='size')])
    for s, v in outs:
        if not v.is_const:
            b, _ = eng.split(s, v)
            s.mem[b].init = 'unk'
    return outs


def memcpy(eng, st, ins, args):
    d, s, n = args[0], args[1], args[2]
    if n.w < 64:
        n = t.zext(n, 64)
    n = eng.canon(st, n)
    if not (n.is_const and n.c == 0):
        acc(eng, st, s, n, 'r', ins)
        acc(eng, st, d, n, 'w', ins)
    if st.facts.dead:
        return []
    if n.is_const and n.c <= 512:
        copy_const(eng, st, d, s, n.c, ins)
    else:
        eng.clobber(st, d, n)
    return [(st, d)]


def copy_const(eng, st, d, s, n, ins):
    sb, so = eng.split(st, s)
    db, do = eng.split(st, d)
    if sb is None or db is None:
        if db is not None:
            eng.clobber(st, d, C64(n))
        return
    o = eng.obj(st, sb)

    class Ty:
        kind = 'int'
        width = 0
        size = 0
    cells = []
    i = 0
    known = {}
    for k, (v, m) in o.cells.items():
        dd = t.sub(k, so)
        if dd.is_const and 0 <= dd.sc and dd.sc + m <= n:
            known[dd.sc] = (v, m)
    struct8 = so.is_const
    while i < n:
        if i in known:
            v, m = known[i]
            cells.append((i, v, m))
            i += m
            continue
        nxt = min([k for k in known if k > i] + [n])
        if o.init == 'undef' and not o.clobs and not any(eng.may_overlap(st, sb, k, c[1], t.add(so, C64(i)), C64(nxt - i)) for k, c in o.cells.items()):
            i = nxt
            continue
        m = 8
        while m > nxt - i or (i % m):
            m //= 2
        ty = Ty()
        ty.width = 8 * m
        ty.size = m
        if m == 8:
            ty.kind = 'int'
        v = eng.load(st, t.add(s, C64(i)), m, ty, ins)
        cells.append((i, v, m))
        i += m
    for i, v, m in cells:
        eng.last_store_rng = None
        eng.store(st, t.add(d, C64(i)), v, m, ins)


def memset(eng, st, ins, args):
    d, v, n = args[0], args[1], args[2]
    if n.w < 64:
        n = t.zext(n, 64)
    n = eng.canon(st, n)
    if not (n.is_const and n.c == 0):
        acc(eng, st, d, n, 'w', ins)
    if st.facts.dead:
        return []
    b, off = eng.split(st, d)
    if b is None:
        return [(st, d)]
    o = eng.obj(st, b)
    v8 = t.trunc(v, 8) if v.w > 8 else v
    if v8.is_const and v8.c == 0 and off.is_const and off.c == 0 and o.size is not None and o.size is n and o.kind in ('alloca', 'heap'):
        o = st.wobj(b)
        o.cells = {}
        o.clobs = ()
        o.init = 'zero'
        return [(st, d)]
    if (eng.boot and v8.is_const and v8.c == 0 and off.is_const and off.c == 0 and n.is_const and n.c > 256 and o.size is not None
            and o.size.is_const and 0 <= o.size.c - n.c <= 64 and o.kind in ('alloca', 'heap', 'global') and o.init != 'const'):
        tail = {}
        for i in range(n.c, o.size.c):
            v = eng.load(st, t.add(t.of(b), C64(i)), 1, None, ins)
            tail[C64(i)] = (v, 1)
        o = st.wobj(b)
        o.cells = tail
        o.clobs = ()
        o.init = 'zero'
        return [(st, d)]
    if v8.is_const and n.is_const and n.c <= 256 and off.is_const:
        eng.clobber(st, d, n)
        o = st.wobj(b)
        o.clobs = o.clobs[:-1]
        i = 0
        while i < n.c:
            m = 8
            while m > n.c - i or (off.c + i) % m:
                m //= 2
            o.cells[t.add(off, C64(i))] = (t.const(8 * m, int.from_bytes(bytes([v8.c]) * m, 'little')), m)
            i += m
        return [(st, d)]
    eng.clobber(st, d, n)
    return [(st, d)]


def ret_int(lo=None, hi=None):
    def m(eng, st, ins, args):
        for a in args:
            if isinstance(a, t.Lin) and a.w == 64:
                b, off = eng.split(st, a)
        return [(st, ret_fresh(eng, ins, lo, hi))]
    return m


def ret_fresh(eng, ins, lo=None, hi=None):
    if ins.ty.kind == 'void':
        return None
    if ins.ty.kind == 'ptr':
        return t.fresh(64, callee_of(ins), ptr=True)
    if ins.ty.kind == 'struct':
        return eng.fresh_val(ins.ty, callee_of(ins))
    return t.fresh(ins.ty.width, callee_of(ins), lo=lo, hi=hi)


def reads(idx, lo=None, hi=None):
    """pure: reads strings/objects at argument positions idx"""
    def m(eng, st, ins, args):
        for i in idx:
            if i < len(args):
                acc(eng, st, args[i], ONE, 'r', ins)
        return [(st, ret_fresh(eng, ins, lo, hi))]
    return m


def reads_n(idx, nidx):
    def m(eng, st, ins, args):
        n = args[nidx]
        if not (n.is_const and n.c == 0):
            for i in idx:
                acc(eng, st, args[i], n, 'r', ins)
        return [(st, ret_fresh(eng, ins))]
    return m


def strncmp(eng, st, ins, args):
    acc(eng, st, args[0], ONE, 'r', ins)
    acc(eng, st, args[1], ONE, 'r', ins)
    return [(st, ret_fresh(eng, ins))]


def same_len(eng, st, d, n):
    """fact: the string at d has length n"""
    from .facts import zadd
    st.facts.add_eq0(zadd(st.facts.zs(strlen_of(eng, st, d)), st.facts.zs(n), -1))


def find_in(idx, nullable=True, kind='ptr'):
    """returns null or a pointer into the string argument"""
    def m(eng, st, ins, args):
        acc(eng, st, args[idx], ONE, 'r', ins)
        p = args[idx]
        s2 = st.fork()
        k = t.fresh(64, 'idx', lo=0, hi=1 << 62, info='size')
        n = strlen_of(eng, st, p)
        from .facts import zadd
        e = zadd(st.facts.zs(k), st.facts.zs(n), -1)
        if kind == 'str':       # the whole needle lies inside
            e = zadd(e, st.facts.zs(strlen_of(eng, st, args[1])))
        elif kind == 'set':     # a character other than the terminator
            e.c += 1
        elif kind == 'chr':     # the terminator only when that is what is searched for
            c = t.trunc(args[1], 8) if args[1].w > 8 else args[1]
            if eng.truth(st, t.icmp('eq', c, t.const(8, 0))) is False:
                e.c += 1
        st.facts.add_ineq(e)
        return [(st, t.add(p, k)), (s2, C64(0))]
    return m


def noreturn(eng, st, ins, args):
    for c in eng.checkers:
        f = getattr(c, 'on_noreturn', None)
        if f:
            f(st, ins, callee_of(ins), args)
    return []


def fmt_hook(eng, st, ins, name, fmt):
    for c in eng.checkers:
        f = getattr(c, 'on_format', None)
        if f:
            f(st, ins, name, fmt)


def fmt_to_buf(dst, size, fi=2):
    """snprintf family: writes at most size bytes at dst, always terminated when size > 0"""
    def m(eng, st, ins, args):
        if callee_of(ins).endswith('printf'):
            fmt_hook(eng, st, ins, callee_of(ins), args[fi])
        d, n = args[dst], args[size]
        if not (n.is_const and n.c == 0):
            acc(eng, st, d, n, 'w', ins)
        if st.facts.dead:
            return []
        eng.clobber(st, d, n)
        return [(st, ret_fresh(eng, ins))]
    return m


def fmt_text(eng, st, p, ins):
    """the format at p as a list of byte terms up to its terminator, or None when it is not known"""
    b, off = eng.split(st, p)
    if b is None or not off.is_const:
        return None
    o = eng.obj(st, b)
    if o.init == 'const' and o.glob is not None and o.glob.init is not None and o.glob.init.k == 'data' and isinstance(o.glob.init.v, bytes):
        s = o.glob.init.v[off.sc:]
        i = s.find(b'\0')
        return [t.const(8, c) for c in s[:i]] if i >= 0 else None
    if o.kind == 'alloca' and o.size is not None and o.size.is_const and o.size.c <= 64:
        out = []
        for k in range(off.sc, o.size.c):
            cov = any(q.is_const and q.sc <= k < q.sc + n for q, (v, n) in o.cells.items())
            if not cov:
                return None
            v = eng.canon(st, eng.load(st, t.add(t.of(b), C64(k)), 1, None, ins))
            if v.is_const and v.c == 0:
                return out
            out.append(v)
    return None


def digits_of(st, v, signed):
    """the most characters the decimal text of v needs"""
    f = st.facts
    w = v.w
    z = f.zs(v) if signed else f.zu(v)
    from .facts import zadd, zscale, Z

    def most(e, top):
        k = 1
        while 10 ** k - 1 < top:
            q = Z(dict(e.d), e.c - (10 ** k - 1))
            if f.entails(q):
                return k
            k += 1
        return len(str(top))
    n = most(z, (1 << (w - 1)) - 1 if signed else (1 << w) - 1)
    if signed and not f.entails(zscale(z, -1)):
        n = max(n, 1 + most(zscale(z, -1), 1 << (w - 1)))
    return n


def is_digit(f, v):
    """v is the character of a decimal digit"""
    if f.within(f.zs(v), 48, 57):
        return True
    if len(v.ts) == 1 and v.ts[0][1] == 1 and v.c == 48:
        x = v.ts[0][0]
        if x.kind == 'trunc' and isinstance(x.args[0], t.Lin) and x.args[0].atom is not None:
            x = x.args[0].atom
        if x.kind in ('srem', 'urem') and x.args[1].is_const and 0 < x.args[1].c <= 10:
            q = x.args[0]
            while q.atom is not None and q.atom.kind in ('sdiv', 'udiv') and q.atom.args[1].is_const and 0 < q.atom.args[1].sc:
                q = q.atom.args[0]
            from .facts import zscale
            return x.kind == 'urem' or f.entails(zscale(f.zs(q), -1))
    return False


def printed_length(eng, st, ins, fmt, ops, args):
    """(exact part: list of terms, most characters besides) of the text a format yields, or None"""
    bs = fmt_text(eng, st, fmt, ins)
    if bs is None:
        return None

    def ch(i):
        """the character at i: its code, '0' for some digit, None if unknown"""
        if i >= len(bs):
            return 0
        v = bs[i]
        if v.is_const:
            return v.c
        if is_digit(st.facts, v):
            return -57
        return None
    i = 0
    terms, extra = [], 0
    args = list(zip(ops, args))
    while i < len(bs):
        c = ch(i)
        if c is None:
            return None
        i += 1
        if c != 37:
            extra += 1
            continue
        while ch(i) in (32, 35, 43, 45, 48, 39):
            i += 1
        width, prec = 0, None
        nums = []
        for _ in range(2):
            n, any_ = 0, False
            if ch(i) == 42:
                return None
            while True:
                d = ch(i)
                if d == -57:
                    d = 57
                if d is None or not 48 <= d <= 57:
                    break
                n, any_ = n * 10 + d - 48, True
                i += 1
            nums.append(n)
            if len(nums) == 1 and ch(i) == 46:
                i += 1
                prec = 0
                continue
            break
        width = nums[0]
        if prec is not None:
            prec = nums[1]
        while ch(i) in (104, 108, 106, 122, 116, 76, 113):
            i += 1
        c = ch(i)
        i += 1
        if c == 37:
            extra += 1
            continue
        if not args:
            return None
        o, v = args.pop(0)
        k = o.ty.kind if o.ty is not None else None
        if k in ('double', 'x86_fp80', 'float'):
            p = 6 if prec is None else prec
            n = {101: p + 8, 69: p + 8, 103: max(p, 1) + 7, 71: max(p, 1) + 7}.get(c, 1 + (309 if k != 'x86_fp80' else 4933) + (p + 1 if p else 0))
            extra += max(n, width)
            continue
        if c is None:
            return None
        if c == 99:
            extra += max(1, width)
        elif c == 112:
            extra += max(18, width)
        elif c in (100, 105, 117, 120, 88, 111) and isinstance(v, t.Lin):
            v = eng.canon(st, v)
            n = digits_of(st, v, c in (100, 105)) if c in (100, 105, 117) else (v.w + 3) // 4 + 2 if c != 111 else (v.w + 2) // 3 + 1
            extra += max(n, width, (prec or 0) + 1)
        elif c == 115:
            if prec is not None:
                extra += max(prec, width)
            elif width:
                return None
            else:
                terms.append(strlen_of(eng, st, v))
        else:
            return None
    return terms, extra, i


def sprintf_unb(dst):
    def m(eng, st, ins, args):
        nm = callee_of(ins)
        fmt_hook(eng, st, ins, nm, args[1])
        pl = printed_length(eng, st, ins, args[1], ins.ops[2:], args[2:]) if nm == 'sprintf' else None
        if pl is None:
            acc(eng, st, args[dst], ONE, 'w', ins)
            for c in eng.checkers:
                f = getattr(c, 'on_unbounded', None)
                if f:
                    f(st, ins, nm, args)
            b, off = eng.split(st, args[dst])
            if b is not None:
                eng.clobber(st, args[dst], t.fresh(64, 'n', lo=0, hi=1 << 62, info='size'))
            return [(st, ret_fresh(eng, ins))]
        terms, extra, _ = pl
        fixed = fmt_text(eng, st, args[1], ins)
        if fixed and all(c.is_const for c in fixed) and b'%' not in bytes(c.c for c in fixed):
            n = C64(extra)
        elif extra:
            n = t.fresh(64, 'printed', lo=0, hi=extra, info='size')
        else:
            n = C64(0)
        for s in terms:
            n = t.add(n, s)
        for o, v in zip(ins.ops[2:], args[2:]):
            if o.ty is not None and o.ty.kind == 'ptr':
                acc(eng, st, v, ONE, 'r', ins)
        acc(eng, st, args[dst], t.add(n, ONE), 'w', ins)
        if st.facts.dead:
            return []
        b, off = eng.split(st, args[dst])
        if b is not None:
            eng.clobber(st, args[dst], t.add(n, ONE))
            same_len(eng, st, args[dst], n)
        return [(st, t.trunc(n, ins.ty.width) if ins.ty.kind == 'int' else None)]
    return m


def strftime(eng, st, ins, args):
    """writes at most the room given; what it returns, when not 0, is the length of the text"""
    d, n = args[0], args[1]
    acc(eng, st, d, n, 'w', ins)
    acc(eng, st, args[2], ONE, 'r', ins)
    if st.facts.dead:
        return []
    eng.clobber(st, d, n)
    from .facts import zadd
    r = t.fresh(64, 'strftime', lo=0, hi=1 << 62, info='size')
    e = zadd(st.facts.zs(r), st.facts.zu(eng.canon(st, n)), -1)
    e.c += 1
    st.facts.add_ineq(e)
    if st.facts.dead:
        return []
    same_len(eng, st, d, r)
    return [(st, r)]


def strcpy(eng, st, ins, args):
    d, s = args[0], args[1]
    acc(eng, st, s, ONE, 'r', ins)
    n = t.add(strlen_of(eng, st, s), ONE)
    acc(eng, st, d, n, 'w', ins)
    if st.facts.dead:
        return []
    ln = strlen_of(eng, st, s)
    eng.clobber(st, d, n)
    same_len(eng, st, d, ln)
    return [(st, d)]


def strcat(eng, st, ins, args):
    d, s = args[0], args[1]
    acc(eng, st, s, ONE, 'r', ins)
    acc(eng, st, d, ONE, 'r', ins)
    n = t.add(strlen_of(eng, st, s), strlen_of(eng, st, d))
    acc(eng, st, d, t.add(n, ONE), 'w', ins)
    if st.facts.dead:
        return []
    eng.clobber(st, d, t.add(n, ONE))
    same_len(eng, st, d, n)
    return [(st, d)]


def strncat(eng, st, ins, args):
    d, s = args[0], args[1]
    acc(eng, st, d, ONE, 'r', ins)
    k = t.fresh(64, 'ncat', lo=0, hi=1 << 62, info='size')
    from .facts import zadd
    st.facts.add_ineq(zadd(st.facts.zs(k), st.facts.zu(eng.canon(st, args[2])), -1))
    st.facts.add_ineq(zadd(st.facts.zs(k), st.facts.zs(strlen_of(eng, st, s)), -1))
    n = t.add(k, strlen_of(eng, st, d))
    acc(eng, st, d, t.add(n, ONE), 'w', ins)
    if st.facts.dead:
        return []
    eng.clobber(st, d, t.add(n, ONE))
    same_len(eng, st, d, n)
    return [(st, d)]


def strncpy(eng, st, ins, args):
    d, s, n = args
    acc(eng, st, s, ONE, 'r', ins)
    acc(eng, st, d, n, 'w', ins)
    if st.facts.dead:
        return []
    eng.clobber(st, d, n)
    return [(st, d)]


def asprintf(eng, st, ins, args):
    d = args[0]
    fmt_hook(eng, st, ins, callee_of(ins), args[1])
    acc(eng, st, d, C64(8), 'w', ins)
    s2 = st.fork()
    r = t.fresh(32, 'asprintf', lo=0, hi=(1 << 31) - 1)
    b = new_heap(eng, st, ins, t.fresh(64, 'assize', lo=1, hi=1 << 31, info='size'), 'unk')
    eng.last_store_rng = None
    eng.store(st, d, t.of(b), 8, ins)
    outs = [(st, r)]
    if eng.alloc_fail:
        eng.clobber(s2, d, C64(8))
        outs.append((s2, t.const(32, -1)))
    return outs


# ---- files -----------------------------------------------------------------
def opener(kind):
    def m(eng, st, ins, args):
        for a in args:
            if isinstance(a, t.Lin) and a.w == 64 and not a.is_const:
                acc(eng, st, a, ONE, 'r', ins)
        s2 = st.fork()
        s2.path = (s2.path, '%s: %s fails' % (ins.where, callee_of(ins)))
        for c in eng.checkers:
            f = getattr(c, 'on_open_fail', None)
            if f:
                f(s2, ins)
        b = new_heap(eng, st, ins, None, 'unk', kind)
        return [(st, t.of(b)), (s2, C64(0))]
    return m


def fclose(eng, st, ins, args):
    acc(eng, st, args[0], ONE, 'r', ins)
    do_free(eng, st, ins, args[0], 'file')
    return [(st, ret_fresh(eng, ins))]


def open_fd(eng, st, ins, args):
    for a in args[:1]:
        if isinstance(a, t.Lin) and a.w == 64 and not a.is_const:
            acc(eng, st, a, ONE, 'r', ins)
    s2 = st.fork()
    s2.path = (s2.path, '%s: %s fails' % (ins.where, callee_of(ins)))
    r = t.fresh(ins.ty.width, 'fd', lo=0, hi=1 << 20)
    st.res[r.atom] = ('live', 'fd', ins.where, callee_of(ins), '>'.join(f.func.name for f in st.frames))
    for c in eng.checkers:
        c.on_alloc(st, ins, r.atom, 'fd')
    return [(st, r), (s2, t.const(ins.ty.width, -1))]


def close_fd(eng, st, ins, args):
    fd = eng.canon(st, args[0])
    for c in eng.checkers:
        c.on_free(st, ins, fd, 'fd')
    for a, k in fd.ts:
        b = a
        if a in st.res:
            st.res[a] = ('freed',) + st.res[a][1:]
        elif a.kind == 'sym':
            st.res[a] = ('freed', 'fd', ins.where, '(caller)', '')
    return [(st, ret_fresh(eng, ins))]


def fgets_like(eng, st, ins, args):
    """fgets(buf, n, f) / fread"""
    d, n = args[0], t.sext(args[1], 64)
    acc(eng, st, d, n, 'w', ins)
    if st.facts.dead:
        return []
    s2 = st.fork()
    eng.clobber(st, d, n)
    return [(st, d), (s2, C64(0))]


def fread(eng, st, ins, args):
    n = t.mul(args[1], args[2])
    acc(eng, st, args[0], n, 'w', ins)
    if st.facts.dead:
        return []
    s2 = st.fork()
    eng.clobber(st, args[0], n)
    r = t.fresh(64, 'fread', lo=1, hi=1 << 62, info='size')
    from .facts import zadd
    st.facts.add_ineq(zadd(st.facts.zs(r), st.facts.zs(args[2]), -1))
    return [(st, r), (s2, C64(0))]


def read_fd(eng, st, ins, args):
    acc(eng, st, args[1], args[2], 'w', ins)
    if st.facts.dead:
        return []
    s2 = st.fork()
    eng.clobber(st, args[1], args[2])
    r = t.fresh(64, 'read', lo=1, hi=1 << 62)
    from .facts import zadd
    st.facts.add_ineq(zadd(st.facts.zs(r), st.facts.zs(args[2]), -1))
    return [(st, r), (s2, t.fresh(64, 'read', lo=-1, hi=0))]


def write_fd(eng, st, ins, args):
    acc(eng, st, args[1], args[2], 'r', ins)
    r = t.fresh(64, 'write', lo=-1, hi=1 << 62)
    return [(st, r)]


def outparam(idx, n, rets=None):
    """writes n bytes at *args[idx]"""
    def m(eng, st, ins, args):
        if not args[idx].is_const:
            acc(eng, st, args[idx], C64(n), 'w', ins)
            eng.clobber(st, args[idx], C64(n))
        return [(st, ret_fresh(eng, ins))]
    return m


def may_fail(idx, n):
    """writes at *args[idx] and returns 0, or returns -1 and writes nothing; n: a size or the name of the argument holding it"""
    def m(eng, st, ins, args):
        s2 = st.fork()
        outs = [(s2, t.const(32, (1 << 32) - 1))]
        if not args[idx].is_const:
            k = args[int(n[1:])] if isinstance(n, str) else C64(n)
            acc(eng, st, args[idx], k, 'w', ins)
            if not st.facts.dead:
                eng.clobber(st, args[idx], k)
                outs.append((st, t.const(32, 0)))
        else:
            outs.append((st, t.const(32, 0)))
        return outs
    return m


def strtol(eng, st, ins, args):
    acc(eng, st, args[0], ONE, 'r', ins)
    e = args[1]
    if not (e.is_const and e.c == 0):
        v = eng.truth(st, t.icmp('eq', e, C64(0)))
        if v is not True:
            eng.last_store_rng = None
            k = t.fresh(64, 'end', lo=0, hi=1 << 62, info='size')
            n = strlen_of(eng, st, args[0])
            from .facts import zadd
            st.facts.add_ineq(zadd(st.facts.zs(k), st.facts.zs(n), -1))
            eng.store(st, e, t.add(args[0], k), 8, ins)
    return [(st, ret_fresh(eng, ins))]


def errno_loc(eng, st, ins, args):
    b = t.atom(64, 'base', ('errno',), ptr=True, info=('obj', 'errno'))
    from .engine import Obj
    if eng.errno_exact:
        if b not in st.mem:
            st.mem[b] = Obj('global', C64(4), 'unk', 'errno')
    else:
        st.mem[b] = Obj('volatile', C64(4), 'unk', 'errno')
    return [(st, t.of(b))]


def ctype_loc(eng, st, ins, args):
    b = t.atom(64, 'base', (callee_of(ins),), ptr=True, info=('obj', 'ctype'))
    return [(st, t.of(b))]


def va_start(eng, st, ins, args):
    fr = st.frames[-1]
    ap = args[0]
    b = eng.alloc(st, 'varargs', None, 'unk', 'va@%s' % fr.func.name, ins.where, ins)
    fr.allocas.append(b)
    o = st.wobj(b)
    root = len(st.frames) == 1
    for i, v in enumerate(fr.varargs):
        if isinstance(v, t.Lin):
            if v.w < 64:
                v = t.zext(v, 64)
            o.cells[C64(8 * i)] = (v, 8)
    eng.last_store_rng = None
    eng.store(st, ap, t.const(32, 48), 4, ins)
    eng.store(st, t.add(ap, C64(4)), t.const(32, 176), 4, ins)
    eng.store(st, t.add(ap, C64(8)), t.of(b), 8, ins)
    eng.store(st, t.add(ap, C64(16)), C64(0), 8, ins)
    for c in eng.checkers:
        c.on_intrinsic(st, ins, 'va_start', args)


def va_copy(eng, st, ins, args):
    copy_const(eng, st, args[0], args[1], 24, ins)
    for c in eng.checkers:
        c.on_intrinsic(st, ins, 'va_copy', args)


def simple(eng, st, ins, args):
    return [(st, ret_fresh(eng, ins))]


def pure_nonneg(eng, st, ins, args):
    return [(st, ret_fresh(eng, ins, 0, None))]


def printf_like(fmt_idx):
    def m(eng, st, ins, args):
        fmt_hook(eng, st, ins, callee_of(ins), args[fmt_idx])
        acc(eng, st, args[fmt_idx], ONE, 'r', ins)
        return [(st, ret_fresh(eng, ins))]
    return m


def getenv(eng, st, ins, args):
    acc(eng, st, args[0], ONE, 'r', ins)
    s2 = st.fork()
    r = t.fresh(64, callee_of(ins), ptr=True)
    eng.assume(st, t.icmp('eq', r, C64(0)), False)
    return [(st, r), (s2, C64(0))]


def nonnull_ptr(eng, st, ins, args):
    for a in args:
        if isinstance(a, t.Lin) and a.w == 64 and not a.is_const:
            b, off = eng.split(st, a)
    r = t.fresh(64, callee_of(ins), ptr=True)
    eng.assume(st, t.icmp('eq', r, C64(0)), False)
    return [(st, r)]


def power(eng, st, ins, args):
    from .engine import float_val, float_const
    x, y = float_val(args[0]), float_val(args[1])
    r = None
    if x is not None and y is not None and y.denominator == 1 and 0 <= y < 64:
        r = float_const(args[0].w, x ** int(y))
        if r is not None and args[0].w != 80 and float_val(r) != x ** int(y):
            r = None
    return [(st, r or ret_fresh(eng, ins))]


MODELS = {
    'malloc': malloc, 'calloc': calloc, 'realloc': realloc, 'free': free, 'cfree': free,
    'strdup': strdup, '__strdup': strdup, 'strndup': strndup, 'strlen': strlen,
    'memcpy': memcpy, 'memmove': memcpy, 'memset': memset, 'mempcpy': memcpy,
    'bzero': lambda e, s, i, a: memset(e, s, i, [a[0], t.const(32, 0), a[1]]),
    'memcmp': reads_n((0, 1), 2), 'bcmp': reads_n((0, 1), 2), 'strcmp': reads((0, 1)), 'strncmp': strncmp, 'strcasecmp': reads((0, 1)),
    'strncasecmp': strncmp, 'strchr': find_in(0, kind='chr'), 'strrchr': find_in(0, kind='chr'), 'strstr': find_in(0, kind='str'), 'strpbrk': find_in(0, kind='set'),
    'index': find_in(0, kind='chr'), 'rindex': find_in(0, kind='chr'),
    'strspn': reads((0, 1)), 'strcspn': reads((0, 1)), 'atoi': reads((0,)), 'atol': reads((0,)), 'atof': reads((0,)),
    'strtol': strtol, 'strtoul': strtol, 'strtod': strtol, 'strtoll': strtol, 'strtoull': strtol, 'strtold': strtol, 'strtof': strtol,
    'strcpy': strcpy, 'strcat': strcat, 'strncpy': strncpy, 'strncat': strncat,
    'snprintf': fmt_to_buf(0, 1), 'vsnprintf': fmt_to_buf(0, 1), 'strftime': strftime,
    'sprintf': sprintf_unb(0), 'vsprintf': sprintf_unb(0),
    'asprintf': asprintf, 'vasprintf': asprintf,
    'printf': printf_like(0), 'fprintf': printf_like(1), 'vprintf': printf_like(0), 'vfprintf': printf_like(1), 'dprintf': printf_like(1),
    'syslog': printf_like(1), 'vsyslog': printf_like(1), 'puts': reads((0,)), 'fputs': reads((0,)), 'putchar': simple, 'fputc': simple,
    'putc': simple, 'fflush': simple, 'fwrite': lambda e, s, i, a: (acc(e, s, a[0], t.mul(a[1], a[2]), 'r', i), [(s, ret_fresh(e, i))])[1],
    'fopen': opener('file'), 'fdopen': opener('file'), 'fclose': fclose, 'popen': opener('file'), 'pclose': fclose,
    'opendir': opener('dir'), 'closedir': fclose,
    'open': open_fd, 'creat': open_fd, 'open64': open_fd, 'dup': open_fd, 'close': close_fd, 'dup2': simple, 'fgets': fgets_like, 'fread': fread,
    'read': read_fd, 'write': write_fd, 'fgetc': simple, 'getc': simple, 'ungetc': simple, 'feof': simple, 'ferror': simple,
    'lseek': simple, 'fseek': simple, 'ftell': simple, 'ftruncate': simple, 'fileno': simple, 'isatty': simple,
    'stat': may_fail(1, 144), 'lstat': may_fail(1, 144), 'fstat': may_fail(1, 144), 'gethostname': may_fail(0, '#1'), 'getrlimit': may_fail(1, 16), 'mkdir': reads((0,)), 'unlink': reads((0,)), 'rename': reads((0, 1)),
    'access': reads((0,)), 'chdir': reads((0,)), 'umask': simple, 'rmdir': reads((0,)),
    'getcwd': fmt_to_buf(0, 1), 'realpath': getenv, 'readlink': lambda e, s, i, a: (acc(e, s, a[1], a[2], 'w', i), e.clobber(s, a[1], a[2]), [(s, t.fresh(64, 'readlink', lo=-1, hi=1 << 40))])[2],
    'gettimeofday': outparam(0, 16), 'time': simple, 'localtime': nonnull_ptr, 'gmtime': nonnull_ptr, 'localtime_r': outparam(1, 56), 'gmtime_r': outparam(1, 56),
    'clock': simple, 'times': outparam(0, 32), 'getrusage': outparam(1, 144), 'sleep': simple, 'usleep': simple, 'nanosleep': simple,
    'clock_gettime': outparam(1, 16), 'select': simple,
    'abort': noreturn, 'exit': noreturn, '_exit': noreturn, '__assert_fail': noreturn, '_Exit': noreturn, 'longjmp': noreturn, '_longjmp': noreturn,
    'siglongjmp': noreturn, '__longjmp_chk': noreturn,
    '__errno_location': errno_loc, '__ctype_b_loc': ctype_loc, '__ctype_tolower_loc': ctype_loc, '__ctype_toupper_loc': ctype_loc,
    'getenv': getenv, 'getpid': simple, 'getppid': simple, 'fork': simple, 'setsid': simple, 'kill': simple, 'signal': simple, 'waitpid': simple, 'getuid': simple,
    'raise': simple, 'atexit': simple, 'random': pure_nonneg, 'srandom': simple, 'rand': pure_nonneg, 'srand': simple,
    'strerror': nonnull_ptr, 'openlog': simple, 'closelog': simple,
    'isalpha': simple, 'isdigit': simple, 'isalnum': simple, 'isspace': simple, 'isprint': simple, 'isupper': simple, 'islower': simple,
    'tolower': simple, 'toupper': simple, 'abs': simple, 'pow': power, 'powl': power, 'floor': simple, 'log': simple, 'log10': simple,
    'fabs': simple, 'modf': outparam(1, 8), 'frexp': outparam(1, 4), 'ldexp': simple, 'fmod': simple, 'ceil': simple,
    'isatty': simple, 'sysconf': simple, 'getpagesize': simple,
    'inet_pton': outparam(2, 4), 'inet_ntoa': nonnull_ptr, 'inet_addr': reads((0,)), 'inet_aton': outparam(1, 4),
    'htonl': simple, 'ntohl': simple,
    'pthread_self': simple, 'pthread_equal': simple,
    '_setjmp': lambda e, s, i, a: [(s, t.const(32, 0)), (s.fork(), t.fresh(32, 'setjmp'))], 'setjmp': lambda e, s, i, a: [(s, t.const(32, 0))],
    '__sigsetjmp': lambda e, s, i, a: [(s, t.const(32, 0))],
    'qsort': simple,
}
MODELS['fwrite_unlocked'] = MODELS['fwrite']
for _n in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_cond_wait', 'pthread_cond_signal',
           'pthread_cond_broadcast', 'pthread_cond_timedwait', 'pthread_mutex_destroy', 'pthread_cond_destroy', 'pthread_join',
           'pthread_detach', 'pthread_kill', 'pthread_cancel', 'pthread_attr_destroy', 'pthread_setspecific', 'pthread_getspecific',
           'pthread_once'):
    MODELS[_n] = simple
MODELS['pthread_mutex_init'] = outparam(0, 40)
MODELS['pthread_cond_init'] = outparam(0, 48)
MODELS['pthread_attr_init'] = outparam(0, 56)


def pipe(eng, st, ins, args):
    p = args[0]
    s2 = st.fork()
    s2.path = (s2.path, '%s: pipe fails' % ins.where)
    eng.last_store_rng = None
    for i in (0, 4):
        r = t.fresh(32, 'pipefd', lo=0, hi=1 << 20)
        st.res[r.atom] = ('live', 'fd', ins.where, 'pipe', '>'.join(f.func.name for f in st.frames))
        eng.store(st, t.add(p, C64(i)), r, 4, ins)
    return [(st, t.const(32, 0)), (s2, t.const(32, -1))]


MODELS['pipe'] = pipe


def setspecific(eng, st, ins, args):
    b, off = eng.split(st, args[1])
    if b is not None:
        eng.escape(st, b, set())
    return [(st, ret_fresh(eng, ins))]


MODELS['pthread_setspecific'] = setspecific


# ---- the library's own logging entry points ---------------------------------
# They are analysed on their own; for every other function they are read-only sinks, so
# their bodies are not inlined at each of the hundreds of call sites.
def log_sink(*ptrs):
    def m(eng, st, ins, args):
        for i in ptrs:
            a = args[i]
            if isinstance(a, t.Lin) and not a.is_const:
                acc(eng, st, a, ONE, 'r', ins)
        if callee_of(ins) in LOG_FORMAT:
            fmt_hook(eng, st, ins, callee_of(ins), args[LOG_FORMAT[callee_of(ins)]])
        return [(st, ret_fresh(eng, ins))]
    return m


LOG_FORMAT = {'zt_log_lprintf': 2, 'zt_log_lvprintf': 2, 'zt_log_lstrerror': 3}


def log_logger(eng, st, ins, args):
    r = t.fresh(64, 'logger', ptr=True)
    eng.assume(st, t.icmp('eq', r, C64(0)), False)
    return [(st, r)]


LOG_STUBS = {
    'zt_log_lprintf': log_sink(2), 'zt_log_lvprintf': log_sink(2), 'zt_log_lstrerror': log_sink(3),
    'zt_log_set_debug_info': log_sink(), '_zt_log_assertion': log_sink(0, 1), '_zt_log_abort': log_sink(0, 1),
    'zt_log_logger': log_logger,
}
LOG_FILES = ('zt_log.c', 'log_file.c', 'log_private.c', 'log_stderr.c', 'log_syslog.c', 'zt_assert.c')


# ---- memory pools: contracts used at call sites outside the pool module -------
# zt_mem_pool_init acquires a pool, zt_mem_pool_destroy releases it; elements belong to their
# pool.  The pool module itself is analysed on its own with its real bodies.
def pool_init(eng, st, ins, args):
    for i in (0,):
        if isinstance(args[i], t.Lin) and not args[i].is_const:
            acc(eng, st, args[i], ONE, 'r', ins)
    s2 = st.fork()
    s2.path = (s2.path, '%s: %s fails' % (ins.where, callee_of(ins)))
    b = new_heap(eng, st, ins, None, 'unk', 'pool')
    st.res[b] = ('escaped',) + st.res[b][1:]     # every pool is on the library's list of pools
    return [(st, t.of(b)), (s2, C64(0))]


def pool_alloc(eng, st, ins, args):
    s2 = st.fork()
    s2.path = (s2.path, '%s: %s fails' % (ins.where, callee_of(ins)))
    b = eng.alloc(st, 'heap', None, 'undef', 'elt@%s' % ins.block.func.name, ins.where, ins)
    st.res[b] = ('escaped', 'elt', ins.where, callee_of(ins), '')
    return [(st, t.of(b)), (s2, C64(0))]


def pool_release(eng, st, ins, args):
    acc(eng, st, args[0], C64(8), 'r', ins)
    v = eng.load(st, args[0], 8, None, ins)
    if isinstance(v, t.Lin):
        do_free(eng, st, ins, v, 'elt')
    return [(st, None)]


def pool_destroy(eng, st, ins, args):
    acc(eng, st, args[0], C64(8), 'r', ins)
    v = eng.load(st, args[0], 8, None, ins)
    s2 = st.fork()
    if isinstance(v, t.Lin):
        if v.atom is not None and v.atom.kind == 'sym':
            v.atom.ptr = True
        do_free(eng, st, ins, v, 'pool')
    eng.last_store_rng = None
    eng.store(st, args[0], C64(0), 8, ins)
    return [(st, t.const(32, 0))]


def pool_free_group(eng, st, ins, args):
    do_free(eng, st, ins, args[0], 'pool')
    return [(st, t.const(32, 0))]


POOL_STUBS = {
    'zt_mem_pool_init': pool_init, 'zt_mem_pool_alloc': pool_alloc, 'zt_mem_pool_release': pool_release,
    'zt_mem_pool_destroy': pool_destroy, 'zt_mem_pool_group_init': pool_init, 'zt_mem_pool_group_alloc': pool_alloc,
    'zt_mem_pool_group_destroy': pool_free_group,
}
