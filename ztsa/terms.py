"""Hash-consed value terms (global value numbering domain).

A value of width w is a linear combination  c + sum(coef * atom)  modulo 2^w
(class Lin).  Atoms are symbols (inputs, initial memory contents, call results,
widened loop variables, object bases) or opaque operations on Lins.  Booleans
are Lins of width 1 (so negation is 1 + x and xor is +).
"""

import sys
sys.setrecursionlimit(20000)
_atom_ids = [0]
_atoms = {}
_lins = {}


class Atom:
    __slots__ = ('id', 'w', 'kind', 'args', 'ptr', 'lo', 'hi', 'info', 'mb')

    def __repr__(self):
        if self.kind == 'sym':
            return '%s' % (self.args[0],)
        if self.kind in ('base',):
            return '&%s' % (self.args[0],)
        return '%s(%s)' % (self.kind, ', '.join(map(repr, self.args)))

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


class Lin:
    __slots__ = ('w', 'c', 'ts', 'h', 'mb')

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if not self.ts:
            return str(self.sc)
        out = []
        for a, k in self.ts:
            kk = k if k < (1 << (self.w - 1)) or self.w == 1 else k - (1 << self.w)
            out.append(repr(a) if kk == 1 else '%d*%r' % (kk, a))
        if self.c:
            out.append(str(self.sc))
        return ' + '.join(out)

    @property
    def sc(self):
        if self.w > 1 and self.c >= 1 << (self.w - 1):
            return self.c - (1 << self.w)
        return self.c

    @property
    def is_const(self):
        return not self.ts

    @property
    def atom(self):
        """the atom if this is exactly one atom"""
        if len(self.ts) == 1 and self.c == 0 and self.ts[0][1] == 1:
            return self.ts[0][0]
        return None


def mk(w, c, ts):
    m = (1 << w) - 1
    c &= m
    key = (w, c) + tuple(x for a, k in ts for x in (a.id, k))
    r = _lins.get(key)
    if r is None:
        r = Lin()
        r.w, r.c, r.ts = w, c, tuple(ts)
        r.h = hash(key)
        r.mb = None
        _lins[key] = r
    return r


def const(w, c):
    return mk(w, c, ())


def atom(w, kind, args, ptr=False, lo=None, hi=None, info=None):
    key = (w, kind) + tuple(args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        _atom_ids[0] += 1
        a.id = _atom_ids[0]
        a.w, a.kind, a.args, a.ptr, a.info = w, kind, tuple(args), ptr, info
        a.lo = lo
        a.hi = hi
        a.mb = None
        _atoms[key] = a
    return a


def of(a):
    return mk(a.w, 0, ((a, 1),))


def sym(w, name, ptr=False, lo=None, hi=None, info=None):
    """named symbol; the same (hashable) name gives the same symbol"""
    return of(atom(w, 'sym', (name,), ptr, lo, hi, info))


_fresh = [0]


def fresh(w, name, ptr=False, lo=None, hi=None, info=None):
    _fresh[0] += 1
    return sym(w, '%s#%d' % (name, _fresh[0]), ptr, lo, hi, info)


TRUE = const(1, 1)
FALSE = const(1, 0)


def add(a, b, kb=1):
    w = a.w
    m = (1 << w) - 1
    if not b.ts:
        if kb * b.c & m == 0:
            return a
        return mk(w, a.c + kb * b.c, a.ts)
    d = {}
    for x, k in a.ts:
        d[x] = k
    for x, k in b.ts:
        d[x] = (d.get(x, 0) + k * kb) & m
    ts = sorted(((x, k) for x, k in d.items() if k), key=lambda t: t[0].id)
    return mk(w, a.c + kb * b.c, ts)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    w = a.w
    m = (1 << w) - 1
    k &= m
    if k == 1:
        return a
    ts = [(x, (c * k) & m) for x, c in a.ts]
    return mk(w, a.c * k, [t for t in ts if t[1]])


def neg(a):
    return mulc(a, -1)


def bnot(a):
    """boolean not"""
    return mk(1, a.c ^ 1, a.ts)


def mul(a, b):
    if a.is_const:
        return mulc(b, a.c)
    if b.is_const:
        return mulc(a, b.c)
    # distribute over sums when small: keep polynomial normal form
    if len(a.ts) + (1 if a.c else 0) > 1 and len(a.ts) <= 3:
        r = mulc(b, a.c)
        for x, k in a.ts:
            r = add(r, mulc(mul(of(x), b), k))
        return r
    if len(b.ts) + (1 if b.c else 0) > 1 and len(b.ts) <= 3:
        return mul(b, a)
    ka = kb = 1
    if len(a.ts) == 1 and not a.c and a.ts[0][1] != 1:
        ka = a.ts[0][1]
        a = of(a.ts[0][0])
    if len(b.ts) == 1 and not b.c and b.ts[0][1] != 1:
        kb = b.ts[0][1]
        b = of(b.ts[0][0])
    fa = list(a.atom.args) if a.atom is not None and a.atom.kind == 'mul' else [a]
    fb = list(b.atom.args) if b.atom is not None and b.atom.kind == 'mul' else [b]
    fs = sorted(fa + fb, key=_lkey)
    return mulc(of(atom(a.w, 'mul', fs)), ka * kb)


def _lkey(l):
    return (l.w, l.c, tuple((a.id, k) for a, k in l.ts))


def signed(w, c):
    return c - (1 << w) if c >= 1 << (w - 1) else c


def bitop(op, a, b):
    w = a.w
    m = (1 << w) - 1
    if a.is_const and b.is_const:
        return const(w, {'and': a.c & b.c, 'or': a.c | b.c, 'xor': a.c ^ b.c}[op])
    if w == 1:
        if op == 'xor':
            return add(a, b)
    if a.is_const:
        a, b = b, a
    if b.is_const:
        if op == 'and':
            if b.c == 0:
                return b
            if b.c == m:
                return a
        else:
            if b.c == 0:
                return a
            if op == 'or' and b.c == m:
                return b
            if op == 'xor' and b.c == m:
                return sub(const(w, m), a)   # ~a = -1 - a
        if op == 'and' and a.atom is not None and a.atom.kind == 'and' and a.atom.args[-1].is_const:
            return bitop('and', a.atom.args[0], const(w, a.atom.args[-1].c & b.c))
        if a.atom is not None and a.atom.kind == 'lut':
            return lut_map(a, w, (lambda v: v & b.c) if op == 'and' else (lambda v: v | b.c) if op == 'or' else (lambda v: v ^ b.c))
    if a is b:
        return a if op != 'xor' else const(w, 0)
    if not b.is_const and _lkey(b) < _lkey(a):
        a, b = b, a
    if op in ('or', 'xor'):
        # disjoint bits: or/xor are addition
        if not (maybits(a) & maybits(b)):
            return add(a, b)
    return of(atom(w, op, (a, b)))


def maybits(a, depth=0):
    """mask of bits that may be one (known-bits domain)"""
    w = a.w
    full = (1 << w) - 1
    if not a.ts:
        return a.c
    if a.mb is not None:
        return a.mb
    parts = []
    if a.c:
        parts.append(a.c)
    for x, k in a.ts:
        mb = amaybits(x, depth + 1)
        if k & (k - 1):
            # not a power of two: trailing zeros only
            tz = (mb & -mb).bit_length() - 1 + (k & -k).bit_length() - 1 if mb else w
            hi = mb * k
            if hi > full:
                parts.append(full & ~((1 << min(tz, w)) - 1))
            else:
                parts.append(((1 << hi.bit_length()) - 1) & ~((1 << tz) - 1))
        else:
            parts.append((mb * k) & full)
    acc = 0
    for p in parts:
        if acc & p:
            s = acc_max(acc) + acc_max(p)
            low = (acc | p) & -(acc | p)
            if s > full:
                a.mb = full & ~(low - 1)
                return a.mb
            acc = ((1 << s.bit_length()) - 1) & ~(low - 1)
        else:
            acc |= p
    a.mb = acc & full
    return a.mb


def acc_max(x):
    return x


def amaybits(x, depth=0):
    if x.mb is None:
        x.mb = _amaybits(x)
    return x.mb


def _amaybits(x, depth=0):
    w = x.w
    full = (1 << w) - 1
    k = x.kind
    if k == 'and':
        return maybits(x.args[0], depth) & maybits(x.args[1], depth)
    if k in ('or', 'xor'):
        return maybits(x.args[0], depth) | maybits(x.args[1], depth)
    if k == 'zext':
        return maybits(x.args[0], depth)
    if k == 'lshr' and x.args[1].is_const:
        return maybits(x.args[0], depth) >> x.args[1].c
    if k == 'trunc':
        return maybits(x.args[0], depth) & full
    if k == 'lut':
        o = 0
        for v in x.args[1]:
            if v is not None:
                o |= v
        return o
    if x.lo is not None and x.lo >= 0 and x.hi is not None:
        return (1 << x.hi.bit_length()) - 1
    if k == 'urem' and x.args[1].is_const and x.args[1].c:
        return (1 << (x.args[1].c - 1).bit_length()) - 1
    return full


def shl(a, b):
    w = a.w
    if b.is_const:
        if b.c >= w:
            return const(w, 0)
        return mulc(a, 1 << b.c)
    return of(atom(w, 'shl', (a, b)))


def lshr(a, b):
    w = a.w
    if b.is_const:
        k = b.c
        if k == 0:
            return a
        if k >= w:
            return const(w, 0)
        if a.is_const:
            return const(w, a.c >> k)
        if maybits(a) >> k == 0:
            return const(w, 0)
        # lshr(lshr(x,i),j)
        at = a.atom
        if at is not None and at.kind == 'lut':
            return lut_map(a, w, lambda v: v >> k)
        if at is not None and at.kind == 'lshr' and at.args[1].is_const:
            return lshr(at.args[0], const(w, at.args[1].c + k))
        if at is not None and at.kind == 'zext' and at.args[0].w > k:
            return zext(lshr(at.args[0], const(at.args[0].w, k)), w)
        # sum of disjoint pieces all multiples of 2^k (no wrap since disjoint)
        if len(a.ts) + (1 if a.c else 0) >= 1 and not (len(a.ts) == 1 and a.ts[0][1] == 1 and not a.c):
            parts = [mk(w, 0, ((x, kk),)) for x, kk in a.ts] + ([const(w, a.c)] if a.c else [])
            acc = 0
            ok = True
            for p in parts:
                mb = maybits(p)
                # the piece must not have overflowed: coefficient power of two and bits fit
                if not p.is_const:
                    x, kk = p.ts[0]
                    if kk & (kk - 1) or amaybits(x) * kk >= 1 << w:
                        ok = False
                        break
                if acc & mb:
                    ok = False
                    break
                acc |= mb
            if ok:
                r = const(w, 0)
                for p in parts:
                    if p.is_const:
                        r = add(r, const(w, p.c >> k))
                        continue
                    x, kk = p.ts[0]
                    s = kk.bit_length() - 1
                    if s >= k:
                        r = add(r, mulc(of(x), 1 << (s - k)))
                    else:
                        r = add(r, lshr(of(x), const(w, k - s)) if True else None)
                return r
    elif a.is_const and a.c == 0:
        return a
    return of(atom(w, 'lshr', (a, b)))


def ashr(a, b):
    w = a.w
    if b.is_const:
        if b.c == 0:
            return a
        if a.is_const:
            return const(w, signed(w, a.c) >> min(b.c, w - 1))
        if not (maybits(a) >> (w - 1)):
            return lshr(a, b)
    return of(atom(w, 'ashr', (a, b)))


def zext(a, w):
    if a.w == w:
        return a
    if a.is_const:
        return const(w, a.c)
    at = a.atom
    if at is not None:
        if at.kind == 'zext':
            return zext(at.args[0], w)
        if at.kind == 'lut':
            return lut_map(a, w, lambda v: v)
        if at.kind == 'trunc':
            inner = at.args[0]
            if inner.w == w and not (maybits(inner) >> a.w):
                return inner
            ia = inner.atom
            if inner.w == w and ia is not None and ia.lo is not None and ia.lo >= 0 and ia.hi < (1 << a.w):
                return inner
    # disjoint pieces distribute
    if a.w > 1:
        if len(a.ts) > 1 or a.c or (at is None):
            acc = 0
            ok = True
            r = const(w, 0)
            for x, k in a.ts:
                mb = amaybits(x)
                if k & (k - 1) or mb * k >= 1 << a.w or acc & (mb * k):
                    ok = False
                    break
                acc |= mb * k
                r = add(r, mulc(zext(of(x), w), k))
            if ok and not (acc & a.c):
                return add(r, const(w, a.c))
    return of(atom(w, 'zext', (a,)))


nsw_ok = set()


def sext(a, w):
    if a.w == w:
        return a
    if a.is_const:
        return const(w, signed(a.w, a.c))
    if a.atom is not None and a.atom.kind == 'lut':
        return lut_map(a, w, lambda v: signed(a.w, v) & ((1 << w) - 1))
    if a.w > 1 and not (maybits(a) >> (a.w - 1)):
        return zext(a, w)
    at = a.atom
    if at is not None:
        if at.kind == 'sext':
            return sext(at.args[0], w)
        if at.kind == 'zext' and at.args[0].w < a.w:
            return zext(at.args[0], w)
        if at.kind == 'trunc':
            inner = at.args[0]
            ia = inner.atom
            if inner.w == w and ia is not None and ia.lo is not None and ia.lo >= 0 and ia.hi < (1 << (a.w - 1)):
                return inner
    elif a in nsw_ok:
        r = const(w, signed(a.w, a.c))
        for x, k in a.ts:
            r = add(r, mulc(sext(of(x), w), signed(a.w, k)))
        return r
    return of(atom(w, 'sext', (a,)))


_trunc_memo = {}


def trunc(a, w):
    if a.w == w:
        return a
    r = _trunc_memo.get((a, w))
    if r is None:
        r = _trunc_memo[(a, w)] = _trunc(a, w)
    return r


def _trunc(a, w):
    m = (1 << w) - 1
    r = const(w, a.c)
    for x, k in a.ts:
        k &= m
        if not k:
            continue
        if x.kind in ('zext', 'sext'):
            i = x.args[0]
            if i.w >= w:
                t = trunc(i, w)
            else:
                t = zext(i, w) if x.kind == 'zext' else sext(i, w)
        elif x.kind == 'trunc':
            t = trunc(x.args[0], w)
        elif x.kind == 'lut':
            t = lut_map(of(x), w, lambda v: v & m)
        elif x.kind == 'mul':
            t = trunc(x.args[0], w)
            for q in x.args[1:]:
                t = mul(t, trunc(q, w))
        elif x.kind in ('and', 'or', 'xor'):
            t = bitop(x.kind, trunc(x.args[0], w), trunc(x.args[1], w))
        else:
            t = of(atom(w, 'trunc', (of(x),), lo=x.lo if x.hi is not None and x.hi <= m else None,
                        hi=x.hi if x.hi is not None and x.hi <= m and x.lo is not None and x.lo >= 0 else None))
        r = add(r, mulc(t, k))
    return r


def divrem(op, a, b):
    w = a.w
    if a.is_const and b.is_const and b.c:
        if op == 'udiv':
            return const(w, a.c // b.c)
        if op == 'urem':
            return const(w, a.c % b.c)
        x, y = signed(w, a.c), signed(w, b.c)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return const(w, q if op == 'sdiv' else x - q * y)
    if b.is_const and b.c and not (b.c & (b.c - 1)):
        k = b.c.bit_length() - 1
        if op == 'udiv':
            return lshr(a, const(w, k))
        if op == 'urem':
            return bitop('and', a, const(w, b.c - 1))
    if b.is_const and b.c == 1:
        return a if op.endswith('div') else const(w, 0)
    if b.is_const and a.atom is not None and a.atom.kind in ('sext', 'zext') and a.atom.args[0].w > 1:
        # a division of a widened number by a number of its own width
        x, d = a.atom.args[0], signed(w, b.c)
        if op == 'sdiv' and a.atom.kind == 'sext' and d == -1:
            return neg(a)
        if op == 'sdiv' and a.atom.kind == 'sext' and d and -(1 << (x.w - 1)) <= d < 1 << (x.w - 1):
            return sext(divrem(op, x, const(x.w, d)), w)
        if op in ('udiv', 'sdiv') and a.atom.kind == 'zext' and 0 < d < 1 << x.w:
            return zext(divrem('udiv', x, const(x.w, d)), w)
    if op == 'sdiv' and b.is_const and b.c == (1 << w) - 1:
        return neg(a)
    if op == 'sdiv' and b.is_const and b.c and a in nsw_ok or op == 'sdiv' and b.is_const and len(a.ts) == 1 and not a.c:
        # exact division of a scaled pointer difference
        d = signed(w, b.c)
        if d > 1 and all(signed(w, k) % d == 0 for _, k in a.ts) and signed(w, a.c) % d == 0:
            return mk(w, signed(w, a.c) // d, [(x, (signed(w, k) // d) & ((1 << w) - 1)) for x, k in a.ts])
    return of(atom(w, op, (a, b)))


def icmp(pred, a, b):
    w = a.w
    if pred in ('ne', 'ugt', 'uge', 'sgt', 'sge', 'ule', 'sle'):
        if pred == 'ne':
            return bnot(icmp('eq', a, b))
        if pred == 'ugt':
            return icmp('ult', b, a)
        if pred == 'sgt':
            return icmp('slt', b, a)
        if pred == 'uge':
            return bnot(icmp('ult', a, b))
        if pred == 'sge':
            return bnot(icmp('slt', a, b))
        if pred == 'ule':
            return bnot(icmp('ult', b, a))
        if pred == 'sle':
            return bnot(icmp('slt', b, a))
    if pred == 'eq':
        d = sub(a, b)
        if d.is_const:
            return TRUE if d.c == 0 else FALSE
        if w == 1:
            return bnot(d)
        # canonical sign: first coefficient "positive"
        if d.ts[0][1] >= 1 << (w - 1):
            d = neg(d)
        # zext(x) == c  ->  x == c
        if len(d.ts) == 1 and d.ts[0][1] == 1 and d.ts[0][0].kind in ('zext', 'sext'):
            x = d.ts[0][0]
            inner = x.args[0]
            cv = (-d.c) & ((1 << w) - 1)
            if x.kind == 'zext':
                if cv >= 1 << inner.w:
                    return FALSE
                return icmp('eq', inner, const(inner.w, cv))
            sv = signed(w, cv)
            if not (-(1 << (inner.w - 1)) <= sv < (1 << (inner.w - 1))) and inner.w > 1:
                return FALSE
            if inner.w > 1:
                return icmp('eq', inner, const(inner.w, sv))
        # ext(x) == ext(y)  ->  x == y
        if len(d.ts) == 2 and not d.c:
            (x, k1), (y, k2) = d.ts
            if x.kind == y.kind and x.kind in ('zext', 'sext') and k1 == 1 and k2 == (1 << w) - 1 and x.args[0].w == y.args[0].w > 1:
                return icmp('eq', x.args[0], y.args[0])
        return of(atom(1, 'eq', (d,)))
    if a is b:
        return FALSE
    if a.is_const and b.is_const:
        if pred == 'ult':
            return TRUE if a.c < b.c else FALSE
        return TRUE if signed(w, a.c) < signed(w, b.c) else FALSE
    if pred == 'ult':
        if b.is_const and b.c == 0:
            return FALSE
        if b.is_const and b.c == 1:
            return icmp('eq', a, const(w, 0))
        if a.is_const and a.c == (1 << w) - 1:
            return FALSE
        if a.is_const and a.c == 0:
            return bnot(icmp('eq', b, const(w, 0)))
    if pred == 'slt' and b.is_const and b.c == 0:
        x = a.atom
        if isinstance(x, Atom) and x.kind == 'xor':
            # the sign of an exclusive or with a constant
            ks = [q for q in x.args if q.is_const]
            rest = [q for q in x.args if not q.is_const]
            if ks and len(rest) == 1:
                s = icmp('slt', rest[0], const(w, 0))
                return bnot(s) if sum(q.c >> (w - 1) for q in ks) & 1 else s
    return of(atom(1, pred, (a, b)))


def subst_atoms(l, f, memo=None):
    """rebuild a term with atoms replaced: f(atom) -> Lin or None"""
    if memo is None:
        memo = {}
    r = memo.get(l)
    if r is not None:
        return r
    r = const(l.w, l.c)
    for x, k in l.ts:
        t = f(x)
        if t is None:
            if x.kind in ('sym', 'base'):
                t = of(x)
            else:
                args = tuple(subst_atoms(q, f, memo) if isinstance(q, Lin) else q for q in x.args)
                if args == x.args:
                    t = of(x)
                else:
                    t = rebuild(x, args)
        r = add(r, mulc(t, k))
    memo[l] = r
    return r


def rebuild(x, args):
    k = x.kind
    if k in ('and', 'or', 'xor'):
        return bitop(k, *args)
    if k == 'mul':
        t = args[0]
        for q in args[1:]:
            t = mul(t, q)
        return t
    if k == 'shl':
        return shl(*args)
    if k == 'lshr':
        return lshr(*args)
    if k == 'ashr':
        return ashr(*args)
    if k == 'zext':
        return zext(args[0], x.w)
    if k == 'sext':
        return sext(args[0], x.w)
    if k == 'trunc':
        return trunc(args[0], x.w)
    if k in ('udiv', 'sdiv', 'urem', 'srem'):
        return divrem(k, *args)
    if k == 'eq':
        return icmp('eq', args[0], const(args[0].w, 0))
    if k in ('ult', 'slt'):
        return icmp(k, *args)
    if k == 'lut':
        u = frombits(bits(args[0]), args[0].w)
        if u.is_const:
            v = args[1][u.c] if u.c < len(args[1]) else None
            return fresh(x.w, 'outside') if v is None else const(x.w, v)
        return lut(x.w, u, args[1])
    return of(atom(x.w, k, args, x.ptr, x.lo, x.hi, x.info))


def atoms_of(l, acc=None, deep=True):
    if acc is None:
        acc = set()
    for x, _ in l.ts:
        if x in acc:
            continue
        acc.add(x)
        if deep:
            for q in x.args:
                if isinstance(q, Lin):
                    atoms_of(q, acc, deep)
    return acc


# ---------------------------------------------------------------------------
# bit provenance: every bit of a term is 0, 1, or a named bit of an atom
# ---------------------------------------------------------------------------
_bits_memo = {}


def bits(l):
    """tuple of the bits of l, least significant first: 0, 1, (atom, i) or ('o', term, i)"""
    r = _bits_memo.get(l)
    if r is not None:
        return r
    w = l.w
    r = [(l.c >> i) & 1 for i in range(w)]
    ok = True
    for x, k in l.ts:
        if k & (k - 1):
            ok = False
            break
        s = k.bit_length() - 1
        ab = abits(x)
        for i in range(w - s):
            b = ab[i]
            if b == 0:
                continue
            if r[i + s] != 0:
                ok = False
                break
            r[i + s] = b
        if not ok:
            break
    if not ok:
        r = [('o', l, i) for i in range(w)]
    r = tuple(r)
    _bits_memo[l] = r
    return r


def abits(x):
    r = _bits_memo.get(x)
    if r is not None:
        return r
    w = x.w
    k = x.kind
    r = None
    if k == 'zext':
        b = bits(x.args[0])
        r = b + (0,) * (w - len(b))
    elif k == 'sext':
        b = bits(x.args[0])
        r = b + (b[-1],) * (w - len(b))
    elif k == 'trunc':
        r = bits(x.args[0])[:w]
    elif k == 'lshr' and x.args[1].is_const:
        b = bits(x.args[0])
        n = min(x.args[1].c, w)
        r = b[n:] + (0,) * n
    elif k == 'ashr' and x.args[1].is_const:
        b = bits(x.args[0])
        n = min(x.args[1].c, w - 1)
        r = b[n:] + (b[-1],) * n
    elif k in ('and', 'or', 'xor'):
        a, b = bits(x.args[0]), bits(x.args[1])
        r = []
        for i in range(w):
            p, q = a[i], b[i]
            z = None
            if k == 'and':
                z = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else None
            elif k == 'or':
                z = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else None
            else:
                z = q if p == 0 else p if q == 0 else 0 if p == q else None
            r.append((x, i) if z is None else z)
        r = tuple(r)
    elif k == 'lut':
        vs = [v for v in x.args[1] if v is not None]
        o = a = (1 << w) - 1
        o = 0
        for v in vs:
            o |= v
            a &= v
        r = tuple(1 if a >> i & 1 else 0 if not o >> i & 1 else (x, i) for i in range(w))
    elif x.lo is not None and x.hi is not None and x.lo >= 0:
        n = x.hi.bit_length()
        r = tuple((x, i) if i < n else 0 for i in range(w))
    if r is None:
        r = tuple((x, i) for i in range(w))
    _bits_memo[x] = r
    return r


def frombits(bs, w):
    """canonical term with these bits"""
    r = const(w, 0)
    i = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        if b == 0:
            i += 1
            continue
        if b == 1:
            r = add(r, const(w, 1 << i))
            i += 1
            continue
        src, j = (b[1], b[2]) if b[0] == 'o' else (of(b[0]), b[1])
        run = 1
        while i + run < n and isinstance(bs[i + run], tuple):
            q = bs[i + run]
            s2, j2 = (q[1], q[2]) if q[0] == 'o' else (of(q[0]), q[1])
            if s2 is not src or j2 != j + run:
                break
            run += 1
        x = lshr(src, const(src.w, j)) if j else src
        if j + run < src.w:
            sb = bits(src)
            if any(sb[z] != 0 for z in range(j + run, src.w)):
                x = bitop('and', x, const(src.w, (1 << run) - 1))
        x = zext(x, w) if x.w < w else trunc(x, w)
        r = add(r, mulc(x, 1 << i))
        i += run
    return r


def bits_equal(d):
    """d == 0 by bit provenance: True, False (a definite bit differs) or None"""
    w = d.w
    h = 1 << (w - 1)
    pc = mk(w, 0, [(x, k) for x, k in d.ts if k < h])
    nc = mk(w, 0, [(x, (1 << w) - k) for x, k in d.ts if k >= h])
    # d = pc - nc + c
    if d.c:
        if d.c < h:
            pc = add(pc, const(w, d.c))
        else:
            nc = add(nc, const(w, (1 << w) - d.c))
    a, b = bits(pc), bits(nc)
    same = True
    for p, q in zip(a, b):
        if p != q:
            same = False
            if p in (0, 1) and q in (0, 1):
                return False
    return True if same else by_cases(d)


_cases_memo = {}


def by_cases(d):
    """d == 0, where d is a sum of table lookups and of terms of the same few bits: by trying every value of the bits"""
    if not any(x.kind == 'lut' for x, _ in d.ts) or len(d.ts) < 2:
        return None
    if d in _cases_memo:
        return _cases_memo[d]
    _cases_memo[d] = None
    src, parts = {}, []
    for x, k in d.ts:
        bs = bits(x.args[0]) if x.kind == 'lut' else bits(of(x))
        for b in bs:
            if isinstance(b, tuple):
                if b[0] == 'o':
                    return None
                src.setdefault(b, len(src))
        if len(src) > 8:
            return None
        parts.append((x, k, bs))
    m = (1 << d.w) - 1
    zero = nonzero = False
    for n in range(1 << len(src)):
        s = d.c
        for x, k, bs in parts:
            v = 0
            for i, b in enumerate(bs):
                if b == 1 or (isinstance(b, tuple) and n >> src[b] & 1):
                    v |= 1 << i
            if x.kind == 'lut':
                v = x.args[1][v] if v < len(x.args[1]) else None
                if v is None:
                    return None
            s += v * k
        if s & m:
            nonzero = True
        else:
            zero = True
        if zero and nonzero:
            return None
    _cases_memo[d] = r = zero
    return r


def lut(w, u, values):
    """values[u] (None: outside the table)"""
    vs = [v for v in values if v is not None]
    if not vs:
        return fresh(w, 'outside')
    if all(v == vs[0] for v in vs):
        return const(w, vs[0])
    m = (1 << w) - 1
    k = next((v for i, v in enumerate(values) if i == 1 and v), 1)
    if all(v is None or v == i * k & m for i, v in enumerate(values)):
        return mulc(trunc(u, w) if u.w >= w else zext(u, w), k)
    # drop the index bits that are constant
    bs = bits(u)
    var = [i for i, b in enumerate(bs) if b not in (0, 1)]
    if var != list(range(len(var))) and len(var) <= 12:
        fix = sum(1 << i for i, b in enumerate(bs) if b == 1)
        u2 = frombits(tuple(bs[i] for i in var) + (0,) * (u.w - len(var)), u.w)
        v2 = []
        for i in range(1 << len(var)):
            j = fix + sum(1 << p for q, p in enumerate(var) if i >> q & 1)
            v2.append(values[j] if j < len(values) else None)
        return lut(w, u2, v2)
    sv = [signed(w, v) for v in vs]
    return of(atom(w, 'lut', (u, tuple(values)), lo=min(sv), hi=max(sv)))


def lut_map(l, w, f):
    x = l.atom
    return lut(w, x.args[0], tuple(None if v is None else f(v) for v in x.args[1]))


def is_lut(l):
    return len(l.ts) == 1 and l.ts[0][0].kind == 'lut'


def lut_of(l):
    """(u, values of l) for a term that depends on lookups with one index only, None otherwise"""
    u = None
    for x, k in l.ts:
        if x.kind != 'lut':
            return None
        if u is None:
            u = x.args[0]
        elif u is not x.args[0]:
            return None
    if u is None:
        return None
    m = (1 << l.w) - 1
    n = max(len(x.args[1]) for x, k in l.ts)
    out = []
    for i in range(n):
        v = l.c
        for x, k in l.ts:
            q = x.args[1][i] if i < len(x.args[1]) else None
            if q is None:
                v = None
                break
            v += q * k
        out.append(None if v is None else v & m)
    return u, out
