"""Numeric abstract domain: conjunctions of linear inequalities over the integers
(polyhedra without join; Fourier-Motzkin for entailment) plus boolean facts.

Terms are modular; `zu`/`zs` give the unsigned / signed integer value of a term
as a linear expression over integer variables, falling back to an opaque
variable with the type's range whenever absence of wrap-around is not provable.
"""
from math import gcd
from . import terms as t

BIG = 1 << 62          # assumption: object sizes and lengths stay below 2^62


class Z:
    """linear expression over integer variables"""
    __slots__ = ('d', 'c')

    def __init__(self, d, c):
        self.d, self.c = d, c

    def __repr__(self):
        return ' + '.join('%d*%s.%s' % (k, v[0], v[1]) for v, k in self.d.items()) + ' + %d' % self.c


def zadd(a, b, k=1):
    d = dict(a.d)
    for v, c in b.d.items():
        n = d.get(v, 0) + k * c
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    return Z(d, a.c + k * b.c)


def zscale(a, k):
    return Z({v: c * k for v, c in a.d.items()}, a.c * k)


class Facts:
    __slots__ = ('bools', 'ineqs', 'neqs', 'dead', 'cache', 'luts', 'mark')

    def __init__(self):
        self.bools = {}
        self.ineqs = []
        self.neqs = []
        self.dead = False
        self.cache = {}
        self.luts = ()
        self.mark = (0, 0)

    def copy(self):
        f = Facts()
        f.bools = dict(self.bools)
        f.ineqs = list(self.ineqs)
        f.neqs = list(self.neqs)
        f.dead = self.dead
        f.luts = self.luts
        f.mark = self.mark
        f.cache = dict(self.cache) if len(self.cache) < 200 else {}
        return f

    # ---- variable ranges -------------------------------------------------
    def vrange(self, v):
        x, sg = v
        w = x.w
        if sg == 'u':
            lo, hi = 0, ((1 << w) - 1 if w < 64 else BIG)
            if isinstance(x, t.Lin):
                hi = (1 << w) - 1
                return lo, hi
            if x.lo is not None and x.lo >= 0:
                lo = max(lo, x.lo)
                if x.hi is not None:
                    hi = min(hi, x.hi)
            if x.kind == 'and' and x.args[1].is_const:
                hi = min(hi, x.args[1].c)
            elif x.kind == 'urem' and x.args[1].is_const and x.args[1].c:
                hi = min(hi, x.args[1].c - 1)
            elif x.kind == 'zext':
                hi = min(hi, (1 << x.args[0].w) - 1)
            elif x.kind == 'lshr' and x.args[1].is_const:
                hi = min(hi, ((1 << w) - 1) >> x.args[1].c)
            elif x.kind == 'mul':
                pass
            elif x.kind in ('base',):
                lo = 4096
            return lo, hi
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if w < 64 else (-BIG, BIG)
        if isinstance(x, t.Atom):
            if x.lo is not None:
                lo = max(lo, x.lo)
            if x.hi is not None:
                hi = min(hi, x.hi)
        return lo, hi

    def defs(self, v):
        """definitional inequalities (list of Z meaning <= 0) for operation variables"""
        x, sg = v
        out = []
        if not isinstance(x, t.Atom) or sg != 'u':
            return out
        me = Z({v: 1}, 0)
        if x.kind == 'lshr' and x.args[1].is_const or x.kind == 'udiv' and x.args[1].is_const and x.args[1].c:
            k = 1 << x.args[1].c if x.kind == 'lshr' else x.args[1].c
            a = self.zu(x.args[0])
            out.append(zadd(zscale(me, k), a, -1))
            e = zadd(a, zscale(me, k), -1)
            e.c -= k - 1
            out.append(e)
        elif x.kind == 'and':
            for q in x.args:
                if q.is_const:
                    out.append(Z({v: 1}, -q.c))
                else:
                    out.append(zadd(me, self.zu(q), -1))
        elif x.kind == 'urem':
            b = self.zu(x.args[1])
            e = zadd(me, b, -1)
            e.c += 1
            out.append(e)
            out.append(zadd(me, self.zu(x.args[0]), -1))
        elif x.kind == 'udiv':
            out.append(zadd(me, self.zu(x.args[0]), -1))
        elif x.kind == 'trunc':
            out.append(zadd(me, self.zu(x.args[0]), -1))
        elif x.kind in ('max', 'min'):
            pass
        elif x.kind == 'sdiv' and x.args[1].is_const:
            k = t.signed(x.w, x.args[1].c)
            a = self.zs(x.args[0])
            if k > 0 and self.lower(a) is not None and self.lower(a) >= 0:
                out.append(zadd(zscale(me, k), a, -1))
                e = zadd(a, zscale(me, k), -1)
                e.c -= k - 1
                out.append(e)
        return out

    # ---- term -> integer expression -------------------------------------
    def avar(self, x, sg):
        """integer expression of an atom"""
        k = x.kind
        if k == 'zext':
            i = x.args[0]
            if i.w == 1:
                bl = self.bool_value(i)
                if bl is not None:
                    return Z({}, int(bl))
                return Z({(x, 'u'): 1}, 0)
            return self.zu(i)
        if k == 'sext':
            i = x.args[0]
            if i.w == 1:
                bl = self.bool_value(i)
                if bl is not None and sg == 's':
                    return Z({}, -int(bl))
            if sg == 's':
                return self.zs(i)
            e = self.zs(i)
            lo = self.ilower(e)
            if lo is not None and lo >= 0:
                return e
            if self.entails(zscale(e, -1)):
                return e
            return Z({(x, 'u'): 1}, 0)
        if k == 'trunc' and sg == 'u':
            i = x.args[0]
            e = self.zu(i)
            hi = self.iupper(e)
            if hi is not None and hi < (1 << x.w):
                return e
        if sg == 's':
            if x.ptr or x.kind == 'base':
                return Z({(x, 'u'): 1}, 0)
            lo, hi = self.vrange((x, 'u'))
            if hi < (1 << (x.w - 1)) and (x.w < 64 or x.hi is not None or x.kind in ('and', 'lshr', 'urem', 'udiv')) \
                    or x.lo is not None and x.lo >= 0:
                return Z({(x, 'u'): 1}, 0)
            if ('nn', x) in self.bools:
                return Z({(x, 'u'): 1}, 0)
            if x.w == 64 and x.info == 'size':
                return Z({(x, 'u'): 1}, 0)
        return Z({(x, sg): 1}, 0)

    def zs(self, l):
        w = l.w
        if not l.ts:
            return Z({}, t.signed(w, l.c))
        if len(l.ts) == 1 and l.c == 0 and l.ts[0][1] == 1:
            return self.avar(l.ts[0][0], 's')
        e = Z({}, t.signed(w, l.c))
        for x, k in l.ts:
            e = zadd(e, self.avar(x, 's'), t.signed(w, k))
        if w >= 64 or l in t.nsw_ok:
            return e
        lo, hi = self.ilower(e), self.iupper(e)
        if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return e
        if self.entails(Z({v: -c for v, c in e.d.items()}, -e.c - (1 << (w - 1)))) and \
                self.entails(Z(dict(e.d), e.c - (1 << (w - 1)) + 1)):
            return e
        # a reading that is a whole turn away
        for turn in (1 << w, -(1 << w)):
            e2 = Z(dict(e.d), e.c + turn)
            lo, hi = self.ilower(e2), self.iupper(e2)
            if lo < 1 << (w - 1) and hi >= -(1 << (w - 1)) and self.within(e2, -(1 << (w - 1)), (1 << (w - 1)) - 1):
                return e2
        return Z({(l, 's'): 1}, 0)

    def within(self, e, lo, hi):
        return (self.ilower(e) >= lo or self.entails(Z({v: -c for v, c in e.d.items()}, lo - e.c))) and \
            (self.iupper(e) <= hi or self.entails(Z(dict(e.d), e.c - hi)))

    def zu(self, l):
        w = l.w
        if not l.ts:
            return Z({}, l.c)
        if len(l.ts) == 1 and l.c == 0 and l.ts[0][1] == 1:
            return self.avar(l.ts[0][0], 'u')
        isptr = any(x.ptr or x.kind == 'base' for x, k in l.ts)
        e = Z({}, t.signed(w, l.c))
        for x, k in l.ts:
            if isptr and not (x.ptr or x.kind == 'base') or x.kind == 'sext':
                e = zadd(e, self.avar(x, 's' if x.kind == 'sext' else 'u'), t.signed(w, k))
            else:
                e = zadd(e, self.avar(x, 'u'), t.signed(w, k))
        if isptr and sum(1 for x, k in l.ts if (x.ptr or x.kind == 'base') and k == 1) == 1 \
                and sum(1 for x, k in l.ts if (x.ptr or x.kind == 'base')) == 1:
            return e
        lo, hi = self.ilower(e), self.iupper(e)
        m = (1 << w) - 1
        okhi = w >= 64 or (hi is not None and hi <= m)
        oklo = lo is not None and lo >= 0
        if not oklo:
            oklo = self.entails(zscale(e, -1))
        if oklo and not okhi:
            okhi = self.entails(Z(dict(e.d), e.c - m))
        if not (oklo and okhi):
            # the all-unsigned-coefficient reading
            e2 = Z({}, l.c)
            for x, k in l.ts:
                e2 = zadd(e2, self.avar(x, 'u'), k)
            lo2, hi2 = self.ilower(e2), self.iupper(e2)
            if lo2 is not None and lo2 >= 0 and hi2 is not None and (hi2 <= m or w < 64 and self.entails(Z(dict(e2.d), e2.c - m))):
                return e2
            if w < 64:
                # a reading that is a whole turn away
                for turn in (m + 1, -m - 1):
                    e2 = Z(dict(e.d), e.c + turn)
                    if self.ilower(e2) <= m and self.iupper(e2) >= 0 and self.within(e2, 0, m):
                        return e2
            return Z({(l, 'u'): 1}, 0)
        return e

    def ilower(self, e):
        s = e.c
        for v, k in e.d.items():
            lo, hi = self.vrange(v)
            s += k * (lo if k > 0 else hi)
        return s

    def iupper(self, e):
        s = e.c
        for v, k in e.d.items():
            lo, hi = self.vrange(v)
            s += k * (hi if k > 0 else lo)
        return s

    def lower(self, e):
        """best constant lower bound found by bisection over entailment (coarse)"""
        lo = self.ilower(e)
        if lo is not None and lo >= 0:
            return lo
        if self.entails(zscale(e, -1)):
            return 0
        return lo

    # ---- facts -----------------------------------------------------------
    def bool_value(self, cond):
        if cond.is_const:
            return bool(cond.c)
        r = cond.c
        for x, k in cond.ts:
            b = self.bools.get(x)
            if b is None:
                return None
            r ^= int(b)
        return bool(r)

    def add_eq0(self, e):
        self.add_ineq(e)
        self.add_ineq(zscale(e, -1))

    def add_ineq(self, e):
        """e <= 0"""
        if not e.d:
            if e.c > 0:
                self.dead = True
            return
        g = 0
        for k in e.d.values():
            g = gcd(g, k)
        if g > 1:
            e = Z({v: k // g for v, k in e.d.items()}, -((-e.c) // g))
        self.ineqs.append(e)
        self.cache = {}

    def tighten(self):
        """use disequalities: d != 0 and d >= 0  =>  d >= 1"""
        rounds = 0
        while rounds < 4:
            rounds += 1
            # only what shares a variable with what was learnt since the last time
            im, nm = self.mark
            self.mark = (len(self.ineqs), len(self.neqs))
            vs = set()
            for e in self.ineqs[im:]:
                for v in e.d:
                    vs.add((v[0], 'u'))
                    vs.add((v[0], 's'))
            hit = False
            for i, n in enumerate(self.neqs):
                if n is None or i < nm and not any(v in vs for v in n.d):
                    continue
                if self.entails(zscale(n, -1)):
                    self.neqs[i] = None
                    e = zscale(n, -1)
                    e.c += 1
                    self.add_ineq(e)
                    hit = True
                elif self.entails(n):
                    self.neqs[i] = None
                    e = Z(dict(n.d), n.c + 1)
                    self.add_ineq(e)
                    hit = True
            if not hit:
                break
            self.neqs = [n for n in self.neqs if n is not None]
            self.mark = (self.mark[0], len(self.neqs))

    def assume(self, cond, truth=True):
        """returns False when the result is infeasible"""
        if self.dead:
            return False
        if cond.is_const:
            if bool(cond.c) != truth:
                self.dead = True
            return not self.dead
        pol = truth ^ bool(cond.c)
        if len(cond.ts) > 1:
            unknown = [x for x, k in cond.ts if x not in self.bools]
            for x, k in cond.ts:
                b = self.bools.get(x)
                if b:
                    pol = not pol
            if not unknown:
                if not pol:
                    pass
                # all known: value is xor
                v = self.bool_value(cond)
                if v != truth:
                    self.dead = True
                return not self.dead
            if len(unknown) > 1:
                return True
            x = unknown[0]
        else:
            x = cond.ts[0][0]
        return self.assume_atom(x, pol)

    def assume_atom(self, x, pol):
        b = self.bools.get(x)
        if b is not None:
            if b != pol:
                self.dead = True
            return not self.dead
        self.bools[x] = pol
        self.cache = {}
        k = x.kind
        if k in ('eq', 'ult', 'slt') and any(t.is_lut(q) or k == 'eq' and t.lut_of(q) for q in x.args):
            self.luts += (x,)
        if k == 'eq':
            d = x.args[0]
            self._eq(d, pol)
        elif k in ('ult', 'slt'):
            a, b2 = x.args
            z = self.zu if k == 'ult' else self.zs
            za, zb = z(a), z(b2)
            if pol:
                e = zadd(za, zb, -1)
                e.c += 1
                self.add_ineq(e)
                if k == 'slt':
                    self._learn_nonneg(b2, za)
            else:
                self.add_ineq(zadd(zb, za, -1))
                if k == 'slt':
                    self._learn_nonneg(a, zb)
        if self.dead:
            return False
        if k in ('eq', 'ult', 'slt'):
            self.tighten()
            if not self.dead and not self.feasible_near(x):
                self.dead = True
        return not self.dead

    def _learn_nonneg(self, a, zlow):
        """a's signed value is at least zlow: unify signed and unsigned readings when >= 0"""
        at = a.atom
        if at is None or not isinstance(at, t.Atom):
            return
        if at.kind == 'sext' and isinstance(at.args[0], t.Lin) and at.args[0].atom is not None:
            at = at.args[0].atom
        if self.ilower(zlow) >= 0 and ('nn', at) not in self.bools:
            self.bools[('nn', at)] = True
            if at.kind not in ('zext', 'sext'):
                v, u = (at, 's'), (at, 'u')
                self.add_ineq(Z({v: 1, u: -1}, 0))
                self.add_ineq(Z({v: -1, u: 1}, 0))

    def _eq(self, d, pol):
        w = d.w
        pos = t.mk(w, 0, [(x, k) for x, k in d.ts if k < 1 << (w - 1)])
        ngs = t.neg(t.mk(w, 0, [(x, k) for x, k in d.ts if k >= 1 << (w - 1)]))
        c = t.signed(w, d.c)
        # pos + c = ngs
        if c < 0:
            right = t.add(ngs, t.const(w, -c))
            left = pos
        else:
            left = t.add(pos, t.const(w, c))
            right = ngs
        for z in (self.zu, self.zs):
            zl, zr = z(left), z(right)
            opaque = any(isinstance(v[0], t.Lin) for v in list(zl.d) + list(zr.d))
            if opaque and z == self.zu and not ngs.ts and pos.atom is not None:
                # x + c = 0: x is the number that c leaves to a whole turn
                zl, zr = z(pos), Z({}, -d.c & ((1 << w) - 1))
                opaque = any(isinstance(v[0], t.Lin) for v in zl.d)
            e = zadd(zl, zr, -1)
            if pol:
                if not opaque or (left.atom is not None and right.is_const) or z == self.zu:
                    self.add_ineq(e)
                    self.add_ineq(zscale(e, -1))
                    if not e.d and e.c != 0:
                        self.dead = True
            else:
                if not e.d:
                    if e.c == 0:
                        self.dead = True
                else:
                    self.neqs.append(e)
            if self.dead:
                return
            if not opaque and left.atom is not None and right.is_const:
                pass

    def cone(self, vars_, limit=60):
        """inequalities connected to the variables"""
        vs = set(vars_)
        out = []
        used = set()
        frontier = set(vs)
        rounds = 0
        while frontier and rounds < 6:
            rounds += 1
            nxt = set()
            for v in list(frontier):
                for e in self.defs_cached(v):
                    out.append(e)
                    for q in e.d:
                        if q not in vs:
                            vs.add(q)
                            nxt.add(q)
            for i, e in enumerate(self.ineqs):
                if i in used:
                    continue
                if any(v in frontier for v in e.d) or any(v in nxt for v in e.d):
                    used.add(i)
                    out.append(e)
                    for q in e.d:
                        if q not in vs:
                            vs.add(q)
                            nxt.add(q)
            if len(out) > limit:
                break
            frontier = nxt
        # link signed and unsigned readings
        for v in list(vs):
            if v[1] == 's' and (v[0], 'u') in vs and ('nn', v[0]) in self.bools:
                out.append(Z({v: 1, (v[0], 'u'): -1}, 0))
                out.append(Z({v: -1, (v[0], 'u'): 1}, 0))
        return out, vs

    def defs_cached(self, v):
        key = ('defs', v)
        r = self.cache.get(key)
        if r is None:
            self.cache[key] = []   # break recursion
            r = self.defs(v)
            self.cache[key] = r
        return r

    def entails(self, e):
        """facts |= e <= 0"""
        if not e.d:
            return e.c <= 0
        hi = self.iupper(e)
        if hi <= 0:
            return True
        key = (tuple(sorted(((v[0].__hash__(), id(v[0]), v[1], k) for v, k in e.d.items()))), e.c)
        r = self.cache.get(key)
        if r is not None:
            return r
        self.cache[key] = False
        cone, vs = self.cone(e.d)
        neg = Z({v: -k for v, k in e.d.items()}, -e.c + 1)   # e >= 1
        r = not self.fm_feasible(cone + [neg], vs)
        self.cache[key] = r
        return r

    def feasible_near(self, x):
        vs = set()
        for e in self.ineqs[-4:]:
            for v in e.d:
                vs.add((v[0], 'u'))
                vs.add((v[0], 's'))
        cone, vs = self.cone(vs)
        return self.fm_feasible(cone, vs)

    def fm_feasible(self, ineqs, vs):
        sysm = []
        for e in ineqs:
            sysm.append((dict(e.d), e.c))
        for v in vs:
            lo, hi = self.vrange(v)
            sysm.append(({v: -1}, lo))
            sysm.append(({v: 1}, -hi))
        return fm(sysm)


def norm(d, c):
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        d = {v: k // g for v, k in d.items()}
        c = -((-c) // g)
    return d, c


def fm(sysm, cap=400):
    """Fourier-Motzkin with integer tightening; True = possibly feasible"""
    best = {}
    for d, c in sysm:
        if not d:
            if c > 0:
                return False
            continue
        d, c = norm(d, c)
        k = frozenset(d.items())
        if k not in best or best[k] < c:
            best[k] = c
    while True:
        # quick contradiction: e <= -c1 and -e <= -c2
        for k, c in best.items():
            nk = frozenset((v, -q) for v, q in k)
            c2 = best.get(nk)
            if c2 is not None and c + c2 > 0:
                return False
        vars_ = {}
        for k in best:
            for v, q in k:
                p, n = vars_.get(v, (0, 0))
                if q > 0:
                    p += 1
                else:
                    n += 1
                vars_[v] = (p, n)
        if not vars_:
            return True
        v = min(vars_, key=lambda q: vars_[q][0] * vars_[q][1])
        pos = []
        ngs = []
        rest = {}
        for k, c in best.items():
            d = dict(k)
            q = d.get(v)
            if q is None:
                rest[k] = c
            elif q > 0:
                pos.append((d, c, q))
            else:
                ngs.append((d, c, -q))
        if len(pos) * len(ngs) + len(rest) > cap:
            return True
        for d1, c1, q1 in pos:
            for d2, c2, q2 in ngs:
                g = gcd(q1, q2)
                m1, m2 = q2 // g, q1 // g
                d = {x: k * m1 for x, k in d1.items()}
                for x, k in d2.items():
                    n = d.get(x, 0) + k * m2
                    if n:
                        d[x] = n
                    else:
                        d.pop(x, None)
                d.pop(v, None)
                c = c1 * m1 + c2 * m2
                if not d:
                    if c > 0:
                        return False
                    continue
                d, c = norm(d, c)
                k = frozenset(d.items())
                if k not in rest or rest[k] < c:
                    rest[k] = c
        best = rest
        if not best:
            return True
