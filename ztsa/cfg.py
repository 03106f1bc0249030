"""CFG utilities: RPO, dominators, natural loops, liveness."""


def analyze(f):
    if getattr(f, '_cfg', None):
        return f._cfg
    rpo = []
    seen = set()

    stack = [(f.blocks[0], iter(f.blocks[0].succs))]
    seen.add(f.blocks[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(s.succs)))
                break
        else:
            rpo.append(b)
            stack.pop()
    rpo.reverse()
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in b.preds:
                if p in idom and p in idx:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a is b:
                return True
            if b is rpo[0]:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in b.succs:
            if s in idx and dom(s, b):
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(p for p in x.preds if p in idx)
    # irreducible check: retreating edge whose target does not dominate
    irreducible = False
    for b in rpo:
        for s in b.succs:
            if idx[s] <= idx[b] and not dom(s, b):
                irreducible = True
    # liveness of instruction values (block live-in), phi uses at pred ends
    use = {}
    dfn = {}
    from .ir import Instr
    for b in rpo:
        u = set()
        d = set()
        for i in b.instrs:
            if i.op != 'phi':
                for o in i.ops:
                    if (isinstance(o, Instr) or o.k == 'arg') and o not in d:
                        u.add(o)
                if i.op == 'call' and (isinstance(i.extra, Instr) or i.extra.k == 'arg') and i.extra not in d:
                    u.add(i.extra)
            d.add(i)
        use[b] = u
        dfn[b] = d
    livein = {b: set(use[b]) for b in rpo}
    liveout = {b: set() for b in rpo}
    changed = True
    while changed:
        changed = False
        for b in reversed(rpo):
            out = set()
            for s in b.succs:
                for x in livein[s]:
                    out.add(x)
                for ph in s.phis:
                    out.discard(ph)
                for ph in s.phis:
                    for v, pb in zip(ph.ops, ph.extra):
                        if pb is b and (isinstance(v, Instr) or v.k == 'arg'):
                            out.add(v)
            phs = set(b.phis)
            inn = use[b] | (out - dfn[b])
            # phis of b are defined at entry: treat as live-in so they are kept for merging
            inn = inn | {p for p in phs}
            if out != liveout[b] or inn != livein[b]:
                liveout[b] = out
                livein[b] = inn
                changed = True
    f._cfg = CFG(rpo, idx, idom, loops, livein, liveout, irreducible, dom)
    return f._cfg


class CFG:
    def __init__(self, rpo, idx, idom, loops, livein, liveout, irreducible, dom):
        self.rpo, self.idx, self.idom, self.loops = rpo, idx, idom, loops
        self.livein, self.liveout, self.irreducible, self.dom = livein, liveout, irreducible, dom
