"""Lemma clients: C functions that state a pre-state, call the library and state what must follow.

They are compiled to IR with the library and analysed by the same abstract interpreter; every zv_check reached on an
abstract path is an obligation that must follow from the facts of that path."""
import os
from . import engine, frontend, runner, terms as t
from .engine import Checker

CLIENTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'clients')


def cstring(eng, st, p):
    b, off = eng.split(st, p)
    if b is not None and b.kind == 'base' and b.info and b.info[0] == 'global' and b.info[1] is not None and b.info[1].init is not None:
        v = b.info[1].init.v
        if isinstance(v, bytes):
            return v.split(b'\0')[0].decode('latin-1')
    return '?'


class Lemma(Checker):
    def __init__(self):
        self.labels = {}
        self.reached = set()
        self.opaque = set()
        self.guards = []

    def setup(self, eng, st, f, args):
        # the pointers a lemma receives designate distinct objects
        ps = [v for a, v in zip(f.args, args) if a.ty.kind == 'ptr']
        for i, p in enumerate(ps):
            eng.assume(st, t.icmp('eq', p, t.const(64, 0)), False)
            for q in ps[:i]:
                eng.assume(st, t.icmp('eq', p, q), False)

    def on_call(self, st, ins, name, args):
        eng = self.eng
        if name == 'zv_assume':
            c = t.icmp('ne', args[0], t.const(args[0].w, 0))
            return [(st, t.const(32, 0))] if eng.assume(st, c, True, ins) else []
        if name == 'zv_check':
            c = t.icmp('ne', args[0], t.const(args[0].w, 0))
            v = eng.truth(st, c)
            if v is None:
                s2 = st.fork()
                if not eng.assume(s2, c, False, ins):
                    v = True
                elif s2.facts.dead:
                    v = True
            if not eng.mute:
                lab = cstring(eng, st, args[1])
                r = self.labels.setdefault(lab, [0, 0, 0])
                r[0 if v is True else 1 if v is False else 2] += 1
                if v is not True:
                    eng.report('lemma', lab, ins.where, '%s does not hold in %s: %s' % (lab, eng.root.name, 'false on this path' if v is False else 'does not follow on this path (%s)' % (c,)), st)
            return [(st, t.const(32, 0))] if eng.assume(st, c, True, ins) else []
        if name == 'zv_reach':
            if not eng.mute:
                self.reached.add(cstring(eng, st, args[0]))
            return [(st, t.const(32, 0))]
        if name == 'zv_guard':
            b, off = eng.split(st, args[0])
            if b is not None and off.is_const and args[1].is_const:
                g = (b, off.sc, args[1].sc, args[2], cstring(eng, st, args[3]))
                if g not in self.guards:
                    self.guards.append(g)
            return [(st, t.const(32, 0))]
        if name in ('zv_int', 'zv_ulong', 'zv_ptr'):
            w = 32 if name == 'zv_int' else 64
            return [(st, t.fresh(w, name, ptr=name == 'zv_ptr', info='size' if name == 'zv_ulong' else None))]
        return None

    def on_access(self, st, addr, n, rw, ins):
        # zv_guard: the library touches the region only while the flag says that its lock is held
        if not self.guards or not n.is_const or st.top.func.module.name.startswith('client:'):
            return
        eng = self.eng
        b, off = eng.split(st, addr)
        for gb, lo, ln, flag, lab in self.guards:
            if gb == b and off.is_const and off.sc < lo + ln and lo < off.sc + n.sc:
                v = eng.load(st, flag, 4, None, ins)
                held = eng.truth(st, t.icmp('ne', v, t.const(32, 0)))
                if not eng.mute:
                    r = self.labels.setdefault(lab, [0, 0, 0])
                    r[1 if held is False else 0] += 1
                    if held is False:
                        eng.report('lemma', lab, ins.where, '%s: %s at %s in %s without the lock' % (lab, 'written' if rw == 'w' else 'read', ins.where, st.top.func.name), st)

    def on_opaque(self, st, ins, f):
        self.opaque.add(f.name)

    def result(self):
        return dict(labels=self.labels, reached=self.reached, opaque=self.opaque)


def declared_labels(f):
    """labels of the zv_check / zv_reach calls in a lemma function"""
    out = set()
    m = f.module
    for b in f.blocks:
        for i in b.instrs:
            if i.op == 'call' and getattr(i.extra, 'k', '') == 'func' and i.extra.name in ('zv_check', 'zv_reach'):
                o = i.ops[-1]
                g = m.globals.get(o.name) if getattr(o, 'k', '') == 'global' else None
                if g is not None and g.init is not None and isinstance(g.init.v, bytes):
                    out.add(g.init.v.split(b'\0')[0].decode('latin-1'))
    return out


def load(clients, without=(), aux=(), keep=False):
    return frontend.load(clients=[os.path.join(CLIENTS, x) for x in tuple(clients) + tuple(aux)], without=without, keep=keep)


def functions(prog, client, pick=None):
    m = [x for x in prog.modules if x.name == 'client:' + client][0]
    return [f for n, f in sorted(m.functions.items()) if n.startswith('lemma_') and not f.isdecl and (pick is None or pick(n))]


def per(f):
    # lemma_..._p5: the first 5 iterations of each loop are analysed separately; _r3: recursion is followed 3 deep; _nf: allocations succeed
    d = {}
    for x in f.name.split('_'):
        if x[:1] == 'p' and x[1:].isdigit():
            d['peel'] = int(x[1:])
        elif x[:1] == 'r' and x[1:].isdigit():
            d['max_rec'] = int(x[1:])
        elif x == 'nf':
            d['alloc_fail'] = False
    return d


def contexts(ctx, parts, mk, limit=30, keep=False, lemmas=False, pick=None):
    """the safety checkers mk() in every lemma context: concrete sizes and precise histories"""
    progs, fs, os_, seen = [], [], [], set()
    for client, without, aux, opts, *_ in parts:
        if client in seen:
            continue
        seen.add(client)
        # one program for each client: what stands in for the system in one must not reach another
        prog = load([client + '.c'], without.split(), [a + '.c' for a in aux.split()], keep)
        for f in functions(prog, client + '.c', pick):
            fs.append(f)
            progs.append(prog)
            os_.append(dict(dict(merge=False, max_depth=24, per_fn=per, pristine=True), **(opts or {})))
    res = runner.run(progs, fs, lambda: [Lemma()] + mk(), os_, limit=limit, refine=False, phases=({},))
    for r in res:
        if not lemmas:
            r.reports[:] = [x for x in r.reports if x['rule'] != 'lemma']
    n, bad = len([r for r in res if r.ok]), len([r for r in res if not r.ok])
    ctx.add([r for r in res if r.ok])
    ctx.coverage['client_contexts_analysed'] = n
    ctx.coverage['client_contexts_over_budget'] = bad


def run(ctx, client, without=(), aux=(), opts=None, limit=60, extra=None, pick=None, models=None):
    prog = load([client], without, aux)
    fs = functions(prog, client, pick)
    o = dict(merge=False, max_depth=24, per_fn=per, pristine=True)
    o.update(opts or {})
    if models:
        o['models'] = models
    res = runner.run(prog, fs, lambda: [Lemma()] + (extra() if extra else []), o, limit=limit * (4 if ctx.thorough else 1), refine=False,
                     phases=({},))
    cov = ctx.coverage
    cov.setdefault('lemmas', 0)
    cov.setdefault('obligations', 0)
    cov.setdefault('obligations_discharged', 0)
    cov.setdefault('not_analysed_within_budget', [])
    cov.setdefault('samples', [])
    cov.setdefault('functions_covered_in_context', [])
    for r in res:
        cov['lemmas'] += 1
        x = r.ext['Lemma']
        n = sum(sum(v) for v in x['labels'].values())
        cov['obligations'] += n
        cov['obligations_discharged'] += sum(v[0] for v in x['labels'].values())
        cov['functions_covered_in_context'] = sorted(set(cov['functions_covered_in_context']) | {g for g in r.ext['_functions'] if not g.startswith('lemma_')})
        if len(cov['samples']) < 6:
            cov['samples'].append('%s: %s' % (r.name, ', '.join(sorted(x['labels']))))
        f = [f for f in fs if f.name == r.name][0]
        if not r.ok:
            cov['not_analysed_within_budget'].append('%s (%s)' % (r.name, r.note))
            continue
        for lab in sorted(declared_labels(f) - set(x['labels']) - x['reached']):
            ctx.report('lemma', lab, f.where, 'no path of %s gets to the point where "%s" is decided: a call before it never returns normally' % (f.name, lab), root=f.name)
    ctx.add([r for r in res if r.ok])
    return prog, res
