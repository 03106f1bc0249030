"""Which functions are analysed from an arbitrary caller, and which only in the context of their callers."""
from .ir import Value, Instr


def library(prog, pred=None):
    return [f for f in prog.all_functions() if f.file and '/src/libzt' in f.file and (pred is None or pred(f))]


def _names(v, acc):
    if isinstance(v, Value) and not isinstance(v, Instr):
        if v.k == 'func':
            acc.add(v.name)
        elif v.ops:
            for o in v.ops:
                _names(o, acc)


def call_info(m):
    """(address-taken names, name -> callers) of a module"""
    r = getattr(m, '_callinfo', None)
    if r is not None:
        return r
    taken, callers = set(), {}
    for f in m.functions.values():
        if f.isdecl:
            continue
        for b in f.blocks:
            for i in b.instrs:
                if i.op in ('call', 'invoke') and isinstance(i.extra, Value) and i.extra.k == 'func':
                    if i.extra.name != f.name:
                        callers.setdefault(i.extra.name, set()).add(f.name)
                for o in i.ops:
                    if i.op in ('call', 'invoke') and o is i.extra:
                        continue
                    _names(o, taken)
    for g in m.globals.values():
        if g.init is not None:
            _names(g.init, taken)
    m._callinfo = taken, callers
    return m._callinfo


def split(prog, fs):
    """(roots, helpers): a helper is a function of internal linkage in a .c file that is only ever called directly"""
    roots, helpers = [], []
    for f in fs:
        m = f.module
        taken, callers = call_info(m)
        if f.internal and f.file.endswith('.c') and f.name not in taken and callers.get(f.name):
            helpers.append(f)
        else:
            roots.append(f)
    return roots, helpers


def callee_closure(f):
    m = f.module
    _, callers = call_info(m)
    out = {}
    for g, cs in callers.items():
        for c in cs:
            out.setdefault(c, set()).add(g)
    seen, work = set(), [f.name]
    while work:
        x = work.pop()
        for y in out.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen
