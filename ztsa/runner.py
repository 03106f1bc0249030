"""Run the abstract interpreter over many functions in parallel."""
import collections
import multiprocessing as mp
import os
import signal
import sys
import time
from . import engine

_ctx = {}


class Timeout(Exception):
    pass


def _alarm(*a):
    raise engine.Budget('time budget')


def big(f):
    return sum(len(b.instrs) for b in f.blocks) > 1200


def _attempt(prog, f, mk, kw, limit):
    chk = mk()
    e = engine.Engine(prog, chk, **kw)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    note = ''
    try:
        setup = next((c.setup for c in chk if hasattr(c, 'setup')), None)
        e.run_function(f, setup=setup)
        signal.alarm(0)
        ok = True
    except engine.Budget as ex:
        ok = False
        note = str(ex)
    except Exception as ex:             # a defect of the analysis is neither a pass nor a violation
        ok = False
        e.reports.clear()
        note = 'internal error: %s: %s' % (type(ex).__name__, ex)
        if os.environ.get('ZTSA_DEBUG'):
            raise
    finally:
        signal.alarm(0)
    return ok, note, e, chk


PHASES = ({}, {'coarse_after': 2, 'max_depth': 3}, {'coarse_after': 40})


def _one(job):
    """analyse one function in a process of its own (terms are interned per process)"""
    i, phase = job
    prog, fs, mk, opts, limit, phases = _ctx['a']
    f = fs[i]
    if isinstance(prog, list):
        prog = prog[i]
    if isinstance(opts, list):
        opts = opts[i]
    t0 = time.time()
    base = dict(opts)
    per = base.pop('per_fn', None)
    if per:
        base.update(per(f))
    base.setdefault('inline', lambda g: not big(g))
    ok, note, e, chk = _attempt(prog, f, mk, dict(base, **phases[phase]), limit)
    ext = {'_functions': sorted(e.stats['functions'])}
    for c in chk:
        if hasattr(c, 'result'):
            ext[type(c).__name__] = c.result()
    return i, Result(f.name, f.file, ok, phase, list(e.reports.values()),
                     dict({k: (len(v) if isinstance(v, set) else v) for k, v in e.stats.items()}, steps=e.steps), time.time() - t0, note, ext)


Result = collections.namedtuple('Result', 'name file ok phase reports stats dt note ext')


def run(prog, fs, mk, opts=None, limit=40, jobs=None, refine=True, phases=PHASES):
    """Analyse the functions fs with the checkers mk() -> [checker].  The default precision first; a coarser join
    when that does not finish in its budget; a finer one before anything is reported, so that no report comes
    from an avoidable join.  Returns one Result per function."""
    # large functions first; prog and opts may be lists, one for each function
    order = sorted(range(len(fs)), key=lambda i: -sum(len(b.instrs) for b in fs[i].blocks))
    fs = [fs[i] for i in order]
    prog, opts = ([x[i] for i in order] if isinstance(x, list) else x for x in (prog, opts))
    _ctx['a'] = (prog, fs, mk, opts or {}, limit, phases)
    jobs = jobs or min(8, os.cpu_count() or 4)
    out = {}
    ctx = mp.get_context('fork')
    todo = [(i, 0) for i in range(len(fs))]
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        while todo:
            nxt = []
            for i, r in pool.imap_unordered(_one, todo, chunksize=1):
                if r.phase == 2 and not r.ok:
                    continue                    # the finer run did not finish: the earlier result stands
                out[i] = r
                if r.phase == 0 and not r.ok and len(phases) > 1:
                    nxt.append((i, 1))
                elif r.phase < 2 and r.ok and r.reports and refine:
                    nxt.append((i, 2))
            todo = nxt
    return [out[i] for i in range(len(fs))]


def run_library(prog, mk, opts=None, limit=40, fs=None, refine=True):
    """Analyse the whole library: functions reachable from outside from an arbitrary caller, internal helpers in the
    context of every caller.  A helper none of whose callers could be analysed to the end is analysed on its own."""
    from . import roots as R
    fs = fs if fs is not None else R.library(prog)
    rt, helpers = R.split(prog, fs)
    res = run(prog, rt, mk, opts, limit, refine=refine)
    covered = set()
    for r in res:
        if r.ok:
            covered.update(r.ext['_functions'])
    rest = [h for h in helpers if h.name not in covered]
    if rest:
        res += run(prog, rest, mk, opts, limit, refine=refine)
    return res, rt, helpers, rest
