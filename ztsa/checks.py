"""The registry of checks: property id -> deciding function."""
import collections
from . import frontend, runner, safety, roots, lemma, asserts, headers

REGISTRY = {}
Check = collections.namedtuple('Check', 'pid fn technique level note explanation cost')


def check(pid, technique, note, explanation, level='other', cost=''):
    def deco(fn):
        REGISTRY[pid] = Check(pid, fn, technique, level, note, explanation, cost)
        return fn
    return deco


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.reports = []
        self.coverage = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def report(self, rule, key, where, msg, root='', path=()):
        self.reports.append(dict(rule=rule, key=key, where=where, msg=msg, root=root, path=list(path)))

    def add(self, results):
        seen = {(r['rule'], r['key']) for r in self.reports}
        for res in results:
            for r in res.reports:
                if (r['rule'], r['key']) not in seen:
                    seen.add((r['rule'], r['key']))
                    self.reports.append(r)


AI = 'abstract interpretation of the LLVM IR (path-sensitive, linear-relation domain with joins and widening)'


def library_safety(ctx, mk, exempt=None, fs=None, opts=None, contexts=False):
    prog = frontend.load()
    res, rt, helpers, rest = runner.run_library(prog, mk, opts=opts, limit=200 if ctx.thorough else 40, fs=fs)
    bad = [r.name for r in res if not r.ok]
    cov = ctx.coverage
    names = set()
    for r in res:
        if r.ok:
            names.update(r.ext['_functions'])
    cov['functions_analysed_as_roots'] = len([r for r in res if r.ok])
    cov['functions_covered_in_context'] = len(names)
    cov['instructions_interpreted'] = sum(r.stats.get('steps', 0) if isinstance(r.stats.get('steps', 0), int) else 0 for r in res)
    cov['paths_to_return'] = sum(r.stats.get('paths', 0) for r in res)
    cov['not_analysed_within_budget'] = bad
    cov['samples'] = ['%s: %d path states to return, %s' % (r.name, r.stats.get('paths', 0), 'phase %d' % r.phase) for r in res[:5]]
    ctx.add(res)
    if contexts:
        lemma.contexts(ctx, PARTS, mk)
    if exempt:
        drop = [r for r in ctx.reports if exempt(r)]
        ctx.reports = [r for r in ctx.reports if not exempt(r)]
        cov['exempted_constructs'] = ['%s: %s' % (r['rule'], r['key']) for r in drop]
    ctx.assumptions += ['distinct pointer parameters do not alias unless the code relates them',
                        'functions above 1200 IR instructions (the SHA-1 block transform) are treated as writing their arguments only']
    return prog, res


@check('M01', AI + ': resource typestate', 'Every path of every analysed function (all caller states, every allocation and open may fail) ends with each '
       'acquired resource released, returned or stored where it stays reachable; functions that exceed the budget are listed as not analysed.',
       'Each public function is interpreted abstractly from an arbitrary caller state with every allocation able to fail; a resource in state '
       '"live" that is unreachable from the result, the arguments and the globals at a return (or at a loop back edge) is a leak.')
def m01(ctx):
    # descriptors 0..2 of a daemon are meant to stay open; they are not reachable from memory
    library_safety(ctx, lambda: [safety.Leak()], exempt=lambda r: 'fd acquired' in r['key'] and r['root'] == 'zt_daemonize')


@check('M02', AI + ': resource typestate', 'Every path of every analysed function; memory reached only through data structures of the caller is assumed to be live '
       'and unaliased.', 'Each public function is interpreted abstractly; an access to, or a second release of, memory whose typestate is "released", and a release of '
       'storage that was not acquired from the matching allocator, are violations.')
def m02(ctx):
    library_safety(ctx, lambda: [safety.Freed()], contexts=True)


@check('M03', AI + ': null facts', 'Reports a dereference only where the path itself establishes the pointer is NULL (failed allocation, failed lookup, passed test); '
       'pointers the caller supplies are otherwise assumed valid.', 'Each public function is interpreted abstractly with every allocation and every lookup able to fail; '
       'a load, store or library call through a pointer whose value on that path is NULL is a violation.')
def m03(ctx):
    # red-black removal relies on the tree invariant (a doubly black node has a sibling), which is checked
    # separately on the colour fix-up; it is not derivable from one function's paths
    library_safety(ctx, lambda: [safety.NullDeref()], contexts=True, exempt=lambda r: r['root'].startswith('zt_rbt_remove') and 'zt_rbt_remove' in r['key'])


@check('M04', AI + ': interval/linear bounds', 'Accesses whose offset range is not derivable are counted as undecided in the evidence, not reported.',
       'Each access to an object whose size is known (locals, globals, blocks allocated during the call with a symbolic size) is an obligation: '
       'offset >= 0 and offset + length <= size must follow from the linear facts of the path; a derivable range that leaves the object is a violation.')
def m04(ctx):
    prog, res = library_safety(ctx, lambda: [safety.Bounds()], contexts=True)
    pr = sum(r.ext.get('Bounds', {}).get('proved', 0) for r in res)
    un = {}
    for r in res:
        for k, v in r.ext.get('Bounds', {}).get('unproved', {}).items():
            un[k] = un.get(k, 0) + v
    ctx.coverage['obligations_discharged'] = pr
    ctx.coverage['sites_undecided'] = len(un)
    ctx.coverage['undecided'] = sorted('%s %s %s' % k for k in un)
    ctx.coverage['violating_sites'] = len(ctx.reports)


@check('M05', AI + ': effect analysis', 'Decides writes through the pointer as the function received it and anything derived from it by pointer arithmetic.',
       'For every public function with a pointer-to-const parameter (from the debug type information), any store, or call of a writing library routine, '
       'whose target is based on that parameter is a violation.')
def m05(ctx):
    prog, res = library_safety(ctx, lambda: [safety.ConstArgs()])
    ctx.coverage['const_parameters'] = sum(r.ext.get('ConstArgs', {}).get('params', 0) for r in res)


@check('M06', AI + ': definite initialisation', 'Byte-precise for locals and blocks allocated during the call.', 'Each public function is interpreted abstractly; a read of bytes of a local '
       'variable or of a freshly allocated block that no path segment wrote is a violation.')
def m06(ctx):
    library_safety(ctx, lambda: [safety.Undef()], contexts=True)


@check('M09', AI + ': taint of format arguments', 'The format argument of every printf-family call reached.', 'The format argument of every call of a printf-family routine must be a string literal '
       '(or a constant table entry), or the format parameter that the enclosing public variadic function itself received.')
def m09(ctx):
    prog, res = library_safety(ctx, lambda: [safety.Formats()])
    ctx.coverage['format_call_evaluations'] = sum(r.ext.get('Formats', {}).get('calls', 0) for r in res)


@check('M10', AI + ': va_list typestate', 'All paths of all variadic functions.', 'va_start/va_copy opens an argument list, va_end closes it; a return with an open list, or opening '
       'an open list, is a violation.')
def m10(ctx):
    library_safety(ctx, lambda: [safety.VaPairs()])


@check('T01', AI + ': loop progress', 'Decides iterations that restore the whole state visible to the loop without consuming any outside event; loops whose measure changes for ever without reaching the exit are not decided.',
       'For every loop of every analysed function and client context: a path from the loop header back to it on which no loop-carried value, no memory and no outside event differs is taken again for ever - a violation.')
def t01(ctx):
    prog, res = library_safety(ctx, lambda: [safety.Progress()], contexts=True)
    ctx.coverage['loops_analysed'] = sum(r.ext.get('Progress', {}).get('loops', 0) for r in res)


@check('C06', AI + ': effect analysis on static storage', 'Every write each analysed function makes, directly or through callees, is attributed to an object; writes to objects the analysis cannot name are not '
       'attributed to static storage.', 'Every store interpreted during a public call is attributed to its object; a store to a global or function-static object from an operation that is not on the list of '
       'operations managing process-wide state is a violation.')
def c06(ctx):
    prog, res = library_safety(ctx, lambda: [safety.GlobalWrites()])
    ctx.coverage['writes_attributed'] = sum(r.ext.get('GlobalWrites', {}).get('writes', 0) for r in res)
    ctx.coverage['process_wide_writes'] = sorted({'%s -> %s' % x for r in res for x in r.ext.get('GlobalWrites', {}).get('all', ())})


@check('I01', 'declaration/definition agreement and compilation witnesses: every declaration of the installed headers, from the syntax trees of C and of C++ programs, against the definitions of the library units', 'Every installed header, every declaration.',
       'A program that includes every header is parsed as C and as C++. A function or object it sees declared that no unit of the library defines under that very symbol, or with another type, is a violation; so is a header that does not compile by itself, '
       'with the others, in one of the language versions, or in a build that keeps its assertions.')
def i01(ctx):
    headers.run(ctx)


@check('A01', AI + ' of the build with assertions; effect analysis of assertion conditions on the syntax tree', 'Every assertion of the library; the uses are the client contexts, whose values are symbolic but of bounded shape. '
       'The assertions about running out of memory are left out.',
       'The library is compiled as a build that keeps its assertions. A condition that writes, directly or in a library function it calls, is a violation; so is a client context (a use the interface allows) in which an assertion of the '
       'library fails, or in which what must follow without assertions does not follow with them.')
def a01(ctx):
    if asserts.run(ctx):
        parts = [p for p in PARTS if p[0] not in ('asserts', 'ints')]
        lemma.contexts(ctx, parts, lambda: [safety.Asserted()], keep=True, lemmas=True, pick=lambda n: '_nd' not in n)
        bad = [r for r in ctx.reports if r['rule'] == 'lemma']
        if bad:
            # what does not follow without assertions either is the concern of the other checks
            plain, roots_ = Ctx(ctx.pid, ctx.tier), {r['root'] for r in bad}
            lemma.contexts(plain, parts, lambda: [], lemmas=True, pick=lambda n: n in roots_)
            same = {r['key'] for r in plain.reports}
            ctx.reports = [r for r in ctx.reports if r['rule'] != 'lemma' or r['key'] not in same]


# ---------------------------------------------------------------------------
# functional properties: lemma clients
LEM = 'abstract interpretation of client lemmas composed with the library IR (trace partitioning over bounded loop peeling, linear-relation and bit-provenance domains)'
LEMX = ('Client functions that build a symbolic pre-state, call the library and state what must follow are compiled to IR with the library and analysed abstractly, never run; '
        'every stated obligation must follow from the facts of each abstract path that reaches it.')
ERR = ['pools and tables are replaced by their contracts where a module only uses them (clients/refpool.c, clients/reftable.c); the modules themselves are checked against the same contracts',
       'C library string functions behave as in clients/refstr.c', 'distinct pointer parameters of a lemma designate distinct objects']


# a lemma is also broken by an operation that strays outside its storage, uses what it released or never ends
SAFE = lambda: [safety.Bounds(), safety.Freed(), safety.NullDeref(), safety.Undef(), safety.Progress()]


def lemmas(ctx, *parts):
    for client, without, aux, opts, *names in parts:
        names = names[0].split() if names else None
        lemma.run(ctx, client + '.c', without=without.split(), aux=tuple(x + '.c' for x in aux.split()), opts=opts,
                  pick=(lambda n: n.split('_')[1] in names) if names else None, extra=SAFE)
    ctx.coverage['rule'] = 'every zv_check reached on an abstract path must follow from that path; every stated label must be reached'
    ctx.assumptions += ERR


PARTS = []
CLIENTS_OF = {}


def lemma_check(pid, note, *parts):
    PARTS.extend(parts)
    CLIENTS_OF[pid] = [p[0] for p in parts]
    @check(pid, LEM, note, LEMX)
    def f(ctx):
        lemmas(ctx, *parts)


REAL = dict(stubs=False, errno_exact=True)
lemma_check('F01', 'Symbolic lists of any length around the touched elements; arbitrary element contents.', ('elist', '', '', None))
lemma_check('F02', 'Lists of up to four (sort: four, merge: eight) cells with symbolic values and comparison results; longer lists are covered by the same recursion step only.',
            ('llist', '', '', None))
CSTR = ('cstr', '', 'refstr', None)
lemma_check('F03', 'Symbolic characters, strings of a few characters with every index combination inside and beyond the string.', CSTR + ('sub reverse dup cat copy map cmp',))
lemma_check('F10', 'Symbolic characters, strings of a few characters with every match position.', CSTR + ('chr upto rupto any rany find rfind find1',))
lemma_check('F11', 'Every byte value and every single digit; integers at every digit-count boundary of both signs.', CSTR + ('hex hexdigits hexbad hexlimits itoa',))
lemma_check('F12', 'Symbolic characters around the delimiters, bounded lengths.', CSTR + ('split cut tok path abspath strip chomp rspn',))
lemma_check('F04', 'Symbolic input bytes for every residue of the group length, all 256 byte values by table analysis.', ('base', '', '', None))
lemma_check('F05', 'Symbolic elements, bounded lengths with every boundary.', ('array', '', 'refstr', None))
lemma_check('F06', 'Symbolic bytes, bounded lengths with every boundary, failing allocation.', ('buf', '', 'refstr', None))
lemma_check('F07', 'Symbolic bytes, bounded lengths with every boundary.', ('bstream', '', 'refstr', None))
lemma_check('F08', 'Three symbolic keys with every bucket and collision pattern; sizes by hint.', ('table', 'zt_mem.c', 'refstr refpool', REAL))
lemma_check('F09', 'Every pair of subsets of a three element universe.', ('set', 'zt_mem.c zt_table.c', 'refstr refpool reftable', REAL))
lemma_check('F13', 'Symbolic keys in every order up to five nodes; six insertion orders of twelve nodes with every pair of removals, complete removals in twelve orders, every search key.', ('tree', '', '', None))
BOOT = dict(boot=True)
everything = lambda g: True
FULL = dict(boot=True, inline=everything)
lemma_check('F14', 'Symbolic bytes, blocks of up to nine bytes, every split into pieces; every value for the folds.', ('hash', '', '', None))
lemma_check('F15', 'Symbolic times within and beyond a second on both sides; symbolic clock readings.', ('time', '', 'refstr reffmt', dict(boot=True)))
lemma_check('F16', 'Up to four registered functions in every order of registration and process.', ('atexit', '', '', BOOT))
lemma_check('F17', 'Heaps of up to a few elements with every reachability pattern; increments of a symbolic phase.', ('gc', '', '', BOOT))
lemma_check('F18', 'Every seed for the initial state; streams of 1300 draws of a few seeds and keys; the tempering for every state word.', ('random', '', '', BOOT))
lemma_check('F19', 'Symbolic message bytes up to a block, chosen ones at every padding boundary; every way to cut a message.', ('sha1', '', '', FULL), ('sha1big', '', '', FULL))
UUID = dict(boot=True, inline=everything, errno_exact=True)
lemma_check('F20', 'Every uuid for the hexadecimal forms and the version bits; chosen ones for the base 62 forms.', ('uuid', 'zt_random.c', 'refstr reffmt', UUID), ('uuidthreads', 'zt_random.c', 'refstr reffmt', UUID))
lemma_check('F21', 'Every level and limit; every prefix and the combinations the code treats specially; messages of chosen lengths.', ('log', '', 'refstr reffmt', dict(BOOT, stubs=False, errno_exact=True, real_log=True)))
POOL = 'kill pipes nomem nolock disable order drain in0x0 in0x1 in1x0 in3x2 in2x3 out0x0 out0x1 out1x0 out3x4'
lemma_check('C01', 'Both queues, the flag and the wake-ups of a pool of up to two threads of each kind; up to seven items, queued before a thread looks, while it sleeps and before it is told to end.',
            ('threads', '', '', BOOT, POOL))
lemma_check('C02', 'Every operation with and without an installed set, every incomplete set, every result of the system.', ('threads', '', '', BOOT, 'locks conds cntrl'), ('pthreads', '', '', BOOT))
ALL = dict(BOOT, stubs=False, errno_exact=True)
lemma_check('F22', 'Pages of four elements of four sizes, every order of releasing two pages of them, up to three pools; every failing allocation of a group.', ('mem', 'zt_atexit.c', 'refstr', ALL))
lemma_check('F23', 'Pools of up to six blocks; three pools and one below in one, destroyed in every order.', ('ezpool', '', 'refstr', ALL))
lemma_check('F24', 'Any two networks of an extent in one bucket and any extent asked for; eight networks in tables of six sizes; texts at every boundary of the grammar; every failing allocation.', ('ipv4', 'zt_mem.c', 'refstr', ALL))
lemma_check('F25', 'Command lines of up to thirteen words over options of every kind; every short option character; texts of each shape a value may have.', ('opts', '', 'refstr reffmt', ALL))
lemma_check('F26', 'Files of up to a dozen lines with every kind of line and value; references to the first, second and own value; every failing copy of a text.', ('cfg', '', 'refstr reffmt', ALL))
lemma_check('F27', 'Every conversion, flag, width and precision by example against a reference of the formatted output of C; every value for the hexadecimal and octal forms; every room from 1 to 23; texts up to 1024 characters.',
            ('format', '', 'refstr reffmt refctype', ALL))
lemma_check('F28', 'Paths of one to three parts of every shape with every part of them there already and every failing call; the directories of a path of three parts with the name in every subset; every place of the program on PATH.',
            ('path', '', 'refstr reffmt', ALL), ('progname', '', 'refstr reffmt', ALL))
lemma_check('F29', 'Two suites of two tests with every kind of outcome; every shape of name; the options.', ('unit', '', 'refstr', ALL))
lemma_check('F30', 'Any number with the numbers at the limits, the small ones and their negatives, on either side, for each width.', ('ints', '', 'refstr', ALL))
lemma_check('F31', 'Every byte value; dumps of every number of bytes around a line\'s end.', ('hexdump', '', 'refstr reffmt refctype', ALL))
lemma_check('F32', 'Every failing call of the system, every process of a start; interrupted, short and failing writes of the file.', ('daemon', '', 'refstr reffmt', ALL))
lemma_check('F33', 'Any numbers, bits, sizes and contents; assertions that hold and fail, of each kind, kept.', ('basics', '', 'refstr', ALL), ('asserts', 'zt_log.c', 'refstr reffmt', dict(ALL, real_log=True)))
