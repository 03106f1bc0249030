"""In-memory model of LLVM IR, read through the LLVM C API (ctypes)."""
import ctypes as C
import re

_L = None


def lib():
    global _L
    if _L is None:
        for n in ('libLLVM-18.so.1', 'libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM-18.so.1', '/usr/lib/llvm-18/lib/libLLVM.so'):
            try:
                _L = C.CDLL(n)
                break
            except OSError:
                continue
        if _L is None:
            raise RuntimeError('libLLVM-18 not found')
        P = C.c_void_p
        U = C.c_uint
        S = C.c_char_p

        def d(name, res, *args):
            f = getattr(_L, name)
            f.restype = res
            f.argtypes = list(args)
        d('LLVMContextCreate', P)
        d('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, S, C.POINTER(P), C.POINTER(S))
        d('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(S))
        for n in ('LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstGlobal', 'LLVMGetNextGlobal',
                  'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock', 'LLVMGetFirstInstruction', 'LLVMGetNextInstruction',
                  'LLVMTypeOf', 'LLVMGetInitializer', 'LLVMGetReturnType', 'LLVMGetElementType', 'LLVMGetAllocatedType',
                  'LLVMGlobalGetValueType', 'LLVMGetCalledValue', 'LLVMGetModuleDataLayout', 'LLVMGetSwitchDefaultDest',
                  'LLVMGetGEPSourceElementType', 'LLVMGetCalledFunctionType', 'LLVMGetFirstUse', 'LLVMBasicBlockAsValue',
                  'LLVMValueAsBasicBlock', 'LLVMGetSubprogram', 'LLVMDIScopeGetFile', 'LLVMInstructionGetDebugLoc', 'LLVMGetCondition',
                  'LLVMGetBasicBlockParent', 'LLVMDILocationGetScope'):
            d(n, P, P)
        d('LLVMGetValueName2', S, P, C.POINTER(C.c_size_t))
        d('LLVMGetStructName', S, P)
        for n in ('LLVMGetInstructionOpcode', 'LLVMGetNumOperands', 'LLVMGetTypeKind', 'LLVMGetIntTypeWidth', 'LLVMCountStructElementTypes',
                  'LLVMGetICmpPredicate', 'LLVMGetFCmpPredicate', 'LLVMGetNumSuccessors', 'LLVMCountIncoming', 'LLVMIsDeclaration',
                  'LLVMGetLinkage', 'LLVMCountParams', 'LLVMIsGlobalConstant', 'LLVMGetNSW', 'LLVMGetNUW', 'LLVMGetValueKind',
                  'LLVMGetConstOpcode', 'LLVMGetArrayLength', 'LLVMGetVectorSize', 'LLVMIsConstantString', 'LLVMGetNumIndices',
                  'LLVMGetDebugLocLine', 'LLVMIsFunctionVarArg', 'LLVMIsConditional', 'LLVMGetNumArgOperands', 'LLVMIsThreadLocal',
                  'LLVMDILocationGetLine', 'LLVMDISubprogramGetLine', 'LLVMCountParamTypes'):
            d(n, C.c_int, P)
        d('LLVMGetOperand', P, P, U)
        d('LLVMGetSuccessor', P, P, U)
        d('LLVMGetIncomingValue', P, P, U)
        d('LLVMGetIncomingBlock', P, P, U)
        d('LLVMGetParam', P, P, U)
        d('LLVMStructGetTypeAtIndex', P, P, U)
        d('LLVMABISizeOfType', C.c_ulonglong, P, P)
        d('LLVMOffsetOfElement', C.c_ulonglong, P, P, U)
        d('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
        d('LLVMGetAsString', C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
        d('LLVMGetAggregateElement', P, P, U)
        d('LLVMGetIndices', C.POINTER(U), P)
        d('LLVMGetDebugLocFilename', C.POINTER(C.c_char), P, C.POINTER(U))
        d('LLVMDIFileGetFilename', C.POINTER(C.c_char), P, C.POINTER(U))
        d('LLVMPrintValueToString', S, P)
        d('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
        d('LLVMCountStructElementTypes', C.c_uint, P)
    return _L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext',
       32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


class Type:
    __slots__ = ('kind', 'width', 'size', 'elems', 'offs', 'elem', 'count', 'name')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.width
        if self.kind == 'struct':
            return '%' + (self.name or '{}')
        if self.kind == 'array':
            return '[%d x %r]' % (self.count, self.elem)
        return self.kind


class Value:
    """constants and globals.  kinds: int, null, undef, func, global, expr, agg, str, zero, fp, arg, instr, block, asm, meta"""
    __slots__ = ('k', 'ty', 'v', 'name', 'ops', 'op', 'srcty')

    def __init__(self, k, ty=None, v=None, name=None):
        self.k, self.ty, self.v, self.name = k, ty, v, name
        self.ops = None
        self.op = None
        self.srcty = None

    def __repr__(self):
        if self.k == 'int':
            return '%s' % self.v
        if self.k in ('func', 'global'):
            return '@' + self.name
        if self.k == 'arg':
            return '%' + (self.name or 'arg%d' % self.v)
        return '<%s %s>' % (self.k, self.name or self.v)


class Instr:
    __slots__ = ('op', 'ty', 'ops', 'name', 'line', 'file', 'pred', 'nsw', 'nuw', 'extra', 'block', 'idx', 'id', 'srcty', 'k', 'inl')

    def __init__(self):
        self.k = 'instr'
        self.pred = None
        self.nsw = self.nuw = False
        self.extra = None
        self.srcty = None

    def __repr__(self):
        return '%%%s = %s %s%s' % (self.id, self.op, (self.pred + ' ') if self.pred else '',
                                   ', '.join(('%%%s' % o.id) if isinstance(o, Instr) else repr(o) for o in self.ops))

    @property
    def where(self):
        return '%s:%s' % (self.file, self.line)


class Block:
    __slots__ = ('name', 'instrs', 'succs', 'preds', 'func', 'idx', 'phis', 'loop')

    def __repr__(self):
        return '<bb %s#%d>' % (self.func.name, self.idx)


class Function:
    def __init__(self):
        self.blocks = []
        self.args = []
        self.module = None
        self.isdecl = True
        self.internal = False
        self.vararg = False
        self.file = None
        self.line = 0
        self._loops = None
        self.arg_consts = {}

    def __repr__(self):
        return '<fn %s>' % self.name

    @property
    def where(self):
        return '%s:%s' % (self.file, self.line)

    def instrs(self):
        for b in self.blocks:
            for i in b.instrs:
                yield i


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'internal', 'module', 'isdecl', 'tls', 'uname')

    def __repr__(self):
        return '<global %s>' % self.name


class Module:
    def __init__(self, name):
        self.name = name
        self.functions = {}
        self.globals = {}
        self.types = {}
        self.structs = {}   # name -> Type
        self.di = None


class Loader:
    def __init__(self, path, name):
        L = lib()
        self.L = L
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        mod = C.c_void_p()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError(err.value)
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.m = Module(name)
        self.tcache = {}
        self.vcache = {}
        self.m.di = parse_di(path)

    def s(self, v):
        n = C.c_size_t()
        return self.L.LLVMGetValueName2(v, C.byref(n)).decode()

    def ty(self, t):
        r = self.tcache.get(t)
        if r is not None:
            return r
        L = self.L
        r = Type()
        self.tcache[t] = r
        r.name = None
        r.width = 0
        r.size = 0
        r.elems = r.offs = r.elem = None
        r.count = 0
        k = L.LLVMGetTypeKind(t)
        if k == 8:
            r.kind = 'int'
            r.width = L.LLVMGetIntTypeWidth(t)
            r.size = L.LLVMABISizeOfType(self.dl, t)
        elif k == 12:
            r.kind = 'ptr'
            r.width = 64
            r.size = 8
        elif k == 10:
            r.kind = 'struct'
            n = L.LLVMGetStructName(t)
            r.name = n.decode() if n else None
            if r.name:
                r.name = re.sub(r'\.\d+$', '', r.name)
            cnt = L.LLVMCountStructElementTypes(t)
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(cnt)]
            try:
                r.size = L.LLVMABISizeOfType(self.dl, t) if cnt else 0
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(cnt)]
            except Exception:
                pass
            if r.name:
                self.m.structs[r.name] = r
        elif k == 11:
            r.kind = 'array'
            r.count = L.LLVMGetArrayLength(t)
            r.elem = self.ty(L.LLVMGetElementType(t))
            r.size = r.count * r.elem.size
        elif k == 13:
            r.kind = 'vector'
            r.count = L.LLVMGetVectorSize(t)
            r.elem = self.ty(L.LLVMGetElementType(t))
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.width = r.size * 8
        elif k in (2, 3, 4, 5, 1):
            r.kind = {2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 1: 'half'}[k]
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.width = r.size * 8
        elif k == 0:
            r.kind = 'void'
        else:
            r.kind = 'other%d' % k
        return r

    def const(self, v):
        r = self.vcache.get(v)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetValueKind(v)
        t = self.ty(L.LLVMTypeOf(v))
        if k == 18 or k == 17 and False:
            pass
        # LLVMValueKind: 0 Argument 1 BasicBlock 2 MemoryUse 3 MemoryDef 4 MemoryPhi 5 Function 6 GlobalAlias 7 GlobalIFunc
        # 8 GlobalVariable 9 BlockAddress 10 ConstantExpr 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef
        # 15 ConstantAggregateZero 16 ConstantDataArray 17 ConstantDataVector 18 ConstantInt 19 ConstantFP 20 ConstantPointerNull
        # 21 ConstantTokenNone 22 MetadataAsValue 23 InlineAsm 24 Instruction 25 Poison 26 TargetNone
        if k == 18:
            w = t.width
            if w <= 64:
                r = Value('int', t, L.LLVMConstIntGetZExtValue(v) & ((1 << w) - 1))
            else:
                txt = L.LLVMPrintValueToString(v).decode().split()[-1]
                r = Value('int', t, int(txt) & ((1 << w) - 1))
        elif k == 20:
            r = Value('null', t, 0)
        elif k in (14, 25):
            r = Value('undef', t)
        elif k == 5:
            r = Value('func', t, None, self.s(v))
        elif k in (6, 7):
            r = Value('func', t, None, self.s(v))
        elif k == 8:
            r = Value('global', t, None, self.s(v))
        elif k == 10:
            r = Value('expr', t)
            r.op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            r.ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            if r.op == 'gep':
                r.srcty = self.ty(L.LLVMGetGEPSourceElementType(v))
        elif k in (11, 12, 13):
            r = Value('agg', t)
            n = L.LLVMGetNumOperands(v)
            r.ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(n)]
        elif k == 15:
            r = Value('zero', t)
        elif k in (16, 17):
            r = Value('data', t)
            if k == 16 and L.LLVMIsConstantString(v):
                n = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(n))
                r.v = C.string_at(p, n.value)
            else:
                n = t.count
                vals = []
                for i in range(n):
                    e = self.const(L.LLVMGetAggregateElement(v, i))
                    vals.append(e.v)
                r.v = vals
        elif k == 19:
            lo = C.c_int()
            r = Value('fp', t, L.LLVMConstRealGetDouble(v, C.byref(lo)))
        elif k == 22:
            r = Value('meta', t)
        elif k == 23:
            r = Value('asm', t)
        else:
            r = Value('other%d' % k, t)
        self.vcache[v] = r
        return r

    def load(self):
        L = self.L
        m = self.m
        g = L.LLVMGetFirstGlobal(self.mod)
        while g:
            G = Global()
            G.name = self.s(g)
            G.ty = self.ty(L.LLVMGlobalGetValueType(g))
            G.const = bool(L.LLVMIsGlobalConstant(g))
            G.internal = L.LLVMGetLinkage(g) in (8, 9)
            G.isdecl = bool(L.LLVMIsDeclaration(g))
            G.tls = bool(L.LLVMIsThreadLocal(g))
            G.module = m
            G.init = None if G.isdecl else self.const(L.LLVMGetInitializer(g))
            m.globals[G.name] = G
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(self.mod)
        while f:
            self.func(f)
            f = L.LLVMGetNextFunction(f)
        return m

    def func(self, f):
        L = self.L
        F = Function()
        F.name = self.s(f)
        F.module = self.m
        fty = L.LLVMGlobalGetValueType(f)
        F.vararg = bool(L.LLVMIsFunctionVarArg(fty))
        F.ret = self.ty(L.LLVMGetReturnType(fty))
        F.internal = L.LLVMGetLinkage(f) in (8, 9)
        F.isdecl = bool(L.LLVMIsDeclaration(f))
        vm = {}
        for i in range(L.LLVMCountParams(f)):
            a = L.LLVMGetParam(f, i)
            A = Value('arg', self.ty(L.LLVMTypeOf(a)), i, self.s(a))
            F.args.append(A)
            vm[a] = A
        self.m.functions[F.name] = F
        if F.isdecl:
            return
        sp = L.LLVMGetSubprogram(f)
        if sp:
            F.line = L.LLVMDISubprogramGetLine(sp)
            fl = L.LLVMDIScopeGetFile(sp)
            if fl:
                n = C.c_uint()
                p = L.LLVMDIFileGetFilename(fl, C.byref(n))
                F.file = C.string_at(p, n.value).decode()
        bbs = {}
        b = L.LLVMGetFirstBasicBlock(f)
        raw = []
        nid = 0
        while b:
            B = Block()
            B.func = F
            B.idx = len(F.blocks)
            B.name = str(B.idx)
            B.instrs = []
            B.succs = []
            B.preds = []
            B.loop = None
            F.blocks.append(B)
            bbs[b] = B
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Instr()
                I.op = OPC.get(L.LLVMGetInstructionOpcode(i), '?')
                I.ty = self.ty(L.LLVMTypeOf(i))
                I.name = self.s(i)
                I.block = B
                I.id = nid
                nid += 1
                vm[i] = I
                raw.append((i, I))
                B.instrs.append(I)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        curline = F.line
        curfile = F.file
        for i, I in raw:
            n = C.c_uint()
            dl = L.LLVMInstructionGetDebugLoc(i)
            I.file = F.file
            I.line = None
            if dl:
                I.line = L.LLVMGetDebugLocLine(i)
                p = L.LLVMGetDebugLocFilename(i, C.byref(n))
                if p and n.value:
                    I.file = C.string_at(p, n.value).decode()
            if not I.line:
                I.line = curline
            else:
                curline = I.line

            def val(v):
                r = vm.get(v)
                if r is None:
                    r = self.const(v)
                return r
            op = I.op
            if op in ('br', 'switch'):
                ns = L.LLVMGetNumSuccessors(i)
                I.block.succs = [bbs[L.LLVMGetSuccessor(i, k)] for k in range(ns)]
                if op == 'br':
                    I.ops = [val(L.LLVMGetCondition(i))] if L.LLVMIsConditional(i) else []
                else:
                    nops = L.LLVMGetNumOperands(i)
                    I.ops = [val(L.LLVMGetOperand(i, 0))]
                    I.extra = [val(L.LLVMGetOperand(i, k)).v for k in range(2, nops, 2)]
            elif op == 'phi':
                cnt = L.LLVMCountIncoming(i)
                I.ops = [val(L.LLVMGetIncomingValue(i, k)) for k in range(cnt)]
                I.extra = [bbs[L.LLVMGetIncomingBlock(i, k)] for k in range(cnt)]
            elif op == 'call' or op == 'invoke':
                na = L.LLVMGetNumArgOperands(i)
                I.ops = [val(L.LLVMGetOperand(i, k)) for k in range(na)]
                I.extra = val(L.LLVMGetCalledValue(i))
            else:
                I.ops = [val(L.LLVMGetOperand(i, k)) for k in range(L.LLVMGetNumOperands(i))]
                if op == 'icmp':
                    I.pred = PRED[L.LLVMGetICmpPredicate(i)]
                elif op == 'fcmp':
                    I.pred = 'f%d' % L.LLVMGetFCmpPredicate(i)
                elif op == 'gep':
                    I.srcty = self.ty(L.LLVMGetGEPSourceElementType(i))
                elif op == 'alloca':
                    I.srcty = self.ty(L.LLVMGetAllocatedType(i))
                elif op in ('extractvalue', 'insertvalue'):
                    n = L.LLVMGetNumIndices(i)
                    p = L.LLVMGetIndices(i)
                    I.extra = [p[k] for k in range(n)]
                if op in ('add', 'sub', 'mul', 'shl'):
                    I.nsw = bool(L.LLVMGetNSW(i))
                    I.nuw = bool(L.LLVMGetNUW(i))
        # drop debug intrinsics
        for B in F.blocks:
            B.instrs = [I for I in B.instrs if not (I.op == 'call' and isinstance(I.extra, Value) and I.extra.k == 'func'
                                                    and (I.extra.name.startswith('llvm.dbg') or I.extra.name.startswith('llvm.lifetime')))]
            B.phis = [I for I in B.instrs if I.op == 'phi']
            for s in B.succs:
                if B not in s.preds:
                    s.preds.append(B)
            for k, I in enumerate(B.instrs):
                I.idx = k


_di_re = re.compile(r'^!(\d+) = (?:distinct )?!(\w+)\((.*)\)\s*$')


def parse_di(path):
    nodes = {}
    tuples = {}
    with open(path) as f:
        for l in f:
            if not l.startswith('!'):
                continue
            m = _di_re.match(l)
            if m:
                nodes[int(m.group(1))] = (m.group(2), m.group(3))
            else:
                m = re.match(r'^!(\d+) = (?:distinct )?!\{(.*)\}', l)
                if m:
                    tuples[int(m.group(1))] = [int(x) for x in re.findall(r'!(\d+)', m.group(2))]
    return DI(nodes, tuples)


class DI:
    def __init__(self, nodes, tuples):
        self.nodes = nodes
        self.tuples = tuples
        self.structs = {}   # name -> {field: (offset bytes, size bytes)}
        self._structs()

    def attr(self, body, k):
        m = re.search(r'(?:^|, )%s: ("([^"]*)"|[^,]+)' % k, body)
        if not m:
            return None
        return m.group(2) if m.group(2) is not None else m.group(1)

    def ref(self, body, k):
        a = self.attr(body, k)
        return int(a[1:]) if a and a.startswith('!') and a[1:].isdigit() else None

    def strip(self, n, stop_typedef=False):
        names = []
        while n is not None and n in self.nodes:
            kind, body = self.nodes[n]
            tag = self.attr(body, 'tag')
            if kind == 'DIDerivedType' and tag in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
                if tag == 'DW_TAG_typedef':
                    names.append(self.attr(body, 'name'))
                n = self.ref(body, 'baseType')
                continue
            break
        return n, names

    def tsize(self, n):
        n, _ = self.strip(n)
        if n is None:
            return 0
        s = self.attr(self.nodes[n][1], 'size')
        return int(s) // 8 if s else 0

    def members(self, n):
        out = []
        kind, body = self.nodes[n]
        el = self.ref(body, 'elements')
        for e in self.tuples.get(el, ()):
            if e not in self.nodes:
                continue
            k, b = self.nodes[e]
            if k == 'DIDerivedType' and self.attr(b, 'tag') == 'DW_TAG_member':
                off = self.attr(b, 'offset')
                sz = self.attr(b, 'size')
                out.append((self.attr(b, 'name'), int(off or 0) // 8, int(sz or 0) // 8, self.ref(b, 'baseType')))
        return out

    def flat(self, n, base=0, pre='', depth=0):
        r = {}
        for name, off, sz, bt in self.members(n):
            full = (pre + name) if name else pre.rstrip('.')
            if name:
                r[full] = (base + off, sz, bt)
            t, _ = self.strip(bt)
            if t is not None and depth < 4:
                kind, body = self.nodes[t]
                if kind == 'DICompositeType' and self.attr(body, 'tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                    r.update(self.flat(t, base + off, (full + '.') if full else '', depth + 1))
        return r

    def _structs(self):
        for n, (kind, body) in self.nodes.items():
            if kind == 'DICompositeType' and self.attr(body, 'tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                nm = self.attr(body, 'name')
                if nm and 'DIFlagFwdDecl' not in body:
                    self.structs[nm] = self.flat(n)
                    self.structs[nm]['__size__'] = (0, int(self.attr(body, 'size') or 0) // 8, None)
        for n, (kind, body) in self.nodes.items():
            if kind == 'DIDerivedType' and self.attr(body, 'tag') == 'DW_TAG_typedef':
                nm = self.attr(body, 'name')
                t, _ = self.strip(self.ref(body, 'baseType'))
                if t is not None and nm not in self.structs:
                    k2, b2 = self.nodes[t]
                    if k2 == 'DICompositeType' and self.attr(b2, 'tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and 'DIFlagFwdDecl' not in b2:
                        self.structs[nm] = self.flat(t)
                        self.structs[nm]['__size__'] = (0, int(self.attr(b2, 'size') or 0) // 8, None)

    def subprograms(self):
        """name -> list of (param DI types)"""
        out = {}
        for n, (kind, body) in self.nodes.items():
            if kind == 'DISubprogram':
                nm = self.attr(body, 'name')
                t = self.ref(body, 'type')
                if t is None:
                    continue
                tk, tb = self.nodes[t]
                types = self.ref(tb, 'types')
                # "null" entries matter for position: reparse
                out.setdefault(nm, []).append((n, types))
        return out

    def type_desc(self, n, depth=0):
        """canonical description: ('ptr', const?, desc) / ('struct', name) / ('base', name)"""
        const = False
        while n is not None and n in self.nodes:
            kind, body = self.nodes[n]
            tag = self.attr(body, 'tag')
            if tag == 'DW_TAG_const_type':
                const = True
                n = self.ref(body, 'baseType')
            elif tag in ('DW_TAG_typedef', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
                n = self.ref(body, 'baseType')
            elif tag == 'DW_TAG_pointer_type':
                bt = self.ref(body, 'baseType')
                if depth > 3:
                    return ('ptr', const, None)
                return ('ptr', const, self.type_desc(bt, depth + 1))
            elif kind == 'DICompositeType':
                return ('struct', const, self.attr(body, 'name'))
            elif kind == 'DIBasicType':
                return ('base', const, self.attr(body, 'name'))
            elif kind == 'DISubroutineType':
                return ('func', const, None)
            else:
                return ('?', const, None)
        return ('void', const, None)


def load_module(path, name):
    return Loader(path, name).load()


class Program:
    def __init__(self):
        self.modules = []
        self.ext_funcs = {}
        self.ext_globals = {}

    def add(self, m):
        self.modules.append(m)

    def link(self):
        for m in self.modules:
            for f in m.functions.values():
                if not f.isdecl and not f.internal:
                    self.ext_funcs[f.name] = f
            for g in m.globals.values():
                if not g.isdecl and not g.internal:
                    self.ext_globals[g.name] = g

    def resolve(self, module, name):
        f = module.functions.get(name)
        if f is not None and not f.isdecl:
            return f
        return self.ext_funcs.get(name)

    def resolve_global(self, module, name):
        g = module.globals.get(name)
        if g is not None and not g.isdecl:
            return g
        return self.ext_globals.get(name) or g

    def find(self, name):
        """a function by name; internal ones too (any single definition)."""
        f = self.ext_funcs.get(name)
        if f:
            return f
        for m in self.modules:
            f = m.functions.get(name)
            if f is not None and not f.isdecl:
                return f
        return None

    def all_functions(self):
        """every function with a body, header inlines once"""
        seen = set()
        for m in self.modules:
            for f in m.functions.values():
                if f.isdecl:
                    continue
                key = (f.file, f.name)
                if key in seen:
                    continue
                seen.add(key)
                yield f

    def struct(self, name):
        for m in self.modules:
            s = m.di.structs.get(name)
            if s:
                return s
        return None
