"""LLVM IR loader over the LLVM-C API (libLLVM-18 through ctypes).

Turns a bitcode/textual module into plain Python structures:
  Module.functions[name] -> Function(name, params, blocks, ...)
Operands are tuples:
  ('r', n)            SSA register n of the function (params are 0..k-1)
  ('i', width, value) integer constant
  ('f', bits)         floating constant (bit pattern; width in type)
  ('null',)           null pointer
  ('g', name)         global variable address
  ('fn', name)        function address
  ('undef', type)
  ('agg', [operands], type)
  ('ce', opcode, [operands], type, extra)  constant expression
Types are tuples: ('i',n) ('ptr',) ('f',32|64) ('void',) ('arr',n,t)
  ('st',(t,...),size,align,(offsets...)) ('x', kind)
"""
import ctypes as C
import struct

_L = None


def lib():
    global _L
    if _L is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so",
                  "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
            try:
                _L = C.CDLL(p)
                break
            except OSError:
                continue
        if _L is None:
            raise RuntimeError("libLLVM-18 not found")
        vp, ul, u, i, cp, sz = (C.c_void_p, C.c_ulonglong, C.c_uint, C.c_int,
                                C.c_char_p, C.c_size_t)
        sig = dict(
            LLVMContextCreate=(vp, []),
            LLVMCreateMemoryBufferWithContentsOfFile=(i, [cp, C.POINTER(vp), C.POINTER(vp)]),
            LLVMParseIRInContext=(i, [vp, vp, C.POINTER(vp), C.POINTER(cp)]),
            LLVMGetModuleDataLayout=(vp, [vp]),
            LLVMGetFirstFunction=(vp, [vp]), LLVMGetNextFunction=(vp, [vp]),
            LLVMGetFirstGlobal=(vp, [vp]), LLVMGetNextGlobal=(vp, [vp]),
            LLVMGetFirstBasicBlock=(vp, [vp]), LLVMGetNextBasicBlock=(vp, [vp]),
            LLVMGetFirstInstruction=(vp, [vp]), LLVMGetNextInstruction=(vp, [vp]),
            LLVMGetValueName2=(vp, [vp, C.POINTER(sz)]),
            LLVMCountParams=(u, [vp]), LLVMGetParam=(vp, [vp, u]),
            LLVMIsDeclaration=(i, [vp]),
            LLVMGetInstructionOpcode=(i, [vp]), LLVMGetConstOpcode=(i, [vp]),
            LLVMGetNumOperands=(i, [vp]), LLVMGetOperand=(vp, [vp, u]),
            LLVMTypeOf=(vp, [vp]), LLVMGetTypeKind=(i, [vp]),
            LLVMGetIntTypeWidth=(u, [vp]), LLVMGetElementType=(vp, [vp]),
            LLVMGetArrayLength2=(ul, [vp]), LLVMGetVectorSize=(u, [vp]),
            LLVMCountStructElementTypes=(u, [vp]), LLVMStructGetTypeAtIndex=(vp, [vp, u]),
            LLVMABISizeOfType=(ul, [vp, vp]), LLVMABIAlignmentOfType=(u, [vp, vp]),
            LLVMStoreSizeOfType=(ul, [vp, vp]),
            LLVMOffsetOfElement=(ul, [vp, vp, u]),
            LLVMGetICmpPredicate=(i, [vp]), LLVMGetFCmpPredicate=(i, [vp]),
            LLVMGetAllocatedType=(vp, [vp]), LLVMGetGEPSourceElementType=(vp, [vp]),
            LLVMGetCalledValue=(vp, [vp]), LLVMGetNumArgOperands=(u, [vp]),
            LLVMGetNumIndices=(u, [vp]), LLVMGetIndices=(C.POINTER(u), [vp]),
            LLVMCountIncoming=(u, [vp]), LLVMGetIncomingValue=(vp, [vp, u]),
            LLVMGetIncomingBlock=(vp, [vp, u]),
            LLVMIsAFunction=(vp, [vp]), LLVMIsAGlobalVariable=(vp, [vp]),
            LLVMIsAGlobalAlias=(vp, [vp]), LLVMAliasGetAliasee=(vp, [vp]),
            LLVMIsAConstantInt=(vp, [vp]), LLVMIsAConstantFP=(vp, [vp]),
            LLVMIsAConstantPointerNull=(vp, [vp]), LLVMIsAUndefValue=(vp, [vp]),
            LLVMIsAConstantAggregateZero=(vp, [vp]), LLVMIsAConstantExpr=(vp, [vp]),
            LLVMIsAConstantDataArray=(vp, [vp]), LLVMIsAConstantArray=(vp, [vp]),
            LLVMIsAConstantStruct=(vp, [vp]), LLVMIsAConstantVector=(vp, [vp]),
            LLVMIsAConstantDataVector=(vp, [vp]),
            LLVMIsABasicBlock=(vp, [vp]), LLVMIsAInstruction=(vp, [vp]),
            LLVMIsAArgument=(vp, [vp]),
            LLVMConstIntGetZExtValue=(ul, [vp]), LLVMConstIntGetSExtValue=(C.c_longlong, [vp]),
            LLVMConstRealGetDouble=(C.c_double, [vp, C.POINTER(i)]),
            LLVMIsConstantString=(i, [vp]), LLVMGetAsString=(vp, [vp, C.POINTER(sz)]),
            LLVMGetAggregateElement=(vp, [vp, u]),
            LLVMGetInitializer=(vp, [vp]), LLVMGlobalGetValueType=(vp, [vp]),
            LLVMIsGlobalConstant=(i, [vp]), LLVMGetAlignment=(u, [vp]),
            LLVMGetDebugLocLine=(u, [vp]), LLVMGetDebugLocFilename=(vp, [vp, C.POINTER(u)]),
            LLVMValueAsBasicBlock=(vp, [vp]), LLVMGetSwitchDefaultDest=(vp, [vp]),
            LLVMGetReturnType=(vp, [vp]), LLVMIsFunctionVarArg=(i, [vp]),
            LLVMGetCalledFunctionType=(vp, [vp]),
            LLVMGetCmpXchgSuccessOrdering=(i, [vp]), LLVMGetAtomicRMWBinOp=(i, [vp]),
            LLVMIsConditional=(i, [vp]), LLVMGetNumSuccessors=(u, [vp]),
            LLVMGetSuccessor=(vp, [vp, u]), LLVMPrintValueToString=(vp, [vp]),
            LLVMDisposeMessage=(None, [vp]),
            LLVMGetSubprogram=(vp, [vp]), LLVMDISubprogramGetLine=(u, [vp]),
        )
        for k, (r, a) in sig.items():
            f = getattr(_L, k)
            f.restype = r
            f.argtypes = a
    return _L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable',
       66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul',
       14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca',
       27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 47: 'userop1', 48: 'userop2',
       49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt',
        39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = ['false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt',
        'uge', 'ult', 'ule', 'une', 'true']


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'ops', 'x', 'loc')

    def __init__(s, op, dst, ty, ops, x, loc):
        s.op, s.dst, s.ty, s.ops, s.x, s.loc = op, dst, ty, ops, x, loc

    def __repr__(s):
        return "%%%s = %s %s %s %s @%s" % (s.dst, s.op, s.ty, s.ops, s.x, s.loc)


class Function:
    ROTATE = False

    def __init__(s, mod, h, name):
        s.mod, s.h, s.name = mod, h, name
        L = lib()
        s.nparams = L.LLVMCountParams(h)
        s.decl = bool(L.LLVMIsDeclaration(h))
        s.vararg = bool(L.LLVMIsFunctionVarArg(L.LLVMGlobalGetValueType(h)))
        s._blocks = None
        s._loops = None
        s._simple = None
        s._cross = None
        s.nregs = 0

    @property
    def blocks(s):
        if s._blocks is None:
            s._build()
        return s._blocks

    def _build(s):
        L = lib()
        m = s.mod
        regs = {}
        for i in range(s.nparams):
            regs[L.LLVMGetParam(s.h, i)] = i
        s.ptypes = [m.type(L.LLVMTypeOf(L.LLVMGetParam(s.h, i))) for i in range(s.nparams)]
        n = s.nparams
        bbs = []
        bb = L.LLVMGetFirstBasicBlock(s.h)
        bidx = {}
        while bb:
            bidx[bb] = len(bbs)
            ins = []
            it = L.LLVMGetFirstInstruction(bb)
            while it:
                ins.append(it)
                regs[it] = n
                n += 1
                it = L.LLVMGetNextInstruction(it)
            bbs.append((bb, ins))
            bb = L.LLVMGetNextBasicBlock(bb)
        s.nregs = n
        s.regname = {}
        blocks = []
        for bb, ins in bbs:
            out = []
            for it in ins:
                x = s._instr(it, regs, bidx)
                if x is not None:
                    out.append(x)
            blocks.append(out)
        s._blocks = blocks

    def _instr(s, it, regs, bidx):
        L = lib()
        m = s.mod
        op = OPC.get(L.LLVMGetInstructionOpcode(it), '?')
        ty = m.type(L.LLVMTypeOf(it))
        dst = regs[it] if ty != ('void',) else None
        line = L.LLVMGetDebugLocLine(it)
        if line:
            ln = C.c_uint()
            fp = L.LLVMGetDebugLocFilename(it, C.byref(ln))
            loc = (C.string_at(fp, ln.value).decode() if fp else '?', line)
        else:
            loc = None

        def o(i):
            return m.operand(L.LLVMGetOperand(it, i), regs)
        nops = L.LLVMGetNumOperands(it)
        x = None
        if op == 'br':
            ns = L.LLVMGetNumSuccessors(it)
            succ = [bidx[L.LLVMGetSuccessor(it, i)] for i in range(ns)]
            return Instr('br', None, ty, [o(0)] if ns == 2 else [], succ, loc)
        if op == 'switch':
            dflt = bidx[L.LLVMGetSwitchDefaultDest(it)]
            cases = []
            for i in range(2, nops, 2):
                v = L.LLVMGetOperand(it, i)
                cases.append((L.LLVMConstIntGetZExtValue(v),
                              bidx[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(it, i + 1))]))
            return Instr('switch', None, ty, [o(0)], (dflt, cases), loc)
        if op == 'phi':
            inc = []
            for i in range(L.LLVMCountIncoming(it)):
                inc.append((bidx[L.LLVMGetIncomingBlock(it, i)],
                            m.operand(L.LLVMGetIncomingValue(it, i), regs)))
            return Instr('phi', dst, ty, [], inc, loc)
        if op == 'call':
            cv = L.LLVMGetCalledValue(it)
            na = L.LLVMGetNumArgOperands(it)
            cal = m.operand(cv, regs)
            if cal[0] == 'fn' and (cal[1].startswith('llvm.dbg') or cal[1].startswith('llvm.lifetime.start')):
                return None
            return Instr('call', dst, ty, [m.operand(L.LLVMGetOperand(it, i), regs)
                                           for i in range(na)], cal, loc)
        if op == 'alloca':
            at = L.LLVMGetAllocatedType(it)
            x = (m.type(at), L.LLVMGetAlignment(it))
            nm = m._name(it)
            if nm:
                s.regname[dst] = nm
            return Instr(op, dst, ty, [o(0)], x, loc)
        if op == 'gep':
            st = L.LLVMGetGEPSourceElementType(it)
            x = m.gep_plan(st, [L.LLVMGetOperand(it, i) for i in range(1, nops)], regs)
            return Instr(op, dst, ty, [o(0)], x, loc)
        if op == 'icmp':
            x = ICMP[L.LLVMGetICmpPredicate(it)]
        elif op == 'fcmp':
            x = FCMP[L.LLVMGetFCmpPredicate(it)]
        elif op in ('extractvalue', 'insertvalue'):
            n = L.LLVMGetNumIndices(it)
            p = L.LLVMGetIndices(it)
            x = [p[i] for i in range(n)]
        elif op == 'store':
            x = m.type(L.LLVMTypeOf(L.LLVMGetOperand(it, 0)))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'icmp',
                    'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            x = m.type(L.LLVMTypeOf(L.LLVMGetOperand(it, 0)))
        elif op == 'atomicrmw':
            x = L.LLVMGetAtomicRMWBinOp(it)
        if op == 'icmp':
            x = (ICMP[L.LLVMGetICmpPredicate(it)], m.type(L.LLVMTypeOf(L.LLVMGetOperand(it, 0))))
        return Instr(op, dst, ty, [o(i) for i in range(nops)], x, loc)

    @property
    def simple(s):
        """straight-line function: executed in place"""
        if s._simple is None:
            s._simple = len(s.blocks) == 1
        return s._simple

    @property
    def cross(s):
        """registers used outside the block that defines them (and phi inputs)"""
        if s._cross is None:
            where = {i: -1 for i in range(s.nparams)}
            for b, blk in enumerate(s.blocks):
                for I in blk:
                    if I.dst is not None:
                        where[I.dst] = b
            out = set()

            def use(o, b):
                if not isinstance(o, tuple) or not o:
                    return
                if o[0] == 'r':
                    if where.get(o[1]) != b:
                        out.add(o[1])
                elif o[0] in ('agg',):
                    for x in o[1]:
                        use(x, b)
                elif o[0] == 'ce':
                    for x in o[2]:
                        use(x, b)
            for b, blk in enumerate(s.blocks):
                for I in blk:
                    for o in I.ops:
                        use(o, b)
                    if I.op == 'phi':
                        for _, o in I.x:
                            use(o, None)
                    elif I.op == 'call':
                        use(I.x, b)
                    elif I.op == 'gep':
                        for sc, o, w in I.x[1]:
                            use(o, b)
            s._cross = out
        return s._cross

    # -- natural loops -------------------------------------------------------
    def succs(s, b):
        t = s.blocks[b][-1]
        if t.op == 'br':
            return t.x
        if t.op == 'switch':
            return [t.x[0]] + [c[1] for c in t.x[1]]
        return []

    @property
    def loops(s):
        """{header: frozenset(blocks)}"""
        if s._loops is None:
            n = len(s.blocks)
            preds = [[] for _ in range(n)]
            order, seen = [], set()

            def dfs(b):
                st = [(b, iter(s.succs(b)))]
                seen.add(b)
                while st:
                    x, itx = st[-1]
                    for y in itx:
                        if y not in seen:
                            seen.add(y)
                            st.append((y, iter(s.succs(y))))
                            break
                    else:
                        order.append(x)
                        st.pop()
            dfs(0)
            rpo = order[::-1]
            idx = {b: i for i, b in enumerate(rpo)}
            for b in rpo:
                for y in s.succs(b):
                    preds[y].append(b)
            dom = {0: {0}}
            allb = set(rpo)
            for b in rpo[1:]:
                dom[b] = set(allb)
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    nd = set.intersection(*[dom[p] for p in preds[b]]) | {b}
                    if nd != dom[b]:
                        dom[b] = nd
                        ch = True
            loops = {}
            for b in rpo:
                for h in s.succs(b):
                    if h in dom[b]:
                        body = {h}
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(preds[x])
                        loops.setdefault(h, set()).update(body)
            s._loops = {h: frozenset(v) for h, v in loops.items()}
            s.rotated = {}
            # alternative cut points: a loop whose step calls code (for (c = next(); c; c = next()) ...) may be cut
            # before its step, after a first partial iteration; every cycle passes its only latch
            for h, body in s._loops.items():
                lat = [b for b in body if h in s.succs(b)]
                if len(lat) != 1 or lat[0] == h or lat[0] in s._loops or s.blocks[h][0].op == 'phi':
                    continue
                B = lat[0]
                if any(B in v and v < body for v in s._loops.values()):
                    continue
                if any(I.op == 'call' and I.x[0] == 'fn' and I.x[1].startswith('_Z') and 'St' not in I.x[1][:6] for I in s.blocks[B]):
                    s.rotated[h] = B
            if Function.ROTATE:
                s._loops = {s.rotated.get(h, h): v for h, v in s._loops.items()}
        return s._loops


class Module:
    def __init__(self, path):
        L = lib()
        self.ctx = L.LLVMContextCreate()
        buf, msg = C.c_void_p(), C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        mod, err = C.c_void_p(), C.c_char_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError("IR parse: %s" % err.value)
        self.h = mod.value
        self.dl = L.LLVMGetModuleDataLayout(self.h)
        self._types = {}
        self.functions, self.globals, self.aliases = {}, {}, {}
        f = L.LLVMGetFirstFunction(self.h)
        while f:
            nm = self._name(f)
            self.functions[nm] = Function(self, f, nm)
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(self.h)
        while g:
            self.globals[self._name(g)] = g
            g = L.LLVMGetNextGlobal(g)

    def _name(self, v):
        n = C.c_size_t()
        p = lib().LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode() if n.value else ''

    def type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        L = lib()
        k = L.LLVMGetTypeKind(t)
        if k == 8:
            r = ('i', L.LLVMGetIntTypeWidth(t))
        elif k == 12:
            r = ('ptr',)
        elif k == 0:
            r = ('void',)
        elif k == 2:
            r = ('f', 32)
        elif k == 3:
            r = ('f', 64)
        elif k == 4:
            r = ('f', 80)
        elif k == 11:
            r = ('arr', L.LLVMGetArrayLength2(t), self.type(L.LLVMGetElementType(t)))
        elif k == 10:
            n = L.LLVMCountStructElementTypes(t)
            try:
                size = L.LLVMABISizeOfType(self.dl, t)
                al = L.LLVMABIAlignmentOfType(self.dl, t)
                r = ('st', tuple(self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)),
                     size, al, tuple(L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)))
            except Exception:
                r = ('x', 'opaque')
        elif k == 13:
            r = ('vec', L.LLVMGetVectorSize(t), self.type(L.LLVMGetElementType(t)))
        else:
            r = ('x', k)
        self._types[t] = r
        return r

    def sizeof(self, ty):
        k = ty[0]
        if k == 'i':
            return 1 if ty[1] <= 8 else 2 if ty[1] <= 16 else 4 if ty[1] <= 32 else 8 if ty[1] <= 64 else 16
        if k == 'ptr':
            return 8
        if k == 'f':
            return 16 if ty[1] == 80 else ty[1] // 8
        if k in ('arr', 'vec'):
            return ty[1] * self.sizeof(ty[2])
        if k == 'st':
            return ty[2]
        raise ValueError(ty)

    def gep_plan(self, st, idx, regs):
        """list of (scale, operand) + constant offset"""
        L = lib()
        const, plan = 0, []
        cur = st
        for n, v in enumerate(idx):
            if n == 0:
                sz = L.LLVMABISizeOfType(self.dl, cur)
                if L.LLVMIsAConstantInt(v):
                    const += sz * L.LLVMConstIntGetSExtValue(v)
                else:
                    plan.append((sz, self.operand(v, regs), self.type(L.LLVMTypeOf(v))[1]))
                continue
            k = L.LLVMGetTypeKind(cur)
            if k == 10:
                i = L.LLVMConstIntGetZExtValue(v)
                const += L.LLVMOffsetOfElement(self.dl, cur, i)
                cur = L.LLVMStructGetTypeAtIndex(cur, i)
            else:
                cur = L.LLVMGetElementType(cur)
                sz = L.LLVMABISizeOfType(self.dl, cur)
                if L.LLVMIsAConstantInt(v):
                    const += sz * L.LLVMConstIntGetSExtValue(v)
                else:
                    plan.append((sz, self.operand(v, regs), self.type(L.LLVMTypeOf(v))[1]))
        return (const, plan)

    def operand(self, v, regs=None):
        L = lib()
        if regs is not None and v in regs:
            return ('r', regs[v])
        if L.LLVMIsAConstantInt(v):
            w = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(v))
            if w > 64:
                return ('i', w, int(self._print(v).split()[1]) % (1 << w))
            return ('i', w, L.LLVMConstIntGetZExtValue(v))
        if L.LLVMIsAFunction(v):
            return ('fn', self._name(v))
        if L.LLVMIsAGlobalVariable(v):
            return ('g', self._name(v))
        if L.LLVMIsAGlobalAlias(v):
            return self.operand(L.LLVMAliasGetAliasee(v), regs)
        if L.LLVMIsAConstantPointerNull(v):
            return ('null',)
        ty = self.type(L.LLVMTypeOf(v))
        if L.LLVMIsAUndefValue(v):
            return ('undef', ty)
        if L.LLVMIsAConstantFP(v):
            loses = C.c_int()
            d = L.LLVMConstRealGetDouble(v, C.byref(loses))
            if ty[1] == 32:
                return ('f', 32, struct.unpack('<I', struct.pack('<f', d))[0])
            return ('f', 64, struct.unpack('<Q', struct.pack('<d', d))[0])
        if L.LLVMIsAConstantAggregateZero(v):
            return ('zero', ty)
        if L.LLVMIsAConstantDataArray(v) or L.LLVMIsAConstantArray(v) or \
                L.LLVMIsAConstantDataVector(v) or L.LLVMIsAConstantVector(v):
            if L.LLVMIsConstantString(v):
                n = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(n))
                return ('str', C.string_at(p, n.value))
            return ('agg', [self.operand(L.LLVMGetAggregateElement(v, i), regs)
                            for i in range(ty[1])], ty)
        if L.LLVMIsAConstantStruct(v):
            return ('agg', [self.operand(L.LLVMGetAggregateElement(v, i), regs)
                            for i in range(len(ty[1]))], ty)
        if L.LLVMIsAConstantExpr(v):
            op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            n = L.LLVMGetNumOperands(v)
            if op == 'gep':
                st = L.LLVMGetGEPSourceElementType(v)
                plan = self.gep_plan(st, [L.LLVMGetOperand(v, i) for i in range(1, n)], regs)
                return ('ce', 'gep', [self.operand(L.LLVMGetOperand(v, 0), regs)], ty, plan)
            return ('ce', op, [self.operand(L.LLVMGetOperand(v, i), regs) for i in range(n)], ty, None)
        if ty == ("x", 14):
            return ('md',)
        return ('?', self._print(v))

    def _print(self, v):
        L = lib()
        p = L.LLVMPrintValueToString(v)
        s = C.string_at(p).decode()
        L.LLVMDisposeMessage(p)
        return s

    def global_info(self, name):
        """(type, initializer operand or None, is_const, align)"""
        L = lib()
        g = self.globals[name]
        ini = L.LLVMGetInitializer(g)
        return (self.type(L.LLVMGlobalGetValueType(g)),
                self.operand(ini) if ini else None,
                bool(L.LLVMIsGlobalConstant(g)), L.LLVMGetAlignment(g))
