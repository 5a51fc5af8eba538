"""Reads an LLVM-18 bitcode module through the LLVM-C API (ctypes) and decodes
functions, lazily, into plain Python tuples for the executor."""
import ctypes as C, subprocess, os
from ctypes import c_void_p as P, c_uint, c_int, c_char_p, c_size_t, c_ulonglong, byref, POINTER

_L = None
def L():
    global _L
    if _L is None:
        for p in ('/usr/lib/llvm-18/lib/libLLVM.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so.18.1'):
            if os.path.exists(p):
                _L = C.CDLL(p); break
        _sig()
    return _L

def _sig():
    vp = P
    S = {
     'LLVMGetGlobalContext': ([], vp), 'LLVMContextCreate': ([], vp),
     'LLVMCreateMemoryBufferWithContentsOfFile': ([c_char_p, POINTER(vp), POINTER(c_char_p)], c_int),
     'LLVMParseIRInContext': ([vp, vp, POINTER(vp), POINTER(c_char_p)], c_int),
     'LLVMGetFirstFunction': ([vp], vp), 'LLVMGetNextFunction': ([vp], vp),
     'LLVMGetFirstGlobal': ([vp], vp), 'LLVMGetNextGlobal': ([vp], vp),
     'LLVMGetFirstGlobalAlias': ([vp], vp), 'LLVMGetNextGlobalAlias': ([vp], vp),
     'LLVMAliasGetAliasee': ([vp], vp),
     'LLVMGetNamedFunction': ([vp, c_char_p], vp), 'LLVMGetNamedGlobal': ([vp, c_char_p], vp),
     'LLVMGetValueName2': ([vp, POINTER(c_size_t)], P),
     'LLVMIsDeclaration': ([vp], c_int),
     'LLVMCountParams': ([vp], c_uint), 'LLVMGetParam': ([vp, c_uint], vp),
     'LLVMGetFirstBasicBlock': ([vp], vp), 'LLVMGetNextBasicBlock': ([vp], vp),
     'LLVMGetFirstInstruction': ([vp], vp), 'LLVMGetNextInstruction': ([vp], vp),
     'LLVMGetInstructionOpcode': ([vp], c_int), 'LLVMGetNumOperands': ([vp], c_int), 'LLVMGetOperand': ([vp, c_uint], vp),
     'LLVMTypeOf': ([vp], vp), 'LLVMGetTypeKind': ([vp], c_int), 'LLVMGetIntTypeWidth': ([vp], c_uint),
     'LLVMGetICmpPredicate': ([vp], c_int), 'LLVMGetFCmpPredicate': ([vp], c_int), 'LLVMGetValueKind': ([vp], c_int),
     'LLVMConstIntGetZExtValue': ([vp], c_ulonglong), 'LLVMPrintValueToString': ([vp], P), 'LLVMDisposeMessage': ([P], None),
     'LLVMPrintTypeToString': ([vp], P),
     'LLVMCountIncoming': ([vp], c_uint), 'LLVMGetIncomingBlock': ([vp, c_uint], vp), 'LLVMGetIncomingValue': ([vp, c_uint], vp),
     'LLVMGetNumSuccessors': ([vp], c_uint), 'LLVMGetSuccessor': ([vp, c_uint], vp),
     'LLVMGetCalledValue': ([vp], vp), 'LLVMGetNumArgOperands': ([vp], c_uint), 'LLVMGetCalledFunctionType': ([vp], vp),
     'LLVMGetGEPSourceElementType': ([vp], vp), 'LLVMGetModuleDataLayout': ([vp], vp),
     'LLVMABISizeOfType': ([vp, vp], c_ulonglong), 'LLVMStoreSizeOfType': ([vp, vp], c_ulonglong),
     'LLVMOffsetOfElement': ([vp, vp, c_uint], c_ulonglong), 'LLVMABIAlignmentOfType': ([vp, vp], c_uint),
     'LLVMGetElementType': ([vp], vp), 'LLVMStructGetTypeAtIndex': ([vp, c_uint], vp), 'LLVMCountStructElementTypes': ([vp], c_uint),
     'LLVMGetArrayLength2': ([vp], c_ulonglong), 'LLVMGetVectorSize': ([vp], c_uint),
     'LLVMGetAllocatedType': ([vp], vp), 'LLVMGetNumIndices': ([vp], c_uint), 'LLVMGetIndices': ([vp], POINTER(c_uint)),
     'LLVMGetNormalDest': ([vp], vp), 'LLVMGetUnwindDest': ([vp], vp), 'LLVMIsCleanup': ([vp], c_int),
     'LLVMGetNumClauses': ([vp], c_uint), 'LLVMGetClause': ([vp, c_uint], vp),
     'LLVMGetInitializer': ([vp], vp), 'LLVMIsGlobalConstant': ([vp], c_int),
     'LLVMGetConstOpcode': ([vp], c_int), 'LLVMGetAggregateElement': ([vp, c_uint], vp), 'LLVMGlobalGetValueType': ([vp], vp),
     'LLVMGetReturnType': ([vp], vp), 'LLVMIsNull': ([vp], c_int), 'LLVMGetDebugLocLine': ([vp], c_uint),
     'LLVMGetDebugLocFilename': ([vp, POINTER(c_uint)], P), 'LLVMGetCondition': ([vp], vp), 'LLVMIsConditional': ([vp], c_int),
     'LLVMGetSwitchDefaultDest': ([vp], vp), 'LLVMGetBasicBlockParent': ([vp], vp), 'LLVMValueIsBasicBlock': ([vp], c_int),
     'LLVMValueAsBasicBlock': ([vp], vp), 'LLVMBasicBlockAsValue': ([vp], vp),
     'LLVMConstRealGetDouble': ([vp, POINTER(c_int)], C.c_double), 'LLVMIsConstantString': ([vp], c_int),
     'LLVMGetAsString': ([vp, POINTER(c_size_t)], P),
     'LLVMGetEnumAttributeKindForName': ([c_char_p, c_size_t], c_uint), 'LLVMCreateEnumAttribute': ([vp, c_uint, c_ulonglong], vp),
     'LLVMAddAttributeAtIndex': ([vp, c_uint, vp], None), 'LLVMRemoveEnumAttributeAtIndex': ([vp, c_uint, c_uint], None),
     'LLVMWriteBitcodeToFile': ([vp, c_char_p], c_int), 'LLVMGetModuleContext': ([vp], vp),
     'LLVMSetLinkage': ([vp, c_int], None), 'LLVMGetLinkage': ([vp], c_int), 'LLVMDisposeModule': ([vp], None),
     'LLVMGetSubprogram': ([vp], vp), 'LLVMDIScopeGetFile': ([vp], vp), 'LLVMDIFileGetFilename': ([vp, POINTER(c_uint)], P),
     'LLVMDIFileGetDirectory': ([vp, POINTER(c_uint)], P),
     'LLVMGetAtomicRMWBinOp': ([vp], c_int), 'LLVMGetUndefMaskElem': ([], c_int), 'LLVMGetNumMaskElements': ([vp], c_uint),
     'LLVMGetMaskValue': ([vp, c_uint], c_int), 'LLVMIsPackedStruct': ([vp], c_int), 'LLVMGetAlignment': ([vp], c_uint),
    }
    for n, (a, r) in S.items():
        f = getattr(_L, n)
        f.argtypes = a; f.restype = r

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',
 13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
 37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',
 46:'select',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',
 55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
# LLVMTypeKind
VOID,HALF,FLOAT,DOUBLE,X86FP80,FP128,PPC,LABEL,INT,FUNC,STRUCT,ARRAY,PTR,VECTOR,META,MMX,TOKEN = range(17)
# LLVMValueKind
VK = ['arg','bb','memuse','memdef','memphi','func','alias','ifunc','global','blockaddr','cexpr','carray','cstruct','cvector',
      'undef','aggzero','cdataarray','cdatavector','cint','cfp','null','tokennone','metadata','asm','inst','poison','ctarget']

class Ty:
    __slots__ = ('kind', 'w', 'size', 'ref', 'elem', 'n', 'fields', 'offs', 'store')

class Func:
    __slots__ = ('name','ref','nparams','decoded','blocks','params','ret','decl','order','wto','live','ptypes')
    def __repr__(self): return '<fn %s>' % self.name

class Block:
    __slots__ = ('idx','ins','name','succ','preds','phis','livein','pos')

class Module:
    def __init__(self, path):
        l = L()
        self.ctx = l.LLVMContextCreate()
        buf = P(); err = c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(err)):
            raise Exception('cannot read ' + path)
        self.m = P()
        if l.LLVMParseIRInContext(self.ctx, buf, byref(self.m), byref(err)):
            raise Exception('cannot parse %s: %s' % (path, err.value))
        self.dl = l.LLVMGetModuleDataLayout(self.m)
        self.types = {}
        self.funcs = {}
        self.fbyref = {}
        f = l.LLVMGetFirstFunction(self.m)
        while f:
            fn = Func()
            fn.name = self.vname(f); fn.ref = f; fn.decoded = False
            fn.decl = bool(l.LLVMIsDeclaration(f)); fn.nparams = l.LLVMCountParams(f)
            self.funcs[fn.name] = fn; self.fbyref[f] = fn
            f = l.LLVMGetNextFunction(f)
        self.globals = {}
        self.gbyref = {}
        g = l.LLVMGetFirstGlobal(self.m)
        while g:
            n = self.vname(g)
            self.globals[n] = g; self.gbyref[g] = n
            g = l.LLVMGetNextGlobal(g)
        self.aliases = {}
        a = l.LLVMGetFirstGlobalAlias(self.m)
        while a:
            self.aliases[a] = l.LLVMAliasGetAliasee(a)
            a = l.LLVMGetNextGlobalAlias(a)

    def vname(self, v):
        n = c_size_t()
        p = L().LLVMGetValueName2(v, byref(n))
        return C.string_at(p, n.value).decode()

    def vstr(self, v):
        p = L().LLVMPrintValueToString(v)
        s = C.string_at(p).decode(errors='replace')
        L().LLVMDisposeMessage(p)
        return s

    def ty(self, r):
        t = self.types.get(r)
        if t is not None: return t
        l = L()
        t = Ty(); t.ref = r
        k = t.kind = l.LLVMGetTypeKind(r)
        self.types[r] = t
        t.w = 0; t.size = 0; t.store = 0
        if k == INT:
            t.w = l.LLVMGetIntTypeWidth(r); t.size = l.LLVMABISizeOfType(self.dl, r); t.store = l.LLVMStoreSizeOfType(self.dl, r)
        elif k == PTR: t.w = 64; t.size = t.store = 8
        elif k == DOUBLE: t.w = 64; t.size = t.store = 8
        elif k == FLOAT: t.w = 32; t.size = t.store = 4
        elif k == X86FP80: t.w = 80; t.size = 16; t.store = 10
        elif k == STRUCT:
            n = l.LLVMCountStructElementTypes(r)
            t.fields = [self.ty(l.LLVMStructGetTypeAtIndex(r, i)) for i in range(n)]
            try:
                t.offs = [l.LLVMOffsetOfElement(self.dl, r, i) for i in range(n)]
                t.size = t.store = l.LLVMABISizeOfType(self.dl, r)
            except Exception: pass
        elif k == ARRAY:
            t.elem = self.ty(l.LLVMGetElementType(r)); t.n = l.LLVMGetArrayLength2(r); t.size = t.store = t.elem.size * t.n
        elif k == VECTOR:
            t.elem = self.ty(l.LLVMGetElementType(r)); t.n = l.LLVMGetVectorSize(r)
            t.size = t.store = l.LLVMABISizeOfType(self.dl, r); t.w = t.elem.w * t.n
        return t

    # ------------------------------------------------------------ functions
    def decode(self, fn):
        if fn.decoded: return fn
        l = L()
        fn.decoded = True
        f = fn.ref
        ids = {}
        fn.params = []; fn.ptypes = []
        for i in range(fn.nparams):
            p = l.LLVMGetParam(f, i)
            ids[p] = len(ids); fn.params.append(ids[p]); fn.ptypes.append(self.ty(l.LLVMTypeOf(p)))
        bbs = []; bidx = {}
        b = l.LLVMGetFirstBasicBlock(f)
        while b:
            bidx[b] = len(bbs); bbs.append(b)
            b = l.LLVMGetNextBasicBlock(b)
        insts = []
        for b in bbs:
            li = []
            i = l.LLVMGetFirstInstruction(b)
            while i:
                li.append(i)
                ids[i] = len(ids)
                i = l.LLVMGetNextInstruction(i)
            insts.append(li)
        fn.blocks = []
        for bi, li in enumerate(insts):
            B = Block(); B.idx = bi; B.phis = []; B.ins = []; B.succ = []; B.preds = []
            for i in li:
                d = self._inst(i, ids, bidx)
                if d is None: continue
                if d[0] == 'phi': B.phis.append(d)
                else: B.ins.append(d)
            t = B.ins[-1]
            if t[0] == 'br': B.succ = [t[1]]
            elif t[0] == 'cbr': B.succ = [t[2], t[3]]
            elif t[0] == 'switch': B.succ = [t[2]] + [x[1] for x in t[3]]
            elif t[0] == 'invoke': B.succ = [t[5], t[6]]
            fn.blocks.append(B)
        for B in fn.blocks:
            for s in B.succ:
                if B.idx not in fn.blocks[s].preds: fn.blocks[s].preds.append(B.idx)
        self._order(fn)
        self._liveness(fn)
        return fn

    # operand encodings: ('r', id) register; ('c', constref) constant
    def _op(self, v, ids):
        i = ids.get(v)
        if i is not None: return ('r', i)
        return ('c', v)

    def loc(self, i):
        l = L()
        line = l.LLVMGetDebugLocLine(i)
        if not line: return None
        n = c_uint()
        p = l.LLVMGetDebugLocFilename(i, byref(n))
        return (C.string_at(p, n.value).decode(), line) if p else None

    def _inst(self, i, ids, bidx):
        l = L()
        opc = OPC.get(l.LLVMGetInstructionOpcode(i), '?%d' % l.LLVMGetInstructionOpcode(i))
        O = lambda k: self._op(l.LLVMGetOperand(i, k), ids)
        me = ids[i]
        t = self.ty(l.LLVMTypeOf(i))
        if opc in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor',
                   'fadd','fsub','fmul','fdiv','frem'):
            return (opc, me, t, O(0), O(1), i)
        if opc == 'icmp':
            return ('icmp', me, PRED[l.LLVMGetICmpPredicate(i)], O(0), O(1), i, t)
        if opc == 'fcmp':
            return ('fcmp', me, l.LLVMGetFCmpPredicate(i), O(0), O(1), i)
        if opc in ('trunc','zext','sext','ptrtoint','inttoptr','bitcast','freeze','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','fneg','addrspacecast'):
            return (opc, me, t, O(0), self.ty(l.LLVMTypeOf(l.LLVMGetOperand(i, 0))), i)
        if opc == 'select':
            return ('select', me, O(0), O(1), O(2), i, t, self.ty(l.LLVMTypeOf(l.LLVMGetOperand(i, 0))))
        if opc == 'alloca':
            return ('alloca', me, self.ty(l.LLVMGetAllocatedType(i)), O(0), i)
        if opc == 'load':
            return ('load', me, t, O(0), i)
        if opc == 'store':
            return ('store', self.ty(l.LLVMTypeOf(l.LLVMGetOperand(i, 0))), O(0), O(1), i)
        if opc == 'gep':
            return ('gep', me, O(0)) + self._gep(i, ids, 1) + (i,)
        if opc == 'phi':
            n = l.LLVMCountIncoming(i)
            return ('phi', me, {bidx[l.LLVMGetIncomingBlock(i, k)]: self._op(l.LLVMGetIncomingValue(i, k), ids) for k in range(n)}, t)
        if opc in ('call', 'invoke'):
            cv = l.LLVMGetCalledValue(i)
            n = l.LLVMGetNumArgOperands(i)
            fn = self.fbyref.get(cv)
            if fn is None and cv in self.aliases:
                fn = self.fbyref.get(self.aliases[cv])
            if fn is not None and (fn.name.startswith('llvm.dbg') or fn.name.startswith('llvm.lifetime')
                                   or fn.name.startswith('llvm.experimental.noalias') or fn.name == 'llvm.donothing'
                                   or fn.name.startswith('llvm.assume')):
                if opc == 'call': return None
            callee = fn if fn is not None else self._op(cv, ids)
            args = [O(k) for k in range(n)]
            if opc == 'call': return ('call', me, callee, args, t, i)
            return ('invoke', me, callee, args, t, bidx[l.LLVMGetNormalDest(i)], bidx[l.LLVMGetUnwindDest(i)], i)
        if opc == 'ret':
            return ('ret', O(0) if l.LLVMGetNumOperands(i) else None, i)
        if opc == 'br':
            if l.LLVMIsConditional(i):
                return ('cbr', self._op(l.LLVMGetCondition(i), ids), bidx[l.LLVMGetSuccessor(i, 0)], bidx[l.LLVMGetSuccessor(i, 1)], i)
            return ('br', bidx[l.LLVMGetSuccessor(i, 0)], i)
        if opc == 'switch':
            n = l.LLVMGetNumOperands(i)
            cases = []
            for k in range(2, n, 2):
                cases.append((l.LLVMConstIntGetZExtValue(l.LLVMGetOperand(i, k)), bidx[l.LLVMValueAsBasicBlock(l.LLVMGetOperand(i, k + 1))]))
            return ('switch', O(0), bidx[l.LLVMGetSwitchDefaultDest(i)], cases, i)
        if opc == 'unreachable': return ('unreachable', i)
        if opc == 'resume': return ('resume', O(0), i)
        if opc == 'landingpad':
            cl = [l.LLVMGetClause(i, k) for k in range(l.LLVMGetNumClauses(i))]
            return ('landingpad', me, bool(l.LLVMIsCleanup(i)), cl, t, i)
        if opc in ('extractvalue', 'insertvalue'):
            n = l.LLVMGetNumIndices(i); ix = l.LLVMGetIndices(i)
            idx = [ix[k] for k in range(n)]
            if opc == 'extractvalue': return ('extractvalue', me, O(0), idx, i)
            return ('insertvalue', me, O(0), O(1), idx, i, t)
        if opc == 'extractelement': return (opc, me, O(0), O(1), i)
        if opc == 'insertelement': return (opc, me, O(0), O(1), O(2), i, t)
        if opc == 'shufflevector':
            n = l.LLVMGetNumMaskElements(i)
            return (opc, me, O(0), O(1), [l.LLVMGetMaskValue(i, k) for k in range(n)], i)
        if opc == 'atomicrmw':
            return (opc, me, t, l.LLVMGetAtomicRMWBinOp(i), O(0), O(1), i)
        if opc == 'fence': return None
        return ('unsupported', opc, i)

    def _gep(self, i, ids, first):
        """-> (const_offset, [(scale, operand, width)])"""
        l = L()
        n = l.LLVMGetNumOperands(i)
        cur = self.ty(l.LLVMGetGEPSourceElementType(i))
        coff = 0; terms = []
        for k in range(first, n):
            o = l.LLVMGetOperand(i, k)
            isc = VK[l.LLVMGetValueKind(o)] == 'cint'
            if k == first:
                sz = cur.size
            elif cur.kind == STRUCT:
                x = l.LLVMConstIntGetZExtValue(o)
                coff += cur.offs[x]; cur = cur.fields[x]
                continue
            else:
                cur = cur.elem; sz = cur.size
            if isc:
                w = l.LLVMGetIntTypeWidth(l.LLVMTypeOf(o))
                v = l.LLVMConstIntGetZExtValue(o)
                if v >> (w - 1): v -= 1 << w
                coff += v * sz
            else:
                terms.append((sz, self._op(o, ids)))
        return coff, terms

    # ------------------------------------------------------------ ordering
    def _order(self, fn):
        """Weak topological order (Bourdoncle). pos[b] = tuple path: (rank0, head?, rank1, ...)"""
        succ = [B.succ for B in fn.blocks]
        n = len(succ)
        dfn = [0] * n; num = [0]; stack = []
        INF = 1 << 60
        def component(v):
            part = []
            for s in succ[v]:
                if dfn[s] == 0: visit(s, part)
            part.reverse()
            return (v, part)
        def visit(v, part):
            # recursive visit
            stack.append(v)
            num[0] += 1
            head = dfn[v] = num[0]
            loop = False
            for s in succ[v]:
                m = visit(s, part) if dfn[s] == 0 else dfn[s]
                if m <= head:
                    head = m; loop = True
            if head == dfn[v]:
                dfn[v] = INF
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    part.append(component(v))
                else:
                    part.append(v)
            return head
        top = []
        import threading
        visit(0, top)
        top.reverse()
        # position: for each block a list of (rank) and enclosing loop heads
        for B in fn.blocks: B.pos = None
        def assign(part, prefix, heads):
            for r, e in enumerate(part):
                if isinstance(e, tuple):
                    h, body = e
                    p = prefix + (r,)
                    fn.blocks[h].pos = (p, heads + (h,), -1)
                    assign2(body, p, heads + (h,))
                else:
                    fn.blocks[e].pos = (prefix, heads, r)
        def assign2(body, p, heads): assign(body, p, heads)
        assign(top, (), ())
        fn.wto = top

    def _liveness(self, fn):
        """live-in register sets per block (phi uses counted on the edge)"""
        n = len(fn.blocks)
        use = [set() for _ in range(n)]; dfs = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]  # block -> pred -> set
        for B in fn.blocks:
            u = use[B.idx]; d = dfs[B.idx]
            for ph in B.phis:
                d.add(ph[1])
                for p, o in ph[2].items():
                    if o[0] == 'r': phiuse[B.idx].setdefault(p, set()).add(o[1])
            for ins in B.ins:
                for o in regs_used(ins):
                    if o not in d: u.add(o)
                df = reg_def(ins)
                if df is not None: d.add(df)
        # live at the point just after phis of B ("head"): phi defs are considered live if used
        livein = [set() for _ in range(n)]
        headlive = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for bi in range(n - 1, -1, -1):
                B = fn.blocks[bi]
                out = set()
                for s in B.succ:
                    out |= livein[s]
                    out |= phiuse[s].get(bi, set())
                phid = set(p[1] for p in B.phis)
                # registers needed right after phis
                idefs = dfs[bi] - phid
                h = set()
                for ins in B.ins:
                    pass
                h = (use[bi]) | (out - idefs)
                # uses inside block of phi defs
                hu = set()
                d2 = set()
                for ins in B.ins:
                    for o in regs_used(ins):
                        if o not in d2: hu.add(o)
                    df = reg_def(ins)
                    if df is not None: d2.add(df)
                h = hu | (out - d2)
                li = h - phid
                if h != headlive[bi] or li != livein[bi]:
                    headlive[bi] = h; livein[bi] = li; changed = True
        fn.live = headlive
        for B in fn.blocks:
            B.livein = headlive[B.idx]
        fn.order = {}

    def live_at(self, fn, bi, ip):
        """registers live just before instruction ip of block bi"""
        k = (bi, ip)
        r = fn.order.get(k)
        if r is None:
            B = fn.blocks[bi]
            if ip == 0: r = B.livein
            else:
                out = set()
                for s in B.succ:
                    S = fn.blocks[s]
                    out |= (S.livein - set(p[1] for p in S.phis))
                    for ph in S.phis:
                        o = ph[2].get(bi)
                        if o and o[0] == 'r': out.add(o[1])
                r = set(out)
                for ins in reversed(B.ins[ip:]):
                    df = reg_def(ins)
                    if df is not None: r.discard(df)
                    r.update(regs_used(ins))
            fn.order[k] = r
        return r

def reg_def(ins):
    if ins[0] in ('store', 'ret', 'br', 'cbr', 'switch', 'unreachable', 'resume', 'unsupported'): return None
    return ins[1]

def regs_used(ins):
    out = []
    def o(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'r': out.append(x[1])
    k = ins[0]
    if k in ('call', 'invoke'):
        o(ins[2])
        for a in ins[3]: o(a)
        return out
    if k == 'gep':
        o(ins[2])
        for s, x in ins[4]: o(x)
        return out
    for x in ins[1:]: o(x)
    return out


def _subprogram_file(ref):
    l = L()
    sp = l.LLVMGetSubprogram(ref)
    if not sp: return None
    f = l.LLVMDIScopeGetFile(sp)
    if not f: return None
    n = c_uint()
    p = l.LLVMDIFileGetFilename(f, byref(n))
    s = C.string_at(p, n.value).decode() if p else ''
    if not s.startswith('/'):
        p = l.LLVMDIFileGetDirectory(f, byref(n))
        s = (C.string_at(p, n.value).decode() if p else '') + '/' + s
    return os.path.normpath(s)

def func_file(self, name):
    f = self.funcs.get(name)
    return _subprogram_file(f.ref) if f and not f.decl else None
Module.func_file = func_file

def mark_noinline(src, dst, names, prefixes=()):
    """copy a module, marking functions (by name or by defining file prefix) noinline"""
    l = L()
    m = Module(src)
    kind = lambda n: l.LLVMGetEnumAttributeKindForName(n, len(n))
    ni = kind(b'noinline'); ai = kind(b'alwaysinline')
    at = l.LLVMCreateEnumAttribute(m.ctx, ni, 0)
    for f in m.funcs.values():
        if f.decl: 
            continue
        file = _subprogram_file(f.ref) if prefixes else None
        if f.name in names or (file and file.startswith(prefixes)):
            l.LLVMRemoveEnumAttributeAtIndex(f.ref, 0xFFFFFFFF, ai)
            l.LLVMAddAttributeAtIndex(f.ref, 0xFFFFFFFF, at)
    if l.LLVMWriteBitcodeToFile(m.m, dst.encode()): raise Exception('cannot write ' + dst)
