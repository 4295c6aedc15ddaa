"""Reads LLVM bitcode through the LLVM C API (libLLVM-18, ctypes) into plain Python objects.

Nothing is interpreted here: every instruction of every function of the module is turned into an
Instr record on first use.  The module is the one clang produced from /repo's current sources."""
import ctypes, struct, re, subprocess
from ctypes import c_void_p, c_char_p, c_int, c_uint, c_ulonglong, c_size_t, c_double, POINTER, byref

_L = ctypes.CDLL('/usr/lib/x86_64-linux-gnu/libLLVM-18.so')

def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

V = c_void_p
ContextCreate = _f('LLVMContextCreate', V)
CreateMemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', c_int, c_char_p, POINTER(V), POINTER(c_char_p))
ParseBC = _f('LLVMParseBitcodeInContext2', c_int, V, V, POINTER(V))
GetModuleDataLayout = _f('LLVMGetModuleDataLayout', V, V)
FirstFn = _f('LLVMGetFirstFunction', V, V); NextFn = _f('LLVMGetNextFunction', V, V)
FirstGl = _f('LLVMGetFirstGlobal', V, V); NextGl = _f('LLVMGetNextGlobal', V, V)
FirstAlias = _f('LLVMGetFirstGlobalAlias', V, V); NextAlias = _f('LLVMGetNextGlobalAlias', V, V)
AliasGetAliasee = _f('LLVMAliasGetAliasee', V, V)
GetValueName2 = _f('LLVMGetValueName2', c_void_p, V, POINTER(c_size_t))
CountBB = _f('LLVMCountBasicBlocks', c_uint, V)
FirstBB = _f('LLVMGetFirstBasicBlock', V, V); NextBB = _f('LLVMGetNextBasicBlock', V, V)
FirstI = _f('LLVMGetFirstInstruction', V, V); NextI = _f('LLVMGetNextInstruction', V, V)
Opcode = _f('LLVMGetInstructionOpcode', c_int, V)
NumOps = _f('LLVMGetNumOperands', c_int, V)
GetOp = _f('LLVMGetOperand', V, V, c_uint)
TypeOf = _f('LLVMTypeOf', V, V)
TypeKind = _f('LLVMGetTypeKind', c_int, V)
IntWidth = _f('LLVMGetIntTypeWidth', c_uint, V)
ValueKind = _f('LLVMGetValueKind', c_int, V)
ZExtVal = _f('LLVMConstIntGetZExtValue', c_ulonglong, V)
PrintV = _f('LLVMPrintValueToString', c_void_p, V)
DisposeMsg = _f('LLVMDisposeMessage', None, c_void_p)
RealVal = _f('LLVMConstRealGetDouble', c_double, V, POINTER(c_int))
ICmpPred = _f('LLVMGetICmpPredicate', c_int, V)
FCmpPred = _f('LLVMGetFCmpPredicate', c_int, V)
GEPSrc = _f('LLVMGetGEPSourceElementType', V, V)
AllocTy = _f('LLVMGetAllocatedType', V, V)
ABISize = _f('LLVMABISizeOfType', c_ulonglong, V, V)
OffOf = _f('LLVMOffsetOfElement', c_ulonglong, V, V, c_uint)
CountStruct = _f('LLVMCountStructElementTypes', c_uint, V)
StructElt = _f('LLVMStructGetTypeAtIndex', V, V, c_uint)
EltTy = _f('LLVMGetElementType', V, V)
ArrLen = _f('LLVMGetArrayLength2', c_ulonglong, V)
VecLen = _f('LLVMGetVectorSize', c_uint, V)
CountInc = _f('LLVMCountIncoming', c_uint, V)
IncV = _f('LLVMGetIncomingValue', V, V, c_uint)
IncB = _f('LLVMGetIncomingBlock', V, V, c_uint)
NumArgOps = _f('LLVMGetNumArgOperands', c_uint, V)
CalledV = _f('LLVMGetCalledValue', V, V)
NormalDest = _f('LLVMGetNormalDest', V, V)
UnwindDest = _f('LLVMGetUnwindDest', V, V)
NumIdx = _f('LLVMGetNumIndices', c_uint, V)
Idx = _f('LLVMGetIndices', POINTER(c_uint), V)
RMWOp = _f('LLVMGetAtomicRMWBinOp', c_int, V)
Ordering = _f('LLVMGetOrdering', c_int, V)
CountParams = _f('LLVMCountParams', c_uint, V)
GetParam = _f('LLVMGetParam', V, V, c_uint)
GetInit = _f('LLVMGetInitializer', V, V)
IsGConst = _f('LLVMIsGlobalConstant', c_int, V)
GlobalValueType = _f('LLVMGlobalGetValueType', V, V)
ConstOpcode = _f('LLVMGetConstOpcode', c_int, V)
AggElt = _f('LLVMGetAggregateElement', V, V, c_uint)
GetAsString = _f('LLVMGetAsString', c_void_p, V, POINTER(c_size_t))
BBValue = _f('LLVMValueAsBasicBlock', V, V)
BlockAsValue = _f('LLVMBasicBlockAsValue', V, V)
FnTyRet = _f('LLVMGetReturnType', V, V)
IsVolatile = _f('LLVMGetVolatile', c_int, V)
GetBBTerm = _f('LLVMGetBasicBlockTerminator', V, V)
SwitchDefault = _f('LLVMGetSwitchDefaultDest', V, V)

OPS = {1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
 37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',
 46:'select',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',
 68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',4:'indirectbr',67:'callbr'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = ['false','oeq','ogt','oge','olt','ole','one','ord','uno','ueq','ugt','uge','ult','ule','une','true']
RMW = ['xchg','add','sub','and','nand','or','xor','max','min','umax','umin','fadd','fsub','fmax','fmin','uinc','udec']


class Ty:
    __slots__ = ('kind', 'width', 'size', 'fields', 'offsets', 'elt', 'n')
    def __repr__(self):
        return '%s%s' % (self.kind, self.width or '')


class Instr:
    __slots__ = ('id', 'op', 'ty', 'ops', 'x', 'name', 'bb', 'text')
    def __repr__(self):
        return '<%s %s>' % (self.op, self.name or hex(self.id))


class Block:
    __slots__ = ('id', 'name', 'instrs', 'phis', 'succs', 'idx')
    def __repr__(self):
        return '<bb %s>' % self.name


class Fn:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = CountBB(ref) == 0
        self._loaded = False

    @property
    def dem(self):
        return self.mod.demangle(self.name)

    def load(self):
        if self._loaded:
            return self
        self._loaded = True
        m = self.mod
        self.args = []
        self.argtys = []
        for i in range(CountParams(self.ref)):
            p = GetParam(self.ref, i)
            self.args.append(p)
            self.argtys.append(m.ty(TypeOf(p)))
        self.blocks = {}
        self.order = []
        bb = FirstBB(self.ref)
        n = 0
        while bb:
            b = Block()
            b.id = bb
            b.name = m.vname(BlockAsValue(bb)) or ('bb%d' % n)
            b.idx = n
            n += 1
            b.instrs = []
            b.phis = []
            i = FirstI(bb)
            while i:
                ins = m.instr(i, b)
                if ins.op == 'phi':
                    b.phis.append(ins)
                else:
                    b.instrs.append(ins)
                i = NextI(i)
            t = b.instrs[-1]
            b.succs = {'br': lambda: t.x['dests'], 'switch': lambda: [t.x['default']] + [c[1] for c in t.x['cases']],
                       'invoke': lambda: [t.x['normal']]}.get(t.op, lambda: [])()
            self.blocks[bb] = b
            self.order.append(b)
            bb = NextBB(bb)
        self.entry = self.order[0]
        self._loops()
        return self

    def _loops(self):
        # reachable, dominators, natural loops
        preds = {}
        seen = []
        st = [self.entry.id]
        vis = {self.entry.id}
        while st:
            x = st.pop()
            seen.append(x)
            for s in self.blocks[x].succs:
                preds.setdefault(s, []).append(x)
                if s not in vis:
                    vis.add(s)
                    st.append(s)
        # reverse postorder
        post = []
        visited = set()
        stack = [(self.entry.id, iter(self.blocks[self.entry.id].succs))]
        visited.add(self.entry.id)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in visited:
                    visited.add(s)
                    stack.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                post.append(n)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if idom[b] == b:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.blocks[b].succs:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self.rpo = rpo


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = V()
        msg = c_char_p()
        if CreateMemBuf(path.encode(), byref(buf), byref(msg)):
            raise RuntimeError('cannot read %s' % path)
        mod = V()
        if ParseBC(self.ctx, buf, byref(mod)):
            raise RuntimeError('cannot parse %s' % path)
        self.mod = mod
        self.dl = GetModuleDataLayout(mod)
        self._ty = {}
        self._dem = {}
        self.fns = {}
        self.globals = {}
        f = FirstFn(mod)
        while f:
            n = self.vname(f)
            self.fns[n] = Fn(self, f, n)
            f = NextFn(f)
        a = FirstAlias(mod)
        while a:
            t = AliasGetAliasee(a)
            if ValueKind(t) == 5:
                self.fns[self.vname(a)] = self.fns[self.vname(t)]
            a = NextAlias(a)
        g = FirstGl(mod)
        while g:
            self.globals[self.vname(g)] = g
            g = NextGl(g)
        self._gop = {}

    def demangle_all(self):
        names = [n for n in self.fns if n not in self._dem]
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, out):
            self._dem[n] = d
        rest = [n for n in names if self._dem.get(n, '').startswith('_Z')]
        if rest:    # newer manglings
            out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(rest), capture_output=True, text=True).stdout.split('\n')
            for n, d in zip(rest, out):
                self._dem[n] = d

    def demangle(self, n):
        if n not in self._dem:
            self.demangle_all()
            if n not in self._dem:
                self._dem[n] = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
        return self._dem[n]

    def find(self, regex):
        """functions with a body whose demangled name matches"""
        self.demangle_all()
        r = re.compile(regex)
        return [f for n, f in sorted(self.fns.items()) if not f.decl and r.search(self._dem.get(n, n))]

    def vname(self, v):
        n = c_size_t()
        p = GetValueName2(v, byref(n))
        return ctypes.string_at(p, n.value).decode('utf-8', 'replace') if n.value else ''

    def text(self, v):
        p = PrintV(v)
        s = ctypes.string_at(p).decode('utf-8', 'replace')
        DisposeMsg(p)
        return s.strip()

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        r = Ty()
        self._ty[t] = r
        k = TypeKind(t)
        r.width = None
        r.size = None
        r.fields = r.offsets = r.elt = r.n = None
        if k == 0:
            r.kind = 'void'
            return r
        if k in (6, 7, 14, 15):  # label function metadata/token
            pass
        if k == 8:
            r.kind = 'int'
            r.width = IntWidth(t)
            r.size = ABISize(self.dl, t)
        elif k == 3:
            r.kind, r.width, r.size = 'fp', 64, 8
        elif k == 2:
            r.kind, r.width, r.size = 'fp', 32, 4
        elif k == 12:
            r.kind, r.size = 'ptr', 8
        elif k == 10:
            r.kind = 'struct'
            n = CountStruct(t)
            r.fields = [self.ty(StructElt(t, i)) for i in range(n)]
            try:
                r.size = ABISize(self.dl, t)
                r.offsets = [OffOf(self.dl, t, i) for i in range(n)]
            except Exception:
                pass
        elif k == 11:
            r.kind = 'array'
            r.n = ArrLen(t)
            r.elt = self.ty(EltTy(t))
            r.size = r.n * r.elt.size
        elif k == 13:
            r.kind = 'vector'
            r.n = VecLen(t)
            r.elt = self.ty(EltTy(t))
            r.size = r.n * r.elt.size
        elif k == 4:
            r.kind, r.width, r.size = 'x86fp80', 80, 16
        else:
            r.kind = 'other%d' % k
        return r

    def find1(self, rx, body=True):
        """the one function whose demangled name matches"""
        r = [f for f in self.find(rx) if not (body and f.decl)]
        if len(r) != 1:
            from .engine import Unsupported
            raise Unsupported('%d functions match %s' % (len(r), rx))
        return r[0]

    def globals_matching(self, rx):
        import re
        c = re.compile(rx)
        return [g for g in self.globals if c.search(self.demangle(g))]

    def operand(self, v):
        """descriptor of an operand"""
        k = ValueKind(v)
        if k in (0, 24):
            return ('v', v)
        r = self._gop.get(v)
        if r is None:
            r = self._operand(v, k)
            self._gop[v] = r
        return r

    def _operand(self, v, k):
        if k == 18:
            t = self.ty(TypeOf(v))
            if t.width <= 64:
                return ('i', t.width, ZExtVal(v) & ((1 << t.width) - 1))
            s = self.text(v).split()[-1]
            return ('i', t.width, int(s) & ((1 << t.width) - 1))
        if k == 19:
            t = self.ty(TypeOf(v))
            s = self.text(v).split()[-1]
            if t.kind == 'fp':
                if s.startswith('0x'):
                    d = int(s, 16)
                    if t.width == 64:
                        return ('i', 64, d)
                    f = struct.unpack('<d', struct.pack('<Q', d))[0]
                    return ('i', 32, struct.unpack('<I', struct.pack('<f', f))[0])
                f = float(s)
                if t.width == 64:
                    return ('i', 64, struct.unpack('<Q', struct.pack('<d', f))[0])
                return ('i', 32, struct.unpack('<I', struct.pack('<f', f))[0])
            return ('unk', s)
        if k == 20:
            return ('null',)
        if k in (14, 25):
            return ('undef', self.ty(TypeOf(v)))
        if k == 15:
            return ('zero', self.ty(TypeOf(v)))
        if k == 5:
            return ('g', self.vname(v), 'fn')
        if k == 8:
            return ('g', self.vname(v), 'var')
        if k == 6:
            t = AliasGetAliasee(v)
            return self.operand(t)
        if k == 16:
            t = self.ty(TypeOf(v))
            n = c_size_t()
            if t.elt.kind == 'int' and t.elt.width == 8:
                p = GetAsString(v, byref(n))
                return ('bytes', ctypes.string_at(p, n.value))
            return ('agg', t, [self.operand(AggElt(v, i)) for i in range(t.n)])
        if k in (11, 12):
            t = self.ty(TypeOf(v))
            n = t.n if t.kind == 'array' else len(t.fields)
            return ('agg', t, [self.operand(AggElt(v, i)) for i in range(n)])
        if k == 10:
            op = OPS.get(ConstOpcode(v), '?')
            ops = [self.operand(GetOp(v, i)) for i in range(NumOps(v))]
            x = None
            if op == 'gep':
                x = self.ty(GEPSrc(v))
            return ('ce', op, ops, self.ty(TypeOf(v)), x)
        if k == 22:
            return ('md',)
        return ('unk', self.text(v)[:80])

    def global_init(self, name):
        g = self.globals[name]
        t = self.ty(GlobalValueType(g))
        i = GetInit(g)
        return t, (self.operand(i) if i else None), bool(IsGConst(g))

    def instr(self, i, b):
        r = Instr()
        r.id = i
        r.bb = b
        r.op = OPS.get(Opcode(i), 'op%d' % Opcode(i))
        r.ty = self.ty(TypeOf(i))
        r.name = self.vname(i)
        r.x = {}
        op = r.op
        x = r.x
        n = NumOps(i)
        if op == 'phi':
            r.ops = []
            x['inc'] = {IncB(i, k): self.operand(IncV(i, k)) for k in range(CountInc(i))}
        elif op == 'br':
            if n == 1:
                r.ops = []
                x['dests'] = [BBValue(GetOp(i, 0))]
            else:
                r.ops = [self.operand(GetOp(i, 0))]
                x['dests'] = [BBValue(GetOp(i, 2)), BBValue(GetOp(i, 1))]
        elif op == 'switch':
            r.ops = [self.operand(GetOp(i, 0))]
            x['default'] = SwitchDefault(i)
            x['cases'] = [(self.operand(GetOp(i, k)), BBValue(GetOp(i, k + 1))) for k in range(2, n, 2)]
        elif op in ('call', 'invoke'):
            na = NumArgOps(i)
            r.ops = [self.operand(GetOp(i, k)) for k in range(na)]
            x['argtys'] = [self.ty(TypeOf(GetOp(i, k))) for k in range(na)]
            cv = CalledV(i)
            x['callee'] = self.operand(cv)
            if op == 'invoke':
                x['normal'] = NormalDest(i)
                x['unwind'] = UnwindDest(i)
        else:
            r.ops = [self.operand(GetOp(i, k)) for k in range(n)]
            if op == 'icmp':
                x['pred'] = ICMP[ICmpPred(i)]
                x['oty'] = self.ty(TypeOf(GetOp(i, 0)))
            elif op == 'fcmp':
                x['pred'] = FCMP[FCmpPred(i)]
                x['oty'] = self.ty(TypeOf(GetOp(i, 0)))
            elif op == 'gep':
                x['src'] = self.ty(GEPSrc(i))
                x['idxtys'] = [self.ty(TypeOf(GetOp(i, k))) for k in range(n)]
            elif op == 'alloca':
                x['aty'] = self.ty(AllocTy(i))
            elif op in ('extractvalue', 'insertvalue'):
                k = NumIdx(i)
                p = Idx(i)
                x['idx'] = [p[j] for j in range(k)]
            elif op == 'atomicrmw':
                x['rmw'] = RMW[RMWOp(i)]
                x['vty'] = self.ty(TypeOf(GetOp(i, 1)))
            elif op == 'cmpxchg':
                x['vty'] = self.ty(TypeOf(GetOp(i, 1)))
            elif op == 'store':
                x['vty'] = self.ty(TypeOf(GetOp(i, 0)))
                x['atomic'] = Ordering(i) != 0
            elif op == 'load':
                x['atomic'] = Ordering(i) != 0
            elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'ptrtoint',
                        'inttoptr', 'bitcast'):
                x['oty'] = self.ty(TypeOf(GetOp(i, 0)))
        return r
