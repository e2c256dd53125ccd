"""Reads LLVM IR (bitcode or text) through libLLVM's C API into plain Python objects."""
import ctypes as C, glob

_lib = None
for cand in ['libLLVM-18.so', 'libLLVM-18.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so',
             '/usr/lib/llvm-18/lib/libLLVM.so.18.1'] + glob.glob('/usr/lib/*/libLLVM*18*so*'):
    try:
        _lib = C.CDLL(cand); break
    except OSError:
        pass
assert _lib is not None, 'libLLVM-18 not found'
P, U, B, S, U64 = C.c_void_p, C.c_uint, C.c_int, C.c_char_p, C.c_ulonglong

def _f(name, res, *args):
    fn = getattr(_lib, name); fn.restype = res; fn.argtypes = list(args); return fn

CreateCtx = _f('LLVMContextCreate', P)
MemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', B, S, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f('LLVMParseIRInContext', B, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f('LLVMGetFirstFunction', P, P); NextFn = _f('LLVMGetNextFunction', P, P)
FirstGl = _f('LLVMGetFirstGlobal', P, P); NextGl = _f('LLVMGetNextGlobal', P, P)
FirstAl = _f('LLVMGetFirstGlobalAlias', P, P); NextAl = _f('LLVMGetNextGlobalAlias', P, P)
AliasTgt = _f('LLVMAliasGetAliasee', P, P)
Name2 = _f('LLVMGetValueName2', C.c_void_p, P, C.POINTER(C.c_size_t))
FirstBB = _f('LLVMGetFirstBasicBlock', P, P); NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstI = _f('LLVMGetFirstInstruction', P, P); NextI = _f('LLVMGetNextInstruction', P, P)
Opcode = _f('LLVMGetInstructionOpcode', B, P)
NumOps = _f('LLVMGetNumOperands', B, P); Op = _f('LLVMGetOperand', P, P, U)
TypeOf = _f('LLVMTypeOf', P, P)
TypeKind = _f('LLVMGetTypeKind', B, P)
IntW = _f('LLVMGetIntTypeWidth', U, P)
NParams = _f('LLVMCountParams', U, P); Param = _f('LLVMGetParam', P, P, U)
IPred = _f('LLVMGetICmpPredicate', B, P); FPred = _f('LLVMGetFCmpPredicate', B, P)
GEPTy = _f('LLVMGetGEPSourceElementType', P, P)
AllocTy = _f('LLVMGetAllocatedType', P, P)
IsCond = _f('LLVMIsConditional', B, P)
Cond = _f('LLVMGetCondition', P, P)
NSucc = _f('LLVMGetNumSuccessors', U, P); Succ = _f('LLVMGetSuccessor', P, P, U)
CntInc = _f('LLVMCountIncoming', U, P); IncV = _f('LLVMGetIncomingValue', P, P, U); IncB = _f('LLVMGetIncomingBlock', P, P, U)
CalledV = _f('LLVMGetCalledValue', P, P); NArgs = _f('LLVMGetNumArgOperands', U, P)
NormDest = _f('LLVMGetNormalDest', P, P); UnwDest = _f('LLVMGetUnwindDest', P, P)
NumIdx = _f('LLVMGetNumIndices', U, P); Idx = _f('LLVMGetIndices', C.POINTER(U), P)
ValKind = _f('LLVMGetValueKind', B, P)
ZExt = _f('LLVMConstIntGetZExtValue', U64, P); SExt = _f('LLVMConstIntGetSExtValue', C.c_longlong, P)
RealD = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(B))
ConstOp = _f('LLVMGetConstOpcode', B, P)
AggEl = _f('LLVMGetAggregateElement', P, P, U)
Init = _f('LLVMGetInitializer', P, P)
IsDecl = _f('LLVMIsDeclaration', B, P)
IsGConst = _f('LLVMIsGlobalConstant', B, P)
GValTy = _f('LLVMGlobalGetValueType', P, P)
DLStr = _f('LLVMGetDataLayoutStr', S, P)
MkTD = _f('LLVMCreateTargetData', P, S)
OffEl = _f('LLVMOffsetOfElement', U64, P, P, U)
ABISz = _f('LLVMABISizeOfType', U64, P, P)
StructN = _f('LLVMCountStructElementTypes', U, P); StructAt = _f('LLVMStructGetTypeAtIndex', P, P, U)
StructNm = _f('LLVMGetStructName', S, P)
ArrLen = _f('LLVMGetArrayLength2', U64, P); VecLen = _f('LLVMGetVectorSize', U, P)
ElTy = _f('LLVMGetElementType', P, P)
NSW = _f('LLVMGetNSW', B, P); NUW = _f('LLVMGetNUW', B, P)
IsClean = _f('LLVMIsCleanup', B, P); NClause = _f('LLVMGetNumClauses', U, P); Clause = _f('LLVMGetClause', P, P, U)
BBVal = _f('LLVMBasicBlockAsValue', P, P); ValBB = _f('LLVMValueAsBasicBlock', P, P)
PrintV = _f('LLVMPrintValueToString', C.c_void_p, P)
PrintT = _f('LLVMPrintTypeToString', C.c_void_p, P)
MDStr = _f('LLVMGetMDString', C.c_void_p, P, C.POINTER(U))
FnTy = _f('LLVMGetCalledFunctionType', P, P); RetTy = _f('LLVMGetReturnType', P, P)
FnTyParams = _f('LLVMCountParamTypes', U, P)
GLine = _f('LLVMGetDebugLocLine', U, P); GFile = _f('LLVMGetDebugLocFilename', C.c_void_p, P, C.POINTER(U))
HasMD = _f('LLVMHasMetadata', B, P)
CaseVal = None
NormalUndef = None

OPC = {1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
 37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',
 59:'landingpad',60:'addrspacecast',66:'fneg',68:'freeze'}
IP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FPn = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

def name_of(v):
    n = C.c_size_t()
    p = Name2(v, C.byref(n))
    return C.string_at(p, n.value).decode() if p and n.value else ''

def text(v):
    p = PrintV(v); return C.string_at(p).decode()

class Ty:
    __slots__ = ('kind', 'w', 'size', 'els', 'offs', 'el', 'n', 'name')
    # kind: void,float,double,int,ptr,struct,array,vector,label,metadata,token,func,other
    def __repr__(self):
        return f'{self.kind}{self.w or ""}' + (f' {self.name}' if self.name else '')
_TK = {0:'void',1:'half',2:'float',3:'double',4:'x86_fp80',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vector',14:'metadata',16:'token'}

class Inst:
    __slots__ = ('op','ty','ops','x','id','line','file','blk','name')
    def __repr__(self): return f'<{self.op} {self.x if self.x is not None else ""}>'
class Block:
    __slots__ = ('id','insts','succs','fn','name','preds')
    def __repr__(self): return f'bb{self.id}'
class Func:
    __slots__ = ('name','args','blocks','decl','retty','loops','argtys','m')
    def __repr__(self): return f'fn {self.name}'
# operand encodings: ('v', id) ssa value | ('a', i) argument | ('c', int) | ('f', float) | ('g', name) | ('null',) |
#  ('undef', Ty) | ('zero', Ty) | ('agg', Ty, [ops]) | ('ce', opname, Ty, [ops], extra) | ('md', str) | ('asm', s)

class Module:
    def __init__(self, path):
        self.ctx = CreateCtx(); buf = P(); err = C.c_char_p()
        if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError('cannot read ' + path)
        m = P()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError('IR parse: ' + str(err.value))
        self.m = m; self.td = MkTD(DLStr(m))
        self.tys = {}; self.funcs = {}; self.globals = {}; self.alias = {}
        self._raw = {}
        f = FirstFn(m)
        while f:
            self._raw[name_of(f)] = f
            f = NextFn(f)
        g = FirstGl(m)
        while g:
            self.globals[name_of(g)] = g; g = NextGl(g)
        a = FirstAl(m)
        while a:
            self.alias[name_of(a)] = name_of(AliasTgt(a)); a = NextAl(a)

    def ty(self, t):
        r = self.tys.get(t)
        if r: return r
        r = Ty(); r.w = r.size = r.els = r.offs = r.el = r.n = r.name = None
        r.kind = _TK.get(TypeKind(t), 'other'); self.tys[t] = r
        k = r.kind
        if k == 'int': r.w = IntW(t)
        if k in ('int','float','double','ptr','vector','x86_fp80'):
            r.size = ABISz(self.td, t)
        if k == 'struct':
            nm = StructNm(t); r.name = nm.decode() if nm else None
            n = StructN(t)
            r.els = [self.ty(StructAt(t, i)) for i in range(n)]
            try:
                r.offs = [OffEl(self.td, t, i) for i in range(n)]; r.size = ABISz(self.td, t)
            except Exception: pass
        if k == 'array':
            r.n = ArrLen(t); r.el = self.ty(ElTy(t)); r.size = ABISz(self.td, t)
        if k == 'vector':
            r.n = VecLen(t); r.el = self.ty(ElTy(t))
        return r

    def has(self, name):
        return name in self._raw
    def names(self): return list(self._raw)

    def func(self, name):
        name = self.alias.get(name, name)
        f = self.funcs.get(name)
        if f: return f
        raw = self._raw.get(name)
        if raw is None: return None
        f = Func(); f.name = name; f.m = self; f.loops = None
        f.decl = bool(IsDecl(raw)); self.funcs[name] = f
        n = NParams(raw); f.args = [Param(raw, i) for i in range(n)]
        f.argtys = [self.ty(TypeOf(a)) for a in f.args]
        f.retty = self.ty(RetTy(GValTy(raw)))
        f.blocks = []
        if f.decl: return f
        amap = {a: ('a', i) for i, a in enumerate(f.args)}
        bmap = {}; ids = {}
        b = FirstBB(raw); bl = []
        while b:
            blk = Block(); blk.id = len(bl); blk.insts = []; blk.fn = f; blk.preds = []; bmap[b] = blk; bl.append((b, blk)); 
            blk.name = name_of(BBVal(b)); b = NextBB(b)
        raws = []
        for b, blk in bl:
            i = FirstI(b)
            while i:
                ids[i] = len(ids); raws.append((i, blk)); i = NextI(i)
        self._cv = {}
        def opnd(v):
            if v in ids: return ('v', ids[v])
            if v in amap: return amap[v]
            return self.const(v)
        for i, blk in raws:
            ins = Inst(); ins.id = ids[i]; ins.op = OPC.get(Opcode(i), 'op%d' % Opcode(i)); ins.ty = self.ty(TypeOf(i)); ins.x = None
            ins.blk = blk; ins.line = 0; ins.file = None; ins.name = name_of(i) if ins.ty.kind != 'void' else ''
            if HasMD(i):
                ins.line = GLine(i)
                n = U(); p = GFile(i, C.byref(n)); ins.file = C.string_at(p, n.value).decode() if p else None
            o = ins.op
            if o == 'phi':
                ins.x = [(bmap[IncB(i, k)].id, opnd(IncV(i, k))) for k in range(CntInc(i))]; ins.ops = []
            elif o == 'br':
                if IsCond(i): ins.ops = [opnd(Cond(i))]
                else: ins.ops = []
                ins.x = [bmap[Succ(i, k)].id for k in range(NSucc(i))]
            elif o == 'switch':
                ins.ops = [opnd(Op(i, 0))]
                ns = NSucc(i)
                cases = []
                for k in range(1, ns):
                    cases.append((SExt(Op(i, 2*k)), bmap[Succ(i, k)].id))
                ins.x = (bmap[Succ(i, 0)].id, cases)
            elif o in ('call', 'invoke'):
                na = NArgs(i); ins.ops = [opnd(Op(i, k)) for k in range(na)]
                cv = CalledV(i)
                cal = opnd(cv)
                if ValKind(cv) == 25: cal = ('asm', '')
                ins.x = {'callee': cal, 'argtys': [self.ty(TypeOf(Op(i, k))) for k in range(na)]}
                if o == 'invoke':
                    ins.x['normal'] = bmap[NormDest(i)].id; ins.x['unwind'] = bmap[UnwDest(i)].id
            elif o == 'gep':
                ins.ops = [opnd(Op(i, k)) for k in range(NumOps(i))]; ins.x = self.ty(GEPTy(i))
            elif o == 'alloca':
                ins.ops = [opnd(Op(i, 0))]; ins.x = self.ty(AllocTy(i))
            elif o == 'landingpad':
                ins.x = (bool(IsClean(i)), [opnd(Clause(i, k)) for k in range(NClause(i))]); ins.ops = []
            else:
                ins.ops = [opnd(Op(i, k)) for k in range(NumOps(i))]
                if o == 'icmp': ins.x = (IP[IPred(i)], self.ty(TypeOf(Op(i, 0))))
                elif o == 'fcmp': ins.x = FPn[FPred(i)]
                elif o in ('extractvalue', 'insertvalue'):
                    n = NumIdx(i); px = Idx(i); ins.x = [px[k] for k in range(n)]
                elif o in ('add','sub','mul','shl'): ins.x = (bool(NSW(i)), bool(NUW(i)))
                elif o == 'store': ins.x = self.ty(TypeOf(Op(i, 0)))
                elif o in ('trunc','zext','sext','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','ptrtoint','inttoptr','bitcast'):
                    ins.x = self.ty(TypeOf(Op(i, 0)))
            blk.insts.append(ins)
        f.blocks = [blk for _, blk in bl]
        for _, blk in bl:
            t = blk.insts[-1]
            if t.op == 'br': blk.succs = list(t.x)
            elif t.op == 'switch': blk.succs = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke': blk.succs = [t.x['normal'], t.x['unwind']]
            else: blk.succs = []
        for blk in f.blocks:
            for s in blk.succs: f.blocks[s].preds.append(blk.id)
        return f

    def const(self, v):
        k = ValKind(v)
        t = None
        # value kinds: 0 arg,1 bb,2 memuse..,5 function,6 alias,7 ifunc,8 globalvar,9 blockaddr,10 constexpr,11 array,12 struct,13 vector,
        # 14 undef,15 aggzero,16 dataarray,17 datavector,18 int,19 fp,20 nullptr,21 tokennone,22 metadata,23 inlineasm, 24 inst, 25 poison
        if k in (5, 8): return ('g', name_of(v))
        if k == 6: return ('g', name_of(v))
        if k == 18:
            t = self.ty(TypeOf(v))
            if t.w > 64:
                s = text(v).split()[-1]; return ('c', int(s), t.w)
            return ('c', SExt(v) if t.w > 1 else ZExt(v), t.w)
        if k == 19:
            lose = B(); t = self.ty(TypeOf(v))
            return ('f', RealD(v, C.byref(lose)))
        if k == 20: return ('null',)
        if k in (14, 25): return ('undef', self.ty(TypeOf(v)))
        if k == 15: return ('zero', self.ty(TypeOf(v)))
        if k in (11, 12, 13, 16, 17):
            t = self.ty(TypeOf(v))
            n = t.n if t.kind in ('array', 'vector') else len(t.els)
            return ('agg', t, [self.const(AggEl(v, i)) for i in range(n)])
        if k == 10:
            op = OPC.get(ConstOp(v))
            ops = [self.const(Op(v, i)) for i in range(NumOps(v))]
            ex = self.ty(GEPTy(v)) if op == 'gep' else self.ty(TypeOf(Op(v, 0)))
            return ('ce', op, self.ty(TypeOf(v)), ops, ex)
        if k == 22 or self.ty(TypeOf(v)).kind == 'metadata':
            n = U()
            try:
                p = MDStr(v, C.byref(n))
                if p: return ('md', C.string_at(p, n.value).decode())
            except Exception: pass
            return ('md', None)
        if k == 23: return ('asm', '')
        return ('unk', text(v))

    def global_info(self, name):
        g = self.globals.get(name)
        if g is None: return None
        ini = None
        if not IsDecl(g):
            iv = Init(g)
            if iv: ini = self.const(iv)
        return self.ty(GValTy(g)), ini, bool(IsGConst(g))
