"""LLVM 18 bitcode -> Python IR, through the LLVM C API (ctypes on libLLVM)."""
import ctypes as C, ctypes.util, os, subprocess, re
from . import terms as tm

_L = C.CDLL(next(p for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1","/usr/lib/x86_64-linux-gnu/libLLVM-18.so") if os.path.exists(p)))
V = C.c_void_p
def _f(name, res, *args):
    f = getattr(_L, name); f.restype = res; f.argtypes = list(args); return f
ctxCreate = _f("LLVMContextCreate", V)
bufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
parseIR = _f("LLVMParseIRInContext", C.c_int, V, V, C.POINTER(V), C.POINTER(C.c_char_p))
linkMods = _f("LLVMLinkModules2", C.c_int, V, V)
asmStr = _f("LLVMGetInlineAsmAsmString", V, V, C.POINTER(C.c_size_t)); asmCon = _f("LLVMGetInlineAsmConstraintString", V, V, C.POINTER(C.c_size_t))
firstFn = _f("LLVMGetFirstFunction", V, V); nextFn = _f("LLVMGetNextFunction", V, V)
firstG = _f("LLVMGetFirstGlobal", V, V); nextG = _f("LLVMGetNextGlobal", V, V)
firstBB = _f("LLVMGetFirstBasicBlock", V, V); nextBB = _f("LLVMGetNextBasicBlock", V, V)
firstI = _f("LLVMGetFirstInstruction", V, V); nextI = _f("LLVMGetNextInstruction", V, V)
opc = _f("LLVMGetInstructionOpcode", C.c_int, V)
numOps = _f("LLVMGetNumOperands", C.c_int, V); getOp = _f("LLVMGetOperand", V, V, C.c_uint)
typeOf = _f("LLVMTypeOf", V, V); tkind = _f("LLVMGetTypeKind", C.c_int, V)
intW = _f("LLVMGetIntTypeWidth", C.c_uint, V)
vname = _f("LLVMGetValueName2", C.c_char_p, V, C.POINTER(C.c_size_t))
vkind = _f("LLVMGetValueKind", C.c_int, V)
isDecl = _f("LLVMIsDeclaration", C.c_int, V)
getInit = _f("LLVMGetInitializer", V, V); isGConst = _f("LLVMIsGlobalConstant", C.c_int, V)
gvt = _f("LLVMGlobalGetValueType", V, V)
td = _f("LLVMGetModuleDataLayout", V, V)
abiSize = _f("LLVMABISizeOfType", C.c_ulonglong, V, V); storeSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, V, V)
elOff = _f("LLVMOffsetOfElement", C.c_ulonglong, V, V, C.c_uint)
nStruct = _f("LLVMCountStructElementTypes", C.c_uint, V); structEl = _f("LLVMStructGetTypeAtIndex", V, V, C.c_uint)
elemT = _f("LLVMGetElementType", V, V); arrLen = _f("LLVMGetArrayLength", C.c_uint, V); vecLen = _f("LLVMGetVectorSize", C.c_uint, V)
icmpP = _f("LLVMGetICmpPredicate", C.c_int, V)
fcmpP = _f("LLVMGetFCmpPredicate", C.c_int, V)
numSucc = _f("LLVMGetNumSuccessors", C.c_uint, V); getSucc = _f("LLVMGetSuccessor", V, V, C.c_uint)
allocT = _f("LLVMGetAllocatedType", V, V)
gepT = _f("LLVMGetGEPSourceElementType", V, V)
nIn = _f("LLVMCountIncoming", C.c_uint, V); inV = _f("LLVMGetIncomingValue", V, V, C.c_uint); inB = _f("LLVMGetIncomingBlock", V, V, C.c_uint)
nIdx = _f("LLVMGetNumIndices", C.c_uint, V); idxs = _f("LLVMGetIndices", C.POINTER(C.c_uint), V)
cOpc = _f("LLVMGetConstOpcode", C.c_int, V)
nParams = _f("LLVMCountParams", C.c_uint, V); getParam = _f("LLVMGetParam", V, V, C.c_uint)
toStr = _f("LLVMPrintValueToString", C.c_char_p, V)
bbVal = _f("LLVMBasicBlockAsValue", V, V)
isUndef = _f("LLVMIsUndef", C.c_int, V)
nArgs = _f("LLVMGetNumArgOperands", C.c_uint, V)
called = _f("LLVMGetCalledValue", V, V)
attrKind = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
mkAttr = _f("LLVMCreateEnumAttribute", V, V, C.c_uint, C.c_ulonglong)
addAttr = _f("LLVMAddAttributeAtIndex", None, V, C.c_uint, V)
rmAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, V, C.c_uint, C.c_uint)
createPBO = _f("LLVMCreatePassBuilderOptions", V)
runPasses = _f("LLVMRunPasses", V, V, C.c_char_p, V, V)
errMsg = _f("LLVMGetErrorMessage", C.c_char_p, V)
zextV = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, V)
isStrConst = _f("LLVMIsConstantString", C.c_int, V)
getAsStr = _f("LLVMGetAsString", C.POINTER(C.c_ubyte), V, C.POINTER(C.c_size_t))
elAsConst = _f("LLVMGetAggregateElement", V, V, C.c_uint)
realVal = _f("LLVMConstRealGetDouble", C.c_double, V, C.POINTER(C.c_int))
cookie = _f("LLVMIsAGlobalAlias", V, V)
aliasee = _f("LLVMAliasGetAliasee", V, V)
setLinkage = _f("LLVMSetLinkage", None, V, C.c_int)

OPC = {1:"ret",2:"br",3:"switch",5:"invoke",7:"unreachable",67:"callbr",66:"fneg",8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",29:"gep",30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",39:"ptrtoint",40:"inttoptr",41:"bitcast",60:"addrspacecast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",50:"extractelement",51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",68:"freeze",55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad",49:"va_arg"}
ICMP = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
# type kinds
K_VOID,K_FLOAT,K_DOUBLE,K_INT,K_STRUCT,K_ARRAY,K_PTR,K_VEC = 0,2,3,8,10,11,12,13

class Ty:
    __slots__=("k","w","size","elems","offs","n")
class Fn: pass
class Ptr:
    __slots__=("obj","off")
    def __init__(s,o,f): s.obj=o; s.off=f
    def __repr__(s): return f"Ptr({s.obj}+{s.off})"
    def __eq__(s,o): return isinstance(o,Ptr) and s.obj==o.obj and s.off==o.off
    def __hash__(s): return hash((s.obj,s.off))
class FnPtr:
    __slots__=("name",)
    def __init__(s,n): s.name=n
    def __eq__(s,o): return isinstance(o,FnPtr) and s.name==o.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return f"Fn({s.name})"
class Undef:
    def __repr__(s): return "undef"
UNDEF=Undef()

CLANG="/usr/lib/llvm-18/bin/clang++"

def name_of(v):
    n=C.c_size_t()
    s=vname(v,C.byref(n))
    return s.decode() if s else ""

class Module:
    def __init__(self, bcfiles, inline_std=True, passes=None):
        self.ctx=ctxCreate()
        mods=[]
        for f in bcfiles:
            buf=V(); err=C.c_char_p()
            if bufFile(f.encode(),C.byref(buf),C.byref(err)): raise RuntimeError(err.value)
            m=V()
            if parseIR(self.ctx,buf,C.byref(m),C.byref(err)): raise RuntimeError(err.value)
            mods.append(m)
        self.m=mods[0]
        self.ctors=[]
        for m in mods[1:]:
            if linkMods(self.m,m): raise RuntimeError("link failed")
        ai=attrKind(b"alwaysinline",12); ni=attrKind(b"noinline",8); on=attrKind(b"optnone",7)
        aiA=mkAttr(self.ctx,ai,0); niA=mkAttr(self.ctx,ni,0)
        f=firstFn(self.m)
        FN=C.c_uint(0xFFFFFFFF).value
        while f:
            if not isDecl(f):
                n=name_of(f)
                rmAttr(f,FN,on)
                std = inline_std and (n.startswith(("_ZNSt","_ZNKSt","_ZSt","_ZN9__gnu_cxx","_ZNK9__gnu_cxx")) and "_M_invoke" not in n and "_M_realloc" not in n and "_M_manager" not in n and "basic_string" not in n)
                rmAttr(f,FN,ai)
                if std:
                    rmAttr(f,FN,ni); addAttr(f,FN,aiA)
                else:
                    addAttr(f,FN,niA)
            f=nextFn(f)
        opts=createPBO()
        e=runPasses(self.m,(passes or "always-inline,function(sroa,early-cse,simplifycfg,instsimplify,dce)").encode(),None,opts)
        if e: raise RuntimeError(errMsg(e))
        self.td=td(self.m)
        self.tycache={}
        self.fnvals={}; self.gvals={}; self.fns={}
        f=firstFn(self.m)
        while f: self.fnvals[name_of(f)]=f; f=nextFn(f)
        g=firstG(self.m)
        while g: self.gvals[name_of(g)]=g; g=nextG(g)
        firstIF=_f("LLVMGetFirstGlobalIFunc",V,V); nextIF=_f("LLVMGetNextGlobalIFunc",V,V)
        names=list(self.fnvals)
        g=firstIF(self.m)
        while g: names.append(name_of(g)); g=nextIF(g)
        r=subprocess.run(["c++filt"],input="\n".join(names),capture_output=True,text=True)
        self.demangled=dict(zip(names,r.stdout.split("\n")))
        self.bydem={}
        for k,d in self.demangled.items(): self.bydem.setdefault(d,k)
    def dem(self, name):
        d = self.demangled.get(name)
        if d is None:
            d = subprocess.run(["c++filt", name], capture_output=True, text=True).stdout.strip()
            self.demangled[name] = d; self.bydem.setdefault(d, name)
        return d
    # -------- types
    def ty(self,t):
        r=self.tycache.get(t)
        if r: return r
        r=Ty(); r.elems=None; r.offs=None; r.w=0; r.n=0
        k=tkind(t); r.k=k
        r.size=0
        self.tycache[t]=r
        if k in (K_VOID,): return r
        if k in (9,14,16): return r   # function/metadata/token, label=7
        if k==7: return r
        r.size=abiSize(self.td,t)
        if k==K_INT: r.w=intW(t)
        elif k==K_PTR: r.w=64
        elif k==K_STRUCT:
            n=nStruct(t); r.n=n
            r.elems=[self.ty(structEl(t,i)) for i in range(n)]
            r.offs=[elOff(self.td,t,i) for i in range(n)]
        elif k==K_ARRAY:
            r.n=arrLen(t); e=self.ty(elemT(t)); r.elems=[e]; 
        elif k==K_VEC:
            r.n=vecLen(t); e=self.ty(elemT(t)); r.elems=[e]
        return r
    def elem(self,t,i):
        return t.elems[i] if t.k==K_STRUCT else t.elems[0]
    def eoff(self,t,i):
        if t.k==K_STRUCT: return t.offs[i]
        return t.elems[0].size*i
    # -------- constants
    def const(self,v):
        k=vkind(v); t=self.ty(typeOf(v))
        # LLVMValueKind: 0 Argument 1 BB 2 MemoryUse.. 5 Function 6 GlobalAlias 7 GlobalIFunc 8 GlobalVariable 9 BlockAddress
        # 10 ConstantExpr 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef 15 AggZero 16 DataArray 17 DataVector 18 Int 19 FP 20 PtrNull 21 TokenNone 22 MDAsValue 23 InlineAsm 24 Instruction 25 Poison
        if k==18:
            if t.w<=64: return zextV(v)
            s=toStr(v).decode().split()[-1]
            return (int(s) if s not in("true","false") else int(s=="true")) & tm.mask(t.w)
        if k in (5,7): return FnPtr(name_of(v))
        if k==8: return Ptr(name_of(v),0)
        if k==6: return self.const(aliasee(v))
        if k==20: return 0
        if k in (14,25):
            if t.k in(K_STRUCT,K_ARRAY,K_VEC): return tuple(UNDEF for _ in range(t.n))
            return UNDEF
        if k==15:
            return self.zero(t)
        if k==19:
            li=C.c_int(); return float(realVal(v,C.byref(li)))
        if k in (11,12,13,16,17):
            return tuple(self.const(elAsConst(v,i)) for i in range(t.n))
        if k==10:
            op=OPC.get(cOpc(v))
            if op=="gep":
                base=self.const(getOp(v,0)); st=self.ty(gepT(v))
                off=0
                for i in range(1,numOps(v)):
                    c=self.const(getOp(v,i)); c=tm.sgn(c,64) if c>>63 else c
                    if i==1: off+=c*st.size
                    else:
                        off+=self.eoff(st,c); st=self.elem(st,c)
                if isinstance(base,Ptr): return Ptr(base.obj,base.off+off)
                if base==0: return off & tm.mask(64)
                raise NotImplementedError("gep const")
            if op in("bitcast","ptrtoint","inttoptr"): return self.const(getOp(v,0))
            if op=="sub":
                a=self.const(getOp(v,0));b=self.const(getOp(v,1))
                if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj: return (a.off-b.off)&tm.mask(64)
            raise NotImplementedError("constexpr "+str(op)+" "+toStr(v).decode()[:200])
        if k==22 or k==23: return None
        raise NotImplementedError(f"const kind {k} {toStr(v).decode()[:200]}")
    def zero(self,t):
        if t.k in(K_STRUCT,K_ARRAY,K_VEC):
            return tuple(self.zero(self.elem(t,i)) for i in range(t.n))
        if t.k in (K_FLOAT,K_DOUBLE): return 0.0
        return 0
    # -------- functions
    def fn(self,name):
        f=self.fns.get(name)
        if f is not None: return f
        v=self.fnvals[name]
        if isDecl(v): return None
        f=Fn(); f.name=name; f.dem=self.demangled[name]
        blocks=[]; b=firstBB(v); bidx={}
        while b: bidx[bbVal(b)]=len(blocks); blocks.append(b); b=nextBB(b)
        ridx={}; rty=[]
        for i in range(nParams(v)):
            p=getParam(v,i); ridx[p]=len(rty); rty.append(self.ty(typeOf(p)))
        f.nparams=len(rty)
        raw=[]
        for b in blocks:
            L=[]; ins=firstI(b)
            while ins:
                t=self.ty(typeOf(ins))
                if t.k!=K_VOID:
                    ridx[ins]=len(rty); rty.append(t)
                L.append(ins); ins=nextI(ins)
            raw.append(L)
        f.rty=rty
        def opnd(o):
            i=ridx.get(o)
            if i is not None: return (False,i)
            return (True,self.const(o))
        f.blocks=[]; f.phis=[]; f.succ=[]
        for bi,L in enumerate(raw):
            out=[]; phis=[]
            succ=[]
            for ins in L:
                op=OPC[opc(ins)]; t=self.ty(typeOf(ins)); d=ridx.get(ins)
                if op=="phi":
                    phis.append((d,{bidx[inB(ins,i)]:opnd(inV(ins,i)) for i in range(nIn(ins))})); continue
                if op=="ret":
                    out.append(("ret",None,opnd(getOp(ins,0)) if numOps(ins) else None))
                elif op=="br":
                    n=numSucc(ins); ss=[bidx[getSucc(ins,i)] for i in range(n)]; succ=ss
                    if n==1: out.append(("jmp",None,ss[0]))
                    else: out.append(("br",None,opnd(getOp(ins,0)),ss[0],ss[1]))
                elif op=="switch":
                    n=numSucc(ins); ss=[bidx[getSucc(ins,i)] for i in range(n)]; succ=ss
                    cond=opnd(getOp(ins,0)); w=self.ty(typeOf(getOp(ins,0))).w
                    # operands: cond, default, val1, bb1, ...
                    cases=[(self.const(getOp(ins,2*i)),bidx[getOp(ins,2*i+1)]) for i in range(1,numOps(ins)//2)]
                    out.append(("switch",None,cond,w,bidx[getOp(ins,1)],cases))
                elif op in("call","invoke"):
                    na=nArgs(ins); callee=called(ins)
                    if vkind(callee)==23:
                        n=C.c_size_t(); a=asmStr(callee,C.byref(n)); txt=C.string_at(a,n.value).decode()
                        a=asmCon(callee,C.byref(n)); con=C.string_at(a,n.value).decode()
                        out.append(("asm",d,txt,con,[opnd(getOp(ins,i)) for i in range(na)]))
                    else:
                        args=[]
                        for i in range(na):
                            a=getOp(ins,i)
                            args.append(opnd(a))
                        out.append(("call",d,opnd(callee),args,t,[self.ty(typeOf(getOp(ins,i))) for i in range(na)]))
                    if op=="invoke":
                        ss=[bidx[getSucc(ins,0)]]; succ=ss   # unwind edge is not followed
                        out.append(("jmp",None,ss[0]))
                elif op=="unreachable": out.append(("unreachable",None))
                elif op in("resume",): out.append(("unreachable",None))
                elif op=="landingpad": out.append(("unreachable",None))
                elif op=="icmp":
                    a=getOp(ins,0); out.append(("icmp",d,ICMP[icmpP(ins)],self.ty(typeOf(a)).w,opnd(a),opnd(getOp(ins,1)),self.ty(typeOf(a))))
                elif op=="fcmp":
                    out.append(("fcmp",d,fcmpP(ins),opnd(getOp(ins,0)),opnd(getOp(ins,1))))
                elif op in("add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor"):
                    out.append(("bin",d,op,t.w,opnd(getOp(ins,0)),opnd(getOp(ins,1)),t))
                elif op in("fadd","fsub","fmul","fdiv"):
                    out.append(("fbin",d,op,opnd(getOp(ins,0)),opnd(getOp(ins,1))))
                elif op=="alloca":
                    out.append(("alloca",d,self.ty(allocT(ins)).size,opnd(getOp(ins,0)),bi*100000+len(out)))
                elif op=="load": out.append(("load",d,t,opnd(getOp(ins,0))))
                elif op=="store":
                    vv=getOp(ins,0); out.append(("store",None,self.ty(typeOf(vv)),opnd(vv),opnd(getOp(ins,1))))
                elif op=="gep":
                    st=self.ty(gepT(ins)); base=opnd(getOp(ins,0)); off=0; var=[]
                    for i in range(1,numOps(ins)):
                        o=getOp(ins,i); oo=opnd(o); iw=self.ty(typeOf(o)).w
                        if i==1: scale=st.size
                        else:
                            if st.k==K_STRUCT:
                                off+=st.offs[oo[1]]; st=st.elems[oo[1]]; continue
                            st=st.elems[0]; scale=st.size
                        if oo[0]: off+=tm.sgn(oo[1],iw)*scale
                        else: var.append((oo[1],scale,iw))
                    out.append(("gep",d,base,off,var))
                elif op in("trunc","zext","sext"):
                    out.append((op,d,self.ty(typeOf(getOp(ins,0))).w,t.w,opnd(getOp(ins,0))))
                elif op in("ptrtoint","inttoptr","bitcast","freeze","addrspacecast"):
                    out.append(("mov",d,opnd(getOp(ins,0)),t))
                elif op in("uitofp","sitofp","fptoui","fptosi","fpext","fptrunc","fneg"):
                    out.append(("fconv",d,op,self.ty(typeOf(getOp(ins,0))).w,t.w,opnd(getOp(ins,0))))
                elif op=="select": out.append(("select",d,t,opnd(getOp(ins,0)),opnd(getOp(ins,1)),opnd(getOp(ins,2))))
                elif op=="extractvalue":
                    n=nIdx(ins); p=idxs(ins); out.append(("extractvalue",d,opnd(getOp(ins,0)),[p[i] for i in range(n)]))
                elif op=="insertvalue":
                    n=nIdx(ins); p=idxs(ins); out.append(("insertvalue",d,opnd(getOp(ins,0)),opnd(getOp(ins,1)),[p[i] for i in range(n)]))
                elif op=="fence": pass
                elif op in("atomicrmw","cmpxchg"): out.append(("unsupported",d,op))
                else: out.append(("unsupported",d,op+" "+toStr(ins).decode()[:100]))
            f.blocks.append(out); f.phis.append(phis); f.succ.append(succ)
        self.fns[name]=f
        self.analyse(f)
        return f
    def analyse(self,f):
        n=len(f.blocks)
        exits=[i for i in range(n) if f.blocks[i] and f.blocks[i][-1][0]=="ret"]
        # blocks that can reach a return
        pred=[[] for _ in range(n)]
        for i in range(n):
            for s in f.succ[i]: pred[s].append(i)
        live=set(exits); wl=list(exits)
        while wl:
            b=wl.pop()
            for p in pred[b]:
                if p not in live: live.add(p); wl.append(p)
        # post-dominators (iterative, virtual exit = n)
        full=set(live)|{n}
        pd={i:set(full) for i in live}; pd[n]={n}
        ch=True
        order=sorted(live,reverse=True)
        while ch:
            ch=False
            for i in order:
                ss=[s for s in f.succ[i] if s in live]
                if i in exits: new={n}
                else:
                    new=None
                    for s in ss: new=set(pd[s]) if new is None else new&pd[s]
                    if new is None: new=set()
                new=new|{i}
                if new!=pd[i]: pd[i]=new; ch=True
        f.ipdom=[None]*n
        for i in live:
            c=pd[i]-{i}
            # immediate: the one whose own postdominators are exactly c
            for x in c:
                if x!=n and pd[x]==c: f.ipdom[i]=x; break
        # liveness at block entry (after phis)
        use=[set() for _ in range(n)]; de=[set() for _ in range(n)]; phiuse=[{} for _ in range(n)]
        def ops_of(ins):
            out=[]
            def walk(x):
                if isinstance(x,tuple) and len(x)==2 and x[0] is False: out.append(x[1])
                elif isinstance(x,(list,)):
                    for y in x: walk(y)
            op=ins[0]
            if op=="gep":
                walk(ins[2])
                for (r,_,_) in ins[4]: out.append(r)
            else:
                for x in ins[2:]: walk(x)
            return out
        for i in range(n):
            for ins in f.blocks[i]:
                for r in ops_of(ins):
                    if r not in de[i]: use[i].add(r)
                if ins[1] is not None: de[i].add(ins[1])
            for (d,inc) in f.phis[i]:
                for p,o in inc.items():
                    if not o[0]: phiuse[p].setdefault(i,set()).add(o[1])
        li=[set() for _ in range(n)]
        ch=True
        while ch:
            ch=False
            for i in range(n-1,-1,-1):
                o=set()
                for s in f.succ[i]:
                    o|=li[s]-{d for d,_ in f.phis[s]}
                    o|=phiuse[i].get(s,set())
                new=use[i]|(o-de[i])
                if new!=li[i]: li[i]=new; ch=True
        f.livein=li
    def global_init(self,name):
        """(size, const?, init python const or None, Ty)"""
        g=self.gvals[name]; t=self.ty(gvt(g)); init=getInit(g) if not isDecl(g) else None
        return t.size, isGConst(g), (self.const(init) if init else None), t
