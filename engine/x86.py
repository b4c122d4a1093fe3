"""Symbolic execution of the assembled x86-64 limb code (decoded with objdump on every run)."""
import os, re, subprocess
from . import build, terms as tm
from .exec import *
from .lin import Lin, Form, LinError
R64 = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
R32 = {"eax": "rax", "ebx": "rbx", "ecx": "rcx", "edx": "rdx", "esi": "rsi", "edi": "rdi", "ebp": "rbp", **{f"r{i}d": f"r{i}" for i in range(8, 16)}}
def disasm():
    """{function: [(addr, op, [operands])]} of every .s file in the repository"""
    import glob
    out = {}
    d = build.scratch()
    for s in sorted(glob.glob(build.REPO + "/src/*.s")):
        o = os.path.join(d, "x86_" + os.path.basename(s) + f".{os.getpid()}.o")
        build.sh(["as", s, "-o", o])
        txt = build.sh(["objdump", "-dr", "--no-show-raw-insn", "-w", o]); os.unlink(o)
        cur = None
        for line in txt.splitlines():
            m = re.match(r"^([0-9a-f]+) <(.+)>:$", line)
            if m: cur = out.setdefault(m.group(2), []); continue
            m = re.match(r"^\s+([0-9a-f]+):\s+(\S+)\s*(.*?)\s*$", line)
            if m and cur is not None:
                ops = re.sub(r"\s*(#|<).*$", "", m.group(3))
                rel = re.search(r"R_X86_64_\w+\s+(\S+)", line)
                args = []; depth = 0; w = ""
                for ch in ops.split("R_X86")[0].strip():
                    if ch == "(": depth += 1
                    if ch == ")": depth -= 1
                    if ch == "," and depth == 0: args.append(w); w = ""
                    else: w += ch
                if w: args.append(w)
                cur.append((int(m.group(1), 16), m.group(2), [x.strip() for x in args], rel.group(1) if rel else None))
    return out
class X86:
    """run(name, ptr args) executes one function on an Exec state; mode 'bv' (bit-vector flags) or 'lin' (exact sums)"""
    def __init__(self, ex, mode="bv", lin=None):
        self.ex = ex; self.mode = mode; self.lin = lin or Lin(); self.code = disasm(); self.steps = 0
        self.lin_add = mode == "lin"; self.lin_sub = False; self.strict = True
    def run(self, name, args, st, depth=0):
        ex = self.ex
        if name not in self.code: raise Unsupported("assembly function " + name)
        regs = {r: tm.var("init_" + r, 64) for r in R64}
        for r, v in zip(["rdi", "rsi", "rdx", "rcx", "r8", "r9"], args): regs[r] = v
        stk = ex.alloc(st, 4096, "stack")
        RET = FnPtr("$return")
        regs["rsp"] = Ptr(stk.obj, 2048); self.st = st
        ex.wr(st, stk.obj, 2048, 8, RET)
        saved = {r: regs[r] for r in ("rbx", "rbp", "r12", "r13", "r14", "r15")}
        code = self.code[name]; idx = {a: i for i, (a, *_ ) in enumerate(code)}
        self.cf = self.of = self.zf = None
        i = 0
        while True:
            if i >= len(code): raise Unsupported("control runs past the end of " + name)
            addr, op, a, rel = code[i]; i += 1; self.steps += 1
            ex.steps += 1
            if op in ("ret", "retq"):
                p = regs["rsp"]
                if not isinstance(p, Ptr) or ex.rd(st, p.obj, p.off, 8) is not RET or p.off != 2048:
                    ex.err(st, "asm", "stack not balanced at return"); return
                for r, v in saved.items():
                    if regs[r] is not v: ex.err(st, "asm", f"callee-saved register {r} not restored"); return
                st.mem.pop(stk.obj, None)
                ex.encoded[name] = ex.encoded.get(name, 0) + 1
                return
            if op in ("jmp", "jmpq") and len(a) == 1 and re.fullmatch("[0-9a-f]+", a[0]) and int(a[0], 16) in idx:
                i = idx[int(a[0], 16)]; continue
            self.step(op, a, regs, st)
            if ex.bad: return
    # operands (AT&T: source first)
    def addr(self, s, regs):
        m = re.fullmatch(r"(-?0x[0-9a-f]+|-?\d+)?\(%(\w+)(?:,%(\w+),(\d))?\)", s)
        if not m: raise Unsupported("address " + s)
        off = int(m.group(1), 0) if m.group(1) else 0
        b = regs[m.group(2)]
        if m.group(3): raise Unsupported("indexed address")
        if not isinstance(b, (Ptr, SymPtr, PtrIte)): raise Unsupported("address from integer")
        return self.ex.padd(b, off)
    def get(self, s, regs, st, w=64):
        if s.startswith("$"): return int(s[1:], 0) & tm.mask(w)
        if s.startswith("%"):
            r = s[1:]
            if r in regs: return regs[r]
            if r in R32:
                v = regs[R32[r]]
                if isinstance(v, Ptr): raise Unsupported("32-bit pointer")
                return v & tm.mask(32) if not tm.isT(v) else tm.extract(v, 31, 0)
            raise Unsupported("register " + r)
        v = self.ex.load_raw(st, self.addr(s, regs), w // 8)
        if v is None: raise Unsupported("bad load")
        return v
    def put(self, s, v, regs, st, w=64):
        if s.startswith("%"):
            r = s[1:]
            if r in regs: regs[r] = v; return
            if r in R32: regs[R32[r]] = v if not tm.isT(v) else tm.zext(32, 64, v); return
            raise Unsupported("register " + r)
        if not self.ex.store_raw(st, self.addr(s, regs), w // 8, v): raise Unsupported("bad store")
    def width(self, a):
        return 32 if any(x.startswith("%") and x[1:] in R32 for x in a) else 64
    def addc(self, x, y, c):
        """-> (sum, carry out)"""
        if any(isinstance(v, (Ptr, FnPtr)) for v in (x, y)): raise Unsupported("pointer in add")
        if self.lin_add:
            L = self.lin
            try:
                f = L.of(x) + L.of(y) + (L.of(c) if tm.isT(c) else Form({}, c))
                lo, hi = L.split(f)
                return L.leaf("s", lo), L.leaf("c", hi, 1)
            except LinError:
                if self.strict: raise
        e = 65
        t = tm.add(e, tm.add(e, tm.zext(64, e, x), tm.zext(64, e, y)), tm.zext(1, e, c))
        if not tm.isT(t): return t & tm.mask(64), t >> 64
        return tm.extract(t, 63, 0), tm.extract(t, 64, 64)
    def subb(self, x, y, b):
        if any(isinstance(v, (Ptr, FnPtr)) for v in (x, y)): raise Unsupported("pointer in sub")
        if self.lin_sub:
            L = self.lin
            try:
                f = L.of(x) - L.of(y) - (L.of(b) if tm.isT(b) else Form({}, b))
                lo, hi = L.split(f, force=True)
                return L.leaf("d", lo), L.leaf("b", hi.scale(-1), 1)
            except LinError:
                if self.strict: raise
        e = 65
        t = tm.sub(e, tm.sub(e, tm.zext(64, e, x), tm.zext(64, e, y)), tm.zext(1, e, b))
        if not tm.isT(t): return t & tm.mask(64), t >> 64 & 1
        return tm.extract(t, 63, 0), tm.extract(t, 64, 64)
    def flag(self, f):
        if f is None: raise Unsupported("use of an undefined flag")
        return f
    def mul128(self, x, y):
        if self.mode == "lin":
            L = self.lin
            fx, fy = L.of(x), L.of(y)
            if fx.isconst(): fx, fy = fy, fx
            if fy.isconst(): lo, hi = L.lowmul(int(fy.k), fx)
            else: lo, hi = L.split(L.mul(fx, fy))
            return L.leaf("lo", lo), L.leaf("hi", hi)
        t = tm.mul(128, tm.zext(64, 128, x), tm.zext(64, 128, y))
        if not tm.isT(t): return t & tm.mask(64), t >> 64
        return tm.extract(t, 63, 0), tm.extract(t, 127, 64)
    def step(self, op, a, regs, st):
        ex = self.ex; base = op
        if base in ("movabs", "movq"): base = "mov"
        if base.endswith("q") and base[:-1] in ("mov", "push", "pop", "add", "adc", "sub", "sbb", "mul", "xor", "and", "or", "not", "neg", "inc", "dec", "lea", "test", "cmp", "mulx", "adcx", "adox", "shr", "shl"): base = base[:-1]
        w = self.width(a)
        if base == "mov": self.put(a[1], self.get(a[0], regs, st, w), regs, st, w)
        elif base == "lea": self.put(a[1], self.addr(a[0], regs), regs, st)
        elif base == "push":
            v = self.get(a[0], regs, st)
            p = Ptr(regs["rsp"].obj, regs["rsp"].off - 8); regs["rsp"] = p
            if not ex.store_raw(st, p, 8, v): raise Unsupported("stack overflow")
        elif base == "pop":
            p = regs["rsp"]; v = ex.load_raw(st, p, 8)
            if v is None: raise Unsupported("bad pop")
            regs["rsp"] = Ptr(p.obj, p.off + 8); self.put(a[0], v, regs, st)
        elif base in ("add", "adc") and w == 64:
            if isinstance(regs.get(a[1][1:]), Ptr) and base == "add":
                v = self.get(a[0], regs, st); regs[a[1][1:]] = ex.padd(regs[a[1][1:]], tm.sgn(v, 64)); self.cf = self.of = None; return
            c = self.flag(self.cf) if base == "adc" else 0
            r, self.cf = self.addc(self.get(a[1], regs, st), self.get(a[0], regs, st), c); self.of = None
            self.put(a[1], r, regs, st)
        elif base in ("adcx", "adox") and w == 64:
            fl = "cf" if base == "adcx" else "of"
            r, c = self.addc(self.get(a[1], regs, st), self.get(a[0], regs, st), self.flag(getattr(self, fl)))
            setattr(self, fl, c); self.put(a[1], r, regs, st)
        elif base in ("sub", "sbb", "cmp") and w == 64:
            if isinstance(regs.get(a[1][1:]), Ptr) and base == "sub":
                v = self.get(a[0], regs, st); regs[a[1][1:]] = ex.padd(regs[a[1][1:]], -tm.sgn(v, 64)); self.cf = self.of = None; return
            b = self.flag(self.cf) if base == "sbb" else 0
            x, y = self.get(a[1], regs, st), self.get(a[0], regs, st)
            if base == "sbb" and not tm.isT(x) and not tm.isT(y) and x == y or (base == "sbb" and x is y):
                c = self.cf; r = tm.mul(64, tm.zext(1, 64, c), tm.mask(64)) if tm.isT(c) else (-c) & tm.mask(64)
                if tm.isT(c): r = tm.ite(64, c, tm.mask(64), 0)
            else: r, self.cf = self.subb(x, y, b)
            self.of = None
            if base != "cmp": self.put(a[1], r, regs, st)
        elif base == "mul" and w == 64:
            lo, hi = self.mul128(regs["rax"], self.get(a[0], regs, st))
            regs["rax"], regs["rdx"] = lo, hi; self.cf = self.of = None
        elif base == "mulx" and w == 64:
            lo, hi = self.mul128(regs["rdx"], self.get(a[0], regs, st))
            self.put(a[1], lo, regs, st); self.put(a[2], hi, regs, st)     # AT&T: src, lo, hi
        elif base == "xor" and a[0] == a[1]:
            self.put(a[0], 0, regs, st, w); self.cf = self.of = 0
        elif base in ("xor", "and", "or") and w == 64:
            f = {"xor": tm.xor, "and": tm.and_, "or": tm.or_}[base]
            self.put(a[1], f(64, self.get(a[1], regs, st), self.get(a[0], regs, st)), regs, st); self.cf = self.of = 0
        elif base == "not": self.put(a[0], tm.xor(64, self.get(a[0], regs, st), tm.mask(64)), regs, st)
        elif base == "test": self.cf = self.of = 0
        elif base in ("cmovae", "cmovnc", "cmovnb", "cmovb", "cmovc", "cmovnae") and w == 64:
            c = self.flag(self.cf)
            if base in ("cmovae", "cmovnc", "cmovnb"): c = tm.not_(c) if tm.isT(c) else 1 - c
            x, y = self.get(a[0], regs, st), self.get(a[1], regs, st)
            self.put(a[1], x if x is y else ex.ite_val(64, c, x, y), regs, st)
        elif base in ("nop", "nopw", "nopl", "endbr64", "data16"): pass
        elif base == "clc": self.cf = 0
        else: raise Unsupported(f"x86 instruction {op} {a}")
