"""Symbolic executor for the Python IR produced by llvm.py.

Values: Python int (concrete), terms.T (symbolic), Ptr, SymPtr, FnPtr, tuple (aggregates), float.
Branches on symbolic conditions fork; the forks are merged again at the immediate post-dominator
(ite terms) when the values allow it, else the paths stay separate."""
import sys, time, threading, random
import z3
from . import terms as tm
from .llvm import *
isT = tm.isT

class Unsupported(Exception): pass
class Budget(Exception): pass

class SymPtr:
    """pointer into one object at a symbolic offset == off (64-bit term), off = res (mod stride)"""
    __slots__ = ("obj", "off", "stride", "res")
    def __init__(s, obj, off, stride, res): s.obj = obj; s.off = off; s.stride = stride; s.res = res % stride
    def __repr__(s): return f"SymPtr({s.obj}+{s.off})"
class PtrIte:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b

class Obj:
    __slots__ = ("id", "size", "cells", "owner", "kind", "fill", "const", "dead", "ro")
    def clone(s, owner):
        o = Obj(); o.id = s.id; o.size = s.size; o.cells = dict(s.cells); o.owner = owner
        o.kind = s.kind; o.fill = s.fill; o.const = s.const; o.dead = s.dead
        return o

class State:
    __slots__ = ("mem", "pc", "tok", "log", "user")
    def fork(s):
        n = State(); n.mem = dict(s.mem); n.pc = s.pc; n.log = s.log; n.user = s.user
        n.tok = object(); s.tok = object()
        return n

class Outcome:
    def __init__(s, kind, st, ret=None, info=None): s.kind = kind; s.st = st; s.ret = ret; s.info = info
    def __repr__(s): return f"<{s.kind} {s.info}>"

class Samp:
    """a fixed assignment of every variable (answers "sat" quickly; never used for "unsat")"""
    def __init__(self, k): self.k = k; self.memo = {}; self.env = self
    def get(self, name, d=0):
        if self.k == 0: return 0
        if self.k == 1: return (1 << 20000) - 1
        r = random.Random(f"{self.k}.{name}"); v = r.getrandbits(4096)
        if self.k % 3 == 0: v &= r.getrandbits(4096) & r.getrandbits(4096)
        return v
    def all(self, cs):
        memo = self.memo
        for c in cs:
            v = memo.get(c.id)
            if v is None:
                tm.evaluate(c, self, memo=memo); v = memo[c.id]
            if not v: return False
        return True
class Solver:
    """one incremental z3 solver; conditions become assumption literals"""
    models = ()
    def __init__(self, timeout_ms=60000):
        self.s = z3.SolverFor("QF_BV"); self.s.set("timeout", timeout_ms)
        self.lits = {}; self.cache = {}; self.queries = 0; self.time = 0.0; self.unknown = 0
    def lit(self, t):
        if t.op == "not1":
            return z3.Not(self.lit(t.args[0]))
        l = self.lits.get(t.id)
        if l is None:
            l = z3.Bool(f"$l{t.id}")
            self.s.add(l == tm.zb(t)); self.lits[t.id] = l
        return l
    def sat(self, conds):
        """'sat' / 'unsat' / 'unknown' for the conjunction of width-1 terms"""
        cs = []
        for c in conds:
            if not isT(c):
                if not c: return "unsat"
                continue
            cs.append(c)
        key = frozenset(c.id for c in cs)
        r = self.cache.get(key)
        if r is None and self.models:
            for m in self.models:
                if m.all(cs): self.cache[key] = "sat"; return "sat"
        if r is None:
            t0 = time.time(); self.queries += 1
            r = str(self.s.check(*[self.lit(c) for c in cs]))
            self.time += time.time() - t0
            if r == "unknown": self.unknown += 1
            else: self.cache[key] = r
            self.last = key
        return r
    def model(self, conds):
        cs = [c for c in conds if isT(c)]
        self.queries += 1; t0 = time.time()
        r = str(self.s.check(*[self.lit(c) for c in cs])); self.time += time.time() - t0
        if r != "sat": return None
        m = self.s.model(); out = {}
        for d in m.decls():
            n = d.name()
            if n.startswith("$l"): continue
            v = m[d]
            if isinstance(v, z3.BitVecNumRef): out[n] = v.as_long()
        return out

class Exec:
    ring = None
    def __init__(self, mod, merge=True, max_steps=200_000_000):
        self.cut = None
        self.mod = mod; self.merge = merge
        self.hooks = {}          # mangled name -> handler(ex, st, args, fn_name) -> value | [(st,value)...]
        self.dhooks = {}         # demangled name -> handler
        self.solver = Solver()
        self.bad = []            # abnormal outcomes
        self.steps = 0; self.max_steps = max_steps
        self.objn = 0
        self.trace_calls = {}
        self.encoded = {}        # function -> instruction count executed
        self.check_feas = True
        self.shift_check = False
        self.merge_val = None    # optional veto/merge for values: f(ex, w, cond, a, b) -> value or None
        self.uninit_is_error = False
        self.deadline = None
        self.base = State(); self.base.mem = {}; self.base.pc = (); self.base.tok = object(); self.base.log = (); self.base.user = None
        self.mem_hooks = {}; self.asm = None

    # ------------------------------------------------------------------ memory
    def alloc(self, st, size, kind="heap", fill=None, name=None):
        self.objn += 1
        o = Obj(); o.id = name or f"{kind}#{self.objn}"; o.size = size; o.cells = {}; o.owner = st.tok
        o.kind = kind; o.fill = fill; o.const = False; o.dead = False
        st.mem[o.id] = o
        return Ptr(o.id, 0)
    def getobj(self, st, id):
        o = st.mem.get(id)
        if o is None:
            if id in self.mod.gvals:
                o = self.load_global(st, id)
            else:
                raise Unsupported("object " + str(id))
        return o
    def load_global(self, st, id):
        size, const, init, ty = self.mod.global_init(id)
        o = Obj(); o.id = id; o.size = size; o.cells = {}; o.owner = st.tok; o.kind = "global"; o.fill = 0; o.const = bool(const); o.dead = False
        st.mem[id] = o
        if init is not None: self.put_agg(o, 0, ty, init)
        elif size == 0: o.size = 1 << 20
        return o
    def put_agg(self, o, off, ty, v):
        if ty.k in (K_STRUCT, K_ARRAY, K_VEC):
            for i in range(ty.n):
                self.put_agg(o, off + self.mod.eoff(ty, i), self.mod.elem(ty, i), v[i])
        elif v is UNDEF or (not isinstance(v, (Ptr, FnPtr, float)) and v == 0): pass
        elif isinstance(v, float): o.cells[off] = (ty.size, v)
        else: o.cells[off] = (max(1, (ty.w + 7) // 8) if ty.k == K_INT else 8, v)
    def own(self, st, o):
        if o.owner is not st.tok:
            o = o.clone(st.tok); st.mem[o.id] = o
        return o
    def err(self, st, kind, info, cond=1):
        """record an abnormal outcome under extra condition cond; returns"""
        n = st.fork() if isT(cond) else st
        if isT(cond): n.pc = n.pc + (cond,)
        self.bad.append(Outcome(kind, n, None, (info, list(self.stack))))
    def rd_bytes(self, st, o, off, size):
        """slow path: assemble [off, off+size)"""
        cells = o.cells; parts = []   # low to high
        pos = off; end = off + size
        while pos < end:
            c = cells.get(pos)
            if c is not None:
                n = min(c[0], end - pos)
                v = c[1]
                if n < c[0]: 
                    if isinstance(v, (Ptr, FnPtr, SymPtr, PtrIte, float)): raise Unsupported("partial pointer read")
                    v = tm.extract(v, 8 * n - 1, 0) if isT(v) else v & tm.mask(8 * n)
                parts.append((8 * n, v)); pos += n; continue
            hit = None
            for o2 in range(pos - 1, pos - 64, -1):
                c = cells.get(o2)
                if c is not None:
                    if o2 + c[0] > pos: hit = (o2, c)
                    break
            if hit:
                o2, (cs, v) = hit
                n = min(o2 + cs, end) - pos; lo = (pos - o2) * 8
                if isinstance(v, (Ptr, FnPtr, SymPtr, PtrIte, float)): raise Unsupported("partial pointer read")
                v = tm.extract(v, lo + 8 * n - 1, lo) if isT(v) else (v >> lo) & tm.mask(8 * n)
                parts.append((8 * n, v)); pos += n; continue
            # gap
            if o.fill is None:
                v = tm.fresh("uninit", 8)
                ow = self.own(st, o); cells = ow.cells; o = ow
                cells[pos] = (1, v); parts.append((8, v)); pos += 1
            else:
                parts.append((8, o.fill)); pos += 1
        if len(parts) == 1: return parts[0][1]
        for _, v in parts:
            if isinstance(v, (Ptr, FnPtr, SymPtr, PtrIte, float)): raise Unsupported("mixed pointer read")
        return tm.concat_list(parts[::-1])
    def rd(self, st, obj, off, size):
        o = st.mem.get(obj)
        if o is None: o = self.getobj(st, obj)
        c = o.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        return self.rd_bytes(st, o, off, size)
    def wr(self, st, obj, off, size, v):
        o = st.mem.get(obj)
        if o is None: o = self.getobj(st, obj)
        if o.owner is not st.tok: o = self.own(st, o)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v); return
        self.carve(cells, off, size)
        cells[off] = (size, v)
    def carve(self, cells, off, size):
        end = off + size
        for o2 in range(off - 1, off - 64, -1):
            c = cells.get(o2)
            if c is not None:
                if o2 + c[0] > off: self.cut_cell(cells, o2, off, end)
                break
        o2 = off
        while o2 < end:
            c = cells.get(o2)
            if c is None: o2 += 1; continue
            self.cut_cell(cells, o2, off, end); o2 += c[0]
    def cut_cell(self, cells, o2, off, end):
        cs, v = cells.pop(o2)
        if o2 >= off and o2 + cs <= end: return
        if isinstance(v, (Ptr, FnPtr, SymPtr, PtrIte, float)): raise Unsupported("partial pointer overwrite")
        if o2 < off:
            n = off - o2
            cells[o2] = (n, tm.extract(v, 8 * n - 1, 0) if isT(v) else v & tm.mask(8 * n))
        if o2 + cs > end:
            lo = (end - o2) * 8; n = o2 + cs - end
            cells[end] = (n, tm.extract(v, 8 * cs - 1, lo) if isT(v) else v >> lo)
    def bounds(self, st, p, size, what):
        """True if the access is fine; else records an error and returns False"""
        if not isinstance(p, Ptr):
            self.err(st, "badptr", (what, repr(p))); return False
        o = st.mem.get(p.obj)
        if o is None: o = self.getobj(st, p.obj)
        if o.dead: self.err(st, "uaf", (what, p.obj)); return False
        if p.off < 0 or p.off + size > o.size:
            self.err(st, "oob", (what, p.obj, p.off, size, o.size)); return False
        if what == "store" and o.const:
            self.err(st, "rostore", (what, p.obj)); return False
        return True
    def cands(self, st, p, size, what):
        """symbolic pointer -> [(cond, Ptr)] in bounds; records an OOB error when feasible"""
        if isinstance(p, PtrIte):
            a = self.cands(st, p.a, size, what) if not isinstance(p.a, Ptr) else [(1, p.a)]
            b = self.cands(st, p.b, size, what) if not isinstance(p.b, Ptr) else [(1, p.b)]
            out = []
            for c, q in a: out.append((tm.and_(1, p.c, c), q))
            for c, q in b: out.append((tm.and_(1, tm.not_(p.c), c), q))
            res = []
            for c, q in out:
                if self.check_feas and isT(c) and self.solver.sat(list(st.pc) + [c]) == "unsat": continue
                if not isinstance(q, Ptr):
                    self.err(st, "badptr", (what, repr(q)), c); continue
                o = self.getobj(st, q.obj)
                if o.dead or q.off < 0 or q.off + size > o.size: self.err(st, "oob", (what, q.obj, q.off, size, o.size), c)
                else: res.append((c, q))
            return res
        if isinstance(p, SymPtr):
            o = self.getobj(st, p.obj)
            if o.dead: self.err(st, "uaf", (what, p.obj)); return []
            lim = o.size - size
            oob = tm.ult(64, lim, p.off) if lim >= 0 else 1
            if not isT(oob):
                if oob: self.err(st, "oob", (what, p.obj, "sym", size, o.size)); return []
            else:
                r = self.solver.sat(list(st.pc) + [oob])
                if r != "unsat":
                    self.err(st, "oob" if r == "sat" else "oob?", (what, p.obj, "sym", size, o.size), oob)
                    st.pc = st.pc + (tm.not_(oob),)
            vals = list(range(p.res, lim + 1, p.stride))
            if len(vals) > 20000: raise Unsupported("symbolic pointer range")
            if len(vals) > 4:
                vals = [v for v in vals if isT(tm.eq(64, p.off, v)) or tm.eq(64, p.off, v)]
            return [(tm.eq(64, p.off, v), Ptr(p.obj, v)) for v in vals]
        self.err(st, "badptr", (what, repr(p))); return []
    def load_raw(self, st, p, size, w=None):
        if isinstance(p, Ptr):
            if not self.bounds(st, p, size, "load"): return None
            return self.rd(st, p.obj, p.off, size)
        cs = self.cands(st, p, size, "load")
        if not cs: return None
        v = self.rd(st, cs[-1][1].obj, cs[-1][1].off, size)
        for c, q in cs[-2::-1]:
            v = self.ite_val(8 * size, c, self.rd(st, q.obj, q.off, size), v)
        return v
    def store_raw(self, st, p, size, v):
        if isinstance(p, Ptr):
            if not self.bounds(st, p, size, "store"): return False
            self.wr(st, p.obj, p.off, size, v); return True
        cs = self.cands(st, p, size, "store")
        if not cs: return False
        for c, q in cs:
            old = self.rd(st, q.obj, q.off, size)
            self.wr(st, q.obj, q.off, size, self.ite_val(8 * size, c, v, old))
        return True
    def ite_val(self, w, c, a, b):
        if not isT(c): return a if c else b
        if a is b: return a
        pa = isinstance(a, (Ptr, SymPtr, FnPtr, PtrIte)); pb = isinstance(b, (Ptr, SymPtr, FnPtr, PtrIte))
        if pa or pb:
            if a == b: return a
            return PtrIte(c, a, b)
        if isinstance(a, float) or isinstance(b, float):
            if a == b: return a
            raise Unsupported("float merge")
        if self.merge_val:
            r = self.merge_val(self, w, c, a, b)
            if r is not None: return r
        return tm.ite(w, c, a, b)
    # helpers for harnesses
    def read_int(self, st, p, nbytes):
        """little-endian integer of nbytes (term or int); bounds assumed"""
        if isinstance(p, Ptr):
            o = self.getobj(st, p.obj)
            if o.dead or p.off < 0 or p.off + nbytes > o.size:
                self.err(st, "oob", ("hook read", p.obj, p.off, nbytes, o.size)); return None
            return self.rd_bytes(st, o, p.off, nbytes)
        cs = self.cands(st, p, nbytes, "load")
        if not cs: return None
        v = self.rd_bytes(st, self.getobj(st, cs[-1][1].obj), cs[-1][1].off, nbytes)
        for c, q in cs[-2::-1]:
            x = self.rd_bytes(st, self.getobj(st, q.obj), q.off, nbytes)
            v = self.ite_val(8 * nbytes, c, x, v)
        return v
    def write_int(self, st, p, nbytes, v, cell=8):
        """write a wide integer in cells of 8 bytes"""
        def put(q, val):
            o = self.getobj(st, q.obj)
            for i in range(0, nbytes, cell):
                n = min(cell, nbytes - i)
                x = tm.extract(val, 8 * (i + n) - 1, 8 * i) if isT(val) else (val >> (8 * i)) & tm.mask(8 * n)
                self.wr(st, q.obj, q.off + i, n, x)
        if isinstance(p, Ptr):
            if not self.bounds(st, p, nbytes, "store"): return False
            put(p, v); return True
        cs = self.cands(st, p, nbytes, "store")
        for c, q in cs:
            old = self.rd_bytes(st, self.getobj(st, q.obj), q.off, nbytes)
            put(q, self.ite_val(8 * nbytes, c, v, old))
        return bool(cs)
    def memcpy(self, st, d, s, n):
        if isT(n): raise Unsupported("symbolic memcpy length")
        if n == 0: return True
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            # per 8 bytes
            vals = []
            i = 0
            while i < n:
                k = 8 if n - i >= 8 else 1
                v = self.load_raw(st, self.padd(s, i), k)
                if v is None: return False
                vals.append((i, k, v)); i += k
            for i, k, v in vals:
                if not self.store_raw(st, self.padd(d, i), k, v): return False
            return True
        if not self.bounds(st, s, n, "load") or not self.bounds(st, d, n, "store"): return False
        so = self.getobj(st, s.obj)
        out = []; pos = s.off; end = s.off + n; cells = so.cells
        while pos < end:
            c = cells.get(pos)
            if c is not None and pos + c[0] <= end:
                out.append((pos - s.off, c)); pos += c[0]; continue
            # partial or gap: next boundary
            if c is None:
                hit = False
                for o2 in range(pos - 1, pos - 64, -1):
                    cc = cells.get(o2)
                    if cc is not None:
                        hit = o2 + cc[0] > pos; break
                if not hit:
                    if so.fill is None:
                        out.append((pos - s.off, (1, None))); pos += 1; continue
                    k = 1
                    while pos + k < end and k < 8 and (pos + k) not in cells: k += 1
                    f = 0
                    for _ in range(k): f = f << 8 | so.fill
                    out.append((pos - s.off, (k, f))); pos += k; continue
            k = 1
            v = self.rd_bytes(st, so, pos, 1); so = st.mem[s.obj]; cells = so.cells
            out.append((pos - s.off, (1, v))); pos += 1
        do = self.own(st, self.getobj(st, d.obj))
        # carve destination
        dc = do.cells
        for o2 in [x for x in dc if d.off - 63 <= x < d.off + n] if len(dc) < n else [x for x in range(d.off - 63, d.off + n) if x in dc]:
            cs, v = dc[o2]
            if o2 + cs <= d.off: continue
            if o2 >= d.off and o2 + cs <= d.off + n: del dc[o2]
            else: self.carve(dc, d.off, n)
        for o2, c in out:
            if c[1] is None:
                if do.fill is not None: dc[d.off + o2] = (1, tm.fresh("uninit", 8))
                continue
            dc[d.off + o2] = c
        return True
    def memset(self, st, d, val, n):
        if isT(n): raise Unsupported("symbolic memset length")
        if n == 0: return True
        if not isinstance(d, Ptr): raise Unsupported("memset symptr")
        if not self.bounds(st, d, n, "store"): return False
        i = 0
        if isT(val):
            while i < n: self.wr(st, d.obj, d.off + i, 1, val); i += 1
            return True
        val &= 255
        pat = int.from_bytes(bytes([val] * 8), "little")
        while i < n:
            k = 8 if n - i >= 8 and (d.off + i) % 8 == 0 else 1
            self.wr(st, d.obj, d.off + i, k, pat if k == 8 else val); i += k
        return True
    def padd(self, p, n):
        if isinstance(p, Ptr): return Ptr(p.obj, p.off + n)
        if isinstance(p, SymPtr): return SymPtr(p.obj, tm.add(64, p.off, n & tm.mask(64)), p.stride, p.res + n)
        if isinstance(p, PtrIte): return PtrIte(p.c, self.padd(p.a, n), self.padd(p.b, n))
        if isinstance(p, int): return (p + n) & tm.mask(64)
        raise Unsupported(f"pointer arithmetic on {p!r}")

    # ------------------------------------------------------------------ typed load/store
    def load(self, st, t, p):
        if t.k in (K_STRUCT, K_ARRAY, K_VEC):
            out = []
            for i in range(t.n):
                v = self.load(st, self.mod.elem(t, i), self.padd(p, self.mod.eoff(t, i)))
                if v is None: return None
                out.append(v)
            return tuple(out)
        if t.k == K_INT:
            n = (t.w + 7) // 8
            v = self.load_raw(st, p, n)
            if v is None: return None
            if t.w & 7:
                if isinstance(v, (Ptr,)): raise Unsupported("ptr as i1")
                v = tm.extract(v, t.w - 1, 0) if isT(v) else v & tm.mask(t.w)
            return v
        v = self.load_raw(st, p, t.size)
        return v
    def store(self, st, t, p, v):
        if t.k in (K_STRUCT, K_ARRAY, K_VEC):
            for i in range(t.n):
                if not self.store(st, self.mod.elem(t, i), self.padd(p, self.mod.eoff(t, i)), v[i]): return False
            return True
        if v is UNDEF: v = tm.fresh("undef", 8 * t.size)
        n = (t.w + 7) // 8 if t.k == K_INT else t.size
        if t.k == K_INT and t.w & 7:
            v = tm.zext(t.w, n * 8, v)
        return self.store_raw(st, p, n, v)

    # ------------------------------------------------------------------ run
    def init_globals(self):
        """execute the dynamic initialisers"""
        self.stack = []
        st = self.base
        g = self.mod.gvals.get("llvm.global_ctors")
        if g is None: return
        _, _, init, _ = self.mod.global_init("llvm.global_ctors")
        if not init: return
        for (prio, f, _) in init:
            r = self.call(st, f.name, [])
            if len(r) != 1: raise Unsupported("forking initialiser")
            st = r[0][0]
        self.base = st
    def new_state(self):
        return self.base.fork()
    def run(self, name, args, st=None):
        """returns [Outcome]: 'ret' outcomes plus abnormal ones"""
        self.stack = []
        st = st or self.new_state()
        nb = len(self.bad)
        rets = self.call(st, name, args)
        out = [Outcome("ret", s, v) for s, v in rets] + self.bad[nb:]
        return out
    def resolve(self, dem):
        n = self.mod.bydem.get(dem)
        return n

    def call(self, st, name, args, tys=None):
        """-> list of (state, value)"""
        h = self.hooks.get(name)
        if h is None and self.dhooks:
            h = self.dhooks.get(self.mod.dem(name))
            if h is not None: self.hooks[name] = h
        if h is not None:
            r = h(self, st, args, name)
            if isinstance(r, list): return r
            return [(st, r)]
        f = self.mod.fn(name) if name in self.mod.fnvals else None
        if f is None:
            h = EXT.get(name)
            if h is None:
                for pre, hh in EXTP:
                    if name.startswith(pre): h = hh; break
            if h is None: raise Unsupported("external " + name + " " + self.mod.dem(name))
            k = SIZEARG.get(name)
            if k is not None and k < len(args) and isT(args[k]):
                out = []
                for s2, v in self.concretize(st, args[k]):
                    r = h(self, s2, args[:k] + [v] + args[k + 1:])
                    if r is not DROP: out.append((s2, r))
                return out
            r = h(self, st, args)
            if r is DROP: return []
            return [(st, r)]
        if len(self.stack) > 200: raise Unsupported("recursion depth")
        self.encoded[f.dem] = self.encoded.get(f.dem, 0) + 1
        self.stack.append(f.dem)
        try:
            regs = [None] * len(f.rty)
            for i, a in enumerate(args[:f.nparams]): regs[i] = a
            rets = []
            allocs = []
            self._run(f, st, regs, 0, 0, None, rets, allocs)
            for s, _ in rets:
                for a in allocs: s.mem.pop(a, None)
            if len(rets) > 1 and self.merge:
                rets = self.merge_rets(f, rets)
            return rets
        finally:
            self.stack.pop()

    def concretize(self, st, t, limit=64):
        """fork on the feasible values of t"""
        vs = tm.values(t, limit)
        if vs is None: raise Unsupported("symbolic size")
        out = []
        for v in sorted(vs):
            c = tm.eq(t.w, t, v)
            if isT(c):
                pc = st.pc + (c,)
                if self.solver.sat(list(pc)) == "unsat": continue
            elif not c: continue
            else: pc = st.pc
            s2 = st.fork(); s2.pc = pc; out.append((s2, v))
        return out
    def merge_rets(self, f, rets):
        out = []
        for s, v in rets:
            done = False
            for i, (s0, v0) in enumerate(out):
                m = self.merge_states(s0, s, None, [v0], [v], [None])
                if m is not None:
                    out[i] = (m[0], m[1][0]); done = True; break
            if not done: out.append((s, v))
        return out

    def same(self, a, b):
        if a is b: return True
        if isT(a) or isT(b): return False
        return type(a) == type(b) and a == b

    def merge_states(self, s1, s2, live, r1, r2, tys):
        """merge s2 into s1; r1/r2 lists of register values. None if impossible."""
        if s1.user is not s2.user and s1.user != s2.user: return None
        if s1.log is not s2.log and s1.log != s2.log: return None
        p1, p2 = s1.pc, s2.pc
        k = 0
        while k < len(p1) and k < len(p2) and p1[k] is p2[k]: k += 1
        c1 = tm.and_all(p1[k:]); c2 = tm.and_all(p2[k:])
        if not isT(c1): c = 1 if c1 else 0
        else: c = c1
        if not isT(c): # cannot discriminate
            if isT(c2): c = tm.not_(c2)
            else: return None
        try:
            regs = list(r1)
            for i in (range(len(r1)) if live is None else live):
                a, b = r1[i], r2[i]
                if a is b: continue
                regs[i] = self.mergev(c, a, b, tys[i] if tys else None)
            mem = s1.mem
            changes = []
            for id, o2 in s2.mem.items():
                o1 = mem.get(id)
                if o1 is o2: continue
                if o1 is None: changes.append((id, o2)); continue
                changes.append((id, self.merge_obj(s1, c, o1, o2)))
            n = State(); n.mem = dict(mem); n.tok = object(); n.log = s1.log; n.user = s1.user
            for id, o in changes: n.mem[id] = o
            disj = tm.or_(1, c1, c2)
            n.pc = p1[:k] + ((disj,) if isT(disj) else ())
            return n, regs
        except CannotMerge:
            return None
    def merge_obj(self, st, c, o1, o2):
        if o1.dead != o2.dead or o1.size != o2.size: raise CannotMerge()
        o = o1.clone(None)
        a, b = o1.cells, o2.cells
        for off in set(a) | set(b):
            x = a.get(off); y = b.get(off)
            if x is y: continue
            if x is None or y is None or x[0] != y[0]:
                # normalise both to bytes over the union span
                return self.merge_obj_bytes(c, o1, o2)
            if self.same(x[1], y[1]): continue
            o.cells[off] = (x[0], self.mergev_mem(x[0] * 8, c, x[1], y[1]))
        return o
    def merge_obj_bytes(self, c, o1, o2):
        o = o1.clone(None); o.cells = {}
        offs = set()
        for cells in (o1.cells, o2.cells):
            for off, (n, v) in cells.items():
                offs.add(off); offs.add(off + n)
        offs = sorted(offs)
        t1 = State(); t1.mem = {o1.id: o1.clone(None)}; t1.tok = None; t1.pc = (); t1.log = (); t1.user = None
        t2 = State(); t2.mem = {o2.id: o2.clone(None)}; t2.tok = None; t2.pc = (); t2.log = (); t2.user = None
        for i in range(len(offs) - 1):
            off, n = offs[i], offs[i + 1] - offs[i]
            def covered(cells):
                for o3 in range(off, off - 64, -1):
                    cc = cells.get(o3)
                    if cc is not None: return o3 + cc[0] > off
                return False
            k1, k2 = covered(o1.cells), covered(o2.cells)
            if not k1 and not k2: continue
            if (not k1 and o1.fill is None) or (not k2 and o2.fill is None):
                # uninitialised on one side: keep the other side's value (its use implies the other path)
                src, tt = (o1, t1) if k1 else (o2, t2)
                o.cells[off] = (n, self.rd(tt, src.id, off, n)); continue
            x = self.rd(t1, o1.id, off, n); y = self.rd(t2, o2.id, off, n)
            o.cells[off] = (n, x if self.same(x, y) else self.mergev_mem(8 * n, c, x, y))
        return o
    def mergev_mem(self, w, c, a, b):
        try: return self.ite_val(w, c, a, b)
        except Unsupported: raise CannotMerge()
    def mergev(self, c, a, b, ty):
        if a is None or b is None: return None
        if a is b or self.same(a, b): return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, tuple):
            if not isinstance(b, tuple) or len(a) != len(b): raise CannotMerge()
            return tuple(self.mergev(c, x, y, self.mod.elem(ty, i) if ty is not None else None) for i, (x, y) in enumerate(zip(a, b)))
        if isinstance(a, float) or isinstance(b, float): raise CannotMerge()
        w = ty.w if ty is not None else None
        if w is None:
            w = a.w if isT(a) else b.w if isT(b) else 64
        try: return self.ite_val(w, c, a, b)
        except Unsupported: raise CannotMerge()

    def feasible(self, st, c):
        if not self.check_feas: return True
        r = self.solver.sat(list(st.pc) + [c])
        return r != "unsat"

    def edge(self, f, regs, prev, blk):
        ph = f.phis[blk]
        if not ph: return
        vals = []
        for d, inc in ph:
            o = inc[prev]
            v = o[1] if o[0] else regs[o[1]]
            vals.append((d, v))
        for d, v in vals: regs[d] = v

    def _run(self, f, st, regs, blk, idx, stop, rets, allocs):
        """run from block blk, instruction idx (phis of blk already evaluated) until stop;
        returns arrivals [(st, regs)] at stop (with stop's phis evaluated)"""
        blocks = f.blocks; mask = tm.mask
        while True:
            if self.cut is not None and idx == 0 and (self.cut.at(f, st, regs, blk) if self.cut.basic else self.cut.at(f, st, regs, blk, rets, allocs)): return []
            code = blocks[blk]
            n = len(code); i = idx; idx = 0
            if i == 0 and self.deadline and time.time() > self.deadline: raise Budget("time budget")
            nxt = None
            self.steps += n
            while i < n:
                ins = code[i]; i += 1
                op = ins[0]
                if op == "load":
                    o = ins[3]; p = o[1] if o[0] else regs[o[1]]
                    v = self.load(st, ins[2], p)
                    if v is None: return []
                    regs[ins[1]] = v
                elif op == "store":
                    o = ins[3]; v = o[1] if o[0] else regs[o[1]]
                    o = ins[4]; p = o[1] if o[0] else regs[o[1]]
                    if not self.store(st, ins[2], p, v): return []
                elif op == "gep":
                    o = ins[2]; p = o[1] if o[0] else regs[o[1]]
                    off = ins[3]; sym = None
                    for r, sc, iw in ins[4]:
                        v = regs[r]
                        if v is UNDEF: v = 0
                        if isT(v):
                            v64 = tm.sext(iw, 64, v)
                            t = tm.mul(64, v64, sc & mask(64))
                            sym = (t, sc) if sym is None else (tm.add(64, sym[0], t), _gcd(sym[1], sc))
                        else: off += tm.sgn(v, iw) * sc
                    if sym is None: regs[ins[1]] = self.padd(p, off) if off else p
                    else: regs[ins[1]] = self.symgep(st, p, off, sym)
                elif op == "bin":
                    a = ins[4]; a = a[1] if a[0] else regs[a[1]]
                    b = ins[5]; b = b[1] if b[0] else regs[b[1]]
                    regs[ins[1]] = self.binop(st, ins[2], ins[3], a, b, ins[6])
                elif op == "call":
                    callee = ins[2]; callee = callee[1] if callee[0] else regs[callee[1]]
                    args = [(o[1] if o[0] else regs[o[1]]) for o in ins[3]]
                    d = ins[1]
                    if isinstance(callee, PtrIte):
                        raise Unsupported("symbolic callee")
                    if not isinstance(callee, FnPtr):
                        self.err(st, "badcall", repr(callee)); return []
                    nm = callee.name
                    if nm.startswith("llvm."):
                        r = self.intrinsic(st, nm, args, ins)
                        if r is DROP: return []
                        if d is not None: regs[d] = r
                        continue
                    rs = self.call(st, nm, args, ins[5])
                    if len(rs) == 0: return []
                    if len(rs) == 1:
                        st, v = rs[0]
                        if d is not None: regs[d] = v
                        continue
                    res = []
                    for s2, v in rs:
                        r2 = list(regs)
                        if d is not None: r2[d] = v
                        res += self._run(f, s2, r2, blk, i, stop, rets, allocs)
                    return self.merge_arrivals(f, res, stop)
                elif op == "asm":
                    if self.asm is None: raise Unsupported("inline assembly")
                    regs[ins[1]] = self.asm(st, ins[2], ins[3], [(o[1] if o[0] else regs[o[1]]) for o in ins[4]])
                elif op == "icmp":
                    a = ins[4]; a = a[1] if a[0] else regs[a[1]]
                    b = ins[5]; b = b[1] if b[0] else regs[b[1]]
                    regs[ins[1]] = self.icmp(st, ins[2], ins[3], a, b)
                elif op == "br":
                    c = ins[2]; c = c[1] if c[0] else regs[c[1]]
                    if c is UNDEF: c = tm.fresh("undef", 1)
                    if not isT(c):
                        nxt = ins[3] if c else ins[4]; break
                    if ins[3] == ins[4]: nxt = ins[3]; break
                    c = self.decide(st, c)
                    if not isT(c):
                        nxt = ins[3] if c else ins[4]; break
                    return self.branch(f, st, regs, blk, [(c, ins[3]), (tm.not_(c), ins[4])], stop, rets, allocs)
                elif op == "jmp":
                    nxt = ins[2]; break
                elif op == "ret":
                    o = ins[2]
                    rets.append((st, None if o is None else (o[1] if o[0] else regs[o[1]])))
                    return []
                elif op == "mov":
                    o = ins[2]; v = o[1] if o[0] else regs[o[1]]
                    if v is UNDEF and ins[3].k == K_INT: v = tm.fresh("undef", ins[3].w)
                    regs[ins[1]] = v
                elif op == "zext":
                    o = ins[4]; v = o[1] if o[0] else regs[o[1]]
                    if v is UNDEF: v = tm.fresh("undef", ins[2])
                    regs[ins[1]] = v if not isT(v) else tm.zext(ins[2], ins[3], v)
                elif op == "sext":
                    o = ins[4]; v = o[1] if o[0] else regs[o[1]]
                    if v is UNDEF: v = tm.fresh("undef", ins[2])
                    regs[ins[1]] = tm.sext(ins[2], ins[3], v)
                elif op == "trunc":
                    o = ins[4]; v = o[1] if o[0] else regs[o[1]]
                    if v is UNDEF: v = tm.fresh("undef", ins[2])
                    if isinstance(v, Ptr): raise Unsupported("trunc ptr")
                    regs[ins[1]] = tm.trunc(ins[2], ins[3], v)
                elif op == "select":
                    c = ins[3]; c = c[1] if c[0] else regs[c[1]]
                    a = ins[4]; a = a[1] if a[0] else regs[a[1]]
                    b = ins[5]; b = b[1] if b[0] else regs[b[1]]
                    if c is UNDEF: c = tm.fresh("undef", 1)
                    if isinstance(c, tuple): raise Unsupported("vector select")
                    if isT(c): c = self.decide(st, c)
                    if not isT(c): regs[ins[1]] = a if c else b
                    else:
                        try: regs[ins[1]] = self.mergev(c, a, b, ins[2])
                        except CannotMerge:
                            s2 = st.fork(); r2 = list(regs)
                            st.pc += (c,); s2.pc += (tm.not_(c),)
                            regs[ins[1]] = a; r2[ins[1]] = b
                            res = []
                            if self.feasible(st, 1): res += self._run(f, st, regs, blk, i, stop, rets, allocs)
                            if self.feasible(s2, 1): res += self._run(f, s2, r2, blk, i, stop, rets, allocs)
                            return self.merge_arrivals(f, res, stop)
                elif op == "alloca":
                    cnt = ins[3]; cnt = cnt[1] if cnt[0] else regs[cnt[1]]
                    p = self.alloc(st, ins[2] * cnt, "stack")
                    allocs.append(p.obj)
                    regs[ins[1]] = p
                elif op == "extractvalue":
                    o = ins[2]; v = o[1] if o[0] else regs[o[1]]
                    for k in ins[3]: v = v[k]
                    regs[ins[1]] = v
                elif op == "insertvalue":
                    o = ins[2]; v = o[1] if o[0] else regs[o[1]]
                    o = ins[3]; x = o[1] if o[0] else regs[o[1]]
                    regs[ins[1]] = _insert(v, ins[4], x)
                elif op == "switch":
                    c = ins[2]; c = c[1] if c[0] else regs[c[1]]
                    if not isT(c):
                        nxt = ins[4]
                        for v, b in ins[5]:
                            if v == c: nxt = b; break
                        break
                    w = ins[3]; alts = {}; dflt = 1
                    for v, b in ins[5]:
                        e = tm.eq(w, c, v)
                        alts[b] = tm.or_(1, alts.get(b, 0), e); dflt = tm.and_(1, dflt, tm.not_(e))
                    alts[ins[4]] = tm.or_(1, alts.get(ins[4], 0), dflt)
                    return self.branch(f, st, regs, blk, [(c2, b) for b, c2 in alts.items()], stop, rets, allocs)
                elif op == "unreachable":
                    self.err(st, "unreachable", f.dem); return []
                elif op == "fbin":
                    a = ins[3]; a = a[1] if a[0] else regs[a[1]]
                    b = ins[4]; b = b[1] if b[0] else regs[b[1]]
                    if not (isinstance(a, float) and isinstance(b, float)): raise Unsupported("symbolic float")
                    regs[ins[1]] = {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[ins[2]]()
                elif op == "fconv":
                    o = ins[5]; v = o[1] if o[0] else regs[o[1]]
                    if isT(v): raise Unsupported("symbolic float")
                    k = ins[2]
                    if k == "uitofp": v = float(v)
                    elif k == "sitofp": v = float(tm.sgn(v, ins[3]))
                    elif k in ("fptoui", "fptosi"): v = int(v) & mask(ins[4])
                    elif k == "fneg": v = -v
                    regs[ins[1]] = v
                elif op == "fcmp":
                    a = ins[3]; a = a[1] if a[0] else regs[a[1]]
                    b = ins[4]; b = b[1] if b[0] else regs[b[1]]
                    k = ins[2] & 7
                    regs[ins[1]] = int(((k & 1) and a == b) or ((k & 2) and a > b) or ((k & 4) and a < b))
                else:
                    raise Unsupported(f"instruction {ins[0]} {ins[2] if len(ins) > 2 else ''} in {f.dem}")
            self.edge(f, regs, blk, nxt)
            blk = nxt
            if blk == stop: return [(st, regs)]
            if self.steps > self.max_steps: raise Budget("steps")

    def decide(self, st, c):
        """hook for domains: simplify a branch condition under the path"""
        return c

    def branch(self, f, st, regs, blk, alts, stop, rets, allocs):
        J = f.ipdom[blk]
        live = []
        for c, b in alts:
            if isT(c):
                if not self.feasible(st, c): continue
            elif not c: continue
            live.append((c, b))
        if len(live) == 1:
            c, b = live[0]
            # the other side is infeasible: c is implied
            self.edge(f, regs, blk, b)
            if b == stop: return [(st, regs)]
            return self._run(f, st, regs, b, 0, stop, rets, allocs)
        arr = []
        for k, (c, b) in enumerate(live):
            s2 = st.fork() if k < len(live) - 1 else st
            r2 = list(regs)
            s2.pc = s2.pc + ((c,) if isT(c) else ())
            self.edge(f, r2, blk, b)
            if self.merge and J is not None and b == J: arr.append((s2, r2))
            elif b == stop: arr.append((s2, r2))
            else:
                arr += self._run(f, s2, r2, b, 0, J if (self.merge and J is not None) else stop, rets, allocs)
        if not self.merge or J is None: return arr
        arr = self.merge_arrivals(f, arr, J)
        if J == stop: return arr
        out = []
        for s2, r2 in arr:
            out += self._run(f, s2, r2, J, 0, stop, rets, allocs)
        if len(arr) > 1: out = self.merge_arrivals(f, out, stop)
        return out

    def merge_arrivals(self, f, arr, blk):
        if not self.merge or len(arr) < 2 or blk is None: return arr
        live = sorted(f.livein[blk] | {d for d, _ in f.phis[blk]})
        out = []
        for s, r in arr:
            done = False
            for i, (s0, r0) in enumerate(out):
                m = self.merge_states(s0, s, live, r0, r, f.rty)
                if m is not None:
                    out[i] = m; done = True; break
            if not done: out.append((s, r))
        return out

    def symgep(self, st, p, off, sym):
        t, sc = sym
        sc = abs(sc)
        if isinstance(p, Ptr):
            return SymPtr(p.obj, tm.add(64, t, (p.off + off) & tm.mask(64)), sc, p.off + off)
        if isinstance(p, SymPtr):
            g = _gcd(p.stride, sc)
            return SymPtr(p.obj, tm.add(64, tm.add(64, p.off, t), off & tm.mask(64)), g, p.res + off)
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.symgep(st, p.a, off, sym), self.symgep(st, p.b, off, sym))
        raise Unsupported(f"gep on {p!r}")

    def binop(self, st, op, w, a, b, ty):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return tuple(self.binop(st, op, ty.elems[0].w, x, y, ty.elems[0]) for x, y in zip(a, b))
        if a is UNDEF: a = tm.fresh("undef", w)
        if b is UNDEF: b = tm.fresh("undef", w)
        if not isinstance(a, int) and not isT(a) or not isinstance(b, int) and not isT(b):
            return self.ptrop(st, op, w, a, b)
        if op in ("udiv", "urem", "sdiv", "srem"):
            z = tm.eq(w, b, 0)
            if isT(z):
                if self.solver.sat(list(st.pc) + [z]) != "unsat":
                    self.err(st, "div0", op, z); st.pc = st.pc + (tm.not_(z),)
            elif z: self.err(st, "div0", op); return 0
        if op in ("shl", "lshr", "ashr"):
            if isT(b):
                if self.shift_check:
                    z = tm.ule(w, w, b)
                    if isT(z) and self.solver.sat(list(st.pc) + [z]) != "unsat":
                        self.err(st, "shift", op, z); st.pc = st.pc + (tm.not_(z),)
            elif b >= w:
                if self.shift_check: self.err(st, "shift", (op, w, b))
                return tm.fresh("poison", w)
        return _OPS[op](w, a, b)
    def ptrop(self, st, op, w, a, b):
        P = (Ptr, SymPtr, PtrIte)
        if op == "sub":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj: return (a.off - b.off) & tm.mask(64)
                return tm.fresh("ptrdiff", 64)
            if isinstance(a, PtrIte): return self.ite_val(64, a.c, self.ptrop2(st, op, w, a.a, b), self.ptrop2(st, op, w, a.b, b))
            if isinstance(b, PtrIte): return self.ite_val(64, b.c, self.ptrop2(st, op, w, a, b.a), self.ptrop2(st, op, w, a, b.b))
            if isinstance(a, P) and isinstance(b, P) and a.obj == b.obj:
                oa = a.off if isinstance(a, SymPtr) else a.off & tm.mask(64); ob = b.off if isinstance(b, SymPtr) else b.off & tm.mask(64)
                return tm.sub(64, oa, ob)
            if isinstance(a, P) and isinstance(b, int): return self.padd(a, -tm.sgn(b, 64))
        if op == "add":
            if isinstance(b, P): a, b = b, a
            if isinstance(a, P) and isinstance(b, int): return self.padd(a, tm.sgn(b, 64))
            if isinstance(a, P) and isT(b): return self.symgep(st, a, 0, (b, 1))
        if op == "and" and isinstance(a, Ptr) and isinstance(b, int) and b < 4096:
            return a.off & b     # objects are assumed page-aligned
        if op in ("or", "xor"):
            return tm.fresh("ptrbits", w)
        raise Unsupported(f"pointer op {op} {a!r} {b!r}")
    def ptrop2(self, st, op, w, a, b):
        if isinstance(a, int) and isinstance(b, int): return _OPS[op](w, a, b)
        return self.ptrop(st, op, w, a, b)
    def icmp(self, st, pred, w, a, b):
        if a is UNDEF: a = tm.fresh("undef", w)
        if b is UNDEF: b = tm.fresh("undef", w)
        if isinstance(a, (int, tm.T)) and isinstance(b, (int, tm.T)):
            return icmp_t(pred, w, a, b)
        if isinstance(a, PtrIte):
            return tm.ite(1, a.c, self.icmp(st, pred, w, a.a, b), self.icmp(st, pred, w, a.b, b))
        if isinstance(b, PtrIte):
            return tm.ite(1, b.c, self.icmp(st, pred, w, a, b.a), self.icmp(st, pred, w, a, b.b))
        if isinstance(a, (Ptr, SymPtr)) and isinstance(b, (Ptr, SymPtr)):
            if a.obj == b.obj:
                oa = a.off if isinstance(a, SymPtr) else a.off & tm.mask(64); ob = b.off if isinstance(b, SymPtr) else b.off & tm.mask(64)
                return icmp_t(pred, 64, oa, ob)
            if pred == "eq": return 0
            if pred == "ne": return 1
            return icmp_t(pred, 64, hash(a.obj) & tm.mask(40), hash(b.obj) & tm.mask(40))
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return int((a == b) == (pred == "eq"))
        # pointer vs integer (null)
        if pred == "eq": return 0
        if pred == "ne": return 1
        if isinstance(b, int) and b == 0:
            return {"ugt": 1, "uge": 1, "ult": 0, "ule": 0}[pred]
        raise Unsupported(f"pointer compare {pred} {a!r} {b!r}")
    def intrinsic(self, st, nm, args, ins):
        if nm.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant", "llvm.donothing", "llvm.prefetch", "llvm.stackrestore")): return None
        if nm.startswith("llvm.stacksave"): return 0
        if nm.startswith(("llvm.memcpy", "llvm.memmove")):
            return None if self.memcpy(st, args[0], args[1], args[2]) else DROP
        if nm.startswith("llvm.memset"):
            return None if self.memset(st, args[0], args[1], args[2]) else DROP
        w = ins[4].w
        if nm.startswith("llvm.expect"): return args[0]
        if nm.startswith("llvm.ctlz"): return clz(w, args[0])
        if nm.startswith("llvm.cttz"): return ctz(w, args[0])
        if nm.startswith("llvm.ctpop"):
            v = args[0]
            if not isT(v): return bin(v).count("1")
            r = 0
            for i in range(w): r = tm.add(w, r, tm.zext(1, w, tm.extract(v, i, i)))
            return r
        if nm.startswith("llvm.bswap"):
            v = args[0]
            if not isT(v): return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
            return tm.concat_list([(8, tm.extract(v, 8 * i + 7, 8 * i)) for i in range(w // 8)])
        if nm.startswith(("llvm.fshl", "llvm.fshr")):
            a, b, c = args
            if isT(c): raise Unsupported("fsh")
            c %= w
            x = tm.concat(w, a, w, b)
            if nm.startswith("llvm.fshl"): return tm.extract(x, 2 * w - 1 - c, w - c) if isT(x) else (x >> (w - c)) & tm.mask(w)
            return tm.extract(x, c + w - 1, c) if isT(x) else (x >> c) & tm.mask(w)
        if nm.startswith("llvm.umin"): return tm.ite(w, tm.ult(w, args[0], args[1]), args[0], args[1])
        if nm.startswith("llvm.umax"): return tm.ite(w, tm.ult(w, args[0], args[1]), args[1], args[0])
        if nm.startswith("llvm.smin"): return tm.ite(w, tm.slt(w, args[0], args[1]), args[0], args[1])
        if nm.startswith("llvm.smax"): return tm.ite(w, tm.slt(w, args[0], args[1]), args[1], args[0])
        if nm.startswith("llvm.uadd.with.overflow"):
            w = ins[4].elems[0].w; s = tm.add(w, args[0], args[1]); return (s, tm.ult(w, s, args[0]))
        if nm.startswith("llvm.usub.with.overflow"):
            w = ins[4].elems[0].w; return (tm.sub(w, args[0], args[1]), tm.ult(w, args[0], args[1]))
        if nm.startswith("llvm.umul.with.overflow"):
            w = ins[4].elems[0].w; p = tm.mul(2 * w, tm.zext(w, 2 * w, args[0]), tm.zext(w, 2 * w, args[1]))
            return (tm.trunc(2 * w, w, p), tm.not_(tm.eq(w, tm.extract(p, 2 * w - 1, w), 0)))
        if nm.startswith("llvm.umul.with") : pass
        if nm.startswith("llvm.trap"): self.err(st, "trap", nm); return DROP
        if nm.startswith("llvm.eh.typeid"): return 0
        if nm.startswith("llvm.is.constant"): return 0
        if nm.startswith("llvm.objectsize"): return tm.mask(w)
        if nm.startswith(("llvm.ceil", "llvm.floor", "llvm.log2", "llvm.log", "llvm.sqrt")):
            import math
            return float({"ceil": math.ceil, "floor": math.floor, "log2": math.log2, "log": math.log, "sqrt": math.sqrt}[nm.split(".")[1]](args[0]))
        raise Unsupported(nm)

class CannotMerge(Exception): pass
DROP = object()

def icmp_t(pred, w, a, b):
    if pred == "eq": return tm.eq(w, a, b)
    if pred == "ne": return tm.not_(tm.eq(w, a, b))
    if pred == "ult": return tm.ult(w, a, b)
    if pred == "ule": return tm.ule(w, a, b)
    if pred == "ugt": return tm.ult(w, b, a)
    if pred == "uge": return tm.ule(w, b, a)
    if pred == "slt": return tm.slt(w, a, b)
    if pred == "sle": return tm.sle(w, a, b)
    if pred == "sgt": return tm.slt(w, b, a)
    if pred == "sge": return tm.sle(w, b, a)

def clz(w, v):
    if not isT(v): return w - v.bit_length()
    r = w
    for i in range(w):
        r = tm.ite(w, tm.extract(v, i, i), w - 1 - i, r)
    return r
def ctz(w, v):
    if not isT(v): return (v & -v).bit_length() - 1 if v else w
    r = w
    for i in range(w - 1, -1, -1):
        r = tm.ite(w, tm.extract(v, i, i), i, r)
    return r

_OPS = {"add": tm.add, "sub": tm.sub, "mul": tm.mul, "udiv": tm.udiv, "urem": tm.urem, "sdiv": tm.sdiv, "srem": tm.srem,
        "shl": tm.shl, "lshr": tm.lshr, "ashr": tm.ashr, "and": tm.and_, "or": tm.or_, "xor": tm.xor}
def _gcd(a, b):
    import math
    return math.gcd(a, b) or 1
def _insert(v, path, x):
    if v is UNDEF: v = ()
    v = list(v)
    while len(v) <= path[0]: v.append(UNDEF)
    v[path[0]] = x if len(path) == 1 else _insert(v[path[0]], path[1:], x)
    return tuple(v)

# ---------------------------------------------------------------- externals
def _new(ex, st, args):
    n = args[0]
    if isT(n): raise Unsupported("symbolic allocation size")
    if n > 1 << 26: ex.err(st, "hugealloc", n); return DROP
    return ex.alloc(st, n, "heap")
def _newarr(ex, st, args): return _new(ex, st, args)
def _del(ex, st, args):
    p = args[0]
    if isinstance(p, int) and p == 0: return None
    if isinstance(p, PtrIte):
        for c, q in ((p.c, p.a), (tm.not_(p.c), p.b)):
            if isinstance(q, Ptr): pass
        raise Unsupported("free of symbolic pointer")
    if not isinstance(p, Ptr): ex.err(st, "badfree", repr(p)); return DROP
    o = ex.getobj(st, p.obj)
    if o.dead: ex.err(st, "doublefree", p.obj); return DROP
    if p.off != 0 or o.kind != "heap": ex.err(st, "badfree", p.obj); return DROP
    o = ex.own(st, o); o.dead = True; o.cells = {}
    return None
def _calloc(ex, st, args):
    p = ex.alloc(st, args[0] * args[1], "heap", fill=0); return p
def _throw(kind):
    def h(ex, st, args):
        ex.err(st, "throw", kind); return DROP
    return h
def _cxa_throw(ex, st, args):
    ex.err(st, "throw", repr(args[1])); return DROP
def _memcmp(ex, st, args):
    a, b, n = args
    if isT(n): raise Unsupported("symbolic memcmp length")
    r = 0; 
    for i in range(n - 1, -1, -1):
        x = ex.load_raw(st, ex.padd(a, i), 1); y = ex.load_raw(st, ex.padd(b, i), 1)
        if x is None or y is None: return DROP
        r = tm.ite(32, tm.ult(8, x, y), tm.mask(32), tm.ite(32, tm.ult(8, y, x), 1, r))
    return r
def _strncmp(ex, st, args):
    a, b, n = args
    if isT(n): raise Unsupported("symbolic strncmp length")
    xs = []
    for i in range(n):
        x = ex.load_raw(st, ex.padd(a, i), 1); y = ex.load_raw(st, ex.padd(b, i), 1)
        if x is None or y is None: return DROP
        xs.append((x, y))
        if (not isT(x) and x == 0) or (not isT(y) and y == 0): break
    r = 0
    for x, y in reversed(xs):
        # equal so far: stop at NUL
        r = tm.ite(32, tm.ult(8, x, y), tm.mask(32), tm.ite(32, tm.ult(8, y, x), 1, tm.ite(32, tm.eq(8, x, 0), 0, r)))
    return r
def _memcpy(ex, st, args):
    return args[0] if ex.memcpy(st, args[0], args[1], args[2]) else DROP
def _memset(ex, st, args):
    return args[0] if ex.memset(st, args[0], tm.trunc(32, 8, args[1]), args[2]) else DROP
def _strlen(ex, st, args):
    p = args[0]; n = 0
    while True:
        v = ex.load_raw(st, ex.padd(p, n), 1)
        if v is None: return DROP
        if isT(v): raise Unsupported("symbolic strlen")
        if v == 0: return n
        n += 1
def _guard_acquire(ex, st, args):
    v = ex.load_raw(st, args[0], 1)
    return 1 if v == 0 else 0
def _guard_release(ex, st, args):
    ex.store_raw(st, args[0], 1, 1); return None
def _zero(ex, st, args): return 0
def _nop(ex, st, args): return None
def _abort(ex, st, args): ex.err(st, "abort", "abort"); return DROP
def _mathf(fn):
    def h(ex, st, args):
        if isT(args[0]): raise Unsupported("symbolic float")
        return float(fn(args[0]))
    return h
import math as _m
EXT = {"_Znwm": _new, "_Znam": _new, "malloc": _new, "_ZdlPv": _del, "_ZdlPvm": _del, "_ZdaPv": _del, "_ZdaPvm": _del, "free": _del,
       "_ZnwmSt11align_val_t": _new, "_ZdlPvmSt11align_val_t": _del, "_ZdlPvSt11align_val_t": _del,
       "calloc": _calloc, "memcmp": _memcmp, "bcmp": _memcmp, "memcpy": _memcpy, "memmove": _memcpy, "memset": _memset, "strlen": _strlen, "strncmp": _strncmp,
       "__cxa_guard_acquire": _guard_acquire, "__cxa_guard_release": _guard_release, "__cxa_atexit": _zero, "atexit": _zero,
       "__cxa_allocate_exception": lambda ex, st, a: ex.alloc(st, a[0] + 128, "exc"), "__cxa_throw": _cxa_throw, "__cxa_free_exception": _nop,
       "_ZSt9terminatev": _abort, "abort": _abort, "__assert_fail": _abort, "__cxa_pure_virtual": _abort, "__stack_chk_fail": _abort,
       "_ZSt25__throw_bad_function_callv": _throw("bad_function_call"),
       "log2": _mathf(_m.log2), "ceil": _mathf(_m.ceil), "floor": _mathf(_m.floor), "log": _mathf(_m.log),
       "_ZNSt8ios_base4InitC1Ev": _nop, "_ZNSt8ios_base4InitD1Ev": _nop,
       "_ZNSt16invalid_argumentC1EPKc": _nop, "_ZNSt16invalid_argumentD1Ev": _nop,
       "explicit_bzero": lambda ex, st, a: _memset(ex, st, [a[0], 0, a[1]])}
SIZEARG = {"_Znwm": 0, "_Znam": 0, "malloc": 0, "memcpy": 2, "memmove": 2, "memset": 2, "memcmp": 2, "bcmp": 2}
EXTP = [("_ZSt20__throw_length_error", _throw("length_error")), ("_ZSt24__throw_out_of_range", _throw("out_of_range")),
        ("_ZSt19__throw_logic_error", _throw("logic_error")), ("_ZSt17__throw_bad_alloc", _throw("bad_alloc")),
        ("_ZSt28__throw_bad_array", _throw("bad_array")), ("_ZSt20__throw_out_of_range", _throw("out_of_range")), ("_ZSt", _throw("std throw")),
        ("_ZNSt12out_of_range", _nop), ("_ZNSt12length_error", _nop), ("_ZNSt13runtime_error", _nop), ("_ZNSt11logic_error", _nop)]

def with_big_stack(fn, *a, **k):
    """run fn in a thread with a large stack (deep recursion of the executor)"""
    sys.setrecursionlimit(1_000_000)
    threading.stack_size(1 << 30)
    res = {}
    def go():
        try: res["v"] = fn(*a, **k)
        except BaseException as e:
            import traceback
            res["e"] = e; res["tb"] = traceback.format_exc()
    t = threading.Thread(target=go); t.start(); t.join()
    if "e" in res:
        sys.stderr.write(res["tb"]); raise res["e"]
    return res["v"]
