"""Group-level domain: a G1/G2 object is one opaque value standing for an integer combination of named points of an abelian
group.  Coefficients are integer combinations of boolean conditions (and of named integers), so that the value after a join
of two paths is exact.  The group operations are used through the contracts decided by C08/C09 (and C13/C06 where stated)."""
import z3, math
from . import terms as tm
from .exec import *
from .ref import *
W = {"g1": 1152, "g2": 2304}; SZ = {"g1": 144, "g2": 288}
# ---- coefficients: {(cond, ints): int}; cond None or a 1-bit term, ints a sorted tuple of named integers
def cadd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def cmul(a, b):
    r = {}
    for (c1, i1), x in a.items():
        for (c2, i2), y in b.items():
            c = c1 if c2 is None else c2 if c1 is None else tm.and_(1, c1, c2)
            if not tm.isT(c) and c is not None:
                if not c: continue
                c = None
            m = (c, tuple(sorted(i1 + i2))); v = r.get(m, 0) + x * y
            if v: r[m] = v
            else: r.pop(m, None)
    return r
def cconst(k): return {(None, ()): k} if k else {}
def cint(name): return {(None, (name,)): 1}
def cbits(t):
    """integer value of a bit-vector term as bits"""
    if not tm.isT(t): return cconst(t)
    r = {}
    for i in range(t.w):
        b = tm.extract(t, i, i)
        if not tm.isT(b): r = cadd(r, cconst(b << i))
        else: r[(b, ())] = r.get((b, ()), 0) + (1 << i)
    return r
def fadd(a, b, k=1):
    r = dict(a)
    for g, c in b.items():
        v = cadd(r.get(g, {}), c, k)
        if v: r[g] = v
        else: r.pop(g, None)
    return r
def fscale(a, c): return {g: v for g, v in ((g, cmul(x, c)) for g, x in a.items()) if v}
def fkey(a): return frozenset((g, frozenset(c.items())) for g, c in a.items())
class Lazy:
    """choice between two values by a condition"""
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
def csupport(t, memo={}):
    """set of (variable, bit) a term depends on; whole variables as (variable, None)"""
    r = memo.get(t.id)
    if r is not None: return r
    if t.op == "var": r = frozenset((t.args[0], i) for i in range(t.w))
    elif t.op == "extract" and tm.isT(t.args[0]) and t.args[0].op == "var": r = frozenset((t.args[0].args[0], t.args[1] + i) for i in range(t.w))
    else:
        r = frozenset()
        for c in tm._children(t):
            if tm.isT(c): r |= csupport(c)
    memo[t.id] = r
    return r
def canon(g, v0, pc):
    """a sum of conditions up to renaming of variables and shifting of the bit positions it looks at"""
    if pc: return (v0, tuple((c.id, k) for c, k in g), tuple(c.id for c in pc))
    base = {}
    for c, _ in g:
        for v, i in csupport(c): base[v] = min(base.get(v, i), i)
    names = {}; memo = {}; out = []
    def go(t):
        if not tm.isT(t): return t
        r = memo.get(t.id)
        if r is not None: return r
        if t.op == "extract" and tm.isT(t.args[0]) and t.args[0].op == "var":
            v = t.args[0].args[0]; x = ("x", names.setdefault(v, len(names)), t.args[1] - base[v], t.w)
        elif t.op == "var": x = ("v", t.args[0], t.w)
        elif t.op == "concat": x = ("c", t.w, tuple((k, go(y)) for k, y in t.args[0]))
        else: x = (t.op, t.w) + tuple(go(y) for y in t.args)
        memo[t.id] = ("#", len(out)); out.append(x); return memo[t.id]
    return (v0, tuple((go(c), k) for c, k in g), tuple(out))
class Groups:
    def __init__(self, ex, opaque=True):
        self.ex = ex; ex.grp = self; self.val = {}; self.memo = {}; self.mm = {}; self.atoms = {}; self.ties = []; self.n = 0; self.rel = {}
        ex.merge_val = self.merge
        self.limit = 24; self.affd = set(); self.zs = {}; ex.solver.models = [Samp(k) for k in range(9)]
    def term(self, ty, f, aff=False):
        """aff: the value is known to be stored with z = 1 (or to be the point at infinity)"""
        if isinstance(f, Lazy):
            k = (ty, "L", f.c.id, id(f.a), id(f.b), aff)
        else: k = (ty, fkey(f), aff)
        t = self.memo.get(k)
        if t is None:
            self.n += 1; t = tm.var(f"grp{self.n}.{ty}", W[ty]); self.memo[k] = t
            if aff: self.affd.add(t.id)
            self.val[t.id] = (ty, f); self._keep = getattr(self, "_keep", []); self._keep.append((t, f))
        return t
    def gen(self, ty, name): return self.term(ty, {name: cconst(1)})
    # ---- joins
    def merge(self, ex, w, c, a, b):
        if w < 1152 and w % 64 == 0:
            xa, oa = self.limb(a); xb, ob = self.limb(b)
            if xa is None and xb is None: return None
            if xa is not None and xb is not None:
                if oa != ob or self.val[xa.id][0] != self.val[xb.id][0]: return None
                m = self.ite(c, xa, xb)
            elif xa is not None and not tm.isT(b) and b == 0: m = self.ite(c, xa, self.term(self.val[xa.id][0], {})); oa = oa
            elif xb is not None and not tm.isT(a) and a == 0: m = self.ite(c, self.term(self.val[xb.id][0], {}), xb); oa = ob
            else: return None
            return tm.extract(m, 64 * oa + w - 1, 64 * oa)
        if tm.isT(a) and tm.isT(b) and a.id in self.val and b.id in self.val: return self.ite(c, a, b)
        return None
    def limb(self, v):
        if tm.isT(v) and v.op == "extract" and tm.isT(v.args[0]) and v.args[0].id in self.val and v.args[1] % 64 == 0 and v.w % 64 == 0: return v.args[0], v.args[1] // 64
        return None, None
    def ite(self, c, a, b):
        if a is b: return a
        k = (c.id, a.id, b.id); r = self.mm.get(k)
        if r is None:
            ty, x = self.val[a.id]; _, y = self.val[b.id]
            if isinstance(x, Lazy) or isinstance(y, Lazy): f = Lazy(c, x, y)
            else:
                d = fadd(x, y, -1)
                if sum(len(v) for v in d.values()) > self.limit: f = Lazy(c, x, y)
                else: f = fadd(y, {g: cmul(v, {(c, ()): 1}) for g, v in d.items()}); f = {g: v for g, v in f.items() if v}
            r = self.mm[k] = self.term(ty, f); self._c = getattr(self, "_c", []); self._c.append(c)
        return r
    # ---- memory
    def form(self, ty, v):
        if v is None: raise Unsupported("unreadable point")
        if tm.isT(v):
            r = self.val.get(v.id)
            if r is None:
                v2 = self.rejoin(v); r = self.val.get(v2.id) if tm.isT(v2) else None
                if r is None and not tm.isT(v2): return self.const(ty, v2)
            if r is None: raise Unsupported(f"unknown point value {repr(v)[:100]}")
            return r[1]
        return self.const(ty, v)
    def isaff(self, st, p, ty):
        v = self.ex.read_int(st, p, SZ[ty])
        if v is None: return False
        if tm.isT(v): return v.id in self.affd
        n = 1 if ty == "g1" else 2; z = v >> 768 * n
        return z in (0, R)
    def rejoin(self, v):
        """concatenation of limb-wise choices -> choice of whole values"""
        if v.op != "concat": return v
        parts = tm._parts(v) if hasattr(tm, "_parts") else None
        if parts and all(tm.isT(x) and x.op == "ite" for _, x in parts):
            c = parts[0][1].args[0]
            if all(x.args[0] is c for _, x in parts):
                a = tm.concat_list([(w, x.args[1]) for w, x in parts]); b = tm.concat_list([(w, x.args[2]) for w, x in parts])
                ty = "g1" if v.w == 1152 else "g2"
                fa, fb = self.form(ty, a), self.form(ty, b)
                return self.ite(c, self.term(ty, fa), self.term(ty, fb))
        return v
    def const(self, ty, v):
        n = 1 if ty == "g1" else 2
        co = [v >> 384 * i & (1 << 384) - 1 for i in range(3 * n)]
        co = [c * RI % P for c in co]
        if not any(co[2 * n:]): return {}
        el = [CE(co[i * n], co[i * n + 1] if n == 2 else 0) for i in range(3)]
        z = el[2].inv(); z2 = z * z
        x, y = el[0] * z2, el[1] * z2 * z
        g = G1 if ty == "g1" else G2
        if x == g[0] and y == g[1]: return {"G": cconst(1)}
        if x == g[0] and y == -g[1]: return {"G": cconst(-1)}
        b = CE(4) if ty == "g1" else CE(4, 4)
        if not (y * y - x * x * x - b).iszero(): raise Unsupported("constant not on the curve")
        return {("const", x.a, x.b, y.a, y.b): cconst(1)}
    def rd(self, st, p, ty):
        ex = self.ex
        if isinstance(p, (SymPtr, PtrIte)):
            out = None
            for c, q in ex.cands(st, p, SZ[ty], "load"):
                t = self.term(ty, self.form(ty, ex.read_int(st, q, SZ[ty])))
                out = t if out is None else self.ite(c, t, out) if tm.isT(c) else (t if c else out)
            if out is None: raise Unsupported("no target for point pointer")
            return self.val[out.id][1]
        return self.form(ty, ex.read_int(st, p, SZ[ty]))
    def upd(self, st, p, ty, h):
        """replace the value behind p by h(value); one candidate at a time for a symbolic pointer"""
        ex = self.ex
        if not isinstance(p, (SymPtr, PtrIte)): return self.wr(st, p, ty, h(self.rd(st, p, ty)))
        for c, q in ex.cands(st, p, SZ[ty], "store"):
            old = self.form(ty, ex.read_int(st, q, SZ[ty])); t = self.term(ty, h(old))
            self.wr(st, q, ty, self.val[(self.ite(c, t, self.term(ty, old)) if tm.isT(c) else t if c else self.term(ty, old)).id][1])
    def wr(self, st, p, ty, f, aff=False):
        ex = self.ex; t = self.term(ty, f, aff)
        if isinstance(p, (SymPtr, PtrIte)):
            for c, q in ex.cands(st, p, SZ[ty], "store"):
                old = self.term(ty, self.form(ty, ex.read_int(st, q, SZ[ty])))
                ex.write_int(st, q, SZ[ty], self.ite(c, t, old) if tm.isT(c) else t if c else old)
            return
        if ex.write_int(st, p, SZ[ty], t, cell=48) is False: raise Unsupported("point write out of bounds")
    # ---- arithmetic on (possibly lazy) values
    def lin(self, f, g, k=1):
        if isinstance(f, Lazy): return Lazy(f.c, self.lin(f.a, g, k), self.lin(f.b, g, k))
        if isinstance(g, Lazy): return Lazy(g.c, self.lin(f, g.a, k), self.lin(f, g.b, k))
        return fadd(f, g, k)
    def map(self, f, h):
        if isinstance(f, Lazy): return Lazy(f.c, self.map(f.a, h), self.map(f.b, h))
        return h(f)
    def iszero(self, ty, f):
        """1-bit term: the value is the neutral element"""
        if isinstance(f, Lazy): return tm.ite(1, f.c, self.iszero(ty, f.a), self.iszero(ty, f.b))
        f = self.reduce(ty, f)
        if not f: return 1
        if set(f) == {"G"} and set(f["G"]) == {(None, ())}: return int(f["G"][(None, ())] % Q == 0)
        k = (ty, fkey(f)); n = (ty, fkey(fscale(f, cconst(-1))))
        t = self.atoms.get(k)
        if t is None: t = self.atoms.get(n)
        if t is None:
            self.n += 1; t = tm.var(f"zero{self.n}.{ty}", 1); self.atoms[k] = t; self._keep.append((t, f)) if hasattr(self, "_keep") else None
        return t
    def reduce(self, ty, f): return f
    # ---- deciding equality of values
    def leaves(self, f, pc=()):
        if isinstance(f, Lazy):
            yield from self.leaves(f.a, pc + (f.c,)); yield from self.leaves(f.b, pc + (tm.not_(f.c),))
        else: yield pc, f
    def same(self, st, f, g, norm=None):
        """None when f == g as combinations for all values under the path condition; else a text"""
        ex = self.ex
        for p1, a in self.leaves(f):
            for p2, b in self.leaves(g):
                pc = list(st.pc) + [c for c in p1 + p2 if tm.isT(c)]
                if any(not tm.isT(c) and not c for c in p1 + p2): continue
                d = fadd(a, b, -1)
                if norm: d = norm(d)
                if not d:
                    w = None if norm else self.confirm(a, b)
                    if w: return w
                    continue
                if (p1 or p2) and ex.solver.sat(pc) == "unsat": continue
                for gname, c in d.items():
                    w = self.zero_coef(pc, c)
                    if w: return f"coefficient of {gname}: {w}"
        return None
    def confirm(self, a, b):
        """the coefficients agree as integer combinations of the conditions: z3 (linear integer arithmetic)"""
        bits = {}; tot = []
        def val(c):
            t = []
            for m, k in c.items():
                x = 1
                if m != (None, ()):
                    key = (None if m[0] is None else m[0].id, m[1]); x = bits.get(key)
                    if x is None: x = bits[key] = z3.Int(f"c{len(bits)}")
                t.append(x * k)
            return z3.Sum(t) if t else z3.IntVal(0)
        s = z3.SolverFor("QF_LIA"); s.set("timeout", 60000)
        dif = [val(a.get(n, {})) != val(b.get(n, {})) for n in sorted(set(a) | set(b), key=str)]
        if not dif: return None
        s.add(z3.Or(*dif)); r = self.ex.ctx.query(s)
        return None if r == "unsat" else f"coefficients: {r}"
    def zero_coef(self, pc, c):
        byint = {}
        for (cond, ints), k in c.items(): byint.setdefault(ints, []).append((cond, k))
        for ints, l in byint.items():
            w = self.zero_sum(pc, l)
            if w: return (f"{ints}: " if ints else "") + w
        return None
    def zero_sum(self, pc, l):
        """sum of k * [cond] vanishes: split into parts with disjoint support, each of which is constant"""
        ex = self.ex; const = sum(k for c, k in l if c is None); l = [(c, k) for c, k in l if c is not None]
        if not l: return None if const == 0 else f"constant {const}"
        par = {}
        def find(x):
            while par.setdefault(x, x) != x: x = par[x]
            return x
        sup = []
        for c, k in l:
            s = csupport(c); sup.append(s); s = iter(s); r = find(next(s, ("none", 0)))
            for x in s: par[find(x)] = r
        groups = {}
        for (c, k), s in zip(l, sup): groups.setdefault(find(next(iter(s), ("none", 0))), []).append((c, k))
        for g in groups.values():
            if len(groups) > 1 and not pc: v0 = sum(k * tm.evaluate(c, {x: 0 for x in tm.variables([c])}) for c, k in g)
            elif len(groups) > 1: v0 = sum(k * tm.evaluate(c, {x: 0 for x in tm.variables([c])}) for c, k in g)
            else: v0 = -const
            const += v0
            d = math.gcd(v0, *[k for _, k in g])
            if d > 1: v0 //= d; g = [(c, k // d) for c, k in g]
            key = canon(g, v0, pc); hit = self.zs.get(key)
            if hit: continue
            w = sum(abs(k) for _, k in g).bit_length() + abs(v0).bit_length() + 2
            s = z3.SolverFor("QF_BV"); s.set("timeout", 60000)
            for x in pc: s.add(tm.zb(x))
            e = z3.BitVecVal(-v0 % (1 << w), w)
            for c, k in g: e = e + z3.If(tm.zb(c), z3.BitVecVal(k % (1 << w), w), z3.BitVecVal(0, w))
            s.add(e != 0); r = ex.ctx.query(s)
            if r != "unsat": return f"{r} ({len(g)} conditions)"
            self.zs[key] = True
        return None if const == 0 else f"constant {const}"
# ---- contracts of the group operations
def T(ty): return f"bls12_381::{ty}"
def contracts(ty):
    t = T(ty); G = lambda ex: ex.grp
    def add(ex, st, a, fn): g = ex.grp; g.wr(st, a[0], ty, g.lin(g.rd(st, a[1], ty), g.rd(st, a[2], ty)))
    def addA(ex, st, a, fn): g = ex.grp; y = g.rd(st, a[1], ty); g.upd(st, a[0], ty, lambda x: g.lin(x, y))
    def sub(ex, st, a, fn): g = ex.grp; g.wr(st, a[0], ty, g.lin(g.rd(st, a[1], ty), g.rd(st, a[2], ty), -1))
    def subA(ex, st, a, fn): g = ex.grp; y = g.rd(st, a[1], ty); g.upd(st, a[0], ty, lambda x: g.lin(x, y, -1))
    def dbl(ex, st, a, fn): g = ex.grp; f = g.rd(st, a[1], ty); g.wr(st, a[0], ty, g.map(f, lambda x: fscale(x, cconst(2))))
    def dblA(ex, st, a, fn): g = ex.grp; g.upd(st, a[0], ty, lambda f: g.map(f, lambda x: fscale(x, cconst(2))))
    def neg(ex, st, a, fn): g = ex.grp; f = g.rd(st, a[1], ty); aff = isinstance(a[1], Ptr) and g.isaff(st, a[1], ty); g.wr(st, a[0], ty, g.map(f, lambda x: fscale(x, cconst(-1))), aff)
    def affine(ex, st, a, fn): g = ex.grp; g.wr(st, a[0], ty, g.rd(st, a[1], ty), True)
    def zero(ex, st, a, fn): ex.grp.wr(st, a[0], ty, {}, True)
    def one(ex, st, a, fn): ex.grp.wr(st, a[0], ty, {"G": cconst(1)}, True)
    def copy(ex, st, a, fn): ex.memcpy(st, a[0], a[1], SZ[ty]) if isinstance(a[1], Ptr) and isinstance(a[0], Ptr) else ex.grp.wr(st, a[0], ty, ex.grp.rd(st, a[1], ty))
    def isZ(ex, st, a, fn): return ex.grp.iszero(ty, ex.grp.rd(st, a[0], ty))
    def eq(ex, st, a, fn): g = ex.grp; return g.iszero(ty, g.lin(g.rd(st, a[0], ty), g.rd(st, a[1], ty), -1))
    def onc(ex, st, a, fn): ex.grp.rd(st, a[0], ty); return 1
    c = f"{t} const&"
    return {f"{t}::add({c}) const": add, f"{t}::addAssign({c})": addA, f"{t}::subtract({c}) const": sub, f"{t}::subtractAssign({c})": subA, f"{t}::dbl() const": dbl,
            f"{t}::doubleAssign()": dblA, f"{t}::negate() const": neg, f"{t}::affine() const": affine, f"{t}::zero()": zero, f"{t}::one()": one, f"{t}::{ty}({c})": copy,
            f"{t}::isZero() const": isZ, f"{t}::equal({c}) const": eq, f"{t}::isOnCurve() const": onc}
def scale_contract(ty, N):
    def h(ex, st, a, fn):
        g = ex.grp; f = g.rd(st, a[1], ty); s = ex.read_int(st, a[2], 8 * N)
        if s is None: raise Unsupported("unreadable scalar")
        g.wr(st, a[0], ty, g.map(f, lambda x: fscale(x, ex.scalar(s, N) if hasattr(ex, "scalar") else cbits(s))))
    t = T(ty)
    return f"{t} {t}::scale<{N}ul>(std::array<unsigned long, {N}ul> const&) const", h
def install(ex, tys=("g1", "g2"), skip=(), extra=None):
    Groups(ex)
    tab = {}
    for ty in tys: tab.update(contracts(ty))
    if extra: tab.update(extra)
    for d, h in tab.items():
        if any(s in d for s in skip): continue
        n = ex.mod.bydem.get(d)
        if n: ex.hooks[n] = h
    # constructors share a demangled name with their variants
    for d, n in ex.mod.bydem.items(): pass
    return ex.grp
