"""Signature-level domain: points as formal combinations (engine/grp), messages hashed to named points, pairing products as
bilinear forms, membership tests as named conditions.  Used by C16, C17 and C18."""
from engine.check import Ob
from engine.exec import *
from engine import terms as tm, grp
from engine.grp import *
from engine.ref import *
import z3
from checks.c10 import encpt, decpt, GEN, proper
CS = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"; POP = b"BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"
FP12 = 576
ONE12 = R
def fork_atom(ex, st, t): return t
def key_of(bs): return tuple(b.id if tm.isT(b) else ("c", b) for b in bs)
class Sig:
    def __init__(self, ctx, merge=False, points=True):
        self.ctx = ctx; self.ex = ex = ctx.exec(merge=merge); ex.sig = self
        self.g = install(ex, ("g1", "g2"), skip=("isOnCurve",)); self.known = {"g1": {"G"}, "g2": {"G"}}
        self.mem = {}; self.gt = {}; self.gtm = {}; self.gta = {}; self.bytes = {}; self.hashes = {}; self.rems = {}; self.keep = []
        for ty in ("g1", "g2"):
            self.hook(f"bls12_381::{ty}::isOnCurve() const", lambda ex, st, a, fn, ty=ty: self.member("curve", ty, self.rdf(st, a[0], ty)))
            self.hook(f"bls12_381::{ty}::inCorrectSubgroup() const", lambda ex, st, a, fn, ty=ty: self.member("sub", ty, self.rdf(st, a[0], ty)))
            n = 48 if ty == "g1" else 96
            for nm, k in (("toCompressedBytesBE", n), ("toAffineBytesLE", 2 * n), ("toAffineBytesBE", 2 * n)):
                for d in list(ex.mod.bydem):
                    if d.startswith(f"bls12_381::{ty}::{nm}("): self.hook(d, self.enc(nm, ty, k, "span" in d))
            self.hook(f"bls12_381::{ty} bls12_381::{ty}::scale<4ul>(std::array<unsigned long, 4ul> const&) const", self.scale(ty))
        for d in ex.mod.bydem:
            if d.startswith("bls12_381::fromMessage("): self.hook(d, self.from_message)
            elif d.startswith("bls12_381::pairing::calculate("): self.hook(d, self.calculate)
        self.hook("bls12_381::fp12::equal(bls12_381::fp12 const&) const", lambda ex, st, a, fn: self.gteq(self.rdgt(st, a[0]), self.rdgt(st, a[1])))
        self.hook("bls12_381::fp12::isOne() const", lambda ex, st, a, fn: self.gteq(self.rdgt(st, a[0]), {}))
        ex.hooks["_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"] = rb_insert
        for s in ("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"): ex.hooks[s] = rb_prev
        for s in ("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"): ex.hooks[s] = rb_next
        ex.hooks["memcmp"] = fork_memcmp
        for n in (4, 6):
            d = f"void bls12_381::bn_divn_safe<{n}ul, 4ul>(std::array<unsigned long, {n}ul>&, std::array<unsigned long, 4ul>&, std::array<unsigned long, {n}ul> const&, std::array<unsigned long, 4ul> const&)"
            self.hook(d, self.divn(n))
        self.hook("std::array<unsigned long, 4ul> bls12_381::scalar::add<4ul, 4ul, 4ul>(std::array<unsigned long, 4ul> const&, std::array<unsigned long, 4ul> const&)", self.add444)
    def hook(self, dem, h):
        n = self.ex.mod.bydem.get(dem)
        if n: self.ex.hooks[n] = h
    # ---- values
    def rdf(self, st, p, ty):
        f = self.g.rd(st, p, ty)
        if isinstance(f, Lazy): raise Unsupported("joined point value")
        return f
    def member(self, kind, ty, f):
        """named condition: the point is on the curve / in the prime-order subgroup (the same for every representation and for -P)"""
        if isinstance(f, Lazy): raise Unsupported("joined point value")
        if all(x in self.known[ty] or isinstance(x, tuple) and x[0] == "H" for x in f): return 1
        k = (kind, ty, fkey(f)); k2 = (kind, ty, fkey(fscale(f, cconst(-1)))); t = self.mem.get(k)
        if t is None: t = self.mem.get(k2)
        if t is None: t = self.mem[k] = tm.var(f"{kind}{len(self.mem)}.{ty}", 1); self.keep.append((t, kind, ty, f))
        return t
    def enc(self, nm, ty, n, span):
        def h(ex, st, a, fn):
            this, out = (a[0], a[1]) if span else (a[1], a[0])
            rest = a[3:] if span and not isinstance(a[2], int) else a[2:]
            f = self.rdf(st, this, ty); k = tuple(x for x in rest)
            if any(tm.isT(x) for x in k): raise Unsupported("symbolic encoding option")
            for i, b in enumerate(self.encoding(nm, ty, f, k, n)): ex.wr(st, out.obj, out.off + i, 1, b)
            return None
        return h
    def encoding(self, nm, ty, f, opts, n):
        k = (nm, ty, fkey(f), tuple(opts)); r = self.bytes.get(k)
        if r is None: r = self.bytes[k] = [tm.var(f"{nm}{len(self.bytes)}.{ty}[{i}]", 8) for i in range(n)]
        return r
    def scale(self, ty):
        def h(ex, st, a, fn):
            f = self.rdf(st, a[1], ty); s = ex.read_int(st, a[2], 32)
            if s is None: raise Unsupported("unreadable scalar")
            self.g.wr(st, a[0], ty, fscale(f, self.coef(s)))
        return h
    def coef(self, s):
        """an integer named by its bit-vector term; sums stay formal"""
        if not tm.isT(s): return cconst(s)
        self.keep.append(s); return cint(("bv", s.id))
    # ---- hashing to the curve
    def hash_gen(self, msg, dst): return ("H", key_of(msg), key_of(dst))
    def from_message(self, ex, st, a, fn):
        if len(a) != 4 or tm.isT(a[2]): raise Unsupported("hash-to-curve arguments")
        msg = [ex.read_int(st, ex.padd(a[1], i), 1) for i in range(a[2])]
        dp = ex.read_ptr(st, a[3]) if hasattr(ex, "read_ptr") else ex.load_raw(st, a[3], 8)
        dl = ex.load_raw(st, ex.padd(a[3], 8), 8)
        if tm.isT(dl) or not isinstance(dp, Ptr): raise Unsupported("tag string")
        dst = [ex.read_int(st, ex.padd(dp, i), 1) for i in range(dl)]
        if any(x is None for x in msg + dst): raise Unsupported("uninitialised message")
        self.keep.append((msg, dst)); self.g.wr(st, a[0], "g2", {self.hash_gen(msg, dst): cconst(1)})
    # ---- pairing products
    def calculate(self, ex, st, a, fn):
        if tm.isT(a[2]): raise Unsupported("symbolic number of pairs")
        f = {}
        for i in range(a[2]):
            q = ex.padd(a[1], 432 * i); p = ex.padd(q, 288); fq = self.rdf(st, q, "g2"); fp_ = self.rdf(st, p, "g1")
            for ptr, ty, form in ((q, "g2", fq), (p, "g1", fp_)):
                if not self.g.isaff(st, ptr, ty): raise Unsupported("pair is not in affine form")
                z = self.g.iszero(ty, form)
                if ex.solver.sat(list(st.pc) + [z]) != "unsat": raise Unsupported("pair with a point at infinity")
            f = fadd(f, bil(fp_, fq))
        self.wrgt(st, a[0], f)
    def wrgt(self, st, p, f):
        k = fkey(f); t = self.gtm.get(k)
        if t is None: t = self.gtm[k] = tm.var(f"gt{len(self.gtm)}", 8 * FP12); self.gt[t.id] = f; self.keep.append(t)
        self.ex.write_int(st, p, FP12, t, cell=48)
    def rdgt(self, st, p):
        v = self.ex.read_int(st, p, FP12)
        if v is None: raise Unsupported("unreadable target-group value")
        if not tm.isT(v):
            if v == ONE12: return {}
            raise Unsupported("target-group constant")
        f = self.gt.get(v.id)
        if f is None: raise Unsupported("unknown target-group value")
        return f
    def gteq(self, a, b):
        d = fadd(a, b, -1)
        if not d: return 1
        k = fkey(d); t = self.gta.get(k)
        if t is None: t = self.gta[k] = tm.var(f"product{len(self.gta)}", 1); self.keep.append((t, d))
        return t
    # ---- arithmetic modulo the group order
    def divn(self, n):
        def h(ex, st, a, fn):
            x = ex.read_int(st, a[2], 8 * n); m = ex.read_int(st, a[3], 32)
            if x is None or tm.isT(m) or m != Q: raise Unsupported("division arguments")
            q, r = self.rem(x, n); ex.write_int(st, a[0], 8 * n, q); ex.write_int(st, a[1], 32, r)
            if tm.isT(r): st.pc = st.pc + (tm.ult(256, r, Q),)
        return h
    def rem(self, x, n):
        if not tm.isT(x): return x // Q, x % Q
        k = (x.id, n); r = self.rems.get(k)
        if r is None:
            i = len(self.rems); r = self.rems[k] = (tm.var(f"quo{i}", 64 * n), tm.var(f"rem{i}", 256)); self.keep.append(x)
        return r
    def add444(self, ex, st, a, fn):
        x, y = ex.read_int(st, a[1], 32), ex.read_int(st, a[2], 32)
        if x is None or y is None: raise Unsupported("uninitialised summand")
        ex.write_int(st, a[0], 32, tm.add(256, x, y))
    # ---- relations that hold on a path
    def relations(self, st):
        byid = {t.id: (k[0], f) for k, t in self.g.atoms.items() for t2, f in self.g._keep if t2 is t}
        rels = [byid[c.id] for c in st.pc if tm.isT(c) and c.id in byid]; n = 0
        while n != len(rels):
            n = len(rels); keys = {(ty, fkey(f)) for ty, f in rels}
            self.zero_ints = {m for ty, f in rels if set(f) == {"G"} and len(f["G"]) == 1 for m in f["G"] if m[0] is None and m[1]}
            for i, (ty, f) in enumerate(list(rels)):
                g = self.strip(self.norm_pt(ty, f, rels[:i] + rels[i + 1:]))
                if g and (ty, fkey(g)) not in keys: rels.append((ty, g)); keys.add((ty, fkey(g)))
        return rels
    def strip(self, f):
        """drop multiples of integers known to vanish modulo the order (points of that order only)"""
        tors = lambda g: g == "G" or isinstance(g, tuple) and g[0] == "H" or isinstance(g, tuple) and len(g) == 2 and all(tors(x) for x in g)
        r = {}
        for g, c in f.items():
            if tors(g): c = {m: k for m, k in c.items() if not any(m == z for z in self.zero_ints)}
            if c: r[g] = c
        return r
    def norm_gt(self, f, rels):
        f = self.strip(f); chg = True
        while chg:
            chg = False
            for ty, r in rels:
                i = 0 if ty == "g1" else 1
                for o in {k[1 - i] for k in f}:
                    sl = {k[i]: c for k, c in f.items() if k[1 - i] == o}
                    for m in (1, -1):
                        if fkey(sl) == fkey(fscale(r, cconst(m))):
                            for k in [k for k in f if k[1 - i] == o]: del f[k]
                            chg = True; sl = {}
                    piv = next((g for g, c in r.items() if set(c) == {(None, ())} and abs(c[(None, ())]) == 1 and g in sl and g != "G"), None) if sl else None
                    if piv is not None:
                        mk = lambda g: (g, o) if i == 0 else (o, g)
                        c = sl[piv]; s = r[piv][(None, ())]
                        f = fadd(f, {mk(g): cmul(c, v) for g, v in r.items()}, -s); chg = True
                    if chg: break
                if chg: break
        return f
    def norm_pt(self, ty, f, rels):
        f = dict(f)
        for t, r in rels:
            if t != ty: continue
            for m in (1, -1):
                if fkey(f) == fkey(fscale(r, cconst(m))): return {}
            piv = next((g for g, c in r.items() if set(c) == {(None, ())} and abs(c[(None, ())]) == 1 and g in f and g != "G"), None)
            if piv is not None: f = fadd(f, {g: cmul(f[piv], v) for g, v in r.items()}, -r[piv][(None, ())])
        return f
    def facts(self, st):
        """what the group laws say about the named conditions on this path"""
        rels = self.relations(st); out = []; seen = {}
        for k, t in self.gta.items():
            d = next(x[1] for x in self.keep if isinstance(x, tuple) and x[0] is t); n = self.norm_gt(d, rels)
            if not n: out.append(t); continue
            a, b = fkey(n), fkey(fscale(n, cconst(-1)))
            for kk in (a, b):
                if kk in seen and seen[kk] is not t: out.append(tm.eq(1, t, seen[kk]))
            seen.setdefault(a, t)
        seen = {}
        for x in list(self.keep):
            if not (isinstance(x, tuple) and len(x) == 4 and x[1] in ("curve", "sub")): continue
            t, kind, ty, f = x; n = self.norm_pt(ty, f, rels)
            if all(y in self.known[ty] or isinstance(y, tuple) and y[0] == "H" for y in n): out.append(t); continue
            for kk in ((kind, ty, fkey(n)), (kind, ty, fkey(fscale(n, cconst(-1))))):
                if kk in seen and seen[kk] is not t: out.append(tm.eq(1, t, seen[kk]))
            seen.setdefault((kind, ty, fkey(n)), t)
        return out
    def decide(self, o, ret, spec):
        """None when ret == spec (1-bit) under the outcome's path condition"""
        ret = ret if not tm.isT(ret) or ret.w == 1 else tm.extract(ret, 0, 0) if not tm.isT(x := tm.extract(ret, ret.w - 1, 1)) and x == 0 else None
        if ret is None: return "return value is not a boolean"
        if not tm.isT(ret) and ret not in (0, 1): return f"returns {ret}"
        n = tm.xor(1, ret, spec) if tm.isT(ret) or tm.isT(spec) else ret ^ spec
        if not tm.isT(n): return "differs" if n and self.ex.solver.sat(list(o.st.pc) + self.facts(o.st)) != "unsat" else None
        r = self.ex.solver.sat(list(o.st.pc) + self.facts(o.st) + [n])
        return None if r == "unsat" else f"solver {r}"
def bil(a, b):
    r = {}
    for g, x in a.items():
        for h, y in b.items():
            c = cmul(x, y)
            if c: r = fadd(r, {(g, h): c})
    return r
def conj(l):
    r = 1
    for x in l: r = tm.and_(1, r, x) if tm.isT(r) or tm.isT(x) else r & x
    return r
def fork_memcmp(ex, st, a, fn):
    if tm.isT(a[2]): raise Unsupported("symbolic comparison length")
    xs = [ex.load_raw(st, ex.padd(a[0], i), 1) for i in range(a[2])]; ys = [ex.load_raw(st, ex.padd(a[1], i), 1) for i in range(a[2])]
    if any(v is None for v in xs + ys): return []
    r = 0
    for x, y in reversed(list(zip(xs, ys))): r = tm.ite(32, tm.ult(8, x, y), tm.mask(32), tm.ite(32, tm.ult(8, y, x), 1, r))
    return ex.concretize(st, r) if tm.isT(r) else r
# ---- libstdc++'s red-black tree, as an ordinary binary search tree (the shape does not matter to its users)
def _ld(ex, st, p, o):
    v = ex.load_raw(st, ex.padd(p, o), 8)
    if tm.isT(v): raise Unsupported("symbolic tree pointer")
    return v
def _sv(ex, st, p, o, v): ex.store_raw(st, ex.padd(p, o), 8, v)
def nul(p): return isinstance(p, int) and p == 0
def eqp(a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off
def rb_insert(ex, st, a, fn):
    left, x, p, h = a
    if tm.isT(left):
        r = []
        for s2, v in ex.concretize(st, tm.extract(left, 0, 0)): rb_insert(ex, s2, [v, x, p, h], fn); r.append((s2, None))
        return r
    _sv(ex, st, x, 0, 0); _sv(ex, st, x, 8, p); _sv(ex, st, x, 16, 0); _sv(ex, st, x, 24, 0)
    if left & 1:
        _sv(ex, st, p, 16, x)
        if eqp(p, h): _sv(ex, st, h, 8, x); _sv(ex, st, h, 24, x)
        elif eqp(p, _ld(ex, st, h, 16)): _sv(ex, st, h, 16, x)
    else:
        _sv(ex, st, p, 24, x)
        if eqp(p, _ld(ex, st, h, 24)): _sv(ex, st, h, 24, x)
def rb_step(d, e):
    def f(ex, st, a, fn):
        x = a[0]; l = _ld(ex, st, x, d)
        if d == 16 and not nul(_ld(ex, st, x, 8)) and eqp(_ld(ex, st, _ld(ex, st, x, 8), 8), x) and header(ex, st, x): return _ld(ex, st, x, 24)
        if not nul(l):
            while not nul(_ld(ex, st, l, e)): l = _ld(ex, st, l, e)
            return l
        y = _ld(ex, st, x, 8)
        while eqp(_ld(ex, st, y, d), x): x = y; y = _ld(ex, st, y, 8)
        if d == 24 and eqp(_ld(ex, st, x, 24), y): return x
        return y
    return f
def header(ex, st, x):
    """the header node is red and its own grandparent; a root (also its own grandparent) is never asked for its predecessor's wrap"""
    r = _ld(ex, st, x, 8); l = _ld(ex, st, x, 16); m = _ld(ex, st, x, 24)
    while not nul(_ld(ex, st, r, 16)): r = _ld(ex, st, r, 16)
    return eqp(r, l) and not eqp(l, x) and x.off != 0
rb_prev = rb_step(16, 24); rb_next = rb_step(24, 16)
# ---- integers behind bit-vector terms
class Ints:
    """exact integer reading of a term; sums modulo a power of two and divisions by the group order become linear constraints"""
    def __init__(self, S): self.S = S; self.s = z3.SolverFor("QF_LIA"); self.s.set("timeout", 60000); self.memo = {}; self.rem = {r[1].id: (x, r[0], n) for (x, n), r in S.rems.items() if tm.isT(r[1])}; self.byid = {x.id: x for x in S.keep if tm.isT(x)}; self.n = 0
    def fresh(self, w): self.n += 1; v = z3.Int(f"i{self.n}"); self.s.add(v >= 0, v < 1 << w); return v
    def of(self, t):
        if not tm.isT(t): return z3.IntVal(t)
        r = self.memo.get(t.id)
        if r is not None: return r
        if t.op == "add":
            a = [self.of(x) for x in t.args]; k = z3.Int(f"c{t.id}"); self.s.add(k >= 0, k < len(a)); v = self.fresh(t.w); self.s.add(v == z3.Sum(a) - k * (1 << t.w))
        elif t.id in self.rem:
            x, q, n = self.rem[t.id]; v = self.fresh(256); k = self.fresh(64 * n); self.s.add(self.of(self.byid[x]) == k * Q + v, v < Q)
        elif t.op == "concat" and all(not tm.isT(x) and x == 0 for _, x in t.args[0][1:] ) : v = self.of(t.args[0][0][1])
        else: v = self.fresh(t.w)
        self.memo[t.id] = v
        return v
    def check(self, goal):
        self.s.push(); self.s.add(z3.Not(goal)); r = self.S.ctx.query(self.s); self.s.pop(); return r
    def zero_mod(self, x):
        """x == 0 modulo the group order"""
        k = self.fresh(600); m = self.fresh(256); sg = z3.Int(f"k{self.n}")
        self.s.push(); self.s.add(x == sg * Q + m, m < Q); r = self.check(m == 0); self.s.pop(); return r
    def coef(self, c):
        """integer value of a coefficient built by Sig.coef"""
        r = z3.IntVal(0)
        for (cond, ints), k in c.items():
            if cond is not None or len(ints) > 1: raise Unsupported("coefficient is not linear")
            r = r + k * (self.of(self.byid[ints[0][1]]) if ints else 1)
        return r
# ---- concrete worlds for replays
class World:
    def __init__(self, ctx):
        self.ctx = ctx; rng = self.rng = ctx.rng; self.h = {}
        self.t = {}
        for ty, two in (("g1", False), ("g2", True)):
            while True:
                t = ec_mul(rand_point(rng, two), Q)
                if t is not None: break
            self.t[ty] = t
    def hash(self, m, dst=CS):
        k = (m, dst)
        if k not in self.h:
            r = self.ctx.nat.call("h_fromMessage", [b"\0" * 288, m, len(m), dst, len(dst)]); self.h[k] = decpt("g2", r[2][0])
        return self.h[k]
    def enc(self, ty, p): return encpt(ty, p, self.rng)
def comp_be(ty, p):
    """compressed encoding of an affine reference point"""
    n = 48 if ty == "g1" else 96
    if p is None: return b"\xc0" + bytes(n - 1)
    from checks.codec import larg_ce
    b = bytearray((p[0].b.to_bytes(48, "big") if ty == "g2" else b"") + p[0].a.to_bytes(48, "big")); b[0] |= 0x80 | (0x20 if larg_ce(p[1]) else 0)
    return bytes(b)
def affine_le(p):
    """toAffineBytesLE(from_mont) of a G1 point"""
    if p is None: return None
    return p[0].a.to_bytes(48, "little") + p[1].a.to_bytes(48, "little")
