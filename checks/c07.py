"""C07: exponentiation computes the true power; cyclotomic square and exponentiation agree with the ordinary ones on the cyclotomic subgroup."""
import math, z3
from engine.check import Ob
from engine.ringob import *
from engine import ringob, grp, terms as tm
from engine.exec import *
from engine.grp import Groups, cconst, cbits, fscale, fadd, fkey
from engine.ref import *
BOUNDS = "exp of Fp, Fp2, Fp6, Fp12 and cyclotomicExp with exponents of 1, 2, 4 and 6 limbs: every element and every bit pattern; cyclotomic square: every element of the cyclotomic subgroup; isGtValid: every element of the cyclotomic subgroup"
OUTSIDE = "other limb counts (the templates are instantiated for 1, 2, 4 and 6 limbs)"
ASSUMPTIONS = ["multiplication and squaring of the fields by their contracts (C01, C05)", "isOne of Fp12 by its contract (C05)"]
WB = {"fp": 384, "fp2": 768, "fp6": 2304, "fp12": 4608}
FS = {k: v // 8 for k, v in WB.items()}
NC = P ** 4 - P ** 2 + 1                     # order of the cyclotomic subgroup
grp.W.update(WB); grp.SZ.update(FS)
class Powers(Groups):
    """values z^k of one element: exponents are integer combinations of bits"""
    def __init__(self, ex, ty):
        super().__init__(ex); self.ty = ty; self.ord = {}
        t = f"bls12_381::{ty}"; c = f"{t} const&"; H = {}
        def rd(st, p): return self.rd(st, p, ty)
        def wr(st, p, f): self.wr(st, p, ty, f)
        def mul(ex, st, a, fn): wr(st, a[0], self.lin(rd(st, a[1]), rd(st, a[2])))
        def mulA(ex, st, a, fn): wr(st, a[0], self.lin(rd(st, a[0]), rd(st, a[1])))
        def dbl(st, p): return self.map(rd(st, p), lambda x: fscale(x, cconst(2)))
        def sqr(ex, st, a, fn): wr(st, a[0], dbl(st, a[1]))
        def sqrA(ex, st, a, fn): wr(st, a[0], dbl(st, a[0]))
        def inv(ex, st, a, fn): wr(st, a[0], self.map(rd(st, a[1]), lambda x: fscale(x, cconst(-1))))
        def isone(ex, st, a, fn): return self.unit(rd(st, a[0]))
        def eq(ex, st, a, fn): return self.unit(self.lin(rd(st, a[0]), rd(st, a[1]), -1))
        H[f"{t}::multiply({c}) const"] = mul; H[f"{t}::multiplyAssign({c})"] = mulA
        H[f"{t}::square() const"] = sqr; H[f"{t}::squareAssign()"] = sqrA
        H[f"{t}::one()"] = lambda ex, st, a, fn: wr(st, a[0], {})
        if ty == "fp":
            H["bls12_381::_multiply(bls12_381::fp*, bls12_381::fp const*, bls12_381::fp const*)"] = mul
            H["bls12_381::_square(bls12_381::fp*, bls12_381::fp const*)"] = sqr
        if ty == "fp12":
            H[f"{t}::cyclotomicSquare() const"] = sqr; H[f"{t}::cyclotomicSquareAssign()"] = sqrA
        def frob(st, q, n):
            n = ex.read_int(st, n, 8)
            if n is None or tm.isT(n): raise Unsupported("symbolic Frobenius power")
            return self.map(rd(st, q), lambda x: fscale(x, cconst(pow(P, n, NC))))
        self.cyc = [(f"{t}::inverse() const", inv), (f"{t}::frobeniusMap(unsigned long const&) const", lambda ex, st, a, fn: wr(st, a[0], frob(st, a[1], a[2]))),
                    (f"{t}::frobeniusMapAssign(unsigned long const&)", lambda ex, st, a, fn: wr(st, a[0], frob(st, a[0], a[1]))), (f"{t}::conjugate() const", inv), (f"{t}::isOne() const", isone), (f"{t}::equal({c}) const", eq)]
        self.H = H
    def install(self, cyc):
        ex = self.ex
        for d, h in list(self.H.items()) + (self.cyc if cyc else []):
            n = ex.mod.bydem.get(d)
            if n: ex.hooks[n] = h
    def unit(self, f):
        """the value is 1: its exponent is a multiple of the order of z, which divides NC"""
        if isinstance(f, grp.Lazy): raise Unsupported("comparison of a symbolic power")
        if not f: return 1
        c = f["z"]
        if set(c) != {(None, ())}: raise Unsupported("comparison of a symbolic power")
        g = math.gcd(c[None, ()], NC)
        return self.order(g)
    def order(self, g):
        """condition z^g = 1 for a divisor g of NC: z^g = z^h = 1 exactly when z^gcd(g,h) = 1"""
        if g in self.ord: return self.ord[g]
        self.n += 1; t = self.ord[g] = tm.var(f"ord{self.n}", 1); s = self.ex.solver
        for h, u in list(self.ord.items()):
            if h == g: continue
            d = math.gcd(g, h); s.s.add(z3.And(tm.zb(t), tm.zb(u)) == tm.zb(self.order(d)) if d not in (g, h) else z3.Implies(tm.zb(t), tm.zb(u)) if d == g else z3.Implies(tm.zb(u), tm.zb(t)))
        s.cache.clear(); s.models = []
        return t
    def merge(self, ex, w, c, a, b):
        if w == WB[self.ty]:
            ta = self.term(self.ty, self.form(self.ty, a)) if not tm.isT(a) and a == R % P else a; tb = self.term(self.ty, self.form(self.ty, b)) if not tm.isT(b) and b == R % P else b
            if tm.isT(ta) and tm.isT(tb) and ta.id in self.val and tb.id in self.val: return self.ite(c, ta, tb)
        if w % 64 == 0:
            xa, oa = self.limb(a); xb, ob = self.limb(b); one = self.term(self.ty, {})
            def k1(v, o): return not tm.isT(v) and v == (R % P >> 64 * o & (1 << w) - 1)
            if xa is not None and xb is not None and oa == ob: return tm.extract(self.ite(c, xa, xb), 64 * oa + w - 1, 64 * oa)
            if xa is not None and k1(b, oa): return tm.extract(self.ite(c, xa, one), 64 * oa + w - 1, 64 * oa)
            if xb is not None and k1(a, ob): return tm.extract(self.ite(c, one, xb), 64 * ob + w - 1, 64 * ob)
        return None
    def rejoin(self, v): return v
    def const(self, ty, v):
        if v == R % P: return {}
        raise Unsupported("constant field element")
ELS = {"fp": ("fp", 1), "fp2": ("fp2", 1), "fp6": ("fp6", 3), "fp12": ("fp12", 6)}
def power(ty, e, n):
    if ty in ("fp", "fp2"): return [e[0] ** n] if n else [CE(1)]
    return (f6pow if ty == "fp6" else f12pow)(e, n)
def cyclotomic(rng, kind=0):
    """concrete elements of the cyclotomic subgroup"""
    one = [CE(1)] + [CE(0)] * 5
    if kind == 1: return one
    if kind == 2: z = [CE(rng.randrange(3), rng.randrange(3)) for _ in range(6)]
    else: z = rand_ce(rng, "fp12", 0)
    if all(c.iszero() for c in z): return one
    t = f12mul(f12conj(z), f12inv(z)); return f12mul(f12frob(t, 2), t)
def rexp(rng, bits):
    k = rng.randrange(8)
    if k == 0: return rng.choice([0, 1, 2, 3, 4])
    if k == 1: return (1 << bits) - 1 - rng.choice([0, 1])
    if k == 2: return 1 << rng.randrange(bits)
    if k == 3: return rng.choice([Q, P, P - 1, (P - 1) // 2]) % (1 << bits)
    if k == 4: return rng.getrandbits(bits) & rng.getrandbits(bits) & rng.getrandbits(bits)
    if k == 5: return rng.getrandbits(rng.randrange(1, bits + 1))
    if k == 6: return (1 << bits) - (1 << rng.randrange(bits))
    return rng.getrandbits(bits)
class Exp:
    """exponents whose bit length is in [lo, hi): top bit fixed, the lower bits symbolic"""
    def __init__(self, ty, cyc, N, lo, hi): self.ty = ty; self.cyc = cyc; self.N = N; self.fn = f"h_{ty}_{'cyclotomicExp' if cyc else 'exp'}{N}"; self.lo = lo; self.hi = hi
    def go(self, ctx):
        ty, N = self.ty, self.N; probs = []
        try:
            for l in range(self.lo, self.hi):
                ex = ctx.exec(merge=True); g = Powers(ex, ty); g.install(self.cyc); st = ex.new_state(); sv = 0
                if l: sv = tm.concat_list(([(64 * N - l, 0)] if l < 64 * N else []) + [(1, 1)] + ([(l - 1, tm.extract(tm.var("s", 64 * N), l - 2, 0))] if l > 1 else []))
                o = ex.alloc(st, FS[ty], "arg"); p = ex.alloc(st, FS[ty], "arg"); g.wr(st, p, ty, {"z": cconst(1)})
                s = ex.alloc(st, 8 * N, "arg"); ex.write_int(st, s, 8 * N, sv)
                outs = ex.run(self.fn, [o, p, s], st); ctx.count_paths(outs)
                want = {"z": cbits(sv)} if l else {}
                if not outs: probs.append("no outcome")
                for r in outs:
                    if r.kind != "ret": probs.append(f"outcome {r.kind} {r.info}"); continue
                    w = g.same(r.st, g.rd(r.st, o, ty), want)
                    if w: probs.append(f"bit length {l}: {w}")
                    if g.same(r.st, g.rd(r.st, p, ty), {"z": cconst(1)}): probs.append("input changed")
                    if not l: continue
                if probs: break
        except (Unsupported, Budget) as e: probs.append(f"{type(e).__name__}: {e}")
        if probs:
            if not self.search(ctx, 300): ctx.inconclusive(f"{self.fn}: {'; '.join(probs)[:600]} and no failing input found")
        else: self.search(ctx, 2); ctx.validated += 2
        ctx.samples.append({"function": self.fn, "exponent bits": 64 * N, "bit lengths": [self.lo, self.hi - 1]})
    def search(self, ctx, n):
        for k in range(n):
            z = cyclotomic(ctx.rng, ctx.rng.randrange(4)) if self.cyc else rand_ce(ctx.rng, self.ty, [0, .3, 1][k % 3])
            e = rexp(ctx.rng, 64 * self.N) if k else 0
            a = [b"\x5a" * FS[self.ty], enc_ce(self.ty, z), e.to_bytes(8 * self.N, "little")]
            r = ctx.nat.call(self.fn, a); x = power(self.ty, z, e)
            if r[0] != "ret" or dec_ce(self.ty, r[2][0])[0] != list(x):
                ctx.violation(f"{self.fn}: {z} to the power {e:#x}: {r[0]}, wrong result", call=(self.fn, a), observed=str(r)[:1500]); return True
        return False
def cyc_case(fn, inplace):
    def rel(ins, outs, case):
        z = ins[0]; sq = f12mul(z, z); got = outs[0]; d = [g - s for g, s in zip(got, sq)]
        if case is None: return d
        rg = case.rg
        l = f12mul(f12frob(z, 4), z); r = f12frob(z, 2); rows = []
        for x, y in zip(l, r):
            p = rg.norm((x - y).p)
            for q in (p, rg.norm(pmul(p, {U1: 1}))):
                q = red(q, rows)
                if q:
                    m = max(q); c = pow(q[m], -1, P); q = {k: v * c % P for k, v in q.items()}
                    rows = [(n, psub(t, pscale(q, t[m])) if m in t else t) for n, t in rows] + [(m, q)]
        return [PE(red(rg.norm(x.p), rows), rg) for x in d]
    def red(q, rows):
        q = dict(q)
        for m, t in rows:
            if m in q: q = psub(q, pscale(t, q[m]))
        return {k: v % P for k, v in q.items() if v % P}
    def gen(rng, n):
        for k in range(n): yield [cyclotomic(rng, k % 4)]
    return RingCase(fn, [("io", "fp12")] if inplace else [("o", "fp12"), ("i", "fp12")], rel=rel, gen=gen)
class Gt:
    fn = "h_fp12_isGtValid"
    def go(self, ctx):
        probs = []
        try:
            ex = ctx.exec(merge=True); g = Powers(ex, "fp12"); g.install(True); st = ex.new_state()
            for d, n in ex.mod.bydem.items():
                for nm in ("exp", "cyclotomicExp"):
                    t = f"bls12_381::fp12 bls12_381::fp12::{nm}<"
                    if d.startswith(t): ex.hooks[n] = self.expo(g, int(d[len(t):].split("ul>")[0]))
            p = ex.alloc(st, 576, "arg"); g.wr(st, p, "fp12", {"z": cconst(1)})
            outs = ex.run(self.fn, [p], st); ctx.count_paths(outs); want = g.order(Q)
            for r in outs:
                if r.kind != "ret": probs.append(f"outcome {r.kind} {r.info}"); continue
                got = tm.not_(tm.eq(64, r.ret, 0)) if tm.isT(r.ret) else int(r.ret != 0)
                d = tm.xor(1, got, want)
                if tm.isT(d) and ex.solver.sat(list(r.st.pc) + [d]) != "unsat" or (not tm.isT(d) and d): probs.append(f"differs from z^q = 1: {repr(got)[:200]}; {g.ord}")
        except (Unsupported, Budget) as e: probs.append(f"{type(e).__name__}: {e}")
        if probs:
            if not self.search(ctx, 60): ctx.inconclusive(f"{self.fn}: {'; '.join(probs)[:600]} and no failing input found")
        else: self.search(ctx, 3); ctx.validated += 3
    def expo(self, g, n):
        def h(ex, st, a, fn):
            e = ex.read_int(st, a[2], 8 * n)
            if e is None: raise Unsupported("unreadable exponent")
            g.wr(st, a[0], "fp12", g.map(g.rd(st, a[1], "fp12"), lambda x: fscale(x, cbits(e))))
        return h
    def search(self, ctx, n):
        small = [d for d in range(2, 20000) if NC % d == 0 and all(d % q for q in range(2, int(d ** .5) + 1))]
        for k in range(n):
            z = cyclotomic(ctx.rng, k % 4); e = ctx.rng.choice([1, 1, NC // Q, NC // Q, Q, NC] + [NC // Q // d for d in small] * 2 + [NC // d for d in small]); z = f12pow(z, e)
            a = [enc_ce("fp12", z)]; r = ctx.nat.call(self.fn, a); x = f12pow(z, Q) == [CE(1)] + [CE(0)] * 5
            if r[0] != "ret" or bool(r[1] & 1) != x:
                ctx.violation(f"{self.fn}: cyclotomic element {z}: {str(r[:2])}, expected {x}", call=(self.fn, a), observed=str(r)[:1500]); return True
        return False
def obligations(ctx):
    ctx.mod(); ctx.nat; obs = []
    for ty, cyc in (("fp", 0), ("fp2", 0), ("fp6", 0), ("fp12", 0), ("fp12", 1)):
        for N in (1, 2, 4, 6):
            n = 64 * N + 1; k = {1: 1, 2: 1, 4: 3, 6: 8}[N]; cuts = sorted({round(n * (i / k) ** .4) for i in range(k + 1)})
            for lo, hi in zip(cuts, cuts[1:]): obs.append(Ob(f"{ty}.{'cyclotomicExp' if cyc else 'exp'}<{N}> bit lengths {lo}..{hi - 1}", Exp(ty, cyc, N, lo, hi).go, deadline=700, weight=N))
    obs.append(Ob("fp12.cyclotomicSquare", cyc_case("h_fp12_cyclotomicSquare", False).go, deadline=300)); obs.append(Ob("fp12.cyclotomicSquareAssign", cyc_case("h_fp12_cyclotomicSquareAssign", True).go, deadline=300))
    obs.append(Ob("fp12.isGtValid", Gt().go, deadline=300))
    return obs
