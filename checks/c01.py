"""C01: base-field arithmetic is exact, canonical and aliasing-safe."""
from engine.check import Ob
from engine.limbs import *
from engine.ringob import *
from engine.bvob import BvCase
from engine import terms as tm
from checks import c05
from checks.c02 import prims
BOUNDS = "all canonical operands (raw < p) for the class methods; limb primitives over their whole documented domain (multiplication: x,y < 4p with xy < 9p^2, or x < 2^384 with y < p; unreduced helpers: no 384-bit overflow); every aliasing of the pointer arguments; comparisons, shifts and predicates over all 2^384 raw values"
OUTSIDE = "non-canonical operands of the reduced operations; gcc code generation (validated by concrete runs); the portable back end is C02"
ASSUMPTIONS = ["x86-64 instruction semantics as encoded in engine/x86.py", "objdump decodes the assembled object faithfully"]
W = 384
def b1(t, w=64): return tm.zext(1, w, t)
def raw():
    fp = lambda n: ("i", 48, n)
    C = []
    def c(nm, *a, **k): C.append((nm, BvCase(*a, **k)))
    c("fp.isValid", "h_fp_isValid", [fp("a")], lambda v: {"ret": b1(tm.ult(W, v["a"], P))}, gen=near)
    c("fp.isOdd", "h_fp_isOdd", [fp("a")], lambda v: {"ret": b1(tm.extract(v["a"], 0, 0))})
    c("fp.isEven", "h_fp_isEven", [fp("a")], lambda v: {"ret": b1(tm.not_(tm.extract(v["a"], 0, 0)))})
    c("fp.isZero", "h_fp_isZero", [fp("a")], lambda v: {"ret": b1(tm.eq(W, v["a"], 0))})
    c("fp.isOne", "h_fp_isOne", [fp("a")], lambda v: {"ret": b1(tm.eq(W, v["a"], R % P))}, gen=near)
    def cmp3(v): return {"ret": tm.ite(64, tm.ult(W, v["a"], v["b"]), tm.mask(64), tm.ite(64, tm.ult(W, v["b"], v["a"]), 1, 0))}
    def close(rng):
        a = rand_raw(rng, M384); b = a
        if rng.random() < .8: b = a ^ (1 << rng.randrange(384))
        if rng.random() < .3: b ^= 1 << rng.randrange(384)
        return {"a": a, "b": b}
    c("fp.cmp", "h_fp_cmp", [fp("a"), fp("b")], cmp3, gen=close)
    c("fp.cmp/same", "h_fp_cmp", [fp("a"), fp("b")], cmp3, alias={1: 0})
    c("fp.equal", "h_fp_equal", [fp("a"), fp("b")], lambda v: {"ret": b1(tm.eq(W, v["a"], v["b"]))}, gen=close)
    c("fp.equal/same", "h_fp_equal", [fp("a"), fp("b")], lambda v: {"ret": 1}, alias={1: 0})
    c("fp.div2", "h_fp_div2", [("io", 48, "a"), ("v", 64, "e")], lambda v: {0: tm.concat(1, v["e"], 383, tm.extract(v["a"], 383, 1)) if not tm.isT(v["e"]) else tm.concat(1, tm.extract(v["e"], 0, 0), 383, tm.extract(v["a"], 383, 1))}, pre=lambda v: [tm.ult(64, v["e"], 2)], gen=lambda r: {"a": rand_raw(r, M384), "e": r.randrange(2)})
    c("fp.mul2", "h_fp_mul2", [("io", 48, "a")], lambda v: {0: tm.concat(383, tm.extract(v["a"], 382, 0), 1, 0), "ret": b1(tm.extract(v["a"], 383, 383))})
    c("fp.copy", "h_fp_copy", [("o", 48), fp("a")], lambda v: {0: v["a"]})
    c("fp.copy/o=a", "h_fp_copy", [("io", 48, "o"), fp("a")], lambda v: {0: v["a"]}, alias={1: 0})
    return C
def near(rng): return {"a": rand_raw(rng, M384) if rng.random() < .5 else rng.choice([P - 1, P, P + 1, R % P, R % P + 1, (R % P) ^ (1 << rng.randrange(384)), P ^ (1 << rng.randrange(384))])}
def mont():
    C = []
    def c(nm, *a, **k): C.append((nm, RingCase(*a, **k)))
    k = lambda x, m: [x[0] * x[0].mkc(m)]
    for nm, m in (("toMont", R % P), ("fromMont", RI % P)):
        c(f"fp.{nm}", f"h_fp_{nm}", [("o", "fp"), ("i", "fp")], spec=lambda v, m=m: {0: k(v[0], m)})
        c(f"fp.{nm}/o=a", f"h_fp_{nm}", [("io", "fp"), ("i", "fp")], spec=lambda v, m=m: {0: k(v[1], m)}, alias={1: 0})
    return C
class LsbCase(RingCase):
    """sign / lexicographic order are functions of the canonical integer value"""
    def check(self, ctx):
        probs = []
        outs = self.run(ctx)
        rg = self.rg; e = self.ins[0][0]
        t = rg.term(rg.norm((e * e.mkc(RI)).p))          # canonical integer of the element
        want = self.want(t)
        for o in outs:
            if o.kind != "ret": probs.append(f"{o.kind} {o.info}"); continue
            d = tm.not_(tm.eq(64, o.ret, tm.zext(1, 64, want)))
            s = z3.SolverFor("QF_BV"); s.set("timeout", 60000)
            for c in list(o.st.pc) + [d, tm.ult(384, t, P)]: s.add(tm.zb(c))
            r = ctx.query(s)
            if r != "unsat": probs.append(f"differs: {r}")
        return probs
    def concrete(self, ctx, vals):
        args = [enc_ce("fp", vals[0])]; r = ctx.nat.call(self.fn, args)
        w = self.wantc(vals[0][0].a)
        return args, r, (f"native {r[0]}" if r[0] != "ret" else None if r[1] == w else f"returned {r[1]}, expected {w} for {vals[0][0].a:#x}")
def lsb(nm, fn, want, wantc):
    c = LsbCase(fn, [("i", "fp")], gen=lambda rng, n: ([[CE(rng.choice([0, 1, 2, P - 1, (P - 1) // 2, (P + 1) // 2, (P - 1) // 2 - 1, (P + 3) // 2, rng.randrange(P), (P - 1) // 2 + (1 << rng.randrange(380))]) % P)]] for _ in range(n)))
    c.want = want; c.wantc = wantc
    return nm, c
def order():
    return [lsb("fp.sign", "h_fp_sign", lambda t: tm.not_(tm.extract(t, 0, 0)), lambda a: 1 - (a & 1)),
            lsb("fp.isLexicographicallyLargest", "h_fp_isLex", lambda t: tm.ult(384, (P - 1) // 2, t), lambda a: int(a > (P - 1) // 2))]
def obligations(ctx):
    ctx.mod(); ctx.nat
    obs = prims([False])
    for nm, rc in raw() + mont() + order() + [x for x in c05.cases("fp")]: obs.append(Ob(nm, rc.go, deadline=120, weight=1))
    return obs
