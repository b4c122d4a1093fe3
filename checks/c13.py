"""C13: the subgroup test accepts exactly the points whose order divides r."""
from engine.check import Ob
from engine.exec import *
from engine.flow import *
from engine.ringob import *
from engine.ref import *
from engine import terms as tm
from .endo import *
from .c10 import encpt, decpt
from .curve import Curve, aff, conc_same, proj_same
BOUNDS = "every point of E(Fp) and E'(Fp2), in every projective representation, infinity included"
OUTSIDE = "points off the curve (the test is documented for curve points; see C16 for the combination with isOnCurve)"
ASSUMPTIONS = ["group operations and scalar multiplication satisfy their contracts: decided by C08, C09, C10; field operations by C05, C06",
               "curve facts: #E(Fp) = (x-1)^2 r/3, #E'(Fp2) = h2 r with r^2 dividing neither; sigma^2 + sigma + 1 = 0, psi^2 - (x+1) psi + p = 0, Frobenius acts trivially on rational points (each consequence used is recomputed for the generator)"]
class Test:
    def __init__(self, ty): self.ty = ty; self.fn = f"h_{ty}_inCorrectSubgroup"
    def go(self, ctx):
        self.beta = beta_of(ctx) if self.ty == "g1" else None
        try: self.E = Endo(self.ty, self.beta)
        except AssertionError as e: ctx.inconclusive(f"endomorphism: {e}") if not self.search(ctx, 4000, []) else None; return
        Flow(self.fn, self.setup, self.conds, self.search, ring=False, fph=False, nval=5).go(ctx)
    def setup(self, ex):
        E, ty = self.E, self.ty; g = E.install(ex); st = ex.new_state(); p = ex.alloc(st, SZ[ty], "arg"); g.wr(st, p, ty, {"P": cconst(1)}); self.p = p
        self.sub, self.inf = tm.var("inSubgroup", 1), tm.var("infinite", 1); base = g.iszero
        def iszero(t, f):
            if isinstance(f, Lazy): return tm.ite(1, f.c, iszero(t, f.a), iszero(t, f.b))
            c = E.coef(f)
            if E.kills(c): return 1
            if E.subgroup_test(c): return self.sub
            if E.inlattice((1, 0), E.ann + [c]): return self.inf
            return base(t, f)
        g.iszero = iszero
        st.pc = st.pc + (tm.or_all([tm.not_(self.inf), self.sub]),)
        return st, [p]
    def conds(self, o, ex):
        got = tm.not_(tm.eq(64, o.ret, 0)) if tm.isT(o.ret) else int(o.ret != 0)
        yield "accepts exactly the subgroup", tm.not_(tm.xor(1, got, self.sub))
        g = ex.grp; yield "point unchanged", int(fkey(g.rd(o.st, self.p, self.ty)) == fkey({"P": cconst(1)}))
    def search(self, ctx, n, cands):
        l = torsion(ctx, self.ty)
        if n < 100: l = l[:n]
        for p, w in l:
            want = ec_mul(p, Q) is None
            for rep in range(2):
                a = [encpt(self.ty, p, ctx.rng)]; r = ctx.nat.call(self.fn, a)
                if r[0] != "ret" or bool(r[1]) != want: ctx.violation(f"{self.fn}: {w}: returned {r[1] if r[0] == 'ret' else r[0]}, expected {want}", call=(self.fn, a), observed=str(r)[:1500]); return True
        return False
def glv_case(ctx):
    """sigma(x, y) = (beta x, y), in every representation"""
    cv = Curve("g1"); beta = beta_of(ctx) or CE(0x5f19672fdf76ce51ba69c6076a0f77eaddb3a93be6f89688de17d813620a00022e01fffffffefffe)
    def rel(ins, outs, cs):
        p, O = ins[0], outs[0]; b = p[0].mkc(beta.a)
        if cs is None:
            q = aff(p)
            return conc_same(O, None if q is None else (q[0] * beta, q[1]))
        if cs.zero(p[2]): return [O[2]]
        return proj_same(O, [p[0] * b, p[1], p[2]], cs)
    return RingCase("h_g1_glv", [("o", "g1"), ("i", "g1")], rel=rel, mk=cv.mk_gen(1), gen=cv.gen(1))
def psi_case(fn="h_g2_psi", k=1, args=()):
    cv = Curve("g2"); cx, cy = CE(1), CE(1)
    for _ in range(k): cx, cy = cx.conj() * PSIX, cy.conj() * PSIY
    def rel(ins, outs, cs):
        p, O = ins[0], outs[0]; q = [x.conj() if k % 2 else x for x in p]; q = [q[0] * q[0].mkc(cx.a, cx.b), q[1] * q[1].mkc(cy.a, cy.b), q[2]]
        if cs is None: return conc_same(O, aff(q))
        if cs.zero(p[2]): return [O[2]]
        return proj_same(O, q, cs)
    return RingCase(fn, [("o", "g2"), ("i", "g2")] + list(args), rel=rel, mk=cv.mk_gen(1), gen=cv.gen(1))
def frob_cases():
    return [(f"psi through frobeniusMap({k})", psi_case("h_g2_frobeniusMap", k, [("int", k)])) for k in range(3)]
def obligations(ctx):
    ctx.mod(); ctx.nat
    obs = [Ob(f"{ty} subgroup test", Test(ty).go, deadline=300, weight=5) for ty in ("g1", "g2")]
    obs.append(Ob("g1.glvEndomorphism", glv_case(ctx).go, deadline=200)); obs.append(Ob("g2.psi", psi_case().go, deadline=200))
    return obs
