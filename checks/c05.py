"""C05: tower arithmetic equals the algebraic definition, canonical, aliasing-safe."""
from engine.check import Ob
from engine.ringob import *
BOUNDS = "all canonical field elements (384-bit raw values below p); operand aliasing: distinct, and every in-place/self-aliased form listed"
OUTSIDE = "operands that are not canonical (raw value >= p) are outside the documented domain; native code generation (gcc) is trusted beyond the validated runs"
ASSUMPTIONS = ["limb primitives (_add,_double,_subtract,_negate,_multiply,_square,_ladd,_ldouble,_lsubtract) satisfy their contracts: decided by C01/C02",
               "fp::inverse/isZero/equal satisfy their contracts: decided by C03/C01"]
TY = ["fp2", "fp6", "fp12"]
def vadd(a, b): return [x + y for x, y in zip(a, b)]
def vsub(a, b): return [x - y for x, y in zip(a, b)]
MUL = {"fp": lambda a, b: [a[0] * b[0]], "fp2": lambda a, b: [a[0] * b[0]], "fp6": f6mul, "fp12": f12mul}
def one(ty, like): return [like.mkc(1)] + [like.mkc(0)] * (NEL[ty] - 1)
def cases(ty):
    mul = MUL[ty]; C = []
    def c(nm, *a, **k): C.append((nm, RingCase(*a, **k)))
    for op, f in (("add", vadd), ("subtract", vsub), ("multiply", mul)):
        h = f"h_{ty}_{op}"
        c(f"{ty}.{op}", h, [("o", ty), ("i", ty), ("i", ty)], spec=lambda v, f=f: {0: f(v[0], v[1])})
        c(f"{ty}.{op}/a=b", h, [("o", ty), ("i", ty), ("i", ty)], spec=lambda v, f=f: {0: f(v[0], v[1])}, alias={2: 1})
        c(f"{ty}.{op}/o=a", h, [("io", ty), ("i", ty), ("i", ty)], spec=lambda v, f=f: {0: f(v[1], v[2])}, alias={1: 0})
        c(f"{ty}.{op}Assign", h + "Assign", [("io", ty), ("i", ty)], spec=lambda v, f=f: {0: f(v[0], v[1])})
        c(f"{ty}.{op}Assign/a=b", h + "Assign", [("io", ty), ("i", ty)], spec=lambda v, f=f: {0: f(v[0], v[1])}, alias={1: 0})
    for op, f in (("dbl", lambda a: vadd(a, a)), ("negate", lambda a: [-x for x in a]), ("square", lambda a: mul(a, a)), ("copy", lambda a: list(a))):
        c(f"{ty}.{op}", f"h_{ty}_{op}", [("o", ty), ("i", ty)], spec=lambda v, f=f: {0: f(v[0])})
        c(f"{ty}.{op}/o=a", f"h_{ty}_{op}", [("io", ty), ("i", ty)], spec=lambda v, f=f: {0: f(v[1])}, alias={1: 0})
    c(f"{ty}.doubleAssign", f"h_{ty}_doubleAssign", [("io", ty)], spec=lambda v: {0: vadd(v[0], v[0])})
    c(f"{ty}.squareAssign", f"h_{ty}_squareAssign", [("io", ty)], spec=lambda v: {0: mul(v[0], v[0])})
    c(f"{ty}.isZero", f"h_{ty}_isZero", [("i", ty)], pred=lambda v: v[0])
    c(f"{ty}.isOne", f"h_{ty}_isOne", [("i", ty)], pred=lambda v: vsub(v[0], one(ty, v[0][0])), gen=gen_one(ty))
    c(f"{ty}.equal", f"h_{ty}_equal", [("i", ty), ("i", ty)], pred=lambda v: vsub(v[0], v[1]), gen=gen_eq(ty))
    c(f"{ty}.equal/same", f"h_{ty}_equal", [("i", ty), ("i", ty)], pred=lambda v: vsub(v[0], v[1]), alias={1: 0})
    for nm, k in (("zero", 0), ("one", 1), ("ctor", 0)):
        c(f"{ty}.{nm}", f"h_{ty}_{nm}", [("o", ty)], rel=lambda ins, outs, cs, k=k: vsub(outs[0], [outs[0][0].mkc(k)] + [outs[0][0].mkc(0)] * (NEL[ty] - 1)), gen=lambda r, n: iter([[]]))
    def inv(ins, outs, cs):
        a, o = ins[0], outs[0]
        if cs is None: z = all(x.iszero() for x in a)
        else: z = all(cs.zero(x) for x in a)
        return o if z else vsub(mul(a, o), one(ty, a[0]))
    if ty == "fp2":
        c(f"{ty}.inverse", f"h_{ty}_inverse", [("o", ty), ("i", ty)], rel=inv)
        c(f"{ty}.inverse/o=a", f"h_{ty}_inverse", [("io", ty), ("i", ty)], rel=None, spec=None, alias={1: 0})
        C.pop()
    return C
def gen_one(ty):
    def g(rng, n):
        for k in range(n):
            v = [CE(1)] + [CE(0)] * (NEL[ty] - 1)
            if k % 3 == 1: v[rng.randrange(len(v))] = CE(rng.randrange(2), 0)
            if k % 3 == 2: v[rng.randrange(len(v))] = CE(1, 0 if ty in REAL else 1)
            if k > 60: v = rand_ce(rng, ty)
            yield [v]
    return g
def gen_eq(ty):
    def g(rng, n):
        for k in range(n):
            a = rand_ce(rng, ty); b = list(a)
            if k % 2:
                i = rng.randrange(len(b))
                b[i] = b[i] + (CE(1, 0) if ty in REAL or rng.random() < .5 else CE(0, 1))
            yield [a, b]
    return g
def extra():
    C = []
    def c(nm, *a, **k): C.append((nm, RingCase(*a, **k)))
    one2 = lambda x: x.mkc(1)
    c("fp2.conjugate", "h_fp2_conjugate", [("o", "fp2"), ("i", "fp2")], spec=lambda v: {0: [v[0][0].conj()]})
    c("fp2.mulByNonResidue", "h_fp2_mulByNonResidue", [("o", "fp2"), ("i", "fp2")], spec=lambda v: {0: [xi(v[0][0])]})
    c("fp2.mulByB", "h_fp2_mulByB", [("o", "fp2"), ("i", "fp2")], spec=lambda v: {0: [v[0][0] * v[0][0].mkc(4, 4)]})
    c("fp2.mulByFq", "h_fp2_mulByFq", [("o", "fp2"), ("i", "fp2"), ("i", "fp")], spec=lambda v: {0: [v[0][0] * v[1][0]]})
    for nm in ("fp2.conjugate", "fp2.mulByNonResidue", "fp2.mulByB"):
        f = dict(C)[nm].spec
        c(nm + "/o=a", "h_" + nm.replace(".", "_"), [("io", "fp2"), ("i", "fp2")], spec=lambda v, f=f: {0: f([v[1]])[0]}, alias={1: 0})
    s01 = lambda e0, e1: [e0, e1, e0.mkc(0)]
    c("fp6.mulBy01", "h_fp6_mulBy01", [("o", "fp6"), ("i", "fp6"), ("i", "fp2"), ("i", "fp2")], spec=lambda v: {0: f6mul(v[0], s01(v[1][0], v[2][0]))})
    c("fp6.mulBy01/e0=e1", "h_fp6_mulBy01", [("o", "fp6"), ("i", "fp6"), ("i", "fp2"), ("i", "fp2")], spec=lambda v: {0: f6mul(v[0], s01(v[1][0], v[2][0]))}, alias={3: 2})
    c("fp6.mulBy01Assign", "h_fp6_mulBy01Assign", [("io", "fp6"), ("i", "fp2"), ("i", "fp2")], spec=lambda v: {0: f6mul(v[0], s01(v[1][0], v[2][0]))})
    c("fp6.mulBy1", "h_fp6_mulBy1", [("o", "fp6"), ("i", "fp6"), ("i", "fp2")], spec=lambda v: {0: f6mul(v[0], [v[1][0].mkc(0), v[1][0], v[1][0].mkc(0)])})
    c("fp6.mulByNonResidue", "h_fp6_mulByNonResidue", [("o", "fp6"), ("i", "fp6")], spec=lambda v: {0: f6mulv(v[0])})
    c("fp6.mulByNonResidue/o=a", "h_fp6_mulByNonResidue", [("io", "fp6"), ("i", "fp6")], spec=lambda v: {0: f6mulv(v[1])}, alias={1: 0})
    c("fp6.mulByBaseField", "h_fp6_mulByBaseField", [("o", "fp6"), ("i", "fp6"), ("i", "fp2")], spec=lambda v: {0: [x * v[1][0] for x in v[0]]})
    c("fp12.conjugate", "h_fp12_conjugate", [("o", "fp12"), ("i", "fp12")], spec=lambda v: {0: f12conj(v[0])})
    def m014(v):
        e0, e1, e4 = v[1][0], v[2][0], v[3][0]; z = e0.mkc(0)
        return {0: f12mul(v[0], [e0, e1, z, z, e4, z])}
    c("fp12.mulBy014Assign", "h_fp12_mulBy014Assign", [("io", "fp12"), ("i", "fp2"), ("i", "fp2"), ("i", "fp2")], spec=m014)
    # Fp4 = Fp2[s]/(s^2 - xi):  (e0 + e1 s)^2
    c("fp12.fp4Square", "h_fp12_fp4Square", [("o", "fp2x2"), ("i", "fp2"), ("i", "fp2")],
      spec=lambda v: {0: [v[0][0] * v[0][0] + xi(v[1][0] * v[1][0]), v[0][0] * v[1][0] * 2]})
    return C
# --- inverses of the upper levels: the level below is used through its contract (a*w = 1 or a = w = 0)
def inv_hook(ty, sub):
    """contract for sub::inverse: fresh W, facts  T*W = 1 | (T = 0, W = 0)"""
    def inst(ex):
        n = ex.mod.bydem[f"bls12_381::{sub}::inverse() const"]
        def h(ex, st, args, fn):
            rg = ex.ring
            t, bad = get_obj(ex, rg, st, args[1], sub)
            if bad: ex.err(st, "precond", ("inverse argument not canonical", bad)); return []
            W = sym_obj(rg, sub, "w")
            s2 = st.fork()
            put_obj(ex, rg, st, args[0], sub, W)
            m = MUL[sub](t, W); m[0] = m[0] - m[0].mkc(1)
            st.user = (tuple(x.p for x in m), "inv")
            put_obj(ex, rg, s2, args[0], sub, [W[0].mkc(0)] * NEL[sub])
            s2.user = (tuple(x.p for x in t), "zero")
            return [(st, None), (s2, None)]
        ex.hooks[n] = h
    return inst
def inverse_ob(ty, sub):
    def go(ctx):
        rc = RingCase(f"h_{ty}_inverse", [("o", ty), ("i", ty)], hooks=inv_hook(ty, sub), gen=default_gen([("i", ty)]),
                      rel=lambda ins, outs, cs: (outs[0] if all(x.iszero() for x in ins[0]) else vsub(MUL[ty](ins[0], outs[0]), one(ty, ins[0][0]))))
        probs = []
        try:
            outs = rc.run(ctx); ex, rg = rc.ex, rc.rg
            seen = set()
            for o in outs:
                if o.kind != "ret": probs.append(f"{o.kind} {o.info}"); continue
                if o.st.user is None:          # early exit: only for zero, and with zero
                    res, bad = rc.outputs(o)[0]; facts = rg.facts(o.st)
                    if bad or any(not rg.is_zero_under(x.p, facts) for x in list(rc.ins[0]) + list(res)): probs.append("no inversion on path")
                    continue
                facts, kind = o.st.user; seen.add(kind)
                res, bad = rc.outputs(o)[0]
                if bad: probs.append("not canonical")
                a = rc.ins[0]
                if kind == "inv":
                    d = vsub(MUL[ty](a, res), one(ty, a[0]))
                    # a*out - 1 must be a combination of the facts T*W - 1: here it is T*W - 1 embedded in the upper level
                    k = NEL[ty] // (NEL[sub] if NEL[ty] != NEL[sub] else 1)
                    for j, x in enumerate(d):
                        p = rg.norm(x.p)
                        if not in_span(rg, p, facts): probs.append(f"out[{j}] residue {len(p)} terms")
                else:
                    # T = 0: output must vanish; that T = 0 implies a = 0 is the norm being anisotropic (checked by the caller's argument)
                    for j, x in enumerate(res):
                        if x.p and not in_span(rg, rg.norm(x.p), facts): probs.append(f"zero case out[{j}] not zero")
            if seen != {"inv", "zero"}: probs.append(f"paths {seen}")
        except (Unsupported, Budget, Inconclusive) as e: probs = [str(e)]
        if probs:
            if not rc.search(ctx): ctx.inconclusive("; ".join(probs)[:600])
        else: rc.validate(ctx, 3)
    return go
def in_span(rg, p, facts):
    """p is an Fp2-linear (constant) combination of the facts: solved by leading-term reduction, verified by z3"""
    p = dict(p)
    if not p: return rg.solver_zero(p)
    fs = [rg.norm(f) for f in facts]
    combo = {}
    r = p
    # coefficients are constants a+bu: use u*f as an extra generator
    gens = []
    for f in fs:
        gens.append(f); gens.append(pmul(f, {U1: 1}))
    rows = []
    for g in gens:
        g = dict(g)
        for lead, row in rows:
            if lead in g: g = psub(g, pscale(row, g[lead]))
        if g:
            lead = max(g); row = pscale(g, pow(g[lead], -1, P)); rows.append((lead, row))
    for lead, row in rows:
        if lead in r: r = psub(r, pscale(row, r[lead]))
    return rg.solver_zero(r)
def obligations(ctx):
    ctx.mod()
    obs = []
    for ty in TY:
        cs = cases(ty)
        for nm, rc in cs:
            heavy = ty == "fp12" and ("multiply" in nm or "square" in nm)
            obs.append(Ob(nm, rc.go, deadline=200, weight=10 if heavy else 3 if ty == "fp12" else 1))
    for nm, rc in extra(): obs.append(Ob(nm, rc.go, deadline=200, weight=8 if "014" in nm else 1))
    obs.append(Ob("fp6.inverse", inverse_ob("fp6", "fp2"), deadline=200, weight=9))
    obs.append(Ob("fp12.inverse", inverse_ob("fp12", "fp6"), deadline=200, weight=9))
    return obs
