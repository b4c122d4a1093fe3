"""C03: inversion, square roots and quadratic residues."""
import random
from engine.check import Ob
from engine.flow import *
from engine.ringob import *
from engine.kaliski import *
from engine import powdom
from checks.c05 import inverse_ob
BOUNDS = "every canonical element of Fp and Fp2 (raw value below p); the inversion loop is followed iteration by iteration to its proven end (at most 762) from an arbitrary state satisfying the invariant"
OUTSIDE = "elements that are not canonical; gcc code generation (validated by running)"
ASSUMPTIONS = ["limb primitives, comparisons, parity and shifts by their contracts (C01, C02)", "exponentiation with a constant exponent computes the power (C07)", "p is prime (x s = p has only the trivial solutions); x^(p^2) = x in Fp2"]
def fp_inputs(n, seed=3):
    rng = random.Random(seed); v = [0, 1, R, RI, P - 1, P - R, 2, 3, (P - 1) // 2, (P + 1) // 2, R * R % P, P - 2, 4, 1 << 380, 1 << 64, (1 << 64) - 1, (1 << 320) + 1, P >> 1, P >> 64, 5 * R % P]
    v += [pow(2, k, P) for k in range(0, 760, 37)] + [pow(2, -k, P) for k in range(0, 760, 41)] + [k * R % P for k in range(2, 20)]
    for k in range(n): v.append(rng.randrange(P) if k % 3 else rng.randrange(1 << rng.randrange(1, 380)))
    return v
def inv_bad(ctx, x):
    """native comparison for raw x"""
    w = 0 if x == 0 else pow(x, -1, P) * R * R % P; a = [b"\x5A" * 48, x.to_bytes(48, "little")]
    r = ctx.nat.call("h_fp_inverse", a)
    if r[0] == "ret" and int.from_bytes(r[2][0], "little") == w: return False
    ctx.violation(f"fp::inverse of raw {x:#x}: {r[0]}, expected raw {w:#x}", call=("h_fp_inverse", a), observed=str(r)[:500]); return True
CUTS = [0, 95, 190, 285, 380, 470, 560, 655, 1 << 30]
def fp_inverse(lo, hi):
    def go(ctx):
        probs = []; seen = set()
        try:
            ex = ctx.exec(ring=True, fph=False); rg = ex.ring
            d = IntDom(ctx, ex); t, a = rg.fpvar("a"); st = ex.new_state()
            st.user = Facts(); x = d.fresh("x"); d.iv[t.id] = iv(x); d.keep.append(t); st.user = Facts(ge=(iv(x), iadd(ic(P - 1), iv(x), -1)), pos=(x,))
            lp = Loop(d, t, lo, hi)
            pi = ex.alloc(st, 48, "arg"); ex.write_int(st, pi, 48, t, cell=48); po = ex.alloc(st, 48, "arg")
            outs = ex.run("h_fp_inverse", [po, pi], st); ctx.count_paths(outs)
            for o in outs:
                if o.kind != "ret": probs.append(f"{o.kind} {str(o.info)[:100]}"); continue
                v = ex.read_int(o.st, po, 48)
                if not tm.isT(v):
                    if v == 0 and d.check(o.st.user, lambda lin: f'(not (= {lin(iv(x))} 0))') == "unsat": seen.add("zero")
                    else: probs.append(f"constant result {v:#x}")
                    continue
                e = rg.elem(o.st, v)
                if e.b != 1: probs.append("result not canonical")
                p = final(d, lp, o, a, e.p); seen.add("inv")
                if p: probs.append(p)
            if not {"zero"} <= seen: probs.append(f"paths {seen}")
            if hi > 1000 and (lp.ended is None or "inv" not in seen): probs.append("the loop was not followed to its end")
            ctx.samples.append({"function": "fp::inverse", "iterations": [lo, hi], "loop_iterations_cut": lp.steps, "exits": {str(k): v for k, v in lp.exits.items()}})
        except (Unsupported, Budget, Inconclusive) as e: probs.append(f"{type(e).__name__}: {e}")
        vs = fp_inputs(800 if probs else 40)
        for x in vs:
            if inv_bad(ctx, x): return
        if probs: ctx.inconclusive(f"fp::inverse not proved ({'; '.join(probs)[:600]}) and no failing input found")
        else: ctx.validated += len(vs)
    return go
HALF = {"fp": (P - 1) // 2, "fp2": (P * P - 1) // 2}
def square(ty, e): return e[0].iszero() or (e[0] ** HALF[ty]) == CE(1)
def elems(rng, n, ty):
    """special and random elements, squares and non-squares"""
    sp = [0, 1, P - 1, 2, P - 2, 3, 4, 9, P - 4, (P - 1) // 2, (P + 1) // 2, R % P, RI]
    vs = [[CE(a, b)] for a in sp for b in (sp if ty == "fp2" else [0])]
    for k in range(n):
        a, b = rng.randrange(P), rng.randrange(P); e = CE(a, 0 if ty == "fp" else b)
        if ty == "fp2" and k % 4 == 1: e = CE(a, 0)
        if ty == "fp2" and k % 4 == 2: e = CE(0, b)
        vs.append([e * e if k % 3 == 0 else e])
    return vs
def bad_root(ctx, ty, fn, e):
    sqrt = fn.endswith("sqrt"); a = ([b"\x5A" * tsz(ty)] if sqrt else []) + [enc_ce(ty, e)]
    r = ctx.nat.call(fn, a); sq = square(ty, e)
    if sqrt: ok = r[0] == "ret" and bool(r[1] & 1) == sq and (not sq or (lambda d: d[1] and d[0][0] * d[0][0] == e[0])(dec_ce(ty, r[2][0])))
    else: ok = r[0] == "ret" and bool(r[1] & 1) == (e[0].iszero() or not sq)
    if not ok: ctx.violation(f"{fn}: element {e}, square {sq}: {str(r[:2])}", call=(fn, a), observed=str(r)[:1500])
    return not ok
def root(ty, sqrt):
    fn = f"h_{ty}_{'sqrt' if sqrt else 'isQNR'}"
    def go(ctx):
        probs = []
        try:
            for zero in (0, 1):
                ex = ctx.exec(ring=True, fph=bool(zero)); rg = ex.ring
                if not zero: d = powdom.PowDom(ctx, ex, ty)
                st = ex.new_state(); st.user = powdom.PU(); pi = ex.alloc(st, tsz(ty), "arg"); po = ex.alloc(st, tsz(ty), "arg")
                z = {} if zero else d.z(); put_obj(ex, rg, st, pi, ty, [PE(z, rg)])
                outs = ex.run(fn, [po, pi] if sqrt else [pi], st); ctx.count_paths(outs); seen = set()
                for o in outs:
                    if o.kind != "ret": probs.append(f"{o.kind} {str(o.info)[:100]}"); continue
                    r = o.ret
                    if tm.isT(r): raise Unsupported("symbolic result")
                    r = r & 1; U = o.st.user; seen.add(r)
                    if sqrt and r:
                        el, bad = get_obj(ex, rg, o.st, po, ty)
                        if bad: probs.append("root not canonical")
                    if zero:
                        if not r: probs.append("zero: reported false")
                        if sqrt and el[0].p: probs.append("zero: wrong root")
                        continue
                    euler = (0, {"z": HALF[ty]})
                    if sqrt and r:
                        fs = d.forms(o.st, el[0].p)
                        for s, f in fs:
                            if f is None or not d.is1(s.user, fmulz(d, f)): probs.append("the root does not square to the input")
                    elif r == (0 if sqrt else 1):
                        if not d.absurd(U, (euler,)): probs.append("reported as a non-residue: not excluded that it is a square")
                    elif not d.is1(U, euler): probs.append("reported as a residue: Euler's criterion not implied")
                if not zero and seen != {0, 1}: probs.append(f"results {seen}")
        except (Unsupported, Budget, Inconclusive) as e: probs.append(f"{type(e).__name__}: {e}")
        vs = elems(ctx.rng, 400 if probs else 10, ty)
        for e in vs:
            if bad_root(ctx, ty, fn, e): return
        if probs: ctx.inconclusive(f"{fn}: not proved ({'; '.join(probs)[:600]}) and no failing input found")
        else: ctx.validated += len(vs)
    return go
def fmulz(d, f): return powdom.fmul(powdom.fpow(f, 2), (0, {"z": 1}), -1)
def fp2_qnr(ctx):
    """z is a square in Fp2 exactly when its norm z^(p+1) = c0^2 + c1^2 is one in Fp"""
    fn = "h_fp2_isQNR"; probs = []
    try:
        ex = ctx.exec(ring=True); rg = ex.ring; calls = []
        def h(ex, st, a, fn):
            e = rg.elem(st, ex.read_int(st, a[0], 48)); q = tm.fresh("qnr", 1); calls.append((q, e)); return q
        ex.hooks[ex.mod.bydem["bls12_381::fp::isQuadraticNonResidue() const"]] = h
        st = ex.new_state(); pi = ex.alloc(st, 96, "arg"); z = rg.fp2var("z"); put_obj(ex, rg, st, pi, "fp2", [PE(z, rg)])
        norm = rg.norm(pmul(z, rg.pconj(z)))
        for o in ex.run(fn, [pi], st):
            ctx.count_paths([o])
            if o.kind != "ret": probs.append(f"{o.kind}"); continue
            facts = rg.facts(o.st); good = [q for q, e in calls if e.b == 1 and rg.is_zero_under(psub(e.p, norm), facts)]
            if not good: probs.append("no residue test of the norm"); continue
            r = o.ret; r = tm.not_(tm.eq(64, r, 0)) if tm.isT(r) else int(r != 0); d = tm.xor(1, r, good[0])
            if not tm.isT(d) and d or tm.isT(d) and ex.solver.sat(list(o.st.pc) + [d]) != "unsat": probs.append("result differs from the residuosity of the norm")
    except (Unsupported, Budget, Inconclusive) as e: probs.append(f"{type(e).__name__}: {e}")
    vs = elems(ctx.rng, 400 if probs else 10, "fp2")
    for e in vs:
        if bad_root(ctx, "fp2", fn, e): return
    if probs: ctx.inconclusive(f"{fn}: not proved ({'; '.join(probs)[:600]}) and no failing input found")
    else: ctx.validated += len(vs)
def obligations(ctx):
    ctx.mod(); ctx.nat; obs = []
    for lo, hi in zip(CUTS, CUTS[1:]): obs.append(Ob(f"fp.inverse/{lo}..", fp_inverse(lo, hi), deadline=400, weight=50))
    obs.append(Ob("fp.sqrt", root("fp", 1), deadline=300)); obs.append(Ob("fp.isQNR", root("fp", 0), deadline=300)); obs.append(Ob("fp2.sqrt", root("fp2", 1), deadline=300))
    obs.append(Ob("fp2.isQNR", fp2_qnr, deadline=300)); obs.append(Ob("fp2.inverse", inverse_ob("fp2", "fp"), deadline=300))
    return obs
