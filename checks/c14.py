"""C14: mapping field elements and messages to the curve follows RFC 9380 and lands in the subgroup."""
from engine.check import Ob
from engine.exec import *
from engine.flow import *
from engine.ringob import *
from engine.ref import *
from engine import terms as tm
from .endo import *
from .rfc9380 import CURVE
from .c10 import encpt, decpt
from .curve import Curve, aff, conc_same, proj_same
from .codec import zero2, parts, fork_on
import hashlib
BOUNDS = "simplified SWU map: every field element (Fp, Fp2), exceptional values included; isogeny: every point of the auxiliary curves, kernel included; cofactor clearing: every curve point; hashing: messages of 0..3 and 64 symbolic bytes, tags of 1, 43, 255, 256, 300 bytes, every expander output"
OUTSIDE = "other message and tag lengths (the expander itself: C19)"
ASSUMPTIONS = ["field operations, inverse, sqrt and residuosity satisfy their contracts: C01, C03, C05; sign: C01; group operations: C08-C10; modPrime: C20; expand_message: C19",
               "the auxiliary curves have odd order (no point with y = 0; recomputed), and the published isogeny table (checks/rfc9380.py; that it is an isogeny onto the curve is recomputed)",
               "curve facts as in C13"]
FT = {"g1": "fp", "g2": "fp2"}
BC = {"g1": B1, "g2": B2}
# ---------------------------------------------------------------- reference
def issq(z, ty): return (sqrt_fp(z.a) is not None) if ty == "g1" else sqrt_ce(z) is not None
def root(z, ty): return CE(sqrt_fp(z.a)) if ty == "g1" else sqrt_ce(z)
def sgn0(z): return (z.a & 1) if z.a else (z.b & 1)
def ref_swu(u, ty):
    A, B, Z, _ = CURVE[ty]
    t = Z * u * u; d = t * t + t
    x = B * (Z * A).inv() if d.iszero() else -B * A.inv() * (CE(1) + d.inv())
    g = x * x * x + A * x + B
    if not issq(g, ty): x = t * x; g = x * x * x + A * x + B
    y = root(g, ty)
    if sgn0(y) != sgn0(u): y = -y
    return x, y
def ev(l, x):
    r = l[-1]
    for c in l[-2::-1]: r = r * x + c
    return r
def ref_iso(p, ty):
    t = CURVE[ty][3]; xd, yd = ev(t["XDEN"], p[0]), ev(t["YDEN"], p[0])
    if xd.iszero() or yd.iszero(): return None
    return (ev(t["XNUM"], p[0]) * xd.inv(), p[1] * ev(t["YNUM"], p[0]) * yd.inv())
HEFF1 = 1 - X
def ref_clear(p, ty):
    if ty == "g1": return ec_mul(p, HEFF1)
    xm = lambda q: ec_neg(ec_mul(q, -X))
    t1 = xm(p); t2 = xm(t1); r = ec_add(t2, ec_neg(ec_add(t1, p)))                   # (x^2 - x - 1) P
    r = ec_add(r, ref_psi(ec_add(t1, ec_neg(p)))); return ec_add(r, ref_psi(ref_psi(ec_add(p, p))))
def ref_map(u, ty): return ref_clear(ref_iso(ref_swu(u, ty), ty), ty)
def polysqrt(l):
    """monic h with h^2 = l (coefficients, constant first; l monic)"""
    n = (len(l) - 1) // 2; h = [CE(0)] * n + [CE(1)]; half = CE(2).inv()
    for k in range(1, n + 1):
        s = l[2 * n - k]
        for i in range(1, k): s = s - h[n - i] * h[n - k + i]
        h[n - k] = s * half
    sq = [CE(0)] * (2 * n + 1)
    for i, a in enumerate(h):
        for j, b in enumerate(h): sq[i + j] = sq[i + j] + a * b
    assert all(a == b for a, b in zip(sq, l)), "not a square"
    return h
H = {ty: polysqrt(CURVE[ty][3]["XDEN"]) for ty in ("g1", "g2")}
def inputs(rng, ty, n):
    """field elements for replays: kernel preimages, exceptional values, small and random ones"""
    A, B, Z, t = CURVE[ty]; out = [CE(0), CE(1), CE(P - 1), CE(2)]
    if ty == "g2": out += [CE(0, 1), CE(0, P - 1), CE(1, 1), CE(0, 5), CE(P - 1, P - 1)]
    w = root(-Z.inv(), ty) if issq(-Z.inv(), ty) else None
    if w is not None: out += [w, -w]
    out += KERNEL[ty]
    while len(out) < n: out.append(CE(rng.randrange(P), rng.randrange(P) if ty == "g2" else 0))
    return out[:n] if n > 30 else [rng.choice(out) for _ in range(n)]
def preimages(x, ty):
    """field elements u whose SWU x-coordinate is x"""
    A, B, Z, t = CURVE[ty]; out = []; half = CE(2).inv()
    k = -x * A * B.inv() - CE(1); cand = []
    if not k.iszero():
        d = CE(1) + k.inv() * CE(4)
        if issq(d, ty): cand += [(root(d, ty) * s - CE(1)) * half for s in (CE(1), CE(-1))]
    w = -x * A * B.inv(); b = CE(1) - w; d = b * b - b * CE(4)
    if issq(d, ty): cand += [(root(d, ty) * s - b) * half for s in (CE(1), CE(-1))]
    for tt in cand:
        v = tt * Z.inv()
        if issq(v, ty):
            u = root(v, ty)
            out += [u, -u]
    return [u for u in out if ref_swu(u, ty)[0] == x]
def kernel(ty):
    """field elements mapped into the kernel of the isogeny"""
    if ty == "g2": xs = [-H[ty][0]]
    else: xs = ROOTS
    return [u for x in xs for u in preimages(x, ty)]
ROOTS = [CE(x) for x in (
    0x140d41735b10ce710727cd9356905701a2b866b803baa468948b7f423ddcc560c9a8f1cd5f8ed4297c37464fb8bfe4a7,
    0x1665a9c648e78314490a94f654d9b1039ab85847223bfaed9aa54f0f07736d122d1ceca1ac0e9123e753fde16e97c3d7,
    0x105249b4cac630ce5aa18e6c1189a18c82019b4e12e491fbac012c259ca3a67f638560b8bb416af02a4724385ed0fc8e,
    0x10ef325dd1e98bdf0d97a4c6b7f968ed7f31f2fbff088acb39d5319cfc261ea18773405f325612742f0c5d90634bcf4,
    0xd7f2d0d03ae035321eed4c1479d13251abf0e9a96479623eb5380b575e319851fb5e5a8b43b9c1a46880f54bf2b2f7c)]
assert all(ev(H["g1"], r).iszero() for r in ROOTS)
KERNEL = {ty: kernel(ty) for ty in ("g1", "g2")}
# ---------------------------------------------------------------- hooks at the level of one field
class Field:
    """contracts of isZero, inverse, sqrt and isQuadraticNonResidue of the coordinate field"""
    def __init__(self, ex, ty):
        self.ex = ex; self.ty = ty; self.rg = ex.ring; t = f"bls12_381::{FT[ty]}::"; b = ex.mod.bydem; f = FT[ty]; self.qr = []; self.n = 0; self.t3 = None; self.u = None
        for d, h in {"isZero() const": self.isz, "inverse() const": self.inv, "isQuadraticNonResidue() const": self.qnr, f"sqrt(bls12_381::{f}&) const": self.sqrt}.items():
            if t + d in b: ex.hooks[b[t + d]] = h
            else: raise Unsupported(f"no function {t + d}")
    def get(self, st, p):
        e, bad = get_obj(self.ex, self.rg, st, p, FT[self.ty])
        if bad: raise Unsupported("operand not canonical")
        return e[0].p
    def put(self, st, p, q): put_obj(self.ex, self.rg, st, p, FT[self.ty], [PE(q, self.rg)])
    def zero(self, p):
        rg = self.rg; p = rg.norm(p)
        if len(p) == 1: return rg.zero_atom(p)
        c = rg.clear(p)
        if not c: return 1
        # factors first: a product vanishes when a factor does
        ats = []
        for f in self.factors():
            while True:
                q = pdivexact(c, f) if len(c) > 1 and f != c else None
                if q is None: break
                c = q; ats.append(self.zero1(f))
        return tm.or_all(ats + [self.zero1(c)])
    def zero1(self, p):
        rg = self.rg
        if set(p) <= {0, U1}: return 0 if p else 1
        if len(p) > 1 and self.ty == "g2":
            g = None
            for m in p:
                d = dict(exps(m)); d.pop(0, None); g = d if g is None else {i: min(g[i], d[i]) for i in g if i in d}
            if g:
                mm = sum(k << (SH * i) for i, k in g.items())
                return tm.or_all([rg.zero_atom(rg.var(i)) for i in g] + [self.zero1({m - mm: c for m, c in p.items()})])
        return zero2(rg, p, self.ty) if len(p) > 1 else rg.zero_atom(p)
    fac = ()
    def factors(self): return self.fac
    def isz(self, ex, st, a, fn): return self.zero(self.get(st, a[0]))
    def inverse(self, p):
        rg = self.rg
        if self.ty == "g1" or set(p) <= {0}: return rg.inverse_of(p)
        if set(p) <= {0, U1}: c = CE(p.get(0, 0), p.get(U1, 0)).inv(); return pconst2(c)
        k = ("fp2", pkey(p)); i = rg.invkey.get(k)
        if i is None:
            v = rg.fp2var(f"inv{len(rg.inv)}"); i = next(exps(next(iter(v))))[0]; rg.inv[i] = p; rg.inv[rg.conj[i]] = rg.pconj(p); rg.invkey[k] = i
        return rg.var(i)
    def inv(self, ex, st, a, fn):
        p = self.rg.norm(self.get(st, a[1])); out = []
        for s, z in fork_on(ex, st, self.zero(p)):
            self.put(s, a[0], {} if z else self.inverse(p)); out.append((s, None))
        return out
    def square(self, st, p):
        """(condition 'p is a square', a root)"""
        rg = self.rg; p = rg.norm(p)
        if set(p) <= {0, U1}:
            c = CE(p.get(0, 0), p.get(U1, 0)); s = issq(c, self.ty)
            return int(s), pconst2(root(c, self.ty)) if s else None
        for b, q, y in self.qr:
            if rg.is_zero_under(psub(p, b), []): return q, y
        q = None
        if self.t3 is not None:
            for b, qb, _ in self.qr:
                if rg.is_zero_under(psub(p, pmul(b, self.t3)), []):
                    # p = b * Z^3 u^6 with Z a non-square and b != 0: exactly one of the two is a square unless u = 0
                    if self.ex.solver.sat(list(st.pc) + [self.zero(self.u)]) == "unsat": q = tm.not_(qb) if tm.isT(qb) else 1 - qb
        if q is None: q = tm.var(f"isSquare{len(self.qr)}", 1)
        if self.ty == "g1": i = rg.newvar(f"root{len(self.qr)}"); y = rg.var(i); rg.sq[i] = p
        else: y = rg.fp2var(f"root{len(self.qr)}"); i = next(exps(next(iter(y))))[0]; rg.sq[i] = p; rg.sq[rg.conj[i]] = rg.pconj(p)
        self.qr.append((p, q, y)); return q, y
    def sqrt(self, ex, st, a, fn):
        q, y = self.square(st, self.get(st, a[0])); out = []
        for s, z in fork_on(ex, st, q):
            if z: self.put(s, a[1], y)
            out.append((s, int(z)))
        return out
    def qnr(self, ex, st, a, fn):
        p = self.rg.norm(self.get(st, a[0]))
        z = self.zero(p)
        if self.odd(p): z = 0
        q, _ = self.square(st, p)
        if self.ty == "g1": return tm.or_all([z, tm.not_(q) if tm.isT(q) else 1 - q])
        return tm.and_all([tm.not_(z) if tm.isT(z) else 1 - z, tm.not_(q) if tm.isT(q) else 1 - q])
    def odd(self, p): return False
def pconst2(c):
    r = {}
    if c.a: r[0] = c.a
    if c.b: r[U1] = c.b
    return r
def no_two_torsion(ty):
    """x^3 + A x + B has no root: gcd with x^q - x is 1"""
    A, B, Z, _ = CURVE[ty]; q = P if ty == "g1" else P * P
    def mulmod(a, b):
        r = [CE(0)] * 5
        for i, s in enumerate(a):
            for j, t in enumerate(b): r[i + j] = r[i + j] + s * t
        for k in (4, 3): r[k - 2] = r[k - 2] - A * r[k]; r[k - 3] = r[k - 3] - B * r[k]
        return r[:3]
    r = [CE(1), CE(0), CE(0)]
    for c in bin(q)[2:]:
        r = mulmod(r, r)
        if c == "1": r = mulmod(r, [CE(0), CE(1), CE(0)])
    f = [B, A, CE(0), CE(1)]; g = [r[0], r[1] - CE(1), r[2]]
    while g and g[-1].iszero(): g.pop()
    while g:
        i = g[-1].inv()
        while len(f) >= len(g):
            k = f[-1] * i; s = len(f) - len(g)
            for j, c in enumerate(g): f[s + j] = f[s + j] - k * c
            while f and f[-1].iszero(): f.pop()
        f, g = g, f
    return len(f) == 1
# ---------------------------------------------------------------- the SWU map
class Swu:
    def __init__(self, ty): self.ty = ty; self.fn = f"h_{ty}_swu"; self.ft = FT[ty]
    def setup(self, ex):
        assert no_two_torsion(self.ty) and not issq(CURVE[self.ty][2], self.ty)
        ty = self.ty; rg = ex.ring; st = ex.new_state(); F = self.F = Field(ex, ty); A, B, Z, _ = CURVE[ty]
        self.u = u = PE(rg.fpvar("u")[1] if ty == "g1" else rg.fp2var("u"), rg); k = lambda c: PE(pconst2(c), rg)
        t = self.t = k(Z) * u * u; F.t3 = (t * t * t).p; F.u = u.p; F.fac = [(t + k(CE(1))).p]
        n = tsz(self.ft); self.e = ex.alloc(st, n, "arg"); self.o = ex.alloc(st, 2 * n, "arg"); put_obj(ex, rg, st, self.e, self.ft, [u])
        # gx = x^3 + A x + B never vanishes: no point of order two
        F.odd = lambda p: any(rg.is_zero_under(psub(p, (x * x * x + k(A) * x + k(B)).p), []) for x in self.xs(rg))
        return st, [self.o, self.e]
    def xs(self, rg):
        if not hasattr(self, "_xs"):
            A, B, Z, _ = CURVE[self.ty]; k = lambda c: PE(pconst2(c), rg); d = self.t * self.t + self.t
            x1 = k(-B * A.inv()) * (k(CE(1)) + PE(self.F.inverse(rg.norm(d.p)), rg)); x0 = k(B * (Z * A).inv())
            self._xs = [x1, self.t * x1, x0, self.t * x0]
        return self._xs
    def conds(self, o, ex):
        rg = ex.ring; ty = self.ty; F = self.F; A, B, Z, _ = CURVE[ty]; k = lambda c: PE(pconst2(c), rg); st = o.st
        u, t = self.u, self.t; exc = F.zero((t * t + t).p)
        yx = ex.solver.sat(list(st.pc) + [exc]) != "unsat"; nx = ex.solver.sat(list(st.pc) + [tm.not_(exc)]) != "unsat" if tm.isT(exc) else not exc
        if yx and nx: yield "the exceptional case is not distinguished", 0; return
        if not yx and not nx: return
        x1, x2, x0, x02 = self.xs(rg); a, b = (x0, x02) if yx else (x1, x2)
        g = a * a * a + k(A) * a + k(B); q, _ = F.square(st, g.p)
        got, bad = get_obj(ex, rg, st, self.o, "fpx2" if ty == "g1" else "fp2x2")
        if bad: yield "result is not canonical", 0; return
        X_, Y_ = got; facts = rg.facts(st)
        for s, z in fork_on(ex, st.fork(), q):
            w = a if z else b; fs = rg.facts(s)
            yield "x-coordinate", int(rg.is_zero_under((X_ - w).p, fs))
            yield "point of the auxiliary curve", int(rg.is_zero_under((Y_ * Y_ - (w * w * w + k(A) * w + k(B))).p, fs))
        # sign: the parities of y and of u agree (y != 0)
        su, sy = self.sgn(rg, u.p, st), self.sgn(rg, Y_.p, st)
        ax = []
        for p in (parts(rg, Y_.p, ty)):
            for f in (p,):
                x, m = rg.term(pscale(f, RI)), rg.term(pscale(pneg(f), RI))
                if tm.isT(x) and tm.isT(m): ax.append(tm.or_all([tm.and_all([tm.eq(384, x, 0), tm.eq(384, m, 0), rg.zero_atom(f)]), tm.and_all([tm.eq(384, tm.add(384, x, m), P), tm.ult(384, x, P), tm.ult(384, m, P), tm.not_(rg.zero_atom(f))])]))
        nz = tm.not_(zero2(rg, Y_.p, ty))
        st.pc = st.pc + tuple(x for x in ax + [nz] if tm.isT(x))
        yield "sign", tm.not_(tm.xor(1, su, sy))
    def sgn(self, rg, p, st):
        ps = parts(rg, p, self.ty); b = []
        for q in ps:
            t = rg.term(pscale(q, RI)); b.append(tm.extract(t, 0, 0) if tm.isT(t) else t & 1)
        return b[0] if len(b) == 1 else tm.ite(1, rg.zero_atom(ps[0]), b[1], b[0])
    def search(self, ctx, n, cands):
        ty = self.ty
        for u in inputs(ctx.rng, ty, min(n, 250)):
            a = [b"\x5a" * 2 * tsz(self.ft), enc_ce(self.ft, [u])]; r = ctx.nat.call(self.fn, a); w = ref_swu(u, ty)
            if r[0] != "ret" or dec_ce("fpx2" if ty == "g1" else "fp2x2", r[2][0]) != (list(w), True):
                ctx.violation(f"{self.fn}: input {u}: {str(r)[:200]}, expected {w}", call=(self.fn, a), observed=str(r)[:1500]); return True
        return False
# ---------------------------------------------------------------- isogeny (and the glue of mapToCurve)
def poly(l, x):
    r = x.mkc(l[-1].a, l[-1].b)
    for c in l[-2::-1]: r = r * x + x.mkc(c.a, c.b)
    return r
def iso_case(ty):
    A, B, Z, tab = CURVE[ty]; ft = FT[ty]
    def hooks(ex):
        rg = ex.ring; b = ex.mod.bydem; S = ex.S14 = {}
        x = PE(rg.fpvar("x")[1], rg) if ty == "g1" else PE(rg.fp2var("h"), rg); y = PE(rg.fpvar("y")[1] if ty == "g1" else rg.fp2var("y"), rg); x = x if ty == "g1" else x - x.mkc(H[ty][0].a, H[ty][0].b); rg.my = (x, y)      # in G2 the variable is the kernel polynomial h = x + c
        (yi, _), = exps(next(iter(y.p))); rhs = x * x * x + x.mkc(A.a, A.b) * x + x.mkc(B.a, B.b); rg.sq[yi] = rhs.p
        if rg.conj[yi] != yi: rg.sq[rg.conj[yi]] = rg.pconj(rhs.p)
        if ty == "g1": rg.factor(poly(H[ty], x).p)
        def swu(ex, st, a, fn): put_obj(ex, rg, st, a[0], ft, [y]); put_obj(ex, rg, st, ex.padd(a[0], tsz(ft)), ft, [x])
        def clear(ex, st, a, fn): ex.memcpy(st, a[0], a[1], SZ[ty]); st.user = "cleared"
        ex.hooks[b[f"bls12_381::{ty}::swuMap{ty.upper()}(bls12_381::{ft} const&)"]] = swu
        ex.hooks[b[f"bls12_381::{ty}::clearCofactor() const"]] = clear
    def rel(ins, outs, cs):
        O = outs[0]
        if cs is None: return conc_same(O, ref_map(ins[0][0], ty))
        x, y = cs.rg.my; h = poly(H[ty], x)
        if cs.zero(h): return [O[2]]
        if cs.o.st.user != "cleared":
            # x = y = 0 does not occur: g M^2 = N^3 + b D^3 identically (table obligation)
            if cs.zero(poly(tab["XNUM"], x)) and cs.zero(poly(tab["YNUM"], x)): return []
            raise Inconclusive("the cofactor is not cleared")
        cs.nonzero(O[2], [h]) if set(O[2].p) - {0, U1} else None
        D, N, E, M = (poly(tab[k], x) for k in ("XDEN", "XNUM", "YDEN", "YNUM")); z2 = O[2] * O[2]
        return [O[0] * D - N * z2, O[1] * E - y * M * z2 * O[2]]
    def gen(rng, n):
        for u in inputs(rng, ty, n): yield [[u]]
    def prep(ex, rg, st, ins):
        a = zero2(rg, rg.my[1].p, ty) if ty == "g2" else rg.zero_atom(rg.my[1].p)
        st.pc = st.pc + (tm.not_(a),)
    return RingCase(f"h_{ty}_mapToCurve", [("o", ty), ("i", ft)], rel=rel, hooks=hooks, gen=gen, prep=prep)
def table_ob(ty):
    """the published table is an isogeny onto the curve: (x, y) -> (N/D, y M/E) satisfies its equation identically"""
    def go(ctx):
        ex = ctx.exec(ring=True); rg = ex.ring; A, B, Z, t = CURVE[ty]
        x = PE(rg.fpvar("x")[1] if ty == "g1" else rg.fp2var("x"), rg); D, N, E, M = (poly(t[k], x) for k in ("XDEN", "XNUM", "YDEN", "YNUM")); h = poly(H[ty], x)
        g = x * x * x + x.mkc(A.a, A.b) * x + x.mkc(B.a, B.b); b = x.mkc(BC[ty].a, BC[ty].b)
        ok = rg.solver_zero(rg.norm((D - h * h).p)) and rg.solver_zero(rg.norm((E - h * h * h).p)) and rg.solver_zero(rg.norm((g * M * M - N * N * N - b * D * D * D).p))
        if not ok: ctx.inconclusive("the reference table is not an isogeny")
        ctx.count_paths([])
    return go
# ---------------------------------------------------------------- cofactor clearing
class Clear:
    def __init__(self, ty): self.ty = ty; self.fn = f"h_{ty}_clearCofactor"
    def go(self, ctx):
        try: self.E = Endo(self.ty, beta_of(ctx) if self.ty == "g1" else None)
        except AssertionError as e: ctx.inconclusive(f"endomorphism: {e}") if not self.search(ctx, 4000, []) else None; return
        Flow(self.fn, self.setup, self.conds, self.search, ring=False, fph=False, nval=5).go(ctx)
    def setup(self, ex):
        g = self.E.install(ex); st = ex.new_state(); self.p = ex.alloc(st, SZ[self.ty], "arg"); self.o = ex.alloc(st, SZ[self.ty], "arg"); g.wr(st, self.p, self.ty, {"P": cconst(1)}); return st, [self.o, self.p]
    def conds(self, o, ex):
        E = self.E; c = E.coef(ex.grp.rd(o.st, self.o, self.ty)); e2 = E.mul((0, 1), (0, 1))
        want = (HEFF1, 0) if self.ty == "g1" else (X * X - X - 1 + 2 * e2[0], X - 1 + 2 * e2[1])
        yield f"result is {c}", int(c == want or E.kills((c[0] - want[0], c[1] - want[1])))
        yield "result is not in the subgroup", int(E.kills((Q * c[0], Q * c[1])))
    def search(self, ctx, n, cands):
        l = torsion(ctx, self.ty)
        for p, w in (l if n > 100 else l[:n]):
            a = [b"\x5a" * SZ[self.ty], encpt(self.ty, p, ctx.rng)]; r = ctx.nat.call(self.fn, a); x = ref_clear(p, self.ty)
            if r[0] != "ret" or decpt(self.ty, r[2][0]) != x: ctx.violation(f"{self.fn}: {w}: {str(r)[:200]}, expected {x}", call=(self.fn, a), observed=str(r)[:1500]); return True
        return False
# ---------------------------------------------------------------- hashing a message
def ref_xmd(msg, dst, n):
    if len(dst) > 255: dst = hashlib.sha256(b"H2C-OVERSIZE-DST-" + dst).digest()
    dp = dst + bytes([len(dst)]); h = lambda b: hashlib.sha256(b).digest()
    b0 = h(bytes(64) + msg + n.to_bytes(2, "big") + b"\0" + dp); b = h(b0 + b"\x01" + dp); out = b
    for i in range(2, (n + 31) // 32 + 1): b = h(bytes(x ^ y for x, y in zip(b0, b)) + bytes([i]) + dp); out += b
    return out[:n]
def ref_hash(msg, dst):
    b = ref_xmd(msg, dst, 256); k = [int.from_bytes(b[64 * i:64 * i + 64], "big") % P for i in range(4)]
    q = [ref_iso(ref_swu(CE(k[2 * i], k[2 * i + 1]), "g2"), "g2") for i in (0, 1)]
    return ref_clear(ec_add(*q), "g2")
class Msg:
    fn = "h_fromMessage"
    def __init__(self, n, d): self.n = n; self.d = d
    def setup(self, ex):
        g = self.g = install(ex, ("g2",)); st = ex.new_state(); b = ex.mod.bydem
        self.o = ex.alloc(st, 288, "arg"); m = ex.alloc(st, self.n or 1, "arg"); d = ex.alloc(st, self.d or 1, "arg")
        self.m = [tm.var(f"m{i}", 8) for i in range(self.n)]; self.dv = [tm.var(f"d{i}", 8) if i % 16 == 0 and self.d < 256 else (i * 7 + 1) & 255 for i in range(self.d)]
        for i, v in enumerate(self.m): ex.wr(st, m.obj, i, 1, v)
        for i, v in enumerate(self.dv): ex.wr(st, d.obj, i, 1, v)
        self.mods = []; self.swus = []; self.xmds = []; self.sha = []
        pf = "bls12_381::"
        for dem, k in b.items():
            if dem.startswith(pf + "xmd_sh256("): ex.hooks[k] = self.xmd
            elif dem.startswith("bls12_381::fp bls12_381::fp::modPrime<"): ex.hooks[k] = self.modp(int(dem.split("modPrime<")[1].split("ul")[0]))
            elif dem.startswith("bls12_381::g2::swuMapG2("): ex.hooks[k] = self.swu
            elif dem == "bls12_381::g2::isogenyMap() const": ex.hooks[k] = self.iso
            elif dem == "bls12_381::g2::clearCofactor() const": ex.hooks[k] = self.clear
        return st, [self.o, m, self.n, d, self.d]
    def xmd(self, ex, st, a, fn):
        buf, bl, i, il, d, dl = a
        if any(tm.isT(x) for x in (bl, il, dl)): raise Unsupported("symbolic length")
        if dl >= 1 << 31 or dl > 255 or bl != 256: return (1 << 32) - 1
        v = [ex.read_int(st, ex.padd(i, k), 1) for k in range(il)]; w = [ex.read_int(st, ex.padd(d, k), 1) for k in range(dl)]
        out = tm.var(f"xmd{len(self.xmds)}", 2048); self.xmds.append((v, w, out))
        for k in range(256): ex.wr(st, buf.obj, buf.off + k, 1, tm.extract(out, 2047 - 8 * k, 2040 - 8 * k))
        return 0
    def modp(self, n):
        def h(ex, st, a, fn):
            v = ex.read_int(st, a[1], 8 * n)
            if v is None: raise Unsupported("reduction of uninitialised data")
            t = tm.var(f"mod{len(self.mods)}", 384); self.mods.append((v, 64 * n, t)); ex.write_int(st, a[0], 48, t)
        return h
    def swu(self, ex, st, a, fn):
        c = [ex.read_int(st, ex.padd(a[1], 48 * i), 48) for i in (0, 1)]; k = len(self.swus)
        self.swus.append(c)
        for i, nm in ((0, "y"), (1, "x")):
            t = tm.var(f"swu{k}{nm}", 768); self.keep = getattr(self, "keep", {}); self.keep[t.id] = (k, nm); ex.write_int(st, ex.padd(a[0], 96 * i), 96, t, cell=48)
    def iso(self, ex, st, a, fn):
        v = [ex.read_int(st, ex.padd(a[1], 96 * i), 96) for i in range(3)]
        if not all(tm.isT(x) for x in v[:2]) or v[2] != R % P: raise Unsupported("isogeny of an unknown point")
        k = [self.keep.get(x.id) for x in v[:2]]
        if None in k or k[0][0] != k[1][0] or [x[1] for x in k] != ["x", "y"]: raise Unsupported("isogeny of an unknown point")
        self.g.wr(st, a[0], "g2", {("iso", k[0][0]): cconst(1)})
    def clear(self, ex, st, a, fn):
        self.g.wr(st, a[0], "g2", {("cc", g): c for g, c in self.g.rd(st, a[1], "g2").items()})
    def conds(self, o, ex):
        g = self.g; f = g.rd(o.st, self.o, "g2")
        yield f"result is {f}", int(fkey(f) == fkey({("cc", ("iso", 0)): cconst(1), ("cc", ("iso", 1)): cconst(1)}))
        ok = len(self.swus) == 2 and len(self.xmds) == 1
        yield "two maps, one expansion", int(ok)
        if not ok: return
        v, w, out = self.xmds[0]
        same = lambda a, b: len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
        yield "message", int(same(v, self.m))
        if self.d <= 255: yield "tag", int(same(w, self.dv))
        else: yield "oversize tag", self.oversize(ex, o, w)
        want = [tm.extract(out, 2047 - 512 * i, 1536 - 512 * i) for i in range(4)]
        self.by = {t.id: (v, n) for v, n, t in self.mods}
        def order(p): return [p[0][0], p[0][1], p[1][0], p[1][1]]
        r = []
        for sw in (self.swus, self.swus[::-1]):
            cs = []
            for t, x in zip(order(sw), want):
                m = self.by.get(t.id) if tm.isT(t) else None
                cs.append(0 if m is None else tm.eq(512, tm.zext(m[0], m[1], 512) if m[1] < 512 else m[0], x) if m[1] <= 512 else 0)
            r.append(tm.and_all(cs))
        yield "field elements", tm.or_all(r)
    def oversize(self, ex, o, w):
        """the tag handed to the expander is SHA-256("H2C-OVERSIZE-DST-" || tag): all bytes are concrete here"""
        d = bytes(self.dv) if not any(tm.isT(x) for x in self.dv) else None
        if d is None or any(x is None or tm.isT(x) for x in w): return 0
        return int(bytes(w) == hashlib.sha256(b"H2C-OVERSIZE-DST-" + d).digest())
    def search(self, ctx, n, cands):
        for k in range(40 if n > 100 else 1):
            m = ctx.rng.randbytes(self.n if k < 20 else ctx.rng.randrange(100)); d = ctx.rng.randbytes(self.d if k % 2 == 0 else ctx.rng.choice([1, 43, 255, 256, 257, 300, 600]))
            a = [b"\x5a" * 288, m or b"\0", len(m), d or b"\0", len(d)]; r = ctx.nat.call(self.fn, a); x = ref_hash(m, d)
            if r[0] != "ret" or decpt("g2", r[2][0]) != x: ctx.violation(f"{self.fn}: message {m.hex()[:80]}, tag of {len(d)} bytes: {str(r)[:200]}, expected {x}", call=(self.fn, a), observed=str(r)[:1500]); return True
        return False
def obligations(ctx):
    ctx.mod(); ctx.nat; obs = []
    def add(nm, x, w=1, ring=True): obs.append(Ob(nm, x.go if hasattr(x, "go") else Flow(x.fn, x.setup, x.conds, x.search, ring=ring, fph=ring, nval=4).go, deadline=400, weight=w))
    for ty in ("g1", "g2"):
        add(f"{ty}.swuMap", Swu(ty), 5); add(f"{ty}.mapToCurve", iso_case(ty), 5); add(f"{ty}.clearCofactor", Clear(ty), 3)
        obs.append(Ob(f"{ty}.isogeny table", table_ob(ty), deadline=200))
    for n, d in [(0, 43), (1, 43), (2, 1), (3, 255), (64, 43), (2, 300), (1, 256)] + ([] if ctx.quick else [(n, d) for n in (5, 32, 100, 128) for d in (0, 2, 43, 100, 254, 257, 600)]): add(f"fromMessage, {n} bytes, tag of {d} bytes", Msg(n, d), 2, ring=False)
    return obs
