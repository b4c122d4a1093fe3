"""Points as elements of Z[e]P for an endomorphism e (glv on E(Fp), psi on E'(Fp2)): reduction modulo the characteristic
polynomial of e, annihilators of the rational points, and certificates for kernel statements."""
from engine.exec import *
from engine import terms as tm
from engine import grp
from engine.grp import *
from engine.ref import *
import z3
X = -XABS
T_ = X + 1                                        # trace of Frobenius of E over Fp
H1 = (X - 1) ** 2 // 3
H2 = (X ** 8 - 4 * X ** 7 + 5 * X ** 6 - 4 * X ** 4 + 6 * X ** 3 - 4 * X ** 2 - 4 * X + 13) // 9
assert P == (X - 1) ** 2 * Q // 3 + X and Q == X ** 4 - X ** 2 + 1
PSIX = XI ** ((P - 1) // 3); PSIX = PSIX.inv(); PSIY = (XI ** ((P - 1) // 2)).inv()
def ref_psi(p): return None if p is None else (p[0].conj() * PSIX, p[1].conj() * PSIY)
class Endo:
    """ty g1: e = sigma, sigma^2 = -1 - sigma; ty g2: e = psi, psi^2 = t psi - p"""
    def __init__(self, ty, beta=None):
        self.ty = ty
        if ty == "g1":
            self.u, self.v = -1, -1; self.order = H1 * Q
            assert beta is not None and beta * beta + beta + CE(1) == CE(0), "not a primitive cube root of unity"
            lam = [l for l in (X * X - 1, -X * X) if ec_mul(G1, l % Q) == (G1[0] * beta, G1[1])]
            assert len(lam) == 1; self.lam = lam[0]
            v = (X - 1) * (2 * X * X - 1) // 3; assert 4 * P == T_ * T_ + 3 * v * v
            pi = [c for c in (((T_ + v) // 2 - 1, v), ((T_ - v) // 2 - 1, -v)) if (c[0] + c[1] * self.lam) % Q == 0]
            assert len(pi) == 1; gens = [pi[0], (self.order, 0)]                    # Frobenius - 1 annihilates E(Fp)
        else:
            self.u, self.v = -P, T_; self.order = H2 * Q; self.lam = X
            assert ref_psi(G2) == ec_mul(G2, X % Q)
            w, s = PSIX * PSIX.conj(), PSIY * PSIY.conj()
            assert w * w + w + CE(1) == CE(0) and s == CE(-1)                       # psi^2 = -omega on rational points: psi^4 - psi^2 + 1 = 0
            e2 = self.mul((0, 1), (0, 1)); e4 = self.mul(e2, e2); gens = [(e4[0] - e2[0] + 1, e4[1] - e2[1]), (self.order, 0)]
        for a, b in gens: assert (a + b * self.lam) % Q == 0
        self.ann = gens
    def mul(self, a, b): c = a[1] * b[1]; return (a[0] * b[0] + c * self.u, a[0] * b[1] + a[1] * b[0] + c * self.v)
    def inlattice(self, target, gens):
        """integer combination of the ideal generated by gens equal to target: found by reduction, checked by z3"""
        rows = [r for g in gens for r in (g, self.mul(g, (0, 1)))]
        n = len(rows); M = [list(r) + [int(i == j) for j in range(n)] for i, r in enumerate(rows)]
        piv = []
        for c in (1, 0):
            while True:
                nz = [r for r in M if r[c]]
                if len(nz) <= 1: break
                nz.sort(key=lambda r: abs(r[c])); p = nz[0]
                for r in nz[1:]:
                    k = r[c] // p[c]
                    for i in range(n + 2): r[i] -= k * p[i]
            if nz: piv.append((c, nz[0])); M = [r for r in M if r is not nz[0]]
        t = list(target) + [0] * n
        for c, p in piv:
            if t[c] % p[c]: return False
            k = t[c] // p[c]
            for i in range(n + 2): t[i] -= k * p[i]
        if t[0] or t[1]: return False
        co = [-x for x in t[2:]]; s = z3.SolverFor("QF_LIA"); cs = [z3.Int(f"c{i}") for i in range(n)]
        for v, k in zip(cs, co): s.add(v == k)
        s.add(z3.Not(z3.And(*[sum((v * r[i] for v, r in zip(cs, rows)), z3.IntVal(0)) == target[i] for i in (0, 1)])))
        return str(s.check()) == "unsat"
    def kills(self, f): return self.inlattice(f, self.ann)                          # f annihilates every rational point
    def subgroup_test(self, f):
        """f(P) = 0 exactly when r P = 0, for every rational point P"""
        return (f[0] + f[1] * self.lam) % Q == 0 and self.inlattice((Q, 0), self.ann + [f])
    # ---- in the engine: generators "P" and "eP"
    def coef(self, f):
        out = [0, 0]
        for g, c in f.items():
            i = {"P": 0, "eP": 1}.get(g)
            if i is None or set(c) != {(None, ())}: raise Unsupported("value outside Z[e]P")
            out[i] = c[(None, ())]
        return tuple(out)
    def form(self, c): return {g: cconst(k) for g, k in zip(("P", "eP"), c) if k}
    def apply(self, k=1):
        def h(ex, st, a, fn):
            g = ex.grp; n = k
            if n is None:
                n = a[2]
                if tm.isT(n): raise Unsupported("symbolic power")
                n = n if n < 1 << 63 else 0
            def f(x):
                c = self.coef(x)
                for _ in range(n): c = self.mul(c, (0, 1))
                return self.form(c)
            g.wr(st, a[0], self.ty, g.map(g.rd(st, a[1], self.ty), f), self.ty == "g1" and n > 0)
        return h
    def install(self, ex, extra=None):
        t = f"bls12_381::{self.ty}::"; ty = self.ty
        tab = dict(scale_contract(ty, n) for n in (1, 2, 4, 6))
        if ty == "g1": tab[t + "glvEndomorphism() const"] = self.apply()
        else: tab[t + "psi() const"] = self.apply(); tab[t + "frobeniusMap(long) const"] = self.apply(None)
        tab.update(extra or {})
        return install(ex, (ty,), extra=tab)
def beta_of(ctx):
    """the constant of the endomorphism as the library computes it on the generator (a primitive cube root of unity, or None)"""
    from checks.c10 import encpt, decpt
    r = ctx.nat.call("h_g1_glv", [b"\x5a" * 144, encpt("g1", G1)]); q = decpt("g1", r[2][0]) if r[0] == "ret" else None
    if q is None or q == "bad" or q[1] != G1[1]: return None
    b = q[0] * G1[0].inv(); return b if b * b + b + CE(1) == CE(0) else None
def torsion(ctx, ty):
    """points of the curve inside and outside the subgroup: (point, description)"""
    rng = ctx.rng; out = [(None, "infinity"), (G1 if ty == "g1" else G2, "generator")]; n = H1 * Q if ty == "g1" else H2 * Q
    small = [3, 11, 10177, 859267, 52437899] if ty == "g1" else [13, 23, 2713, 11953, 262069]
    for i in range(3):
        r = rand_point(rng, ty == "g2"); out.append((r, "random point")); out.append((ec_mul(r, n // Q), "subgroup point")); out.append((ec_mul(r, Q), "cofactor point"))
        for l in small:
            m = n
            while m % l == 0: m //= l
            q = ec_mul(r, m)
            while q is not None and ec_mul(q, l) is not None: q = ec_mul(q, l)
            out.append((q, f"order {l}"))
            if q is not None: out.append((ec_add(q, ec_mul(G1 if ty == "g1" else G2, rng.randrange(Q))), f"subgroup point plus a point of order {l}"))
    return out
