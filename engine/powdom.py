"""Powers of one unknown non-zero element z of Fp or Fp2, and of sums of such powers.  A value is a ring polynomial; a monomial is
u^i times a product of generators with integer exponents.  Equality of two values is membership in a lattice of relations
(orders of the generators, what the path has established, and B^(p-1) m = 1 for B = 1 + m != 0 with m^(p+1) = 1), decided by z3."""
import z3
from . import terms as tm
from .exec import *
from .ref import *
from .ring import exps, padd, psub, pmul, pscale, pconst, pkey, fork_on, U1, EM
from .ringob import PE, get_obj, put_obj
class PU:
    """path facts: forms known to be 1, forms known not to be 1, bases known to be non-zero"""
    __slots__ = ("rel", "neg", "nz")
    def __init__(s, rel=(), neg=(), nz=()): s.rel = rel; s.neg = neg; s.nz = nz
def fmul(a, b, k=1):
    g = dict(a[1])
    for n, c in b[1].items():
        v = g.get(n, 0) + k * c
        if v: g[n] = v
        else: g.pop(n, None)
    return ((a[0] + k * b[0]) % 4, g)
def fpow(a, k): return (a[0] * k % 4, {n: c * k for n, c in a[1].items() if c * k})
def fk(f): return (f[0], frozenset(f[1].items()))
class PowDom:
    def __init__(self, ctx, ex, ty):
        self.ctx = ctx; self.ex = ex; self.ty = ty; self.rg = rg = ex.ring; self.N = P - 1 if ty == "fp" else P * P - 1
        self.vf = {}; self.fv = {}; self.base = {}; self.gen = {}; self.memo = {}
        t = f"bls12_381::{ty}"; c = f"{t} const&"; f = "bls12_381::fp"
        H = {f"{t}::multiply({c}) const": (0, 1, 2), f"{t}::multiplyAssign({c})": (0, 0, 1), f"{t}::square() const": (0, 1, 1), f"{t}::squareAssign()": (0, 0, 0)}
        if ty == "fp":
            H[f"bls12_381::_multiply({f}*, {f} const*, {f} const*)"] = (0, 1, 2); H[f"bls12_381::_square({f}*, {f} const*)"] = (0, 1, 1)
        for d, k in H.items(): self.hook(d, self.h_mul(k))
        self.hook(f"{t}::equal({c}) const", self.h_eq); self.hook(f"{t}::isOne() const", self.h_one); self.hook(f"{t}::isZero() const", self.h_zero); self.hook(f"{t}::inverse() const", self.h_inv)
        for d in list(ex.mod.bydem):
            s = f"{t} {t}::exp<"
            if d.startswith(s): self.hook(d, self.h_exp(int(d[len(s):].split("ul>")[0])))
    def hook(self, d, h):
        n = self.ex.mod.bydem.get(d)
        if n: self.ex.hooks[n] = h
    def newvar(self, form, nm):
        rg = self.rg; p = rg.fpvar(nm)[1] if self.ty == "fp" else rg.fp2var(nm); i = next(x for x in exps(next(iter(p))))[0]
        self.vf[i] = form; self.fv[fk(form)] = p
        if self.ty != "fp": self.vf[rg.conj[i]] = fpow(form, P)
        return p
    def z(self): return self.newvar((0, {"z": 1}), "z")
    # ---- values
    def get(self, st, p):
        e, bad = get_obj(self.ex, self.rg, st, p, self.ty)
        if bad: raise Unsupported("operand not canonical")
        return e[0].p
    def put(self, st, ptr, p): put_obj(self.ex, self.rg, st, ptr, self.ty, [PE(p, self.rg)])
    def poly(self, f):
        """form -> polynomial"""
        i, g = f; g = {n: c % self.N for n, c in g.items() if c % self.N}
        if len(g) == 1 and next(iter(g.values())) == 1 and next(iter(g)) in self.base: p = self.base[next(iter(g))][0]
        elif not g: p = pconst(1)
        else:
            k = fk((0, g)); p = self.fv.get(k)
            if p is None: p = self.newvar((0, g), f"m{len(self.fv)}")
        for _ in range(i): p = pmul(p, {U1: 1})
        return self.rg.norm(p)
    def mono(self, m, c):
        f = (m & EM, {})
        if c == P - 1: f = ((f[0] + 2) % 4, {})
        elif c != 1:
            n = f"c{min(c, P - c)}"; f = ((f[0] + (2 if c > P - c else 0)) % 4, {n: 1})
        for i, k in exps(m):
            if i == 0: continue
            if i not in self.vf: raise Unsupported("foreign variable in a power")
            f = fmul(f, fpow(self.vf[i], k))
        return f
    def forms(self, st, p):
        """-> [(state, form or None for zero)]"""
        p = self.rg.norm(p)
        if not p: return [(st, None)]
        if len(p) == 1: return [(st, self.mono(*next(iter(p.items()))))]
        k = p.get(0) or p.get(U1) or p[min(p)]
        lead = self.mono(0 if p.get(0) else U1 if p.get(U1) else 0, k); q = self.rg.norm(pmul(p, pscale({0: 1} if not (lead[0] & 1) else {U1: P - 1}, pow(k, -1, P))))
        key = pkey(q); n = self.gen.get(key)
        if n is None:
            n = self.gen[key] = f"B{len(self.gen)}"; m = None
            if len(q) == 2 and q.get(0) == 1: m = self.mono(*next((a, b) for a, b in q.items() if a))
            self.base[n] = (q, m)
        m = self.base[n][1]; out = []; f = fmul(lead, (0, {n: 1}))
        if n in st.user.nz: return [(st, f)]
        if m is None: raise Unsupported("sum of powers that may vanish")
        for s2, z in self.decide(st, fmul(m, (2, {}))):          # B = 0 exactly when -m = 1
            if not z: s2.user = PU(s2.user.rel, s2.user.neg, s2.user.nz + (n,))
            out.append((s2, None if z else f))
        return out
    # ---- relations
    def rels(self, U, extra):
        R_ = list(U.rel) + list(extra); out = list(R_)
        for n in U.nz:
            m = self.base[n][1]
            if m is not None and self.ty == "fp2" and self.member(fpow(m, P + 1), R_): out.append(fmul((0, {n: P - 1}), m))
        return out
    def member(self, f, rels):
        k = (fk(f), tuple(sorted(map(repr, map(fk, rels))))); r = self.memo.get(k)
        if r is None: r = self.memo[k] = self.solve(f, rels)
        return r
    def solve(self, f, rels):
        if f[0] % 4 == 0 and not f[1]: return True
        gens = set(f[1]); s = z3.SolverFor("QF_LIA"); s.set("timeout", 20000); xs = [z3.Int(f"n{i}") for i in range(len(rels))]
        for r in rels: gens |= set(r[1])
        s.add(z3.Sum([x * r[0] for x, r in zip(xs, rels)] + [4 * z3.Int("i4")]) == f[0])
        for g in gens: s.add(z3.Sum([x * r[1][g] for x, r in zip(xs, rels) if g in r[1]] + [z3.Int("o" + g) * (P - 1 if g[0] == "c" else self.N)]) == f[1].get(g, 0))
        return self.ctx.query(s) == "sat"
    def is1(self, U, f, extra=()): return self.member(f, self.rels(U, extra))
    def absurd(self, U, extra=()): return any(self.is1(U, n, extra) for n in U.neg)
    def decide(self, st, f):
        """-> [(state, form is 1?)]"""
        U = st.user
        if self.is1(U, f): return [(st, True)]
        out = []
        y = PU(U.rel + (f,), U.neg, U.nz); n = PU(U.rel, U.neg + (f,), U.nz)
        if not self.absurd(y) and not self.member((2, {}), self.rels(y, ())): s2 = st.fork(); s2.user = y; out.append((s2, True))
        if not self.absurd(n): st.user = n; out.append((st, False))
        return out
    # ---- hooks
    def h_mul(self, k):
        def h(ex, st, a, fn):
            out = []; p, q = self.get(st, a[k[1]]), self.get(st, a[k[2]])
            for s1, f in self.forms(st, p):
                for s2, g in self.forms(s1, q):
                    self.put(s2, a[k[0]], {} if f is None or g is None else self.poly(fmul(f, g))); out.append((s2, None))
            return out
        return h
    def h_exp(self, n):
        def h(ex, st, a, fn):
            e = ex.read_int(st, a[2], 8 * n)
            if e is None or tm.isT(e): raise Unsupported("symbolic exponent")
            out = []
            for s, f in self.forms(st, self.get(st, a[1])): self.put(s, a[0], ({} if e else pconst(1)) if f is None else self.poly(fpow(f, e))); out.append((s, None))
            return out
        return h
    def h_inv(self, ex, st, a, fn):
        out = []
        for s, f in self.forms(st, self.get(st, a[1])): self.put(s, a[0], {} if f is None else self.poly(fpow(f, -1))); out.append((s, None))
        return out
    def same(self, st, p, q):
        out = []
        if pkey(self.rg.norm(p)) == pkey(self.rg.norm(q)): return [(st, 1)]
        for s1, f in self.forms(st, p):
            for s2, g in self.forms(s1, q):
                if f is None or g is None: out.append((s2, int(f is g))); continue
                out += [(s, int(b)) for s, b in self.decide(s2, fmul(f, g, -1))]
        return out
    def h_eq(self, ex, st, a, fn): return self.same(st, self.get(st, a[0]), self.get(st, a[1]))
    def h_one(self, ex, st, a, fn): return self.same(st, self.get(st, a[0]), pconst(1))
    def h_zero(self, ex, st, a, fn): return [(s, int(f is None)) for s, f in self.forms(st, self.get(st, a[0]))]
