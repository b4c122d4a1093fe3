"""C15: the pairing of a list of pairs is the optimal ate product."""
from engine.check import Ob
from engine.exec import *
from engine.flow import *
from engine.ringob import *
from engine import terms as tm, grp
from engine.grp import *
from engine.ref import *
from math import gcd
import z3
from .c10 import encpt, decpt
from .curve import Curve, aff
from .sigs import affine_le
BOUNDS = ("doubling and addition step: every point, in every homogeneous representation (addition: any affine summand with a different x); Miller loop: lists of 0..4 and 20, 21 pairs, with and without callback, arbitrary points; "
          "final exponentiation: every invertible Fp12 value; add_pair: lists of 0..3 pairs, every point (also infinity) in every representation; calculate: lists of 0..4, 19, 20 and 21 pairs")
OUTSIDE = "other list lengths; pairs handed to calculate directly with a point at infinity or in a non-affine representation (add_pair never produces them); points outside the prime-order subgroups"
ASSUMPTIONS = ["Fp12 operations (square, multiply, conjugate, inverse, frobeniusMap, mulBy014Assign, cyclotomicSquare, cyclotomicExp) satisfy their contracts: decided by C05, C06, C07",
               "g1/g2 isZero and affine satisfy their contracts: C08, C09",
               "mathematics: a function with divisor x(Q) - (xQ) - (x-1)(O), evaluated at P and raised to (p^12-1)/r, is the optimal ate pairing for BLS curves (Vercauteren; bilinear, non-degenerate for gcd(k, r) = 1), factors from proper subfields being removed by the final exponentiation"]
FP12 = 576
PHI = 12
RR = (P ** 12 - 1) // Q
# ---------------------------------------------------------------- the two steps
def hom(v):
    if v[2].iszero(): return None
    i = v[2].inv(); return (v[0] * i, v[1] * i)
def line_rel(c, n, d, x, y):
    """(c0 : c1 : c2) is proportional to (lambda x - y : -lambda : 1), lambda = n/d"""
    return [c[1] * d + c[2] * n, c[0] * d - c[2] * (n * x - y * d)]
def point_rel(O, n, d, x1, y1, x2):
    d2 = d * d; x3 = n * n - (x1 + x2) * d2
    return [O[0] * d2 - O[2] * x3, O[1] * d2 * d - O[2] * (n * (x1 * d2 - x3) - y1 * d2 * d)]
def step_rel(add):
    def rel(ins, outs, cs):
        c, O = outs[0], outs[1]; R = ins[0]
        if cs is None:
            r = hom(R)
            if r is None or not oncurve(r, B2): raise SkipCase()
            x, y = r
            if add:
                t = ins[1]
                if t[2] != CE(1) or not oncurve((t[0], t[1]), B2) or t[0] == x: raise SkipCase()
                n, d, x2, X, Y = y - t[1], x - t[0], t[0], t[0], t[1]
            else: n, d, x2, X, Y = x * x * 3, y * 2, x, x, y
            if O[2].iszero() or c[2].iszero(): return [CE(1)]
        else:
            x, y, Z = cs.rg.my
            if add:
                t = ins[1]; n, d, x2, X, Y = y - t[1], x - t[0], t[0], t[0], t[1]
                cs.nonzero(O[2], [Z, d]); cs.nonzero(c[2], [Z, d])
            else:
                n, d, x2, X, Y = x * x * 3, y * 2, x, x, y; w = x * x * x + x.mkc(4, 4)
                cs.nonzero(O[2], [Z, y, w]); cs.nonzero(c[2], [Z, y, w])
        return line_rel(c, n, d, X, Y) + point_rel(O, n, d, x, y, x2)
    return rel
def step_case(add):
    def mk(rg):
        x, Z, y = (PE(rg.fp2var(n), rg) for n in ("x", "Z", "y"))
        rg.my = (x, y, Z); out = [[x * Z, y * Z, Z]]
        if not add:
            (yi, _), = exps(next(iter(y.p))); rhs = x * x * x + x.mkc(4, 4)
            rg.sq[yi] = rhs.p
            if rg.conj[yi] != yi: rg.sq[rg.conj[yi]] = rg.pconj(rhs.p)
        else: out.append([PE(rg.fp2var("a"), rg), PE(rg.fp2var("b"), rg), x.mkc(1)])
        return out
    def prep(ex, rg, st, ins):
        x, y, Z = rg.my
        for e in [Z, x - ins[1][0]] if add else [Z, y, x * x * x + x.mkc(4, 4)]:
            q = rg.norm(e.p); a = rg.zero_atom(q) if len(q) == 1 else tm.and_all([rg.zero_atom(h(q)) for h in (rg.realpart, rg.imagpart)])
            if tm.isT(a): st.pc = st.pc + (tm.not_(a),)
    cv = Curve("g2")
    def gen(rng, n):
        pool = cv.pts(rng)
        for k in range(n):
            p, q = rng.choice(pool), rng.choice(pool); z = CE(1) if k % 4 == 0 else CE(rng.randrange(1, P), rng.randrange(P) if k % 3 else 0) if k % 2 else CE(0, rng.randrange(1, P))
            yield [[p[0] * z, p[1] * z, z]] + ([[q[0], q[1], CE(1)]] if add else [])
    if add: return RingCase("h_pairing_addition_step", [("o", "fp2x3"), ("io", "g2"), ("i", "g2")], rel=step_rel(True), mk=mk, prep=prep, gen=gen)
    return RingCase("h_pairing_doubling_step", [("o", "fp2x3"), ("io", "g2")], rel=step_rel(False), mk=mk, prep=prep, gen=gen)
# ---------------------------------------------------------------- Fp12 values as products of named values with exponents in Z[phi]/(phi^12 - 1)
def emul(a, b):
    r = [0] * PHI
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if y: r[(i + j) % PHI] += x * y
    return tuple(r)
def sh(k, c=1): r = [0] * PHI; r[k % PHI] = c; return tuple(r)
CYC = tuple([1, 0, -1, 0, 1] + [0] * 7)
ONE = sh(0)
class Prod:
    """formal products: {name: exponent}"""
    def __init__(self, ex):
        self.ex = ex; self.t = {}; self.bk = {}; self.keep = []
        p = "bls12_381::fp12::"; H = {}
        def un(f): return lambda ex, st, a, fn: self.wr(st, a[0], f(self.rd(st, a[1])))
        def asg(f): return lambda ex, st, a, fn: self.wr(st, a[0], f(self.rd(st, a[0])))
        H["square() const"] = un(lambda x: self.sc(x, sh(0, 2))); H["squareAssign()"] = asg(lambda x: self.sc(x, sh(0, 2)))
        H["conjugate() const"] = un(lambda x: self.sc(x, sh(6))); H["inverse() const"] = un(lambda x: self.sc(x, sh(0, -1)))
        H["multiply(bls12_381::fp12 const&) const"] = lambda ex, st, a, fn: self.wr(st, a[0], self.add(self.rd(st, a[1]), self.rd(st, a[2])))
        H["multiplyAssign(bls12_381::fp12 const&)"] = lambda ex, st, a, fn: self.wr(st, a[0], self.add(self.rd(st, a[0]), self.rd(st, a[1])))
        H["frobeniusMap(unsigned long const&) const"] = lambda ex, st, a, fn: self.wr(st, a[0], self.sc(self.rd(st, a[1]), sh(self.num(st, a[2]))))
        H["frobeniusMapAssign(unsigned long const&)"] = lambda ex, st, a, fn: self.wr(st, a[0], self.sc(self.rd(st, a[0]), sh(self.num(st, a[1]))))
        H["cyclotomicSquare() const"] = un(lambda x: self.sc(self.cyc(x), sh(0, 2))); H["cyclotomicSquareAssign()"] = asg(lambda x: self.sc(self.cyc(x), sh(0, 2)))
        H["one()"] = lambda ex, st, a, fn: self.wr(st, a[0], {})
        H["equal(bls12_381::fp12 const&) const"] = self.nope; H["isOne() const"] = self.nope; H["isZero() const"] = self.nope
        for k, h in H.items():
            if p + k in ex.mod.bydem: ex.hooks[ex.mod.bydem[p + k]] = h
        for d, n in ex.mod.bydem.items():
            for nm, cyc in (("cyclotomicExp<", True), ("exp<", False)):
                if d.startswith("bls12_381::fp12 bls12_381::fp12::" + nm): ex.hooks[n] = self.expo(int(d.split(nm)[1].split("ul>")[0]), cyc)
    def nope(self, ex, st, a, fn): raise Unsupported("comparison of Fp12 values")
    def num(self, st, p):
        v = self.ex.read_int(st, p, 8)
        if v is None or tm.isT(v): raise Unsupported("symbolic Frobenius power")
        return v
    def expo(self, n, cyc):
        def h(ex, st, a, fn):
            e = ex.read_int(st, a[2], 8 * n)
            if e is None or tm.isT(e): raise Unsupported("symbolic exponent")
            x = self.rd(st, a[1]); self.wr(st, a[0], self.sc(self.cyc(x) if cyc else x, sh(0, e)))
        return h
    def sc(self, f, e):
        ks = [(i, x) for i, x in enumerate(e) if x]
        if len(ks) == 1:
            i, c = ks[0]; return {k: tuple(c * v for v in (x[-i:] + x[:-i] if i else x)) for k, x in f.items()}
        return {k: emul(x, e) for k, x in f.items()}
    def add(self, f, g):
        r = dict(f)
        for k, y in g.items():
            x = r.get(k); r[k] = y if x is None else tuple(u + v for u, v in zip(x, y))
        return r
    def cyc(self, f):
        for k, x in f.items():
            if any(emul(x, CYC)): raise Unsupported("cyclotomic operation on a value outside the cyclotomic subgroup")
        return f
    def wr(self, st, p, f):
        f = {k: x for k, x in f.items() if any(x)}
        t = tm.var(f"prod{len(self.keep)}", 8 * FP12); self.keep.append(t); self.t[t.id] = f
        self.ex.write_int(st, p, FP12, t, cell=48)
    def rd(self, st, p):
        v = self.ex.read_int(st, p, FP12)
        if v is None: raise Unsupported("unreadable Fp12 value")
        if not tm.isT(v):
            if v == ONEM: return {}
            raise Unsupported("Fp12 constant")
        f = self.t.get(v.id)
        if f is None: raise Unsupported("unknown Fp12 value")
        return f
ONEM = R % P
# ---------------------------------------------------------------- Miller loop
class Miller(Prod):
    def __init__(self, ex, n):
        super().__init__(ex); rg = self.rg = ex.ring; self.n = n
        self.A, self.B, self.C, self.X, self.Y, self.Z = (PE(rg.fp2var(v), rg) for v in "ABCXYZ")
        self.px = [PE(rg.fpvar(f"px{j}")[1], rg) for j in range(n)]; self.py = [PE(rg.fpvar(f"py{j}")[1], rg) for j in range(n)]
        self.tags = {}; self.lab = {}
        b = ex.mod.bydem; pf = "bls12_381::pairing::"
        for d, k in b.items():
            if d.startswith(pf + "doubling_step("): ex.hooks[k] = self.dbl
            elif d.startswith(pf + "addition_step("): ex.hooks[k] = self.addst
        ex.hooks[b["bls12_381::fp12::mulBy014Assign(bls12_381::fp2 const&, bls12_381::fp2 const&, bls12_381::fp2 const&)"]] = self.m014
    def tag(self, x):
        t = self.tags.get(x)
        if t is None:
            t = self.tags[x] = int.from_bytes(__import__("hashlib").sha256(repr(x).encode()).digest(), "big") % P; self.lab[t] = x
        return t
    def point(self, j, k):
        t = self.tag(("T", j, k)); return [self.X * t, self.Y * t, self.X.mkc(1) if k == 1 else self.Z * t]
    def rdpt(self, st, p):
        e, bad = get_obj(self.ex, self.rg, st, p, "g2")
        c = set()
        x = e[0].p; m = next(iter(self.X.p))
        if bad or list(x) != [m]: raise Unsupported("unknown point in the Miller loop")
        l = self.lab.get(x[m])
        if not l or l[0] != "T" or any(u.p != v.p for u, v in zip(e, self.point(*l[1:]))): raise Unsupported("unknown point in the Miller loop")
        return l[1:]
    def line(self, st, pc, l):
        t = self.tag(l); put_obj(self.ex, self.rg, st, pc, "fp2x3", [self.A * t, self.B * t, self.C * t])
    def dbl(self, ex, st, a, fn):
        j, k = self.rdpt(st, a[1]); self.line(st, a[0], ("D", j, k)); put_obj(ex, self.rg, st, a[1], "g2", self.point(j, 2 * k))
    def addst(self, ex, st, a, fn):
        j, k = self.rdpt(st, a[1]); j2, k2 = self.rdpt(st, a[2])
        if k2 != 1 or j != j2 or k == 1: raise Unsupported(f"addition step on {k}T{j} and {k2}T{j2}")
        self.line(st, a[0], ("A", j, k)); put_obj(ex, self.rg, st, a[1], "g2", self.point(j, k + 1))
    def m014(self, ex, st, a, fn):
        e = []
        for p in a[1:4]:
            x, bad = get_obj(ex, self.rg, st, p, "fp2")
            if bad: raise Unsupported("line coefficient not canonical")
            e.append(x[0].p)
        m = next(iter(self.A.p))
        l = self.lab.get(e[0].get(m)) if list(e[0]) == [m] else None
        if not l or l[0] == "T": raise Unsupported("unknown line coefficient")
        t = self.tag(l); j = l[1]
        if e[1] != (self.B * self.px[j] * t).p or e[2] != (self.C * self.py[j] * t).p: raise Unsupported(f"line {l} evaluated with wrong coefficients or point")
        self.wr(st, a[0], self.add(self.rd(st, a[0]), {l: ONE}))
def divisor(f):
    """per pair: {multiple m: coefficient of (mT)} up to verticals, as elements of Z[phi]"""
    D = {}
    def put(j, m, x, c):
        if m < 0: m, c = -m, -c
        if m: d = D.setdefault(j, {}); d[m] = tuple(u + c * v for u, v in zip(d.get(m, sh(0, 0)), x))
    for (k, j, m), x in f.items():
        if k == "D": put(j, m, x, 2); put(j, -2 * m, x, 1)
        else: put(j, m, x, 1); put(j, 1, x, 1); put(j, -(m + 1), x, 1)
    return D
def at_p(x): return sum(c * P ** i for i, c in enumerate(x))
NX = XABS

def decide_product(ex, f, n, final, power=None):
    """is f (raised to (p^12-1)/r unless final) the product of the ate pairings of the n pairs, all with the same power prime to r?"""
    for l, x in f.items():
        if final and at_p(x) % RR: return f"the exponent of line {l} is not a multiple of (p^12-1)/r"
    D = {j: {m: at_p(x) // (RR if final else 1) for m, x in d.items()} for j, d in divisor(f).items()}
    if n == 0: return "non-empty product" if f else None
    if sorted(D) != list(range(n)): return f"pairs {sorted(D)} contribute, {n} given"
    ks = [-D[j].get(NX, 0) % Q for j in range(n)]
    sol = z3.SolverFor("QF_LIA"); sol.set("timeout", 60000)
    k = z3.Int("k"); sol.add(k == ks[0])
    t = z3.And(*([k > 0, k < Q] + [(z3.IntVal(d.get(m, 0)) - k * (NX if m == 1 else -1 if m == NX else 0)) % Q == 0 for d in D.values() for m in set(d) | {1, NX}]))
    sol.add(z3.Not(t))
    r = str(sol.check())
    if r != "unsat": return f"the divisor of the Miller function is not K(|x|(Q) - (|x|Q)) ({r})"
    if power is not None and ks[0] != power: return f"the power of the pairing is {ks[0]}, for a single pair it is {power}"
    ex.pairing_power = ks[0]
    return None
class List:
    def __init__(self, n, cb, calc): self.n = n; self.cb = cb; self.calc = calc; self.fn = ("h_pairing_calculate" if calc else "h_pairing_miller") + ("_y" if cb else "")
    power = None
    def go(self, ctx):
        if self.n > 1:
            # the power of the pairing obtained for a single pair
            one = List(1, self.cb, self.calc)
            try:
                ex = ctx.exec(ring=True, fph=True); st, a = one.setup(ex)
                for o in ex.run(one.fn, a, st):
                    if o.kind == "ret" and decide_product(ex, one.S.rd(o.st, one.o), 1, self.calc) is None: self.power = ex.pairing_power
            except (Unsupported, Budget, Inconclusive): pass
        Flow(self.fn, self.setup, self.conds, self.search, ring=True, fph=True, nval=1).go(ctx)
    def setup(self, ex):
        S = self.S = Miller(ex, self.n); st = ex.new_state()
        o = self.o = ex.alloc(st, FP12, "arg"); p = ex.alloc(st, 432 * self.n if self.n else 1, "arg")
        for j in range(self.n):
            put_obj(ex, ex.ring, st, ex.padd(p, 432 * j), "g2", S.point(j, 1)); put_obj(ex, ex.ring, st, ex.padd(p, 432 * j + 288), "g1", [S.px[j], S.py[j], S.px[j].mkc(1)])
        self.live = set(st.mem); return st, [o, p, self.n]
    def conds(self, o, ex):
        f = self.S.rd(o.st, self.o)
        w = decide_product(ex, f, self.n, self.calc, self.power)
        yield (w or "value"), int(w is None)
        if any(x.kind == "heap" and not x.dead and i not in self.live for i, x in o.st.mem.items()): yield "leaks memory", 0
    def search(self, ctx, n, cands):
        return search_pairing(ctx, n, self.n, self.fn, self.calc)
def dec12(b):
    v = [int.from_bytes(b[48 * i:48 * i + 48], "little") for i in range(12)]
    if any(x >= P for x in v): return None
    return [CE(v[2 * i] * RI, v[2 * i + 1] * RI) for i in range(6)]
def finexp(f): return f12pow(f, RR)
W = {}
def base(ctx):
    """e(G1, G2) as the library computes it, after checking that it generates the subgroup of order r"""
    if "g" not in W:
        r = call(ctx, "h_pairing_calculate", [(1, 1)])
        g = None if r[0] != "ret" else dec12(r[2][0])
        one = f12one(CE(1))
        if g is None or g == one or f12pow(g, Q) != one: return None, r
        W["g"] = g
    return W["g"], None
def args_of(l):
    if "pts" not in W: W["pts"] = {}
    c = W["pts"]; b = b""
    for x, y in l:
        for ty, k, g in (("g2", y, G2), ("g1", x, G1)):
            k %= Q
            if (ty, k) not in c: c[ty, k] = ec_mul(g, k)
            b += encpt(ty, c[ty, k])
    return [b"\x5a" * FP12, b or b"\0", len(l)]
def call(ctx, fn, l): return ctx.nat.call(fn, args_of(l))
def search_pairing(ctx, cnt, n, fn, calc):
    g, r0 = base(ctx)
    if g is None:
        a = args_of([(1, 1)]); ctx.violation("h_pairing_calculate: e(G1, G2) does not have order r", call=("h_pairing_calculate", a), observed=str(r0)[:1500]); return True
    ks = [1, 2, 3, Q - 1, 5] + [ctx.rng.randrange(1, Q) for _ in range(3)]
    full = cnt > 100
    cfg = [(n, fn)]
    if full: cfg += [(m, f) for m in (1, 2, 3, 0, 4, 19, 20, 21) for f in ("h_pairing_calculate", "h_pairing_calculate_y", "h_pairing_miller", "h_pairing_miller_y")]
    for m, f in cfg:
        cal = "calculate" in f
        for rep in range(3 if m and cal and full else 1):
            l = [(ctx.rng.choice(ks), ctx.rng.choice(ks)) for _ in range(m)]; a = args_of(l)
            if full and m == 0:
                r = ctx.asan.call(f, a)
                if r[0] == "san": ctx.violation(f"{f} on an empty list: {str(r)[:300]}", call=(f, a), observed=str(r)[:1500]); return True
            r = ctx.nat.call(f, a); v = dec12(r[2][0]) if r[0] == "ret" else None
            bad = v is None
            if not bad:
                if cal: bad = v != f12pow(g, sum(x * y for x, y in l) % Q)
                elif m == 0: bad = v != f12one(CE(1))
                else:
                    # the final exponentiation of the library (decided separately) applied to the Miller value
                    q = ctx.nat.call("h_pairing_final_exp", [r[2][0]]); bad = q[0] != "ret" or dec12(q[2][0]) != f12pow(g, sum(x * y for x, y in l) % Q)
            if bad:
                ctx.violation(f"{f}: list of {m} pairs with logarithms {[(hex(x), hex(y)) for x, y in l][:4]}: wrong pairing value ({r[0]})", call=(f, a), observed=str(r)[:1500]); return True
    return False
class Final:
    fn = "h_pairing_final_exp"
    def setup(self, ex):
        S = self.S = Prod(ex); st = ex.new_state(); self.p = ex.alloc(st, FP12, "arg"); S.wr(st, self.p, {"f": ONE}); return st, [self.p]
    def conds(self, o, ex):
        v = at_p(self.S.rd(o.st, self.p).get("f", sh(0, 0)))
        s = z3.SolverFor("QF_LIA"); k = z3.Int("k"); q, r = divmod(v % (P ** 12 - 1), RR)
        s.add(z3.Not(z3.And(z3.IntVal(v) % z3.IntVal(P ** 12 - 1) == z3.IntVal(q) * z3.IntVal(RR), z3.IntVal(q) % Q != 0)))
        yield "the exponent is k (p^12-1)/r with k prime to r", int(str(s.check()) == "unsat"); self.k = q
    def search(self, ctx, n, cands):
        for i in range(3 if n > 100 else 1):
            f = rand_ce(ctx.rng, "fp12", 0 if i < 2 else .5)
            r = ctx.nat.call(self.fn, [enc_ce("fp12", f)]); v = dec12(r[2][0]) if r[0] == "ret" else None
            e = finexp(f); bad = v is None
            if not bad:
                # v must be a fixed power of the reference: the power is determined by the first value
                bad = v not in (f12pow(e, 3), f12pow(e, Q - 3), e, f12pow(e, Q - 1)) and not self.fixed(ctx, v, e)
            if bad: ctx.violation(f"{self.fn}: result is not f^(k(p^12-1)/r)", call=(self.fn, [enc_ce("fp12", f)]), observed=str(r)[:1500]); return True
        return False
    def fixed(self, ctx, v, e):
        k = getattr(self, "k", None)
        return k is not None and v == f12pow(e, k % Q) and k % Q != 0
# ---------------------------------------------------------------- add_pair
class Product:
    """h_pairing_product: n pairs through add_pair, then calculate (hooked: receives the list)"""
    fn = "h_pairing_product"
    def __init__(self, n): self.n = n
    def setup(self, ex):
        g = self.g = install(ex, ("g1", "g2")); st = ex.new_state(); n = self.n
        self.o = ex.alloc(st, FP12, "arg"); a = ex.alloc(st, 144 * n or 1, "arg"); b = ex.alloc(st, 288 * n or 1, "arg")
        for i in range(n): g.wr(st, ex.padd(a, 144 * i), "g1", {f"P{i}": cconst(1)}); g.wr(st, ex.padd(b, 288 * i), "g2", {f"Q{i}": cconst(1)})
        for d, k in ex.mod.bydem.items():
            if d.startswith("bls12_381::pairing::calculate("): ex.hooks[k] = self.calc
        self.live = set(st.mem); return st, [self.o, a, b, n]
    def calc(self, ex, st, a, fn):
        if tm.isT(a[2]): raise Unsupported("symbolic number of pairs")
        l = []
        for i in range(a[2]):
            q = ex.padd(a[1], 432 * i); p = ex.padd(q, 288)
            for ptr, ty in ((q, "g2"), (p, "g1")):
                if not self.g.isaff(st, ptr, ty): raise Unsupported("pair is not in affine form")
            l.append((fkey(self.g.rd(st, p, "g1")), fkey(self.g.rd(st, q, "g2"))))
        st.user = ("called", tuple(l)); ex.write_int(st, a[0], FP12, tm.var("result", 8 * FP12), cell=48)
    def conds(self, o, ex):
        if not o.st.user: yield "calculate not called", 0; return
        got = sorted(map(str, o.st.user[1])); want = []
        pc = list(o.st.pc)
        for i in range(self.n):
            P_, Q_ = {f"P{i}": cconst(1)}, {f"Q{i}": cconst(1)}
            z = tm.or_all([self.g.iszero("g1", P_), self.g.iszero("g2", Q_)])
            if ex.solver.sat(pc + [z]) == "unsat": want.append(str((fkey(P_), fkey(Q_))))
            elif ex.solver.sat(pc + [tm.not_(z)]) != "unsat": yield f"pair {i}: the list does not depend on its being infinite", 0
        yield f"the list is {got}, expected {want}", int(got == sorted(want))
        if any(x.kind == "heap" and not x.dead and i not in self.live for i, x in o.st.mem.items()): yield "leaks memory", 0
    def search(self, ctx, n, cands):
        g, r0 = base(ctx)
        if g is None: return search_pairing(ctx, n, 1, "h_pairing_calculate", True)
        ks = [0, 0, 1, 2, Q - 1, ctx.rng.randrange(1, Q)]; c = W.setdefault("pts", {})
        for rep in range(40 if n > 100 else 1):
            m = self.n if rep % 2 == 0 else ctx.rng.randrange(6)
            l = [(ctx.rng.choice(ks), ctx.rng.choice(ks)) for _ in range(m)]
            for x, y in l:
                for ty, k, gg in (("g1", x, G1), ("g2", y, G2)):
                    if (ty, k) not in c: c[ty, k] = ec_mul(gg, k)
            a = [b"\x5a" * FP12, b"".join(encpt("g1", c["g1", x], ctx.rng) for x, _ in l) or b"\0", b"".join(encpt("g2", c["g2", y], ctx.rng) for _, y in l) or b"\0", m]
            r = ctx.nat.call(self.fn, a); v = dec12(r[2][0]) if r[0] == "ret" else None
            if v is None or v != f12pow(g, sum(x * y for x, y in l) % Q):
                ctx.violation(f"{self.fn}: {m} pairs with logarithms {[(hex(x), hex(y)) for x, y in l]}: wrong product ({r[0]})", call=(self.fn, a), observed=str(r)[:1500]); return True
        return False
def obligations(ctx):
    ctx.mod(); ctx.nat; obs = []
    def add(nm, x, w=1, merge=False, ring=True): obs.append(Ob(nm, x.go if hasattr(x, "go") else Flow(x.fn, x.setup, x.conds, x.search, ring=ring, fph=ring, merge=merge, nval=1).go, deadline=600, weight=w))
    obs.append(Ob("doubling step", step_case(False).go, deadline=300, weight=3)); obs.append(Ob("addition step", step_case(True).go, deadline=300, weight=3))
    add("final exponentiation", Final(), 2)
    ns = (0, 1, 2, 3, 4, 20, 21) if ctx.quick else (0, 1, 2, 3, 4, 5, 6, 7, 8, 19, 20, 21, 22, 32, 40)
    for n in ns:
        for cb in (False, True):
            if not ctx.quick or n < 2 or n >= 20 or not cb:
                add(f"miller loop, {n} pairs{', callback' if cb else ''}", List(n, cb, False), 1 + n)
                if n < 3 or n == 20: add(f"pairing, {n} pairs{', callback' if cb else ''}", List(n, cb, True), 1 + n)
    for n in range(4 if ctx.quick else 5): add(f"add_pair, {n} pairs", Product(n), 2 + n, ring=False)
    return obs
