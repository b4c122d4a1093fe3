"""Group-law obligations shared by C08 (G1) and C09 (G2)."""
from engine.check import Ob
from engine.ringob import *
def aff(v):
    """concrete Jacobian -> affine (None at infinity)"""
    if v[2].iszero(): return None
    i = v[2].inv(); return (v[0] * i * i, v[1] * i * i * i)
def need(v, b):
    p = aff(v)
    if not oncurve(p, b): raise SkipCase()
    return p
def conc_same(o, p):
    """relations stating that Jacobian o is the affine point p"""
    if p is None: return [o[2]]
    if o[2].iszero(): return [o[0].mkc(1)]
    z2 = o[2] * o[2]
    return [o[0] - p[0] * z2, o[1] - p[1] * z2 * o[2]]
def proj_same(o, q, cs, factors=()):
    """relations: o represents the same (finite) point as q"""
    cs.nonzero(o[2], [q[2]] + list(factors))
    a, b = o[2] * o[2], q[2] * q[2]
    return [o[0] * b - q[0] * a, o[1] * b * q[2] - q[1] * a * o[2]]
def neg(v): return [v[0], -v[1], v[2]]
def add_rel(B, ip, iq, io, sign, mode, xy):
    """out io = P + sign*Q; ip/iq index the inputs"""
    def rel(ins, outs, cs):
        P_, Q_, O = ins[ip], ins[iq], outs[io]
        if sign < 0: Q_ = neg(Q_)
        if cs is None: return conc_same(O, ec_add(need(P_, B), need(Q_, B)))
        z1, z2 = cs.zero(P_[2]), cs.zero(Q_[2])
        if z1 and z2: return [O[2]]
        if z1: return proj_same(O, Q_, cs)
        if z2: return proj_same(O, P_, cs)
        m = mode if sign > 0 else {"eq": "neg", "neg": "eq"}.get(mode, mode)
        if m == "gen":
            a, b = P_[2] * P_[2], Q_[2] * Q_[2]
            U1, U2, S1, S2 = P_[0] * b, Q_[0] * a, P_[1] * b * Q_[2], Q_[1] * a * P_[2]
            H, r = U2 - U1, S2 - S1
            if cs.zero(H): return []          # equal x-coordinates: decided by the modes eq and neg
            cs.nonzero(O[2], [P_[2], Q_[2], H])
            D = H * P_[2] * Q_[2]; D2 = D * D; H2 = H * H; z = O[2]; zz = z * z
            return [O[0] * D2 - zz * (r * r - H2 * (U1 + U2)),
                    O[1] * D2 * D - (z * zz * (r * U1 * H2 - S1 * H2 * H) - r * O[0] * z * D2)]
        if m == "neg": return [O[2]]
        return dbl_of(xy(ins), O, cs)
    return rel
def dbl_of(xyz, O, cs):
    """out = 2*(x, y, Z)"""
    X, Y, Z = xyz
    if cs.zero(Y): return [O[2]]              # a point with y = 0 has order 2 (does not exist on these curves)
    cs.nonzero(O[2], [Y, Z])
    # affine x = X/Z^2, y = Y/Z^3, lambda = 3 X^2 / (2 Y Z)
    d = (Y * Z) * 2; d2 = d * d; l = X * X * 3; z = O[2]; zz = z * z; Z2 = Z * Z
    # x3 = l^2/d^2 - 2 X/Z^2 ; y3 = (l/d)(X/Z^2 - x3) - Y/Z^3
    return [O[0] * d2 * Z2 - zz * (l * l * Z2 - X * d2 * 2),
            O[1] * d2 * d * Z2 * Z - (l * d2 * (X * Z * z * zz - O[0] * z * Z2 * Z) - Y * d2 * d * z * zz)]
class Curve:
    def __init__(self, ty):
        self.ty = ty; self.B = B1 if ty == "g1" else B2; self.k = "fp" if ty == "g1" else "fp2"
    # symbolic inputs
    def v(self, rg, n): return PE(rg.fpvar(n)[1], rg) if self.k == "fp" else PE(rg.fp2var(n), rg)
    def mk_gen(self, n):
        return lambda rg: [[self.v(rg, f"{'PQR'[i]}{c}") for c in "xyz"] for i in range(n)]
    def mk_rel(self, sgn):
        """P = (x Z^2, y Z^3, Z), Q = sgn * P in another representation"""
        def mk(rg):
            x, y, Z, T = (self.v(rg, n) for n in ("x", "y", "Z", "T"))
            self_rep = [x * Z * Z, y * Z * Z * Z, Z]; other = [x * T * T, y * T * T * T * sgn, T]
            if sgn < 0: other[1] = -(y * T * T * T)
            return [self_rep, other]
        return mk
    def prep_nz(self, ex, rg, st, ins):
        for e in ins:
            a = rg.zero_atom(e[2].p)
            if tm.isT(a): st.pc = st.pc + (tm.not_(a),)
    # concrete points
    def jac(self, rng, p):
        def scal():
            k = rng.randrange(8)
            if k == 0: return CE(1)
            if k == 1: return CE(P - 1)
            if k == 2 and self.k == "fp2": return CE(0, rng.choice([1, P - 1, rng.randrange(1, P)]))
            if k == 3: return CE(rng.randrange(1, P))
            return CE(rng.randrange(1, P), rng.randrange(P) if self.k == "fp2" else 0)
        if p is None:
            k = rng.randrange(4)
            if k == 0: return [CE(0), CE(1), CE(0)]
            if k == 1: return [CE(0), CE(0), CE(0)]
            t = scal()
            if k == 2: return [t * t, t * t * t, CE(0)]
            return [scal(), scal(), CE(0)]
        z = scal(); return [p[0] * z * z, p[1] * z * z * z, z]
    def pts(self, rng):
        if not hasattr(self, "_pool"):
            g = G1GEN if self.ty == "g1" else G2GEN
            pool = [rand_point(rng, self.ty == "g2") for _ in range(4)] + [g, ec_neg(g), ec_mul(g, 2)]
            # points with special coordinates
            for k in range(200):
                x = CE(k % 20, (k // 20) if self.ty == "g2" else 0) if k < 100 else CE(0, k - 100) if self.ty == "g2" else CE(P - k)
                y = sqrt_ce(x * x * x + self.B)
                if y is not None and (self.ty == "g2" or y.b == 0): pool.append((x, y))
                if len(pool) > 14: break
            self._pool = pool
        return self._pool
    def gen(self, n):
        def g(rng, cnt):
            pool = self.pts(rng)
            for k in range(cnt):
                ps = []
                for i in range(n):
                    c = rng.randrange(8)
                    if c == 0: p = None
                    elif c <= 2 and ps and ps[0]: p = ps[0]
                    elif c == 3 and ps and ps[0]: p = ec_neg(ps[0])
                    elif c == 4 and ps and ps[0]: p = ec_add(ps[0], ps[0])
                    else: p = rng.choice(pool)
                    ps.append(p)
                yield [self.jac(rng, p) for p in ps]
        return g
    def gen_off(self, n):
        """also points off the curve"""
        base = self.gen(n)
        def g(rng, cnt):
            for v in base(rng, cnt):
                if rng.random() < .6:
                    i = rng.randrange(len(v)); j = rng.randrange(3)
                    v[i] = list(v[i]); c = rng.randrange(4)
                    if c == 0: v[i][j] = v[i][j] + CE(1)
                    elif c == 1 and self.k == "fp2": v[i][j] = v[i][j] + CE(0, 1)
                    elif c == 2: v[i][j] = -v[i][j]
                    else: v[i][j] = CE(0)
                yield v
        return g
    def cases(self):
        ty = self.ty; B = self.B; C = []
        fa = [[("o", ty), ("i", ty), ("i", ty)], {}]
        for op, sg in (("add", 1), ("subtract", -1)):
            for mode in ("gen", "eq", "neg"):
                mk = self.mk_gen(2) if mode == "gen" else self.mk_rel(1 if mode == "eq" else -1)
                prep = None if mode == "gen" else self.prep_nz
                xy = lambda ins: ins[0]
                C.append((f"{op}/{mode}", RingCase(f"h_{ty}_{op}", [("o", ty), ("i", ty), ("i", ty)], mk=mk, prep=prep, rel=add_rel(B, 0, 1, 0, sg, mode, xy), gen=self.gen(2))))
                C.append((f"{op}Assign/{mode}", RingCase(f"h_{ty}_{op}Assign", [("io", ty), ("i", ty)], mk=mk, prep=prep, rel=add_rel(B, 0, 1, 0, sg, mode, xy), gen=self.gen(2))))
            # aliasing
            mk1 = self.mk_gen(1)
            al = {"o=a": ([("io", ty), ("i", ty), ("i", ty)], {1: 0}, 1, 2), "o=b": ([("io", ty), ("i", ty), ("i", ty)], {2: 0}, 1, 2)}
            for nm, (args, alias, ip, iq) in al.items():
                for mode in ("gen", "eq", "neg"):
                    mk = self.mk_gen(2) if mode == "gen" else self.mk_rel(1 if mode == "eq" else -1)
                    C.append((f"{op}/{nm}/{mode}", RingCase(f"h_{ty}_{op}", args, alias=alias, mk=mk, prep=None if mode == "gen" else self.prep_al, rel=add_rel(B, ip, iq, 0, sg, mode, lambda ins: ins[1]), gen=self.gen(2))))
            self_rel = lambda i: self.double_rel(i) if sg > 0 else (lambda ins, outs, cs: conc_same(outs[0], (need(ins[i], B), None)[1]) if cs is None else [outs[0][2]])
            C.append((f"{op}/a=b", RingCase(f"h_{ty}_{op}", [("o", ty), ("i", ty), ("i", ty)], alias={2: 1}, rel=self_rel(0), gen=self.gen(1))))
            C.append((f"{op}Assign/a=b", RingCase(f"h_{ty}_{op}Assign", [("io", ty), ("i", ty)], alias={1: 0}, rel=self_rel(0), gen=self.gen(1))))
        C.append(("dbl", RingCase(f"h_{ty}_dbl", [("o", ty), ("i", ty)], rel=self.double_rel(0), gen=self.gen(1))))
        C.append(("dbl/o=a", RingCase(f"h_{ty}_dbl", [("io", ty), ("i", ty)], alias={1: 0}, rel=self.double_rel(0), gen=self.gen(1))))
        C.append(("doubleAssign", RingCase(f"h_{ty}_doubleAssign", [("io", ty)], rel=self.double_rel(0), gen=self.gen(1))))
        for nm, f in (("negate", neg), ("copy", lambda v: v)):
            r = self.same_rel(f)
            C.append((nm, RingCase(f"h_{ty}_{nm}", [("o", ty), ("i", ty)], rel=r, gen=self.gen(1))))
            C.append((nm + "/o=a", RingCase(f"h_{ty}_{nm}", [("io", ty), ("i", ty)], alias={1: 0}, rel=r, gen=self.gen(1))))
        def aff_rel(ins, outs, cs):
            v, O = ins[0], outs[0]
            if cs is None: return conc_same(O, need(v, B)) + ([] if v[2].iszero() else [O[2] - CE(1)])
            if cs.zero(v[2]): return [O[2]]
            return [O[2] - O[2].mkc(1), O[0] * v[2] * v[2] - v[0], O[1] * v[2] * v[2] * v[2] - v[1]]
        C.append(("affine", RingCase(f"h_{ty}_affine", [("o", ty), ("i", ty)], rel=aff_rel, gen=self.gen(1))))
        C.append(("affine/o=a", RingCase(f"h_{ty}_affine", [("io", ty), ("i", ty)], alias={1: 0}, rel=aff_rel, gen=self.gen(1))))
        def isz(ins, cs): return ins[0][2].iszero() if cs is None else cs.atom(ins[0][2])
        C.append(("isZero", RingCase(f"h_{ty}_isZero", [("i", ty)], predt=isz, gen=self.gen_off(1))))
        def isaff(ins, cs):
            d = ins[0][2] - ins[0][2].mkc(1)
            return d.iszero() if cs is None else cs.atom(d)
        C.append(("isAffine", RingCase(f"h_{ty}_isAffine", [("i", ty)], predt=isaff, gen=self.gen_off(1))))
        bb = 4
        def onc(ins, cs):
            X, Y, Z = ins[0]; b = X.mkc(4, 4 if ty == "g2" else 0); Z2 = Z * Z
            e = Y * Y - X * X * X - b * Z2 * Z2 * Z2
            if cs is None: return Z.iszero() or e.iszero()
            return tm.or_(1, cs.atom(Z), cs.atom(e))
        C.append(("isOnCurve", RingCase(f"h_{ty}_isOnCurve", [("i", ty)], predt=onc, gen=self.gen_off(1))))
        def eqp(ins, cs):
            p, q = ins[0], ins[1 if len(ins) > 1 else 0]
            a, b = p[2] * p[2], q[2] * q[2]
            H = p[0] * b - q[0] * a; r = p[1] * b * q[2] - q[1] * a * p[2]
            if cs is None:
                z1, z2 = p[2].iszero(), q[2].iszero()
                return (z1 and z2) or (not z1 and not z2 and H.iszero() and r.iszero())
            z1, z2 = cs.atom(p[2]), cs.atom(q[2])
            return tm.or_(1, tm.and_(1, z1, z2), tm.and_all([tm.not_(z1), tm.not_(z2), cs.atom(H), cs.atom(r)]))
        C.append(("equal", RingCase(f"h_{ty}_equal", [("i", ty), ("i", ty)], predt=eqp, gen=self.gen_off(2))))
        C.append(("equal/same", RingCase(f"h_{ty}_equal", [("i", ty), ("i", ty)], alias={1: 0}, predt=eqp, gen=self.gen_off(1))))
        for sgn in (1, -1):
            C.append((f"equal/rep{sgn}", RingCase(f"h_{ty}_equal", [("i", ty), ("i", ty)], mk=self.mk_rel(sgn), predt=eqp, gen=self.gen(2))))
        C.append(("zero", RingCase(f"h_{ty}_zero", [("o", ty)], rel=lambda ins, outs, cs: [outs[0][2]], gen=lambda r, n: iter([[]]))))
        g = G1GEN if ty == "g1" else G2GEN
        C.append(("one", RingCase(f"h_{ty}_one", [("o", ty)], rel=lambda ins, outs, cs: [outs[0][0] - outs[0][0].mkc(g[0].a, g[0].b), outs[0][1] - outs[0][1].mkc(g[1].a, g[1].b), outs[0][2] - outs[0][2].mkc(1)], gen=lambda r, n: iter([[]]))))
        C += self.closure()
        return C
    def prep_al(self, ex, rg, st, ins):
        self.prep_nz(ex, rg, st, [e for e in ins if e is not None])
    def double_rel(self, i):
        B = self.B
        def rel(ins, outs, cs):
            v, O = ins[i], outs[0]
            if cs is None:
                p = need(v, B); return conc_same(O, ec_add(p, p))
            if cs.zero(v[2]): return [O[2]]
            return dbl_of(v, O, cs)
        return rel
    def same_rel(self, f):
        B = self.B
        def rel(ins, outs, cs):
            v, O = f(ins[0]), outs[0]
            if cs is None: return conc_same(O, aff(v))
            if cs.zero(v[2]): return [O[2]]
            return proj_same(O, v, cs)
        return rel
    def closure(self):
        """results of operations on curve points satisfy the curve equation (curve relation as rewriting Y^2 = X^3 + b Z^6)"""
        ty = self.ty; out = []
        def mk(n):
            def f(rg):
                r = []
                for i in range(n):
                    X, Z, Y = (self.v(rg, f"{'PQ'[i]}{c}") for c in "xzy")
                    b = X.mkc(4, 4 if ty == "g2" else 0)
                    rhs = X * X * X + b * Z ** 6
                    (yi, _), = exps(next(iter(Y.p)))
                    rg.sq[yi] = rhs.p
                    if rg.conj[yi] != yi: rg.sq[rg.conj[yi]] = rg.pconj(rhs.p)
                    r.append([X, Y, Z])
                return r
            return f
        def rel(ins, outs, cs):
            X, Y, Z = outs[0]
            if cs is None:
                for v in ins: need(v, self.B)
                return [] if oncurve(aff(outs[0]), self.B) else [CE(1)]
            if not Z.p or cs.zero(Z): return []
            b = X.mkc(4, 4 if ty == "g2" else 0)
            return [Y * Y - X * X * X - b * Z ** 6]
        for op, n, args in (("dbl", 1, [("o", ty), ("i", ty)]), ("add", 2, [("o", ty), ("i", ty), ("i", ty)]), ("subtract", 2, [("o", ty), ("i", ty), ("i", ty)]), ("affine", 1, [("o", ty), ("i", ty)]), ("negate", 1, [("o", ty), ("i", ty)])):
            out.append((f"{op}/closure", RingCase(f"h_{ty}_{op}", args, mk=mk(n), rel=rel, gen=self.gen(n))))
        return out
def obs(ty):
    c = Curve(ty)
    return [Ob(f"{ty}.{nm}", rc.go, deadline=240, weight=5 if "add" in nm or "sub" in nm else 1) for nm, rc in c.cases()]
