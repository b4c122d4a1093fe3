"""Exact-integer domain for multi-limb code: every 64-bit value is an exact linear form (rational coefficients)
over bounded integer variables (limb products, low halves).  Splits s = lo + 2^64*hi introduce one variable;
'no carry out' and 'low half is zero' facts are decided by z3 (linear real / integer arithmetic)."""
import z3
from fractions import Fraction
from . import terms as tm
from .terms import isT
W = 1 << 64
class LinError(Exception): pass
class Form:
    __slots__ = ("c", "k")          # dict var->Fraction|int, constant
    def __init__(s, c, k=0): s.c = c; s.k = k
    def __add__(s, o):
        c = dict(s.c)
        for v, x in o.c.items():
            y = c.get(v, 0) + x
            if y: c[v] = y
            else: c.pop(v, None)
        return Form(c, s.k + o.k)
    def scale(s, f): return Form({v: x * f for v, x in s.c.items()}, s.k * f) if f else Form({}, 0)
    def __sub__(s, o): return s + o.scale(-1)
    def iszero(s): return not s.c and s.k == 0
    def isconst(s): return not s.c
class Lin:
    def __init__(self):
        self.names = []; self.lo = []; self.hi = []; self.form = {}    # term id -> Form
        self.constmul = {}; self.prod = {}; self.queries = 0; self.time = 0.0
        self.side = []            # extra inequalities (Form >= 0)
        self.keep = []; self.signed = False       # signed: some forms come from subtractions
    def newvar(self, name, lo, hi):
        self.names.append(name); self.lo.append(lo); self.hi.append(hi); return len(self.names) - 1
    def leaf(self, name, f, w=64):
        """term standing for the value of form f"""
        if f.isconst(): return int(f.k)
        t = tm.fresh(name, w); self.form[t.id] = f; self.keep.append(t); return t
    def rng(self, f):
        lo = hi = Fraction(f.k)
        for v, x in f.c.items():
            if x > 0: lo += x * self.lo[v]; hi += x * self.hi[v]
            else: lo += x * self.hi[v]; hi += x * self.lo[v]
        return lo, hi
    def z3form(self, f, zv):
        return z3.Sum([z3.RealVal(f.k)] + [z3.Q(Fraction(x).numerator, Fraction(x).denominator) * zv(v) for v, x in f.c.items()])
    def always_lt(self, f, bound, extra=()):
        """z3: f < bound for all variable values within their bounds (and the extra facts g >= 0)"""
        import time
        t0 = time.time(); self.queries += 1
        s = z3.Solver(); zs = {}
        def zv(v):
            if v not in zs:
                zs[v] = z3.Real(f"v{v}"); s.add(zs[v] >= self.lo[v], zs[v] <= self.hi[v])
            return zs[v]
        e = self.z3form(f, zv)
        for g in extra: s.add(self.z3form(g, zv) >= 0)
        s.add(e >= bound)
        r = s.check() == z3.unsat
        self.time += time.time() - t0
        return r
    def never(self, facts):
        """z3: no variable values satisfy every fact (f, op, bound), op in <, <=, >, >=, =="""
        import time, operator
        t0 = time.time(); self.queries += 1
        s = z3.Solver(); zs = {}
        def zv(v):
            if v not in zs:
                zs[v] = z3.Real(f"v{v}"); s.add(zs[v] >= self.lo[v], zs[v] <= self.hi[v])
            return zs[v]
        O = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq}
        for f, op, b in facts: s.add(O[op](self.z3form(f, zv), z3.RealVal(b)))
        r = s.check() == z3.unsat
        self.time += time.time() - t0
        return r
    def low_zero(self, f):
        """is f = 0 (mod 2^64) forced?  f integral-valued"""
        if self.divisible(f): return True
        for _ in range(3):
            # unfold low halves of constant multiples
            done = False
            for v in sorted(f.c, reverse=True):
                if v in self.constmul:
                    a = f.c[v]
                    if Fraction(a).denominator != 1: continue
                    a = int(a); k, F = self.constmul[v]
                    for b in ((-a * k) % W, (-a * k) % W - W):
                        r = f - Form({v: a}, 0) - F.scale(b)
                        if self.divisible(r) and self.z3_mod(a, k, b): return True
            for v in sorted(f.c, reverse=True):
                if v in self.constmul:
                    a = f.c[v]; k, F = self.constmul[v]
                    if len(F.c) == 1 and F.k == 0 and next(iter(F.c)) in self.constmul and Fraction(a).denominator == 1:
                        f = f - Form({v: a}, 0) + F.scale(a * k); done = True; break
            if not done: return False
        return False
    def divisible(self, f):
        return all(Fraction(x).denominator == 1 and int(x) % W == 0 for x in f.c.values()) and Fraction(f.k).denominator == 1 and int(f.k) % W == 0
    def z3_mod(self, a, k, b):
        """z3 (LIA): for integers C, q: m = k*C - 2^64 q  ->  a*m + b*C is a multiple of 2^64"""
        import time
        t0 = time.time(); self.queries += 1
        s = z3.Solver(); s.set("timeout", 20000)
        C, q, h, l = z3.Ints("C q h l")
        s.add(a * (k * C - W * q) + b * C == W * h + l, l > 0, l < W)
        r = s.check() == z3.unsat
        self.time += time.time() - t0
        return r
    def split(self, f, name="l", force=False):
        """f = lo + 2^64*hi with 0 <= lo < 2^64  ->  (lo form, hi form)"""
        if f.isconst():
            k = int(f.k); return Form({}, k % W), Form({}, k // W)
        lo, hi = self.rng(f)
        if hi < W and not force and self.always_lt(f, W) and (not self.signed or self.always_lt(f.scale(-1), 1)): return f, Form({}, 0)
        if not force and self.low_zero(f): return Form({}, 0), f.scale(Fraction(1, W))
        v = self.newvar(name, 0, W - 1)
        if len(f.c) == 1 and f.k == 0:
            u, x = next(iter(f.c.items()))
            if Fraction(x).denominator == 1: self.constmul[v] = (int(x), Form({u: 1}))
        return Form({v: 1}, 0), (f - Form({v: 1}, 0)).scale(Fraction(1, W))
    def lowmul(self, k, f):
        """low 64 bits of k*f (k constant): (lo, hi) forms"""
        if k == 0: return Form({}, 0), Form({}, 0)
        lo, hi = self.split(f.scale(k), "m")
        if len(lo.c) == 1 and lo.k == 0:
            v = next(iter(lo.c))
            if v == len(self.names) - 1: self.constmul[v] = (k, f)
        return lo, hi
    def mul(self, fa, fb):
        """exact product form (128-bit)"""
        if fa.isconst(): return fb.scale(int(fa.k))
        if fb.isconst(): return fa.scale(int(fb.k))
        if len(fa.c) == 1 and fa.k == 0 and len(fb.c) == 1 and fb.k == 0 and next(iter(fa.c.values())) == 1 and next(iter(fb.c.values())) == 1:
            a, b = sorted((next(iter(fa.c)), next(iter(fb.c))))
            v = self.prod.get((a, b))
            if v is None:
                v = self.prod[(a, b)] = self.newvar(f"{self.names[a]}*{self.names[b]}", self.lo[a] * self.lo[b], self.hi[a] * self.hi[b])
            return Form({v: 1}, 0)
        raise LinError("product of compound values")
    # ---- terms
    def of(self, t):
        """form of a term (exact value as unsigned integer)"""
        if not isT(t): return Form({}, t)
        f = self.form.get(t.id)
        if f is not None: return f
        f = self._of(t); self.form[t.id] = f; self.keep.append(t)
        return f
    def _of(self, t):
        op = t.op; a = t.args
        if op == "concat":
            r = Form({}, 0)
            for k, v in a[0]: r = r.scale(1 << k) + self.of(v)
            return r
        if op == "extract":
            x, l = a[0], a[1]; h = l + t.w - 1
            f = self.of(x)
            if l == 0 and h + 1 >= 64 and self.rng(f)[1] < (1 << (h + 1)): return f
            if l % 64 == 0 and (h + 1 - l) % 64 == 0:
                key = ("split", x.id)
                parts = self.form.get(key)
                if parts is None:
                    parts = []; g = f
                    while len(parts) * 64 < x.w:
                        if x.w == 64 and not parts: lo, g2 = self.split(g); parts.append(lo); g = g2; break
                        lo, g = self.split(g); parts.append(lo)
                    self.form[key] = parts
                r = Form({}, 0)
                for i in range(l // 64, (h + 1) // 64): r = r + parts[i].scale(1 << (64 * (i - l // 64)))
                return r
        if op == "mul":
            x, y = a
            if t.w == 64 and not isT(y): return self.lowmul(y, self.of(x))[0]
            f = self.mul(self.of(x), self.of(y))
            if self.rng(f)[1] < (1 << t.w): return f
            if t.w == 64: return self.split(f)[0]
        if op == "add":
            f = self.of(a[0]) + self.of(a[1])
            if self.rng(f)[1] < (1 << t.w): return f
            if t.w == 64: return self.addsplit(t)[0]
            if t.w == 128 and self.always_lt(f, 1 << 128): return f
        if op == "lshr" and not isT(a[1]) and a[1] % 64 == 0:
            x = a[0]; return self.of(tm.extract(x, x.w - 1, a[1]))
        if op == "shl" and not isT(a[1]):
            f = self.of(a[0]).scale(1 << a[1])
            if self.rng(f)[1] < (1 << t.w): return f
        if op == "ult" and isT(a[0]) and a[0].op == "add" and a[0].w == 64 and any(a[1] is z for z in a[0].args):
            return self.addsplit(a[0])[1]
        if op == "ite" and t.w >= 1:
            pass
        raise LinError(f"no exact form for {op}:{t.w}")
    def addsplit(self, t):
        key = ("addsplit", t.id); r = self.form.get(key)
        if r is None:
            r = self.split(self.of(t.args[0]) + self.of(t.args[1])); self.form[key] = r
        return r
