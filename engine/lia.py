"""Bit-vector terms decided in linear integer arithmetic: every width-w term becomes an integer in [0, 2^w) with exact
definitional constraints (wrap-around, quotient and remainder variables).  Operations that are not linear become
unconstrained integers in range, so an 'unsat' answer is always sound; 'sat' may be spurious."""
import z3, time
from . import terms as tm
isT = tm.isT
class LiaSolver:
    def __init__(self, timeout_ms=60000, real=True):
        """real=True relaxes the integers to reals (bits stay two-valued): 'unsat' remains sound and is much cheaper"""
        self.real = real
        self.s = z3.SolverFor("QF_LRA" if real else "QF_LIA")
        self.s.set("timeout", timeout_ms)
        self.lits = {}; self.cache = {}; self.queries = 0; self.time = 0.0; self.unknown = 0
        self.memo = {}; self.splits = {}; self.prod = {}; self.boo = {}; self.keep = []; self.n = 0; self.inexact = 0; self.mx = {}; self.eqhint = {}
        self.raw = []
    def fresh(self, hi, nm="q"):
        self.n += 1
        if self.real and hi <= 15:
            bs = [z3.If(z3.Bool(f"{nm}{self.n}_{i}"), self.val(1 << i), self.val(0)) for i in range(max(hi, 1).bit_length())]
            v = z3.Sum(bs) if len(bs) > 1 else bs[0]
            if hi & (hi + 1): self.add(v <= hi)
            return v
        v = self.Var(f"{nm}{self.n}")
        self.add(v >= 0, v <= hi)
        return v
    def Var(self, n): return z3.Real(n) if self.real else z3.Int(n)
    def val(self, k): return z3.RealVal(k) if self.real else z3.IntVal(k)
    def lt(self, a, b): return a <= b - 1          # integers
    def add(self, *cs):
        for c in cs: self.s.add(c)
    # ---- integer terms
    def num(self, t):
        if not isT(t): return self.val(t)
        r = self.memo.get(t.id)
        if r is not None: return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo: stack.pop(); continue
            todo = [c for c in tm._children(x) if isT(c) and c.id not in self.memo and (c.w > 1 or x.op in ("concat", "extract", "add", "sub", "mul", "sext", "shl"))]
            if x.op == "ite": todo = [c for c in x.args[1:] if isT(c) and c.id not in self.memo]
            if x.op in ("eq", "ult", "slt", "not1"): todo = []
            if x.w == 1 and x.op in ("and", "or", "xor"): todo = []
            if todo: stack.extend(todo); continue
            stack.pop()
            self.memo[x.id] = self.lower(x); self.keep.append(x)
            self.mx.setdefault(x.id, tm.mask(x.w))
        return self.memo[t.id]
    def bound(self, t): return self.mx.get(t.id, tm.mask(t.w)) if isT(t) else t
    def split(self, t, k):
        """t = q*2^k + r"""
        key = (t.id, k); p = self.prod.get(t.id)
        if p is not None: key = ("p", p, k)
        r = self.splits.get(key)
        if r is None:
            v = self.num(t); m = self.bound(t)
            if k == 0: r = (v, self.val(0), m, 0)
            elif m < 1 << k: r = (self.val(0), v, 0, m)
            else:
                q = self.fresh(m >> k); lo = self.fresh((1 << k) - 1)
                self.add(v == q * (1 << k) + lo)
                if self.real and m >> k > 15: self.add(z3.Or(q <= 0, q >= 1))
                r = (q, lo, m >> k, (1 << k) - 1)
            self.splits[key] = r; self.keep.append(t)
        return r
    def base(self, t):
        """strip zero extension"""
        while t.op == "concat" and len(t.args[0]) == 2 and not isT(t.args[0][0][1]) and t.args[0][0][1] == 0: t = t.args[0][1][1]
        self.keep.append(t)
        return t.id
    def product(self, ia, ib, m):
        """the exact product of two terms (kept symbolic, one variable per unordered pair)"""
        k = (ia, ib, "m"); r = self.splits.get(k)
        if r is None: r = self.splits[k] = self.fresh(max(m, 2), "prod")
        return r
    def prod_of(self, a, b):
        """integer value of a*b for a specification"""
        if not isT(a) or not isT(b): return self.num(a) * b if isT(a) else self.num(b) * a if isT(b) else self.val(a * b)
        self.num(a); self.num(b)
        return self.product(*sorted((self.base(a), self.base(b))), self.bound(a) * self.bound(b))
    def set_max(self, x, m): self.mx[x.id] = min(m, tm.mask(x.w))
    def lower(self, x):
        op, w = x.op, x.w; M = 1 << w
        if op == "var" and w <= 8 and self.real:
            bs = [z3.If(z3.Bool(f"t!{x.args[0]}#{i}"), self.val(1 << i), self.val(0)) for i in range(w)]
            return z3.Sum(bs) if w > 1 else bs[0]
        if op == "var":
            v = self.Var("t!" + str(x.args[0])); self.add(v >= 0, v <= M - 1); return v
        if w == 1 and op in ("eq", "ult", "slt", "not1", "and", "or", "xor"):
            return z3.If(self.bool(x), self.val(1), self.val(0))
        if op == "concat":
            tot = []; sh = 0; mx = 0
            for k, v in reversed(x.args[0]):
                if isT(v): tot.append(self.num(v) * (1 << sh)); mx += self.bound(v) << sh
                elif v: tot.append(self.val(v << sh)); mx += v << sh
                sh += k
            self.set_max(x, mx)
            return z3.Sum(tot) if len(tot) > 1 else tot[0]
        if op == "extract":
            a, lo = x.args
            if lo == 0:
                r = self.split(a, w); self.set_max(x, r[3]); return r[1]
            q, _, mq, _ = self.split(a, lo)
            if mq < M: self.set_max(x, mq); return q
            key = (a.id, lo, w); r = self.splits.get(key)
            if r is None:
                h = self.split(a, lo + w)[0]
                r = self.fresh(M - 1); self.add(r == q - h * M); self.splits[key] = r; self.keep.append(a)
            return r
        if op == "ite":
            a, b = x.args[1], x.args[2]
            self.set_max(x, max(self.bound(a), self.bound(b)))
            return z3.If(self.bool(x.args[0]), self.num(a), self.num(b))
        if op == "sext":
            a = x.args[0]; q, _, mq, _ = self.split(a, a.w - 1)
            return self.num(a) + q * (M - (1 << a.w))
        a, b = x.args; A, B = self.num(a), self.num(b); ma, mb = self.bound(a), self.bound(b)
        if op == "add":
            if ma + mb < M: self.set_max(x, ma + mb); return A + B
            # a + constant meaning subtraction
            if not isT(b) and b >> (w - 1):
                c = self.fresh(1); s = A - (M - b) + M * c; self.add(s >= 0, s <= M - 1); return self.named(s, M)
            c = self.fresh(1); s = A + B - M * c; self.add(s >= 0, s <= M - 1); return self.named(s, M)
        if op == "sub":
            c = self.fresh(1); s = A - B + M * c; self.add(s >= 0, s <= M - 1); return self.named(s, M)
        if op == "mul":
            k, v, mv, v0 = (a, B, mb, b) if not isT(a) else (b, A, ma, a)
            if isT(k):
                ia, ib = sorted((self.base(a), self.base(b)))
                pv = self.product(ia, ib, ma * mb)
                if ma * mb < M: self.set_max(x, ma * mb); self.prod[x.id] = (ia, ib, "m"); return pv
                key = ("p", (ia, ib, "m"), w); r = self.splits.get(key)
                if r is None:
                    q = self.fresh(ma * mb // M); lo = self.fresh(M - 1, "w"); self.add(pv == q * M + lo)
                    r = self.splits[key] = (q, lo, ma * mb // M, M - 1)
                return r[1]
            if mv * k < M: self.set_max(x, mv * k); self.prod[x.id] = (self.base(v0), k); return v * k
            key = ("p", (self.base(v0), k), w); r = self.splits.get(key)
            if r is None:
                q = self.fresh(mv * k // M); lo = self.fresh(M - 1, "w"); self.add(lo == v * k - M * q)
                r = self.splits[key] = (q, lo, mv * k // M, M - 1)
            return r[1]
        if op in ("udiv", "urem") and not isT(b) and b:
            key = (a.id, "div", b); r = self.splits.get(key)
            if r is None:
                q = self.fresh(ma // b); rr = self.fresh(b - 1); self.add(A == q * b + rr); r = self.splits[key] = (q, rr); self.keep.append(a)
            if op == "udiv": self.set_max(x, ma // b); return r[0]
            self.set_max(x, min(ma, b - 1)); return r[1]
        if op == "lshr" and not isT(b):
            if b >= w: return self.val(0)
            q, _, mq, _ = self.split(a, b); self.set_max(x, mq); return q
        if op == "shl" and not isT(b):
            if b >= w: return self.val(0)
            if ma << b < M: self.set_max(x, ma << b); return A * (1 << b)
            key = (a.id, "low", w - b)
            _, lo, _, ml = self.split(a, w - b); return lo * (1 << b)
        if op == "and":
            k, t = (a, b) if not isT(a) else (b, a)
            if not isT(k):
                lo = (k & -k).bit_length() - 1; n = (k >> lo)
                if n & (n + 1) == 0:
                    e = tm.extract(t, lo + n.bit_length() - 1, lo)
                    return self.num(e) * (1 << lo)
            self.inexact += 1; self.set_max(x, min(ma, mb)); return self.fresh(min(ma, mb), "nl")
        if op in ("or", "xor") and isT(a) and isT(b) and ma <= 1 and mb <= 1:
            p, q = (self.bool(tm.extract(y, 0, 0)) for y in (a, b)); self.set_max(x, 1)
            return z3.If(z3.Or(p, q) if op == "or" else z3.Xor(p, q), self.val(1), self.val(0))
        self.inexact += 1
        return self.fresh(M - 1, "nl")
    def named(self, s, M):
        v = self.fresh(M - 1, "w"); self.add(v == s); return v
    # ---- booleans
    def bool(self, t):
        if not isT(t): return z3.BoolVal(bool(t))
        r = self.boo.get(t.id)
        if r is not None: return r
        op = t.op
        if op == "not1": r = z3.Not(self.bool(t.args[0]))
        elif op == "and": r = z3.And(*[self.bool(x) for x in t.args])
        elif op == "or": r = z3.Or(*[self.bool(x) for x in t.args])
        elif op == "xor": r = z3.Xor(*[self.bool(x) for x in t.args])
        elif op == "ite": r = z3.If(self.bool(t.args[0]), self.bool(t.args[1]), self.bool(t.args[2]))
        elif op in ("eq", "ult", "slt"):
            a, b = t.args; w = a.w if isT(a) else b.w
            if w == 1 and op == "eq": r = self.bool(a) == self.bool(b)
            elif w == 1: r = z3.And(z3.Not(self.bool(a)), self.bool(b))
            else:
                A, B = self.num(a), self.num(b)
                if op == "eq": r = A == B
                elif op == "ult": r = A <= B - 1
                else:
                    H = 1 << (w - 1)
                    def sg(v, x):
                        if not isT(x): return self.val(tm.sgn(x, w))
                        return v if self.bound(x) < H else z3.If(v >= H, v - 2 * H, v)
                    r = sg(A, a) <= sg(B, b) - 1
        else: r = self.num(t) == 1
        bl = z3.Bool(f"$b{t.id}")
        if self.real and op == "ult": self.add(z3.If(bl, A <= B - 1, A >= B))
        elif self.real and op == "eq" and w > 1: self.add(z3.If(bl, A == B, z3.Or(A <= B - 1, A >= B + 1)))
        elif self.real and op == "slt" and w > 1: self.add(z3.If(bl, sg(A, a) <= sg(B, b) - 1, sg(A, a) >= sg(B, b)))
        else: self.add(bl == r); self.keep.append(t)
        self.boo[t.id] = bl
        return bl
    def lit(self, t): return self.bool(t)
    def sat(self, conds):
        cs = []
        for c in conds:
            if not isT(c):
                if not c: return "unsat"
                continue
            cs.append(c)
        key = frozenset(c.id for c in cs)
        r = self.cache.get(key)
        if r is None:
            ls = [self.bool(c) for c in cs]
            t0 = time.time(); self.queries += 1
            r = str(self.s.check(*ls)); self.time += time.time() - t0
            if r == "unknown": self.unknown += 1
            else: self.cache[key] = r; self.keep += cs
        return r
    def model(self, conds):
        ls = [self.bool(c) for c in conds if isT(c)]
        self.queries += 1; t0 = time.time(); r = str(self.s.check(*ls)); self.time += time.time() - t0
        if r != "sat": return None
        m = self.s.model(); out = {}
        for d in m.decls():
            if d.name().startswith("t!"):
                v = m[d]
                if "#" in d.name():
                    nm, i = d.name()[2:].rsplit("#", 1); out[nm] = out.get(nm, 0) | (int(z3.is_true(v)) << int(i)); continue
                out[d.name()[2:]] = int(v.as_fraction()) if self.real else v.as_long()
        return out
    def check_extra(self, conds, *extra):
        """conjunction of terms and z3 integer constraints"""
        ls = [self.bool(c) for c in conds if isT(c)] + list(extra)
        t0 = time.time(); self.queries += 1
        r = str(self.s.check(*ls)); self.time += time.time() - t0
        return r
