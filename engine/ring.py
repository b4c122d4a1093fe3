"""Value domain for base-field elements: polynomials over F_p (with the imaginary unit u as variable 0).

A field element in memory is an opaque 384-bit term X with X.dom = Elem(poly, bound): the raw integer
is < bound*p and its value raw*R^-1 mod p equals poly.  Elements of Fp2 use a variable pair A, conj(A):
their coordinates are (A + A~)/2 and (A - A~)/(2u)."""
import random, time
import z3
from . import terms as tm
from .exec import *
P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
Q = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
R = pow(2, 384, P); RI = pow(R, -1, P)
SH = 10; EM = (1 << SH) - 1
U1 = 1                      # monomial u
I2 = pow(2, -1, P)

class Elem:
    __slots__ = ("p", "b")
    def __init__(s, p, b): s.p = p; s.b = b

def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None: r[m] = c
        else:
            v += c
            if v >= P: v -= P
            if v: r[m] = v
            else: del r[m]
    return r
def pneg(a): return {m: P - c for m, c in a.items()}
def psub(a, b): return padd(a, pneg(b))
def pscale(a, k):
    k %= P
    if k == 0: return {}
    return {m: c * k % P for m, c in a.items()}
def pmul(a, b):
    if not a or not b: return {}
    if len(a) < len(b): a, b = b, a
    r = {}; get = r.get
    for mb, cb in b.items():
        for ma, ca in a.items():
            m = ma + mb
            r[m] = get(m, 0) + ca * cb
    out = {}
    for m, c in r.items():
        if m & 2:           # u^2 = -1 (exponent of u is 0, 1 or 2 here)
            m -= 2; c = -c
            v = (out.get(m, 0) + c) % P
        else:
            v = (out.get(m, 0) + c) % P
        if v: out[m] = v
        elif m in out: del out[m]
    return out
def ppow(a, n):
    r = {0: 1}
    while n:
        if n & 1: r = pmul(r, a)
        a = pmul(a, a) if n > 1 else a
        n >>= 1
    return r
def pconst(c):
    c %= P
    return {0: c} if c else {}
def pkey(a): return frozenset(a.items())
def monic(a):
    """scale so that the largest monomial has coefficient 1 -> (monic poly, factor)"""
    if not a: return a, 1
    m = max(a); k = a[m]
    if k == 1: return a, 1
    i = pow(k, -1, P)
    return {mm: c * i % P for mm, c in a.items()}, k
def exps(m):
    i = 0
    while m:
        e = m & EM
        if e: yield i, e
        m >>= SH; i += 1
def pexp_of(m, i): return m >> (SH * i) & EM
def pdivexact(a, b):
    """a / b if exact (lexicographic multivariate division), else None; b must not contain u"""
    if not b: return None
    lb = max(b); cb = pow(b[lb], -1, P)
    q = {}; r = dict(a)
    import heapq
    steps = 0
    while r:
        lr = max(r)
        # divisibility
        d = 0; ok = True; x = lr; y = lb; sh = 0
        while y or x:
            ex = x & EM; ey = y & EM
            if ex < ey: ok = False; break
            d |= (ex - ey) << sh; x >>= SH; y >>= SH; sh += SH
        if not ok: return None
        c = r[lr] * cb % P
        q[d] = c
        for m, k in b.items():
            mm = m + d
            v = (r.get(mm, 0) - k * c) % P
            if v: r[mm] = v
            else: r.pop(mm, None)
        steps += 1
        if steps > 20000: return None
    return q

class Ring:
    def __init__(self, ex):
        self.ex = ex; ex.ring = self
        self.names = ["u"]; self.conj = [0]
        self.bykey = {}          # canonical polynomial -> term
        self.inv = {}            # var index -> poly whose inverse it is
        self.invkey = {}
        self.sq = {}             # var index -> poly (var^2 = poly)
        self.termvar = {}        # var index -> raw term (free variables)
        self.factors = []        # polynomials known to be interesting factors
        self.linked = set()
        self.queries = 0; self.qtime = 0.0
        self.calls = {}
        self.strict = True
        self.maxterms = 60000
        self.known = []          # raw terms a value may turn out to be equal to (inputs)
        ex.merge_val = self.merge_veto
        ex.decide = self.decide
        for d, h in L0.items():
            n = ex.mod.bydem.get(d)
            if n: ex.hooks[n] = h
    # ---- variables
    def newvar(self, name, conj=None):
        i = len(self.names); self.names.append(name); self.conj.append(i if conj is None else conj)
        return i
    def var(self, i): return {1 << (SH * i): 1}
    def fpvar(self, name):
        """a free base-field variable: canonical raw term -> (term, poly)"""
        i = self.newvar(name); p = self.var(i)
        t = self.term(p)
        self.termvar[i] = t
        return t, p
    def fp2var(self, name):
        i = self.newvar(name); j = self.newvar(name + "~"); self.conj[i] = j; self.conj[j] = i
        return self.var(i)
    def realpart(self, p): return pscale(padd(p, self.pconj(p)), I2)
    def imagpart(self, p):
        # (p - conj p) / (2u) = (conj p - p) * u / 2
        return pscale(pmul(psub(self.pconj(p), p), {U1: 1}), I2)
    def pconj(self, p):
        out = {}
        cj = self.conj
        for m, c in p.items():
            n = m & EM
            if n: c = P - c
            x = m >> SH; i = 1
            while x:
                e = x & EM
                if e: n += e << (SH * cj[i])
                x >>= SH; i += 1
            out[n] = c
        return out
    def term(self, p, bound=1):
        """the canonical raw term with value p"""
        if not p: return 0
        if len(p) == 1 and 0 in p: return p[0] * R % P
        k = pkey(p)
        t = self.bykey.get(k)
        if t is None:
            t = tm.fresh("X", 384); t.dom = Elem(p, 1)
            self.bykey[k] = t
            self.ex.solver.s.add(z3.ULT(tm.z(t), z3.BitVecVal(P, 384)))
            n = self.bykey.get(pkey(pneg(p)))
            if n is not None:
                self.ex.solver.s.add(tm.z(t) == z3.If(tm.z(n) == 0, z3.BitVecVal(0, 384), z3.BitVecVal(P, 384) - tm.z(n)))
        return t
    def lazy(self, p, bound):
        t = tm.fresh("L", 384); t.dom = Elem(p, bound)
        self.ex.solver.s.add(z3.ULT(z3.ZeroExt(8, tm.z(t)), z3.BitVecVal(bound * P, 392)))
        return t
    def elem(self, st, v):
        """raw value (int or term) -> Elem"""
        if not tm.isT(v):
            return Elem(pconst(v * RI), v // P + 1)
        if v.dom is not None: return v.dom
        return self.adopt(st, v)
    def adopt(self, st, v):
        """an arbitrary 384-bit term: introduce a field variable for its value"""
        if v.op == "ite": raise Unsupported("field element merged from two paths")
        for k in self.known:
            if k is v or k.op != "var" or set(tm.variables([v])) != set(tm.variables([k])): continue
            if self.ex.solver.sat([tm.not_(tm.eq(384, v, k))]) == "unsat":
                v.dom = self.elem(st, k); return v.dom
        for bound in (1, 2, 4, 8, 10):
            lim = bound * P
            if lim >= 1 << 384: break
            c = tm.not_(tm.ult(384, v, lim))
            if self.ex.solver.sat(list(st.pc) + [c]) == "unsat": break
        i = self.newvar("raw%d" % v.id)
        v.dom = Elem(self.var(i), bound); self.termvar[i] = v
        if bound == 1: self.bykey.setdefault(pkey(v.dom.p), v)
        return v.dom
    # ---- merging / branching
    def merge_veto(self, ex, w, c, a, b):
        for x in (a, b):
            if tm.isT(x) and dommed(x): raise Unsupported("field element merge")
        return None
    def decide(self, st, c):
        c2 = self.rewrite(c)
        return c2
    def rewrite(self, c):
        """equalities between field elements -> equalities of a monic difference with 0"""
        if not tm.isT(c): return c
        if c.op == "not1": return tm.not_(self.rewrite(c.args[0]))
        if c.op in ("and", "or") and c.w == 1:
            f = tm.and_ if c.op == "and" else tm.or_
            return f(1, self.rewrite(c.args[0]), self.rewrite(c.args[1]))
        if c.op == "eq":
            a, b = c.args
            w = a.w if tm.isT(a) else b.w
            if w == 384:
                return self.eqterm(a, b)
            self.link(a, b)
        if c.op == "ult": self.link(*c.args)
        return c
    def base(self, t):
        if not tm.isT(t): return None
        while t.op == "extract": t = t.args[0]
        return t if t.w == 384 and t.dom is not None else None
    def link(self, a, b):
        x, y = self.base(a), self.base(b)
        if x is not None and y is not None and x is not y and x.dom.b == 1 and y.dom.b == 1:
            k = (min(x.id, y.id), max(x.id, y.id))
            if k in self.linked: return
            self.linked.add(k)
            e = self.eqterm(x, y)
            self.ex.solver.s.add((tm.z(x) == tm.z(y)) == tm.zb(e))
        for q in (x, y):
            if q is not None and q.dom.b == 1 and ("z", q.id) not in self.linked:
                self.linked.add(("z", q.id))
                e = self.eqterm(q, 0)
                if tm.isT(e): self.ex.solver.s.add((tm.z(q) == 0) == tm.zb(e))
    def eqterm(self, a, b):
        st = self.ex.base
        if tm.isT(a) and a.dom is None and a.op == "ite": return tm.eq(384, a, b)
        if tm.isT(b) and b.dom is None and b.op == "ite": return tm.eq(384, a, b)
        if (tm.isT(a) and a.dom is None) or (tm.isT(b) and b.dom is None): return tm.eq(384, a, b)
        ea = self.elem(st, a); eb = self.elem(st, b)
        if ea.b != 1 or eb.b != 1: return tm.eq(384, a, b)
        d = psub(ea.p, eb.p)
        return self.zero_atom(d)
    def zero_atom(self, d):
        """term for 'd == 0' (d self-conjugate)"""
        d = self.clear(d)
        d, _ = monic(d)
        if not d: return 1
        if len(d) == 1 and 0 in d: return 0
        if len(d) == 1:
            vs = list(exps(next(iter(d))))
            if len(vs) == 1 and vs[0][1] == 1 and self.conj[vs[0][0]] > vs[0][0] and ("c", vs[0][0]) not in self.linked:
                # an Fp2 element vanishes iff both coordinates do
                self.linked.add(("c", vs[0][0]))
                a = self.zero_atom(d); re = self.zero_atom(self.realpart(d)); im = self.zero_atom(self.imagpart(d))
                self.ex.solver.s.add(tm.zb(a) == z3.And(tm.zb(re), tm.zb(im)))
        # factor out known factors
        fs = []
        rest = d
        if len(d) == 1:
            m = next(iter(d))
            vs = [i for i, e in exps(m)]
            if len(vs) > 1 or pexp_of(m, vs[0]) > 1:
                return tm.or_all([self.zero_atom(self.var(i)) for i in vs])
            if vs[0] in self.inv: return 0
            if self.conj[vs[0]] < vs[0]: return self.zero_atom(self.var(self.conj[vs[0]]))
        else:
            # common monomial
            g = None
            for m in d:
                e = dict(exps(m))
                g = e if g is None else {i: min(g[i], e[i]) for i in g if i in e}
            if g:
                mm = sum(e << (SH * i) for i, e in g.items())
                rest = {m - mm: c for m, c in d.items()}
                fs = [self.zero_atom(self.var(i)) for i in g if i != 0]
            for f in self.factors:
                while len(rest) > 1:
                    if len(f) == 1: break
                    q = pdivexact(rest, f)
                    if q is None: break
                    rest = q; fs.append(tm.eq(384, self.term(monic(f)[0]), 0))
            if not (len(rest) == 1 and 0 in rest):
                rest, _ = monic(rest)
                if fs: fs.append(self.zero_atom(rest))
                else: return tm.eq(384, self.term(rest), 0)
            return tm.or_all(fs)
        return tm.eq(384, self.term(d), 0)
    def factor(self, p): self.factors.append(monic(p)[0])
    # ---- relations
    def norm(self, p):
        """apply var^2 = poly relations (square-root and curve variables)"""
        for i in sorted(self.sq, reverse=True):
            s = SH * i
            while any((m >> s & EM) > 1 for m in p):
                lo = {}; hi = {}
                for m, c in p.items():
                    e = m >> s & EM
                    if e > 1: hi.setdefault(e // 2, {})[m - ((e // 2 * 2) << s)] = c
                    else: lo[m] = c
                r = lo
                for k, q in hi.items(): r = padd(r, pmul(q, ppow(self.sq[i], k)))
                p = r
        return p
    def clear(self, p):
        """eliminate inverse variables (w*a = 1) by clearing denominators; valid since a != 0"""
        p = self.norm(p)
        for i in sorted(self.inv, reverse=True):
            s = SH * i
            d = max([m >> s & EM for m in p], default=0)
            if not d: continue
            parts = {}
            for m, c in p.items():
                e = m >> s & EM
                parts.setdefault(e, {})[m - (e << s)] = c
            a = self.inv[i]; r = {}
            for e, q in parts.items(): r = padd(r, pmul(q, ppow(a, d - e)))
            p = self.norm(r)
        return p
    def facts(self, st):
        """polynomials known to be zero on this path (from the path condition)"""
        out = []
        def leaves(c, op):
            if tm.isT(c) and c.op == op and c.w == 1:
                for x in c.args: yield from leaves(x, op)
            else: yield c
        def visit(c):
            if not tm.isT(c): return
            if c.op == "and" and c.w == 1:
                for x in leaves(c, "and"): visit(x)
            elif c.op == "not1" and tm.isT(c.args[0]) and c.args[0].op == "or":
                for x in leaves(c.args[0], "or"): visit(tm.not_(x))
            elif c.op == "or" and c.w == 1:
                ok = [x for x in leaves(c, "or") if self.ex.solver.sat(list(st.pc) + [x]) != "unsat"]
                if len(ok) == 1: visit(ok[0])
            elif c.op == "eq" and (not tm.isT(c.args[1])) and tm.isT(c.args[0]) and c.args[0].w == 384 and c.args[0].dom is not None:
                out.append(psub(c.args[0].dom.p, pconst(c.args[1] * RI)))
        for c in st.pc: visit(c)
        if len(out) > 1:
            fs = [self.clear(f) for f in out]
            for f in self.rref(fs + [self.pconj(f) for f in fs]):
                if len({m & ~U1 for m in f}) != 1: continue
                m = next(iter(f)) & ~U1
                vs = [i for i, e in exps(m)]
                if len(vs) < 2: continue
                can = [i for i in vs if i not in self.inv and self.ex.solver.sat(list(st.pc) + [self.zero_atom(self.var(i))]) != "unsat"]
                if not can: return [{0: 1}]           # contradiction: the path is infeasible
                if len(can) == 1: out.append(self.var(can[0]))
        return out
    def subst(self, p, i, val):
        """replace variable i by polynomial val"""
        s = SH * i
        parts = {}
        for m, c in p.items():
            e = m >> s & EM
            parts.setdefault(e, {})[m - (e << s)] = c
        r = {}
        for e, q in parts.items(): r = padd(r, q if e == 0 else pmul(q, ppow(val, e)))
        return r
    def rref(self, facts):
        """reduced row echelon form of the facts over F_p[u] (u^2 = -1)"""
        rows = []
        for f in facts:
            g = {}
            for m, c in f.items():
                a, b = g.get(m & ~U1, (0, 0))
                g[m & ~U1] = (a, (b + c) % P) if m & U1 else ((a + c) % P, b)
            for lead, row in rows:
                if lead in g: g = _c2sub(g, row, g[lead])
            if not g: continue
            lead = max(g); n = g[lead]; d = pow(n[0] * n[0] + n[1] * n[1], -1, P); inv = (n[0] * d % P, -n[1] * d % P)
            row = {m: c2mul(c, inv) for m, c in g.items()}
            rows = [(l, _c2sub(r, row, r[lead]) if lead in r else r) for l, r in rows] + [(lead, row)]
        out = []
        for lead, row in sorted(rows, key=lambda x: x[0]):
            f = {}
            for m, (a, b) in row.items():
                if a: f[m] = a
                if b: f[m | U1] = b
            out.append(f)
        return out
    def is_zero_under(self, p, facts):
        """decide p == 0 given facts == 0 (sound, incomplete)"""
        p = self.clear(p)
        if self.solver_zero(p): return True
        if not facts: return False
        fs = [self.clear(f) for f in facts]
        fs = self.rref(fs + [self.pconj(f) for f in fs])
        n = 0
        while n < len(fs):
            f = fs[n]; n += 1
            if not f: continue
            if not any(m & ~U1 for m in f): return True   # a non-zero constant is zero: infeasible path
            # linear with a constant coefficient in some variable -> substitute
            for i, e in sorted({ie for m in f for ie in exps(m)}, reverse=True):
                if i == 0 or e != 1: continue
                co = {m: c for m, c in f.items() if pexp_of(m, i)}
                if all(m & ~U1 == 1 << (SH * i) for m in co):
                    a = co.get(1 << (SH * i), 0); b = co.get(1 << (SH * i) | U1, 0)
                    d = pow(a * a + b * b, -1, P)
                    k = {}
                    if a: k[0] = a * d % P
                    if b: k[U1] = -b * d % P
                    rest = {m: c for m, c in f.items() if m not in co}
                    val = pneg(pmul(rest, k))
                    p = self.clear(self.subst(p, i, val))
                    fs = self.rref([self.clear(self.subst(g, i, val)) for g in fs])
                    n = 0
                    break
            if self.solver_zero(p): return True
        for f in fs:
            if f and pdivexact(p, f) is not None: return True
        return False
    def solver_zero(self, p):
        """z3 decides that the linear combination of monomials vanishes mod p"""
        self.queries += 1; t0 = time.time()
        if len(p) > 400:
            r = False
        else:
            s = z3.Solver(); s.set("timeout", 20000)
            k = z3.Int("k"); r_ = z3.Int("r")
            tot = z3.Sum([z3.IntVal(c) * z3.Int(f"m{m}") for m, c in p.items()]) if p else z3.IntVal(0)
            s.add(tot == P * k + r_, r_ > 0, r_ < P)
            r = s.check() == z3.unsat
        self.qtime += time.time() - t0
        return r
    # ---- evaluation
    def evalp(self, p, env):
        """env: var index -> (re, im); result (re, im)"""
        a = b = 0
        cache = {}
        for m, c in p.items():
            x, y = c, 0
            for i, e in exps(m):
                if i == 0: x, y = -y, x; continue
                k = (i, e)
                v = cache.get(k)
                if v is None:
                    v = c2pow(env[i], e); cache[k] = v
                x, y = (x * v[0] - y * v[1]) % P, (x * v[1] + y * v[0]) % P
            a += x; b += y
        return a % P, b % P

def _c2sub(g, row, k):
    """g - k*row over F_p[u] coefficients"""
    g = dict(g)
    for m, c in row.items():
        x = c2mul(c, k); o = g.get(m, (0, 0)); v = ((o[0] - x[0]) % P, (o[1] - x[1]) % P)
        if v == (0, 0): g.pop(m, None)
        else: g[m] = v
    return g
def c2mul(a, b): return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)
def c2pow(a, n):
    r = (1, 0)
    while n:
        if n & 1: r = c2mul(r, a)
        a = c2mul(a, a); n >>= 1
    return r

def dommed(t):
    while t.op == "extract": t = t.args[0]
    return t.dom is not None

# ---------------------------------------------------------------- contracts of the limb primitives (proved by C01/C02)
class Pre(Exception): pass
def _rd(ex, st, p):
    v = ex.read_int(st, p, 48)
    return v
def _wr(ex, st, p, v):
    return ex.write_int(st, p, 48, v)
def _binary(name, f, canonical=True):
    def h(ex, st, args, fn):
        rg = ex.ring
        rg.calls[name] = rg.calls.get(name, 0) + 1
        vs = []
        for a in args[1:]:
            v = _rd(ex, st, a)
            if v is None: return []
            vs.append(v)
        if all(not tm.isT(v) for v in vs):
            r = conc(name, vs)
            if r is None:
                ex.err(st, "precond", (name, [hex(v) for v in vs])); return []
        else:
            es = []
            for v in vs: es.append(rg.elem(st, v))
            if canonical and any(e.b != 1 for e in es):
                ex.err(st, "precond", (name, [e.b for e in es])); return []
            r = f(rg, ex, st, es, vs, name)
            if r is None: return []
        if not _wr(ex, st, args[0], r): return []
        return None
    return h
def conc(name, vs):
    M = 1 << 384
    if name in ("_add", "_double", "_subtract", "_negate", "__negate"):
        if any(v >= P for v in vs): return None
    if name == "_add": return (vs[0] + vs[1]) % P
    if name == "_double": return 2 * vs[0] % P
    if name == "_subtract": return (vs[0] - vs[1]) % P
    if name in ("_negate",): return -vs[0] % P
    if name == "__negate": return P - vs[0]
    if name in ("_multiply", "_square"):
        a, b = vs if name == "_multiply" else (vs[0], vs[0])
        if (a * b >= 9 * P * P or max(a, b) >= 4 * P) and min(a, b) >= P: return None
        return a * b * RI % P
    if name == "_ladd": return None if vs[0] + vs[1] >= M else vs[0] + vs[1]
    if name == "_ldouble": return None if 2 * vs[0] >= M else 2 * vs[0]
    if name == "_lsubtract": return None if vs[0] < vs[1] else vs[0] - vs[1]
def _c_add(rg, ex, st, es, vs, nm): return rg.term(padd(es[0].p, es[1].p))
def _c_dbl(rg, ex, st, es, vs, nm): return rg.term(pscale(es[0].p, 2))
def _c_sub(rg, ex, st, es, vs, nm): return rg.term(psub(es[0].p, es[1].p))
def _c_neg(rg, ex, st, es, vs, nm): return rg.term(pneg(es[0].p))
def _mulcheck(rg, ex, st, a, b, nm):
    if not (a.b <= 4 and b.b <= 4 and a.b * b.b <= 9 or a.b <= 10 and b.b <= 1 or a.b <= 1 and b.b <= 10):
        ex.err(st, "precond", (nm, [a.b, b.b])); return None
    p = rg.norm(pmul(a.p, b.p))
    if len(p) > rg.maxterms: raise Budget(f"polynomial with {len(p)} terms")
    return rg.term(p)
def _c_mul(rg, ex, st, es, vs, nm): return _mulcheck(rg, ex, st, es[0], es[1], nm)
def _c_sqr(rg, ex, st, es, vs, nm): return _mulcheck(rg, ex, st, es[0], es[0], nm)
def _c_ladd(rg, ex, st, es, vs, nm):
    b = es[0].b + es[1].b
    if b * P >= 1 << 384: ex.err(st, "precond", (nm, [e.b for e in es])); return None
    return rg.lazy(padd(es[0].p, es[1].p), b)
def _c_ldbl(rg, ex, st, es, vs, nm):
    b = 2 * es[0].b
    if b * P >= 1 << 384: ex.err(st, "precond", (nm, [e.b for e in es])); return None
    return rg.lazy(pscale(es[0].p, 2), b)
def _c_lsub(rg, ex, st, es, vs, nm):
    # exact only when x >= y: prove it
    bad = tm.ult(384, vs[0], vs[1])
    if tm.isT(bad) and ex.solver.sat(list(st.pc) + [bad]) != "unsat" or (not tm.isT(bad) and bad):
        ex.err(st, "precond", (nm, "possible underflow")); return None
    return rg.lazy(psub(es[0].p, es[1].p), es[0].b)
_f = "bls12_381::fp"
L0 = {}
def _reg(nm, n, f, canonical):
    sig = f"bls12_381::{nm}({_f}*" + f", {_f} const*" * n + ")"
    L0[sig] = _binary(nm, f, canonical)
_reg("_add", 2, _c_add, True); _reg("_double", 1, _c_dbl, True); _reg("_subtract", 2, _c_sub, True)
_reg("_negate", 1, _c_neg, True); _reg("_multiply", 2, _c_mul, False); _reg("__multiply", 2, _c_mul, False); _reg("_square", 1, _c_sqr, False)
_reg("_ladd", 2, _c_ladd, False); _reg("_ldouble", 1, _c_ldbl, False); _reg("_lsubtract", 2, _c_lsub, False)
L0["bls12_381::__mul_ex(bls12_381::fp*, bls12_381::fp const*, bls12_381::fp const*)"] = _binary("_multiply", _c_mul, False)

# ---------------------------------------------------------------- fp-level contracts (proved by C03)
def h_isZero(ex, st, args, fn):
    v = _rd(ex, st, args[0])
    if v is None: return []
    return tm.isT(v) and ex.ring.eqterm(v, 0) if tm.isT(v) else int(v == 0)
def h_equal(ex, st, args, fn):
    a, b = _rd(ex, st, args[0]), _rd(ex, st, args[1])
    if a is None or b is None: return []
    if not tm.isT(a) and not tm.isT(b): return int(a == b)
    return ex.ring.eqterm(a, b)
def h_isOne(ex, st, args, fn):
    a = _rd(ex, st, args[0])
    if a is None: return []
    if not tm.isT(a): return int(a == R)
    return ex.ring.eqterm(a, R)
def fork_on(ex, st, c):
    """-> [(state, bool)] feasible sides of condition c"""
    if not tm.isT(c): return [(st, bool(c))]
    out = []
    y = ex.solver.sat(list(st.pc) + [c]) != "unsat"
    n = ex.solver.sat(list(st.pc) + [tm.not_(c)]) != "unsat"
    if y and n:
        s2 = st.fork()
        st.pc += (c,); s2.pc += (tm.not_(c),)
        return [(st, True), (s2, False)]
    return [(st, True)] if y else [(st, False)]
def h_inverse(ex, st, args, fn):
    """fp fp::inverse() const  (sret, this)"""
    rg = ex.ring
    rg.calls["inverse"] = rg.calls.get("inverse", 0) + 1
    v = _rd(ex, st, args[1])
    if v is None: return []
    if not tm.isT(v):
        _wr(ex, st, args[0], 0 if v % P == 0 else pow(v, -1, P) * R * R % P); return None
    e = rg.elem(st, v)
    if e.b != 1: ex.err(st, "precond", ("inverse", e.b)); return []
    out = []
    for s, z in fork_on(ex, st, rg.zero_atom(e.p)):
        if z: _wr(ex, s, args[0], 0)
        else: _wr(ex, s, args[0], rg.term(rg.inverse_of(e.p)))
        out.append((s, None))
    return out
def _inverse_of(self, p):
    m, k = monic(self.norm(p))
    if len(m) == 1:
        # inverse of a single inverse variable is the original
        mm = next(iter(m)); vs = list(exps(mm))
        if len(vs) == 1 and vs[0][1] == 1 and vs[0][0] in self.inv:
            return pscale(self.inv[vs[0][0]], pow(k, -1, P))
    key = pkey(m)
    i = self.invkey.get(key)
    if i is None:
        i = self.newvar(f"inv{len(self.inv)}"); self.inv[i] = m; self.invkey[key] = i
    return pscale(self.var(i), pow(k, -1, P))
Ring.inverse_of = _inverse_of
FPH = {"bls12_381::fp::isZero() const": h_isZero, "bls12_381::fp::equal(bls12_381::fp const&) const": h_equal,
       "bls12_381::fp::isOne() const": h_isOne, "bls12_381::fp::inverse() const": h_inverse}
def install(ex, table):
    for d, h in table.items():
        n = ex.mod.bydem.get(d)
        if n: ex.hooks[n] = h
