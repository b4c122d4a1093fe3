"""Binary (Kaliski) inversion: values that are integers and field elements at the same time.  Integer facts are polynomials over
named integers; z3 decides them over the monomials (linear integer arithmetic) with valid product inequalities added."""
import z3, math
from . import terms as tm
from .exec import *
from .ref import *
from .ring import Elem, padd, psub, pmul, pscale, pneg, pconst, pkey, _rd, _wr
from .cut import sccs
from .check import Inconclusive
INV2 = pow(2, -1, P)
# ---- integer polynomials {sorted tuple of names: coefficient}
def iadd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def imul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
def ic(k): return {(): k} if k else {}
def iv(n): return {(n,): 1}
def isubst(p, n, q):
    if not any(n in m for m in p): return p
    r = {}
    for m, c in p.items():
        t = {tuple(x for x in m if x != n): c}
        for _ in range(m.count(n)): t = imul(t, q)
        r = iadd(r, t)
    return r
class Facts:
    """conjunction of p >= 0 / p == 0 and implications, with variables already eliminated by substitution"""
    __slots__ = ("ge", "imp", "sub", "pos")
    def __init__(s, ge=(), imp=(), sub=(), pos=()): s.ge = ge; s.imp = imp; s.sub = sub; s.pos = pos
    def norm(s, p):
        for n, q in s.sub: p = isubst(p, n, q)
        return p
    def more(s, ge=(), imp=(), pos=()): return Facts(s.ge + tuple(ge), s.imp + tuple(imp), s.sub, s.pos + tuple(pos))
    def eq0(s, p):
        p = s.norm(p); g = 0
        for c in p.values(): g = math.gcd(g, c)
        if g > 1: p = {m: c // g for m, c in p.items()}
        for m, c in p.items():
            if len(m) == 1 and abs(c) == 1 and not any(m[0] in x for x in p if x != m):
                q = {x: -k * c for x, k in p.items() if x != m}
                return Facts(s.ge, s.imp, s.sub + ((m[0], q),), s.pos)
        return s.more(ge=(p, {m: -c for m, c in p.items()}))
class IntDom:
    """hooks of the raw fp operations over integers; st.user = Facts"""
    def __init__(self, ctx, ex):
        self.ctx = ctx; self.ex = ex; self.rg = ex.ring; self.iv = {}; self.keep = []; self.n = 0; self.memo = {}
        f = "bls12_381::fp"; c = f"{f} const&"; pc = f"{f} const*"
        H = {f"{f}::isZero() const": self.h_isZero, f"{f}::isEven() const": lambda ex, st, a, fn: self.parity(st, a[0], 1, 0), f"{f}::isOdd() const": lambda ex, st, a, fn: self.parity(st, a[0], 0, 1),
             f"{f}::cmp({c}) const": self.h_cmp, f"{f}::equal({c}) const": self.h_eq, f"{f}::div2(unsigned long const&)": self.h_div2, f"{f}::mul2()": self.h_mul2,
             f"bls12_381::_lsubtract({f}*, {pc}, {pc})": self.h_lsub, f"bls12_381::_ladd({f}*, {pc}, {pc})": self.h_ladd, f"bls12_381::_ldouble({f}*, {pc})": self.h_ldbl}
        for d, h in H.items():
            n = ex.mod.bydem.get(d)
            if n: ex.hooks[n] = h
    def fresh(self, nm): self.n += 1; return f"{nm}{self.n}"
    # ---- values
    def new(self, st, p, poly):
        """raw value with integer p and field value poly"""
        p = st.user.norm(p)
        if not set(p) - {()} and pkey(poly) == pkey(pconst(p.get((), 0) * RI)): return p.get((), 0)
        b = next((b for b in (1, 2, 4, 8) if self.holds(st, iadd(ic(b * P - 1), p, -1))), 10)
        t = tm.fresh("K", 384); t.dom = Elem(poly, b); self.iv[t.id] = p; self.keep.append(t); return t
    def val(self, st, ptr):
        v = _rd(self.ex, st, ptr)
        if v is None: raise Unsupported("unreadable field element")
        if not tm.isT(v): return v, ic(v), pconst(v * RI)
        e = self.rg.elem(st, v)
        p = self.iv.get(v.id)
        if p is None:
            x = self.fresh("x"); p = self.iv[v.id] = iv(x); self.keep.append(v)
            self.iv[v.id] = p; st.user = st.user.more(ge=(p, iadd(ic(e.b * P - 1), p, -1)), pos=(x,))
        return v, st.user.norm(p), e.p
    def put(self, st, ptr, v):
        if not _wr(self.ex, st, ptr, v): raise Unsupported("write out of bounds")
    # ---- deciding
    def context(self, st): return st.user
    def check(self, F, goal):
        """goal: list of (kind, poly) to refute; returns z3 verdict for the facts and the negated goal"""
        ms = set(); out = []
        def k(c): return str(c) if c >= 0 else f"(- {-c})"
        def lin(p):
            p = F.norm(p); t = []
            for m, c in p.items():
                if not m: t.append(k(c)); continue
                ms.add(m); t.append(f"(* {k(c)} |{'*'.join(m)}|)")
            return "(+ 0 " + " ".join(t) + ")"
        def conj(ps): return "(and true " + " ".join(f"(>= {lin(p)} 0)" for p in ps) + ")"
        for p in F.ge: out.append(f"(>= {lin(p)} 0)")
        for a, b in F.imp: out.append(f"(=> {conj(a)} (or false {' '.join(conj(q) for q in b)}))")
        out.append(goal(lin))
        pos = set(F.pos)
        for m in ms:
            if all(n in pos or m.count(n) % 2 == 0 for n in m): out.append(f"(>= |{'*'.join(m)}| 0)")
        s = z3.SolverFor("QF_LIA"); s.set("timeout", 60000)
        s.from_string("".join(f"(declare-const |{'*'.join(m)}| Int)" for m in ms) + "".join(f"(assert {x})" for x in out))
        return self.ctx.query(s)
    def holds(self, st, p): return self.check(st.user, lambda lin: f'(< {lin(p)} 0)') == "unsat"
    def feasible(self, F): return self.check(F, lambda lin: 'true') != "unsat"
    def fork(self, st, alts):
        """alts: [(facts, ret)] -> hook result, infeasible ones dropped"""
        out = []; alts = [(F, r) for F, r in alts if self.feasible(F)]
        for i, (F, r) in enumerate(alts):
            s2 = st if i == len(alts) - 1 else st.fork()
            out.append((s2, F, r))
        for s2, F, r in out: s2.user = F
        return [(s2, r) for s2, F, r in out]
    def sign(self, st, d):
        F = st.user; d = F.norm(d); neg = {m: -c for m, c in d.items()}
        return F.more(ge=(iadd(d, ic(1), -1),)), F.eq0(d), F.more(ge=(iadd(neg, ic(1), -1),))
    def h_isZero(self, ex, st, a, fn):
        v, p, _ = self.val(st, a[0])
        if not tm.isT(v): return int(v == 0)
        g, z, l = self.sign(st, p); return self.fork(st, [(z, 1), (g, 0)])
    def h_eq(self, ex, st, a, fn):
        d = iadd(self.val(st, a[0])[1], self.val(st, a[1])[1], -1); g, z, l = self.sign(st, d); return self.fork(st, [(z, 1), (g, 0), (l, 0)])
    def h_cmp(self, ex, st, a, fn):
        d = iadd(self.val(st, a[0])[1], self.val(st, a[1])[1], -1); g, z, l = self.sign(st, d); return self.fork(st, [(g, 1), (z, 0), (l, 255)])
    def half(self, st, p):
        """-> [(facts, half, bit)]"""
        F = st.user; p = F.norm(p)
        bit = p.get((), 0) & 1
        if all(c % 2 == 0 for m, c in p.items() if m): return [(F, {m: c // 2 for m, c in iadd(p, ic(bit), -1).items()}, bit)]
        out = []
        for b in (0, 1):
            h = self.fresh("h"); G = F.eq0(iadd(iadd(p, iv(h), -2), ic(b), -1)); hp = G.norm(iv(h))
            if hp == iv(h): G = G.more(ge=(hp,), pos=(h,)) if self.check(F, lambda lin: f'(< {lin(p)} 0)') == "unsat" else G
            out.append((G, hp, b))
        return out
    def parity(self, st, ptr, even, odd):
        v, p, _ = self.val(st, ptr)
        if not tm.isT(v): return even if v % 2 == 0 else odd
        return self.fork(st, [(F, odd if b else even) for F, h, b in self.half(st, p)])
    def h_div2(self, ex, st, a, fn):
        e = ex.read_int(st, a[1], 8)
        if e != 0: raise Unsupported("div2 with a carry")
        v, p, f = self.val(st, a[0]); hs = [(F, h, b) for F, h, b in self.half(st, p) if self.feasible(F)]; out = []
        for i, (F, h, b) in enumerate(hs):
            s2 = st if i == len(hs) - 1 else st.fork(); out.append((s2, F, h, b))
        for s2, F, h, b in out: s2.user = F; self.put(s2, a[0], self.new(s2, h, pscale(psub(f, pconst(b * RI)), INV2)))
        return [(s2, None) for s2, *_ in out]
    def h_mul2(self, ex, st, a, fn):
        v, p, f = self.val(st, a[0]); q = {m: 2 * c for m, c in p.items()}
        if not self.holds(st, iadd(ic((1 << 384) - 1), q, -1)): raise Unsupported("possible overflow in mul2")
        self.put(st, a[0], self.new(st, q, pscale(f, 2))); return 0
    def h_ldbl(self, ex, st, a, fn):
        v, p, f = self.val(st, a[1]); q = {m: 2 * c for m, c in p.items()}
        if not self.holds(st, iadd(ic((1 << 384) - 1), q, -1)): raise Unsupported("possible overflow")
        self.put(st, a[0], self.new(st, q, pscale(f, 2)))
    def h_lsub(self, ex, st, a, fn):
        _, p, f = self.val(st, a[1]); _, q, g = self.val(st, a[2]); d = iadd(p, q, -1)
        if not self.holds(st, d): raise Unsupported("possible underflow of a subtraction")
        self.put(st, a[0], self.new(st, d, psub(f, g)))
    def h_ladd(self, ex, st, a, fn):
        _, p, f = self.val(st, a[1]); _, q, g = self.val(st, a[2]); d = iadd(p, q)
        if not self.holds(st, iadd(ic((1 << 384) - 1), d, -1)): raise Unsupported("possible overflow of an addition")
        self.put(st, a[0], self.new(st, d, padd(f, g)))
class Loop:
    """cut of the main loop: u*s + v*r = p, a*r = -u*2^n, a*s = v*2^n (mod p), r, s <= 2^n, u*v*2^n <= p^2, and v = 0 only with u = 1"""
    basic = False
    def __init__(self, dom, aterm, lo=0, hi=1 << 30):
        self.lo = lo; self.hi = hi; self.d = dom; self.ex = dom.ex; self.a = aterm; self.ex.cut = self; self.hd = {}; self.mode = None; self.steps = 0; self.exits = {}; self.upoly = {}; self.ended = None
    def headers(self, f):
        r = self.hd.get(f.name)
        if r is None:
            r = set()
            for c in sccs(f): r |= {b for b in c if any(b in f.succ[p] for p in range(len(f.blocks)) if p not in c)}
            self.hd[f.name] = r
        return r
    def at(self, f, st, regs, blk, rets, allocs):
        if self.mode is not None:
            if (f.name, blk) != self.mode: return False
            if self.skip: self.skip = False; return False
            self.arr.append((st, regs)); return True
        if blk not in self.headers(f): return False
        cand = self.roles(st)
        if cand is None: return False
        self.run(f, st, regs, blk, rets, allocs, cand); return True
    def objs(self, st): return [i for i, o in st.mem.items() if o.size == 48 and not o.dead and o.kind not in ("arg", "global") and not o.const]
    def word(self, st, i): return self.ex.read_int(st, Ptr(i, 0), 48)
    def roles(self, st):
        """objects that hold p, a, 1 and 0 at the first arrival"""
        r = {"u": [], "v": [], "s": [], "r": []}
        for i in self.objs(st):
            try: w = self.word(st, i)
            except Unsupported: continue
            k = "v" if w is self.a else {P: "u", 1: "s", 0: "r"}.get(w) if not tm.isT(w) and w is not None else None
            if k: r[k].append(i)
        return r if all(r.values()) else None
    def step(self, f, st, regs, blk, rets, allocs):
        self.arr = []; self.skip = True
        self.ex._run(f, st, list(regs), blk, 0, None, rets, allocs)
        return self.arr
    def run(self, f, st, regs, blk, rets, allocs, cand):
        d = self.d; ex = self.ex; rg = d.rg
        self.mode = (f.name, blk)
        base = st.user; probe = st.fork()
        arr = self.step(f, probe, regs, blk, [], [])          # one iteration, only to see which objects change
        ch = {i for s2, _ in arr for i in self.objs(s2) if i in st.mem and self.word(s2, i) is not self.word(st, i) and not (not tm.isT(self.word(st, i)) and self.word(s2, i) == self.word(st, i))}
        role = {}
        for k, l in cand.items():
            c = [i for i in l if i in ch]
            if len(c) != 1: raise Unsupported(f"loop of the inversion not recognised ({k}: {len(c)} candidates)")
            role[k] = c[0]
        self.role = role
        apoly = rg.elem(st, self.a).p
        arr = [(st, regs)]; n = 0; can = []
        while True:
            if n > 900: raise Unsupported("the inversion loop does not end")
            for s2, _ in arr: self.invariant(s2, n, apoly)
            if n < 3: head = self.merge(arr); can.append(head)
            else: self.instance(self.merge(arr), self.counted(can, n), n)
            if n == 2 and self.lo > 3: n = self.lo
            elif n > max(self.hi, 2): break
            st2, regs2 = self.havoc(head if n < 3 else self.counted(can, n), n, apoly, base)
            self.steps += 1; k = len(rets)
            arr = self.step(f, st2, regs2, blk, rets, allocs)
            if len(rets) > k: self.exits[n] = len(rets) - k
            if not arr: self.ended = n; break
            n += 1
        self.mode = ("done", -1)
    def ints(self, st):
        out = {}
        for k, i in self.role.items():
            _, p, f = self.d.val(st, Ptr(i, 0)); out[k] = (p, f)
        return out
    def invariant(self, st, n, a):
        d = self.d; rg = d.rg; T = 1 << n; x = self.ints(st); u, v, s, r = (x[k][0] for k in "uvsr")
        F = self.axioms(st.user, u, v, s, r)
        one = ic(1)
        def goals(lin):
            for nm, p in self.inv(u, v, s, r, T): yield nm, f"(< {lin(p)} 0)"
            yield "v = 0 only with u = 1", f"(and (<= {lin(v)} 0) (not (= {lin(iadd(u, one, -1))} 0)))"
            yield "r <= p if v > 0", f"(and (>= {lin(v)} 1) (> {lin(iadd(r, ic(P), -1))} 0))"
        if d.check(F, lambda lin: "(or " + " ".join(g for _, g in goals(lin)) + ")") != "unsat":
            for nm, _ in goals(lambda p: "0"):
                if d.check(F, lambda lin: dict(goals(lin))[nm]) != "unsat": raise Inconclusive(f"iteration {n}: invariant '{nm}' not established")
        k = R * pow(T, -1, P) % P
        for nm, q in (("a*r + u*2^n", padd(x["u"][1], pscale(pmul(a, x["r"][1]), k))), ("a*s - v*2^n", psub(x["v"][1], pscale(pmul(a, x["s"][1]), k)))):
            if not rg.is_zero_under(q, []): raise Inconclusive(f"iteration {n}: invariant {nm} = 0 (mod p) not established")
    def inv(self, u, v, s, r, T):
        us = imul(u, s); vr = imul(v, r); uv = imul(u, v); one = ic(1); t = iadd(iadd(us, vr), ic(P), -1)
        return [("us+vr>=p", t), ("us+vr<=p", {m: -c for m, c in t.items()}), ("u>=1", iadd(u, one, -1)), ("v>=0", v), ("s>=1", iadd(s, one, -1)), ("r>=0", r), ("u<=p", iadd(ic(P), u, -1)), ("v<p", iadd(ic(P - 1), v, -1)),
                ("s<=p", iadd(ic(P), s, -1)), ("r<=2p", iadd(ic(2 * P), r, -1)), ("s<=2^n", iadd(ic(T), s, -1)), ("r<=2^n", iadd(ic(T), r, -1)), ("uv*2^n<=p^2", iadd(ic(P * P), uv, -T))]
    def axioms(self, F, u, v, s, r):
        """facts about products of integers (valid for all integers), and p is prime"""
        one = ic(1); imp = []
        def g(p): return iadd(p, one, -1)
        for x, y in ((u, s), (v, r), (u, v), (s, u), (r, v), (v, u)): imp.append(((g(x), y), ((iadd(imul(x, y), y, -1),),)))      # x >= 1, y >= 0 -> xy >= y
        for x, y in ((u, s), (s, u)): imp.append(((g(x), iadd(one, x, -1)), ((iadd(imul(x, y), y, -1), iadd(y, imul(x, y), -1)),)))   # x = 1 -> xy = y
        for x, y in ((v, r), (v, u), (r, v)): imp.append(((x, {m: -c for m, c in x.items()}), ((imul(x, y), {m: -c for m, c in imul(x, y).items()}),)))  # v = 0 -> vy = 0
        us = imul(u, s)
        imp.append(((g(u), g(s), iadd(us, ic(P), -1), iadd(ic(P), us, -1)), ((iadd(one, u, -1),), (iadd(one, s, -1),))))           # us = p -> u = 1 or s = 1
        return F.more(imp=imp)
    def merge(self, arr):
        """one state covering all arrivals; what differs becomes unknown"""
        ex = self.ex; st, regs = arr[0]; st = st.fork(); regs = list(regs); st.pc = ()
        for s2, r2 in arr[1:]:
            for i, (x, y) in enumerate(zip(regs, r2)):
                if x is not y and not (type(x) is type(y) and x == y): regs[i] = None
            for i, o in list(st.mem.items()):
                if i in self.role.values(): continue
                o2 = s2.mem.get(i)
                if o2 is None: del st.mem[i]; continue
                if o2 is o or o.cells == o2.cells: continue
                o = ex.own(st, o)
                if {k: c[0] for k, c in o.cells.items()} != {k: c[0] for k, c in o2.cells.items()}:
                    if o.fill is not None: raise Unsupported("different layouts at the loop head")
                    o.cells.clear(); continue          # unknown contents
                for off in list(o.cells):
                    c = o.cells[off]; c2 = o2.cells.get(off)
                    if c2 is c or c2 == c: continue
                    o.cells[off] = (c[0], tm.fresh("dead", 8 * c[0]))
        return st, regs
    def counted(self, can, n):
        """the state at iteration n, extrapolated from those at 1 and 2: numbers advance by a constant step"""
        (s1, r1), (s2, r2) = can[1], can[2]; st = s2.fork(); regs = list(r2)
        def num(x): return isinstance(x, int) and not isinstance(x, bool)
        for i, (x, y) in enumerate(zip(r1, r2)):
            if num(x) and num(y): regs[i] = y + (y - x) * (n - 2)
        for i, o in list(st.mem.items()):
            o1 = s1.mem.get(i)
            if i in self.role.values() or o1 is None or o1 is o: continue
            for off, c in list(o.cells.items()):
                c1 = o1.cells.get(off)
                if c1 is not None and num(c1[1]) and num(c[1]) and c1[1] != c[1]:
                    o = self.ex.own(st, o); o.cells[off] = (c[0], c[1] + (c[1] - c1[1]) * (n - 2))
        return st, regs
    def instance(self, got, want, n):
        """everything known in `want` holds in `got`"""
        (g, gr), (w, wr) = got, want
        def same(x, y): return x is y or type(x) is type(y) and x == y or tm.isT(y) and y.op == "var" and y.args[0].startswith(("dead", "uninit"))
        for i, (x, y) in enumerate(zip(gr, wr)):
            if y is not None and not same(x, y): raise Unsupported(f"iteration {n}: register {i} does not advance by a constant step")
        for i, o in w.mem.items():
            if i in self.role.values(): continue
            o2 = g.mem.get(i)
            if o2 is o: continue
            if o2 is None or o2.dead != o.dead: raise Unsupported(f"iteration {n}: object {i} is gone")
            for off, c in o.cells.items():
                c2 = o2.cells.get(off)
                if c2 is None and same(None, c[1]): continue
                if c2 is None or c2[0] != c[0] or not same(c2[1], c[1]): raise Unsupported(f"iteration {n}: {i}+{off} does not advance by a constant step")
    def havoc(self, head, n, a, base):
        d = self.d; rg = d.rg; T = 1 << n; st, regs = head; st = st.fork(); regs = list(regs)
        names = {k: d.fresh(k) for k in "uvsr"}; u, v, s, r = (iv(names[k]) for k in "uvsr")
        F = base.more(ge=[p for _, p in self.inv(u, v, s, r, T)], pos=[names[k] for k in "uvsr"])
        one = ic(1); neg = lambda p: {m: -c for m, c in p.items()}
        F = F.more(imp=[((neg(v),), ((iadd(one, u, -1),),)), ((iadd(v, one, -1),), ((iadd(ic(P), r, -1),),))])
        F = self.axioms(F, u, v, s, r); st.user = F
        sp, rp = rg.var(rg.newvar(names["s"])), rg.var(rg.newvar(names["r"])); k = R * pow(T, -1, P) % P
        self.hv = (n, names, sp, rp)
        poly = {"s": sp, "r": rp, "u": pscale(pmul(a, rp), -k % P), "v": pscale(pmul(a, sp), k)}
        for key, p in (("u", u), ("v", v), ("s", s), ("r", r)):
            t = tm.fresh("K", 384); t.dom = Elem(poly[key], {"u": 2, "v": 1, "s": 2, "r": 4}[key]); d.iv[t.id] = p; d.keep.append(t)
            d.put(st, Ptr(self.role[key], 0), t)
        self.upoly[names["u"]] = poly["u"]
        return st, regs
def final(dom, loop, o, a, out):
    """problem or None: out is the inverse of a (both field polynomials) on the returning path o"""
    rg = dom.rg; F = o.st.user; facts = []
    for n, poly in loop.upoly.items():
        if n in F.pos and dom.check(F, lambda lin: f'(not (= {lin(iadd(iv(n), ic(1), -1))} 0))') == "unsat": facts.append(psub(poly, pconst(RI)))
    if rg.is_zero_under(psub(pmul(a, out), pconst(1)), facts): return None
    return f"a*out - 1 not zero under {len(facts)} facts"
