"""Long division by a constant: digit loop cut at its header with the invariant A + C*b = a*2^s, 0 <= A < b*2^(64m)."""
import z3, time, os, json
from . import terms as tm
from .exec import *
from .lia import LiaSolver
from .cut import *
from .check import Inconclusive
from .liaob import lim
NAME = "bls12_381::bn_divn_low(unsigned long*, unsigned long*, unsigned long*, int, unsigned long*, int)"
def limbs(ex, st, p, n):
    out = []
    for i in range(n):
        v = ex.read_int(st, ex.padd(p, 8 * i), 8)
        if v is None: raise Unsupported("unreadable limb")
        out.append(v)
    return out
PTS = {"u64": "unsigned long", "p": "unsigned long*", "c": "unsigned long const*", "i": "int"}
HELP = {"mul1": "p c u64 i", "sub1": "p c u64 i", "add1": "p c u64 i", "subn": "p c c i", "addn": "p c c i", "lshb": "p c i i", "rshb": "p c i i"}
def helper_name(h): return f"bls12_381::bn_{h}_low({', '.join(PTS[x] for x in HELP[h].split())})"
CMP = "bls12_381::dv_cmp(unsigned long const*, unsigned long const*, int)"
def vsum(ls): return sum(v << 64 * i for i, v in enumerate(ls))
def helper_contracts(ex, fact, tag):
    """word-array helpers by value: one linear equation between the integers the arrays spell (see helper_cases)"""
    cnt = [0]
    def con(v): return v if isinstance(v, int) else None
    def mk(h):
        def run(ex, st, args, fn):
            if h in ("lshb", "rshb"): c, a, n, k = args; ps = [a]
            elif h in ("subn", "addn"): c, a, b, n = args; ps = [a, b]; k = None
            else: c, a, k, n = args; ps = [a]
            n = tm.sgn(n, 32) if isinstance(n, int) else n
            if not isinstance(n, int): raise Unsupported("symbolic length")
            if n <= 0: n = 0
            vs = [limbs(ex, st, q, n) for q in ps]
            if h in ("lshb", "rshb") and not isinstance(k, int): raise Unsupported("symbolic shift")
            B = 1 << 64 * n
            if h == "mul1" and tm.isT(k) and any(tm.isT(x) for x in vs[0]): raise Unsupported("nonlinear digit product")
            if all(not tm.isT(x) for v in vs for x in v) and not tm.isT(k):
                A = vsum(vs[0])
                if h == "lshb": r = A << k; cc, out = r // B, r % B
                elif h == "rshb": out, cc = A >> k, A & tm.mask(k)
                elif h == "mul1": r = A * k; cc, out = r // B, r % B
                elif h in ("addn", "add1"): r = A + (vsum(vs[1]) if h == "addn" else k); cc, out = r // B, r % B
                else: r = A - (vsum(vs[1]) if h == "subn" else k); cc, out = -(r // B), r % B
                new = [out >> 64 * i & tm.mask(64) for i in range(n)]
            else:
                cnt[0] += 1; t = f"{tag}{cnt[0]}{h}"
                new = [tm.var(f"{t}.{i}", 64) for i in range(n)]
                cw = max(1, k) if h in ("lshb", "rshb") else 64 if h == "mul1" or n == 0 else 1
                cv = tm.var(f"{t}.c", cw); cc = tm.zext(cw, 64, cv) if cw < 64 else cv
                def f(L, new=new, vs=vs, k=k, cv=cv):
                    V = lambda ls: z3.Sum([L.num(v) * (1 << 64 * i) for i, v in enumerate(ls)] + [L.val(0)])
                    O, C = V(new), L.num(cv)
                    if h == "rshb": return [V(vs[0]) == O * (1 << k) + C, C <= (1 << k) - 1]
                    if h == "lshb": return [O + C * B == V(vs[0]) * (1 << k)]
                    if h == "mul1": return [O + C * B == (vsum(vs[0]) * L.num(k) if tm.isT(k) else V(vs[0]) * k), C <= (k if not tm.isT(k) else L.num(k))]
                    y = V(vs[1]) if len(vs) > 1 else L.num(k)
                    return [O + C * B == V(vs[0]) + y] if h in ("addn", "add1") else [O - C * B == V(vs[0]) - y]
                fact(f)
            for i in range(n): ex.write_int(st, ex.padd(c, 8 * i), 8, new[i])
            return [(st, cc)]
        return run
    for h in HELP:
        n = ex.mod.bydem.get(helper_name(h))
        if n: ex.hooks[n] = mk(h)
    def cmp(ex, st, args, fn):
        a, b, n = args
        if not isinstance(n, int): raise Unsupported("symbolic length")
        x, y = limbs(ex, st, a, n), limbs(ex, st, b, n)
        if all(not tm.isT(v) for v in x + y):
            x, y = vsum(x), vsum(y); return [(st, (x > y) - (x < y) & tm.mask(32))]
        X, Y = (tm.concat_list([(64, v) for v in reversed(l)]) for l in (x, y)); w = 64 * n
        return [(st, tm.ite(32, tm.ult(w, X, Y), tm.mask(32), tm.ite(32, tm.ult(w, Y, X), 1, 0)))]
    n = ex.mod.bydem.get(CMP)
    if n: ex.hooks[n] = cmp
class DivN:
    def __init__(self, sa, sb, D, merge=True): self.merge = merge; self.sa = sa; self.sb = sb; self.D = D; self.n = sa + 2; self.facts = []; self.groups = 0
    def solver(self, ctx, trail, real=True, timeout=60000):
        L = LiaSolver(timeout, real=real)
        for f in self.facts: L.add(*f(L))
        for v in trail:
            if tm.isT(v): L.num(v)
            else: L.add(*v(L))
        return L
    def val(self, L, ls): return z3.Sum([L.num(v) * (1 << 64 * i) for i, v in enumerate(ls)])
    def valid(self, ctx, st, goal, to=60000):
        """goal(L) holds on every state of the path: real relaxation first, exact integers second"""
        for real in (True, False):
            L = self.solver(ctx, self.trail, real, to)
            gl = goal(L)
            ok = all(L.check_extra(st.pc, z3.Not(x)) == "unsat" for x in (gl.children() if z3.is_and(gl) else [gl]))
            ctx.xq += L.queries; ctx.xt += L.time
            if ok: return True
        return False
    def all_valid(self, ctx, items, goal, to=60000, W=6):
        """valid() for every (state, goal(state)) pair, spread over forked workers"""
        items = list(items)
        if len(items) <= 3: return all(self.valid(ctx, st, goal(st), to) for st in items)
        W = min(W, len(items)); kids = []
        for w in range(W):
            r, wr = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); ok = True; q0, t0 = ctx.xq, ctx.xt
                try:
                    for st in items[w::W]:
                        if not self.valid(ctx, st, goal(st), to): ok = False; break
                except BaseException: ok = False
                os.write(wr, json.dumps([ok, ctx.xq - q0, ctx.xt - t0]).encode()); os._exit(0)
            os.close(wr); kids.append((pid, r))
        res = True
        for pid, r in kids:
            b = b""
            while True:
                x = os.read(r, 4096)
                if not x: break
                b += x
            os.close(r); os.waitpid(pid, 0)
            ok, q, t = json.loads(b) if b else (False, 0, 0)
            ctx.xq += q; ctx.xt += t; res = res and ok
        return res
    def infeasible(self, ctx, st): return self.valid(ctx, st, lambda L: z3.BoolVal(False))
    def prove(self, ctx):
        ex = ctx.exec(merge=self.merge); self.ex = ex
        fn = ex.mod.bydem.get(NAME)
        f = ex.mod.fn(fn) if fn else None
        if f is None: raise Unsupported("bn_divn_low not found")
        hdr = loop_header(ex.mod, f, lambda ins: ins[0] == "bin" and ins[2] == "udiv" and ins[3] > 64)
        if hdr is None: raise Unsupported("digit loop not found")
        self.trail = []; seen = set()
        osr = ex.store_raw
        def sr(st, p, size, v):
            if tm.isT(v) and v.w == 64 and v.id not in seen: seen.add(v.id); self.trail.append(v)
            return osr(st, p, size, v)
        ex.store_raw = sr
        def fact(f): self.trail.append(f); ex.solver.add(*f(ex.solver))
        helper_contracts(ex, fact, "h")
        ex.solver = self.solver(ctx, [])
        st = ex.new_state(); n = self.n
        c, d, a, b = (ex.alloc(st, 8 * n, "arg", fill=0, name=x) for x in "cdab")
        self.al = [tm.var(f"a{i}", 64) for i in range(self.sa)]
        for i in range(n):
            ex.wr(st, a.obj, 8 * i, 8, self.al[i] if i < self.sa else 0)
            ex.wr(st, b.obj, 8 * i, 8, self.D >> 64 * i & tm.mask(64))
            ex.wr(st, c.obj, 8 * i, 8, 0); ex.wr(st, d.obj, 8 * i, 8, 0)
        self.P = (a, b, c, d)
        cut = Cutter(ex, fn, hdr)
        arr, rets, bad = cut.start(st, [c, d, a, self.sa, b, self.sb])
        self.finish(ctx, rets, bad)
        live = sorted(f.livein[hdr] | {x for x, _ in f.phis[hdr]})
        if arr: self.sub(ctx, (arr, 0, list(self.trail)), live, cut, seen)
        ctx.paths += self.groups
        if not ctx.samples: ctx.samples.append({"function": NAME, "dividend_limbs": self.sa, "divisor": hex(self.D), "cut_states": self.groups})
    def sub(self, ctx, item, live, cut, seen):
        arr, k, trail = item
        if k > 40: raise Unsupported("digit loop does not end")
        ex = self.ex
        for g in self.group(arr, live):
            self.trail = trail
            st2, regs2, facts = self.abstract(ctx, g, live, k)
            old = self.facts; self.facts = [facts]; self.trail = []; seen.clear()
            ex.solver = self.solver(ctx, [])
            a2, rets, bad = cut.step(st2, regs2)
            self.finish(ctx, rets, bad)
            if a2: self.sub(ctx, (a2, k + 1, list(self.trail)), live, cut, seen)
            self.facts = old
    def group(self, arr, live):
        G = {}
        for st, regs in arr:
            key = tuple((i, regs[i]) if isinstance(regs[i], int) else (i, repr(regs[i])) if isinstance(regs[i], Ptr) else (i, "sym") for i in live)
            G.setdefault(key, []).append((st, regs))
        return list(G.values())
    def abstract(self, ctx, g, live, k):
        """check the invariant on every arrival of the group and return an arbitrary state satisfying it"""
        ex = self.ex; a, b, c, d = self.P; n = self.n; self.groups += 1
        bN = None
        for st, regs in g:
            bl = limbs(ex, st, b, n)
            if any(tm.isT(x) for x in bl): raise Unsupported("divisor not concrete at the loop")
            v = sum(x << 64 * i for i, x in enumerate(bl))
            if bN is None: bN = v
            elif bN != v: raise Unsupported("divisor differs between paths")
        s, rem = divmod(bN, self.D)
        if rem or s & (s - 1) or not s: raise Unsupported("divisor is not a shifted original")
        self.bN, self.s = bN, s
        def inv(L, A, C, m):
            dd = A + C * bN - self.val(L, self.al) * s
            r = [dd < 1, dd > -1]
            if m is not None: r += [A <= (bN << 64 * m) - 1, A >= 0]
            return r
        top = getattr(self, "m", n)
        bd = lambda m: lambda st: lambda L: self.val(L, limbs(ex, st, a, n)) <= (bN << 64 * m) - 1
        sts = [st for st, _ in g]
        for m in range(max(0, top - 1), n + 1):
            if self.all_valid(ctx, sts, bd(m)): break
        else: raise Inconclusive("no bound for the running remainder")
        if k == 0:
            for m2 in range(0, m):
                if all(self.valid(ctx, st, bd(m2)(st), 20000) for st in sts): m = m2; break
        self.m = m
        if not self.all_valid(ctx, sts, lambda st: lambda L: z3.And(*inv(L, self.val(L, limbs(ex, st, a, n)), self.val(L, limbs(ex, st, c, n)), None))):
            raise Inconclusive(f"digit step {k}: invariant not established")
        # havoc
        st, regs = g[0]; st = st.fork(); regs = list(regs); st.pc = ()
        tag = f"k{self.groups}"
        def fr(nm, w=64): return tm.var(f"{tag}.{nm}", w)
        def cells(p, nm):
            new = []
            vs = [limbs(ex, s2, p, n) for s2, _ in g]
            for i in range(n):
                x = vs[0][i]
                v = x if not tm.isT(x) and all(y[i] == x for y in vs) else fr(f"{nm}{i}")
                ex.wr(st, p.obj, 8 * i, 8, v); new.append(v)
            return new
        A2 = cells(a, "a"); C2 = cells(c, "c"); cells(d, "d")
        objs = {a.obj, b.obj, c.obj, d.obj}
        for oid in list(st.mem):
            if oid in objs: continue
            o = st.mem[oid]
            if o.kind == "global": continue
            others = [s2.mem.get(oid) for s2, _ in g]
            offs = {}
            for q in others:
                if q is None: raise Unsupported("frame differs between paths")
                for off, (sz, v) in q.cells.items(): offs.setdefault(off, []).append((sz, v))
            for off, l in offs.items():
                same = len(l) == len(g) and all(x[0] == l[0][0] and (x[1] is l[0][1] or not tm.isT(x[1]) and not tm.isT(l[0][1]) and x[1] == l[0][1]) for x in l)
                if same and not tm.isT(l[0][1]): continue
                if any(not (isinstance(x[1], int) or tm.isT(x[1])) for x in l): raise Unsupported("pointer differs between paths")
                sz = max(x[0] for x in l)
                ex.wr(st, oid, off, sz, fr(f"{oid}.{off}", 8 * sz))
        for i in live:
            if tm.isT(regs[i]): regs[i] = fr(f"r{i}", regs[i].w)
        def facts(L): return inv(L, self.val(L, A2), self.val(L, C2), m)
        return st, regs, facts
    def finish(self, ctx, rets, bad):
        ex = self.ex; a, b, c, d = self.P
        if bad and not self.all_valid(ctx, [o.st for o in bad], lambda st: lambda L: z3.BoolVal(False)):
            raise Inconclusive(f"outcome {bad[0].kind} {str(bad[0].info)[:150]}")
        def goal(st):
            q = limbs(ex, st, c, self.n); r = limbs(ex, st, d, self.sb)
            def g(L):
                dd = self.val(L, self.al) - self.val(L, q) * self.D - self.val(L, r)
                return z3.And(dd < 1, dd > -1, self.val(L, r) <= self.D - 1)
            return g
        if not self.all_valid(ctx, [st for st, _ in rets], goal): raise Inconclusive("a = q*b + r, r < b not established at return")
        self.nret = getattr(self, "nret", 0) + len(rets)
    def go(self, ctx):
        probs = None
        try:
            self.prove(ctx)
            if not getattr(self, "nret", 0): probs = "no return"
        except (Unsupported, Budget, Inconclusive) as e: probs = f"{type(e).__name__}: {e}"
        if probs:
            if not self.search(ctx, 6000): ctx.inconclusive(f"bn_divn_low({self.sa},{self.sb}) by {self.D:#x}: {probs}")
        elif not self.search(ctx, 60): ctx.validated += 60
    def search(self, ctx, N):
        n = self.n; sym = ctx.mod().bydem[NAME]; D = self.D
        for k in range(N):
            x = ctx.rng.randrange(4)
            v = lim(ctx.rng, self.sa) if x == 0 else D * lim(ctx.rng, max(1, self.sa - self.sb + 1)) + ctx.rng.choice([0, 1, D - 1, D - 2, D >> 1])
            v %= 1 << 64 * self.sa
            z = bytes(8 * n)
            args = [z, z, v.to_bytes(8 * n, "little"), self.sa, D.to_bytes(8 * n, "little"), self.sb]
            r = ctx.nat.call(sym, args)
            if r[0] == "ret":
                q = int.from_bytes(r[2][0], "little"); rr = int.from_bytes(r[2][1][:8 * self.sb], "little")
                if (q, rr) == divmod(v, D): continue
                got = f"quotient {q:#x}, remainder {rr:#x}"
            else: got = str(r[0])
            ctx.violation(f"bn_divn_low({v:#x} / {D:#x}): {got}, expected {v // D:#x}, {v % D:#x}", call=(sym, args), observed=got)
            return True
        return False
