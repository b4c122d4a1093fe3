"""Equivalence of two term graphs by sweeping: intermediate values of the specification are matched (by random simulation)
with values of the code, proved equal by the solver in order, and replaced by one shared variable in later proofs."""
import random, z3, time
from . import terms as tm
class Sweep:
    def __init__(self, ctx=None, timeout=20000): self.ctx = ctx; self.timeout = timeout; self.rng = random.Random(7); self.env = [{}, {}, {}]; self.sig = {}; self.cls = {}; self.done = set(); self.n = 0; self.proved = 0; self.s = z3.SolverFor("QF_BV"); self.s.set("timeout", timeout)
    def sim(self, t):
        """signature of a term"""
        if not tm.isT(t): return (t,) * 3
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.sig: stack.pop(); continue
            todo = [c for c in tm._children(x) if tm.isT(c) and c.id not in self.sig]
            if todo: stack.extend(todo); continue
            if x.op == "var":
                for e in self.env: e.setdefault(x.args[0], self.rng.getrandbits(x.w))
            self.sig[x.id] = tuple(tm._ev(x, lambda y, k=k: self.sig[y.id][k] if tm.isT(y) else y, self.env[k]) for k in range(3))
            stack.pop()
        return self.sig[t.id]
    def prove(self, a, b):
        w = a.w if tm.isT(a) else b.w
        x, y = z3.simplify(tm.z(a, w) == tm.z(b, w)), None
        if z3.is_true(x): return True
        t0 = time.time()
        self.s.push(); self.s.add(z3.Not(x)); r = self.s.check(); self.s.pop()
        if self.ctx: self.ctx.xq += 1; self.ctx.xt += time.time() - t0
        return r == z3.unsat
    def nodes(self, roots):
        out = []; seen = set(); st = [r for r in roots if tm.isT(r)]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id); out.append(x); st += [c for c in tm._children(x) if tm.isT(c)]
        return out
    def merge(self, a, b):
        """share one variable between two proved-equal terms of equal width"""
        if a is b: return
        self.n += 1; v = z3.BitVec(f"sw{self.n}", a.w); a.z = v; b.z = v; self.cls[b.id] = a
    def equal(self, code, spec, keys):
        """lists of terms; keys: specification intermediates in dependency order"""
        if all(a is b or not tm.isT(a) and not tm.isT(b) and a == b for a, b in zip(code, spec)): return True
        self.sim_all(list(code) + list(spec) + [k for k in keys if tm.isT(k)])
        if any(self.sim(a) != self.sim(b) for a, b in zip(code, spec)): return False
        bysig = {}
        for x in self.nodes(code):
            if x.w >= 8: bysig.setdefault((x.w, self.sig[x.id]), []).append(x)
        for k in keys:
            if not tm.isT(k) or k.id in self.done: continue
            got = False
            c = bysig.get((k.w, self.sig[k.id]), [])
            if any(x is k for x in c): self.done.add(k.id); continue
            for x in c[:6]:
                if self.cls.get(x.id) is k: got = True; continue
                if self.prove(x, k): self.merge(k, x); got = True; self.proved += 1
            if got: self.done.add(k.id)
        for a, b in zip(code, spec):
            if a is b or not tm.isT(a) and not tm.isT(b) and a == b: continue
            if not self.prove(a, b): return False
        return True
    def sim_all(self, ts):
        for t in ts: self.sim(t)
