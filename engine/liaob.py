"""Obligations over integers: limb arrays in and out, the exact integer relation is decided in linear arithmetic."""
import z3
from . import terms as tm
from .exec import *
from .lia import LiaSolver
from .check import Ref, Inconclusive
def lim(rng, n):
    k = rng.randrange(4)
    if k == 0: return rng.getrandbits(64 * n)
    return sum(rng.choice([0, 0, 1, 2**64 - 1, 2**64 - 1, 2**63, 2**63 - 1, rng.getrandbits(64), rng.getrandbits(8)]) << 64 * i for i in range(n))
def trail(u):
    while u: yield u[0]; u = u[1]
class LiaCase:
    """args: ("i", limbs, name) | ("o", limbs) | ("c", limbs, value) | ("k", int).  Aliases {i: j}.
    goal(L, ins, outs) -> z3 Bool that must hold (L: LiaSolver with num/prod_of, ins name -> limb list, outs index -> z3 integer)
    ref(ins) -> {index: int} or None (call must throw) for concrete validation;  throws(L, ins) -> z3 Bool: exactly when the call throws
    pre: {name: maximal value}"""
    def __init__(self, fn, args, goal, ref, throws=None, pre=None, gen=None, merge=False, lia=True, hooks=None):
        self.hooks = hooks
        self.fn = fn; self.args = args; self.goal = goal; self.ref = ref; self.throws = throws; self.pre = pre or {}; self.gen = gen; self.merge = merge; self.lia = lia
    def run(self, ctx):
        ex = ctx.exec(merge=self.merge); self.ex = ex
        if self.lia: ex.solver = LiaSolver(60000)
        if self.hooks: self.hooks(ex)
        osr = ex.store_raw
        def sr(st, p, size, v):
            if tm.isT(v) and v.w == 64: st.user = (v, st.user)
            return osr(st, p, size, v)
        ex.store_raw = sr
        st = ex.new_state(); ptrs = []; ins = {}
        for a in self.args:
            if a[0] == "k": ptrs.append(a[1]); continue
            p = ex.alloc(st, 8 * a[1], "arg"); ptrs.append(p)
            if a[0] == "i":
                ls = []
                for i in range(a[1]):
                    m = self.pre.get(a[2])
                    v = 0 if m is not None and m >> 64 * i == 0 else tm.var(f"{a[2]}{i}", 64)
                    ls.append(v); ex.wr(st, p.obj, 8 * i, 8, v)
                ins[a[2]] = ls
            elif a[0] == "c":
                for i in range(a[1]): ex.wr(st, p.obj, 8 * i, 8, a[2] >> 64 * i & tm.mask(64))
        self.ins = ins; self.ptrs = ptrs
        outs = ex.run(self.fn, ptrs, st); ctx.count_paths(outs)
        return outs
    def go(self, ctx):
        probs = []
        try:
            outs = self.run(ctx); ex = self.ex
            if not outs: probs.append("no outcome")
            for o in outs:
                w = None
                for real in (True, False):
                    w = self.path(ctx, o, real)
                    if not w: break
                if w: probs.append(w)
            if not ctx.samples: ctx.samples.append({"function": self.fn, "paths": len(outs)})
        except (Unsupported, Budget) as e: probs.append(f"{type(e).__name__} {e}")
        if probs:
            if not self.search(ctx, 6000): ctx.inconclusive(f"{self.fn}: {'; '.join(probs)[:600]}")
        elif not self.search(ctx, 60): ctx.validated += 60
    def path(self, ctx, o, real):
        """one finished path against the goal; None if proved"""
        ex = self.ex; L = LiaSolver(60000, real=real)
        try:
            for v in trail(o.st.user): L.num(v)
            val = lambda ls: z3.Sum([L.num(v) * (1 << 64 * i) for i, v in enumerate(ls)])
            ivals = {k: val(v) for k, v in self.ins.items()}
            pre = [ivals[k] <= m for k, m in self.pre.items()]
            if o.kind == "ret":
                ov = {}
                for i, a in enumerate(self.args):
                    if a[0] == "o":
                        ls = [ex.read_int(o.st, ex.padd(self.ptrs[i], 8 * j), 8) for j in range(a[1])]
                        if any(l is None for l in ls): return f"output {i} not readable"
                        ov[i] = val(ls)
                g = self.goal(L, self.ins, ivals, ov)
                if self.throws: g = z3.And(g, z3.Not(self.throws(L, self.ins, ivals)))
                r = L.check_extra(o.st.pc, *pre, z3.Not(g))
                return None if r == "unsat" else f"relation: solver {r}"
            if o.kind == "throw" and self.throws:
                r = L.check_extra(o.st.pc, *pre, z3.Not(self.throws(L, self.ins, ivals)))
                return None if r == "unsat" else f"throws although the result fits: solver {r}"
            r = L.check_extra(o.st.pc, *pre)
            return None if r == "unsat" else f"outcome {o.kind} {str(o.info)[:100]}: solver {r}"
        finally: ctx.xq += L.queries; ctx.xt += L.time
    def search(self, ctx, n):
        for k in range(n):
            if self.gen: v = self.gen(ctx.rng)
            else: v = {a[2]: lim(ctx.rng, a[1]) for a in self.args if a[0] == "i"}
            if any(v[q] > m for q, m in self.pre.items()): v = {q: (x if q not in self.pre else x % (self.pre[q] + 1)) for q, x in v.items()}
            args = []
            for a in self.args:
                args.append(a[1] if a[0] == "k" else (v[a[2]] if a[0] == "i" else a[2] if a[0] == "c" else 0x5a).to_bytes(8 * a[1], "little"))
            e = self.ref(v)
            r = ctx.nat.call(self.fn, args)
            ok = (r[0] != "ret") if e is None else r[0] == "ret" and all(int.from_bytes(r[2][i], "little") == x for i, x in e.items())
            if not ok:
                got = r[0] if r[0] != "ret" else {i: hex(int.from_bytes(r[2][i], "little")) for i in (e or {})}
                ctx.violation(f"{self.fn}({', '.join(f'{q}={x:#x}' for q, x in v.items())}): got {got}, expected {'an exception' if e is None else {i: hex(x) for i, x in e.items()}}", call=(self.fn, args), observed=str(r)[:1500])
                return True
        return False
def carry_hooks(ex):
    """Add64/Sub64 through their contract (proved in C01/C02): exact 65-bit sum or difference"""
    def mk(sub):
        def h(ex, st, args, fn):
            x, y, c = (ex.read_int(st, p, 8) for p in args[1:4])
            if any(v is None for v in (x, y, c)): raise Unsupported("uninitialised operand")
            cz = tm.ult(64, 1, c)
            if tm.isT(cz) and ex.solver.sat(list(st.pc) + [cz]) != "unsat" or cz == 1: raise Unsupported("carry not a bit")
            X, Y, C = (tm.zext(64, 66, v) if tm.isT(v) else v for v in (x, y, c))
            s = tm.add(66, tm.add(66, X, Y), C) if not sub else tm.sub(66, tm.sub(66, X, Y), C)
            ex.write_int(st, ex.padd(args[0], 8), 8, tm.extract(s, 63, 0) if tm.isT(s) else s & tm.mask(64))
            cb = tm.extract(s, 64, 64) if tm.isT(s) else s >> 64 & 1
            ex.write_int(st, args[0], 8, tm.zext(1, 64, cb) if tm.isT(cb) else cb)
            return [(st, None)]
        return h
    for nm, sub in (("Add64", 0), ("Sub64", 1)):
        n = ex.mod.bydem.get(f"bls12_381::{nm}(unsigned long const&, unsigned long const&, unsigned long const&)")
        if n: ex.hooks[n] = mk(sub)
