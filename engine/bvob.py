"""Obligations over bit-vectors: run a wrapper on symbolic buffers/scalars and compare every output with a
specification term on every path; counterexamples are replayed against the compiled code."""
import z3, os
from . import terms as tm
from .exec import *
from .check import Ref, Inconclusive
def rand_bits(rng, w):
    k = rng.randrange(6)
    if k == 0: return rng.choice([0, 1, tm.mask(w), 1 << (w - 1), tm.mask(w) >> 1, tm.mask(w) - 1])
    if k == 1: return sum(rng.choice([0, 1, tm.mask(64), 1 << 63, rng.getrandbits(64)]) << (64 * i) for i in range((w + 63) // 64)) & tm.mask(w)
    if k == 2: return rng.getrandbits(rng.randrange(1, w + 1))
    if k == 3: return (1 << rng.randrange(w)) - rng.randrange(2)
    return rng.getrandbits(w)
class BvCase:
    """args: ("i"|"io", nbytes, name) symbolic buffer; ("o", nbytes); ("v", width, name) symbolic scalar; ("c", int).
    spec(ins) -> {arg index: expected little-endian integer term of the buffer, "ret": 64-bit term}, ins: {name: term}
    pre(ins) -> list of 1-bit terms.  alias {index: index}.  keep: input-only buffers must be unchanged (checked)."""
    def __init__(self, fn, args, spec, pre=None, alias=None, gen=None, retw=64, hooks=None, merge=True, timeout=120000, portable=False, inplace=None, canon=None):
        self.fn = fn; self.args = args; self.spec = spec; self.pre = pre; self.alias = alias or {}; self.gen = gen; self.retw = retw
        self.hooks = hooks; self.merge = merge; self.timeout = timeout; self.portable = portable; self.abnormal_ok = False
    def width(self, a): return 8 * a[1] if a[0] in ("i", "io", "o") else a[1]
    def symbols(self):
        ins = {}
        for i, a in enumerate(self.args):
            if i in self.alias: continue
            if a[0] in ("i", "io"): ins[a[2]] = tm.concat_list([(8, tm.var(f"{a[2]}[{j}]", 8)) for j in reversed(range(a[1]))]) if a[1] else 0
            if a[0] == "v": ins[a[2]] = tm.var(a[2], a[1])
        for i, j in self.alias.items():
            if self.args[i][0] in ("i", "io"): ins[self.args[i][2]] = ins[self.args[j][2]]
        return ins
    def run(self, ctx):
        ex = ctx.exec(merge=self.merge, mod=ctx.mod(self.portable)); self.ex = ex
        if self.hooks: self.hooks(ex)
        st = ex.new_state(); ins = self.symbols(); ptrs = []
        for i, a in enumerate(self.args):
            if i in self.alias: ptrs.append(ptrs[self.alias[i]]); continue
            if a[0] == "c": ptrs.append(a[1]); continue
            if a[0] == "v": ptrs.append(ins[a[2]] if a[1] == 64 else tm.zext(a[1], 64, ins[a[2]]) if a[1] < 64 else ins[a[2]]); continue
            p = ex.alloc(st, max(1, a[1]), "heap", name=f"arg{i}")
            if a[1] == 0: ex.mark_size(p, 0) if hasattr(ex, "mark_size") else None
            if a[0] in ("i", "io") and a[1]:
                for j in range(a[1]): ex.wr(st, p.obj, j, 1, tm.extract(ins[a[2]], 8 * j + 7, 8 * j))
            ptrs.append(p)
        pre = [c for c in (self.pre(ins) if self.pre else [])]
        if any(c == 0 for c in pre if not tm.isT(c)): raise Inconclusive("precondition false")
        st.pc = tuple(c for c in pre if tm.isT(c))
        self.ins = ins; self.ptrs = ptrs
        outs = ex.run(self.fn, ptrs, st); ctx.count_paths(outs)
        return outs
    def neq(self, got, exp, w):
        return tm.not_(tm.eq(w, got, exp))
    def check(self, ctx):
        probs = []; self.cands = []
        outs = self.run(ctx); ex = self.ex
        exp = self.spec(self.ins)
        if not any(o.kind == "ret" for o in outs): probs.append("no normal return")
        for o in outs:
            if o.kind != "ret":
                probs.append(f"abnormal outcome {o.kind} {o.info}")
                self.model(ctx, list(o.st.pc)); continue
            goals = []
            for k, e in exp.items():
                if k == "ret":
                    r = o.ret
                    if self.retw < 64 and tm.isT(r) and r.w > self.retw: r = tm.extract(r, self.retw - 1, 0)
                    w = r.w if tm.isT(r) else e.w if tm.isT(e) else 64
                    if tm.isT(e) and e.w < w: e = tm.zext(e.w, w, e)
                    goals.append(("ret", self.neq(r, e, w)))
                else:
                    n = self.args[k][1]; p = self.ptrs[k]
                    g = ex.read_int(o.st, p, n)
                    if g is None: probs.append(f"output {k} not readable"); continue
                    goals.append((k, self.neq(g, e, 8 * n)))
            for i, a in enumerate(self.args):
                if a[0] == "i" and a[1] and i not in self.alias and i not in self.alias.values():
                    g = ex.read_int(o.st, self.ptrs[i], a[1])
                    if g is not self.ins[a[2]]: goals.append((f"input {i} changed", self.neq(g, self.ins[a[2]], 8 * a[1])))
            bad = tm.or_all([g for _, g in goals])
            if not tm.isT(bad):
                if bad: probs.append("mismatch"); self.model(ctx, list(o.st.pc))
                continue
            if not self.decide(ctx, list(o.st.pc), bad): probs.append(f"mismatch or undecided: {[k for k, g in goals if tm.isT(g) or g]}")
        return probs
    def decide(self, ctx, pc, bad):
        s = z3.SolverFor("QF_BV"); s.set("timeout", self.timeout)
        for c in pc + [bad]: s.add(tm.zb(c))
        r = ctx.query(s)
        if r == "sat": self.grab(s.model())
        return r == "unsat"
    def model(self, ctx, pc):
        s = z3.SolverFor("QF_BV"); s.set("timeout", self.timeout)
        for c in pc: s.add(tm.zb(c))
        if ctx.query(s) == "sat": self.grab(s.model())
    def grab(self, m):
        vals = {}
        for nm, t in self.ins.items(): vals[nm] = m.eval(tm.z(t), model_completion=True).as_long() if tm.isT(t) else t
        self.cands.append(vals)
    # ---- concrete
    def concrete(self, ctx, vals):
        env = {}
        for nm, t in self.ins.items():
            if not tm.isT(t): continue
            v = vals[nm]
            if t.op == "var": env[t.args[0]] = v
            else:
                for j in range(t.w // 8): env[f"{nm}[{j}]"] = v >> (8 * j) & 255
        # aliased names share the representative's variables
        for i, j in self.alias.items():
            if self.args[i][0] in ("i", "io"): vals[self.args[i][2]] = vals[self.args[j][2]]
        ev = lambda t: tm.evaluate(t, env)
        if self.pre and any(not (ev(c) if tm.isT(c) else c) for c in self.pre(self.ins)): return None
        args = []
        for i, a in enumerate(self.args):
            if i in self.alias: args.append(Ref(self.alias[i])); continue
            if a[0] == "c": args.append(a[1])
            elif a[0] == "v": args.append(vals[a[2]])
            elif a[0] == "o": args.append(b"\x5A" * a[1])
            else: args.append(vals[a[2]].to_bytes(a[1], "little"))
        nat = ctx.nat_portable if self.portable else ctx.nat
        r = nat.call(self.fn, args, timeout=20)
        prob = None
        if r[0] != "ret": prob = f"native call: {r[0]}"; exp = {}
        else:
            exp = {k: (ev(e) if tm.isT(e) else e) for k, e in self.spec(self.ins).items()}
            for k, e in exp.items():
                g = (r[1] & tm.mask(self.retw)) if k == "ret" else int.from_bytes(r[2][k], "little")
                if k == "ret": e &= tm.mask(self.retw)
                if g != e: prob = f"{'return value' if k == 'ret' else f'argument {k}'} is {g:#x}, expected {e:#x}"
        return args, r, prob, vals
    def try_(self, ctx, vals):
        c = self.concrete(ctx, vals)
        if c is None: return None
        args, r, prob, vals = c
        if prob:
            ctx.violation(f"{self.fn}{self.desc()}: {prob} for {({k: hex(v) for k, v in vals.items()})}", call=(self.fn, args), observed=str(r)[:2000])
            return True
        return False
    def desc(self): return "" if not self.alias else f" (aliased {self.alias})"
    def randoms(self, ctx, n):
        for k in range(n):
            if self.gen: yield self.gen(ctx.rng)
            else: yield {nm: rand_bits(ctx.rng, t.w) if tm.isT(t) else t for nm, t in self.ins.items()}
    def search(self, ctx, n=400):
        for v in list(self.cands) + list(self.randoms(ctx, n)):
            if self.try_(ctx, v): return True
        return False
    def go(self, ctx):
        self.ins = self.symbols(); self.cands = []
        try: probs = self.check(ctx)
        except (Unsupported, Budget, Inconclusive) as e: probs = [f"{type(e).__name__}: {e}"]
        if probs:
            if not self.search(ctx): ctx.inconclusive(f"{self.fn}: not proved ({'; '.join(probs)[:700]}) and no failing input found")
            return
        for v in self.randoms(ctx, 3):
            if self.try_(ctx, v) is False: ctx.validated += 1
        ctx.samples.append({"function": self.fn, "alias": {str(k): v for k, v in self.alias.items()}})
