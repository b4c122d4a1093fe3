"""Free-form obligations: set up a symbolic state, run a function, and require a list of conditions on every path.
A condition is a 1-bit term (or int): it is discharged when its negation is unsatisfiable under the path condition."""
import z3
from . import terms as tm
from .exec import *
from .check import Ref, Inconclusive
from .ring import *
class Flow:
    """setup(ex) -> (state, args);  conds(o, ex) -> iterable of (label, 1-bit term that must hold);
    search(ctx) -> True if it reported a reproduced violation;  validate(ctx) -> concrete runs"""
    def __init__(self, fn, setup, conds, search, ring=True, merge=False, hooks=None, fph=True, abnormal=None, validate=None, nval=20, cand=None, portable=False):
        self.fn = fn; self.setup = setup; self.conds = conds; self.searchf = search; self.ring = ring; self.merge = merge; self.hooks = hooks
        self.fph = fph; self.abnormal = abnormal; self.nval = nval; self.cand = cand
    def go(self, ctx):
        probs = []; self.models = []
        try:
            ex = ctx.exec(merge=self.merge, ring=self.ring, fph=self.fph); self.ex = ex
            if self.hooks: self.hooks(ex)
            st, args = self.setup(ex)
            outs = ex.run(ex.mod.bydem.get(self.fn, self.fn), args, st); ctx.count_paths(outs)
            if not outs: probs.append("no outcome")
            for o in outs:
                if o.kind != "ret" and not (self.abnormal and self.abnormal(o, ex)):
                    probs.append(f"abnormal outcome {o.kind} {str(o.info)[:200]}"); continue
                for lab, c in self.conds(o, ex):
                    if not tm.isT(c):
                        if not c: probs.append(f"{lab}: differs")
                        continue
                    if ex.ring and ex.ring is not None: c = ex.ring.rewrite(c)
                    n = tm.not_(c)
                    if not tm.isT(n):
                        if n: probs.append(f"{lab}: differs")
                        continue
                    r = ex.solver.sat(list(o.st.pc) + [n])
                    if r != "unsat":
                        probs.append(f"{lab}: solver {r}")
                        if r == "sat" and self.cand:
                            try: self.models.append(self.cand(ex, o, list(o.st.pc) + [n]))
                            except Exception as e: probs.append(f"model: {e}")
            if not ctx.samples and outs: ctx.samples.append({"function": self.fn, "paths": len(outs), "path_condition": [repr(c)[:200] for c in outs[0].st.pc][:3]})
        except (Unsupported, Budget, Inconclusive) as e: probs.append(f"{type(e).__name__}: {e}")
        if probs:
            if not self.searchf(ctx, 4000, [m for m in self.models if m is not None]): ctx.inconclusive(f"{self.fn}: not proved ({'; '.join(probs)[:700]}) and no failing input found")
        elif not self.searchf(ctx, self.nval, []): ctx.validated += self.nval
def bytes_of(ex, st, n, val, be=False, kind="arg", name=None):
    """allocate n bytes holding the integer term val"""
    p = ex.alloc(st, max(n, 1), kind, name=name)
    for j in range(n): ex.wr(st, p.obj, (n - 1 - j) if be else j, 1, tm.extract(val, 8 * j + 7, 8 * j) if tm.isT(val) else val >> 8 * j & 255)
    return p
def read_be(ex, st, p, n):
    v = ex.read_int(st, p, n)
    return bswap(v, n)
def bswap(v, n):
    if not tm.isT(v): return int.from_bytes(int(v).to_bytes(n, "little"), "big")
    return tm.concat_list([(8, tm.extract(v, 8 * j + 7, 8 * j)) for j in range(n)])
