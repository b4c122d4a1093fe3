"""Loop cutting: run a function up to the header of one loop, replace the state there by an arbitrary one satisfying an
invariant, and run one iteration at a time.  The client supplies the invariant; every arrival is checked against it."""
from . import terms as tm
from .exec import *
def sccs(f):
    n = len(f.blocks); idx = {}; low = {}; st = []; on = set(); out = []; c = [0]
    def succ(b): return f.succ[b]
    for root in range(n):
        if root in idx: continue
        work = [(root, 0)]
        while work:
            v, i = work.pop()
            if i == 0: idx[v] = low[v] = c[0]; c[0] += 1; st.append(v); on.add(v)
            rec = False
            ss = succ(v)
            for j in range(i, len(ss)):
                w = ss[j]
                if w not in idx: work.append((v, j + 1)); work.append((w, 0)); rec = True; break
                elif w in on: low[v] = min(low[v], idx[w])
            if rec: continue
            if low[v] == idx[v]:
                comp = set()
                while True:
                    w = st.pop(); on.discard(w); comp.add(w)
                    if w == v: break
                out.append(comp)
            if work: u = work[-1][0]; low[u] = min(low[u], low[v])
    return [s for s in out if len(s) > 1 or any(b in f.succ[b] for b in s)]
def has_op(mod, f, pred, seen=None):
    """does f (or anything it calls) contain an instruction satisfying pred?"""
    seen = seen if seen is not None else set()
    if f.name in seen: return False
    seen.add(f.name)
    return any(blk_has(mod, f, b, pred, seen) for b in range(len(f.blocks)))
def blk_has(mod, f, b, pred, seen=None):
    seen = seen if seen is not None else {f.name}
    for ins in f.blocks[b]:
        if pred(ins): return True
        if ins[0] == "call" and ins[2][0] and isinstance(ins[2][1], FnPtr):
            nm = ins[2][1].name
            g = mod.fn(nm) if nm in mod.fnvals else None
            if g is not None and has_op(mod, g, pred, seen): return True
    return False
def loop_header(mod, f, pred):
    """entry block of the outermost loop containing an instruction satisfying pred"""
    c = [s for s in sccs(f) if any(blk_has(mod, f, b, pred) for b in s)]
    if len(c) != 1: return None
    ent = {b for b in c[0] if any(b in f.succ[p] for p in range(len(f.blocks)) if p not in c[0])}
    return ent.pop() if len(ent) == 1 else None
class Cutter:
    """drives ex over function `name` with the cut at block `hdr`"""
    basic = True
    def __init__(self, ex, name, hdr):
        self.ex = ex; self.f = ex.mod.fn(name); self.hdr = hdr; self.arr = []; self.skip = False
        ex.cut = self
    def at(self, f, st, regs, blk):
        """called by the executor at block entry; True: the path ends here"""
        if f is not self.f or blk != self.hdr: return False
        if self.skip: self.skip = False; return False
        self.arr.append((st, regs)); return True
    def start(self, st, args):
        ex = self.ex; ex.stack = []; self.arr = []; nb = len(ex.bad)
        self.allocs = []
        regs = [None] * len(self.f.rty)
        for i, a in enumerate(args[:self.f.nparams]): regs[i] = a
        ex.stack.append(self.f.dem); ex.encoded[self.f.dem] = ex.encoded.get(self.f.dem, 0) + 1
        rets = []
        ex._run(self.f, st, regs, 0, 0, None, rets, self.allocs)
        return self.arr, rets, ex.bad[nb:]
    def step(self, st, regs):
        ex = self.ex; self.arr = []; nb = len(ex.bad); self.skip = True; rets = []
        ex._run(self.f, st, list(regs), self.hdr, 0, None, rets, self.allocs)
        return self.arr, rets, ex.bad[nb:]
