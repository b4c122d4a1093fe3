"""Obligations over the field-polynomial domain: run an API wrapper symbolically, compare every output
with its algebraic specification on every path, validate against the native library, and search and replay
a counterexample when the comparison fails."""
import z3
from . import terms as tm
from .exec import *
from .ring import *
from .ref import *
from .check import Ref, Inconclusive
NEL = {"fp": 1, "fp2": 1, "fp6": 3, "fp12": 6, "g1": 3, "g2": 3, "fp2x2": 2, "fp2x3": 3, "fpx2": 2}
REAL = {"fp", "g1", "fpx2"}                      # coordinates in Fp
def esz(ty): return 48 if ty in REAL else 96
def tsz(ty): return NEL[ty] * esz(ty)

def le(x, n): return int(x).to_bytes(n, "little")
def enc_ce(ty, elems):
    """concrete elements -> object bytes (Montgomery form)"""
    b = b""
    for e in elems:
        b += le(e.a * R % P, 48)
        if ty not in REAL: b += le(e.b * R % P, 48)
    return b
def dec_ce(ty, b):
    """object bytes -> (elements, canonical?)"""
    out = []; ok = True; k = esz(ty)
    for i in range(NEL[ty]):
        a = int.from_bytes(b[i * k:i * k + 48], "little"); ok &= a < P
        im = 0
        if ty not in REAL:
            im = int.from_bytes(b[i * k + 48:i * k + 96], "little"); ok &= im < P
        out.append(CE(a * RI, im * RI))
    return out, ok
def sym_obj(rg, ty, name):
    """fresh symbolic object -> list of PE"""
    if ty in REAL: return [PE(rg.fpvar(f"{name}{i}")[1], rg) for i in range(NEL[ty])]
    return [PE(rg.fp2var(f"{name}{i}"), rg) for i in range(NEL[ty])]
def put_obj(ex, rg, st, p, ty, elems):
    k = esz(ty)
    for i, e in enumerate(elems):
        if ty in REAL: ex.write_int(st, Ptr(p.obj, p.off + k * i), 48, rg.term(rg.norm(e.p)))
        else:
            q = rg.norm(e.p)
            ex.write_int(st, Ptr(p.obj, p.off + k * i), 48, rg.term(rg.realpart(q)))
            ex.write_int(st, Ptr(p.obj, p.off + k * i + 48), 48, rg.term(rg.imagpart(q)))
def get_obj(ex, rg, st, p, ty):
    k = esz(ty); out = []; bad = []
    for i in range(NEL[ty]):
        parts = []
        for j in range(1 if ty in REAL else 2):
            v = ex.read_int(st, Ptr(p.obj, p.off + k * i + 48 * j), 48)
            if v is None: raise Inconclusive("unreadable output")
            e = rg.elem(st, v)
            if e.b != 1:
                # canonical only if the raw value is provably below p
                if not tm.isT(v) or ex.solver.sat(list(st.pc) + [tm.not_(tm.ult(384, v, P))]) != "unsat": bad.append((i, j))
            parts.append(e.p)
        p0 = parts[0]
        if len(parts) == 2: p0 = padd(p0, pmul(parts[1], {U1: 1}))
        out.append(PE(rg.norm(p0), rg))
    return out, bad

def rand_ce(rng, ty, special=0.25):
    out = []
    for i in range(NEL[ty]):
        def one():
            if rng.random() < special: return rng.choice([0, 0, 1, P - 1, 2, 3, (P - 1) // 2, (P + 1) // 2, RI, R % P, pow(2, 383) % P, P - 2])
            return rng.randrange(P)
        out.append(CE(one(), 0 if ty in REAL else one()))
    return out
def default_gen(args):
    """generator of concrete input lists for the replay search: random, special values, related operands"""
    tys = [t for k, t in args if k in ("i", "io")]
    def gen(rng, n):
        for k in range(n):
            vs = [rand_ce(rng, t, special=[0, .25, .6, 1][k % 4]) for t in tys]
            if k % 5 == 3 and len(vs) > 1 and tys[0] == tys[1]:
                vs[1] = list(vs[0]) if k % 2 else [-x for x in vs[0]]
            if k % 7 == 5: vs[0] = [CE(0)] * len(vs[0])
            yield vs
    return gen

class RingCase:
    """args: list of (kind, type) with kind o / i / io / int(value) ; alias: {index: index}.
    spec(ins) -> {arg index: expected elements} | None;  rel(ins, outs) -> list of elements that must vanish
    pred(ins) -> list of elements: the function must return 1 exactly when all vanish."""
    def __init__(self, fn, args, spec=None, rel=None, pred=None, alias=None, gen=None, mk=None, cases=None, merge=False, prep=None, hooks=None, predt=None):
        self.predt = predt; self.fn = fn; self.args = args; self.spec = spec; self.rel = rel; self.pred = pred; self.alias = alias or {}
        self.gen = gen or default_gen([a for i, a in enumerate(args) if i not in self.alias]); self.mk = mk; self.merge = merge; self.prep = prep; self.hooks = hooks
    # ---- symbolic
    def run(self, ctx):
        ex = ctx.exec(merge=self.merge, ring=True); rg = ex.ring
        if self.hooks: self.hooks(ex)
        st = ex.new_state()
        ptrs = []; ins = []; slots = []
        ivars = None
        if self.mk: ivars = self.mk(rg)
        k = 0
        for i, (kind, ty) in enumerate(self.args):
            if i in self.alias:
                ptrs.append(ptrs[self.alias[i]]); ins.append(None); continue
            if kind == "int": ptrs.append(ty); ins.append(None); continue
            if kind == "bytes":
                p = ex.alloc(st, len(ty), "arg"); 
                for j, b in enumerate(ty): ex.wr(st, p.obj, j, 1, b)
                ptrs.append(p); ins.append(None); continue
            p = ex.alloc(st, tsz(ty), "arg", name=f"arg{i}")
            if kind in ("i", "io"):
                e = ivars[k] if ivars is not None else sym_obj(rg, ty, "abcdef"[i % 6]); k += 1
                put_obj(ex, rg, st, p, ty, e); ins.append(e)
            else: ins.append(None)
            ptrs.append(p)
        # aliased inputs see the same elements
        for i, j in self.alias.items():
            if self.args[i][0] in ("i", "io"): ins[i] = ins[j]
        self.ins = [v for i, v in enumerate(ins) if self.args[i][0] in ("i", "io")]
        if self.prep: self.prep(ex, rg, st, self.ins)
        outs = ex.run(self.fn, ptrs, st)
        ctx.count_paths(outs)
        self.ex, self.rg, self.ptrs, self.outs = ex, rg, ptrs, outs
        return outs
    def outputs(self, o):
        """{arg index: (elements, noncanonical list)}"""
        r = {}
        for i, (kind, ty) in enumerate(self.args):
            if kind in ("o", "io") and i not in self.alias: r[i] = get_obj(self.ex, self.rg, o.st, self.ptrs[i], ty)
        return r
    def check(self, ctx):
        """-> list of problems (text)"""
        probs = []
        outs = self.run(ctx)
        ex, rg = self.ex, self.rg
        if not any(o.kind == "ret" for o in outs): probs.append("no normal return")
        for o in outs:
            if o.kind != "ret":
                probs.append(f"abnormal outcome {o.kind} {o.info}"); continue
            try: res = self.outputs(o)
            except Inconclusive as e: probs.append(str(e)); continue
            for i, (el, bad) in res.items():
                if bad: probs.append(f"argument {i}: coordinate(s) {bad} not provably canonical")
            todo = [o.st.pc]; nsplit = 0
            while todo:
                o.st.pc = todo.pop()
                facts = rg.facts(o.st); rels = []
                try:
                    if self.spec:
                        for i, exp in self.spec(self.ins).items():
                            i2 = self.alias.get(i, i)
                            rels += [(f"out{i2}[{j}]", (g - e).p) for j, (g, e) in enumerate(zip(res[i2][0], exp))]
                    if self.rel:
                        rels += [(f"rel{j}", e.p) for j, e in enumerate(self.rel(self.ins, {i: v[0] for i, v in res.items()}, Case(ex, rg, o)))]
                    for nm, p in rels:
                        if not rg.is_zero_under(p, facts): probs.append(f"{nm}: residue with {len(p)} terms on path {[str(f)[:60] for f in facts][:4]}")
                except Split as e:
                    nsplit += 1
                    if nsplit > 64: probs.append("too many case splits"); break
                    for c in (e.c, tm.not_(e.c)):
                        if ex.solver.sat(list(o.st.pc) + [c]) != "unsat": todo.append(o.st.pc + (c,))
                except Inconclusive as e: probs.append(str(e))
            if self.pred or self.predt:
                if self.predt: want = self.predt(self.ins, Case(ex, rg, o))
                else: want = tm.and_all([rg.zero_atom(c) for c in self.pred_real(rg, self.pred(self.ins))])
                r = o.ret
                got = tm.not_(tm.eq(64, r, 0)) if tm.isT(r) else int(r != 0)
                got = rg.rewrite(got) if tm.isT(got) else got
                diff = tm.xor(1, got, want)
                if tm.isT(diff):
                    if ex.solver.sat(list(o.st.pc) + [diff]) != "unsat": probs.append("predicate differs")
                elif diff: probs.append("predicate differs")
        return probs
    def pred_real(self, rg, els):
        out = []
        for e in els:
            re, im = rg.realpart(e.p), rg.imagpart(e.p)
            out.append(re)
            if im: out.append(im)
        return out
    # ---- concrete
    def concrete(self, ctx, vals):
        """run natively with concrete inputs; returns (result, problem or None)"""
        args = []; k = 0; ins = []; full = []
        for i, (kind, ty) in enumerate(self.args):
            if i in self.alias:
                args.append(Ref(self.alias[i])); full.append(full[self.alias[i]]); continue
            if kind == "int": args.append(ty); full.append(None); continue
            if kind == "bytes": args.append(ty); full.append(None); continue
            if kind in ("i", "io"): v = vals[k]; k += 1; args.append(enc_ce(ty, v)); full.append(v)
            else: args.append(b"\x5A" * tsz(ty)); full.append(None)
        ins = [full[i] for i, (kd, t) in enumerate(self.args) if kd in ("i", "io")]
        r = ctx.nat.call(self.fn, args)
        if r[0] != "ret": return args, r, f"native call: {r[0]}"
        outs = {}; prob = None
        for i, (kind, ty) in enumerate(self.args):
            if kind in ("o", "io") and i not in self.alias:
                outs[i], ok = dec_ce(ty, r[2][i])
                if not ok: prob = f"argument {i}: output not canonical"
        try:
            if self.spec and not prob:
                for i, exp in self.spec(ins).items():
                    if list(outs[self.alias.get(i, i)]) != list(exp): prob = f"argument {i}: wrong value (expected {exp})"
            if self.rel and not prob:
                for j, e in enumerate(self.rel(ins, outs, None)):
                    if not e.iszero(): prob = f"relation {j} does not hold"
            if self.pred and not prob:
                want = all(e.iszero() for e in self.pred(ins))
                if bool(r[1]) != want: prob = f"returned {r[1]}, expected {want}"
            if self.predt and not prob:
                want = self.predt(ins, None)
                if bool(r[1]) != bool(want): prob = f"returned {r[1]}, expected {want}"
        except SkipCase: return args, r, None
        return args, r, prob
    def search(self, ctx, n=300):
        for vals in self.gen(ctx.rng, n):
            args, r, prob = self.concrete(ctx, vals)
            if prob:
                ctx.violation(f"{self.fn}: {prob}", call=(self.fn, args), observed=str(r)[:3000])
                return True
        return False
    def validate(self, ctx, n=2):
        """a few concrete runs: native result == reference (the same specification evaluated concretely)"""
        for vals in self.gen(ctx.rng, n):
            args, r, prob = self.concrete(ctx, vals)
            if prob:
                ctx.violation(f"{self.fn}: {prob}", call=(self.fn, args), observed=str(r)[:3000]); return
            ctx.validated += 1
    def go(self, ctx):
        try: probs = self.check(ctx)
        except (Unsupported, Budget, Inconclusive) as e: probs = [f"{type(e).__name__}: {e}"]
        if probs:
            if not self.search(ctx):
                ctx.inconclusive(f"{self.fn}: not proved ({'; '.join(probs)[:800]}) and no failing input found")
            return
        self.validate(ctx)
        if not ctx.samples and self.outs:
            o = self.outs[0]
            ctx.samples.append({"function": self.fn, "alias": self.alias, "paths": len(self.outs), "path_condition": [repr(c) for c in o.st.pc][:4]})
class SkipCase(Exception): pass
class Split(Exception):
    """the property distinguishes cases the path does not: split it on condition c"""
    def __init__(s, c): s.c = c
class Case:
    """context handed to rel(): path information (None for concrete evaluation)"""
    def __init__(self, ex, rg, o): self.ex = ex; self.rg = rg; self.o = o
    def atom(self, e):
        rg = self.rg
        p = rg.norm(e.p)
        re, im = rg.realpart(p), rg.imagpart(p)
        if len(p) == 1:
            a = rg.zero_atom(p); k = ("m", pkey(p))
            if re and im and k not in rg.linked and tm.isT(a):
                rg.linked.add(k)
                self.ex.solver.s.add(tm.zb(a) == z3.And(*[tm.zb(x) for x in (rg.zero_atom(re), rg.zero_atom(im)) if tm.isT(x)]))
                self.ex.solver.cache.clear()
            return a
        return tm.and_all([rg.zero_atom(x) for x in (re, im) if x])
    def decide(self, a):
        if not tm.isT(a): return bool(a)
        pc = list(self.o.st.pc)
        if self.ex.solver.sat(pc + [a]) == "unsat": return False
        if self.ex.solver.sat(pc + [tm.not_(a)]) == "unsat": return True
        raise Split(a)
    def zero(self, e):
        """is e == 0 on this path? True / False (splits the path if undecided)"""
        return self.decide(self.atom(e))
    def nonzero(self, e, factors=()):
        """e is a product of the given factors and variables, none of which vanishes on this path (else Inconclusive)"""
        rg = self.rg; p = rg.clear(e.p)
        if not p: raise Inconclusive("value is zero")
        used = []
        for f in factors:
            fp_ = rg.norm(f.p); k = 0
            if not fp_ or (len(fp_) == 1 and 0 in fp_): continue
            while True:
                q = pdivexact(p, fp_)
                if q is None: break
                p = q; k += 1
            if k: used.append(f)
        g = None
        for m in p:
            d = dict(exps(m)); g = d if g is None else {i: min(g[i], d[i]) for i in g if i in d}
        g = {i: k for i, k in (g or {}).items() if i}
        mm = sum(k << (SH * i) for i, k in g.items())
        rest = {m - mm: c for m, c in p.items()}
        if set(rest) - {0, U1}:
            if self.zero(PE(p, rg)) is False: return True
            raise Inconclusive(f"cannot show value nonzero ({len(rest)} terms)")
        for f in used + [PE(rg.var(i), rg) for i in g if i not in rg.inv]:
            if self.zero(f): raise Inconclusive("value has a zero factor")
        return True
