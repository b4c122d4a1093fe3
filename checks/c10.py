"""C10: scalar multiplication and multi-scalar sums are exact integer combinations."""
from engine.check import Ob
from engine.exec import *
from engine import terms as tm, grp
from engine.grp import *
from engine.ref import *
BOUNDS = "scale with 1, 2, 4 and 6 limbs: every point and every scalar bit pattern; weightedSum: every pair of list lengths 0..3 x 0..3, (4,4), (8,8), (31,31) (G1), (32,32), (33,33), (33,31), (4,9) (thorough: 0..5 x 0..5, up to 100), with and without the progress callback, all points and all 256-bit scalars symbolic"
OUTSIDE = "list lengths that are not listed (the window width changes at 32, 256, 2048, ... points)"
ASSUMPTIONS = ["the group operations (add, dbl, negate, subtract, isZero, equal, copy, zero) obey the group law: decided by C08/C09", "points are elements of an abelian group"]
def encpt(ty, p, rng=None):
    """affine reference point -> object bytes, in a random representation"""
    if p is None:
        if rng and rng.random() < .5: z = CE(0); x, y = (CE(rng.randrange(P)), CE(rng.randrange(P)))
        else: x, y, z = CE(0), CE(1), CE(0)
    else:
        z = CE(1) if not rng or rng.random() < .3 else CE(rng.randrange(1, P), rng.randrange(P) if ty == "g2" else 0)
        x = p[0] * z * z; y = p[1] * z * z * z
    out = b""
    for e in (x, y, z):
        out += (e.a * R % P).to_bytes(48, "little")
        if ty == "g2": out += (e.b * R % P).to_bytes(48, "little")
    return out
def decpt(ty, b):
    n = 1 if ty == "g1" else 2
    co = [int.from_bytes(b[48 * i:48 * i + 48], "little") for i in range(3 * n)]
    if any(c >= P for c in co): return "bad"
    co = [c * RI % P for c in co]
    x, y, z = [CE(co[i * n], co[i * n + 1] if n == 2 else 0) for i in range(3)]
    if z.iszero(): return None
    i = z.inv(); return (x * i * i, y * i * i * i)
GEN = {"g1": G1, "g2": G2}
def rnd(rng, bits):
    k = rng.randrange(9)
    if k == 0: return rng.choice([0, 1, 2, 3, 7, 8, 15, 16])
    if k == 1: return rng.choice([Q - 1, Q, Q + 1, 2 * Q, Q // 2]) % (1 << bits)
    if k == 2: return (1 << bits) - 1 - rng.choice([0, 1, 2])
    if k == 3: return 1 << rng.randrange(bits)
    if k == 4: return rng.getrandbits(bits) & rng.getrandbits(bits) & rng.getrandbits(bits)
    if k == 5: return (1 << bits) - (1 << rng.randrange(bits))
    if k == 6: return rng.getrandbits(rng.randrange(1, bits + 1))
    return rng.getrandbits(bits)
class Small:
    """a pool of random points k*G with known k"""
    def __init__(self, rng, ty): self.l = [(k, ec_mul(GEN[ty], k)) for k in [1, Q - 1, 0, 2] + [rng.randrange(Q) for _ in range(3)]]
    def pick(self, rng): return rng.choice(self.l)
def proper(r): return r[0] == "ret"
class Scale:
    """scalars whose bit length is in [lo, hi): the top bit is fixed, all lower bits are symbolic"""
    def __init__(self, ty, N, lo, hi): self.ty = ty; self.N = N; self.fn = f"h_{ty}_scale{N}"; self.lo = lo; self.hi = hi
    def go(self, ctx):
        ty, N = self.ty, self.N; probs = []
        try:
            for l in range(self.lo, self.hi):
                ex = ctx.exec(merge=True); g = install(ex, (ty,)); st = ex.new_state(); sv = 0
                if l: sv = tm.concat_list([(64 * N - l, 0), (1, 1)] + ([(l - 1, tm.extract(tm.var("s", 64 * N), l - 2, 0))] if l > 1 else [])) if l < 64 * N else tm.concat_list([(1, 1), (l - 1, tm.extract(tm.var("s", 64 * N), l - 2, 0))])
                o = ex.alloc(st, SZ[ty], "arg"); p = ex.alloc(st, SZ[ty], "arg"); g.wr(st, p, ty, {"P": cconst(1)})
                s = ex.alloc(st, 8 * N, "arg"); ex.write_int(st, s, 8 * N, sv)
                outs = ex.run(self.fn, [o, p, s], st); ctx.count_paths(outs)
                want = {"P": cbits(sv)} if l else {}
                if not outs: probs.append("no outcome")
                for r in outs:
                    if r.kind != "ret": probs.append(f"outcome {r.kind} {r.info}"); continue
                    w = g.same(r.st, g.rd(r.st, o, ty), want)
                    if w: probs.append(f"bit length {l}: {w}")
                    if g.same(r.st, g.rd(r.st, p, ty), {"P": cconst(1)}): probs.append("input point changed")
                if probs: break
        except (Unsupported, Budget) as e: probs.append(f"{type(e).__name__}: {e}")
        if probs:
            if not self.search(ctx, 500): ctx.inconclusive(f"{self.fn}: {'; '.join(probs)[:600]} and no failing input found")
        else: self.search(ctx, 3); ctx.validated += 3
        ctx.samples.append({"function": self.fn, "scalar bits": 64 * N, "bit lengths": [self.lo, self.hi - 1]})
    def search(self, ctx, n):
        pool = Small(ctx.rng, self.ty)
        for k in range(n):
            e, p = pool.pick(ctx.rng); s = rnd(ctx.rng, 64 * self.N) if k else 0
            a = [b"\x5a" * SZ[self.ty], encpt(self.ty, p, ctx.rng), s.to_bytes(8 * self.N, "little")]
            r = ctx.nat.call(self.fn, a); x = ec_mul(GEN[self.ty], e * s % Q)
            if not proper(r) or decpt(self.ty, r[2][0]) != x:
                ctx.violation(f"{self.fn}: scalar {s:#x} times the point {e:#x}*G: {str(r)[:200]}, expected {x}", call=(self.fn, a), observed=str(r)[:1500]); return True
        return False
class Sum:
    def __init__(self, ty, np, ns, cb): self.ty = ty; self.np = np; self.ns = ns; self.fn = f"h_{ty}_weightedSum" + ("_y" if cb else "")
    def go(self, ctx):
        ty, np, ns = self.ty, self.np, self.ns; probs = []
        try:
            ex = ctx.exec(merge=True); g = install(ex, (ty,)); st = ex.new_state()
            o = ex.alloc(st, SZ[ty], "arg"); p = ex.alloc(st, SZ[ty] * np, "arg"); s = ex.alloc(st, 32 * ns, "arg"); sv = []
            for i in range(np): g.wr(st, ex.padd(p, SZ[ty] * i), ty, {f"P{i}": cconst(1)})
            for i in range(ns): v = tm.var(f"s{i}", 256); sv.append(v); ex.write_int(st, ex.padd(s, 32 * i), 32, v)
            live = {i for i, x in st.mem.items() if x.kind == "heap"}
            outs = ex.run(self.fn, [o, p, np, s, ns], st); ctx.count_paths(outs)
            want = {f"P{i}": cbits(sv[i]) for i in range(min(np, ns))}
            if not outs: probs.append("no outcome")
            for r in outs:
                if r.kind != "ret": probs.append(f"outcome {r.kind} {r.info}"); continue
                w = g.same(r.st, g.rd(r.st, o, ty), want)
                if w: probs.append(w)
                if any(x.kind == "heap" and not x.dead and i not in live for i, x in r.st.mem.items()): probs.append("leaks memory")
        except (Unsupported, Budget) as e: probs.append(f"{type(e).__name__}: {e}")
        if probs:
            if not self.search(ctx, 300): ctx.inconclusive(f"{self.fn} {np} points {ns} scalars: {'; '.join(probs)[:600]} and no failing input found")
        else: self.search(ctx, 2); ctx.validated += 2
    def search(self, ctx, n):
        pool = Small(ctx.rng, self.ty)
        for k in range(n):
            ps = [pool.pick(ctx.rng) for _ in range(self.np)]; sc = [rnd(ctx.rng, 256) for _ in range(self.ns)]
            a = [b"\x5a" * SZ[self.ty], b"".join(encpt(self.ty, p, ctx.rng) for _, p in ps), self.np, b"".join(s.to_bytes(32, "little") for s in sc), self.ns]
            e = sum(x * s for (x, _), s in zip(ps, sc)) % Q; x = ec_mul(GEN[self.ty], e)
            r = ctx.nat.call(self.fn, a); bad = not proper(r) or decpt(self.ty, r[2][0]) != x
            if not bad and n > 10 and k < 2: r = ctx.asan.call(self.fn, a); bad = r[0] == "san"
            if bad:
                ctx.violation(f"{self.fn}: points {[hex(x) for x, _ in ps][:8]}*G, scalars {[hex(s) for s in sc][:8]}: {str(r)[:300]}, expected {x}", call=(self.fn, a), observed=str(r)[:1500]); return True
        return False
def obligations(ctx):
    ctx.mod(); ctx.nat; obs = []
    for ty in ("g1", "g2"):
        for N in (1, 2, 4, 6):
            n = 64 * N + 1; cuts = sorted({round(n * (k / N) ** .5) for k in range(N + 1)} if N > 1 else {0, n})
            for lo, hi in zip(cuts, cuts[1:]): obs.append(Ob(f"{ty}.scale<{N}> bit lengths {lo}..{hi - 1}", Scale(ty, N, lo, hi).go, deadline=700, weight=N))
        g = 4 if ctx.quick else 6
        ls = [(a, b) for a in range(g) for b in range(g)] + [(n, n) for n in ((4, 8, 31, 32, 33) if ctx.quick else (6, 7, 8, 16, 31, 32, 33, 64, 100))] + [(33, 31), (4, 9)]
        for a, b in ls:
            if not (ctx.quick and ty == "g2" and max(a, b) == 31): obs.append(Ob(f"{ty}.weightedSum {a} points {b} scalars", Sum(ty, a, b, False).go, deadline=800, weight=min(a, b)))
        for a, b in ((0, 0), (1, 1), (3, 2)) + (() if ctx.quick else ((33, 33),)): obs.append(Ob(f"{ty}.weightedSum {a} points {b} scalars, callback", Sum(ty, a, b, True).go, deadline=800, weight=min(a, b)))
    return obs
