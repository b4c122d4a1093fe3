"""C16: verification accepts exactly the valid signatures."""
from checks.sigs import *
from engine.check import PtrArr
BOUNDS = "verify and pop_fast_aggregate_verify: message lengths 0, 1, 2, 33 with symbolic content, 0..4 keys (thorough 0..8); aggregate_verify: 0..3 keys x 0..3 messages (thorough: up to 4), message lengths 0..2 in mixed combinations, with and without the duplicate check; keys and signatures arbitrary: on or off the curve, in or out of the subgroup, at infinity, related to each other, in any representation"
OUTSIDE = "longer lists; sums of keys that are not on the curve (pop_fast_aggregate_verify adds before it tests, the test is applied to the sum)"
ASSUMPTIONS = ["isOnCurve and inCorrectSubgroup answer by the point, not its representation (C08, C13)", "group operations (C08, C09), the pairing product of affine pairs is bilinear and non-degenerate (C15), hash-to-curve lands in the subgroup (C14)",
               "libstdc++'s red-black tree insertion behaves as a binary search tree"]
class V:
    """one entry point: kind in verify, fast, pop, aggregate"""
    def __init__(self, kind, npk, lens, dup=0): self.kind = kind; self.npk = npk; self.lens = lens; self.dup = dup
    fn = property(lambda s: {"verify": "h_verify", "fast": "h_pop_fast_aggregate_verify", "pop": "h_pop_verify", "aggregate": "h_aggregate_verify"}[s.kind])
    def run(self, ctx):
        S = Sig(ctx); ex = S.ex; g = S.g; st = ex.new_state(); k = self.kind
        s = ex.alloc(st, 288, "arg"); g.wr(st, s, "g2", {"S": cconst(1)})
        p = ex.alloc(st, 144 * max(self.npk, 1), "arg")
        for i in range(self.npk): g.wr(st, ex.padd(p, 144 * i), "g1", {f"P{i}": cconst(1)})
        ms = []; mp = []
        for i, n in enumerate(self.lens):
            m = [tm.var(f"m{i}[{j}]", 8) for j in range(n)]; q = ex.alloc(st, n, "arg"); ms.append(m); mp.append(q)
            for j, b in enumerate(m): ex.wr(st, q.obj, j, 1, b)
        if k == "verify": args = [p, mp[0], self.lens[0], s]
        elif k == "fast": args = [p, self.npk, mp[0], self.lens[0], s]
        elif k == "pop": args = [p, s]
        else:
            n = len(ms); a = ex.alloc(st, 8 * n, "arg"); l = ex.alloc(st, 8 * n, "arg")
            for i in range(n): ex.store_raw(st, ex.padd(a, 8 * i), 8, mp[i]); ex.wr(st, l.obj, 8 * i, 8, self.lens[i])
            args = [p, self.npk, a, l, n, s, self.dup]
        live = {i for i, x in st.mem.items() if x.kind == "heap"}
        outs = ex.run(self.fn, args, st); ctx.count_paths(outs); probs = []
        if not outs: probs.append("no outcome")
        for o in outs:
            if o.kind != "ret": probs.append(f"outcome {o.kind} {o.info}"); continue
            w = S.decide(o, o.ret, self.spec(S, ms))
            if w: probs.append(w)
            if any(x.kind == "heap" and not x.dead and i not in live for i, x in o.st.mem.items()): probs.append("leaks memory")
        return probs
    def spec(self, S, ms):
        sig = {"S": cconst(1)}; pks = [{f"P{i}": cconst(1)} for i in range(self.npk)]; k = self.kind; c = []
        good = lambda ty, f: [S.member("curve", ty, f), S.member("sub", ty, f)]
        if k == "fast":
            if not pks: return 0
            t = {}
            for f in pks: t = fadd(t, f)
            pks = [t]
        if k == "aggregate":
            if len(ms) != len(pks): return 0
            if self.dup:
                for i in range(len(ms)):
                    for j in range(i):
                        if len(ms[i]) == len(ms[j]): c.append(tm.not_(conj([tm.eq(8, x, y) for x, y in zip(ms[i], ms[j])])) if ms[i] else 0)
            hs = [S.hash_gen(m, CS) for m in ms]
        elif k == "pop": hs = [S.hash_gen(S.encoding("toAffineBytesLE", "g1", pks[0], (1,), 96), POP)]
        else: hs = [S.hash_gen(ms[0], CS)]
        for f in pks: c += good("g1", f)
        c += good("g2", sig); f = bil({"G": cconst(-1)}, sig)
        for p, h in zip(pks, hs): f = fadd(f, bil(p, {h: cconst(1)}))
        return conj(c + [S.gteq(f, {})])
    def go(self, ctx):
        try: probs = self.run(ctx)
        except (Unsupported, Budget) as e: probs = [f"{type(e).__name__}: {e}"]
        if probs:
            if not self.search(ctx, 500): ctx.inconclusive(f"{self.fn} {self.npk} keys, messages of {self.lens}: {'; '.join(probs)[:500]} and no failing input found")
        elif not self.search(ctx, 4): ctx.validated += 4
    def search(self, ctx, N):
        if self.kind == "aggregate" and self.dup and N > 10 and len(self.lens) > 1: N *= 2
        W = getattr(ctx, "_world", None) or World(ctx); ctx._world = W; rng = ctx.rng
        for it in range(N):
            ks = [rng.choice([1, 2, Q - 1, rng.randrange(1, Q), rng.randrange(1, Q), rng.randrange(1, Q)]) for _ in range(self.npk)]; sel = rng.randrange(12)
            ms = [bytes(rng.choice([0, 1, 7, 128, 255]) if rng.random() < .5 else rng.randrange(256) for _ in range(n)) for n in self.lens]
            if sel == 9 and len(ms) > 1:
                i, j = rng.sample(range(len(ms)), 2)
                ms[i] = (ms[j] + ms[i])[:len(ms[i])]
            pts = [ec_mul(G1, k) for k in ks]; bad = False
            if self.npk and sel in (1, 2, 3, 4, 10):
                i = rng.randrange(self.npk)
                if sel == 1: pts[i] = None; ks[i] = 0
                elif sel == 2: pts[i] = ec_add(pts[i], W.t["g1"]); bad = True
                elif sel == 3: pts[i] = W.t["g1"]; ks[i] = 0; bad = True
                elif sel == 4: pts[i] = (pts[i][0] if pts[i] else CE(5), CE(rng.randrange(P))); bad = True
                elif self.npk > 1:
                    j = rng.choice([x for x in range(self.npk) if x != i]); ks[i] = -ks[j] % Q; pts[i] = ec_neg(pts[j])
            if sel == 11: ks = [0] * self.npk; pts = [None] * self.npk; bad = False
            if self.kind == "fast" and self.npk: 
                if sel == 4 and self.npk > 1: continue
                k = sum(ks) % Q; a = None
                for p in pts: a = ec_add(a, p)
                eff = [(k, a)]
            else: eff = list(zip(ks, pts))
            if self.kind == "pop": hm = [W.hash(affine_le(pts[0]) if pts[0] else bytes(96), POP)]
            else: hm = [W.hash(m) for m in ms]
            s = None
            for (k, _), h in zip(eff, hm * len(eff) if self.kind == "fast" else hm): s = ec_add(s, ec_mul(h, k))
            ok = not bad
            mut = rng.randrange(10)
            if mut == 0: s = None if s is not None else G2; ok = False
            elif mut == 1: s = ec_add(s, G2); ok = False
            elif mut == 2: s = ec_add(s, W.t["g2"]); ok = False
            elif mut == 3 and s: s = (s[0], s[1] * 3); ok = False
            elif mut == 4 and s: s = ec_neg(s); ok = False
            if self.kind == "aggregate":
                if len(ms) != self.npk: ok = False
                if self.dup and len(set(ms)) != len(ms): ok = False
            if self.kind == "fast" and not self.npk: ok = False
            sb = encpt("g2", s, rng); pb = b"".join(encpt("g1", p, rng) for p in pts) or b"\0" * 144
            if self.kind == "verify": av = [pb, ms[0], len(ms[0]), sb]
            elif self.kind == "fast": av = [pb, self.npk, ms[0], len(ms[0]), sb]
            elif self.kind == "pop": av = [pb, sb]
            else: av = [pb, self.npk, PtrArr(ms), b"".join(len(m).to_bytes(8, "little") for m in ms) or b"\0" * 8, len(ms), sb, self.dup]
            r = ctx.nat.call(self.fn, av)
            if r[0] != "ret" or (r[1] & 0xff) != int(ok):
                ctx.violation(f"{self.fn}: keys {[hex(k) for k in ks]} (points {str(pts)[:300]}), messages {[m.hex() for m in ms]}, signature {str(s)[:200]}: {str(r)[:200]}, expected {ok}", call=(self.fn, av), observed=str(r)[:500]); return True
        return False
def obligations(ctx):
    ctx.mod(); ctx.nat; obs = []; add = lambda n, v, w=1: obs.append(Ob(n, v.go, deadline=700, weight=w))
    for n in (0, 1, 2, 33): add(f"verify, message of {n} bytes", V("verify", 1, [n]))
    for k in range(5 if ctx.quick else 9): add(f"pop_fast_aggregate_verify, {k} keys", V("fast", k, [2]))
    add("pop_fast_aggregate_verify, empty message", V("fast", 2, [0])); add("pop_verify", V("pop", 1, []))
    m = 3 if ctx.quick else 4
    pat = [[], [2], [1, 1], [2, 2, 2], [1, 1, 1, 1]]
    for k in range(m + 1):
        for n in range(m + 1):
            for d in (0, 1): add(f"aggregate_verify, {k} keys, {n} messages, duplicates {'refused' if d else 'allowed'}", V("aggregate", k, pat[n], d), 1 + (n == k) * n)
    for l in ([0], [0, 0], [0, 1], [1, 0], [2, 1], [1, 2, 1], [0, 1, 1], [2, 0, 2]):
        for d in (0, 1): add(f"aggregate_verify, messages of {l} bytes, duplicates {'refused' if d else 'allowed'}", V("aggregate", len(l), l, d), len(l))
    return obs
