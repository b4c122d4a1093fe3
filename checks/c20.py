"""C20: multi-limb integer helpers are exact."""
from engine.check import Ob
from engine.liaob import *
from engine.bvob import BvCase
from engine.flow import *
from engine.divob import *
from engine import terms as tm
from engine.ring import P, Q
BOUNDS = "all operand values: addition for 8 shape combinations up to 6 limbs, multiplication for 6 shapes up to 4x4 limbs, comparison/equality/bit length/shift/byte conversion for 1, 4 and 6 limbs (every shift amount); division with remainder: every dividend of the stated limb count for 17 constant divisors in 8 shapes up to 8 by 6 limbs (both moduli, one, powers of two, divisors with zero and with full top limbs)"
OUTSIDE = "limb counts other than those listed; symbolic divisors (the divisor is a constant in each division obligation)"
ASSUMPTIONS = ["Montgomery conversion contract (C01) for modPrime"]
def sv(ls): return lambda v: v
def mulc(nm, nc, na, nb):
    def g(L, i, v, o): return o[0] == z3.Sum([L.prod_of(x, y) * (1 << 64 * (j + k)) for j, x in enumerate(i["a"]) for k, y in enumerate(i["b"])])
    return LiaCase(nm, [("o", nc), ("i", na, "a"), ("i", nb, "b")], g, lambda v: {0: v["a"] * v["b"]}, hooks=carry_hooks)

def addc(nm, nc, na, nb):
    n = max(na, nb)
    def g(L, i, v, o): return o[0] == v["a"] + v["b"]
    def thr(L, i, v): return v["a"] + v["b"] >= 1 << 64 * nc
    return LiaCase(nm, [("o", nc), ("i", na, "a"), ("i", nb, "b")], g, lambda v: {0: v["a"] + v["b"]} if v["a"] + v["b"] < 1 << 64 * nc else None, throws=thr, hooks=carry_hooks)
def bv(n):
    W = 64 * n; A = ("i", 8 * n, "a"); B = ("i", 8 * n, "b"); C = []
    def c(nm, *a, **k): C.append((f"{nm}<{n}>", BvCase(*a, **k)))
    def close(rng):
        a = lim(rng, n); b = a
        if rng.random() < .8: b = a ^ (1 << rng.randrange(W))
        return {"a": a, "b": b}
    b1 = lambda t: tm.zext(1, 64, t)
    def cmp3(v): return {"ret": tm.ite(64, tm.ult(W, v["a"], v["b"]), tm.mask(64), tm.ite(64, tm.ult(W, v["b"], v["a"]), 1, 0))}
    c("cmp", f"h_cmp_{n}", [A, B], cmp3, gen=close)
    c("cmp/same", f"h_cmp_{n}", [A, B], cmp3, alias={1: 0})
    c("equal", f"h_equal_{n}", [A, B], lambda v: {"ret": b1(tm.eq(W, v["a"], v["b"]))}, gen=close)
    def bl(v):
        r = 0
        for i in range(W): r = tm.ite(64, tm.extract(v["a"], i, i), i + 1, r)
        return {"ret": r}
    c("bitLength", f"h_bitLength_{n}", [A], bl)
    for k in sorted(set(range(W + 66)) | {2**32, 2**32 + 1, 2**63, 2**64 - 64, 2**64 - 65, 2**64 - 1}):
        sp = lambda v, k=k: {0: tm.zext(W - k, W, tm.extract(v["a"], W - 1, k)) if 0 < k < W else v["a"] if k == 0 else 0}
        if k % 8 in (0, 1, 7) or n == 1 or k > W: c(f"rsh {k}", f"h_rsh_{n}", [("o", 8 * n), A, ("c", k)], sp)
        if k % 16 in (0, 1, 15) or k > W: c(f"rsh {k}/in place", f"h_rsh_{n}", [("io", 8 * n, "a0"), ("io", 8 * n, "a"), ("c", k)], sp, alias={1: 0})
    def sh(v):
        return {0: tm.lshr(W, v["a"], tm.zext(64, W, v["k"]) if W > 64 else v["k"])}
    c("rsh symbolic", f"h_rsh_{n}", [("o", 8 * n), A, ("v", 64, "k")], sh, gen=lambda rng: {"a": lim(rng, n), "k": rng.choice([rng.randrange(W + 70), rng.getrandbits(64)])})
    for e in ("BE", "LE"):
        f = (lambda v: {0: bswap(v["a"], 8 * n)}) if e == "BE" else lambda v: {0: v["a"]}
        c(f"toBytes{e}", f"h_sToBytes{e}_{n}", [("o", 8 * n), A], f)
        c(f"fromBytes{e}", f"h_sFromBytes{e}_{n}", [("o", 8 * n), A], f)
    return C
# ---- contracts of the word-array helpers used by the division
def helper_case(h, n, inplace=False, k=None):
    """k: shift amount"""
    def go(ctx):
        nm = helper_name(h); fn = ctx.mod().bydem.get(nm)
        if fn is None: ctx.validated += 1; ctx.samples.append({"absent": nm}); return
        two = h in ("subn", "addn"); sh = h in ("lshb", "rshb")
        ex = ctx.exec(merge=h not in ("add1", "sub1")); L0 = LiaSolver(60000); ex.solver = L0; tr = []
        osr = ex.store_raw
        def sr(st, p, size, v):
            if tm.isT(v) and v.w == 64: tr.append(v)
            return osr(st, p, size, v)
        ex.store_raw = sr
        st = ex.new_state(); a = [tm.var(f"a{i}", 64) for i in range(n)]; b = [tm.var(f"b{i}", 64) for i in range(n)]; dg = tm.var("d", 64)
        pa = ex.alloc(st, 8 * n, "arg"); pb = ex.alloc(st, 8 * n, "arg"); pc = pa if inplace else ex.alloc(st, 8 * n, "arg")
        for i in range(n): ex.wr(st, pa.obj, 8 * i, 8, a[i]); ex.wr(st, pb.obj, 8 * i, 8, b[i])
        args = [pc, pa, pb, n] if two else [pc, pa, n, k] if sh else [pc, pa, dg, n]
        probs = []
        try:
            outs = ex.run(fn, args, st); ctx.count_paths(outs)
            for o in outs:
                if o.kind != "ret": probs.append(str(o.kind)); continue
                bad = None
                for real in (True, False):
                    L = LiaSolver(60000, real=real)
                    for v in tr: L.num(v)
                    V = lambda ls: z3.Sum([L.num(v) * (1 << 64 * i) for i, v in enumerate(ls)]); Bn = 1 << 64 * n
                    O = V(limbs(ex, o.st, pc, n)); Cc = L.num(o.ret); A = V(a)
                    if h == "rshb": g = [A == O * (1 << k) + Cc, Cc <= (1 << k) - 1]
                    elif h == "lshb": g = [O + Cc * Bn == A * (1 << k), Cc <= (1 << k) - 1]
                    elif h == "mul1": g = [O + Cc * Bn == z3.Sum([L.prod_of(x, dg) * (1 << 64 * i) for i, x in enumerate(a)]), ]
                    elif h in ("addn", "add1"): g = [O + Cc * Bn == A + (V(b) if two else L.num(dg)), Cc <= 1]
                    else: g = [O - Cc * Bn == A - (V(b) if two else L.num(dg)), Cc <= 1]
                    bad = [r for r in (L.check_extra(o.st.pc, z3.Not(x)) for x in g) if r != "unsat"]; ctx.xq += L.queries; ctx.xt += L.time
                    if not bad: break
                if bad: probs.append(f"solver {bad}")
        except (Unsupported, Budget) as e: probs.append(f"{type(e).__name__} {e}")
        for t in range(400 if probs else 20):
            va, vb, vd = lim(ctx.rng, n), lim(ctx.rng, n), lim(ctx.rng, 1); le = lambda v: v.to_bytes(8 * n, "little")
            cb = Ref(1) if inplace else b"\x5a" * 8 * n
            A = [b"\x5a" * 8 * n, le(va)]
            if inplace: A = [le(va), Ref(0)]
            A += [le(vb), n] if two else [n, k] if sh else [vd, n]
            r = ctx.nat.call(fn, A); Bn = 1 << 64 * n
            if h == "rshb": e = (va >> k, va & tm.mask(k))
            else:
                x = va << k if h == "lshb" else va * vd if h == "mul1" else va + (vb if two else vd) if h in ("addn", "add1") else va - (vb if two else vd)
                e = (x % Bn, abs(x // Bn))
            if r[0] != "ret" or (int.from_bytes(r[2][0], "little"), r[1] & tm.mask(64)) != e:
                ctx.violation(f"{nm} of {va:#x}, {(vb if two else k if sh else vd):#x} over {n} words: {('result %#x, carry %#x' % (int.from_bytes(r[2][0], 'little'), r[1])) if r[0] == 'ret' else r[0]}, expected {e[0]:#x}, {e[1]:#x}", call=(fn, A), observed=str(r)[:800]); return
            if not probs: ctx.validated += 1
        if probs: ctx.inconclusive(f"{nm} over {n} words: {probs[:3]}")
    return go
def cmp_case(n):
    def go(ctx):
        fn = ctx.mod().bydem.get(CMP)
        if fn is None: ctx.validated += 1; return
        A, B = ("i", 8 * n, "a"), ("i", 8 * n, "b")
        W = 64 * n
        BvCase(fn, [A, B, ("c", n)], lambda v: {"ret": tm.ite(32, tm.ult(W, v["a"], v["b"]), tm.mask(32), tm.ite(32, tm.ult(W, v["b"], v["a"]), 1, 0))}, retw=32).go(ctx)
    return go
def shift_case(h, n, k, inplace):
    def go(ctx):
        fn = ctx.mod().bydem.get(helper_name(h)); W = 64 * n
        if fn is None: ctx.validated += 1; return
        def sp(v):
            x = tm.concat_list([(64, 0), (W, v["a"])])
            if h == "lshb": y = tm.shl(W + 64, x, k) if k else x; return {0: tm.extract(y, W - 1, 0), "ret": tm.extract(y, W + 63, W)}
            y = tm.extract(x, W + k - 1, k) if k else v["a"]
            return {0: y, "ret": tm.zext(k, 64, tm.extract(v["a"], k - 1, 0)) if k else 0}
        if inplace: BvCase(fn, [("io", 8 * n, "c"), ("io", 8 * n, "a"), ("c", n), ("c", k)], sp, alias={1: 0}).go(ctx)
        else: BvCase(fn, [("o", 8 * n), ("i", 8 * n, "a"), ("c", n), ("c", k)], sp).go(ctx)
    return go
# ---- the array wrapper around the division and the reduction modulo p
def div_hook(ex, S, N, M, D):
    n = ex.mod.bydem.get(NAME)
    if not n: raise Unsupported("bn_divn_low not found")
    def h(ex, st, args, fn):
        c, d, a, sa, b, sb = args
        if sa != N or sb != M: raise Unsupported(f"word counts {sa},{sb}")
        K = N + 2
        for p, v in ((a, S["a"]), (b, D), (c, 0), (d, 0)):
            g = ex.read_int(st, p, 8 * K)
            if g is None: raise Unsupported("workspace too small or unwritten")
            e = v if p is not a else tm.zext(64 * N, 64 * K, v)
            bad = tm.not_(tm.eq(64 * K, g, e))
            if bad == 1 or tm.isT(bad) and ex.solver.sat(list(st.pc) + [bad]) != "unsat": raise Unsupported("operand differs from the argument")
        S["q"] = tm.var("q", 64 * N); S["r"] = tm.var("r", 64 * M); S["n"] = S.get("n", 0) + 1
        ex.write_int(st, c, 8 * N, S["q"]); ex.write_int(st, ex.padd(c, 8 * N), 16, tm.var("q.hi", 128))
        ex.write_int(st, d, 8 * M, S["r"]); ex.write_int(st, ex.padd(d, 8 * M), 8 * (K - M), tm.var("r.hi", 64 * (K - M)))
        ex.write_int(st, a, 8 * K, tm.var("w.a", 64 * K)); ex.write_int(st, b, 8 * K, tm.var("w.b", 64 * K))
        if S.get("bound"): st.pc = st.pc + (tm.ult(64 * M, S["r"], D),)
        return [(st, None)]
    ex.hooks[n] = h
def gen_div(rng, na, nb, D):
    v = lim(rng, na) if rng.randrange(4) == 0 else D * lim(rng, max(1, na - nb + 1)) + rng.choice([0, 1, D - 1, D - 2, D >> 1])
    return v % (1 << 64 * na)
def wrap_ob(fn, N, M, D):
    S = {}
    def setup(ex):
        S.clear(); st = ex.new_state(); S["a"] = tm.var("a", 64 * N)
        S["pq"] = ex.alloc(st, 8 * N, "arg"); S["pr"] = ex.alloc(st, 8 * M, "arg")
        return st, [S["pq"], S["pr"], bytes_of(ex, st, 8 * N, S["a"]), bytes_of(ex, st, 8 * M, D)]
    def conds(o, ex):
        yield "one division", int(S.get("n") == 1)
        for nm, p, w in (("q", S["pq"], 8 * N), ("r", S["pr"], 8 * M)):
            g = ex.read_int(o.st, p, w)
            yield nm, 0 if g is None else tm.eq(8 * w, g, S[nm])
    def search(ctx, n, cands):
        for k in range(n):
            v = gen_div(ctx.rng, N, M, D); a = [b"\x5a" * 8 * N, b"\x5a" * 8 * M, v.to_bytes(8 * N, "little"), D.to_bytes(8 * M, "little")]
            r = ctx.nat.call(fn, a)
            got = tuple(int.from_bytes(r[2][i], "little") for i in (0, 1)) if r[0] == "ret" else r[0]
            if got != divmod(v, D): ctx.violation(f"{fn}({v:#x}, {D:#x}) = {got}, expected {divmod(v, D)}", call=(fn, a), observed=str(r)[:1000]); return True
        return False
    return Flow(fn, setup, conds, search, ring=False, hooks=lambda ex: div_hook(ex, S, N, M, D))
def modprime_ob(N):
    fn = f"h_fp_modPrime{N}"; S = {}
    def setup(ex):
        S.clear(); S["bound"] = True; st = ex.new_state(); S["a"] = tm.var("a", 64 * N)
        S["o"] = ex.alloc(st, 48, "arg")
        return st, [S["o"], bytes_of(ex, st, 8 * N, S["a"])]
    def conds(o, ex):
        yield "one division", int(S.get("n") == 1)
        g = ex.read_int(o.st, S["o"], 48)
        yield "result", 0 if g is None else tm.eq(384, g, ex.ring.term(pscale(ex.ring.elem(o.st, S["r"]).p, R)))
    def search(ctx, n, cands):
        for k in range(n):
            v = gen_div(ctx.rng, N, 6, P); a = [b"\x5a" * 48, v.to_bytes(8 * N, "little")]
            r = ctx.nat.call(fn, a); e = v % P * R % P
            if r[0] != "ret" or int.from_bytes(r[2][0], "little") != e: ctx.violation(f"{fn}({v:#x}) = {r[2][0][::-1].hex() if r[0] == 'ret' else r[0]}, expected Montgomery form of {v % P:#x}", call=(fn, a), observed=str(r)[:1000]); return True
        return False
    def hooks(ex): div_hook(ex, S, N, 6, P)
    return Flow(fn, setup, conds, search, hooks=hooks)
DIVS = [(4, 4, Q), (6, 4, Q), (6, 6, P), (8, 6, P), (4, 2, 0xac45a4010001a40200000000ffffffff), (4, 2, 2**64 + 1), (3, 2, 2**127 + 12345), (3, 2, 2**126 + 12345), (3, 2, 2**128 - 1), (2, 2, 7), (2, 2, 2**64), (2, 2, 2**128 - 1),
        (2, 1, 1), (2, 1, 3), (2, 1, 2**63), (2, 1, 2**63 + 1), (2, 1, 2**64 - 1), (6, 4, 1), (6, 4, 2**192), (6, 4, 2**256 - 1), (4, 4, 2**64 - 1), (8, 6, 2**64 - 1), (8, 6, 2**320 + 1)]
def obligations(ctx):
    ctx.mod(); ctx.nat
    obs = []
    def ob(n, f, d=200, w=1): obs.append(Ob(n, f, deadline=d, weight=w))
    for s in ("544", "644", "642", "624", "666", "442", "211", "445"):
        if s == "445": ob("add<4,4,4>", addc("h_addc_445", 4, 4, 4).go)
        else: ob(f"add<{','.join(s)}>", addc(f"h_add_{s}", *map(int, s)).go)
    for s in ("211", "422", "844", "541", "514", "642"): ob(f"multiply<{','.join(s)}>", mulc(f"h_mul_{s}", *map(int, s)).go)
    def group(nm, fs, size):
        for i in range(0, len(fs), size):
            l = fs[i:i + size]
            def run(ctx, l=l):
                for f in l: f(ctx)
            ob(f"{nm} [{i // size}]" if len(fs) > size else nm, run)
    for n in (1, 4, 6):
        C = bv(n); rs = [c.go for nm, c in C if nm.startswith("rsh")]
        for nm, c in C:
            if not nm.startswith("rsh"): ob(nm, c.go)
        group(f"rsh<{n}> every amount, and in place", rs, 25)
    for h in ("mul1", "sub1", "add1", "subn", "addn"):
        for ip in (0, 1): group(f"bn_{h}_low over 1..9 words{' in place' if ip else ''}", [helper_case(h, n, ip) for n in range(1, 10)], 3)
    for h in ("lshb", "rshb"):
        for n in range(1, 10):
            ks = ([0] if h == "rshb" else []) + ([1, 2, 31, 32, 62, 63] if n != 3 else list(range(1, 64)))
            group(f"bn_{h}_low {n} words", [shift_case(h, n, k, True) for k in ks] + [shift_case(h, n, 2, False)], 24)
    group("dv_cmp over 1..9 words", [cmp_case(n) for n in range(1, 10)], 3)
    for sa, sb, D in DIVS: ob(f"division {sa} by {sb} words, divisor {D:#x}", DivN(sa, sb, D, merge=False).go, 400, 20 if sa > 4 else 5)
    for s, D in (("44", Q), ("64", Q), ("66", P), ("86", P), ("21", 3), ("32", 2**127 + 1), ("22", 7), ("42", 2**64 + 1)): ob(f"bn_divn_safe<{s[0]},{s[1]}>", wrap_ob(f"h_divn_{s}", int(s[0]), int(s[1]), D).go)
    ob("modPrime<6>", modprime_ob(6).go); ob("modPrime<8>", modprime_ob(8).go)
    return obs
