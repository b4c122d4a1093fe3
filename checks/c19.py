"""C19: SHA-256, HMAC, HKDF and expand_message_xmd equal their standards."""
import hashlib
from engine.check import Ob, Inconclusive
from engine.exec import *
from engine import terms as tm, sha
from engine.sha import Hash, hmac, hkdf_expand, hkdf, xmd
from engine.shahook import install
from engine.sweep import Sweep
BOUNDS = "SHA-256: every message of 0..200 bytes in one update (thorough 0..400), every split position 0..66 with second parts around the block boundaries (thorough: all second parts up to 140), and the step from every reachable object state with k = 0..63 buffered bytes, arbitrary chaining value and arbitrary length counter (by induction: every length); HMAC keys and messages, HKDF salt, key, info and output lengths, XMD message, tag and output lengths on a grid around every block boundary, including the largest accepted and the refused ones; all contents symbolic"
OUTSIDE = "other combinations of lengths; negative message and tag lengths of xmd_sh256; digest() called twice; sha256::toString"
ASSUMPTIONS = ["malloc/operator new do not fail", "the compression function is proved equal to FIPS 180-4 for arbitrary chaining value and block, then used through that equality"]
class In:
    def __init__(self, n, name="m"): self.n = n; self.name = name
class Out:
    def __init__(self, n): self.n = n
pyh = lambda m: list(hashlib.sha256(bytes(m)).digest())
class Case:
    """fn(args) with In/Out/int arguments; expect(h, inputs) -> (return value or None, [expected bytes per Out, None = untouched])"""
    def __init__(self, fn, args, expect, free=True): self.fn = fn; self.args = args; self.expect = expect
    def go(self, ctx, ex, H):
        st = ex.new_state(); av = []; ins = []; outs = []
        for i, a in enumerate(self.args):
            if isinstance(a, In):
                b = [tm.var(f"{a.name}{i}[{j}]", 8) for j in range(a.n)]; ins.append(b); p = ex.alloc(st, a.n, "arg")
                for j, c in enumerate(b): ex.wr(st, p.obj, j, 1, c)
                av.append(p)
            elif isinstance(a, Out):
                b = [tm.var(f"o{i}[{j}]", 8) for j in range(a.n)]; p = ex.alloc(st, a.n, "arg"); outs.append((p, b))
                for j, c in enumerate(b): ex.wr(st, p.obj, j, 1, c)
                av.append(p)
            else: av.append(a)
        probs = []
        try:
            live = {k for k, o in st.mem.items() if o.kind == "heap" and not o.dead}
            res = ex.run(self.fn, av, st); ctx.count_paths(res)
            rv, exp = self.expect(H, ins)
            if not res: probs.append("no outcome")
            for o in res:
                if o.kind != "ret": probs.append(f"outcome {o.kind} {o.info}"); continue
                if rv is not None and (tm.isT(o.ret) or (o.ret - rv) & 0xffffffff): probs.append(f"returns {o.ret}, expected {rv}")
                code = []; spec = []
                for (p, b), e in zip(outs, exp):
                    e = b if e is None else list(e) + b[len(e):]
                    for j, x in enumerate(e):
                        g = ex.read_int(o.st, ex.padd(p, j), 1)
                        if g is None: probs.append(f"output byte {j} undefined"); g = 0
                        code.append(g); spec.append(x)
                bad = [j for j, (x, y) in enumerate(zip(code, spec)) if x is not y and (tm.isT(x) or tm.isT(y) or x != y)]
                if bad:
                    S = Sweep(ctx)
                    if not S.equal([code[j] for j in bad], [spec[j] for j in bad], H.keys): probs.append(f"output differs ({len(bad)} bytes)")
                if {k for k, x in o.st.mem.items() if x.kind == "heap" and not x.dead} - live: probs.append("leaks memory")
        except (Unsupported, Budget) as e: probs.append(f"{type(e).__name__}: {e}")
        if probs:
            if not self.search(ctx, 400): ctx.inconclusive(f"{self.fn}{self.show()}: {'; '.join(probs)[:500]} and no failing input found")
        elif not self.search(ctx, 1): ctx.validated += 1
    def show(self): return str([a if isinstance(a, int) else f"{type(a).__name__}({a.n})" for a in self.args])
    def search(self, ctx, N):
        for k in range(N):
            av = []; ins = []
            for a in self.args:
                if isinstance(a, In): b = bytes(ctx.rng.randrange(256) for _ in range(a.n)) if k % 4 != 1 else bytes([ctx.rng.choice([0, 255, 128])]) * a.n; av.append(b); ins.append(b)
                elif isinstance(a, Out): av.append(b"\x5a" * a.n)
                else: av.append(a & (1 << 64) - 1)
            rv, exp = self.expect(pyh, ins)
            def wrong(r):
                if r[0] != "ret": return True
                if rv is not None and (r[1] - rv) & 0xffffffff: return True
                it = iter(exp)
                for i, a in enumerate(self.args):
                    if isinstance(a, Out):
                        e = next(it); e = b"" if e is None else bytes(e)
                        if r[2][i] != e + b"\x5a" * (a.n - len(e)): return True
                return False
            r = ctx.nat.call(self.fn, av)
            bad = wrong(r)
            if not bad and N > 1 and k < 3: r = ctx.asan.call(self.fn, av); bad = r[0] == "san"
            if bad:
                ctx.violation(f"{self.fn}{self.show()} inputs {[bytes(b).hex()[:200] for b in ins]}: {str(r)[:600]}, expected return {rv} and output {[None if e is None else bytes(e).hex()[:200] for e in exp]}", call=(self.fn, av), observed=str(r)[:1500])
                return True
        return False
def H2(e): return lambda h, i: (None, [e(h, i)])
def sha_case(fn, n): return Case(fn, [Out(32), In(n), n], H2(lambda h, i: h(i[0])))
def sha2_case(n, k): return Case("h_sha256_2", [Out(32), In(n), n, k], H2(lambda h, i: h(i[0])))
def sha3_case(n, k, l): return Case("h_sha256_3", [Out(32), In(n), n, k, l], H2(lambda h, i: h(i[0])))
def hmac_case(n, k): return Case("h_hmac", [Out(32), In(n), n, In(k, "k"), k], lambda h, i: (0, [hmac(h, i[1], i[0])]))
def extract_case(s, n): return Case("h_hkdf_extract", [Out(32), In(s, "s"), s, In(n), n], lambda h, i: (0, [hmac(h, i[0], i[1])]))
def okL(L): return 1 <= L <= 8160
def expand_case(L, n):
    def e(h, i): return (0, [hkdf_expand(h, i[0], i[1], L)])
    def r(h, i): return (-3 if L == 0 else -1, [None])
    return Case("h_hkdf_expand", [Out(max(L, 1)), L, In(32, "prk"), In(n, "i"), n], e if okL(L) else r)
def hkdf_case(L, k, s, n):
    def e(h, i): return (0, [hkdf(h, i[1], i[0], i[2], L)])
    def r(h, i): return (-3 if L == 0 else -1, [None])
    return Case("h_hkdf", [Out(max(L, 1)), L, In(k, "k"), k, In(s, "s"), s, In(n, "i"), n], e if okL(L) else r)
def xmd_case(L, n, d):
    bad = L < 0 or L > 8160 or d > 255
    return Case("h_xmd", [Out(max(L, 1)), L & 0xffffffff, In(n), n, In(d, "d"), d], (lambda h, i: (-1, [None])) if bad else (lambda h, i: (0, [xmd(h, i[0], i[1], L)])))
def group(cases):
    def run(ctx):
        H = Hash(); ex = ctx.exec(merge=True); install(ex, ctx, H)
        for c in cases: c.go(ctx, ex, H)
    return run
# ---- object states
def obj(ctx, ex):
    st = ex.new_state(); n = ctx.nat.call("h_sha256_size", [])[1]
    s = ex.alloc(st, n, "arg"); r = ex.run("h_sha256_init", [s], st)
    if len(r) != 1 or r[0].kind != "ret": raise Inconclusive("constructor")
    return r[0].st, s
def feed(ctx, ex, st, s, bs):
    st = st.fork(); p = ex.alloc(st, len(bs), "arg")
    for j, c in enumerate(bs): ex.wr(st, p.obj, j, 1, c)
    r = ex.run("h_sha256_update", [s, p, len(bs)], st); ctx.count_paths(r)
    if len(r) != 1 or r[0].kind != "ret": raise Unsupported(f"update: {r}")
    return r[0].st
def finish(ctx, ex, st, s):
    st = st.fork(); p = ex.alloc(st, 32, "arg")
    r = ex.run("h_sha256_digest", [s, p], st); ctx.count_paths(r)
    if len(r) != 1 or r[0].kind != "ret": raise Unsupported(f"digest: {r}")
    return [ex.read_int(r[0].st, ex.padd(p, j), 1) for j in range(32)]
def same(ctx, H, got, exp, pc=(), ex=None):
    if any(g is None for g in got): return False
    bad = [(x, y) for x, y in zip(got, exp) if x is not y and (tm.isT(x) or tm.isT(y) or x != y)]
    if not bad: return True
    if Sweep(ctx).equal([x for x, _ in bad], [y for _, y in bad], H.keys): return True
    return False
def split_search(ctx, k, m):
    for t in range(40):
        d = bytes(ctx.rng.randrange(256) for _ in range(k + m)); av = [bytes(32), d, k + m, k]
        r = ctx.nat.call("h_sha256_2", av); e = hashlib.sha256(d).digest()
        if r[0] != "ret" or r[2][0] != e:
            ctx.violation(f"sha256 of {d.hex()} fed as {k}+{m} bytes: {str(r)[:200]}, expected {e.hex()}", call=("h_sha256_2", av)); return True
    return False
def splits(ks, second):
    def run(ctx):
        H = Hash(); ex = ctx.exec(merge=True); install(ex, ctx, H)
        st0, s = obj(ctx, ex)
        for k in ks:
            m0 = [tm.var(f"a[{j}]", 8) for j in range(k)]; st = feed(ctx, ex, st0, s, m0)
            for m in second(k):
                b = [tm.var(f"b[{j}]", 8) for j in range(m)]
                try:
                    ok = same(ctx, H, finish(ctx, ex, feed(ctx, ex, st, s, b), s), H(m0 + b))
                    why = "digest differs"
                except (Unsupported, Budget) as e: ok = False; why = str(e)
                if not ok and not split_search(ctx, k, m): ctx.inconclusive(f"split {k}+{m}: {why}")
                elif ok and m % 16 == 0 and not split_search_one(ctx, k, m): ctx.validated += 1
    return run
def split_search_one(ctx, k, m):
    d = bytes(ctx.rng.randrange(256) for _ in range(k + m)); r = ctx.nat.call("h_sha256_2", [bytes(32), d, k + m, k])
    if r[0] != "ret" or r[2][0] != hashlib.sha256(d).digest(): return split_search(ctx, k, m)
    return False
def layout(ctx, ex, s, st0):
    """the length counter: the cell that is concrete and differs between one and two full blocks"""
    a = [tm.var(f"x[{j}]", 8) for j in range(64)]
    s1 = feed(ctx, ex, st0, s, a); s2 = feed(ctx, ex, s1, s, a); s3 = feed(ctx, ex, s2, s, a)
    c1, c2, c3 = (ex.getobj(x, s.obj).cells for x in (s1, s2, s3)); r = []
    for off, (sz, v) in c1.items():
        v2 = c2.get(off, (0, None)); v3 = c3.get(off, (0, None))
        if tm.isT(v) or not isinstance(v, int) or v2[0] != sz or tm.isT(v2[1]) or v2[1] == v: continue
        if v3[0] == sz and v3[1] == 3 * v and v2[1] == 2 * v and v in (512, 64, 1): r.append((off, sz, v))
    if len(r) != 1: return None, s1
    return r[0], s1
def steps(ks):
    """from an arbitrary state with k buffered bytes: appending bytes and finishing"""
    def run(ctx):
        H = Hash(); ex = ctx.exec(merge=True); install(ex, ctx, H)
        st0, s = obj(ctx, ex); lay, s1 = layout(ctx, ex, s, st0)
        if lay is None: ctx.notes.append("length counter of the object not identified: lengths beyond the unrolled ones are not covered"); return
        off, sz, unit = lay
        for k in ks:
            pre = [tm.var(f"a[{j}]", 8) for j in range(k)]
            st = feed(ctx, ex, s1, s, pre) if k else s1.fork()
            v = tm.var("len", 8 * sz); ex.wr(st, s.obj, off, sz, v); hs = []
            for o2, (z2, x) in list(ex.getobj(st, s.obj).cells.items()):
                if tm.isT(x) and z2 == 4 and x.w == 32: nv = tm.var(f"H{o2}", 32); ex.wr(st, s.obj, o2, 4, nv); hs.append((o2, nv))
            hs.sort()
            if len(hs) != 8: raise Inconclusive(f"chaining value not identified ({len(hs)})")
            hv = [x for _, x in hs]; v64 = tm.zext(8 * sz, 64, v) if sz < 8 else v
            blk = tm.mul(64, v64, 512 // unit)          # counted in units of one block = v / unit
            bits0 = tm.mul(64, v64, 512 // unit)
            # total bits before the buffered bytes; a counter of bits may take any multiple of 512 below 2^64
            for m in (0, 1, 64 - k, 65 - k):
                b = [tm.var(f"b[{j}]", 8) for j in range(m)]; al = pre + b; full = len(al) // 64
                try:
                    got = finish(ctx, ex, feed(ctx, ex, st, s, b) if m else st, s)
                    h2 = hv; r = al
                    while len(r) >= 64: h2 = H.comp(h2, r[:64]); r = r[64:]
                    tot = tm.add(64, bits0, 8 * len(al))
                    ok = same(ctx, H, got, H.bits(h2, r, tot)); why = "digest differs"
                except (Unsupported, Budget) as e: ok = False; why = str(e)
                if not ok and not long_search(ctx, k + m): ctx.inconclusive(f"state with {k} buffered bytes, {m} appended: {why}"); return
    return run
def long_search(ctx, k):
    for n in (1 << 16, 1 << 21, 1 << 24, 1 << 29, 1 << 30, (1 << 32)):
        for d in (0, k):
            e = hashlib.sha256(); left = n + d; z = bytes(1 << 20)
            while left: c = min(left, 1 << 20); e.update(z[:c]); left -= c
            r = ctx.nat.call("h_sha256_zeros", [bytes(32), n + d], timeout=240)
            if r[0] == "timeout": return False
            if r[0] != "ret" or r[2][0] != e.digest():
                ctx.violation(f"sha256 of {n+d} zero bytes: {str(r)[:200]}, expected {e.hexdigest()}", call=("h_sha256_zeros", [bytes(32), n + d])); return True
    return False
def obligations(ctx):
    ctx.mod(); ctx.nat; q = ctx.quick; obs = []
    add = lambda nm, f: obs.append(Ob(nm, f, deadline=600))
    top = 201 if q else 401
    for i in range(8): add(f"sha256, one update, lengths {i} mod 8", group([sha_case("h_sha256", n) for n in range(i, top, 8)]))
    bl = sorted({0, 1, 3, 4, 31, 32, 54, 55, 56, 57, 62, 63, 64, 65, 66, 118, 119, 120, 121, 127, 128, 129, 183, 184, 191, 192, 193})
    add("sha256, digest returning an array", group([sha_case("h_sha256_arr", n) for n in bl]))
    add("sha256, string update", group([sha_case("h_sha256_str", n) for n in bl]))
    add("sha256, two updates", group([sha2_case(n, k) for n in (1, 55, 56, 64, 65, 120, 128, 129) for k in {0, 1, n // 2, n - 1, n, min(n, 64), min(n, 63)} if k <= n]))
    add("sha256, three updates", group([sha3_case(n, k, l) for n, k, l in ((129, 1, 65), (129, 64, 128), (120, 63, 64), (64, 0, 64), (130, 65, 66), (200, 55, 111), (3, 1, 2), (128, 56, 120))]))
    sec = (lambda k: sorted({m for m in [0, 1, 2, 7] + [b - k for b in (54, 55, 56, 57, 62, 63, 64, 65, 66, 118, 119, 120, 121, 127, 128, 129)] if m >= 0})) if q else (lambda k: range(141))
    for i in range(8): add(f"sha256, splits after k = {i} mod 8 bytes", splits(range(i, 67, 8), sec))
    for i in range(4): add(f"sha256, arbitrary state with k = {i} mod 4 buffered bytes", steps(range(i, 64, 4)))
    kl = [0, 1, 31, 32, 33, 63, 64, 65, 66, 119, 128, 129] if q else list(range(0, 131))
    nl = [0, 1, 31, 32, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128] if q else list(range(0, 131, 3)) + [55, 56, 64, 119, 120, 121, 127, 128]
    for k in kl: obs.append(Ob(f"hmac, key of {k} bytes", group([hmac_case(n, k) for n in nl]), deadline=600))
    add("hkdf extract", group([extract_case(s, n) for s in (0, 1, 4, 20, 32, 64, 65, 80) for n in (0, 1, 31, 32, 33, 55, 56, 64, 65)]))
    Ls = [0, 1, 2, 31, 32, 33, 48, 63, 64, 65, 96, 97, 255, 256, 257] + ([] if q else [*range(100, 520, 13), 1024, 4096])
    for n in (0, 1, 2, 31, 32, 80): add(f"hkdf expand, info of {n} bytes", group([expand_case(L, n) for L in Ls + [8161, 8192, 1 << 63, (1 << 64) - 1][0:1]]))
    add("hkdf expand, refused lengths", group([Case("h_hkdf_expand", [Out(64), L, In(32, "prk"), In(1, "i"), 1], lambda h, i: (-1, [None])) for L in (8161, 8192, 1 << 32, 1 << 63, (1 << 64) - 33, (1 << 64) - 1)]))
    add("hkdf expand, longest output", group([expand_case(L, 2) for L in (8159, 8160)]))
    add("hkdf", group([hkdf_case(L, k, s, n) for L in (1, 32, 48, 8161) for k in (0, 33, 65) for s in (0, 20, 65) for n in (0, 2)]))
    xs = [0, 1, 31, 32, 33, 63, 64, 65, 128, 256, 257]
    for n in ([0, 1, 31, 55, 64, 100] if q else [0, 1, 31, 32, 54, 55, 56, 63, 64, 65, 100, 119, 120, 128]):
        add(f"xmd, message of {n} bytes", group([xmd_case(L, n, d) for L in xs for d in (0, 1, 21, 43, 255)]))
    add("xmd, tag lengths", group([xmd_case(64, 3, d) for d in range(0, 257, 1 if not q else 4)] + [xmd_case(256, 33, d) for d in (254, 255, 256, 257, 1000)]))
    add("hkdf, longest output", group([hkdf_case(8160, 33, 20, 2)]))
    add("xmd, longest and refused outputs", group([xmd_case(L, 2, 43) for L in (8159, 8160)]))
    add("xmd, refused outputs", group([Case("h_xmd", [Out(64), L & 0xffffffff, In(2), 2, In(5, "d"), 5], lambda h, i: (-1, [None])) for L in (8161, 8192, 65535, 65536, 2**31 - 1, -1, -31, -32, -33, -2**31)]))
    return obs
