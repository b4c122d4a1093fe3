"""C21: hexadecimal conversion is exact and stays inside its buffers."""
from engine.check import Ob
from engine.flow import *
from engine import terms as tm
BOUNDS = "every text of 0..48 characters (thorough: 0..200) with arbitrary characters for memory safety and with arbitrary digits for the value; every byte string of 0..48 bytes (thorough: 0..160); fixed-size forms for 1, 4 and 8 bytes with texts up to 6 characters longer than needed"
OUTSIDE = "longer texts; the value of texts with characters that are not digits (only memory safety is required); fixed-size parsing of texts with fewer digits than the result needs (documented as unchecked)"
ASSUMPTIONS = ["operator new/delete as allocator stand-ins"]
ASCII = b"0123456789abcdefABCDEF"
def isdig(c):
    rng = lambda a, b: tm.and_all([tm.not_(tm.ult(8, c, a)), tm.not_(tm.ult(8, b, c))])
    return tm.or_all([rng(48, 57), rng(97, 102), rng(65, 70)])
def dig(c):
    """4-bit value of a digit"""
    n = tm.extract(c, 3, 0)
    return tm.ite(4, tm.ult(8, c, 64), n, tm.add(4, n, 9))
def text(rng, n, pre=None):
    k = rng.randrange(4)
    t = bytes(rng.choice(ASCII) for _ in range(n)) if k < 3 else bytes(rng.choice([48, 120, 88, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 0, 255, rng.randrange(256)]) for _ in range(n))
    if n >= 2 and rng.random() < .5: t = b"0x" + t[2:]
    return t
def parse(s):
    if len(s) % 2: return b""
    t = s[2:] if s[:2] == b"0x" else s
    if any(c not in ASCII for c in t): return None
    return bytes.fromhex(t.decode())
def report(ctx, fn, a, exp, what):
    """run natively and under the sanitizers; True when the call misbehaves"""
    r = ctx.nat.call(fn, a)
    ok = r[0] == "ret" and (exp is None or exp(r))
    if ok and what == "value": return False
    if ok:
        r = ctx.asan.call(fn, a)
        if r[0] != "san": return False
    ctx.violation(f"{fn}({[x if isinstance(x, int) else bytes(x) for x in a[1:]]}): {str(r)[:600]}", call=(fn, a), observed=str(r)[:1500])
    return True
def parse_ob(n):
    fn = "h_hexToBytes"; S = {}
    def setup(ex):
        st = ex.new_state(); S["s"] = [tm.var(f"s[{i}]", 8) for i in range(n)]
        p = ex.alloc(st, n, "arg"); S["o"] = ex.alloc(st, n // 2, "arg")
        for i, c in enumerate(S["s"]): ex.wr(st, p.obj, i, 1, c)
        return st, [S["o"], p, n]
    def conds(o, ex):
        s = S["s"]; r = o.ret
        if n % 2: yield "length", tm.eq(64, r, 0); return
        pre = tm.and_all([tm.eq(8, s[0], 48), tm.eq(8, s[1], 120)]) if n >= 2 else 0
        yield "length", tm.eq(64, r, tm.ite(64, pre, n // 2 - 1, n // 2))
        if tm.isT(r): raise Unsupported("symbolic result length")
        k = n - 2 * r
        if k not in (0, 2): return
        good = tm.and_all([isdig(c) for c in s[k:]])
        ok = []
        for i in range(r):
            g = ex.read_int(o.st, ex.padd(S["o"], i), 1)
            if g is None: yield "unwritten", 0; return
            ok.append(tm.eq(8, g, tm.concat_list([(4, dig(s[k + 2 * i])), (4, dig(s[k + 2 * i + 1]))])))
        yield "bytes", tm.or_all([tm.not_(good), tm.and_all(ok)]) if ok else 1
    def search(ctx, N, cands):
        for k in range(min(N, 600)):
            s = text(ctx.rng, n); e = parse(s)
            if report(ctx, fn, [b"\x5a" * (n // 2), s, n], (lambda r: r[1] == len(e) and r[2][0][:len(e)] == e) if e is not None else None, "value" if k >= 3 or N < 100 else "memory"): return True
        return False
    return Flow(fn, setup, conds, search, ring=False, nval=6)
def print_ob(fn, n, spanlen):
    S = {}
    def setup(ex):
        st = ex.new_state(); S["b"] = [tm.var(f"b[{i}]", 8) for i in range(n)]
        p = ex.alloc(st, n, "arg"); S["o"] = ex.alloc(st, 2 * n + 2, "arg")
        for i, c in enumerate(S["b"]): ex.wr(st, p.obj, i, 1, c)
        return st, [S["o"], p] + ([n] if spanlen else [])
    def conds(o, ex):
        yield "length", tm.eq(64, o.ret, 2 * n + 2)
        hx = lambda d: tm.ite(8, tm.ult(4, d, 10), tm.add(8, tm.zext(4, 8, d), 48), tm.add(8, tm.zext(4, 8, d), 87))
        exp = [48, 120]
        for b in S["b"]: exp += [hx(tm.extract(b, 7, 4)), hx(tm.extract(b, 3, 0))]
        for i, e in enumerate(exp):
            g = ex.read_int(o.st, ex.padd(S["o"], i), 1)
            yield f"character {i}", 0 if g is None else tm.eq(8, g, e)
    def search(ctx, N, cands):
        for k in range(min(N, 600)):
            b = bytes(ctx.rng.getrandbits(8) for _ in range(n)); e = b"0x" + b.hex().encode()
            if report(ctx, fn, [b"\x5a" * (2 * n + 2), b] + ([n] if spanlen else []), lambda r: r[1] == len(e) and r[2][0] == e, "value" if k >= 3 or N < 100 else "memory"): return True
        return False
    return Flow(fn, setup, conds, search, ring=False, nval=6)
def fixed_ob(fn, N, n):
    S = {}
    def setup(ex):
        st = ex.new_state(); S["s"] = s = [tm.var(f"s[{i}]", 8) for i in range(n)]
        p = ex.alloc(st, n, "arg"); S["o"] = ex.alloc(st, N, "arg")
        for i, c in enumerate(s): ex.wr(st, p.obj, i, 1, c)
        if n < 2 * N + 2: st.pc = (tm.not_(tm.and_all([tm.eq(8, s[0], 48), tm.eq(8, s[1], 120)])),)
        return st, [S["o"], p, n]
    def conds(o, ex):
        s = S["s"]
        pre = tm.and_all([tm.eq(8, s[0], 48), tm.eq(8, s[1], 120)])
        got = []
        for i in range(N):
            g = ex.read_int(o.st, ex.padd(S["o"], i), 1)
            if g is None: yield "unwritten", 0; return
            got.append(g)
        def form(k):
            if len(s) < k + 2 * N: return 1
            bad = [tm.not_(isdig(c)) for c in s[k:k + 2 * N]]
            return tm.or_all(bad + [tm.and_all([tm.eq(8, g, tm.concat_list([(4, dig(s[k + 2 * i])), (4, dig(s[k + 2 * i + 1]))])) for i, g in enumerate(got)])])
        yield "bytes", tm.ite(1, pre, form(2), form(0))
    def search(ctx, M, cands):
        for k in range(min(M, 600)):
            s = text(ctx.rng, n)
            t = s[2:] if s[:2] == b"0x" else s
            if len(t) < 2 * N: continue
            t = t[:2 * N]; e = bytes.fromhex(t.decode()) if all(c in ASCII for c in t) else None
            if report(ctx, fn, [b"\x5a" * N, s, n], (lambda r: r[2][0] == e) if e is not None else None, "value" if k >= 3 or M < 100 else "memory"): return True
        return False
    return Flow(fn, setup, conds, search, ring=False, nval=6)
def obligations(ctx):
    ctx.mod(); ctx.nat
    obs = []
    def group(nm, l):
        def run(c):
            for f in l: f.go(c)
        obs.append(Ob(nm, run, deadline=400))
    for lo in range(0, 49 if ctx.quick else 201, 7): group(f"hexToBytes, texts of {lo}..{lo+6} characters", [parse_ob(n) for n in range(lo, lo + 7)])
    for lo in range(0, 49 if ctx.quick else 161, 7): group(f"bytesToHex, {lo}..{lo+6} bytes", [print_ob("h_bytesToHex", n, True) for n in range(lo, lo + 7)])
    for N in (1, 4, 8):
        group(f"bytesToHex<{N}>", [print_ob(f"h_bytesToHex_{N}", N, False)])
        for f in ("", "_a"): group(f"hexToBytes<{N}>{f}", [fixed_ob(f"h_hexToBytes{f}_{N}", N, n) for n in range(2 * N, 2 * N + 7)])
    return obs
