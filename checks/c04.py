"""C04: byte codecs of the field tower: accept exactly canonical input, exact value, exact byte order."""
from engine.check import Ob
from engine.flow import *
from engine.ringob import *
BOUNDS = "all byte strings of the fixed sizes (48/96/288/576) with every combination of the two decoding options and the defaults; all canonical elements, both encoding options, span and array forms"
OUTSIDE = "elements that are not canonical (raw value >= p) as encoder input; gcc code generation (validated by running)"
ASSUMPTIONS = ["limb multiplication contract (x < 2^384, y < p included): decided by C01/C02", "the decoder of each tower level uses the level below through the contract proved for it here"]
SUB = {"fp2": "fp", "fp6": "fp2", "fp12": "fp6"}
NC = {"fp": 1, "fp2": 2, "fp6": 6, "fp12": 12}
def nb(ty): return 48 * NC[ty]
def coord(V, i): return tm.extract(V, 384 * i + 383, 384 * i) if tm.isT(V) else V >> 384 * i & (1 << 384) - 1
def pos(ty, be, i): return i       # memory order is little-endian order; big-endian is the whole string reversed
def dec_hook(ex, ty, be):
    """contract of ty::fromBytes{BE,LE}(span, conv_opt) -> optional (memory result)"""
    n = ex.mod.bydem.get(f"bls12_381::{ty}::fromBytes{'BE' if be else 'LE'}(std::span<unsigned char const, {nb(ty)}ul>, bls12_381::conv_opt)")
    if not n: return
    def h(ex, st, args, fn):
        out, inp, opt = args
        if tm.isT(opt): raise Unsupported("symbolic option")
        cv, mo = opt & 255, opt >> 8 & 255
        vals = []
        for i in range(NC[ty]):
            k = NC[ty] - 1 - i if be else i
            q = ex.padd(inp, 48 * k)
            v = read_be(ex, st, q, 48) if be else ex.read_int(st, q, 48)
            if v is None: raise Unsupported("uninitialised input")
            vals.append(v)
        res = []
        if cv:
            ok = tm.and_all([tm.ult(384, v, P) for v in vals])
            s2 = st.fork(); s2.pc = s2.pc + (tm.not_(ok),) if tm.isT(tm.not_(ok)) else s2.pc
            if ex.solver.sat(list(s2.pc)) != "unsat" and ok != 1:
                ex.write_int(s2, ex.padd(out, nb(ty)), 1, 0); res.append((s2, None))
            if ok == 0: return res
            if tm.isT(ok): st.pc = st.pc + (ok,)
        for i, v in enumerate(vals):
            ex.write_int(st, ex.padd(out, 48 * i), 48, ex.ring.term(pscale(ex.ring.elem(st, v).p, R)) if mo else v)
        ex.write_int(st, ex.padd(out, nb(ty)), 1, 1); res.append((st, None))
        return res
    ex.hooks[n] = h
def dec_ob(ty, be, cv, mo, form):
    fn = f"h_{ty}_fromBytes{'BE' if be else 'LE'}" + ("_d" if form == "default" else "")
    n = nb(ty); S = {}
    def setup(ex):
        st = ex.new_state()
        vs = [tm.var(f"v{i}", 384) for i in range(NC[ty])]
        S["vs"] = vs
        V = tm.concat_list([(384, v) for v in reversed(vs)])
        S["out"] = ex.alloc(st, n, "arg"); S["in"] = bytes_of(ex, st, n, V, be)
        ex.ring.known = vs
        return st, [S["out"], S["in"]] + ([cv, mo] if form != "default" else [])
    def conds(o, ex):
        vs = S["vs"]; rg = ex.ring
        ok = tm.and_all([tm.ult(384, v, P) for v in vs]) if cv else 1
        r = o.ret
        got = tm.not_(tm.eq(64, r, 0)) if tm.isT(r) else int(r != 0)
        yield "accepts", tm.not_(tm.xor(1, got, ok))
        # on accepting paths: every coordinate
        if not tm.isT(r) and r == 0: return
        for i, v in enumerate(vs):
            g = ex.read_int(o.st, ex.padd(S["out"], 48 * i), 48)
            if g is None: yield f"coordinate {i} unwritten", 0; continue
            e = rg.term(pscale(rg.elem(o.st, v).p, R)) if mo else v
            yield f"coordinate {i}", tm.eq(384, g, e)
        iv = ex.read_int(o.st, S["in"], n)
        yield "input unchanged", tm.eq(8 * n, bswap(iv, n) if be else iv, tm.concat_list([(384, v) for v in reversed(vs)]))
    def search(ctx, N, cands):
        def tries():
            yield from cands
            for k in range(N):
                yield [ctx.rng.choice([0, 1, P - 1, P, P + 1, (1 << 384) - 1, 1 << 383, 1 << 381, ctx.rng.getrandbits(384), P + ctx.rng.getrandbits(380)]) if ctx.rng.random() < (.05, .4, .15)[k % 3] else ctx.rng.randrange(P) for _ in range(NC[ty])]
        for vs in tries():
            V = sum(v << 384 * i for i, v in enumerate(vs))
            a = [b"\x5a" * n, V.to_bytes(n, "big" if be else "little")] + ([cv, mo] if form != "default" else [])
            r = ctx.nat.call(fn, a)
            ok = not cv or all(v < P for v in vs)
            exp = b"".join(le(v * R % P if mo else v, 48) for v in vs) if ok else None
            if r[0] != "ret" or bool(r[1]) != ok or ok and r[2][0] != exp:
                ctx.violation(f"{fn}(check_valid={cv}, to_mont={mo}) on {a[1].hex()}: " + (f"returned {r[1]}" if r[0] == "ret" else str(r[0])) + f", expected {'the element' if ok else 'rejection'}", call=(fn, a), observed=str(r)[:2000])
                return True
        return False
    def hooks(ex):
        if ty in SUB: dec_hook(ex, SUB[ty], be)
    def cand(ex, o, conds):
        m = ex.solver.model(conds)
        return [m(v) for v in S["vs"]] if callable(m) else None
    return Flow(fn, setup, conds, search, hooks=hooks)
def enc_ob(ty, be, fm, form):
    fn = f"h_{ty}_toBytes{'BE' if be else 'LE'}" + ("_a" if form == "array" else "")
    n = nb(ty); S = {}
    def setup(ex):
        st = ex.new_state(); rg = ex.ring
        xs = [rg.fpvar(f"x{i}") for i in range(NC[ty])]; S["xs"] = xs
        S["out"] = ex.alloc(st, n, "arg"); p = ex.alloc(st, n, "arg"); S["in"] = p
        for i, (t, q) in enumerate(xs): ex.write_int(st, ex.padd(p, 48 * i), 48, t)
        return st, [S["out"], p, fm]
    def conds(o, ex):
        rg = ex.ring
        for i, (t, q) in enumerate(S["xs"]):
            k = NC[ty] - 1 - i if be else i
            g = ex.read_int(o.st, ex.padd(S["out"], 48 * k), 48)
            if g is None: yield f"coordinate {i} unwritten", 0; continue
            if be: g = bswap(g, 48)
            yield f"coordinate {i}", tm.eq(384, g, rg.term(pscale(q, RI)) if fm else t)
            yield f"input {i} unchanged", tm.eq(384, ex.read_int(o.st, ex.padd(S["in"], 48 * i), 48), t)
    def search(ctx, N, cands):
        for k in range(N):
            vs = [ctx.rng.choice([0, 1, P - 1, R % P, RI, 2, 255, 256]) if ctx.rng.random() < (0, .5)[k % 2] else ctx.rng.randrange(P) for _ in range(NC[ty])]
            a = [b"\x5a" * n, b"".join(le(v, 48) for v in vs), fm]
            exp = b"".join(le(v * RI % P if fm else v, 48) for v in vs)
            if be: exp = exp[::-1]
            r = ctx.nat.call(fn, a)
            if r[0] != "ret" or r[2][0] != exp:
                ctx.violation(f"{fn}({a[1].hex()}, from_mont={fm}) returned {r[2][0].hex() if r[0]=='ret' else r[0]}, expected {exp.hex()}", call=(fn, a), observed=str(r)[:2000]); return True
        return False
    return Flow(fn, setup, conds, search)
def pred_ob(nm, fn, spec, gen=None):
    """predicates on one canonical element whose value is given by bits of the plain integer"""
    S = {}
    def setup(ex):
        st = ex.new_state(); t, q = ex.ring.fpvar("x"); S["t"] = t; S["q"] = q
        p = ex.alloc(st, 48, "arg"); ex.write_int(st, p, 48, t)
        return st, [p]
    def conds(o, ex):
        raw = ex.ring.term(pscale(S["q"], RI))
        r = o.ret; got = tm.not_(tm.eq(64, r, 0)) if tm.isT(r) else int(r != 0)
        yield nm, tm.not_(tm.xor(1, got, spec(raw, S["t"])))
    def search(ctx, N, cands):
        for k in range(N):
            v = ctx.rng.choice([0, 1, 2, P - 1, P - 2, (P - 1) // 2, (P + 1) // 2, (P - 3) // 2, (P + 3) // 2]) if k % 2 else ctx.rng.randrange(P)
            a = [le(v * R % P, 48)]; r = ctx.nat.call(fn, a); e = bool(spec(v, v * R % P))
            if r[0] != "ret" or bool(r[1]) != e: ctx.violation(f"{fn} of the element {v:#x}: {r[1] if r[0]=='ret' else r[0]}, expected {e}", call=(fn, a), observed=str(r)); return True
        return False
    return Flow(fn, setup, conds, search)
def obligations(ctx):
    ctx.mod(); ctx.nat
    obs = []
    for ty in NC:
        for be in (1, 0):
            e = "BE" if be else "LE"
            for cv in (1, 0):
                for mo in (1, 0): obs.append(Ob(f"{ty}.fromBytes{e}/check={cv},mont={mo}", dec_ob(ty, be, cv, mo, "opt").go, deadline=200))
            obs.append(Ob(f"{ty}.fromBytes{e}/default", dec_ob(ty, be, 1, 1, "default").go, deadline=200))
            for fm in (1, 0):
                for form in ("span", "array"): obs.append(Ob(f"{ty}.toBytes{e}/mont={fm},{form}", enc_ob(ty, be, fm, form).go, deadline=200))
    return obs
