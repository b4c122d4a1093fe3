"""Point codecs (C11 decoding, C12 encoding) of G1 and G2."""
from engine.check import Ob
from engine.flow import *
from engine.ringob import *
from checks.c04 import dec_hook
SZ = {"g1": 144, "g2": 288}; NF = {"g1": 1, "g2": 2}; FT = {"g1": "fp", "g2": "fp2"}; GEN = {"g1": G1, "g2": G2}; BB = {"g1": B1, "g2": B2}
HALF = (P - 1) // 2
def largest(x, w=384): return tm.ult(w, HALF, x)
def larg_term(rg, p, ty):
    """the standard's sign of the field element p: larger than its negation"""
    def largest(t): return rg.rewrite(tm.ult(384, HALF, t))
    re = rg.term(pscale(p if ty == "g1" else rg.realpart(p), RI))
    if ty == "g1": return largest(re)
    im = rg.term(pscale(rg.imagpart(p), RI))
    return tm.or_(1, largest(im), tm.and_(1, rg.zero_atom(rg.imagpart(p)), largest(re)))
def larg_ce(y): return y.b > HALF or y.b == 0 and y.a > HALF
def zero2(rg, p, ty): return rg.zero_atom(p) if ty == "g1" else tm.and_(1, rg.zero_atom(rg.realpart(p)), rg.zero_atom(rg.imagpart(p)))
def parts(rg, p, ty): return [p] if ty == "g1" else [rg.realpart(p), rg.imagpart(p)]
def mont(rg, p): return rg.term(p)
def is_square(z, ty):
    if ty == "g1": return sqrt_fp(z.a) is not None and z.b == 0
    return sqrt_ce(z) is not None
def no_two_torsion(ty):
    """x^3 + b = 0 has no solution in the field (Euler criterion): y = 0 does not occur on the curve"""
    b = -BB[ty]; n = (P if ty == "g1" else P * P) - 1
    assert n % 3 == 0 and not (b ** (n // 3) == CE(1)), "the curve has a point of order two"
_SPECIAL = []
def special_g2(n=8):
    """points of E'(Fp2) whose y is real or purely imaginary: x = s + t*u with Im(x^3) = -4 makes x^3 + B real"""
    t = 0
    while len(_SPECIAL) < n:
        t += 1
        q = (t * t * t - 4) * pow(3 * t, P - 2, P) % P; s = sqrt_fp(q)
        if s is None: continue
        for v in (s, -s % P):
            x = CE(v, t); y = sqrt_ce(x * x * x + B2)
            if y is not None: assert y.a == 0 or y.b == 0; _SPECIAL.extend([(x, y), (x, ec_neg((x, y))[1])])
    return _SPECIAL[:n]
def sqrt_hook(ex, ty, S):
    t = FT[ty]; n = ex.mod.bydem.get(f"bls12_381::{t}::sqrt(bls12_381::{t}&) const")
    if not n: raise Unsupported("no sqrt")
    S["qr"] = {}; S["root"] = {}
    def h(ex, st, args, fn):
        rg = ex.ring; k = len(args) - 2
        src, dst = args
        es = []
        for i in range(NF[ty]):
            v = ex.read_int(st, ex.padd(src, 48 * i), 48)
            if v is None: raise Unsupported("uninitialised square root argument")
            e = rg.elem(st, v)
            if e.b != 1: raise Unsupported("non-canonical square root argument")
            es.append(e.p)
        a = rg.norm(es[0] if ty == "g1" else padd(es[0], pmul(es[1], {U1: 1})))
        key = pkey(a); q, y = qr_of(rg, S, a, ty)
        out = []
        for s, z in fork_on(ex, st, q):
            if z:
                for i, p in enumerate(parts(rg, y, ty)): ex.write_int(s, ex.padd(dst, 48 * i), 48, rg.term(p))
            out.append((s, int(z)))
        return out
    ex.hooks[n] = h
def qr_of(rg, S, a, ty):
    """(1-bit atom 'a is a square', a root)"""
    key = pkey(a); r = S["qr"].get(key)
    if r is None:
        q = tm.var(f"isSquare{len(S['qr'])}", 1)
        if ty == "g1":
            i = rg.newvar(f"root{len(S['qr'])}"); y = rg.var(i); rg.sq[i] = a
        else:
            y = rg.fp2var(f"root{len(S['qr'])}"); i = next(exps(next(iter(y))))[0]; rg.sq[i] = a; rg.sq[rg.conj[i]] = rg.pconj(a)
        r = S["qr"][key] = (q, y)
        S["nz"].append(y)
    return r
# ------------------------------------------------------------------ decoding
def fieldvars(rg, st, vs, mo):
    """field values of raw inputs (canonical on this path)"""
    ps = [rg.elem(st, v).p for v in vs]
    return [pscale(p, R) if mo else p for p in ps]
def dec_ob(ty, kind, be, cv, mo, form):
    n = 48 * NF[ty] * (3 if kind == "Jacobian" else 2); nf = NF[ty]; nv = n // 48
    fn = f"h_{ty}_from{kind}Bytes{'BE' if be else 'LE'}" + ("_d" if form == "default" else ""); S = {"nz": []}
    def setup(ex):
        st = ex.new_state(); vs = [tm.var(f"v{i}", 384) for i in range(nv)]; S["vs"] = vs      # coordinate order x.c0 x.c1 y.c0 ...
        ex.ring.known = vs
        p = ex.alloc(st, n, "arg"); S["in"] = p; S["out"] = ex.alloc(st, SZ[ty], "arg")
        for i, v in enumerate(vs):
            el, c = divmod(i, nf); pos = el * nf + (nf - 1 - c if be else c)
            for j in range(48): ex.wr(st, p.obj, 48 * pos + (47 - j if be else j), 1, tm.extract(v, 8 * j + 7, 8 * j))
        S["bytes"] = ex.read_int(st, p, n)
        return st, [S["out"], p] + ([cv, mo] if form != "default" else [])
    def conds(o, ex):
        rg = ex.ring; vs = S["vs"]
        ok = tm.and_all([tm.ult(384, v, P) for v in vs])
        r = o.ret; got = tm.not_(tm.eq(64, r, 0)) if tm.isT(r) else int(r != 0)
        canon = ex.solver.sat(list(o.st.pc) + [tm.not_(ok)]) == "unsat" if tm.isT(ok) else bool(ok)
        if not canon:
            # some coordinate may be out of range on this path: it must be out of range, and rejected
            yield "rejects exactly the non-canonical coordinates", tm.and_(1, tm.not_(ok), tm.not_(got) if tm.isT(got) else 1 - got); return
        fs = fieldvars(rg, o.st, vs, mo)
        el = [fs[i] if nf == 1 else padd(fs[2 * i], pmul(fs[2 * i + 1], {U1: 1})) for i in range(nv // nf)]
        X, Y = PE(el[0], rg), PE(el[1], rg); b = X.mkc(BB[ty].a, BB[ty].b)
        if kind == "Jacobian":
            Z = PE(el[2], rg); inf = zero2(rg, Z.p, ty); Z2 = Z * Z
            on = tm.or_(1, inf, zero2(rg, (Y * Y - X * X * X - Z2 * Z2 * Z2 * b).p, ty))
        else:
            inf = tm.and_(1, zero2(rg, X.p, ty), zero2(rg, Y.p, ty)); on = tm.or_(1, inf, zero2(rg, (Y * Y - X * X * X - b).p, ty))
        acc = on if cv else 1
        yield "accepts", tm.not_(tm.xor(1, got, acc))
        if not tm.isT(got) and not got: return
        outs = []
        for i in range(3 * nf):
            g = ex.read_int(o.st, ex.padd(S["out"], 48 * i), 48)
            if g is None: yield f"coordinate {i} unwritten", 0; return
            outs.append(g)
        if kind == "Jacobian":
            for i, f in enumerate(fs): yield f"coordinate {i}", tm.eq(384, outs[i], rg.term(f))
        else:
            zt = tm.and_all([tm.eq(384, g, 0) for g in outs[2 * nf:]])
            one = tm.and_all([tm.eq(384, outs[i], rg.term(f)) for i, f in enumerate(fs)] + [tm.eq(384, outs[2 * nf], R % P)] + [tm.eq(384, g, 0) for g in outs[2 * nf + 1:]])
            yield "result", tm.or_(1, tm.and_(1, inf, rg.rewrite(zt)), tm.and_(1, tm.not_(inf), rg.rewrite(one)))
        yield "input unchanged", tm.eq(8 * n, ex.read_int(o.st, S["in"], n), S["bytes"])
    def ref(vs):
        if any(v >= P for v in vs): return None
        f = [v if mo else v * RI % P for v in vs]
        el = [CE(f[i]) if nf == 1 else CE(f[2 * i], f[2 * i + 1]) for i in range(nv // nf)]
        if kind == "Jacobian":
            z2 = el[2] * el[2]
            if cv and not el[2].iszero() and not (el[1] * el[1] - el[0] * el[0] * el[0] - z2 * z2 * z2 * BB[ty]).iszero(): return None
            return f
        if el[0].iszero() and el[1].iszero(): return "inf"
        if cv and not (el[1] * el[1] - el[0] * el[0] * el[0] - BB[ty]).iszero(): return None
        return f + [1] + [0] * (nf - 1)
    def search(ctx, N, cands):
        rng = ctx.rng; pool = [GEN[ty], ec_neg(GEN[ty])] + [rand_point(rng, ty == "g2") for _ in range(4)]
        for k in range(N):
            x, y = rng.choice(pool); z = CE(1)
            if kind == "Jacobian":
                z = CE(rng.choice([1, 1, P - 1, rng.randrange(1, P)]), rng.choice([0, rng.randrange(P)]) if nf == 2 else 0)
                if rng.random() < .15: z = CE(0); x, y = rng.choice([(CE(0), CE(1)), (CE(0), CE(0)), (x, y), (CE(5), CE(7))])
                x, y = (x * z * z, y * z * z * z) if not z.iszero() else (x, y)
            elif rng.random() < .1: x, y = CE(0), CE(0)
            cs = [c for e in ((x, y, z) if kind == "Jacobian" else (x, y)) for c in ((e.a,) if nf == 1 else (e.a, e.b))]
            m = rng.randrange(8)
            if m == 0: cs[rng.randrange(nv)] = rng.randrange(P)
            if m == 1: i = rng.randrange(nv); cs[i] = (cs[i] + rng.choice([1, P - 1])) % P
            if m == 2: i, j = rng.randrange(nv), rng.randrange(nv); cs[i], cs[j] = cs[j], cs[i]
            if m == 3: cs[rng.randrange(nv)] = 0
            vs = [c if mo else c * R % P for c in cs]
            if m == 4: i = rng.randrange(nv); vs[i] = rng.choice([vs[i] + P, P, P + 1, (1 << 384) - 1])
            b = b""
            for i in range(0, nv, nf):
                w = vs[i:i + nf]
                b += b"".join(v.to_bytes(48, "big") for v in reversed(w)) if be else b"".join(v.to_bytes(48, "little") for v in w)
            a = [b"\x5a" * SZ[ty], b] + ([cv, mo] if form != "default" else [])
            r = ctx.nat.call(fn, a); e = ref(vs)
            good = r[0] == "ret" and bool(r[1]) == (e is not None)
            if good and e is not None:
                o = [int.from_bytes(r[2][0][48 * i:48 * i + 48], "little") for i in range(3 * nf)]
                good = not any(o[2 * nf:]) and max(o) < P if e == "inf" else o == [c * R % P for c in e]
            if not good:
                ctx.violation(f"{fn}(check_valid={cv}, to_mont={mo}) on {b.hex()}: {'returned %s' % r[1] if r[0] == 'ret' else r[0]}{' with another point' if r[0]=='ret' and r[1] else ''}, expected {'rejection' if e is None else 'infinity' if e == 'inf' else 'the encoded point'}", call=(fn, a), observed=str(r)[:2000]); return True
        return False
    def hooks(ex): dec_hook(ex, "fp", be); dec_hook(ex, "fp2", be)
    return Flow(fn, setup, conds, search, hooks=hooks)
def comp_ob(ty):
    nf = NF[ty]; n = 48 * nf; fn = f"h_{ty}_fromCompressedBytesBE"; S = {"nz": []}
    def setup(ex):
        st = ex.new_state(); f = tm.var("flags", 3); x = tm.concat_list([(3, 0), (381, tm.var("xlow", 381))]); vs = [x] + ([tm.var("c0", 384)] if nf == 2 else [])
        S["f"] = f; S["vs"] = vs; ex.ring.known = vs      # vs[0]: the most significant coordinate
        p = ex.alloc(st, n, "arg"); S["in"] = p; S["out"] = ex.alloc(st, SZ[ty], "arg")
        for i, v in enumerate(vs):
            for j in range(48):
                b = tm.extract(v, 8 * j + 7, 8 * j)
                if i == 0 and j == 47: b = tm.concat_list([(3, f), (5, tm.extract(v, 380, 376))])
                ex.wr(st, p.obj, 48 * i + 47 - j, 1, b)
        S["bytes"] = ex.read_int(st, p, n)
        return st, [S["out"], p]
    def conds(o, ex):
        rg = ex.ring; vs = S["vs"]; f = S["f"]; C, I, Sg = (tm.extract(f, i, i) for i in (2, 1, 0))
        r = o.ret; got = tm.not_(tm.eq(64, r, 0)) if tm.isT(r) else int(r != 0)
        rest = tm.and_all([tm.eq(384, v, 0) for v in vs] + [tm.not_(Sg)])
        okr = tm.and_all([tm.ult(384, v, P) for v in vs])
        can = ex.solver.sat(list(o.st.pc) + [C, tm.not_(I), okr]) != "unsat"
        if not can:
            # no path with a proper finite encoding: only infinity is accepted here
            yield "infinity or rejection", tm.not_(tm.xor(1, got, tm.and_(1, C, tm.and_(1, I, rest))))
            if tm.isT(got) or got:
                zt = tm.and_all([tm.eq(384, ex.read_int(o.st, ex.padd(S["out"], 48 * (2 * nf + i)), 48), 0) for i in range(nf)])
                yield "infinity has z = 0", tm.or_(1, tm.not_(got) if tm.isT(got) else 0, zt)
            yield "input unchanged", tm.eq(8 * n, ex.read_int(o.st, S["in"], n), S["bytes"])
            return
        if ex.solver.sat(list(o.st.pc) + [tm.not_(tm.and_(1, C, tm.and_(1, tm.not_(I), okr)))]) != "unsat": yield "path mixes finite encodings with others", 0; return
        fs = fieldvars(rg, o.st, vs, True)[::-1]
        xp = fs[0] if nf == 1 else padd(fs[0], pmul(fs[1], {U1: 1})); X = PE(xp, rg)
        a = rg.norm((X * X * X + X.mkc(BB[ty].a, BB[ty].b)).p); q, root = qr_of(rg, S, a, ty)
        yield "accepts exactly x on the curve", tm.not_(tm.xor(1, got, q))
        if not tm.isT(got) and not got: return
        outs = [ex.read_int(o.st, ex.padd(S["out"], 48 * i), 48) for i in range(3 * nf)]
        if any(g is None for g in outs): yield "coordinate unwritten", 0; return
        for i, p in enumerate(fs): yield f"x coordinate {i}", tm.eq(384, outs[i], rg.term(p))
        ye = [rg.elem(o.st, g) for g in outs[nf:2 * nf]]
        if any(e.b != 1 for e in ye): yield "y not reduced", 0; return
        yp = ye[0].p if nf == 1 else padd(ye[0].p, pmul(ye[1].p, {U1: 1}))
        yield "y^2 = x^3 + b", int(not rg.norm(psub(pmul(yp, yp), a)))
        z = zero2(rg, yp, ty)
        if tm.isT(z): o.st.pc = o.st.pc + (tm.not_(z),)
        yield "sign of y", tm.not_(tm.xor(1, larg_term(rg, yp, ty), Sg))
        yield "z = 1", tm.and_all([tm.eq(384, outs[2 * nf], R % P)] + [tm.eq(384, g, 0) for g in outs[2 * nf + 1:]])
        yield "input unchanged", tm.eq(8 * n, ex.read_int(o.st, S["in"], n), S["bytes"])
    def ref(b):
        f = b[0] >> 5; v = [int.from_bytes(b[48 * i:48 * i + 48], "big") for i in range(nf)]; v[0] &= (1 << 381) - 1
        if not f & 4: return None
        if f & 2: return "inf" if not f & 1 and not any(v) else None
        if any(c >= P for c in v): return None
        x = CE(v[0]) if nf == 1 else CE(v[1], v[0]); y = sqrt_ce(x * x * x + BB[ty])
        if y is None or nf == 1 and y.b: return None
        if larg_ce(y) != bool(f & 1): y = -y
        return x, y
    def search(ctx, N, cands):
        rng = ctx.rng; small = [CE(i, j) for i in range(14) for j in (range(14) if nf == 2 else (0,))]
        pool = [GEN[ty][0]] + [rand_point(rng, ty == "g2")[0] for _ in range(6)] + small + ([p[0] for p in special_g2()] if ty == "g2" else [])
        low = [c for c in small + [CE(i) for i in range(400)] if c.a < 1000]
        for k in range(N):
            x = rng.choice(pool); f = rng.choice([4, 4, 4, 5, 5, 5, 6, 6, 7, 0, 1, 2, 3])
            v = [x.a] if nf == 1 else [x.b, x.a]
            m = rng.randrange(7)
            if f & 2 and rng.random() < .7:
                v = [0] * nf
                if m < 4: v[rng.randrange(nf)] = rng.choice([1, 1 << 8 * rng.randrange(48), 1 << rng.randrange(381)]) & (1 << 381) - 1
            elif m == 0: v[rng.randrange(nf)] = rng.randrange(P)
            elif m == 1:
                x = rng.choice(low); v = [x.a] if nf == 1 else [x.b, x.a]; i = rng.randrange(nf)
                if v[i] + P < 1 << (381 if i == 0 else 384): v[i] += P
            elif m == 2: v[rng.randrange(nf)] = rng.choice([0, 1, P - 1, P, P + 1, P + 2, (1 << 381) - 1])
            b = (v[0] | f << 381).to_bytes(48, "big") + b"".join(c.to_bytes(48, "big") for c in v[1:])
            a = [b"\x5a" * SZ[ty], b]; r = ctx.nat.call(fn, a); e = ref(b)
            good = r[0] == "ret" and bool(r[1]) == (e is not None)
            if good and e is not None:
                o = [int.from_bytes(r[2][0][48 * i:48 * i + 48], "little") for i in range(3 * nf)]
                if e == "inf": good = not any(o[2 * nf:]) and max(o) < P
                else: good = o == [c * R % P for q in e + (CE(1),) for c in ((q.a,) if nf == 1 else (q.a, q.b))]
            if not good:
                ctx.violation(f"{fn} on {b.hex()}: {'returned %s' % r[1] if r[0] == 'ret' else r[0]}{' with another point' if r[0]=='ret' and r[1] else ''}, expected {'rejection' if e is None else 'infinity' if e == 'inf' else 'the encoded point'}", call=(fn, a), observed=str(r)[:2000]); return True
        return False
    def hooks(ex): dec_hook(ex, "fp", True); dec_hook(ex, "fp2", True); sqrt_hook(ex, ty, S)
    return Flow(fn, setup, conds, search, hooks=hooks)
# ------------------------------------------------------------------ encoding
def enc_ob(ty, kind, be, fm, form):
    nf = NF[ty]; n = nf * 48 * {"Jacobian": 3, "Affine": 2, "Compressed": 1}[kind]
    fn = f"h_{ty}_to{kind}Bytes{'BE' if be else 'LE'}" + {"span": "", "array": "_a", "default": "_d"}[form]; S = {"nz": []}
    def setup(ex):
        st = ex.new_state(); rg = ex.ring
        if nf == 1: vs = [rg.fpvar(c) for c in "xyz"]
        else: vs = [(rg.term(q), q) for c in "xyz" for q in parts(rg, rg.fp2var(c), ty)]
        S["vs"] = vs
        p = ex.alloc(st, SZ[ty], "arg"); S["in"] = p; S["out"] = ex.alloc(st, n, "arg")
        for i, (t, q) in enumerate(vs): ex.write_int(st, ex.padd(p, 48 * i), 48, t)
        return st, [S["out"], p] + ([fm] if kind != "Compressed" and form != "default" else [])
    def conds(o, ex):
        rg = ex.ring; vs = S["vs"]; el = []
        for i in range(3):
            w = vs[i * nf:i * nf + nf]; el.append(PE(w[0][1] if nf == 1 else padd(w[0][1], pmul(w[1][1], {U1: 1})), rg))
        def outc(i, comp):           # bytes of coordinate comp of element i
            pos = i * nf + (nf - 1 - comp if be else comp); g = ex.read_int(o.st, ex.padd(S["out"], 48 * pos), 48)
            return None if g is None else bswap(g, 48) if be else g
        for i, (t, q) in enumerate(vs): yield f"input {i} unchanged", tm.eq(384, ex.read_int(o.st, ex.padd(S["in"], 48 * i), 48), t)
        k = RI if fm else 1
        def same(i, comp, poly):
            g = outc(i, comp)
            if g is None: return 0
            if tm.isT(g) and g.dom is None: return tm.eq(384, g, rg.term(pscale(poly, k)))
            return int(rg.is_zero_under(psub(rg.elem(o.st, g).p, pscale(poly, k)), rg.facts(o.st)))
        if kind == "Jacobian":
            for i in range(3):
                for c in range(nf): yield f"coordinate {i}.{c}", tm.eq(384, outc(i, c) if outc(i, c) is not None else -1, rg.term(pscale(vs[i * nf + c][1], k)))
            return
        if rg.is_zero_under({0: 1}, rg.facts(o.st)): return            # contradictory path condition
        inf = zero2(rg, el[2].p, ty)
        isinf = ex.solver.sat(list(o.st.pc) + [tm.not_(inf)]) == "unsat"
        if not isinf and ex.solver.sat(list(o.st.pc) + [inf]) != "unsat": yield "path mixes infinity with finite points", 0; return
        if isinf:
            w = ex.read_int(o.st, S["out"], n)
            yield "infinity", tm.eq(8 * n, w, 0xC0 if kind == "Compressed" else 0) if w is not None else 0; return
        z1 = rg.is_zero_under(psub(el[2].p, {0: 1}), rg.facts(o.st))
        if z1: X, Y = el[0], el[1]
        else:
            if nf == 1: w = PE(rg.inverse_of(el[2].p), rg)
            else:
                nrm = pmul(el[2].p, rg.pconj(el[2].p)); w = PE(pmul(rg.pconj(el[2].p), rg.inverse_of(nrm)), rg)
            X = el[0] * w * w; Y = el[1] * w * w * w
        xs, ys = parts(rg, X.p, ty), parts(rg, Y.p, ty)
        if kind == "Affine":
            for i, q in enumerate((xs, ys)):
                for c in range(nf): yield f"{'xy'[i]}.{c}", same(i, c, q[c])
            return
        def pick(poly, lab):
            """the code's own term for this value when it has one"""
            return rg.term(pscale(poly, RI))
        lo = nf - 1
        g = outc(0, lo)
        if g is None: yield "unwritten", 0; return
        flags = tm.extract(g, 383, 381); low = tm.extract(g, 380, 0); hi = rg.term(pscale(xs[lo], RI))
        hb = rg.base(low)
        if hb is not None and low.args[1] == 0 and rg.is_zero_under(psub(hb.dom.p, pscale(xs[lo], RI)), rg.facts(o.st)): hi = hb
        yield "x (most significant part)", tm.eq(381, low, tm.extract(hi, 380, 0))
        if nf == 2: yield "x.c0", same(0, 0, xs[0])
        z = zero2(rg, Y.p, ty)
        pc = o.st.pc
        yield "flags", tm.eq(3, flags, tm.concat_list([(2, 2), (1, larg_term(rg, Y.p, ty))]))
    def search(ctx, N, cands):
        rng = ctx.rng; pool = [None, None, GEN[ty], ec_neg(GEN[ty])] + [rand_point(rng, ty == "g2") for _ in range(6)]
        if ty == "g2": pool += special_g2()          # points whose y has only one component matter for the sign
        for k in range(N):
            p = rng.choice(pool); z = CE(rng.choice([1, 1, P - 1, rng.randrange(1, P)]), rng.choice([0, rng.randrange(P)]) if nf == 2 else 0)
            if p is None: el = rng.choice([(CE(0), CE(1), CE(0)), (CE(0), CE(0), CE(0)), (CE(3), CE(0), CE(0)), (CE(0), CE(9), CE(0)), (CE(rng.randrange(P)), CE(rng.randrange(P)), CE(0))])
            else: el = (p[0] * z * z, p[1] * z * z * z, z)
            a = [b"\x5a" * n, b"".join((c * R % P).to_bytes(48, "little") for e in el for c in ((e.a,) if nf == 1 else (e.a, e.b)))] + ([fm] if kind != "Compressed" and form != "default" else [])
            f = 1 if fm else R
            def enc(es): return b"".join(b"".join((c * f % P).to_bytes(48, "big") for c in ((e.a,) if nf == 1 else (e.b, e.a))) if be else b"".join((c * f % P).to_bytes(48, "little") for c in ((e.a,) if nf == 1 else (e.a, e.b))) for e in es)
            if kind == "Jacobian": exp = enc(el)
            elif p is None: exp = bytes([0xC0 if kind == "Compressed" else 0]) + bytes(n - 1)
            elif kind == "Affine": exp = enc(p)
            else:
                exp = enc(p[:1]); exp = bytes([exp[0] | 0x80 | (0x20 if larg_ce(p[1]) else 0)]) + exp[1:]
            r = ctx.nat.call(fn, a)
            if r[0] != "ret" or r[2][0] != exp:
                ctx.violation(f"{fn} of {'infinity' if p is None else 'the point'} with coordinates {el} gives {r[2][0].hex() if r[0] == 'ret' else r[0]}, expected {exp.hex()}", call=(fn, a), observed=str(r)[:2000]); return True
        return False
    return Flow(fn, setup, conds, search)
