"""C17: signing and aggregation are consistent with verification."""
from checks.sigs import *
from engine.check import PtrArr
BOUNDS = "every 256-bit secret key; messages of 0, 1, 2 and 33 symbolic bytes; aggregation of 0..6 points (thorough 0..12), through spans, accessors and predicates with a symbolic selection mask; sums of 0..6 secret keys below the order (thorough 0..12); honest signing followed by verification for 1..3 signers (thorough 1..4)"
OUTSIDE = "more signers; secret keys at or above the order in aggregate_secret_keys"
ASSUMPTIONS = ["group operations and scalar multiplication (C08, C09, C10), membership tests (C13), hash-to-curve lands in the subgroup (C14), bilinearity of the pairing product (C15), long division (C20)"]
class Base:
    def go(self, ctx):
        try: probs = self.run(ctx)
        except (Unsupported, Budget) as e: probs = [f"{type(e).__name__}: {e}"]
        if probs:
            if not self.search(ctx, 300): ctx.inconclusive(f"{self.name}: {'; '.join(probs)[:500]} and no failing input found")
        elif not self.search(ctx, 3): ctx.validated += 3
    def world(self, ctx): ctx._world = getattr(ctx, "_world", None) or World(ctx); return ctx._world
    def bad(self, ctx, fn, a, r, exp, desc):
        ctx.violation(f"{fn}: {desc}: {str(r)[:300]}, expected {str(exp)[:300]}", call=(fn, a), observed=str(r)[:1500]); return True
def newbytes(ex, st, n, name):
    m = [tm.var(f"{name}[{j}]", 8) for j in range(n)]; q = ex.alloc(st, n, "arg")
    for j, b in enumerate(m): ex.wr(st, q.obj, j, 1, b)
    return m, q
def newkey(ex, st, name):
    v = tm.var(name, 256); p = ex.alloc(st, 32, "arg"); ex.write_int(st, p, 32, v); return v, p
def one(ctx, outs):
    ctx.count_paths(outs)
    if len(outs) != 1 or outs[0].kind != "ret": raise Unsupported(f"outcomes {str(outs)[:200]}")
    return outs[0].st
def rkey(rng): return rng.choice([0, 1, 2, Q - 1, Q, (1 << 256) - 1, rng.getrandbits(256)]) if rng.random() < .4 else rng.randrange(Q)
class Mul(Base):
    """public_key, sign, pop_prove"""
    def __init__(self, fn, n=0): self.fn = fn; self.n = n; self.name = f"{fn} {n}"; self.ty = "g1" if fn == "h_public_key" else "g2"
    def run(self, ctx):
        S = Sig(ctx); ex = S.ex; st = ex.new_state(); ty = self.ty; o = ex.alloc(st, SZ[ty], "arg"); k, kp = newkey(ex, st, "sk")
        args = [o, kp]; pk = {"G": S.coef(k)}
        if self.fn == "h_sign": m, q = newbytes(ex, st, self.n, "m"); args += [q, self.n]; want = {S.hash_gen(m, CS): S.coef(k)}
        outs = ex.run(self.fn, args, st); ctx.count_paths(outs); probs = []
        if self.fn == "h_public_key": want = pk
        if self.fn == "h_pop_prove": want = {S.hash_gen(S.encoding("toAffineBytesLE", "g1", pk, (1,), 96), POP): S.coef(k)}
        if not outs: probs.append("no outcome")
        for r in outs:
            if r.kind != "ret": probs.append(f"outcome {r.kind} {r.info}"); continue
            w = S.g.same(r.st, S.g.rd(r.st, o, ty), want)
            if w: probs.append(w)
            if self.fn == "h_public_key" and not S.g.isaff(r.st, o, ty): probs.append("public key is not in affine form")
        return probs
    def search(self, ctx, N):
        W = self.world(ctx); rng = ctx.rng
        for it in range(N):
            k = rkey(rng); a = [b"\x5a" * SZ[self.ty], k.to_bytes(32, "little")]; m = bytes(rng.randrange(256) for _ in range(self.n))
            if self.fn == "h_sign": a += [m, self.n]; exp = ec_mul(W.hash(m), k % Q)
            elif self.fn == "h_public_key": exp = ec_mul(G1, k % Q)
            else: pk = ec_mul(G1, k % Q); exp = ec_mul(W.hash(affine_le(pk) if pk else bytes(96), POP), k % Q)
            r = ctx.nat.call(self.fn, a)
            if r[0] != "ret" or decpt(self.ty, r[2][0]) != exp: return self.bad(ctx, self.fn, a, r, exp, f"key {k:#x}, message {m.hex()}")
            if self.ty == "g1" and exp is not None and int.from_bytes(r[2][0][96:144], "little") != R: return self.bad(ctx, self.fn, a, r, "z = 1", f"key {k:#x}")
        return False
class Agg(Base):
    def __init__(self, ty, n, form): self.ty = ty; self.n = n; self.form = form; self.fn = f"h_aggregate_{'public_keys' if ty == 'g1' else 'signatures'}{form}"; self.name = f"{self.fn} {n}"
    def run(self, ctx):
        S = Sig(ctx, merge=True); ex = S.ex; st = ex.new_state(); ty, n = self.ty, self.n; sz = SZ[ty]; el = sz + (8 if self.form else 0)
        o = ex.alloc(st, sz, "arg"); p = ex.alloc(st, el * n, "arg")
        for i in range(n):
            q = ex.padd(p, el * i)
            if self.form: ex.write_int(st, q, 8, tm.var(f"tag{i}", 64)); q = ex.padd(q, 8)
            S.g.wr(st, q, ty, {f"P{i}": cconst(1)})
        args = [o, p, n]; mask = tm.var("mask", 64)
        if self.form == "_fp": args.append(mask)
        outs = ex.run(self.fn, args, st); ctx.count_paths(outs); probs = []
        want = {f"P{i}": ({(tm.extract(mask, i, i), ()): 1} if self.form == "_fp" else cconst(1)) for i in range(n)}
        if not outs: probs.append("no outcome")
        for r in outs:
            if r.kind != "ret": probs.append(f"outcome {r.kind} {r.info}"); continue
            w = S.g.same(r.st, S.g.rd(r.st, o, ty), want)
            if w: probs.append(w)
        return probs
    def search(self, ctx, N):
        rng = ctx.rng; ty = self.ty; pool = [None, GEN[ty], ec_neg(GEN[ty])] + [ec_mul(GEN[ty], rng.randrange(Q)) for _ in range(3)]
        for it in range(N):
            ps = [rng.choice(pool) for _ in range(self.n)]; mask = rng.getrandbits(64) if rng.random() < .8 else rng.choice([0, (1 << 64) - 1]); exp = None
            for i, p in enumerate(ps):
                if self.form != "_fp" or mask >> i & 1: exp = ec_add(exp, p)
            b = b"".join((rng.randbytes(8) if self.form else b"") + encpt(ty, p, rng) for p in ps) or b"\0" * 8
            a = [b"\x5a" * SZ[ty], b, self.n] + ([mask] if self.form == "_fp" else [])
            r = ctx.nat.call(self.fn, a)
            if r[0] != "ret" or decpt(ty, r[2][0]) != exp: return self.bad(ctx, self.fn, a, r, exp, f"points {str(ps)[:300]} mask {mask:#x}")
        return False
class Keys(Base):
    fn = "h_aggregate_secret_keys"
    def __init__(self, n): self.n = n; self.name = f"aggregate_secret_keys {n}"
    def run(self, ctx):
        S = Sig(ctx); ex = S.ex; st = ex.new_state(); n = self.n; o = ex.alloc(st, 32, "arg"); p = ex.alloc(st, 32 * n, "arg"); ks = []
        for i in range(n): v = tm.var(f"k{i}", 256); ks.append(v); ex.write_int(st, ex.padd(p, 32 * i), 32, v); st.pc = st.pc + (tm.ult(256, v, Q),)
        outs = ex.run(self.fn, [o, p, n], st); ctx.count_paths(outs); probs = []
        if not outs: probs.append("no outcome")
        for r in outs:
            if r.kind != "ret": probs.append(f"outcome {r.kind} {r.info}"); continue
            I = Ints(S); v = ex.read_int(r.st, o, 32)
            if v is None: probs.append("undefined result"); continue
            x = I.of(v); t = [I.of(k) for k in ks]
            for k in t: I.s.add(k < Q)
            if I.check(z3.And(x >= 0, x < Q)) != "unsat": probs.append("result not below the order")
            if n and I.zero_mod(z3.Sum(t) - x) != "unsat" or not n and (tm.isT(v) or v): probs.append("result is not the sum")
        return probs
    def search(self, ctx, N):
        rng = ctx.rng
        for it in range(N):
            ks = [rng.choice([0, 1, Q - 1, Q - 2, rng.randrange(Q), rng.randrange(Q)]) for _ in range(self.n)]; exp = sum(ks) % Q
            a = [b"\x5a" * 32, b"".join(k.to_bytes(32, "little") for k in ks) or b"\0" * 32, self.n]; r = ctx.nat.call(self.fn, a)
            if r[0] != "ret" or int.from_bytes(r[2][0], "little") != exp: return self.bad(ctx, self.fn, a, r, hex(exp), f"keys {[hex(k) for k in ks]}")
        return False
class Honest(Base):
    """keys and signatures made by the library are accepted by it"""
    def __init__(self, kind, n): self.kind = kind; self.n = n; self.name = f"honest {kind} {n}"
    def run(self, ctx):
        S = Sig(ctx); ex = S.ex; st = ex.new_state(); n, kind = self.n, self.kind; pk = ex.alloc(st, 144 * n, "arg"); sg = ex.alloc(st, 288 * n, "arg"); ms = []
        for i in range(n):
            k, kp = newkey(ex, st, f"sk{i}"); st = one(ctx, ex.run("h_public_key", [ex.padd(pk, 144 * i), kp], st))
            if kind == "pop": st = one(ctx, ex.run("h_pop_prove", [ex.padd(sg, 288 * i), kp], st)); continue
            m, q = newbytes(ex, st, 2, f"m{i}") if not ms or kind != "fast" else ms[0]; ms.append((m, q))
            st = one(ctx, ex.run("h_sign", [ex.padd(sg, 288 * i), kp, q, 2], st))
        a = ex.alloc(st, 288, "arg"); st = one(ctx, ex.run("h_aggregate_signatures", [a, sg, n], st)) if kind in ("aggregate", "fast") else st
        if kind == "verify": outs = ex.run("h_verify", [pk, ms[0][1], 2, sg], st)
        elif kind == "pop": outs = ex.run("h_pop_verify", [pk, sg], st)
        elif kind == "fast": outs = ex.run("h_pop_fast_aggregate_verify", [pk, n, ms[0][1], 2, a], st)
        else:
            mp = ex.alloc(st, 8 * n, "arg"); l = ex.alloc(st, 8 * n, "arg")
            for i in range(n): ex.store_raw(st, ex.padd(mp, 8 * i), 8, ms[i][1]); ex.wr(st, l.obj, 8 * i, 8, 2)
            outs = ex.run("h_aggregate_verify", [pk, n, mp, l, n, a, 0], st)
        ctx.count_paths(outs); probs = []
        if not outs: probs.append("no outcome")
        for o in outs:
            if o.kind != "ret": probs.append(f"outcome {o.kind} {o.info}"); continue
            w = S.decide(o, o.ret, 1)
            if w: probs.append(w)
        return probs
    def search(self, ctx, N):
        rng = ctx.rng; n = self.n; kind = self.kind
        for it in range(min(N, 60)):
            ks = [rng.choice([1, 2, Q - 1, rng.randrange(1, Q), rng.randrange(1, Q)]) if it % 5 else rng.randrange(Q) for _ in range(n)]; ms = [rng.randbytes(2) for _ in ks]
            if kind == "fast": ms = [ms[0]] * n
            c = lambda f, *a: ctx.nat.call(f, list(a))
            kb = [k.to_bytes(32, "little") for k in ks]; pk = [c("h_public_key", bytes(144), k)[2][0] for k in kb]
            sg = [c("h_pop_prove", bytes(288), k)[2][0] if kind == "pop" else c("h_sign", bytes(288), k, m, 2)[2][0] for k, m in zip(kb, ms)]
            a = c("h_aggregate_signatures", bytes(288), b"".join(sg), n)[2][0]; pb = b"".join(pk)
            if kind == "verify": call = ("h_verify", [pb, ms[0], 2, sg[0]])
            elif kind == "pop": call = ("h_pop_verify", [pb, sg[0]])
            elif kind == "fast": call = ("h_pop_fast_aggregate_verify", [pb, n, ms[0], 2, a])
            else: call = ("h_aggregate_verify", [pb, n, PtrArr(ms), (2).to_bytes(8, "little") * n, n, a, 0])
            r = ctx.nat.call(*call)
            if r[0] != "ret" or r[1] & 0xff != 1: return self.bad(ctx, call[0], call[1], r, True, f"honest signatures by keys {[hex(k) for k in ks]} on {[m.hex() for m in ms]}")
        return False
def obligations(ctx):
    ctx.mod(); ctx.nat; obs = []; add = lambda v, w=1: obs.append(Ob(v.name, v.go, deadline=700, weight=w))
    add(Mul("h_public_key")); add(Mul("h_pop_prove"))
    for n in (0, 1, 2, 33): add(Mul("h_sign", n))
    m = 6 if ctx.quick else 12
    for ty in ("g1", "g2"):
        for f in ("", "_f", "_fp"):
            for n in range(m + 1): add(Agg(ty, n, f))
    for n in range(m + 1): add(Keys(n))
    add(Honest("verify", 1)); add(Honest("pop", 1))
    for n in range(1, 4 if ctx.quick else 5): add(Honest("fast", n)); add(Honest("aggregate", n), n)
    return obs
