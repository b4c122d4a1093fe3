"""C18: secret-key parsing and child-key derivation."""
import hashlib
from checks.c17 import *
from engine.sha import UHash, Hash, hkdf
from engine.shahook import install as sha_install
BOUNDS = "sk_from_bytes, sk_to_bytes: all 2^256 contents; secret_key: every content of seeds of 0..34, 48, 54, 55, 56, 63, 64, 65, 96, 128 bytes, at most 3 draws of the rejection loop; derive_child_*: every parent key below the order / every point, every 32-bit index"
OUTSIDE = "other seed lengths; a fourth consecutive draw that is zero modulo the order; parents at or above the order in derive_child_sk_unhardened"
ASSUMPTIONS = ["SHA-256 compression equals FIPS 180-4 (C19), here an uninterpreted function", "long division (C20), scalar multiplication (C10), group operations (C08, C09), compressed encoding (C12) as a function of the point"]
SALT = b"BLS-SIG-KEYGEN-SALT-"; DRAWS = 3
def bv(bs): return tm.concat_list([(8, b) for b in bs])     # big-endian bytes -> value
def be(v, n): return [tm.extract(v, 8 * (n - 1 - i) + 7, 8 * (n - 1 - i)) if tm.isT(v) else v >> 8 * (n - 1 - i) & 255 for i in range(n)]
class D(Base):
    def start(self, ctx, merge=False):
        ctx.sha_trusted = True
        S = Sig(ctx, merge=merge); S.h = UHash(); sha_install(S.ex, ctx, S.h); orig = S.rem
        if not merge:
            def divn(n, inner=S.divn):
                h = inner(n)
                def f(ex, st, a, fn):
                    h(ex, st, a, fn); r = ex.read_int(st, a[1], 32); seen = st.user or ()
                    if n == 6 and tm.isT(r):
                        if r.id not in seen: seen = seen + (r.id,)
                        st.user = seen
                        if len(seen) >= DRAWS: st.pc = st.pc + (tm.not_(tm.eq(256, r, 0)),)
                return f
            for n in (4, 6):
                S.hook(f"void bls12_381::bn_divn_safe<{n}ul, 4ul>(std::array<unsigned long, {n}ul>&, std::array<unsigned long, 4ul>&, std::array<unsigned long, {n}ul> const&, std::array<unsigned long, 4ul> const&)", divn(n))
        return S, S.ex, S.ex.new_state()
    def keygen(self, S, seed):
        """the sequence of candidate keys"""
        out = []; salt = list(SALT)
        for i in range(DRAWS):
            okm = hkdf(S.h, salt, list(seed) + [0], [0, 48], 48); out.append(S.rem(bv(okm), 6)[1]); salt = S.h(salt)
        return out
    def check_key(self, S, o, out, cands):
        v = S.ex.read_int(o.st, out, 32)
        if v is None: return "undefined key"
        if not cands: return None if not tm.isT(v) and v == 0 else "key is not zero"
        want = cands[-1]
        for c in reversed(cands[:-1]): want = tm.ite(256, tm.eq(256, c, 0), want, c)
        for goal in (tm.eq(256, v, want), tm.ult(256, v, Q) if tm.isT(v) else int(v < Q)):
            n = tm.not_(goal) if tm.isT(goal) else 1 - goal
            if S.ex.solver.sat(list(o.st.pc) + [n] + [tm.ult(256, c, Q) for c in cands]) != "unsat": return "key differs from the specification"
        return None
    def collect(self, ctx, S, outs, f, want=None):
        ctx.count_paths(outs); probs = []
        if not outs: probs.append("no outcome")
        for o in outs:
            if o.kind != "ret": probs.append(f"outcome {o.kind} {o.info}"); continue
            w = f(o)
            if w: probs.append(w)
        return probs
def py_keygen(seed):
    if len(seed) < 32: return 0
    salt = SALT; h = lambda m: list(hashlib.sha256(bytes(m)).digest())
    while True:
        k = int.from_bytes(bytes(hkdf(h, salt, seed + b"\0", [0, 48], 48)), "big") % Q
        if k: return k
        salt = hashlib.sha256(salt).digest()
def hh(m): return list(hashlib.sha256(bytes(m)).digest())
def lamport(h, ikm, idx):
    inv = [tm.xor(8, b, 0xff) if tm.isT(b) else b ^ 255 for b in ikm]
    pks = []
    for k in (ikm, inv):
        ls = hkdf(h, idx, k, [], 8160)
        for i in range(255): pks += h(ls[32 * i:32 * i + 32])
    return h(pks)
class FromTo(D):
    def __init__(self, kind): self.kind = kind; self.name = f"sk_{kind}"
    def run(self, ctx):
        S, ex, st = self.start(ctx, True); b = [tm.var(f"b[{i}]", 8) for i in range(32)]; o = ex.alloc(st, 32, "arg"); p = ex.alloc(st, 32, "arg")
        if self.kind == "to_bytes":
            k = tm.var("sk", 256); ex.write_int(st, p, 32, k)
            def f(r):
                got = [ex.read_int(r.st, ex.padd(o, i), 1) for i in range(32)]
                return None if all(x is y for x, y in zip(got, be(k, 32))) else "encoding is not the big-endian value"
            return self.collect(ctx, S, ex.run("h_sk_to_bytes", [o, p], st), f)
        for i, x in enumerate(b): ex.wr(st, p.obj, i, 1, x)
        v = bv(b); mod = self.kind == "from_bytes_mod"
        want = S.rem(v, 4)[1] if mod else tm.ite(256, tm.ult(256, v, Q), v, 0)
        def f(r):
            g = ex.read_int(r.st, o, 32)
            if g is None: return "undefined key"
            if g is want: return None
            return None if ex.solver.sat(list(r.st.pc) + [tm.not_(tm.eq(256, g, want))]) == "unsat" else "key differs"
        return self.collect(ctx, S, ex.run("h_sk_from_bytes", [o, p, int(mod)], st), f)
    def search(self, ctx, N):
        rng = ctx.rng
        for it in range(N * 3):
            k = rng.choice([0, 1, Q - 1, Q, Q + 1, 2 * Q - 1, 2 * Q, 2 * Q + 1, (1 << 256) - 1, Q ^ 1 << rng.randrange(256), rng.randrange(Q), rng.getrandbits(256), Q - rng.getrandbits(64), Q + rng.getrandbits(rng.randrange(1, 254))])
            if self.kind == "to_bytes": fn, a, exp = "h_sk_to_bytes", [bytes(32), k.to_bytes(32, "little")], k.to_bytes(32, "big")
            else: mod = self.kind == "from_bytes_mod"; fn, a, exp = "h_sk_from_bytes", [b"\x5a" * 32, k.to_bytes(32, "big"), int(mod)], (k % Q if mod else k if k < Q else 0).to_bytes(32, "little")
            r = ctx.nat.call(fn, a)
            if r[0] != "ret" or r[2][0] != exp: return self.bad(ctx, fn, a, r, exp.hex(), f"{k:#x}")
        return False
class KeyGen(D):
    def __init__(self, n): self.n = n; self.name = f"secret_key, seed of {n} bytes"
    def run(self, ctx):
        S, ex, st = self.start(ctx); m, q = newbytes(ex, st, self.n, "seed"); o = ex.alloc(st, 32, "arg"); ex.write_int(st, o, 32, tm.var("old", 256))
        c = self.keygen(S, m) if self.n >= 32 else []
        live = {i for i, x in st.mem.items() if x.kind == "heap"}
        def f(r):
            if any(x.kind == "heap" and not x.dead and i not in live for i, x in r.st.mem.items()): return "leaks memory"
            return self.check_key(S, r, o, c)
        return self.collect(ctx, S, ex.run("h_secret_key", [o, q, self.n], st), f)
    def search(self, ctx, N):
        for it in range(N):
            s = ctx.rng.randbytes(self.n); exp = py_keygen(s); a = [b"\x5a" * 32, s, self.n]; r = ctx.nat.call("h_secret_key", a)
            bad = r[0] != "ret" or int.from_bytes(r[2][0], "little") != exp
            if not bad and N > 10 and it < 2: r = ctx.asan.call("h_secret_key", a); bad = r[0] == "san"
            if bad: return self.bad(ctx, "h_secret_key", a, r, hex(exp), f"seed {s.hex()}")
        return False
class Hardened(D):
    def __init__(self, pk): self.pk = pk; self.name = "parent_sk_to_lamport_pk" if pk else "derive_child_sk"
    def run(self, ctx):
        S, ex, st = self.start(ctx); k, kp = newkey(ex, st, "sk"); idx = tm.var("index", 32); o = ex.alloc(st, 32, "arg")
        outs = ex.run("h_parent_to_lamport_pk" if self.pk else "h_derive_child_sk", [o, kp, idx], st)
        l = lamport(S.h, be(k, 32), be(idx, 4))
        if self.pk:
            def f(r):
                got = [ex.read_int(r.st, ex.padd(o, i), 1) for i in range(32)]
                return None if all(x is y for x, y in zip(got, l)) else "Lamport public key differs"
        else:
            c = self.keygen(S, l); f = lambda r: self.check_key(S, r, o, c)
        return self.collect(ctx, S, outs, f)
    def search(self, ctx, N):
        rng = ctx.rng
        for it in range(min(N, 20)):
            k = rkey(rng); i = rng.choice([0, 1, 255, 256, 65536, 1 << 24, (1 << 32) - 1, rng.getrandbits(32)]); l = bytes(lamport(hh, k.to_bytes(32, "big"), i.to_bytes(4, "big")))
            fn = "h_parent_to_lamport_pk" if self.pk else "h_derive_child_sk"; a = [b"\x5a" * 32, k.to_bytes(32, "little"), i]; r = ctx.nat.call(fn, a); exp = l if self.pk else py_keygen(l).to_bytes(32, "little")
            if r[0] != "ret" or r[2][0] != exp: return self.bad(ctx, fn, a, r, exp.hex(), f"key {k:#x} index {i}")
        return False
def tweak(S, h, ty, f, idx):
    n = 48 if ty == "g1" else 96
    return S.rem(bv(h(S.encoding("toCompressedBytesBE", ty, f, (), n) + be(idx, 4))), 4)[1]
def py_tweak(ty, p, i): return int.from_bytes(hashlib.sha256(comp_be(ty, p) + i.to_bytes(4, "big")).digest(), "big") % Q
class ChildPoint(D):
    def __init__(self, ty): self.ty = ty; self.fn = f"h_derive_child_{ty}"; self.name = f"derive_child_{ty}_unhardened"
    def run(self, ctx):
        S, ex, st = self.start(ctx); ty = self.ty; o = ex.alloc(st, SZ[ty], "arg"); p = ex.alloc(st, SZ[ty], "arg"); S.g.wr(st, p, ty, {"P": cconst(1)}); idx = tm.var("index", 32)
        outs = ex.run(self.fn, [o, p, idx], st); want = {"P": cconst(1), "G": S.coef(tweak(S, S.h, ty, {"P": cconst(1)}, idx))}
        return self.collect(ctx, S, outs, lambda r: S.g.same(r.st, S.g.rd(r.st, o, ty), want))
    def search(self, ctx, N):
        rng = ctx.rng; ty = self.ty
        for it in range(N):
            k = rng.choice([0, 1, Q - 1, rng.randrange(Q)]); i = rng.choice([0, 1, 255, 256, 65536, 1 << 24, (1 << 32) - 1, rng.getrandbits(32)]); p = ec_mul(GEN[ty], k)
            if rng.random() < .2: p = rand_point(rng, ty == "g2")
            exp = ec_add(p, ec_mul(GEN[ty], py_tweak(ty, p, i))); a = [b"\x5a" * SZ[ty], encpt(ty, p, rng), i]; r = ctx.nat.call(self.fn, a)
            if r[0] != "ret" or decpt(ty, r[2][0]) != exp: return self.bad(ctx, self.fn, a, r, exp, f"parent {str(p)[:200]} index {i}")
        return False
class ChildKey(D):
    """unhardened child key, and its agreement with the child of the public key"""
    def __init__(self, agree): self.agree = agree; self.name = "derive_child_sk_unhardened" + (" agrees with derive_child_g1_unhardened" if agree else "")
    def run(self, ctx):
        S, ex, st = self.start(ctx); k, kp = newkey(ex, st, "sk"); st.pc = st.pc + (tm.ult(256, k, Q),); idx = tm.var("index", 32); o = ex.alloc(st, 32, "arg"); pk = {"G": S.coef(k)}; n = tweak(S, S.h, "g1", pk, idx)
        outs = ex.run("h_derive_child_sk_unh", [o, kp, idx], st)
        if not self.agree:
            def f(r):
                v = ex.read_int(r.st, o, 32)
                if v is None: return "undefined key"
                I = Ints(S); x = I.of(v); I.s.add(I.of(k) < Q)
                if I.check(z3.And(x >= 0, x < Q)) != "unsat": return "child key is not below the order"
                return None if I.zero_mod(I.of(k) + I.of(n) - x) == "unsat" else "child key differs"
            return self.collect(ctx, S, outs, f)
        probs = []
        for r in outs:
            if r.kind != "ret": probs.append(f"outcome {r.kind} {r.info}"); continue
            a = ex.alloc(r.st, 144, "arg"); b = ex.alloc(r.st, 144, "arg"); c = ex.alloc(r.st, 144, "arg")
            s2 = one(ctx, ex.run("h_public_key", [a, o], r.st)); s2 = one(ctx, ex.run("h_public_key", [b, kp], s2)); s2 = one(ctx, ex.run("h_derive_child_g1", [c, b, idx], s2))
            d = fadd(S.g.rd(s2, a, "g1"), S.g.rd(s2, c, "g1"), -1); I = Ints(S); I.s.add(I.of(k) < Q)
            if set(d) - {"G"}: probs.append(f"depends on {set(d) - {'G'}}")
            elif d and I.zero_mod(I.coef(d["G"])) != "unsat": probs.append("the two derivations differ")
        if not outs: probs.append("no outcome")
        return probs
    def search(self, ctx, N):
        rng = ctx.rng
        for it in range(N):
            k = rng.choice([0, 1, Q - 1, Q - 2, rng.randrange(Q), rng.randrange(Q)]); i = rng.choice([0, 1, 255, 256, 65536, 1 << 24, (1 << 32) - 1, rng.getrandbits(32)]); pk = ec_mul(G1, k)
            exp = (k + py_tweak("g1", pk, i)) % Q; a = [b"\x5a" * 32, k.to_bytes(32, "little"), i]; r = ctx.nat.call("h_derive_child_sk_unh", a)
            if r[0] != "ret" or int.from_bytes(r[2][0], "little") != exp: return self.bad(ctx, "h_derive_child_sk_unh", a, r, hex(exp), f"key {k:#x} index {i}")
            if self.agree:
                a2 = [bytes(144), encpt("g1", pk, rng), i]; r2 = ctx.nat.call("h_derive_child_g1", a2)
                if r2[0] != "ret" or decpt("g1", r2[2][0]) != ec_mul(G1, exp): return self.bad(ctx, "h_derive_child_g1", a2, r2, ec_mul(G1, exp), f"public key of {k:#x} index {i}")
        return False
def obligations(ctx):
    ctx.mod(); ctx.nat; obs = []; add = lambda v, w=1: obs.append(Ob(v.name, v.go, deadline=800, weight=w))
    add(Hardened(False), 50); add(Hardened(True), 49)
    for k in ("to_bytes", "from_bytes", "from_bytes_mod"): add(FromTo(k))
    for n in list(range(35)) + [48, 54, 55, 56, 63, 64, 65, 96, 128] + ([] if ctx.quick else list(range(35, 48)) + list(range(49, 54)) + list(range(57, 63)) + list(range(66, 96)) + [200, 256]): add(KeyGen(n), 5 if n >= 32 else 1)
    add(ChildPoint("g1")); add(ChildPoint("g2")); add(ChildKey(False)); add(ChildKey(True))
    return obs
