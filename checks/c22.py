"""C22: memory safety of the public entry points."""
import hashlib
from engine.check import Ob, PtrArr
from engine.exec import *
from engine import terms as tm, shahook
from engine.memdom import *
from engine.sha import Hash
from engine.ref import *
from checks import sigs
from checks.c10 import encpt, GEN
class B:
    """n bytes of unknown content"""
    def __init__(self, n): self.n = n
class E:
    """n elements of a type, of unknown content"""
    def __init__(self, ty, n=1): self.ty = ty; self.k = n; self.n = SZ[ty] * n
class Pairs(E):
    """n tuples (G1, G2)"""
    def __init__(self, n): self.ty = "pair"; self.k = n; self.n = 432 * n
class V:
    """unknown integer"""
    def __init__(self, w=64): self.w = w
class Ptrs:
    def __init__(self, ls): self.ls = ls
def trees(ex):
    ex.hooks["_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"] = sigs.rb_insert
    for k in ("", "K"):
        ex.hooks[f"_ZSt18_Rb_tree_decrementP{k}St18_Rb_tree_node_base"] = sigs.rb_prev; ex.hooks[f"_ZSt18_Rb_tree_incrementP{k}St18_Rb_tree_node_base"] = sigs.rb_next
    ex.hooks["memcmp"] = sigs.fork_memcmp
class Mem:
    def __init__(self, fn, args, level, skip=(), throws=False, sha=False, merge=False, lim=None, tier="quick", hook=None):
        self.fn = fn; self.args = args; self.level = level; self.skip = skip; self.throws = throws; self.sha = sha; self.merge = merge; self.hook = hook
    def show(self): return f"{self.fn}({', '.join(str(a) if isinstance(a, int) else f'{type(a).__name__}:{getattr(a, chr(110), None) or getattr(a, chr(108) + chr(115), None) or 0}' for a in self.args)})"
    def sym(self, ex, st, a, i):
        if isinstance(a, Ints64):
            p = ex.alloc(st, a.n, "arg")
            for j, v in enumerate(a.vs): ex.wr(st, p.obj, 8 * j, 8, v)
            return p
        if isinstance(a, (B, E)):
            p = ex.alloc(st, a.n, "arg"); c = 1 if isinstance(a, B) else 48; c = 8 if isinstance(a, B) and a.n > 2000 and a.n % 8 == 0 else c
            for j in range(0, a.n, c): ex.wr(st, p.obj, j, c, tm.var(f"a{i}[{j}]", 8 * c))
            return p
        if isinstance(a, V): return tm.var(f"a{i}", a.w)
        if isinstance(a, Ptrs):
            p = ex.alloc(st, 8 * len(a.ls), "arg")
            for j, n in enumerate(a.ls): ex.wr(st, p.obj, 8 * j, 8, self.sym(ex, st, B(n), f"{i}.{j}"))
            return p
        return a
    def go(self, ctx):
        probs = []; ex = None; self.models = []
        try:
            ex = ctx.exec(merge=self.merge); ex.memdom = MemDom(ex, self.level, self.skip); trees(ex)
            if self.sha: ctx.sha_trusted = True; shahook.install(ex, ctx, AnyHash())
            if self.hook: self.hook(ex)
            st = ex.new_state(); av = [self.sym(ex, st, a, i) for i, a in enumerate(self.args)]
            live = {k for k, o in st.mem.items() if o.kind == "heap" and not o.dead}
            outs = ex.run(self.fn, av, st); ctx.count_paths(outs)
            if not outs: probs.append("no outcome")
            for o in outs:
                if o.kind == "throw" and self.throws: continue
                if o.kind != "ret":
                    probs.append(f"{o.kind} {str(o.info)[:160]}")
                    if len(self.models) < 6 and o.st is not None:
                        try: self.models.append(ex.solver.model(list(o.st.pc)))
                        except Exception: pass
                    continue
                l = [k for k, x in o.st.mem.items() if x.kind == "heap" and not x.dead and k not in live]
                if l: probs.append(f"leaks {len(l)} block(s)")
        except (Unsupported, Budget) as e: probs.append(f"{type(e).__name__}: {e}")
        if probs:
            if not self.search(ctx, 60): ctx.inconclusive(f"{self.show()}: {'; '.join(probs)[:500]} and no failing input found")
        elif not self.search(ctx, 1): ctx.validated += 1
    def conc(self, rng, a, k, i, mdl):
        if isinstance(a, Ints64): return b"".join(v.to_bytes(8, "little") for v in a.vs)
        if isinstance(a, (B, E)):
            if isinstance(a, B):
                r = k % 4; b = bytes(a.n) if r == 0 else b"\xff" * a.n if r == 1 else rng.randbytes(a.n)
            elif a.ty in ("g1", "g2"): b = b"".join(encpt(a.ty, rng.choice([None, GEN[a.ty], GEN[a.ty], ec_mul(GEN[a.ty], rng.randrange(1, Q))]) if k else GEN[a.ty], rng) for _ in range(a.k))
            elif a.ty == "pair": b = b"".join(encpt("g2", GEN["g2"], rng) + encpt("g1", GEN["g1"], rng) for _ in range(a.k))
            else: b = b"".join((rng.choice([0, R % P, P - 1, rng.randrange(P), rng.randrange(P)])).to_bytes(48, "little") for _ in range(a.n // 48))
            if mdl:
                b = bytearray(b)
                for j in range(a.n):
                    v = mdl.get(f"a{i}[{j}]")
                    if v is not None:
                        c = 1 if isinstance(a, B) and not (a.n > 2000 and a.n % 8 == 0) else 8 if isinstance(a, B) else 48
                        b[j:j + c] = (v % (1 << 8 * c)).to_bytes(c, "little")
                b = bytes(b)
            return b
        if isinstance(a, V): return mdl.get(f"a{i}") if mdl and f"a{i}" in mdl else [0, (1 << a.w) - 1, 1, rng.getrandbits(a.w), rng.randrange(40), 1 << a.w - 1][k % 6]
        if isinstance(a, Ptrs): return PtrArr([rng.randbytes(n) for n in a.ls])
        return a
    def search(self, ctx, n):
        for k in range(n):
            mdl = self.models[k // 2] if k < 2 * len(self.models) else None
            av = [self.conc(ctx.rng, a, k, i, mdl) for i, a in enumerate(self.args)]; r = ctx.asan.call(self.fn, av)
            if r[0] == "san" or r[0] == "throw" and not self.throws:
                ctx.violation(f"{self.show()}: {r[0]} {r[1] if len(r) > 1 else ''}", call=(self.fn, av), observed=str(r)[:1500]); return True
            if r[0] == "broken": ctx.inconclusive(f"{self.fn}: sanitizer run broken: {str(r)[:200]}"); return True
        return False
class AnyHash:
    """compression function with unknown results"""
    keys = ()
    def comp(self, hs, bs): return [tm.fresh("any", 32) for _ in range(8)]
BOUNDS = "every content at the listed sizes: all fixed-size decoders and encoders; hex strings of 0..24 characters (fixed-size parser: texts at least as long as it needs); hashed messages of 0..200 bytes, tags of 0..300 bytes, derived outputs of 0..300 bytes; lists of 0..4 keys and signatures, 0..3 keys, messages and pairs; multi-scalar lists of 0..2 points and scalars in any combination (thorough 0..3); Frobenius powers: every 64-bit value (g2: 0..13 and 2^64-1); key generation draws at most three candidates"
OUTSIDE = "longer lists and messages; inversion in the base field (C03), SHA-256 text output; leaks on paths that leave by an exception; reads of uninitialised but owned memory; limb primitives in assembly (their memory accesses are part of C02); long division (C20)"
ASSUMPTIONS = ["field and group operations called by a function under test read and write exactly their operands, with arbitrary values (each is itself checked one level down)", "the SHA-256 compression function reads 64 bytes and updates the state (C19)"]
def sighook(ex):
    """message hashing and pairing products read their arguments and write a point or an element (each is checked by itself)"""
    divhook(ex); dom = ex.memdom
    def rd(ex, st, p, n): return all(ex.read_int(st, ex.padd(p, i), 8 if n - i >= 8 else 1) is not None for i in list(range(0, n - 7, 8)) + list(range(n - n % 8, n)))
    def msg(ex, st, a, fn):
        if len(a) != 4 or tm.isT(a[2]): raise Unsupported("hash-to-curve arguments")
        l = ex.load_raw(st, ex.padd(a[3], 8), 8)
        if tm.isT(l): raise Unsupported("tag string")
        return None if rd(ex, st, a[1], a[2]) and rd(ex, st, ex.load_raw(st, a[3], 8), l) and dom.fill(st, a[0], 288) else []
    def calc(ex, st, a, fn):
        if tm.isT(a[2]): raise Unsupported("symbolic number of pairs")
        return None if all(ex.read_int(st, ex.padd(a[1], k), 48) is not None for k in range(0, 432 * a[2], 48)) and dom.fill(st, a[0], 576) else []
    for d, n in ex.mod.bydem.items():
        if d.startswith("bls12_381::fromMessage("): ex.hooks[n] = msg
        elif d.startswith("bls12_381::pairing::calculate("): ex.hooks[n] = calc
def batch(cs):
    def go(ctx):
        for c in cs:
            c.go(ctx)
            if ctx.viol: return
    return go
def divhook(ex):
    """long division: reads its operands, writes quotient and remainder (C20)"""
    import re
    for d, n in ex.mod.bydem.items():
        m = re.match(r"void bls12_381::bn_divn_safe<(\d+)ul, (\d+)ul>", d)
        if not m: continue
        a, b = 8 * int(m[1]), 8 * int(m[2])
        def h(ex, st, args, fn, a=a, b=b):
            if any(ex.read_int(st, p, k) is None for p, k in zip(args[2:], (a, b))): return []
            if any(not ex.write_int(st, p, k, tm.fresh("any", 8 * k), cell=8) for p, k in zip(args, (a, b))): return []
            r = ex.read_int(st, args[1], b); st.user = (st.user or 0) + 1
            if st.user > 3 and tm.isT(r): st.pc = st.pc + (tm.not_(tm.eq(8 * b, r, 0)),)        # a key generation draws at most three candidates
            return None
        ex.hooks[n] = h
def towers(q):
    out = {}
    def c(g, fn, *args, **k): out.setdefault(g, []).append(Mem(fn, list(args), **{"merge": True, **k}))
    for ty, lv in (("fp", 1), ("fp2", 2), ("fp6", 3), ("fp12", 4)):
        lv2 = min(lv, 3) if ty == "fp12" else lv; lv2 = {"fp": 1, "fp2": 2, "fp6": 2, "fp12": 3}[ty]; g = ty
        for op in ("add", "subtract", "multiply"): c(g, f"h_{ty}_{op}", E(ty), E(ty), E(ty), level=lv2); c(g, f"h_{ty}_{op}Assign", E(ty), E(ty), level=lv2)
        for op in ("dbl", "negate", "square", "copy", "inverse"): op == "inverse" and ty == "fp" or c(g, f"h_{ty}_{op}", E(ty), E(ty), level=lv2)
        for op in ("doubleAssign", "squareAssign", "zero", "one", "ctor", "isZero", "isOne"): c(g, f"h_{ty}_{op}", E(ty), level=lv2)
        c(g, f"h_{ty}_equal", E(ty), E(ty), level=lv2)
        for n in (1,) if q else (1, 2, 4): c(f"{ty} exponentiation", f"h_{ty}_exp{n}", E(ty), E(ty), B(8 * n), level={"fp": 2, "fp2": 3, "fp6": 4, "fp12": 4}[ty], skip=("exp",))
    for n in (1,) if q else (1, 2, 4): c("fp12 exponentiation", f"h_fp12_cyclotomicExp{n}", E("fp12"), E("fp12"), B(8 * n), level=4, skip=("cyclotomicExp",))
    for op in ("isValid", "isOdd", "isEven", "sign", "isLex", "mul2"): c("fp", f"h_fp_{op}", E("fp"), level=1)
    c("fp", "h_fp_cmp", E("fp"), E("fp"), level=1); c("fp", "h_fp_div2", E("fp"), V(), level=1)
    for op in ("toMont", "fromMont", "phi"): c("fp", f"h_fp_{op}", E("fp"), E("fp"), level=1)
    c("roots", "h_fp_sqrt", E("fp"), E("fp"), level=2, skip=("fp::sqrt",)); c("roots", "h_fp_isQNR", E("fp"), level=2, skip=("fp::isQuadraticNonResidue",))
    c("roots", "h_fp2_sqrt", E("fp2"), E("fp2"), level=3, skip=("fp2::sqrt",)); c("roots", "h_fp2_isQNR", E("fp2"), level=2); c("roots", "h_fp2_isLex", E("fp2"), level=2); c("roots", "h_fp2_sign", E("fp2"), level=2)
    for n, k in ((6, 48), (8, 64)): c("fp", f"h_fp_modPrime{n}", E("fp"), B(k), level=1, hook=divhook)
    for op in ("conjugate", "mulByNonResidue", "mulByB"): c("fp2", f"h_fp2_{op}", E("fp2"), E("fp2"), level=2)
    c("fp2", "h_fp2_mulByFq", E("fp2"), E("fp2"), E("fp"), level=2)
    c("fp6", "h_fp6_mulBy01", E("fp6"), E("fp6"), E("fp2"), E("fp2"), level=2); c("fp6", "h_fp6_mulBy01Assign", E("fp6"), E("fp2"), E("fp2"), level=2); c("fp6", "h_fp6_mulBy1", E("fp6"), E("fp6"), E("fp2"), level=2)
    c("fp6", "h_fp6_mulByNonResidue", E("fp6"), E("fp6"), level=2); c("fp6", "h_fp6_mulByBaseField", E("fp6"), E("fp6"), E("fp2"), level=2)
    c("fp12", "h_fp12_conjugate", E("fp12"), E("fp12"), level=3); c("fp12", "h_fp12_mulBy014Assign", E("fp12"), E("fp2"), E("fp2"), E("fp2"), level=3); c("fp12", "h_fp12_fp4Square", E("fp2", 2), E("fp2"), E("fp2"), level=3)
    c("fp12", "h_fp12_cyclotomicSquare", E("fp12"), E("fp12"), level=3); c("fp12", "h_fp12_cyclotomicSquareAssign", E("fp12"), level=3); c("fp12", "h_fp12_isGtValid", E("fp12"), level=4, skip=("isGtValid",))
    for ty, l in (("fp2", 2), ("fp6", 3), ("fp12", 3)): c("frobenius", f"h_{ty}_frobeniusMap", E(ty), E(ty), V(), level=l); c("frobenius", f"h_{ty}_frobeniusMapAssign", E(ty), V(), level=l)
    return out
def groups(q):
    out = {}
    def c(g, fn, *args, **k): out.setdefault(g, []).append(Mem(fn, list(args), **{"merge": True, **k}))
    for ty, F in (("g1", "fp"), ("g2", "fp2")):
        l = 2 if ty == "g1" else 3
        for op in ("add", "subtract"): c(ty, f"h_{ty}_{op}", E(ty), E(ty), E(ty), level=l); c(ty, f"h_{ty}_{op}Assign", E(ty), E(ty), level=l)
        for op in ("dbl", "negate", "copy", "affine"): c(ty, f"h_{ty}_{op}", E(ty), E(ty), level=l)
        for op in ("doubleAssign", "zero", "one", "ctor", "isZero", "isOnCurve", "isAffine"): c(ty, f"h_{ty}_{op}", E(ty), level=l)
        c(ty, f"h_{ty}_equal", E(ty), E(ty), level=l)
        for n in (1,) if q else (1, 4): c(f"{ty} scale {n}", f"h_{ty}_scale{n}", E(ty), E(ty), B(8 * n), level=5, skip=("scale",))
        c(ty + " maps", f"h_{ty}_clearCofactor", E(ty), E(ty), level=5, skip=("clearCofactor",)); c(ty + " maps", f"h_{ty}_inCorrectSubgroup", E(ty), level=5, skip=("inCorrectSubgroup",))
        c(ty + " maps", f"h_{ty}_mapToCurve", E(ty), E(F), level=5, skip=("isogenyMap", "sign")); c(ty + " maps", f"h_{ty}_swu", E(F, 2), E(F), level=5, skip=("sign",))
    c("g1 maps", "h_g1_glv", E("g1"), E("g1"), level=2); c("g1 maps", "h_g1_isogeny", E("fp", 2), level=2); c("g2 maps", "h_g2_psi", E("g2"), E("g2"), level=3)
    [c("g2 maps", "h_g2_frobeniusMap", E("g2"), E("g2"), n, level=3) for n in list(range(14)) + [(1 << 64) - 1]]; c("g2 maps", "h_g2_isogenyMap", E("g2"), E("g2"), level=4)
    return out
def codecs():
    out = {}
    def c(g, fn, *args, **k): out.setdefault(g, []).append(Mem(fn, list(args), **{"merge": True, **k}))
    for ty, n in (("fp", 48), ("fp2", 96), ("fp6", 288), ("fp12", 576)):
        for e in ("BE", "LE"):
            for cv, m in ((0, 0), (0, 1), (1, 0), (1, 1)): c("field codecs", f"h_{ty}_fromBytes{e}", E(ty), B(n), cv, m, level=1)
            c("field codecs", f"h_{ty}_fromBytes{e}_d", E(ty), B(n), level=1)
            for m in (0, 1): c("field codecs", f"h_{ty}_toBytes{e}", B(n), E(ty), m, level=1); c("field codecs", f"h_{ty}_toBytes{e}_a", B(n), E(ty), m, level=1)
    for ty, j, a, z, l in (("g1", 144, 96, 48, 2), ("g2", 288, 192, 96, 3)):
        for e in ("BE", "LE"):
            for f, n in (("Jacobian", j), ("Affine", a)):
                for cv, m in ((0, 0), (0, 1), (1, 0), (1, 1)): c(ty + " codecs", f"h_{ty}_from{f}Bytes{e}", E(ty), B(n), cv, m, level=l)
                c(ty + " codecs", f"h_{ty}_from{f}Bytes{e}_d", E(ty), B(n), level=l)
                for m in (0, 1): c(ty + " codecs", f"h_{ty}_to{f}Bytes{e}", B(n), E(ty), m, level=l); c(ty + " codecs", f"h_{ty}_to{f}Bytes{e}_a", B(n), E(ty), m, level=l)
                c(ty + " codecs", f"h_{ty}_to{f}Bytes{e}_d", B(n), E(ty), level=l)
        c(ty + " codecs", f"h_{ty}_fromCompressedBytesBE", E(ty), B(z), level=l); c(ty + " codecs", f"h_{ty}_toCompressedBytesBE", B(z), E(ty), level=l); c(ty + " codecs", f"h_{ty}_toCompressedBytesBE_a", B(z), E(ty), level=l)
    for n in (1, 4, 6):
        for e in ("BE", "LE"): c("integer codecs", f"h_sToBytes{e}_{n}", B(8 * n), B(8 * n), level=1); c("integer codecs", f"h_sFromBytes{e}_{n}", B(8 * n), B(8 * n), level=1)
        c("integer codecs", f"h_cmp_{n}", B(8 * n), B(8 * n), level=1); c("integer codecs", f"h_equal_{n}", B(8 * n), B(8 * n), level=1); c("integer codecs", f"h_bitLength_{n}", B(8 * n), level=1); c("integer codecs", f"h_rsh_{n}", B(8 * n), B(8 * n), V(), level=1)
    for n in range(25): c("hex", "h_hexToBytes", B(max(n, 1)), B(n), n, level=1, merge=False); c("hex", "h_bytesToHex", B(2 * n + 4), B(n), n, level=1)
    for k in (1, 4, 8):
        c("hex", f"h_bytesToHex_{k}", B(2 * k + 4), B(k), level=1)
        for n in range(2 * k + 2, 2 * k + 7): c("hex", f"h_hexToBytes_{k}", B(k), B(n), n, level=1, throws=True); c("hex", f"h_hexToBytes_a_{k}", B(k), B(n), n, level=1, throws=True)
    return out
def hashes(q):
    out = {}
    def c(g, fn, *args, **k): out.setdefault(g, []).append(Mem(fn, list(args), level=1, sha=True, **{"merge": True, **k}))
    for n in range(0, 201): c(f"sha256 {n % 2}", "h_sha256", B(32), B(n), n)
    out["sha256 compression"] = [Mem("h_sha256", [B(32), B(n), n], level=1) for n in (0, 64)]
    for n in (0, 1, 63, 64, 65, 130): c("sha256 0", "h_sha256_arr", B(32), B(n), n); c("sha256 0", "h_sha256_str", B(32), B(n), n)
    for k in (0, 1, 32, 63, 64, 65, 100, 128, 129):
        for n in (0, 1, 55, 64, 130): c("hmac", "h_hmac", B(32), B(n), n, B(k), k)
    for s in (0, 1, 32, 65):
        for n in (0, 1, 33, 64): c("hmac", "h_hkdf_extract", B(32), B(s), s, B(n), n)
    for L in list(range(0, 70)) + [95, 96, 97, 255, 256, 257, 300]:
        for i in (0, 2, 50): c(f"hkdf expand {L % 4}", "h_hkdf_expand", B(L), L, B(32), B(i), i)
    for L in (8159, 8160): c("hkdf expand 0", "h_hkdf_expand", B(L), L, B(32), B(1), 1)
    for L in (8161, 1 << 32, (1 << 64) - 1): c("hkdf expand 0", "h_hkdf_expand", B(L if L < 9000 else 0), L, B(32), B(1), 1)
    for L, k, s, i in ((48, 33, 20, 2), (0, 0, 0, 0), (32, 64, 65, 3), (33, 1, 0, 0)): c("hmac", "h_hkdf", B(L), L, B(k), k, B(s), s, B(i), i)
    for L in list(range(0, 70)) + [96, 127, 128, 129, 255, 256, 257, 300]:
        for n, d in ((0, 43), (33, 255), (7, 256), (64, 0)): c(f"xmd {L % 4}", "h_xmd", B(L), L, B(n), n, B(d), d)
    for d in list(range(0, 260, 5)) + [254, 255, 256, 257, 300]: c("xmd 0", "h_xmd", B(256), 256, B(3), 3, B(d), d)
    for L in (8161, 1 << 31, (1 << 32) - 1): c("xmd 0", "h_xmd", B(L if L < 9000 else 0), L, B(3), 3, B(5), 5)
    for i in (0, 1, 32, 100):
        for s in (0, 4, 32): c(f"lamport", "h_ikm_to_lamport", B(255 * 32), B(i), i, B(s), s)
    c("lamport", "h_parent_to_lamport_pk", B(32), B(32), V(32))
    return out
def keys(q):
    out = {}
    def c(g, fn, *args, level=5, **k): out.setdefault(g, []).append(Mem(fn, list(args), level=level, sha=True, **{"hook": divhook, **k}))
    c("derive", "h_derive_child_sk", B(32), B(32), V(32)); c("derive", "h_derive_child_sk_unh", B(32), B(32), V(32), throws=True); c("derive", "h_derive_child_g1", E("g1"), E("g1"), V(32)); c("derive", "h_derive_child_g2", E("g2"), E("g2"), V(32))
    for n in list(range(0, 70)) + [96, 128, 200]: c("secret key", "h_secret_key", B(32), B(n), n, throws=True)
    c("secret key", "h_public_key", E("g1"), B(32))
    for m in (0, 1): c("secret key", "h_sk_from_bytes", B(32), B(32), m, throws=True)
    c("secret key", "h_sk_to_bytes", B(32), B(32))
    for n in (0, 1, 32, 55, 64, 100, 200):
        for d in (0, 1, 43, 255, 256, 300): c("hash to curve", "h_fromMessage", E("g2"), B(n), n, B(d), d)
        c("sign", "h_sign", E("g2"), B(32), B(n), n, hook=sighook)
    sg = {"hook": sighook}
    for n in (0, 1, 33, 100): c("verify", "h_verify", E("g1"), B(n), n, E("g2"), **sg)
    for n in range(5):
        c("aggregate", "h_aggregate_secret_keys", B(32), B(32 * n), n, throws=True); c("aggregate", "h_aggregate_public_keys", E("g1"), E("g1", n), n); c("aggregate", "h_aggregate_signatures", E("g2"), E("g2", n), n)
        c("aggregate", "h_aggregate_public_keys_f", E("g1"), B(152 * n), n); c("aggregate", "h_aggregate_signatures_f", E("g2"), B(296 * n), n)
        c("aggregate", "h_aggregate_public_keys_fp", E("g1"), B(152 * n), n, V()); c("aggregate", "h_aggregate_signatures_fp", E("g2"), B(296 * n), n, V())
    for k in range(4):
        for m in range(4):
            for dup in (0, 1): c(f"aggregate verify {dup}", "h_aggregate_verify", E("g1", k), k, Ptrs([(3, 0, 40)[i] for i in range(m)]), Ints64([(3, 0, 40)[i] for i in range(m)]), m, E("g2"), dup, **sg)
    c("pop", "h_pop_prove", E("g2"), B(32), **sg); c("pop", "h_pop_verify", E("g1"), E("g2"), **sg)
    for n in range(4): c("pop", "h_pop_fast_aggregate_verify", E("g1", n), n, B(7), 7, E("g2"), **sg)
    return out
def pairings(q):
    out = {}
    def c(g, fn, *args, level=4, **k): out.setdefault(g, []).append(Mem(fn, list(args), level=level, **k))
    c("pairing steps", "h_pairing_doubling_step", E("fp2", 3), E("g2"), level=3); c("pairing steps", "h_pairing_addition_step", E("fp2", 3), E("g2"), E("g2"), level=3)
    c("pairing steps", "h_pairing_precompute", E("fp2", 204), E("g2"), level=3); c("pairing steps", "h_pairing_final_exp", E("fp12")); c("pairing steps", "h_make_pair", Pairs(1), E("g1"), E("g2"), level=5); c("pairing steps", "h_pairing_add_pair", Pairs(1), E("g1"), E("g2"), level=5)
    for n in range(4):
        c(f"pairing {n}", "h_pairing_miller", E("fp12"), Pairs(n), n); c(f"pairing {n}", "h_pairing_miller_y", E("fp12"), Pairs(n), n); c(f"pairing {n}", "h_pairing_calculate", E("fp12"), Pairs(n), n); c(f"pairing {n}", "h_pairing_calculate_y", E("fp12"), Pairs(n), n)
        c(f"pairing {n}", "h_pairing_product", E("fp12"), E("g1", n), E("g2", n), n, level=5)
    for ty in ("g1", "g2"):
        N = 3 if q else 4
        for a, b in [(i, j) for i in range(N) for j in range(N)]: c(f"{ty} weighted sum {a}", f"h_{ty}_weightedSum", E(ty), E(ty, a), a, B(32 * b), b, level=5, merge=True)
        c(f"{ty} weighted sum 2", f"h_{ty}_weightedSum_y", E(ty), E(ty, 2), 2, B(64), 2, level=5, merge=True)
    return out
class Ints64(B):
    """concrete 64-bit lengths in memory"""
    def __init__(self, vs): self.vs = vs; self.n = 8 * len(vs)
def obligations(ctx):
    ctx.mod(); ctx.asan; obs = []
    for t in (towers(ctx.quick), groups(ctx.quick), codecs(), hashes(ctx.quick), keys(ctx.quick), pairings(ctx.quick)):
        for g, cs in t.items(): obs.append(Ob(g, batch(cs), deadline=800, weight=len(cs)))
    return obs
