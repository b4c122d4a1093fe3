"""Obligations for the limb primitives: bit-vector equivalence (additive operations) and exact-sum reasoning
(Montgomery multiplication), for the assembly (decoded machine code) and the portable C++ (LLVM IR)."""
import z3, os, ctypes
from . import terms as tm, build
from .exec import *
from .ring import P, R, RI
from .lin import Lin, Form, LinError
from .x86 import X86, disasm
from .check import Ob, Ref, Native, Inconclusive
M384 = 1 << 384
NS = "_ZN9bls12_381"
def mang(fn, n):
    """mangled name of bls12_381::fn(fp*, fp const* x n)"""
    return f"{NS}{len(fn)}{fn}EPNS_2fpEPKS0_" + ("S3_" if n == 2 else "")
ARITY = {"_add": 2, "_double": 1, "_subtract": 2, "_negate": 1, "_square": 1, "_multiply": 2, "_ladd": 2, "_ldouble": 1, "_lsubtract": 2, "__multiply": 2, "__mul_ex": 2}
def refval(fn, x, y):
    """expected output, or None outside the documented domain"""
    if fn in ("_add", "_double", "_subtract", "_negate"):
        if x >= P or (y is not None and y >= P): return None
        return {"_add": lambda: (x + y) % P, "_double": lambda: 2 * x % P, "_subtract": lambda: (x - y) % P, "_negate": lambda: -x % P}[fn]()
    if fn in ("_multiply", "__multiply", "__mul_ex", "_square"):
        if y is None: y = x
        if (x >= 4 * P or y >= 4 * P or x * y >= 9 * P * P) and not y < P: return None
        return x * y * RI % P
    if fn == "_ladd": return x + y if x + y < M384 else None
    if fn == "_ldouble": return 2 * x if 2 * x < M384 else None
    if fn == "_lsubtract": return x - y if x >= y else None
ALIASES = {1: [{}, {1: 0}], 2: [{}, {1: 0}, {2: 0}, {2: 1}, {1: 0, 2: 0}]}
def aname(al): return "" if not al else "/" + ",".join(f"{'zxy'[k]}={'zxy'[v]}" for k, v in sorted(al.items()))
SPEC = [0, 1, 2, P - 1, P - 2, P, P + 1, 2 * P - 1, 2 * P, 2 * P + 1, 3 * P - 1, 3 * P, 4 * P - 1, (1 << 64) - 1, 1 << 64, (1 << 128) - 1, (1 << 320) - 1, (1 << 383), M384 - 1, R % P, R * R % P, (P - 1) // 2, (P + 1) // 2, P >> 1, P - (1 << 64), P - (1 << 320), 1 << 320, (1 << 380) + (1 << 63), (1 << 256) - 1]
def rand_raw(rng, lim):
    k = rng.randrange(5)
    if k == 0: v = rng.choice(SPEC)
    elif k == 1: v = sum(rng.choice([0, 1, (1 << 64) - 1, (1 << 63), (P >> (64 * i)) & ((1 << 64) - 1), rng.getrandbits(64)]) << (64 * i) for i in range(6))
    elif k == 2: v = (rng.randrange(5) * P + rng.choice([-1, 1]) * rng.choice([0, 1, 2, rng.getrandbits(64), rng.getrandbits(128), rng.getrandbits(320)]))
    elif k == 3: v = rng.getrandbits(rng.randrange(1, 385))
    else: v = rng.randrange(lim)
    return v % lim
def native_call(nat, sym, al, x, y):
    n = 1 if y is None else 2
    args = [b"\x77" * 48, x.to_bytes(48, "little")] + ([y.to_bytes(48, "little")] if n == 2 else [])
    # aliasing: put the value in the shared buffer
    a = list(args)
    if al.get(1) == 0: a[0] = args[1]; a[1] = Ref(0)
    if n == 2 and 2 in al:
        if al[2] == 0: a[0] = args[2] if 1 not in al else a[0]; a[2] = Ref(0)
        else: a[2] = Ref(1)
    return a, nat.call(sym, a)
def effective(al, x, y):
    """inputs seen under aliasing"""
    if al.get(2) == 1 or (al.get(1) == 0 and al.get(2) == 0): y = x
    return x, y
def search(ctx, nat, fn, sym, al, n=4000, cands=(), lims=None):
    """replay candidates, then structured random inputs, against the compiled code"""
    ar = ARITY[fn]
    lim = P if fn in ("_add", "_double", "_subtract", "_negate") else 4 * P if "mul" in fn or fn == "_square" else M384
    def tries():
        for c in cands: yield c
        for _ in range(n): yield rand_raw(ctx.rng, lims[0] if lims else lim), rand_raw(ctx.rng, lims[1] if lims else lim)
    # direct in-process calls; crash protection by running the batch in one forked call
    batch = []
    for x, y in tries():
        if ar == 1: y = None
        x, y = effective(al, x, y)
        e = refval(fn, x, y)
        if e is None: continue
        batch.append((x, y, e))
    bad = run_batch(nat, sym, al, batch)
    if bad is not None:
        x, y, e = batch[bad]
        a, r = native_call(nat, sym, al, x, y)
        got = int.from_bytes(r[2][0], "little") if r[0] == "ret" else r[0]
        ctx.violation(f"{fn}{aname(al)}: x={x:#x}" + (f" y={y:#x}" if y is not None else "") + f": got {got if isinstance(got,str) else hex(got)}, expected {e:#x}", call=(sym, a), observed=str(got), expected=hex(e))
        return True
    return False
def run_batch(nat, sym, al, batch):
    import pickle
    rfd, wfd = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(rfd); r = None
        f = getattr(nat.lib, sym); B = ctypes.c_uint64 * 6
        def mk(v): return B(*[(v >> (64 * i)) & ((1 << 64) - 1) for i in range(6)])
        for i, (x, y, e) in enumerate(batch):
            os.lseek  # no-op
            bx = mk(x); by = mk(y) if y is not None else None; bz = mk(0x7777)
            if al.get(1) == 0: bz = bx
            if y is not None and 2 in al:
                if al[2] == 0:
                    if 1 not in al: bz = by
                    else: by = bz
                else: by = bx
            os.write(wfd, b"%d\n" % i) if i % 500 == 0 else None
            f(bz, bx, by) if y is not None else f(bz, bx)
            if sum(int(v) << (64 * k) for k, v in enumerate(bz)) != e: r = i; break
            if bz is not bx and y is not None and by is not bx and sum(int(v) << (64 * k) for k, v in enumerate(bx)) != x: r = i; break
        os.write(wfd, b"R%s\n" % (b"-" if r is None else b"%d" % r)); os._exit(0)
    os.close(wfd); data = b""
    while True:
        c = os.read(rfd, 65536)
        if not c: break
        data += c
    os.close(rfd); os.waitpid(pid, 0)
    last = data.split(b"\n")[-2] if data.count(b"\n") else b""
    if last.startswith(b"R"): return None if last == b"R-" else int(last[1:])
    return int(last or 0) if batch else None       # crashed in this region

# ------------------------------------------------------------------ symbolic execution of one primitive
def setup(ctx, portable, fn, al, mode, ring=False):
    ex = ctx.exec(merge=True, mod=ctx.mod(portable))
    lin = Lin() if mode == "lin" else None
    st = ex.new_state(); ar = ARITY[fn]
    xs = [tm.var(f"x{i}", 64) for i in range(6)]; ys = [tm.var(f"y{i}", 64) for i in range(6)]
    if al.get(2) == 1 or (al.get(1) == 0 and al.get(2) == 0) or ar == 1: ys = xs
    z = ex.alloc(st, 48, "heap", name="z"); x = z if al.get(1) == 0 else ex.alloc(st, 48, "heap", name="x")
    for i in range(6): ex.wr(st, x.obj, 8 * i, 8, xs[i])
    ptrs = [z, x]
    if ar == 2:
        y = z if al.get(2) == 0 else x if al.get(2) == 1 else ex.alloc(st, 48, "heap", name="y")
        if y is not x:
            for i in range(6): ex.wr(st, y.obj, 8 * i, 8, ys[i])
        ptrs.append(y)
    x86 = None
    if not portable:
        x86 = X86(ex, mode, lin)
        for name in x86.code:
            if name in ex.mod.fnvals or True:
                ex.hooks[name] = (lambda nm: lambda e, s, a, f: asm_call(e, x86, nm, a, s))(name)
    return ex, st, ptrs, xs, ys, lin, x86
def asm_call(ex, x86, nm, args, st):
    nb = len(ex.bad)
    x86.run(nm, args, st)
    return [] if len(ex.bad) > nb else None
def cat(limbs): return tm.concat_list([(64, v) for v in reversed(limbs)])
def additive(portable, fn, al):
    """bit-vector equivalence with the integer definition"""
    def go(ctx):
        nat = ctx.nat_portable if portable else ctx.nat
        sym = mang(fn, ARITY[fn])
        probs = []; cands = []
        try:
            ex, st, ptrs, xs, ys, _, x86 = setup(ctx, portable, fn, al, "bv")
            X, Y = cat(xs), cat(ys); ar = ARITY[fn]
            W = 386; zx = lambda t: tm.zext(384, W, t)
            pre = []
            if fn in ("_add", "_double", "_subtract", "_negate"):
                pre.append(tm.ult(384, X, P))
                if ar == 2 and ys is not xs: pre.append(tm.ult(384, Y, P))
            if fn in ("_ladd",): pre.append(tm.ult(W, tm.add(W, zx(X), zx(Y)), M384))
            if fn == "_ldouble": pre.append(tm.ult(W, tm.add(W, zx(X), zx(X)), M384))
            if fn == "_lsubtract": pre.append(tm.ule(384, Y, X))
            st.pc = tuple(c for c in pre if tm.isT(c))
            outs = run_prim(ex, fn, ptrs, st, portable)
            ctx.count_paths(outs)
            def red(t): return tm.ite(W, tm.ult(W, t, P), t, tm.sub(W, t, P))
            if fn == "_add": E = red(tm.add(W, zx(X), zx(Y)))
            elif fn == "_double": E = red(tm.add(W, zx(X), zx(X)))
            elif fn == "_subtract": E = tm.ite(W, tm.ult(384, X, Y), tm.sub(W, tm.add(W, zx(X), P), zx(Y)), tm.sub(W, zx(X), zx(Y)))
            elif fn == "_negate": E = tm.ite(W, tm.eq(384, X, 0), 0, tm.sub(W, P, zx(X)))
            elif fn == "_ladd": E = tm.add(W, zx(X), zx(Y))
            elif fn == "_ldouble": E = tm.add(W, zx(X), zx(X))
            elif fn == "_lsubtract": E = tm.sub(W, zx(X), zx(Y))
            nret = 0
            for o in outs:
                if o.kind != "ret": probs.append(f"{o.kind} {o.info}"); continue
                nret += 1
                Z = ex.read_int(o.st, ptrs[0], 48)
                s = z3.SolverFor("QF_BV"); s.set("timeout", 240000)
                for c in o.st.pc: s.add(tm.zb(c))
                s.add(tm.z(zx(Z) if tm.isT(Z) else Z, W) != tm.z(E, W))
                r = ctx.query(s)
                if r == "sat":
                    m = s.model()
                    val = lambda ts: sum((m.eval(tm.z(t), model_completion=True).as_long() << (64 * i)) for i, t in enumerate(ts))
                    cands.append((val(xs), val(ys))); probs.append("counterexample")
                elif r != "unsat": probs.append("solver " + r)
                # operands that are not the output keep their value
                for p, ls in zip(ptrs[1:], (xs, ys)):
                    if p is not ptrs[0] and p.obj != ptrs[0].obj:
                        if any(ex.read_int(o.st, Ptr(p.obj, 8 * i), 8) is not ls[i] for i in range(6)): probs.append("operand modified")
            if not nret: probs.append("no return")
        except (Unsupported, Budget, LinError) as e: probs.append(f"{type(e).__name__} {e}")
        finish(ctx, nat, fn, sym, al, probs, cands)
    return go
def finish(ctx, nat, fn, sym, al, probs, cands, lims=None):
    if probs:
        if not search(ctx, nat, fn, sym, al, n=30000, cands=cands, lims=lims): ctx.inconclusive("; ".join(probs)[:800])
        return
    n = 200
    if not search(ctx, nat, fn, sym, al, n=n, lims=lims): ctx.validated += n
    ctx.samples.append({"function": sym, "aliasing": aname(al) or "none"})
def run_prim(ex, fn, ptrs, st, portable):
    name = mang(fn, ARITY[fn])
    if name in ex.mod.fnvals and ex.mod.fn(name) is not None: return ex.run(name, ptrs, st)
    nb = len(ex.bad); ex.stack = []
    h = ex.hooks.get(name)
    if h is None: raise Unsupported("no definition of " + name)
    r = h(ex, st, ptrs, name)
    if not isinstance(r, list): r = [(st, r)]
    return [Outcome("ret", s, v) for s, v in r] + ex.bad[nb:]
# tuple<u64,u64> is returned in memory: second element first (libstdc++)
def add64_hook(lin):
    def h(ex, st, args, fn):
        o = args[0]; x, y, c = [ex.read_int(st, p, 8) for p in args[1:4]]
        f = lin.of(x) + lin.of(y) + lin.of(c)
        lo, hi = lin.split(f)
        ex.write_int(st, ex.padd(o, 8), 8, lin.leaf("s", lo)); ex.write_int(st, o, 8, lin.leaf("c", hi))
    return h
def sub64_hook(lin):
    def h(ex, st, args, fn):
        o = args[0]; x, y, c = [ex.read_int(st, p, 8) for p in args[1:4]]
        f = lin.of(x) - lin.of(y) - lin.of(c)
        lo, hi = lin.split(f, force=True)
        ex.write_int(st, ex.padd(o, 8), 8, lin.leaf("d", lo)); ex.write_int(st, o, 8, lin.leaf("b", hi.scale(-1)))
    return h
U64x3 = "(unsigned long const&, unsigned long const&, unsigned long const&)"
def lin_hook(ex, name, lin, h64):
    """exact sums where every operand is an exact sum; plain bit-vectors otherwise"""
    n = ex.mod.bydem.get(f"bls12_381::{name}{U64x3}")
    if not n: return
    def h(e, s, a, f):
        try: return h64(e, s, a, f)
        except LinError:
            del e.hooks[f]
            try: return e.call(s, f, a)
            finally: e.hooks[f] = h
    ex.hooks[n] = h
def additive2(portable, fn, al):
    """two-operand reduced addition/subtraction: the multi-limb sum (difference) is tracked as an exact integer form,
    its range is decided by linear arithmetic, and the conditional correction by bit-vectors over the result limbs"""
    def go(ctx):
        nat = ctx.nat_portable if portable else ctx.nat
        sym = mang(fn, ARITY[fn]); probs = []; cands = []
        sub = fn == "_subtract"
        try:
            ex, st, ptrs, xs, ys, lin, x86 = setup(ctx, portable, fn, al, "lin")
            if x86: x86.lin_add = not sub; x86.lin_sub = sub; x86.strict = False
            lin.signed = True
            def vars_(ts, n):
                out = []
                for i in range(6):
                    v = lin.newvar(f"{n}{i}", 0, min((1 << 64) - 1, (P - 1) >> (64 * i))); lin.form[ts[i].id] = Form({v: 1}); out.append(v)
                return out
            vx = vars_(xs, "x"); vy = vx if ys is xs else vars_(ys, "y")
            X = Form({v: 1 << (64 * i) for i, v in enumerate(vx)}); Y = Form({v: 1 << (64 * i) for i, v in enumerate(vy)})
            if portable: lin_hook(ex, "Sub64" if sub else "Add64", lin, (sub64_hook if sub else add64_hook)(lin))
            outs = run_prim(ex, fn, ptrs, st, portable); ctx.count_paths(outs)
            dom = [(X, "<=", P - 1), (Y, "<=", P - 1)]
            nret = 0
            for o in outs:
                if o.kind != "ret": probs.append(f"{o.kind} {o.info}"); continue
                nret += 1
                limbs = [ex.read_int(o.st, Ptr(ptrs[0].obj, 8 * i), 8) for i in range(6)]
                T = find_unreduced(lin, limbs, o)
                if T is None: probs.append("multi-limb sum not identified"); continue
                leaves, F = T
                s = z3.SolverFor("QF_BV"); s.set("timeout", 100000)
                Tz = tm.z(tm.zext(384, 388, cat(leaves))); Zz = tm.z(tm.zext(384, 388, cat(limbs)))
                for c in o.st.pc: s.add(tm.zb(c))
                if not sub:
                    if not (F - X - Y).iszero(): probs.append("sum of limbs is not X+Y"); continue
                    if not lin.never(dom + [(F, ">=", 2 * P)]): probs.append("sum not below 2P"); continue
                    s.add(z3.ULT(Tz, z3.BitVecVal(2 * P, 388)))
                    s.add(Zz != z3.If(z3.ULT(Tz, z3.BitVecVal(P, 388)), Tz, Tz - z3.BitVecVal(P, 388)))
                else:
                    B = (F - X + Y).scale(Fraction(1, M384))
                    bt = [v for v in tm.variables([t for t in limbs + list(o.st.pc) if tm.isT(t)]).values() if v.id in lin.form and (lin.form[v.id] - B).iszero()]
                    if B.iszero(): bt = [0]          # x - x
                    if not bt: probs.append("borrow not identified"); continue
                    if not lin.never(dom + [(B, ">=", 2)]) or not lin.never(dom + [(B, "<=", -1)]): probs.append("borrow not a bit"); continue
                    if not lin.never(dom + [(B, "==", 0), (F, ">=", P)]) or not lin.never(dom + [(B, "==", 1), (F, "<=", M384 - P)]): probs.append("difference out of range"); continue
                    b = bt[0]; bz = z3.BoolVal(False) if not tm.isT(b) else tm.z(b) == 1
                    if tm.isT(b): s.add(z3.ULE(tm.z(b), 1))
                    s.add(z3.If(bz, z3.UGT(Tz, z3.BitVecVal(M384 - P, 388)), z3.ULT(Tz, z3.BitVecVal(P, 388))))
                    s.add(Zz != z3.If(bz, Tz + z3.BitVecVal(P, 388) - z3.BitVecVal(M384, 388), Tz))
                r = ctx.query(s)
                if r != "unsat": probs.append("final correction: solver " + r)
                for p, ls in zip(ptrs[1:], (xs, ys)):
                    if p.obj != ptrs[0].obj and any(ex.read_int(o.st, Ptr(p.obj, 8 * i), 8) is not ls[i] for i in range(6)): probs.append("operand modified")
            ctx.xq += lin.queries; ctx.xt += lin.time
            if not nret: probs.append("no return")
        except (Unsupported, Budget, LinError) as e: probs.append(f"{type(e).__name__} {e}")
        finish(ctx, nat, fn, sym, al, probs, cands)
    return go
def helper64(portable):
    """Add64, Sub64, Mul64: bit-vector proof of the contract used by the exact-sum domain"""
    def go(ctx):
        for nm in ("Add64", "Sub64"):
            ex = ctx.exec(merge=True, mod=ctx.mod(portable)); st = ex.new_state()
            vs = [tm.var(n, 64) for n in ("x", "y", "c")]
            ps = [ex.alloc(st, 8, "heap") for _ in vs]; o = ex.alloc(st, 16, "heap")
            for p, v in zip(ps, vs): ex.wr(st, p.obj, 0, 8, v)
            st.pc = (tm.ult(64, vs[2], 2),)
            name = ex.mod.bydem[f"bls12_381::{nm}(unsigned long const&, unsigned long const&, unsigned long const&)"]
            outs = ex.run(name, [o] + ps, st); ctx.count_paths(outs)
            for r in outs:
                if r.kind != "ret": ctx.inconclusive(f"{nm}: {r}"); continue
                s0 = ex.read_int(r.st, Ptr(o.obj, 8), 8); c0 = ex.read_int(r.st, o, 8)
                W = 66; zx = lambda t: z3.ZeroExt(W - 64, tm.z(t, 64))
                s = z3.SolverFor("QF_BV"); s.set("timeout", 100000)
                for c in r.st.pc: s.add(tm.zb(c))
                x, y, c = map(zx, vs)
                if nm == "Add64": s.add(z3.Or(x + y + c != zx(s0) + (zx(c0) << 64), zx(c0) > 1))
                else: s.add(z3.Or(x - y - c != zx(s0) - (zx(c0) << 64), z3.UGT(zx(c0), 1)))
                q = ctx.query(s)
                if q == "sat":
                    m = s.model(); v = [m.eval(tm.z(t), model_completion=True).as_long() for t in vs]
                    nat = ctx.nat_portable
                    a = [b"\0" * 16] + [x.to_bytes(8, "little") for x in v]
                    rr = nat.call(name, a)
                    ctx.violation(f"{nm}({v[0]:#x},{v[1]:#x},{v[2]})", call=(name, a), observed=str(rr))
                elif q != "unsat": ctx.inconclusive(nm + " " + q)
    return go
def multiplicative(portable, fn, al, wide=False):
    def go(ctx):
        nat = ctx.nat_portable if portable else ctx.nat
        sym = mang(fn, ARITY[fn]); probs = []
        try:
            ex, st, ptrs, xs, ys, lin, x86 = setup(ctx, portable, fn, al, "lin")
            mx, my = {False: (4 * P - 1, 4 * P - 1), 'x': (M384 - 1, P - 1), 'y': (P - 1, M384 - 1)}[wide]; vx = []; vy = []
            def bound(i, mx=mx): return min((1 << 64) - 1, mx >> (64 * i))
            for i in range(6):
                v = lin.newvar(f"x{i}", 0, bound(i)); lin.form[xs[i].id] = Form({v: 1}); vx.append(v)
            if ys is xs: vy = vx
            else:
                for i in range(6):
                    v = lin.newvar(f"y{i}", 0, bound(i, my)); lin.form[ys[i].id] = Form({v: 1}); vy.append(v)
            if portable: lin_hook(ex, "Add64", lin, add64_hook(lin))
            outs = run_prim(ex, fn, ptrs, st, portable)
            ctx.count_paths(outs)
            ctx.xq += lin.queries; ctx.xt += lin.time
            S = Form({}, 0)
            for i in range(6):
                for j in range(6): S = S + lin.mul(Form({vx[i]: 1}), Form({vy[j]: 1})).scale(1 << (64 * (i + j)))
            lim = 9 * P * P - 1 if not wide else (1 << 384) * P - 1
            nret = 0
            for o in outs:
                if o.kind != "ret": probs.append(f"{o.kind} {o.info}"); continue
                nret += 1
                limbs = [ex.read_int(o.st, Ptr(ptrs[0].obj, 8 * i), 8) for i in range(6)]
                # leaves: limbs of the unreduced result
                T = find_unreduced(lin, limbs, o)
                if T is None: probs.append("unreduced result not identified"); continue
                leaves, F = T
                D = F.scale(M384) - S              # must be P * (integer form in the quotient digits)
                ok = all(Fraction_is_mult(c) for c in D.c.values()) and Fraction_is_mult(D.k)
                if not ok or not z3_congruent(ctx, D): probs.append("T*2^384 - X*Y is not a multiple of P"); continue
                if not lin.always_lt(F, 2 * P, extra=[Form({}, lim) - S]): probs.append("unreduced result not below 2P"); continue
                s = z3.SolverFor("QF_BV"); s.set("timeout", 240000)
                Tz = tm.z(tm.zext(384, 388, cat(leaves))); Zz = tm.z(tm.zext(384, 388, cat(limbs)))
                s.add(z3.ULT(Tz, z3.BitVecVal(2 * P, 388)))
                for c in o.st.pc: s.add(tm.zb(c))
                s.add(Zz != z3.If(z3.ULT(Tz, z3.BitVecVal(P, 388)), Tz, Tz - z3.BitVecVal(P, 388)))
                r = ctx.query(s)
                if r != "unsat": probs.append("final reduction: solver " + r)
                for p, ls in zip(ptrs[1:], (xs, ys)):
                    if p.obj != ptrs[0].obj and any(ex.read_int(o.st, Ptr(p.obj, 8 * i), 8) is not ls[i] for i in range(6)): probs.append("operand modified")
            if not nret: probs.append("no return")
            ctx.extra = {"integer_variables": len(lin.names), "exact_sum_queries": lin.queries}
        except (Unsupported, Budget, LinError) as e: probs.append(f"{type(e).__name__} {e}")
        finish(ctx, nat, fn, sym, al, probs, [], (mx + 1, my + 1) if wide else None)
    return go
from fractions import Fraction
def Fraction_is_mult(c):
    c = Fraction(c); return c.denominator == 1 and int(c) % P == 0
def z3_congruent(ctx, D):
    s = z3.Solver(); k, r = z3.Ints("k r")
    tot = z3.Sum([z3.IntVal(int(D.k))] + [int(c) * z3.Int(f"v{v}") for v, c in D.c.items()])
    s.add(tot == P * k + r, r > 0, r < P)
    return ctx.query(s) == "unsat"
def find_unreduced(lin, limbs, o):
    """the 64-bit exact-sum leaves the output limbs are computed from, in limb order, with their total"""
    def leaf_of(t):
        """candidate leaves of one limb: exact-sum terms reachable without passing another exact-sum term"""
        out = []; seen = set(); stack = [t]
        while stack:
            x = stack.pop()
            if not tm.isT(x) or x.id in seen: continue
            seen.add(x.id)
            if x.op == "var": out.append(x); continue
            for c in tm._children(x): stack.append(c)
        return out
    # limb i of the output is either leaf_i or (leaf - P) limb i: leaf_0 is found from limb 0, etc.
    leaves = []
    known = set()
    for i in range(6):
        t = limbs[i]
        if not tm.isT(t): return None
        c = [x for x in leaf_of(t) if x.w == 64 and x.id in lin.form and x.id not in known]
        if t.op == "var" and t.id in lin.form: c = [t]
        if len(c) != 1:
            # choose through the path condition / ite structure: the leaf that the limb equals when nothing is subtracted
            if not c: return None
            s = None
            for x in c:
                if t.op == "ite" and (t.args[1] is x or t.args[2] is x): s = x
                if t.op in ("add", "sub") and any(a is x for a in t.args): s = x
            if s is None: return None
            c = [s]
        leaves.append(c[0]); known.add(c[0].id)
    F = Form({}, 0)
    for i, x in enumerate(leaves): F = F + lin.form[x.id].scale(1 << (64 * i))
    return leaves, F
