"""C02: every shipped back end computes the same function (each meets the same exact contract)."""
from engine.limbs import *
BOUNDS = "all operands in the documented domain: canonical for the reduced operations; x,y < 4p with xy < 9p^2, or x < 2^384 with y < p, for multiplication/squaring; full 384-bit range without overflow for the unreduced helpers; every aliasing of the pointer arguments; selection: every cpuid result (max leaf < 2^31), environments of up to 2 strings of up to 18 bytes each"
OUTSIDE = "operands outside the documented domain; the C compiler's code generation (validated by running)"
ASSUMPTIONS = ["x86-64 instruction semantics as encoded in engine/x86.py", "objdump decodes the assembled object faithfully"]
ADD = ["_add", "_double", "_subtract", "_negate", "_ladd", "_ldouble", "_lsubtract"]
def prims(portables):
    obs = []
    for port in portables:
        tag = "portable" if port else "x86"
        for fn in ADD:
            for al in ALIASES[ARITY[fn]]: obs.append(Ob(f"{tag}.{fn}{aname(al)}", (additive2 if fn in ("_add", "_subtract") and not (al.get(2) == 1 or len(al) == 2) else additive)(port, fn, al), deadline=300, weight=3))
        for fn in (["_multiply", "_square"] if port else ["__multiply", "__mul_ex", "_square"]):
            for al in ALIASES[ARITY[fn]]: obs.append(Ob(f"{tag}.{fn}{aname(al)}", multiplicative(port, fn, al), deadline=300, weight=6))
            if fn != "_square":
                for w in "x":
                    for al in ALIASES[2]:
                        if 2 in al and al[2] == 1 or len(al) == 2: continue
                        obs.append(Ob(f"{tag}.{fn}/wide-{w}{aname(al)}", multiplicative(port, fn, al, wide=w), deadline=300, weight=6))
    return obs
# ---- run-time selection of the multiplier
import subprocess, sys
from engine.llvm import FnPtr
STUB = """#include <cpuid.h>
#undef __cpuid_count
#undef __cpuid
extern "C" unsigned stub_cpuid[2][4];
#define __cpuid_count(leaf, sub, a, b, c, d) do { int k_ = (leaf) == 7; (a) = stub_cpuid[k_][0]; (b) = stub_cpuid[k_][1]; (c) = stub_cpuid[k_][2]; (d) = stub_cpuid[k_][3]; } while(0)
#define __cpuid(leaf, a, b, c, d) __cpuid_count(leaf, 0, a, b, c, d)
"""
DRV = """#include <cstdint>
#include <cstdio>
#include <cstdlib>
extern "C" unsigned stub_cpuid[2][4]; unsigned stub_cpuid[2][4];
namespace bls12_381 { class fp; void __multiply(fp*, const fp*, const fp*) {} void __mul_ex(fp*, const fp*, const fp*) {} }
extern "C" void* resolve_blsmul();
static char* dummy_[4]; extern "C" { char** _dl_argv = dummy_ + 1; }
int main(int c, char** v) { _dl_argv = v; for(int i = 0; i < 8; i++) stub_cpuid[i/4][i%4] = strtoul(v[1+i], 0, 0);
 void* r = resolve_blsmul(); puts(r == (void*)bls12_381::__mul_ex ? "__mul_ex" : r == (void*)bls12_381::__multiply ? "__multiply" : "other"); }
"""
_drv = None
def native_select(env, cpu):
    """run the real resolver with stand-in cpuid results and a real environment"""
    global _drv
    if _drv is None:
        d = build.scratch(); w = lambda n, t: (open(os.path.join(d, n), "w").write(t), os.path.join(d, n))[1]
        st = w("stub_cpuid.hpp", STUB); dr = w("sel_drv.cpp", DRV); out = os.path.join(d, "sel%d" % os.getpid())
        ob = os.path.join(d, "sel%d.o" % os.getpid())
        build.sh(["g++", "-std=c++20", "-O1", "-w", "-include", st, "-I", build.REPO + "/include", "-c", build.REPO + "/src/arithmetic.cpp", "-o", ob])
        build.sh(["objcopy", "--weaken", ob])
        build.sh(["g++", "-std=c++20", "-O1", "-w", "-no-pie", "-fno-pie", "-Wl,--unresolved-symbols=ignore-all", dr, ob, "-o", out])
        _drv = out
    r = subprocess.run([_drv] + [hex(x) for x in cpu], env=env, capture_output=True, text=True)
    return r.stdout.strip() or f"status {r.returncode}"
NENV, LENV = 2, 18
def selection(ctx):
    ex = ctx.exec(merge=False); st = ex.new_state()
    cp = {l: [tm.var(f"cpuid{l}.{r}", 32) for r in ("eax", "ebx", "ecx", "edx")] for l in (0, 7)}
    def asm(s, txt, con, args):
        if "cpuid" not in txt or "0,2" not in con: raise Unsupported("inline assembly " + txt)
        leaf = args[0]
        if tm.isT(leaf) or leaf not in cp: raise Unsupported(f"cpuid leaf {leaf}")
        used.add(leaf)
        return tuple(cp[leaf])
    ex.asm = asm; used = set()
    total = 0; seen = set()
    dis = b"BLS_DISABLE_BMI2"
    for nenv in range(NENV + 1):
        for argc in (0, 1, 3):
            st = ex.new_state()
            words = [argc] + [0x1111] * argc + [0]
            ap = ex.alloc(st, 8 * (len(words) + nenv + 1), "heap", name=f"argv{nenv}{argc}")
            ex.wr(st, ap.obj, 0, 4, argc); ex.wr(st, ap.obj, 4, 4, 0)
            for i in range(argc): ex.wr(st, ap.obj, 8 + 8 * i, 8, ex.alloc(st, 4, "heap"))
            ex.wr(st, ap.obj, 8 + 8 * argc, 8, 0)
            strs = []
            for j in range(nenv):
                s = ex.alloc(st, LENV + 1, "heap", name=f"env{nenv}{argc}{j}"); bs = [tm.var(f"e{j}[{i}]", 8) for i in range(LENV)]
                for i, b in enumerate(bs): ex.wr(st, s.obj, i, 1, b)
                ex.wr(st, s.obj, LENV, 1, 0); strs.append(bs); ex.wr(st, ap.obj, 8 * (2 + argc + j), 8, s)
            ex.wr(st, ap.obj, 8 * (2 + argc + nenv), 8, 0)
            g = ex.alloc(st, 8, "heap", name="_dl_argv") if "_dl_argv" not in st.mem else Ptr("_dl_argv", 0)
            ex.wr(st, "_dl_argv", 0, 8, Ptr(ap.obj, 8))
            st.pc = (tm.ult(32, cp[0][0], 1 << 31),)
            outs = ex.run("resolve_blsmul", [], st); ctx.count_paths(outs)
            disabled = tm.or_all([tm.and_all([tm.eq(8, b, c) for b, c in zip(bs, dis)]) for bs in strs])
            ok = tm.and_all([tm.ule(32, 7, cp[0][0]), tm.extract(cp[7][1], 8, 8), tm.extract(cp[7][1], 19, 19)])
            for o in outs:
                if o.kind != "ret" or not isinstance(o.ret, FnPtr): ctx.inconclusive(f"resolver: {o}"); continue
                mul_ex = "8__mul_ex" in o.ret.name; plain = "10__multiply" in o.ret.name; seen.add(o.ret.name)
                bad = tm.not_(tm.and_(1, ok, tm.not_(disabled))) if mul_ex else (0 if plain else 1)
                s = z3.SolverFor("QF_BV"); s.set("timeout", 60000)
                for c in list(o.st.pc) + [bad]: s.add(tm.zb(c))
                if ctx.query(s) == "unsat": total += 1; continue
                m = s.model(); v = lambda t: m.eval(tm.z(t), model_completion=True).as_long()
                env = {}
                for bs in strs:
                    t = bytes(v(b) for b in bs).split(b"\0")[0]
                    k, _, val = t.partition(b"=")
                    if k and k.isascii() and val.isascii(): env[k.decode()] = val.decode()
                cpu = [v(x) for l in (0, 7) for x in cp[l]]
                got = native_select(env, cpu)
                dis_c = any(k.startswith("BLS_DISABLE_BMI2") for k in env); ok_c = cpu[0] >= 7 and cpu[5] >> 8 & 1 and cpu[5] >> 19 & 1
                if got not in ("__multiply", "__mul_ex") or got == "__mul_ex" and (dis_c or not ok_c):
                    ctx.violation(f"multiplier selection: env={env} cpuid leaf0={[hex(x) for x in cpu[:4]]} leaf7={[hex(x) for x in cpu[4:]]}: selected {got}"); return
                ctx.inconclusive(f"selection counterexample not reproduced: env={env} cpu={cpu} got {got}")
    if len(seen) < 1: ctx.inconclusive("no selection")
    for env, cpu in (({}, [7, 0, 0, 0, 0, 1 << 8 | 1 << 19, 0, 0]), ({"BLS_DISABLE_BMI2": "1"}, [13, 0, 0, 0, 0, 1 << 8 | 1 << 19, 0, 0]), ({"A": "b"}, [13, 0, 0, 0, 0, 1 << 8, 0, 0])):
        got = native_select(env, cpu); ok = not env.get("BLS_DISABLE_BMI2") and cpu[5] == (1 << 8 | 1 << 19)
        if got == "__mul_ex" and not ok or got not in ("__mul_ex", "__multiply"): ctx.violation(f"multiplier selection: env={env} cpuid={cpu}: selected {got}")
        ctx.validated += 1
    ctx.samples.append({"function": "resolve_blsmul", "selected": sorted(seen)})
def obligations(ctx):
    ctx.mod(True); ctx.mod(False); ctx.nat_portable
    return prims([False, True]) + [Ob("portable.Add64,Sub64", helper64(True), deadline=120), Ob("x86.selection", selection, deadline=120)]
