"""Check driver: obligations run in parallel child processes; results become the evidence file."""
import os, sys, time, json, random, signal, traceback, pickle, ctypes, resource, importlib
from . import build, terms as tm
from .exec import *
VERIF = build.HERE

class Violation(Exception): pass
class Inconclusive(Exception): pass

class Ob:
    def __init__(self, name, fn, deadline=300, tier="quick", weight=1, what=""):
        self.name = name; self.fn = fn; self.deadline = deadline; self.tier = tier; self.weight = weight; self.what = what

def big(x):
    return x if isinstance(x, (bytes, bytearray)) else bytes(x)

class Native:
    """calls into the natively compiled library, isolated in a forked process"""
    def __init__(self, so): self.so = so; self.lib = ctypes.CDLL(so)
    def raw(self, fn, args):
        f = getattr(self.lib, fn); f.restype = ctypes.c_uint64
        bufs = []; ca = []
        for a in args:
            if isinstance(a, (bytes, bytearray)):
                # exact-size buffer inside a larger one with guard bytes
                b = ctypes.create_string_buffer(bytes(a) + b"\xA5" * 64, len(a) + 64)
                bufs.append((b, len(a))); ca.append(b)
            elif isinstance(a, Ref):
                b = bufs[a.k]; bufs.append(b); ca.append(b[0])
            elif isinstance(a, PtrArr):
                b = (ctypes.c_void_p * max(1, len(a.items)))()
                keep = [ctypes.create_string_buffer(bytes(x), max(1, len(x))) for x in a.items]
                for i, x in enumerate(keep): b[i] = ctypes.addressof(x)
                b._keep = keep
                bufs.append((None, 0)); ca.append(b)
            else:
                ca.append(ctypes.c_uint64(a & (2**64 - 1))); bufs.append(None)
        r = f(*ca)
        outs = []; over = False
        for b in bufs:
            if b is None or b[0] is None: outs.append(None)
            else:
                outs.append(b[0].raw[:b[1]])
                if b[0].raw[b[1]:] != b"\xA5" * 64: over = True
        return ("ret", r, outs) if not over else ("overflow", r, outs)
    def call(self, fn, args, timeout=60):
        """('ret', value, [buffer contents]) | ('crash', signal) | ('timeout',) | ('overflow', ...)"""
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            try:
                dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 2); os.dup2(dn, 1)
                r = self.raw(fn, args)
                data = pickle.dumps(r)
                while data:
                    n = os.write(wfd, data); data = data[n:]
                os._exit(0)
            except BaseException:
                os._exit(99)
        os.close(wfd)
        data = b""; t0 = time.time()
        import select
        while True:
            left = timeout - (time.time() - t0)
            if left <= 0:
                os.kill(pid, 9); os.waitpid(pid, 0); os.close(rfd); return ("timeout",)
            r, _, _ = select.select([rfd], [], [], left)
            if not r: continue
            c = os.read(rfd, 1 << 16)
            if not c: break
            data += c
        os.close(rfd)
        _, stt = os.waitpid(pid, 0)
        if os.WIFSIGNALED(stt): return ("crash", os.WTERMSIG(stt))
        if not data: return ("crash", -os.WEXITSTATUS(stt))
        return pickle.loads(data)

def unlimit():
    import resource
    h = resource.getrlimit(resource.RLIMIT_AS)[1]; resource.setrlimit(resource.RLIMIT_AS, (h, h))
class Asan:
    """the same calls in the sanitizer build: ('ret', value, buffers) | ('throw',) | ('san', first lines of the report) | ('timeout',)"""
    def __init__(self, exe): self.exe = exe
    def call(self, fn, args, timeout=120):
        """a report counts only when a second run makes it too"""
        r = self.once(fn, args, timeout)
        if r[0] != "san": return r
        q = self.once(fn, args, timeout)
        return r if q[0] == "san" else q
    def once(self, fn, args, timeout):
        t = [fn]
        for a in args:
            if isinstance(a, (bytes, bytearray)): t.append("b x" + bytes(a).hex())
            elif isinstance(a, Ref): t.append(f"r {a.k}")
            elif isinstance(a, PtrArr): t.append(f"p {len(a.items)} " + " ".join("x" + bytes(x).hex() for x in a.items))
            else: t.append(f"i {a & (2**64 - 1)}")
        import subprocess
        env = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN", "UBSAN", "LSAN"))}
        try: r = subprocess.run([self.exe], input="\n".join(t), capture_output=True, text=True, timeout=timeout, env=env, preexec_fn=unlimit)
        except subprocess.TimeoutExpired: return ("timeout",)
        if r.returncode:
            l = [x.strip() for x in r.stderr.splitlines() if "ERROR:" in x or "runtime error" in x or "SUMMARY" in x or "Assertion" in x or " in bls12_381" in x]
            if not any("ERROR: AddressSanitizer: " in x or "LeakSanitizer: detected" in x or "runtime error" in x or "Assertion" in x for x in l): return ("broken", r.stderr[-600:])
            return ("san", (" | ".join(l)[:900] or f"exit status {r.returncode}: {r.stderr[-300:]}"))
        ls = r.stdout.split("\n")
        if ls[0] == "T": return ("throw",)
        return ("ret", int(ls[0][2:]), [bytes.fromhex(x[2:]) if x.startswith("B") else None for x in ls[1:] if x])
class Ref:
    """argument: same buffer as argument k"""
    def __init__(self, k): self.k = k
class PtrArr:
    def __init__(self, items): self.items = items

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.mods = {}; self._nat = None; self._natp = None; self._asan = None; self.execs = []
        self.rng = random.Random(seed)
        self.viol = []; self.inc = []; self.notes = []; self.validated = 0; self.samples = []
        self.xq = 0; self.xt = 0.0; self.paths = 0; self.extra = {}
        self.deadline = None; self.known = {}
    @property
    def quick(self): return self.tier == "quick"
    def mod(self, portable=False):
        m = self.mods.get(portable)
        if m is None:
            from .llvm import Module
            m = self.mods[portable] = Module(build.bitcode(portable=portable))
        return m
    @property
    def nat(self):
        if self._nat is None: self._nat = Native(build.native())
        return self._nat
    @property
    def asan(self):
        if self._asan is None: self._asan = Asan(build.asan())
        return self._asan
    @property
    def nat_portable(self):
        if self._natp is None: self._natp = Native(build.native(portable=True))
        return self._natp
    def exec(self, merge=True, ring=False, mod=None, fph=True, globs=True):
        from .ring import Ring, install, FPH
        ex = Exec(mod or self.mod(), merge=merge)
        ex.deadline = self.deadline
        ex.ctx = self
        if ring:
            Ring(ex)
            if fph: install(ex, FPH)
        if globs: ex.init_globals()
        ex.steps = 0
        self.execs.append(ex)
        return ex
    def violation(self, what, call=None, observed=None, expected=None, key=None):
        """a counterexample that was reproduced on the real code"""
        v = {"what": what, "key": key or what}
        if call:
            v["fn"] = call[0]
            v["args"] = [("hex", bytes(a).hex()) if isinstance(a, (bytes, bytearray)) else ("ref", a.k) if isinstance(a, Ref) else
                         ("ptrs", [bytes(x).hex() for x in a.items]) if isinstance(a, PtrArr) else ("int", a) for a in call[1]]
        if observed is not None: v["observed"] = observed
        if expected is not None: v["expected"] = expected
        self.viol.append(v)
    def inconclusive(self, why): self.inc.append(why)
    def query(self, s, *assumptions):
        """check a z3 solver, counting the query"""
        t0 = time.time(); self.xq += 1
        r = s.check(*assumptions); self.xt += time.time() - t0
        return str(r)
    def count_paths(self, outs): self.paths += len(outs)

def _child(ob, ctx, wfd):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception: pass
    res = {"name": ob.name}
    t0 = time.time()
    try:
        ctx.deadline = time.time() + ob.deadline
        def go(): ob.fn(ctx)
        with_big_stack(go)
        st = "violated" if ctx.viol else "inconclusive" if ctx.inc else "proved"
    except (Unsupported, Budget, Inconclusive) as e:
        ctx.inc.append(f"{type(e).__name__}: {e}")
        st = "violated" if ctx.viol else "inconclusive"
    except build.BuildError as e:
        ctx.inc.append("build: " + str(e)[-2000:]); st = "inconclusive"
    except BaseException as e:
        ctx.inc.append("error: " + traceback.format_exc()[-3000:])
        st = "violated" if ctx.viol else "inconclusive"
    res["status"] = st
    res["wall_s"] = round(time.time() - t0, 2)
    enc = {}; q = ctx.xq; qt = ctx.xt; steps = 0; rw = 0
    for ex in ctx.execs:
        q += ex.solver.queries; qt += ex.solver.time; steps += ex.steps
        for k, v in ex.encoded.items(): enc[k] = enc.get(k, 0) + v
        rg = getattr(ex, "ring", None)
        if rg is not None: q += rg.queries; qt += rg.qtime
    res.update(queries=q, solver_s=round(qt, 3), steps=steps, encoded=enc, paths=ctx.paths, viol=ctx.viol, inc=ctx.inc, notes=ctx.notes,
               validated=ctx.validated, samples=ctx.samples[:3], extra=ctx.extra)
    try: data = pickle.dumps(res)
    except Exception as e: data = pickle.dumps({"name": ob.name, "status": "inconclusive", "inc": ["pickle " + str(e)], "viol": []})
    while data:
        n = os.write(wfd, data); data = data[n:]
    os._exit(0)

def run_obs(obs, ctx, jobs=None, verbose=True):
    import select
    jobs = jobs or min(8, os.cpu_count() or 4)
    pending = sorted(obs, key=lambda o: -o.weight)
    run = {}; done = []
    while pending or run:
        while pending and len(run) < jobs:
            ob = pending.pop(0)
            rfd, wfd = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                for r in run: os.close(r)
                ctx.rng = random.Random(f"{ctx.seed}/{ob.name}")
                os.setpgid(0, 0)
                _child(ob, ctx, wfd)
            try: os.setpgid(pid, pid)
            except Exception: pass
            os.close(wfd)
            run[rfd] = [ob, pid, time.time(), b""]
        r, _, _ = select.select(list(run), [], [], 1.0)
        for fd in r:
            c = os.read(fd, 1 << 20)
            if c: run[fd][3] += c; continue
            ob, pid, t0, data = run.pop(fd); os.close(fd)
            _, stt = os.waitpid(pid, 0)
            try: os.killpg(pid, 9)
            except Exception: pass
            if data:
                try: res = pickle.loads(data)
                except Exception as e: res = {"name": ob.name, "status": "inconclusive", "inc": ["result lost"], "viol": []}
            else: res = {"name": ob.name, "status": "inconclusive", "inc": [f"child ended {stt}"], "viol": []}
            res.setdefault("wall_s", round(time.time() - t0, 2))
            done.append(res); report(res, verbose)
        for fd in list(run):
            ob, pid, t0, data = run[fd]
            if time.time() - t0 > ob.deadline + 30:
                try: os.killpg(pid, 9)
                except Exception: os.kill(pid, 9)
                os.waitpid(pid, 0); os.close(fd); run.pop(fd)
                res = {"name": ob.name, "status": "inconclusive", "inc": ["deadline"], "viol": [], "wall_s": round(time.time() - t0, 2)}
                done.append(res); report(res, verbose)
    return done
def report(res, verbose):
    if verbose:
        print(f"  {res['status']:12} {res['name']}  paths={res.get('paths',0)} queries={res.get('queries',0)} solver={res.get('solver_s',0)}s wall={res['wall_s']}s", flush=True)
        for i in res.get("inc", []): print("      inconclusive: " + str(i)[-1500:], flush=True)
        for v in res.get("viol", []): print("      counterexample: " + json.dumps({k: v[k] for k in v if k in ("what", "fn")})[:1500], flush=True)

def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"): out.append(json.loads(l))
    return out

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--replay"); ap.add_argument("--jobs", type=int); ap.add_argument("--list", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay: return replay(a.replay)
    t0 = time.time()
    ctx = Ctx(a.prop, a.tier, seed)
    modl = importlib.import_module(f"checks.{a.prop.lower()}")
    try:
        obs = with_big_stack(modl.obligations, ctx)
        ctx.nat
    except build.BuildError as e:
        print("build failed:\n" + str(e)); return 2
    if a.tier == "quick": obs = [o for o in obs if o.tier == "quick"]
    if a.only: obs = [o for o in obs if any(o.name.startswith(x) or x == o.name for x in a.only.split(","))]
    if a.list:
        for o in obs: print(o.name, o.tier, o.deadline)
        return 0
    print(f"{a.prop}: {len(obs)} obligations, tier {a.tier}", flush=True)
    done = run_obs(obs, ctx, a.jobs)
    known = [k for k in load_known() if k.get("property") == a.prop and k.get("status") == "open"]
    nviol = 0; rc = 0; kf = set()
    rdir = os.path.join(VERIF, "replays"); 
    for r in done:
        for i, v in enumerate(r["viol"]):
            k = next((k for k in known if k["key"] == v["key"]), None)
            if k:
                if k["key"] not in kf: print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
                kf.add(k["key"]); continue
            nviol += 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{a.prop}-{r['name'].replace('/', '_')}-{i}.json")
            json.dump({"property": a.prop, "obligation": r["name"], **v}, open(path, "w"), indent=1)
            if nviol <= 20: print(f"VIOLATION property={a.prop} replay={path}")
            print(f"   {v['what'][:600]}")
            rc = 1
    bad = [r for r in done if r["status"] == "inconclusive"]
    if bad and rc == 0:
        rc = 2
        for r in bad: print(f"INCONCLUSIVE {a.prop} {r['name']}: {str(r['inc'])[:400]}")
    if not a.only:
        write_evidence(a, modl, ctx, done, nviol, time.time() - t0, seed)
    print(f"{a.prop}: {sum(r['status'] == 'proved' for r in done)}/{len(done)} obligations discharged, {nviol} violations, {time.time()-t0:.1f}s, exit {rc}")
    return rc

def write_evidence(a, modl, ctx, done, nviol, wall, seed):
    enc = {}
    for r in done:
        for k, v in r.get("encoded", {}).items(): enc[k] = enc.get(k, 0) + v
    cov = {
        "states": sum(r.get("paths", 0) for r in done),
        "transitions": sum(r.get("steps", 0) for r in done),
        "traces_validated_against_impl": sum(r.get("validated", 0) for r in done),
        "samples": [s for r in done for s in r.get("samples", [])[:1]][:12] or [r["name"] for r in done][:5],
        "obligations": len(done), "discharged": sum(r["status"] == "proved" for r in done),
        "solver_queries": sum(r.get("queries", 0) for r in done), "solver_seconds": round(sum(r.get("solver_s", 0) for r in done), 2),
        "functions_encoded": sorted(enc), "functions_encoded_count": len(enc),
        "bounds": getattr(modl, "BOUNDS", ""), "outside": getattr(modl, "OUTSIDE", ""),
        "obligation_list": [{"name": r["name"], "status": r["status"], "paths": r.get("paths", 0), "queries": r.get("queries", 0), "solver_s": r.get("solver_s", 0), "wall_s": r["wall_s"], **({"extra": r["extra"]} if r.get("extra") else {})} for r in done],
        "meaning": "states = completed symbolic paths (each covers all values of the symbolic inputs satisfying its path condition); transitions = IR/machine instructions executed symbolically; traces_validated_against_impl = concrete instances of symbolic results compared with the natively compiled library",
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": list(getattr(modl, "ASSUMPTIONS", [])), "violations": nviol}
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{a.prop}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(d, f"{a.prop}.json"))

def replay(path):
    v = json.load(open(path))
    print(json.dumps(v, indent=1)[:6000])
    if "fn" not in v: return 0
    nat = Native(build.native())
    args = []
    for k, x in v["args"]:
        args.append(bytes.fromhex(x) if k == "hex" else Ref(x) if k == "ref" else PtrArr([bytes.fromhex(y) for y in x]) if k == "ptrs" else x)
    r = nat.call(v["fn"], args)
    print("native result now:", r[0], [hex(x) if isinstance(x, int) else x.hex() if isinstance(x, bytes) else [y.hex() if y is not None else None for y in x] for x in r[1:]])
    return 0
