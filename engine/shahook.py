"""The compression step of the code under test: proved equal to the specification for arbitrary chaining value and block,
then applied through the specification's terms.  Which memory it uses is discovered from the execution itself."""
from . import terms as tm
from .exec import *
from .sha import *
from .sweep import Sweep
class Layout: pass
def find(ex):
    c = [n for d, n in ex.mod.bydem.items() if d.startswith("bls12_381::sha256::transform(")]
    return c[0] if len(c) == 1 else None
def install(ex, ctx, H):
    n = find(ex)
    if n is None: return False
    lay = ctx.__dict__.setdefault("sha_layout", {})
    def h(ex, st, args, fn):
        if "l" not in lay: lay["l"] = learn(ex, ctx, st, args, fn)
        l = lay["l"]
        rd = lambda k, o, s: ex.read_int(st, ex.padd(Ptr(args[k].obj, 0), args[k].off + o) if 0 else Ptr(args[k].obj, args[k].off + o), s)
        hs = [rd(k, o, 4) for k, o in l.H]; bs = [rd(k, o, 1) for k, o in l.B]
        if any(v is None for v in hs + bs): raise Unsupported("compression of uninitialised data")
        for (k, o), v in zip(l.H, H.comp(hs, bs)): ex.write_int(st, Ptr(args[k].obj, args[k].off + o), 4, v)
        return [(st, None)]
    ex.hooks[n] = h
    return True
def learn(ex, ctx, st, args, fn):
    st = st.fork(); st.pc = (); names = {}; before = {}
    hook = ex.hooks.pop(fn)
    try:
        for k, p in enumerate(args):
            if not isinstance(p, Ptr): raise Unsupported("compression argument")
            o = ex.getobj(st, p.obj)
            for off, (sz, v) in list(o.cells.items()):
                if sz not in (1, 2, 4, 8): raise Unsupported("compression memory")
                nv = tm.var(f"L{k}.{off}", 8 * sz); names[nv.args[0]] = (k, off - p.off, sz); before[(k, off - p.off, sz)] = nv
                ex.wr(st, p.obj, off, sz, nv)
        rets = ex.call(st, fn, args)
        if len(rets) != 1: raise Unsupported("compression does not return once")
        s2 = rets[0][0]; changed = []
        for (k, off, sz), v in before.items():
            g = ex.read_int(s2, Ptr(args[k].obj, args[k].off + off), sz)
            if g is not v: changed.append((k, off, sz, g))
        changed.sort()
        changed = [c for c in changed if tm.isT(c[3]) and c[2] == 4]
        if len(changed) != 8: raise Unsupported(f"compression changes {len(changed)} words")
        used = sorted({names[n] for n in tm.variables([c[3] for c in changed]) if n in names})
        l = Layout(); l.H = [(k, o) for k, o, _, _ in changed]
        l.B = [(k, o) for k, o, sz in used if sz == 1]
        if len(l.B) != 64 or any((k, o, 4) not in used for k, o in l.H) or len(used) != 72: raise Unsupported("compression reads unexpected memory")
        l.proved = 0
        if getattr(ctx, "sha_trusted", False): return l
        H = Hash(); out = H.comp([before[(k, o, 4)] for k, o in l.H], [before[(k, o, 1)] for k, o in l.B])
        S = Sweep(ctx); ok = S.equal([c[3] for c in changed], out, H.keys)
        l.proved = S.proved
        if not ok: raise Unsupported("compression function differs from FIPS 180-4")
        return l
    finally: ex.hooks[fn] = hook
