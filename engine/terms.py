"""Bit-vector term DAG with hash-consing and light simplification.

Concrete values are Python ints; symbolic values are T nodes.  Every function takes the
width explicitly.  Booleans are width-1 bit-vectors."""
import z3

class T:
    __slots__ = ("op", "w", "args", "id", "dom", "z", "lv")
    def __repr__(self): return f"<{self.op}:{self.w}#{self.id}>"

_tab = {}
_cnt = [0]

def mk(op, w, *args):
    key = (op, w) + tuple(("t", a.id) if isinstance(a, T) else a for a in args)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.w = w; t.args = args; t.dom = None; t.z = None; t.lv = None
        _cnt[0] += 1; t.id = _cnt[0]
        _tab[key] = t
    return t

_fresh = [0]
def var(name, w):
    return mk("var", w, name)
def fresh(name, w):
    _fresh[0] += 1
    return mk("var", w, f"{name}!{_fresh[0]}")
def reset():
    _tab.clear()

def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v
isT = lambda a: isinstance(a, T)

def add(w, a, b):
    ia, ib = not isT(a), not isT(b)
    if ia and ib: return (a + b) & mask(w)
    if ia: a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0: return a
        if a.op == "add" and not isT(a.args[1]):
            return add(w, a.args[0], (a.args[1] + b) & mask(w))
    elif a.id > b.id: a, b = b, a
    return mk("add", w, a, b)

def neg(w, a):
    if not isT(a): return (-a) & mask(w)
    return sub(w, 0, a)

def sub(w, a, b):
    if not isT(b):
        if not isT(a): return (a - b) & mask(w)
        return add(w, a, (-b) & mask(w))
    if isT(a) and a is b: return 0
    if isT(a) and a.op == "add":
        if a.args[0] is b: return a.args[1]
        if a.args[1] is b: return a.args[0]
    return mk("sub", w, a, b)

def mul(w, a, b):
    ia, ib = not isT(a), not isT(b)
    if ia and ib: return (a * b) & mask(w)
    if ia: a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0: return 0
        if b == 1: return a
    elif a.id > b.id: a, b = b, a
    return mk("mul", w, a, b)

def udiv(w, a, b):
    if not isT(a) and not isT(b): return a // b if b else mask(w)
    if not isT(b):
        if b == 1: return a
        if b & (b - 1) == 0 and b: return lshr(w, a, b.bit_length() - 1)
    return mk("udiv", w, a, b)
def urem(w, a, b):
    if not isT(a) and not isT(b): return a % b if b else a
    if not isT(b) and b and b & (b - 1) == 0:
        return and_(w, a, b - 1)
    return mk("urem", w, a, b)
def sdiv(w, a, b):
    if not isT(a) and not isT(b):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0: return mask(w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    return mk("sdiv", w, a, b)
def srem(w, a, b):
    if not isT(a) and not isT(b):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0: return a
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    return mk("srem", w, a, b)

def and_(w, a, b):
    ia, ib = not isT(a), not isT(b)
    if ia and ib: return a & b
    if ia: a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0: return 0
        if b == mask(w): return a
        if w > 1:
            # contiguous mask -> zext(extract)
            tz = (b & -b).bit_length() - 1
            m = b >> tz
            if m & (m + 1) == 0:
                k = m.bit_length()
                r = zext(k, w - tz, extract(a, tz + k - 1, tz))
                return r if tz == 0 else concat(w - tz, r, tz, 0)
    else:
        if a is b: return a
        if w == 1 and (is_not(a) is b or is_not(b) is a): return 0
        if a.id > b.id: a, b = b, a
    return mk("and", w, a, b)

def or_(w, a, b):
    ia, ib = not isT(a), not isT(b)
    if ia and ib: return a | b
    if ia: a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0: return a
        if b == mask(w): return b
        if a.op == "concat":
            r = _or_concat(w, a, b)
            if r is not None: return r
    else:
        if a is b: return a
        if w == 1 and (is_not(a) is b or is_not(b) is a): return 1
        if w > 1:
            r = _or_concat(w, a, b)
            if r is not None: return r
        if a.id > b.id: a, b = b, a
    return mk("or", w, a, b)

def _parts(t):
    """list of (width, value) from high to low"""
    if not isT(t): return None
    if t.op == "concat":
        return list(t.args[0])
    return [(t.w, t)]

def _or_concat(w, a, b):
    if a.op != "concat" and (not isT(b) or b.op != "concat"): return None
    pa, pb = _parts(a), _parts(b) if isT(b) else [(w, b)]
    # split to common boundaries when one of both is constant zero everywhere
    ca, cb = set(), set()
    def cuts(ps):
        s = set(); o = w
        for (k, _) in ps:
            o -= k; s.add(o)
        return s
    cs = sorted(cuts(pa) | cuts(pb), reverse=True)
    out = []; hi = w
    for lo in cs:
        x = extract(a, hi - 1, lo); y = extract(b, hi - 1, lo)
        if not isT(x) and x == 0: out.append((hi - lo, y))
        elif not isT(y) and y == 0: out.append((hi - lo, x))
        elif not isT(x) and not isT(y): out.append((hi - lo, x | y))
        else: return None
        hi = lo
    return concat_list(out)

def xor(w, a, b):
    ia, ib = not isT(a), not isT(b)
    if ia and ib: return a ^ b
    if ia: a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0: return a
        if a.op == "xor" and not isT(a.args[1]):
            return xor(w, a.args[0], a.args[1] ^ b)
        if w == 1: return not_(a)
    else:
        if a is b: return 0
        if a.id > b.id: a, b = b, a
    return mk("xor", w, a, b)

def is_not(a):
    return a.args[0] if isT(a) and a.op == "not1" else None
def not_(a):
    if not isT(a): return 1 - a
    if a.op == "not1": return a.args[0]
    return mk("not1", 1, a)

def shl(w, a, k):
    if not isT(k):
        if k >= w: return 0
        if k == 0: return a
        if not isT(a): return (a << k) & mask(w)
        return concat(w - k, extract(a, w - k - 1, 0), k, 0)
    return mk("shl", w, a, k)
def lshr(w, a, k):
    if not isT(k):
        if k >= w: return 0
        if k == 0: return a
        if not isT(a): return a >> k
        return zext(w - k, w, extract(a, w - 1, k))
    return mk("lshr", w, a, k)
def ashr(w, a, k):
    if not isT(k):
        if k == 0: return a
        if not isT(a): return (sgn(a, w) >> min(k, w - 1)) & mask(w)
        k = min(k, w - 1)
        return sext(w - k, w, extract(a, w - 1, k))
    return mk("ashr", w, a, k)

def extract(a, hi, lo, w=None):
    n = hi - lo + 1
    if not isT(a): return (a >> lo) & mask(n)
    if lo == 0 and n == a.w: return a
    if a.op == "concat":
        o = a.w; out = []
        for (k, v) in a.args[0]:
            o2 = o - k            # this part covers [o2, o-1]
            if o2 <= hi and o - 1 >= lo:
                h = min(hi, o - 1) - o2; l = max(lo, o2) - o2
                out.append((h - l + 1, extract(v, h, l) if isT(v) else (v >> l) & mask(h - l + 1)))
            o = o2
        return concat_list(out)
    if a.op == "extract":
        b, l0 = a.args
        return extract(b, hi + l0, lo + l0)
    if a.op == "ite":
        # push only when it stays cheap
        c, x, y = a.args
        if not isT(x) or not isT(y) or x.op in ("concat", "extract") and y.op in ("concat", "extract"):
            return ite(n, c, extract(x, hi, lo), extract(y, hi, lo))
    if a.op in ("and", "or", "xor") :
        f = {"and": and_, "or": or_, "xor": xor}[a.op]
        x, y = a.args
        if not isT(x) or not isT(y) or (x.op == "concat" or y.op == "concat"):
            return f(n, extract(x, hi, lo), extract(y, hi, lo))
    if lo == 0 and a.op == "add" and not isT(a.args[1]) and a.args[1] & mask(n) == 0:
        return extract(a.args[0], hi, 0)
    return mk("extract", n, a, lo)

def concat_list(parts):
    """parts: [(width, value)] from high to low."""
    out = []
    for (k, v) in parts:
        if k == 0: continue
        if isT(v) and v.op == "concat":
            sub_ = v.args[0]
        else:
            sub_ = ((k, v),)
        for (k1, v1) in sub_:
            if out:
                k0, v0 = out[-1]
                if not isT(v0) and not isT(v1):
                    out[-1] = (k0 + k1, v0 << k1 | v1); continue
                if isT(v0) and isT(v1):
                    # adjacent extracts of the same term
                    b0, l0 = (v0.args if v0.op == "extract" else (v0, 0))
                    b1, l1 = (v1.args if v1.op == "extract" else (v1, 0))
                    if b0 is b1 and l0 == l1 + k1:
                        out[-1] = (k0 + k1, extract(b0, l0 + k0 - 1, l1)); continue
                    # adjacent ites with the same condition over extracts
                    if v0.op == "ite" and v1.op == "ite" and v0.args[0] is v1.args[0]:
                        c, x0, y0 = v0.args; _, x1, y1 = v1.args
                        out[-1] = (k0 + k1, ite(k0 + k1, c, concat(k0, x0, k1, x1), concat(k0, y0, k1, y1))); continue
            out.append((k1, v1))
    if len(out) == 0: return 0
    if len(out) == 1: return out[0][1]
    w = sum(k for k, _ in out)
    return mk_concat(w, tuple(out))

def mk_concat(w, parts):
    key = ("concat", w) + tuple((k, ("t", v.id) if isT(v) else v) for k, v in parts)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = "concat"; t.w = w; t.args = (parts,); t.dom = None; t.z = None; t.lv = None
        _cnt[0] += 1; t.id = _cnt[0]; _tab[key] = t
    return t

def concat(kh, h, kl, l):
    return concat_list([(kh, h), (kl, l)])

def zext(w0, w1, a):
    if w0 == w1 or not isT(a): return a
    return concat_list([(w1 - w0, 0), (w0, a)])
def sext(w0, w1, a):
    if not isT(a): return sgn(a, w0) & mask(w1)
    if w0 == w1: return a
    if a.op == "concat" and a.args[0][0][1] == 0 and not isT(a.args[0][0][1]) :
        return zext(w0, w1, a)
    return mk("sext", w1, a)
def trunc(w0, w1, a):
    if not isT(a): return a & mask(w1)
    return extract(a, w1 - 1, 0)

def ite(w, c, a, b):
    if not isT(c): return a if c else b
    if isT(a):
        if a is b: return a
    elif not isT(b) and a == b: return a
    if c.op == "not1": return ite(w, c.args[0], b, a)
    if w == 1:
        ia, ib = not isT(a), not isT(b)
        if ia and ib: return c if a else not_(c)
        if ia: return or_(1, c, b) if a else and_(1, not_(c), b)
        if ib: return or_(1, not_(c), a) if b else and_(1, c, a)
    # nested ite with the same condition
    if isT(a) and a.op == "ite" and a.args[0] is c: a = a.args[1]
    if isT(b) and b.op == "ite" and b.args[0] is c: b = b.args[2]
    if isT(a):
        if a is b: return a
    elif not isT(b) and a == b: return a
    if isT(a) and isT(b) and a.op == "extract" and b.op == "extract" and a.args[1] == b.args[1] \
       and a.args[0].w == b.args[0].w and a.args[0].w > 64:
        W = a.args[0].w
        return extract(mk("ite", W, c, a.args[0], b.args[0]), a.args[1] + w - 1, a.args[1])
    return mk("ite", w, c, a, b)

def eq(w, a, b):
    ia, ib = not isT(a), not isT(b)
    if ia and ib: return 1 if a == b else 0
    if not ia and not ib and a is b: return 1
    if ia: a, b, ia, ib = b, a, ib, ia
    if w == 1:
        if ib: return a if b else not_(a)
        return not_(xor(1, a, b))
    if ib and a.op == "concat":
        # split on parts
        r = 1; o = w
        for (k, v) in a.args[0]:
            o -= k
            r = and_(1, r, eq(k, v, (b >> o) & mask(k)))
            if r == 0 and not isT(r): return 0
        return r
    if ib and a.op == "ite":
        c, x, y = a.args
        if not isT(x) or not isT(y):
            return ite(1, c, eq(w, x, b), eq(w, y, b))
    if ib and a.op == "add" and not isT(a.args[1]):
        return eq(w, a.args[0], (b - a.args[1]) & mask(w))
    if ib and a.op == "or" and b == 0:
        return and_(1, eq(w, a.args[0], 0), eq(w, a.args[1], 0))
    if ib and a.op == "xor":
        if not isT(a.args[1]): return eq(w, a.args[0], a.args[1] ^ b)
        if b == 0: return eq(w, a.args[0], a.args[1])
    if not ib and a.id > b.id: a, b = b, a
    return mk("eq", 1, a, b)

def umax(a, w):
    if not isT(a): return a
    if a.op == "concat":
        m = 0
        for (k, v) in a.args[0]:
            m = m << k | umax(v, k)
        return m
    if a.op == "ite": return max(umax(a.args[1], w), umax(a.args[2], w))
    if a.op == "and": return min(umax(a.args[0], w), umax(a.args[1], w))
    return mask(w)

def ult(w, a, b):
    if not isT(a) and not isT(b): return 1 if a < b else 0
    if isT(a) and a is b: return 0
    if not isT(b):
        if b == 0: return 0
        if umax(a, w) < b: return 1
        if b == 1: return eq(w, a, 0)
    if not isT(a):
        if umax(b, w) <= a: return 0
        if a == 0: return not_(eq(w, b, 0))
    return mk("ult", 1, a, b)
def ule(w, a, b): return not_(ult(w, b, a))
def slt(w, a, b):
    if not isT(a) and not isT(b): return 1 if sgn(a, w) < sgn(b, w) else 0
    if isT(a) and a is b: return 0
    h = 1 << (w - 1)
    if umax(a, w) < h and umax(b, w) < h: return ult(w, a, b)
    return mk("slt", 1, a, b)
def sle(w, a, b): return not_(slt(w, b, a))

def and_all(xs):
    r = 1
    for x in xs:
        r = and_(1, r, x)
        if not isT(r) and r == 0: return 0
    return r
def or_all(xs):
    r = 0
    for x in xs:
        r = or_(1, r, x)
        if not isT(r) and r == 1: return 1
    return r

# ---------------------------------------------------------------- lowering to z3
_ctx = z3.main_ctx()
def z(a, w=None):
    """Lower to a z3 bit-vector expression (booleans stay width-1 bit-vectors)."""
    if not isT(a): return z3.BitVecVal(a, w)
    if a.z is not None: return a.z
    stack = [a]
    while stack:
        t = stack[-1]
        if t.z is not None: stack.pop(); continue
        todo = [x for x in _children(t) if isT(x) and x.z is None]
        if todo: stack.extend(todo); continue
        t.z = _lower(t); stack.pop()
    return a.z

def _children(t):
    if t.op == "concat": return [v for _, v in t.args[0]]
    if t.op == "var": return []
    if t.op == "extract": return [t.args[0]]
    return t.args

def zb(a):
    """z3 Bool for a width-1 term"""
    if not isT(a): return z3.BoolVal(bool(a))
    if a.op == "not1": return z3.Not(zb(a.args[0]))
    if a.op == "eq": 
        x, y = a.args; w = x.w if isT(x) else y.w
        return z(x, w) == z(y, w)
    if a.op == "ult":
        x, y = a.args; w = x.w if isT(x) else y.w
        return z3.ULT(z(x, w), z(y, w))
    if a.op == "slt":
        x, y = a.args; w = x.w if isT(x) else y.w
        return z(x, w) < z(y, w)
    if a.op == "and" : return z3.And(*[zb(x) for x in a.args])
    if a.op == "or" : return z3.Or(*[zb(x) for x in a.args])
    return z(a, 1) == 1

def _b2bv(c): return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

def _lower(t):
    op, w = t.op, t.w
    if op == "var": return z3.BitVec(t.args[0], w)
    if op == "concat":
        ps = [z(v, k) for k, v in t.args[0]]
        return z3.Concat(*ps)
    if op == "extract":
        lo = t.args[1]
        return z3.Extract(lo + w - 1, lo, z(t.args[0]))
    if op == "not1": return ~z(t.args[0], 1)
    if op in ("eq", "ult", "slt"):
        return _b2bv(zb(t))
    if op == "ite":
        return z3.If(zb(t.args[0]), z(t.args[1], w), z(t.args[2], w))
    if op == "sext":
        x = t.args[0]
        return z3.SignExt(w - x.w, z(x))
    a, b = z(t.args[0], w), z(t.args[1], w)
    if op == "add": return a + b
    if op == "sub": return a - b
    if op == "mul": return a * b
    if op == "udiv": return z3.UDiv(a, b)
    if op == "urem": return z3.URem(a, b)
    if op == "sdiv": return a / b
    if op == "srem": return z3.SRem(a, b)
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "shl": return a << b
    if op == "lshr": return z3.LShR(a, b)
    if op == "ashr": return a >> b
    raise NotImplementedError(op)

def evaluate(a, env, w=None, memo=None):
    """Concrete evaluation under env: var name -> int (missing: 0)."""
    if memo is None: memo = {}
    def go(t):
        if not isT(t): return t
        if t.id in memo: return memo[t.id]
        stack = [t]
        while stack:
            s = stack[-1]
            if s.id in memo: stack.pop(); continue
            todo = [x for x in _children(s) if isT(x) and x.id not in memo]
            if todo: stack.extend(todo); continue
            memo[s.id] = _ev(s, lambda x: memo[x.id] if isT(x) else x, env)
            stack.pop()
        return memo[t.id]
    return go(a)

def _ev(t, g, env):
    op, w = t.op, t.w; m = mask(w)
    if op == "var": return env.get(t.args[0], 0) & m
    if op == "concat":
        r = 0
        for k, v in t.args[0]: r = r << k | g(v)
        return r
    if op == "extract": return g(t.args[0]) >> t.args[1] & m
    if op == "not1": return 1 - g(t.args[0])
    if op == "ite": return g(t.args[1]) if g(t.args[0]) else g(t.args[2])
    if op == "sext": return sgn(g(t.args[0]), t.args[0].w) & m
    a, b = g(t.args[0]), g(t.args[1])
    x = t.args[0] if isT(t.args[0]) else t.args[1]
    W = x.w
    if op == "eq": return int(a == b)
    if op == "ult": return int(a < b)
    if op == "slt": return int(sgn(a, W) < sgn(b, W))
    if op == "shl": return a << b & m if b < w else 0
    if op == "lshr": return a >> b if b < w else 0
    if op == "ashr": return sgn(a, w) >> min(b, w - 1) & m
    f = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem,
         "and": and_, "or": or_, "xor": xor}[op]
    return f(w, a, b)

def variables(ts):
    seen = set(); out = {}
    stack = [t for t in ts if isT(t)]
    while stack:
        t = stack.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op == "var": out[t.args[0]] = t
        stack.extend(x for x in _children(t) if isT(x))
    return out

def values(t, limit=64):
    """set of integers containing every value of t when t is built from if-then-else over constants; None otherwise"""
    if not isT(t): return {t}
    memo = {}
    def go(x):
        if not isT(x): return {x}
        r = memo.get(x.id, 0)
        if r != 0: return r
        if x.op == "ite":
            a, b = go(x.args[1]), go(x.args[2]); r = None if a is None or b is None else a | b
        elif x.op in ("add", "sub", "mul", "and", "or", "xor", "udiv", "urem", "lshr", "shl"):
            a, b = go(x.args[0]), go(x.args[1])
            if a is None or b is None or len(a) * len(b) > 4096: r = None
            else: r = {mkop(x.op, x.w, p, q) for p in a for q in b}
        elif x.op == "concat":
            r = {0}
            for k, v in x.args[0]:
                g = go(v)
                if g is None or len(g) * len(r) > 4096: r = None; break
                r = {p << k | q for p in r for q in g}
        elif x.op == "extract":
            g = go(x.args[0]); r = None if g is None else {v >> x.args[1] & mask(x.w) for v in g}
        elif x.w <= 4: r = set(range(1 << x.w))
        else: r = None
        if r is not None and len(r) > limit * 4: r = None
        memo[x.id] = r; return r
    r = go(t)
    return r if r is not None and len(r) <= limit else None
def mkop(op, w, p, q):
    f = {"and": lambda: p & q, "or": lambda: p | q, "xor": lambda: p ^ q, "add": lambda: p + q, "sub": lambda: p - q, "mul": lambda: p * q,
         "udiv": lambda: p // q if q else mask(w), "urem": lambda: p % q if q else p, "lshr": lambda: p >> q if q < w else 0, "shl": lambda: p << q if q < w else 0}[op]
    return f() & mask(w)
