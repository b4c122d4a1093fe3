"""Independent reference definitions (written from the standards, not from the code under test).

Tower arithmetic is generic in the Fp2 element type: `CE` (concrete complex pair) for replays, `PE`
(polynomial) for symbolic specifications."""
import hashlib, hmac as _hmac
from .ring import P, Q, R, RI, padd as _pa, psub as _ps, pmul as _pm, pneg as _pn, pscale, c2mul

class CE:
    __slots__ = ("a", "b")
    def __init__(s, a, b=0): s.a = a % P; s.b = b % P
    def __add__(s, o): return CE(s.a + o.a, s.b + o.b)
    def __sub__(s, o): return CE(s.a - o.a, s.b - o.b)
    def __neg__(s): return CE(-s.a, -s.b)
    def __mul__(s, o):
        if isinstance(o, int): return CE(s.a * o, s.b * o)
        return CE(s.a * o.a - s.b * o.b, s.a * o.b + s.b * o.a)
    def conj(s): return CE(s.a, -s.b)
    def inv(s):
        n = (s.a * s.a + s.b * s.b) % P
        i = pow(n, -1, P) if n else 0
        return CE(s.a * i, -s.b * i)
    def __eq__(s, o): return s.a == o.a and s.b == o.b
    def __hash__(s): return hash((s.a, s.b))
    def iszero(s): return s.a == 0 and s.b == 0
    def mkc(s, a, b=0): return CE(a, b)
    def __pow__(s, n):
        r = CE(1); x = s
        while n:
            if n & 1: r = r * x
            x = x * x; n >>= 1
        return r
    def __repr__(s): return f"({s.a:#x},{s.b:#x})"
class PE:
    """polynomial element; may contain u"""
    __slots__ = ("p", "rg")
    def __init__(s, p, rg): s.p = p; s.rg = rg
    def __add__(s, o): return PE(_pa(s.p, o.p), s.rg)
    def __sub__(s, o): return PE(_ps(s.p, o.p), s.rg)
    def __neg__(s): return PE(_pn(s.p), s.rg)
    def __mul__(s, o):
        if isinstance(o, int): return PE(pscale(s.p, o), s.rg)
        return PE(s.rg.norm(_pm(s.p, o.p)), s.rg)
    def conj(s): return PE(s.rg.pconj(s.p), s.rg)
    def mkc(s, a, b=0):
        d = {}
        if a % P: d[0] = a % P
        if b % P: d[1] = b % P
        return PE(d, s.rg)
    def __pow__(s, n):
        r = s.mkc(1); x = s
        while n:
            if n & 1: r = r * x
            n >>= 1
            if n: x = x * x
        return r

def xi(x): return x * x.mkc(1, 1)          # non-residue 1+u

# --- Fp6 = Fp2[v]/(v^3 - xi) as lists of 3; Fp12 = Fp6[w]/(w^2 - v) as lists of 6 (c0 then c1)
def f6add(a, b): return [x + y for x, y in zip(a, b)]
def f6sub(a, b): return [x - y for x, y in zip(a, b)]
def f6mul(a, b):
    r = [None] * 5
    for i in range(3):
        for j in range(3):
            t = a[i] * b[j]
            r[i + j] = t if r[i + j] is None else r[i + j] + t
    return [r[0] + xi(r[3]), r[1] + xi(r[4]), r[2]]
def f6mulv(a): return [xi(a[2]), a[0], a[1]]
def f12mul(a, b):
    a0, a1, b0, b1 = a[:3], a[3:], b[:3], b[3:]
    return f6add(f6mul(a0, b0), f6mulv(f6mul(a1, b1))) + f6add(f6mul(a0, b1), f6mul(a1, b0))
def f12conj(a): return a[:3] + [-x for x in a[3:]]
def f6inv(a):
    a0, a1, a2 = a
    t0 = a0 * a0 - xi(a1 * a2); t1 = xi(a2 * a2) - a0 * a1; t2 = a1 * a1 - a0 * a2
    n = (a0 * t0 + xi(a2 * t1 + a1 * t2)).inv()
    return [t0 * n, t1 * n, t2 * n]
def f12inv(a):
    a0, a1 = a[:3], a[3:]
    n = f6inv(f6sub(f6mul(a0, a0), f6mulv(f6mul(a1, a1))))
    return f6mul(a0, n) + [-x for x in f6mul(a1, n)]
def fpow(a, n, mul, one):
    r = one
    for bit in bin(n)[2:]:
        r = mul(r, r)
        if bit == "1": r = mul(r, a)
    return r
def f12one(x): return [x.mkc(1)] + [x.mkc(0)] * 5
def f12pow(a, n): return fpow(a, n, f12mul, f12one(a[0]))
def f6pow(a, n): return fpow(a, n, f6mul, [a[0].mkc(1), a[0].mkc(0), a[0].mkc(0)])
# frobenius: v^p = v * xi^((p-1)/3), w^p = w * xi^((p-1)/6)
XI = CE(1, 1)
G61 = XI ** ((P - 1) // 3); G62 = XI ** (2 * (P - 1) // 3); GW = XI ** ((P - 1) // 6)
def cst(x, k): return x.mkc(k.a, k.b)
def f2frob(a, n): return a.conj() if n % 2 else a
def f6frob(a, n):
    for _ in range(n % 6): a = [a[0].conj(), a[1].conj() * cst(a[0], G61), a[2].conj() * cst(a[0], G62)]
    return a
def f12frob(a, n):
    for _ in range(n % 12):
        b = f6frob(a[:3], 1); c = f6frob(a[3:], 1)
        a = b + [x * cst(x, GW) for x in c]
    return a

# --- curves (affine, concrete): None = infinity; coordinates CE (G1 with b=0)
B1 = CE(4); B2 = CE(4, 4)
def ec_add(p, q):
    if p is None: return q
    if q is None: return p
    if p[0] == q[0]:
        if (p[1] + q[1]).iszero(): return None
        l = p[0] * p[0] * 3 * (p[1] * 2).inv()
    else: l = (q[1] - p[1]) * (q[0] - p[0]).inv()
    x = l * l - p[0] - q[0]
    return (x, l * (p[0] - x) - p[1])
def ec_neg(p): return None if p is None else (p[0], -p[1])
def ec_mul(p, n):
    if n < 0: return ec_mul(ec_neg(p), -n)
    r = None
    while n:
        if n & 1: r = ec_add(r, p)
        p = ec_add(p, p); n >>= 1
    return r
def oncurve(p, b): return p is None or (p[1] * p[1] == p[0] * p[0] * p[0] + b)
XABS = 0xd201000000010000
G1GEN = (CE(0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb),
         CE(0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1))
G2GEN = (CE(0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8, 0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e),
         CE(0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801, 0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be))
def sqrt_fp(a):
    s = pow(a, (P + 1) // 4, P)
    return s if s * s % P == a % P else None
def sqrt_ce(z):
    if z.b == 0:
        s = sqrt_fp(z.a)
        if s is not None: return CE(s)
        s = sqrt_fp(-z.a % P); return CE(0, s)
    n = sqrt_fp((z.a * z.a + z.b * z.b) % P)
    if n is None: return None
    for s in (n, -n):
        x = sqrt_fp((z.a + s) * pow(2, -1, P) % P)
        if x:
            y = z.b * pow(2 * x, -1, P) % P
            c = CE(x, y)
            if c * c == z: return c
    return None
def rand_point(rng, g2):
    while True:
        x = CE(rng.randrange(P), rng.randrange(P) if g2 else 0)
        y = sqrt_ce(x * x * x + (B2 if g2 else B1))
        if y is None or (not g2 and y.b): continue
        if rng.random() < .5: y = -y
        return (x, y)
G1 = G1GEN; G2 = G2GEN
