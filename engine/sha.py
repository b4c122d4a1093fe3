"""SHA-256 (FIPS 180-4), HMAC, HKDF and expand_message_xmd over terms: the specification side."""
from . import terms as tm
K = [0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
     0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
     0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
     0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2]
IV = [0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19]
def x3(a, b, c): return tm.xor(32, tm.xor(32, a, b), c)
def add(*l):
    r = l[0]
    for x in l[1:]: r = tm.add(32, r, x)
    return r
def cut(v, hi, lo): return tm.extract(v, hi, lo) if tm.isT(v) else v >> lo & tm.mask(hi - lo + 1)
def rot(x, n):
    if not tm.isT(x): return (x >> n | x << 32 - n) & tm.mask(32)
    return tm.concat_list([(n, tm.extract(x, n - 1, 0)), (32 - n, tm.extract(x, 31, n))])
def shr(x, n): return tm.concat_list([(n, 0), (32 - n, tm.extract(x, 31, n))]) if tm.isT(x) else x >> n
def ch(e, f, g): return tm.xor(32, tm.and_(32, e, f), tm.and_(32, tm.xor(32, e, tm.mask(32)), g))
def maj(a, b, c): return tm.or_(32, tm.and_(32, a, tm.or_(32, b, c)), tm.and_(32, b, c))
def compress(H, block, keys=None):
    """block: 64 byte terms"""
    w = [tm.concat_list([(8, block[4 * i + j]) for j in range(4)]) for i in range(16)]
    for k in range(16, 64):
        w.append(add(x3(rot(w[k - 2], 17), rot(w[k - 2], 19), shr(w[k - 2], 10)), w[k - 7], x3(rot(w[k - 15], 7), rot(w[k - 15], 18), shr(w[k - 15], 3)), w[k - 16]))
        if keys is not None: keys.append(w[k])
    a, b, c, d, e, f, g, h = H
    for i in range(64):
        s1, cc, s0, mm = x3(rot(e, 6), rot(e, 11), rot(e, 25)), ch(e, f, g), x3(rot(a, 2), rot(a, 13), rot(a, 22)), maj(a, b, c)
        t1 = add(h, s1, cc, K[i], w[i])
        t2 = add(s0, mm)
        if keys is not None: keys += [s1, cc, s0, mm, t1, t2]
        a, b, c, d, e, f, g, h = add(t1, t2), a, b, c, add(d, t1), e, f, g
        if keys is not None: keys += [e, a]
    r = [tm.add(32, x, y) for x, y in zip(H, (a, b, c, d, e, f, g, h))]
    if keys is not None: keys += r
    return r
class Hash:
    """sha256 over lists of byte terms; memoised compressions; keys: intermediate values in order"""
    def __init__(self): self.memo = {}; self.keys = []
    def comp(self, H, blk):
        k = tuple(x.id if tm.isT(x) else ("c", x) for x in list(H) + list(blk))
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = (compress(H, blk, self.keys), H, blk)
        return r[0]
    def bits(self, H, rest, total):
        """finish: chaining value, buffered bytes, total bit length (int or 64-bit term)"""
        m = list(rest) + [0x80]
        while len(m) % 64 != 56: m.append(0)
        m += [cut(total, 8 * i + 7, 8 * i) for i in reversed(range(8))]
        for i in range(0, len(m), 64): H = self.comp(H, m[i:i + 64])
        return [cut(h, 31 - 8 * j, 24 - 8 * j) for h in H for j in range(4)]
    def __call__(self, m):
        m = list(m); H = IV; i = 0
        while i + 64 <= len(m): H = self.comp(H, m[i:i + 64]); i += 64
        return self.bits(H, m[i:], 8 * len(m))
class UHash(Hash):
    """the compression function as an uninterpreted function of its 24 arguments"""
    def comp(self, H, blk):
        k = tuple(x.id if tm.isT(x) else ("c", x) for x in list(H) + list(blk))
        r = self.memo.get(k)
        if r is None:
            if not any(tm.isT(x) for x in list(H) + list(blk)): out = compress(H, blk)
            else: n = len(self.memo); out = [tm.var(f"sha{n}.{i}", 32) for i in range(8)]
            r = self.memo[k] = (out, list(H), list(blk))
        return r[0]
def hmac(h, key, m):
    k = list(key)
    if len(k) > 64: k = h(k)
    k += [0] * (64 - len(k))
    return h([tm.xor(8, x, 0x5c) for x in k] + h([tm.xor(8, x, 0x36) for x in k] + list(m)))
def hkdf_expand(h, prk, info, L):
    t, out, i = [], [], 1
    while len(out) < L: t = hmac(h, prk, t + list(info) + [i]); out += t; i += 1
    return out[:L]
def hkdf(h, salt, ikm, info, L): return hkdf_expand(h, hmac(h, salt, ikm), info, L)
def xmd(h, m, dst, L):
    ell = (L + 31) // 32; dp = list(dst) + [len(dst)]
    b0 = h([0] * 64 + list(m) + [L >> 8 & 255, L & 255, 0] + dp); out = []; b = [0] * 32
    for i in range(1, ell + 1):
        b = h([tm.xor(8, x, y) for x, y in zip(b0, b)] + [i] + dp); out += b
    return out[:L]
