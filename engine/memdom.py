"""Memory-safety runs: field and group values are unknown, every predicate on them goes either way, every access is checked.
A hooked operation still reads and writes its operands (with the bounds checks), only the values are arbitrary."""
import re
from . import terms as tm
from .exec import *
from .ref import *
from .ring import L0
SZ = {"fp": 48, "fp2": 96, "fp6": 288, "fp12": 576, "g1": 144, "g2": 288}
VAL = "add subtract multiply dbl negate square inverse conjugate mulByNonResidue mulByB mulByFq mulBy01 mulBy1 mulByBaseField frobeniusMap cyclotomicSquare affine toMont fromMont phi glvEndomorphism psi exp cyclotomicExp scale clearCofactor isogenyMap".split()
ASG = "addAssign subtractAssign multiplyAssign doubleAssign squareAssign mulBy01Assign mulBy014Assign frobeniusMapAssign cyclotomicSquareAssign div2 mul2".split()
PRED = "isZero isOne equal isEven isOdd isAffine isOnCurve inCorrectSubgroup isQuadraticNonResidue isLexicographicallyLargest sqrt cmp isValid isGtValid sign".split()
LEVEL = {1: (), 2: ("fp",), 3: ("fp", "fp2"), 4: ("fp", "fp2", "fp6", "fp12"), 5: ("fp", "fp2", "fp6", "fp12", "g1", "g2")}
class MemDom:
    def __init__(self, ex, level, skip=()):
        self.ex = ex; ex.shift_check = True; ex.merge_val = self.merge
        for d, h in L0.items():
            n = ex.mod.bydem.get(d)
            if n: ex.hooks[n] = self.op(["w48"] + ["r48"] * (d.count(",")), None)
        for d, n in ex.mod.bydem.items():
            m = re.match(r"(?:bls12_381::\w+ )?bls12_381::(fp|fp2|fp6|fp12|g1|g2)::(\w+)(<\d+ul>)?\((.*)\)( const)?$", d)
            if not m or m[1] not in LEVEL[level] or m[2] in skip or f"{m[1]}::{m[2]}" in skip: continue
            ty, nm, _, ps, c = m.groups(); a = self.params(ps)
            if a is None: continue
            s = SZ[ty]
            if nm in VAL and c: ex.hooks[n] = self.op([f"w{s}", f"r{s}"] + a, None)
            elif nm in ASG and not c: ex.hooks[n] = self.op([f"b{s}"] + a, 64 if nm == "mul2" else None)
            elif nm in PRED and c: ex.hooks[n] = self.op([f"r{s}"] + a, "cmp" if nm == "cmp" else 1)
    def params(self, ps):
        out = []
        for p in [x for x in re.split(r",\s*(?![^<]*>)", ps) if x]:
            m = re.match(r"bls12_381::(fp|fp2|fp6|fp12|g1|g2)( const)?&$", p)
            if m: out.append(("r" if m[2] else "w") + str(SZ[m[1]])); continue
            m = re.match(r"std::array<unsigned long, (\d+)ul> const&$", p)
            if m: out.append(f"r{8 * int(m[1])}"); continue
            if p == "unsigned long const&": out.append("r8")
            elif p in ("unsigned long", "long", "bls12_381::from_mont"): out.append("-")
            else: return None
        return out
    def merge(self, ex, w, c, a, b): return tm.fresh("any", w) if w >= 128 else None
    def fill(self, st, p, n):
        k = 0
        while k < n:
            c = 48 if (n - k) % 48 == 0 else 8
            if not self.ex.write_int(st, self.ex.padd(p, k), c, tm.fresh("any", 8 * c), cell=c): return False
            k += c
        return True
    def op(self, acts, ret):
        acts = [(a[0], int(a[1:] or 0)) for a in acts]
        def h(ex, st, args, fn):
            for (k, n), p in zip(acts, args):
                if k in "rb" and not (self.checkptr(st, p) and ex.read_int(st, p, n) is not None): return []
            for (k, n), p in zip(acts, args):
                if k in "wb" and not (self.checkptr(st, p) and self.fill(st, p, n)): return []
            if ret is None: return None
            if ret == "cmp": t = tm.fresh("cmp", 2); return tm.ite(8, tm.eq(2, t, 0), 0, tm.ite(8, tm.eq(2, t, 1), 1, 255))
            return tm.fresh("pred", ret)
        return h
    def checkptr(self, st, p):
        if isinstance(p, (Ptr, SymPtr, PtrIte)): return True
        self.ex.err(st, "badptr", repr(p)); return False
