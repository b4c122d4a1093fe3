"""C06: Frobenius maps raise to the power p^n for every exponent; the twisted Frobenius of G2 is the untwist-Frobenius-twist map."""
from engine.check import Ob
from engine.ringob import *
from checks import c05
BOUNDS = "all canonical field elements; exponents 0..24 (two full periods) and the exponents listed in POWERS (up to 2^64-1); g2::frobeniusMap with counts 0..12"
OUTSIDE = "exponents not listed (the functions depend on the exponent only through its residue modulo 12 and a switch); negative counts of g2::frobeniusMap"
ASSUMPTIONS = c05.ASSUMPTIONS
POWERS = list(range(25)) + [35, 36, 41, 63, 127, 255, 600, 65535, 2**31, 2**32 + 1, 2**32 + 11, 2**63, 2**64 - 1, 2**64 - 2, 2**64 - 7, 2**64 - 9]
CX = (XI ** ((P - 1) // 3)).inv(); CY = (XI ** ((P - 1) // 2)).inv()
def psi(v, n):
    for _ in range(n): v = [v[0].conj() * cst(v[0], CX), v[1].conj() * cst(v[0], CY), v[2].conj()]
    return v
def obligations(ctx):
    ctx.mod(); ctx.nat
    obs = []
    F = {"fp2": lambda v, n: [f2frob(v[0], n)], "fp6": lambda v, n: f6frob(v, n), "fp12": lambda v, n: f12frob(v, n)}
    for ty, f in F.items():
        for n in POWERS:
            obs.append((f"{ty}.frobeniusMap({n})", RingCase(f"h_{ty}_frobeniusMap", [("o", ty), ("i", ty), ("int", n)], spec=lambda v, f=f, n=n: {0: f(v[0], n % 12)})))
            obs.append((f"{ty}.frobeniusMapAssign({n})", RingCase(f"h_{ty}_frobeniusMapAssign", [("io", ty), ("int", n)], spec=lambda v, f=f, n=n: {0: f(v[0], n % 12)})))
            if n < 12: obs.append((f"{ty}.frobeniusMap({n})/o=a", RingCase(f"h_{ty}_frobeniusMap", [("io", ty), ("i", ty), ("int", n)], alias={1: 0}, spec=lambda v, f=f, n=n: {0: f(v[1], n)})))
    for n in range(13): obs.append((f"g2.frobeniusMap({n})", RingCase("h_g2_frobeniusMap", [("o", "g2"), ("i", "g2"), ("int", n)], spec=lambda v, n=n: {0: psi(v[0], n)})))
    obs.append(("g2.psi", RingCase("h_g2_psi", [("o", "g2"), ("i", "g2")], spec=lambda v: {0: psi(v[0], 1)})))
    obs.append(("fp2.conjugate", RingCase("h_fp2_conjugate", [("o", "fp2"), ("i", "fp2")], spec=lambda v: {0: [v[0][0].conj()]})))
    obs.append(("fp12.conjugate=frobenius6", RingCase("h_fp12_conjugate", [("o", "fp12"), ("i", "fp12")], spec=lambda v: {0: f12frob(v[0], 6)})))
    return [Ob(n, rc.go, deadline=120) for n, rc in obs]
