"""C11: point decoding accepts exactly the valid canonical encodings."""
from checks.codec import *
BOUNDS = "every byte string of 48 and 96 (compressed), 96 and 192 (affine), 144 and 288 bytes (projective), every combination of the decoding options and the default options"
OUTSIDE = "gcc code generation (validated by running)"
ASSUMPTIONS = ["field element decoding, multiplication and inversion by their contracts: C01, C03, C04", "sqrt returns a root exactly for squares: C03", "x^3 + b has no root in the field (Euler criterion computed by the check), so y = 0 does not occur"]
def obligations(ctx):
    ctx.mod(); ctx.nat; obs = []
    for ty in ("g1", "g2"):
        no_two_torsion(ty)
        obs.append(Ob(f"{ty}.fromCompressedBytesBE", comp_ob(ty).go, deadline=400, weight=3))
        for kind in ("Jacobian", "Affine"):
            for be in (1, 0):
                for cv in (1, 0):
                    for mo in (1, 0): obs.append(Ob(f"{ty}.from{kind}Bytes{'BE' if be else 'LE'}/check={cv},mont={mo}", dec_ob(ty, kind, be, cv, mo, "opt").go, deadline=400))
                obs.append(Ob(f"{ty}.from{kind}Bytes{'BE' if be else 'LE'}/default", dec_ob(ty, kind, be, 0, 1, "default").go, deadline=400))
    return obs
