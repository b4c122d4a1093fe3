"""C12: point encoding is canonical; with C11 it round-trips."""
from checks.codec import *
BOUNDS = "every point in every representation (including every representation of infinity), every format, both conversion options, span, array and default forms"
OUTSIDE = "coordinates that are not canonical field elements; gcc code generation (validated by running)"
ASSUMPTIONS = ["field arithmetic by the contracts of C01 and C03", "the encoder is shown to write x, y and the sign of y of the affine point; C11 shows that the decoder maps exactly these bytes to that point, so that decoding an encoding returns an equal point"]
def obligations(ctx):
    ctx.mod(); ctx.nat; obs = []
    for ty in ("g1", "g2"):
        for form in ("span", "array"): obs.append(Ob(f"{ty}.toCompressedBytesBE/{form}", enc_ob(ty, "Compressed", 1, 1, form).go, deadline=400, weight=3))
        for kind in ("Jacobian", "Affine"):
            for be in (1, 0):
                for fm in (1, 0):
                    for form in ("span", "array"): obs.append(Ob(f"{ty}.to{kind}Bytes{'BE' if be else 'LE'}/mont={fm},{form}", enc_ob(ty, kind, be, fm, form).go, deadline=400))
                obs.append(Ob(f"{ty}.to{kind}Bytes{'BE' if be else 'LE'}/default", enc_ob(ty, kind, be, 1, "default").go, deadline=400))
    return obs
