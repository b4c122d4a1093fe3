"""C09: the G2 operations implement the group law."""
from checks import curve, c05
BOUNDS = "all pairs of points of E'(Fp2) in every Jacobian representation (infinity with arbitrary X,Y); the generic, equal and opposite cases cover all relative positions; every aliasing of operands and result"
OUTSIDE = "coordinates that are not canonical; addition of triples that are not on the curve (their group law is undefined) is only constrained where x-coordinates differ"
ASSUMPTIONS = c05.ASSUMPTIONS + ["the chord-and-tangent formulas are a group law on y^2 = x^3 + b (textbook); neither curve has a point of order 2 (both group orders are odd)"]
def obligations(ctx):
    ctx.mod(); ctx.nat
    return curve.obs("g2")
