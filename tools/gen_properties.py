#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles/statements)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
F="src/fp.cpp"; G="src/g.cpp"; S="src/signatures.cpp"; A="src/arithmetic.s"; AC="src/arithmetic.cpp"; SC="src/scalar.cpp"; SH="include/bls12-381/scalar.hpp"; PA="src/pairing.cpp"; X="src/sha256.cpp"
prop("C01","Base-field arithmetic is exact and canonical",
 "For all field elements in canonical form, addition, doubling, subtraction, negation, multiplication, squaring and Montgomery conversion return exactly the field result, again in canonical form (an integer below p), and the in-place variants and aliased calls return the same. The unreduced helpers (add, double, subtract without reduction) are exact integer operations whenever the result fits 384 bits, and multiplication stays exact and canonical for operands that went through one such helper (below 4p and with product below 9p^2).",
 ["inputs"],"all pairs of 381-bit field elements (and the documented unreduced operands), all aliasing patterns of the result with the operands",
 "The tests multiply random elements; the final conditional subtraction and the long carry chains have corner cases of probability about 2^-64 to 2^-380.",
 [A,AC,F,"include/bls12-381/arithmetic.hpp"],[("limb primitives",A),("fp methods",F)])
prop("C02","All shipped arithmetic back ends agree on every input",
 "The ADX/BMI2 assembly multiplication, the baseline x86-64 assembly multiplication and the portable C++ field routines compute the same field functions, so a result never depends on the CPU model, on the environment switch that disables BMI2, or on the platform. The run-time selection never picks the ADX/BMI2 code on a CPU without both extensions, nor when the switch (an environment variable whose name starts with BLS_DISABLE_BMI2) is set.",
 ["inputs","configurations"],"all operands of every primitive, for each back end; all values of the CPU feature flags and the switch",
 "A test run executes one back end (plus one with the switch set) on random values; the portable code is never even compiled on x86-64.",
 [A,AC],[("__mul_ex / __multiply / portable _multiply",A),("ifunc resolver",AC)])
prop("C03","Field inversion, square root and residuosity are correct",
 "For every element of Fp and Fp2, inversion returns the multiplicative inverse (and zero for zero); the square root returns true exactly when the element is a square, and then its output squares to the input; the non-residue predicates agree with quadratic character (zero, whose root is zero, is reported as a non-residue by both predicates).",
 ["inputs"],"all elements of Fp and Fp2, including 0, 1, -1 and elements of the base field inside Fp2",
 "Tests try about 100 random elements; exceptional cases (zero, purely real or imaginary elements, iteration-count extremes of the binary inversion) are not sampled by chance.",
 [F,SH],[("fp::inverse, fp::sqrt, fp::isQuadraticNonResidue",F),("fp2::inverse, fp2::sqrt, fp2::isQuadraticNonResidue",F),("exp templates",SH)])
prop("C04","Field-element byte encodings are strict and round-trip",
 "Decoding bytes (big- or little-endian, at every level of the extension tower) with validation succeeds exactly when every coordinate is below p, and yields the element whose canonical encoding is those bytes; without validation or Montgomery conversion the raw integer is kept. Encoding then decoding, and decoding then encoding, are identities, and the order of the coordinates in the bytes is the documented one.",
 ["inputs"],"all byte strings of the fixed sizes (48, 96, 288, 576 bytes), all option combinations",
 "Values at and just above p have negligible probability in random tests, and the tests decode mostly what the library itself encoded.",
 [F,SH],[("fp/fp2/fp6/fp12 fromBytes*/toBytes*",F),("byte templates",SH)])
prop("C05","Extension-tower arithmetic equals the algebraic definition",
 "In Fp2 = Fp[u]/(u^2+1), Fp6 = Fp2[v]/(v^3-(u+1)) and Fp12 = Fp6[w]/(w^2-v), every arithmetic operation (add, subtract, double, negate, conjugate, multiply, square, inverse, non-residue, base-field and sparse multiplications) returns the algebraically defined element in canonical form. In-place variants, aliased operands and value-returning variants return the same result, and equality, zero and one tests are exact.",
 ["inputs"],"all operands in each field of the tower, including zero, one and sub-field elements, all aliasing patterns",
 "Tests check ring axioms on random elements between operations that may share a mistake, and do not exercise lazy-reduction bounds or aliasing systematically.",
 [F],[("fp2 arithmetic",F),("fp6 arithmetic",F),("fp12 arithmetic",F)])
prop("C06","Frobenius maps are the p-power maps, for every power",
 "For each tower field and every power n, the Frobenius map returns x raised to p^n, and the in-place variant agrees with the value-returning one; the curve-level Frobenius and psi endomorphism of G2 apply the corresponding maps to points of the curve.",
 ["inputs"],"all elements of Fp2, Fp6, Fp12 and all powers n (64-bit)",
 "Tests use a couple of powers and only some of the variants; a wrong coefficient for one residue of the power goes unnoticed.",
 [F,G],[("frobeniusMap/frobeniusMapAssign",F),("g2::frobeniusMap, g2::psi",G)])
prop("C07","Exponentiation and cyclotomic operations compute the true power",
 "Raising an element of Fp, Fp2, Fp6 or Fp12 to any multi-limb exponent returns exactly that power (the zero exponent gives one), and on elements of the cyclotomic subgroup the cyclotomic square and the cyclotomic exponentiation agree with ordinary square and exponentiation. The membership test for the target group accepts exactly the elements it should among cyclotomic elements.",
 ["inputs"],"all field elements, all exponents of 1 to 6 limbs (every bit pattern, leading zeros included)",
 "Tests use a few fixed exponents and random elements.",
 [SH,F],[("exp / cyclotomicExp templates",SH),("fp12::cyclotomicSquare, fp4Square, isGtValid",F)])
prop("C08","G1 point operations implement the group law",
 "For all points of E(Fp) in any projective representation, addition, doubling, negation, subtraction and conversion to affine form compute the elliptic-curve group law, including the exceptional cases (infinity as any operand and in any representation, equal points, opposite points), and the result is again on the curve. Equality, zero and on-curve tests depend only on the point represented, and in-place variants agree with value-returning ones under aliasing.",
 ["inputs"],"all pairs of points of E(Fp) in all Jacobian representations, including infinity, P=Q, P=-Q",
 "Random points never collide, so representations with equal or opposite points and zero coordinates are only tested in a few hand-picked cases.",
 [G],[("g1 group law",G)])
prop("C09","G2 point operations implement the group law",
 "For all points of E'(Fp2) in any projective representation, addition, doubling, negation, subtraction and conversion to affine form compute the elliptic-curve group law, including the exceptional cases (infinity as any operand and in any representation, equal points, opposite points), and the result is again on the curve. Equality, zero and on-curve tests depend only on the point represented, and in-place variants agree with value-returning ones under aliasing.",
 ["inputs"],"all pairs of points of E'(Fp2) in all Jacobian representations, including infinity, P=Q, P=-Q",
 "Random points never collide, so representations with equal or opposite points and zero coordinates are only tested in a few hand-picked cases.",
 [G],[("g2 group law",G)])
prop("C10","Scalar and multi-scalar multiplication compute the exact sum",
 "For every point and every scalar of any bit pattern (also zero, and values at or above the group order), scaling in G1 and G2 returns scalar times point, where only the group law is assumed. The multi-scalar sum returns the sum of scalar_i times point_i for every number of points, including none and more scalars or points than the other list, independent of the progress callback.",
 ["inputs"],"all 64- to 384-bit scalars, all points; multi-scalar sums over all scalars for bounded numbers of points",
 "Bucket/window boundaries and top windows are hit by specific scalar patterns and point counts only.",
 [SH,G],[("g1::scale, g2::scale",SH),("g1::weightedSum, g2::weightedSum",G)])
prop("C11","Point decoding accepts exactly the valid canonical encodings",
 "Decoding a compressed point succeeds exactly when the bytes are a canonical encoding: compression flag set, coordinates below p, x on the curve, y chosen by the sign flag, and for infinity no other bit set; the decoded point is on the curve and its coordinates are the encoded ones. Decoding affine or projective coordinates with validation accepts exactly coordinates below p of a point on the curve (or the encoding of infinity: for projective coordinates any x and y with z = 0) and rejects everything else.",
 ["inputs"],"all byte strings of 48, 96, 144, 192 and 288 bytes, all option combinations",
 "Rejection must hold for all malformed inputs; tests contain a few, and almost every random string fails for the same reason.",
 [G,F],[("g1/g2 fromCompressedBytesBE",G),("g1/g2 fromAffineBytes*/fromJacobianBytes*",G)])
prop("C12","Point encoding is canonical and round-trips",
 "Encoding any point of G1 or G2 (any representation, infinity included) and decoding the bytes in the same format returns an equal point, so two different points never share an encoding. Compressed and affine encodings depend only on the point, not on its representation, and compressed encodings carry the flags of the standard format.",
 ["inputs"],"all points on the curves, all representations, all output formats",
 "Tests encode affine points they have just decoded; infinity and non-affine representations are sampled rarely.",
 [G,F],[("g1/g2 toCompressedBytesBE",G),("toAffineBytes*/toJacobianBytes*",G),("isLexicographicallyLargest",F)])
prop("C13","The subgroup test accepts exactly the prime-order subgroup",
 "For every point on the curve, in G1 and in G2, the subgroup test returns true exactly when the point's order divides the prime r (infinity included), whatever its projective representation.",
 ["inputs"],"all points of E(Fp) and E'(Fp2)",
 "The fast endomorphism-based tests must agree with multiplication by r on all of about 2^381 and 2^762 points, of which tests sample a handful outside the subgroup.",
 [G],[("g1::inCorrectSubgroup, g1::glvEndomorphism",G),("g2::inCorrectSubgroup, g2::psi",G)])
prop("C14","Hashing to the curve follows the standard map and lands in the subgroup",
 "For every field element, mapping to G1 or G2 returns the point given by the simplified SWU map, the isogeny and cofactor clearing of RFC 9380, and this point is on the curve and in the prime-order subgroup; exceptional inputs (zero, and those making a denominator vanish) are handled as the standard says. Hashing a message to G2 applies this map to the two field elements obtained by reducing the expanded message, and adds the results.",
 ["inputs"],"all field elements of Fp and Fp2 (exceptional ones included), all expander outputs",
 "Exceptional inputs of the map have probability near 2^-381; tests use the published vectors.",
 [G,S],[("swuMapG1/G2, isogenyMapG1, isogenyMap",G),("clearCofactor",G),("fromMessage",S)])
prop("C15","The pairing computes the optimal ate product for any list of pairs",
 "For any list of point pairs, the pairing computation returns the product of the optimal ate pairings of the pairs (to a fixed power prime to r), a single final exponentiation being applied; it is one for an empty list, unaffected by pairs with infinity added through the pair-adding helper, by the order of pairs, by the representation of the points handed to the helper, and by the progress callback.",
 ["inputs"],"all points of G1 and G2, all lists of pairs up to the stated length",
 "Bilinearity is tested on a few random points; a line function or step that is wrong only for special points, list lengths or positions is not seen.",
 [PA,F],[("doubling_step, addition_step, pre_compute, miller_loop",PA),("final_exponentiation",PA),("calculate, add_pair",PA)])
prop("C16","Signature verification accepts exactly the valid signatures",
 "Single, aggregate and proof-of-possession verification return true exactly when all public keys (for fast aggregate verification: their sum) and the signature are on the curve and in the prime-order subgroup and the defining pairing equation holds for the given keys, messages and signature; mismatched list lengths, and duplicate messages when that check is requested, are rejected. The answer does not depend on the projective representation of the inputs.",
 ["inputs"],"all keys, signatures and messages (messages as arbitrary opaque values), list lengths up to the stated bound",
 "Soundness quantifies over every forged or malformed input; tests try valid signatures and one or two corrupted ones.",
 [S],[("verify, aggregate_verify, pop_verify, pop_fast_aggregate_verify",S)])
prop("C17","Signing and aggregation are consistent with verification",
 "For every secret key and message the signature is the key times the hashed message and the public key is the key times the generator, so honest signatures verify, also when aggregated in any order and number; aggregating public keys, signatures or secret keys returns the exact group or modular sum, the accessor/predicate forms included. Proofs of possession sign the encoded public key under their own domain tag.",
 ["inputs"],"all secret keys (256-bit), all points and list lengths up to the stated bound",
 "Tests use a few keys; agreement must hold for every key and any combination of aggregated items.",
 [S,"include/bls12-381/signatures.hpp"],[("sign, public_key, pop_prove",S),("aggregate_*",S)])
prop("C18","Secret-key parsing and child-key derivation are consistent and in range",
 "Every generated, derived, aggregated or order-reduced secret key is below the group order and equals the specified function of its inputs; reading a key from bytes and writing it back is the identity, and keys out of range are handled as documented. Deriving an unhardened child and then taking its public key gives the same result as deriving the child public key from the parent public key, for every index, in G1, and likewise in G2.",
 ["inputs"],"all 256-bit keys and byte strings, all 32-bit indices, all hash outputs (as arbitrary values)",
 "Tests check fixed vectors; the modular reduction and carry cases depend on values a vector does not reach.",
 [S,SC],[("secret_key, derive_child_sk*, derive_child_g1/g2_unhardened",S),("sk_from_bytes, sk_to_bytes, aggregate_secret_keys",S)])
prop("C19","SHA-256, HMAC, HKDF and message expansion match their standards",
 "For every input the SHA-256 digest is the FIPS 180-4 digest, regardless of how the input is split across updates; HMAC, HKDF extract/expand and the message expander return exactly the values defined by RFC 2104, RFC 5869 and RFC 9380 for all lengths they accept, and report an error, leaving no output, for lengths they do not.",
 ["inputs","histories"],"all message, key, salt, info and tag contents for lengths up to the stated bounds around every block boundary, all splits",
 "Padding and block-boundary handling depends on length modulo 64 and on the split; tests use a few vectors.",
 [X,S],[("sha256",X),("hkdf256_*, xmd_sh256",S)])
prop("C20","Multi-limb integer helpers are exact",
 "Multi-limb addition, multiplication, comparison, equality, bit length, shift and division with remainder return the exact integer result for every operand, or refuse when the result does not fit; division satisfies a = q*b + r with r < b for every nonzero divisor. Reduction modulo the field prime returns the residue of the given integer.",
 ["inputs"],"all operand values for the limb counts the library uses",
 "Carry, borrow and quotient-correction cases of long division occur with probability about 2^-62 on random data.",
 [SH,SC],[("add, multiply, cmp, bitLength, rsh, bn_divn_safe, modPrime",SH),("bn_divn_low and helpers",SC)])
prop("C21","Hexadecimal conversion is exact and safe",
 "Converting bytes to hexadecimal and back is the identity for every byte string; parsing accepts upper and lower case and an optional 0x prefix with the documented value for every digit string. Neither the encoder nor the parser into a vector reads or writes outside its argument or result, whatever the length of the text, the empty text included (a text of odd length gives an empty result); the parser into a fixed-size array stays inside its buffers for every text with at least the digits it needs.",
 ["inputs"],"all byte strings and all digit strings up to the stated length, odd lengths and the empty string included",
 "Tests convert a few fixed strings, none shorter than the prefix.",
 [SC,SH],[("hexToBytes, bytesToHex",SC),("templates",SH)])
prop("C22","Public entry points stay inside their buffers for every input",
 "No public decoding, hashing, key-handling, pairing or multi-scalar function reads or writes outside its inputs, outputs and own storage, divides by zero or shifts out of range, or leaks memory, for any content and any length (empty lists and empty strings included) it accepts.",
 ["inputs"],"all contents and all lengths up to the stated bounds, empty sequences included",
 "Out-of-bounds behaviour appears only for particular lengths or values, and the tests do not run under a memory checker.",
 [SC,S,PA,G,X],[("byte and hex parsers",SC),("hkdf/xmd buffers",S),("ell-coefficient tables and pair lists",PA),("window tables",G)])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[p["id"] for p in P]; assert len(set(ids))==len(ids)
for p in P: assert len(p["title"])<=80,p["title"]
open(os.path.join(here,"properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
