#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules present in checks/."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
 "C01": "symbolic execution of the assembled x86-64 code and LLVM IR; carries and products as integer linear constraints, z3 decides",
 "C02": "symbolic execution of both assembly back ends and the portable IR against one specification; z3 (LIA and bit-vectors)",
 "C03": "symbolic execution of the LLVM IR: the binary inversion by a loop invariant over integer and field polynomials checked at every iteration (z3, linear arithmetic over monomials), roots and residues over powers of the unknown element (z3 decides membership in the lattice of relations)",
 "C07": "symbolic execution of the LLVM IR over powers of one element whose exponents are integer combinations of the exponent bits; z3 decides equality with the exponent; cyclotomic squaring as polynomial identities",
 "C04": "symbolic execution of LLVM IR over bytes and field elements, z3",
 "C10": "symbolic execution of the LLVM IR over a domain of integer combinations of points with the group operations as contracts (C08/C09); z3 decides that the coefficients equal the scalars for all bit patterns",
 "C11": "symbolic execution of the LLVM IR over symbolic bytes and field elements as polynomials; acceptance and coordinates compared with the format by z3",
 "C12": "symbolic execution of the LLVM IR over field elements as polynomials; output bytes compared with the affine coordinates by z3",
 "C13": "symbolic execution of the LLVM IR over a domain of integer combinations of P, its endomorphism images; kernel equality by integer certificates checked by z3",
 "C14": "symbolic execution of the LLVM IR over field polynomials with square-root/residue contracts; every branch compared with the RFC 9380 maps as polynomial identities, message expansion over symbolic bytes, cofactor clearing in the endomorphism domain, z3",
 "C15": "symbolic execution of the LLVM IR; line functions as polynomial identities, the Miller loop and final exponentiation over formal products with exponents in Z[phi]; z3 decides equality on every path",
 "C16": "symbolic execution of the LLVM IR over named points, membership conditions and bilinear pairing products; z3 decides that the returned boolean equals the specification on every path",
 "C17": "symbolic execution of the LLVM IR over integer combinations of points and named hash points; z3 decides sums modulo the group order",
 "C18": "symbolic execution of the LLVM IR over symbolic bytes with SHA-256 compression as an uninterpreted function (C19); z3 decides ranges and equality of the derived keys",
 "C19": "symbolic execution of the LLVM IR over symbolic message bytes; the compression function is proved equal to FIPS 180-4 by z3 (bit-vector equivalence with matched intermediate values), digests compared as terms",
 "C20": "symbolic execution of the LLVM IR; integer relations in linear arithmetic (z3), long division by loop cutting with a checked invariant, shifts and comparisons as bit-vectors",
}
TECH["C22"] = "symbolic execution of the LLVM IR over symbolic bytes and lengths per size, field and group predicates left open on both sides; every memory access, free, shift and division is an assertion decided by z3; counterexamples are replayed under AddressSanitizer"
DEFT = "symbolic execution of the LLVM IR of the current source; z3 discharges the property on every path"
LN = {}
def level_note(p):
    m = open(os.path.join(here, "checks", p.lower() + ".py")).read()
    import ast
    b = ""
    for n in ast.parse(m).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS": b = ast.literal_eval(n.value)
    return ("Every obligation is decided by the solver for all inputs within: " + b + ". Trusted: the executor's instruction semantics, clang's IR generation (gcc builds are only validated by concrete runs), z3; see assumptions in the evidence.")[:1500]
NA = {}
nap = os.path.join(here, "tools", "not_applicable.json")
if os.path.exists(nap): NA = json.load(open(nap))
checks = []; na = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": f"python3-vt run.py {i} --tier quick", "thorough_cmd": f"python3-vt run.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, DEFT), "level": "model_checking", "level_note": level_note(i)})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
man = {"version": 1, "setup_cmd": "python3-vt tools/selftest.py", "checks": checks,
       "hooks": {"guard": "BLSV_HOOKS", "enable": "no hooks are needed: the checks build /repo's unmodified sources together with /verif/harness/api.cpp", "source_commits": []},
       "not_applicable": na}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
