#!/usr/bin/env python3
"""The catalogue of properties: writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, claimed=True, reason=None):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  _t=technique, _n=note, _c=claimed, _r=reason))


TRACE = "TLA+ specification, TLC: trace validation of recorded calls"
LAWS = TRACE + "; laws model-checked on small formats"
EXH = ("Every recorded call is judged by TLC against an exact (unbounded integer) definition in TLA+. All operands for formats up to 6-8 bits, "
       "structured and random ones for wider formats, over 97 configurations of width, exponent bits, holder, fraction type and special values; "
       "further operands are found by a coverage-guided search of the code as it is. ")
TRUST = "Trusts TLC, the Java evaluation of BigNat (compared with its TLA+ definition), and the driver's transcription of arguments and results."

prop("P01", "A posit's bits mean what the posit format says",
     "For every format and every bit pattern, classification (zero, one, NaN, infinity, negative, unit range) and decomposition (sign, regime, exponent, "
     "fraction and their bit counts) agree with the posit definition: a regime run of equal bits, es exponent bits, the rest fraction, missing bits read as zero. "
     "Special patterns are NaN, infinity or NaN with two signed infinities according to the chosen flavour.",
     ["inputs", "configurations"], "every bit pattern of every format (width, exponent bits, holder, fraction type, special value flavour)",
     "The tests decode a handful of values of a few formats; the regime, exponent and fraction cut-offs at both ends differ for each width and es.",
     ["include/posit.h", "include/bithippop.hpp"],
     [("Posit::analyze, Posit::unpack_low, class predicates", "include/posit.h"), ("count of the regime run", "include/bithippop.hpp")],
     LAWS, EXH + TRUST)

prop("P02", "Unpacking and packing are inverse, and packing truncates and saturates",
     "Unpacking any posit gives exactly its value and packing that again gives the same bits. Packing any finite number gives the posit of the same sign with "
     "the largest magnitude not above it; a nonzero number too small gives the smallest posit, one too large the largest finite posit, never zero, NaN or infinity. "
     "NaN, infinity and zero pack to their own patterns.",
     ["inputs", "configurations"], "every posit, every unpacked number (type, sign, exponent, fraction), both packing interfaces",
     "Packing has separate paths for long regimes, cut exponents and rounded fractions; tests only round-trip some values of some formats.",
     ["include/posit.h", "include/unpacked.h"],
     [("Posit::pack_low, unpack_low, unpacked_full2low, unpacked_low2full", "include/posit.h")],
     LAWS, EXH + TRUST)

prop("P03", "float and double convert to the truncated, saturated posit",
     "Constructing a posit from any float or double gives the posit of the same sign with the largest magnitude not above the argument, the smallest posit for a "
     "nonzero argument below it and the largest finite posit for a finite argument above it. Both zeros give zero, NaN gives NaN, infinities give infinity (or NaN "
     "when the flavour has no infinity); denormals count with their true value.",
     ["inputs", "configurations"], "all 2^32 floats and 2^64 doubles, every format",
     "Tests convert a few literals; denormals, extreme exponents and fractions wider than the fraction type are not sampled.",
     ["include/posit.h", "include/unpacked.h", "include/floattraits.hpp"],
     [("unpack_xfloat", "include/unpacked.h"), ("constructors from float and double", "include/posit.h")],
     TRACE, EXH + TRUST)

prop("P04", "A posit converts to the float or double nearest toward zero",
     "Converting any posit to float or double gives the exact value when it is representable and otherwise its truncation toward zero, through denormals down to a signed "
     "zero and up to the largest finite number. NaN gives NaN, infinity gives infinity, zero gives zero.",
     ["inputs", "configurations"], "every posit of every format",
     "Tests look at values that are exact in float; wide posits and posits beyond the float range are not sampled.",
     ["include/posit.h", "include/unpacked.h"],
     [("pack_xfloat, pack_xfloati", "include/unpacked.h"), ("conversion operators", "include/posit.h")],
     TRACE, EXH + TRUST)

prop("P05", "int converts to the truncated posit; a posit to its integer part",
     "Constructing a posit from any int truncates and saturates like every other conversion. Converting a posit to int gives its integer part toward zero, the extreme int "
     "when it does not fit, and 0 for NaN and infinity.",
     ["inputs", "configurations"], "every int, every posit of every format",
     "Tests convert small integers; INT_MIN, powers of two and values beyond the posit or int range are not sampled.",
     ["include/posit.h", "include/unpacked.h"],
     [("unpack_int, pack_int / pack_xfixed", "include/unpacked.h")],
     TRACE, EXH + TRUST)

prop("P06", "Sums and differences of posits are faithful",
     "The sum or difference of two finite posits is the truncation of the exact result when both terms have the same sign, and one of the two posits around the exact "
     "result when they cancel; the exact result itself whenever it is a posit, zero only when it is zero, saturated at both ends. "
     "The operator and its compound assignment agree, for every format whose fraction type is at least as wide as the posit.",
     ["inputs", "configurations"], "every pair of posits of every format",
     "The tests add pairs from small sets; alignment shifts by every distance, cancellation at every depth and carries at every width are out of reach.",
     ["include/unpacked.h", "include/posit.h"],
     [("Unpacked addition: alignment, carry, renormalisation", "include/unpacked.h"), ("Posit operator+ and -", "include/posit.h")],
     LAWS, EXH + TRUST)

prop("P07", "Products of posits are truncated exact products",
     "The product of two finite nonzero posits has the product's sign and is the posit of largest magnitude not above the exact product, saturated at the smallest and the "
     "largest finite posit. It is exact whenever the exact product is a posit, for every format whose fraction type is at least as wide as the posit.",
     ["inputs", "configurations"], "every pair of posits of every format",
     "A double-width product has a carry and a lost-bits boundary per width; the tests multiply a few pairs.",
     ["include/unpacked.h", "include/posit.h"],
     [("Unpacked multiplication", "include/unpacked.h"), ("Posit operator*", "include/posit.h")],
     LAWS, EXH + TRUST)

prop("P08", "Quotients and reciprocals of posits are truncated exact quotients",
     "The quotient of two finite nonzero posits, and the reciprocal of one, is the posit of largest magnitude not above the exact quotient with the quotient's sign, "
     "saturated at both ends. It is exact whenever the exact quotient is a posit; all forms of division and of reciprocal agree.",
     ["inputs", "configurations"], "every pair of posits of every format",
     "Quotients never terminate; the normalisation step depends on which fraction is larger. The tests divide a few pairs.",
     ["include/unpacked.h", "include/posit.h"],
     [("Unpacked division and inversion", "include/unpacked.h"), ("Posit operator/, inv", "include/posit.h")],
     LAWS, EXH + TRUST)

prop("P09", "Fused multiply-add and dot products round only once",
     "fma, sums and differences of products with lazy multiplication enabled, and the dot product compute in the unpacked format and round to a posit once: the result is the "
     "truncation of the exact value whenever the intermediate numbers fit the fraction type, and otherwise of a value within the fraction type's last bits of it. "
     "Special operands behave as product followed by sum; an empty dot product is zero.",
     ["inputs", "configurations"], "every triple of operands, every pair of products, every vector, every format",
     "Double rounding shows only for operands whose product needs more bits than the posit has; tests compute a few sums.",
     ["include/posit.h", "include/unpacked.h"],
     [("fma, dot, PositMul expressions", "include/posit.h"), ("Unpacked arithmetic", "include/unpacked.h")],
     TRACE, EXH + "The error allowed to inexact intermediate results is a bound of a few units of the fraction type's last bit, not the exact value. " + TRUST)

prop("P10", "NaN, infinity and zero follow one algebra in every operation",
     "NaN absorbs in every arithmetic operation; 0/0, infinity minus infinity, infinity/infinity and 0 times infinity are NaN (infinity where the flavour has no NaN); "
     "finite over infinity is zero, nonzero over zero is infinity (NaN where the flavour has none). Signed infinities keep their sign rules, zero is the identity of addition and has no sign.",
     ["inputs", "configurations"], "every special value in every operand position against every posit, all flavours and formats",
     "The tests check a few combinations in one or two flavours; each operation orders its special cases separately.",
     ["include/unpacked.h", "include/posit.h"],
     [("special case prologue of Unpacked + * / and unary minus", "include/unpacked.h"), ("neg, abs, inv, comparison of specials", "include/posit.h")],
     LAWS, EXH + TRUST)

prop("P11", "Comparison is the numeric order; next and prev are neighbours",
     "The six comparison operators, minimum and maximum agree with the numeric order of the values and with each other; NaN is unequal to everything including itself and unordered, "
     "signed infinities are the extremes. The next and previous posit are the adjacent finite values, and stay put at the ends and at special values.",
     ["inputs", "configurations"], "every pair of posits of every format",
     "Tests compare a few pairs; ends of the range and specials in holders wider than the posit are not covered.",
     ["include/posit.h"], [("comparison operators, next, prev, std::min/max", "include/posit.h")],
     LAWS, EXH + "The place of the unsigned infinity in the order is left open. " + TRUST)

prop("P12", "Negation, absolute value, halving and doubling are exact on the value",
     "Negation and absolute value give exactly the opposite and the magnitude, in all the forms offered, and leave NaN and unsigned infinity as they are. Halving and doubling give the exact "
     "scaled value truncated and saturated like any other result.",
     ["inputs", "configurations"], "every posit of every format",
     "Halving moves bits between exponent and regime differently at each boundary; tests try a few values.",
     ["include/posit.h"], [("neg, abs, half, twice", "include/posit.h")],
     LAWS, EXH + TRUST)

prop("P13", "Any program of posit operations only ever sees correct values",
     "In any sequence of operations on posit variables, in place or not and with operands aliasing the destination, each step's result is an allowed result of the operation on the current "
     "values and no other variable changes. Every variable always holds a well-formed posit of its format, whatever led to it.",
     ["histories", "programs", "configurations"], "every program over a few variables: assignment, arithmetic, compound assignment, conversion, sorting, swapping, constants",
     "Tests are single calls on fresh operands: results feeding operations, aliasing and compound assignment are hardly exercised.",
     ["include/posit.h", "include/unpacked.h"],
     [("all operators of Posit and their results' canonical form", "include/posit.h")],
     "TLA+ register machine: model-checked on small formats, real programs validated step by step, specification behaviours replayed in the code",
     "Random programs of 50 steps on 97 configurations are judged step by step (all four registers after every step); the machine's closure invariants are model-checked exhaustively "
     "for formats up to 5 bits; behaviours generated by TLC are replayed in the real code. " + TRUST)

prop("P15", "Constants and numeric limits are the values they name",
     "Zero, one, minus one, two, one half, smallest and largest posit, lowest, NaN and infinity, and the std::numeric_limits members (extremes, epsilon, exponents, has-infinity, has-NaN, radix) are, "
     "in every format, the posits and figures their names say.",
     ["configurations"], "every format and flavour",
     "Constants are computed from shifts of the template parameters; the tests instantiate a few formats.",
     ["include/posit.h"], [("PositTrait constants, numeric_limits<Posit>", "include/posit.h")],
     TRACE, "All constants of 97 configurations are judged by TLC against their definition. Two and one half are only judged where they are representable. " + TRUST)

prop("P18", "Fast bit-level functions have their documented meaning",
     "The fast sigmoid and softplus of a posit are the documented two-bit and one-bit shifts of its position on the posit circle, for negative and positive arguments; "
     "one-minus on the unit range is exactly 1-x without exponent bits, and x(1-x) is the truncated product of the two.",
     ["inputs", "configurations"], "every posit of every format (the unit range for the last two)",
     "Tests evaluate a few positive arguments of one format; holders wider than the posit need masking.",
     ["include/posit.h"], [("pseudosigmoid, pseudosoftplus, urOneMinus, urDeltaPs", "include/posit.h")],
     TRACE, EXH + TRUST)

sys.path.insert(0, os.path.join(V, "tools"))
try:
    import catalog2
    catalog2.add(prop, TRACE, LAWS, EXH, TRUST)
except ImportError:
    pass

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3 run.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % p["id"],
               technique=p["_t"], level="model_checking", level_note=p["_n"]) for p in P if p["_c"]]
man = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks,
           not_applicable=[dict(property=p["id"], reason=p["_r"]) for p in P if not p["_c"]],
           notes="No hooks in /repo: the public interface exposes the abstract state. Drivers are compiled from /repo's headers and sources by each check.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
