"""More properties: the other number types of the library."""


def add(prop, TRACE, LAWS, EXH, TRUST):
    prop("P16", "Unpacked numbers compute and convert exactly up to their fraction word",
         "Conversion of any float, double, half, small float or fixed point value to the unpacked form keeps its leading bits, and conversion to any of them truncates toward zero, saturates "
         "at the largest finite value and produces denormals where the format has them; specials map to specials, fixed point saturates and takes NaN and infinity to zero. "
         "Unpacked sums, products, quotients and reciprocals are exact when the fraction word can hold them with its guard bits, and otherwise within its last few bits of the exact value; "
         "equality is equality of values, and converting between two float formats is truncation.",
         ["inputs", "configurations"], "every unpacked number for 8, 16, 32 and 64 bit fraction words, every word of six float formats, every fixed point value of thirteen formats",
         "Tests round-trip a few words; the paths differ for every combination of fraction word and format (wider, narrower, denormal, overflow).",
         ["include/unpacked.h", "include/floattraits.hpp", "include/fixedtraits.hpp"],
         [("Unpacked arithmetic, normalized, inv", "include/unpacked.h"), ("pack_xfloati, unpack_xfloati, pack_xfixed, unpack_xfixed, convertfloats", "include/unpacked.h"),
          ("float format constants", "include/floattraits.hpp")],
         TRACE, "Calls on four fraction word sizes, six float and thirteen fixed formats are judged by TLC against exact values: all operands for 8-bit words, structured and random ones otherwise. "
         "Inexact arithmetic results are only bounded, not pinned to a value. " + TRUST)

    prop("P17", "Emulated small floats compute as the host float and then truncate",
         "An emulated binary format of any exponent and fraction width computes +, -, *, / , reciprocal, halving and doubling as the host float or double does (round to nearest even) and truncates the result "
         "to the format, with denormals where it has them, saturating finite results beyond its range; the formats as wide as the host are exactly the host's arithmetic. NaN, infinities and comparisons follow IEEE, "
         "negation and absolute value only touch the sign bit, conversions truncate, constants are what they name.",
         ["inputs", "configurations"], "every pair of words of every emulated format (exponent bits, fraction bits, with and without denormals, float and double host)",
         "The tests try a few values of two formats; denormals, overflow and truncation boundaries of each format are out of reach.",
         ["include/anyfloat.hpp", "include/unpacked.h", "include/floattraits.hpp"],
         [("anyfloat_emu operators and conversions", "include/anyfloat.hpp"), ("any_floattrait constants", "include/floattraits.hpp")],
         TRACE, "Ten formats; all pairs for the 8-bit ones, structured and random words for the others, each judged by TLC against exact rounding. The sign of zero is left open, and a*b+c may be fused by the compiler. " + TRUST)

    prop("P19", "Posits computed through a host float are the host result, truncated",
         "A posit type that computes in float or double returns, for every operation, the truncation to the posit of the host's correctly rounded result whenever the host can represent the posits and their products; "
         "its decoding, conversions, negation, neighbours, order, constants, limits and fast functions are those of the posit format, with the same special values.",
         ["inputs", "configurations"], "every pair of posits of every format and host type",
         "The tests print a few values; nothing compares results over the range or in the different flavours.",
         ["include/positf.h", "include/posit.h", "include/unpacked.h"], [("PositF operators, conversions, numeric_limits", "include/positf.h")],
         TRACE, "Fourteen configurations, all pairs for the smallest, structured and random patterns for the others, judged by TLC against exact host rounding followed by posit truncation. "
         "Comparison with NaN is left open for this type. " + TRUST)

    prop("P20", "Half floats through hardware or software conversion are correctly rounded",
         "A half float converts to float and double exactly, and float to half rounds to nearest even with hardware conversion and truncates with the software one. Sum, product, quotient, square root, "
         "reciprocal, halving and square are the float result so converted, the remainder is exact, comparisons are IEEE, negation and absolute value touch only the sign bit.",
         ["inputs", "configurations"], "every half (exhaustively), every pair of halves, every float, both implementations",
         "A test converts some values; only one of the two implementations is compiled in a build.",
         ["include/float16native32.hpp", "include/unpacked.h", "include/floattraits.hpp"],
         [("float16nto32, float32to16n, float16n32 operators", "include/float16native32.hpp"), ("half_trait", "include/floattraits.hpp")],
         TRACE, "All 65536 halves in every unary operation and structured and random pairs and floats, in a build with F16C and one without, judged by TLC against exact rounding (square roots included). "
         "a*b+c may be fused by the compiler. Without F16C on the machine only the software implementation runs. " + TRUST)

    prop("P14", "Tabulated 8, 10 and 12 bit posits compute as their format says",
         "The posit types that compute through lookup tables agree, for every operand and pair of operands, with the posit format they are named after: sum, difference, product and quotient are the truncation of the exact "
         "result, reciprocal, halving, doubling, square and power of two likewise, negation, absolute value, minimum, maximum and the order are those of the values, conversions truncate, "
         "constants and numeric limits are the values they name, class predicates classify, and the fast sigmoid and text forms are those of the generic posit. This holds for the tables shipped, for tables freshly generated, and for other exponent sizes and special values chosen with POSIT8_SPEC, POSIT10_SPEC and POSIT12_SPEC.",
         ["inputs", "configurations"], "every pair of 8 and 10 bit patterns, structured and random pairs of 12 bit ones, every single pattern, every float",
         "The tables have up to 16 million entries produced by a separate generator program; tests look at a few and cannot tell a wrong entry or a generator that disagrees with the type.",
         ["include/posit8.hpp", "include/posit10.hpp", "include/posit12.hpp", "src/posit8.cpp", "src/posit10.cpp", "src/posit12.cpp", "src/posit8_gen.cpp", "src/posit10_gen.cpp", "src/posit12_gen.cpp"],
         [("table lookups and conversions", "include/posit8.hpp, posit10.hpp, posit12.hpp"), ("table generators", "src/posit8_gen.cpp, posit10_gen.cpp, posit12_gen.cpp")],
         TRACE, "The generators are compiled and run from the current tree; both their tables and the tracked ones are exercised. Each call is judged by TLC against exact values. Comparison of NaN and the order of infinity are left open; powers of two "
         "are allowed 2^-20 relative slack for the C library. " + TRUST)

    prop("P21", "The text of a number is its value, or its raw pattern when asked for",
         "Writing a posit to a stream in decimal mode writes its value as a float with the precision of the stream, in hexadecimal mode its bit pattern as an integer, in octal mode its unpacked form; unpacked numbers and the posits computed "
         "through a host float write their value and fields. Writing never changes the stream's format, precision or the text that follows.",
         ["inputs", "configurations"], "every number of every type, every stream base, precision and preceding stream content",
         "Tests print values for a person to read; nothing parses the text back or looks at the stream after it.",
         ["include/posit.h", "include/positf.h", "include/posit8.hpp", "include/posit10.hpp", "include/posit12.hpp", "include/unpacked.h"],
         [("operator<<", "include/posit.h, positf.h, posit8.hpp, posit10.hpp, posit12.hpp"), ("operator<< for Unpacked", "include/unpacked.h")],
         TRACE, "The text is parsed into an exact decimal in TLA+ and compared with the value to the digits printed; all patterns of the small types, structured and random ones otherwise. " + TRUST)

    prop("P22", "Results do not depend on compiler, language level, optimisation or build mode",
         "The same operation on the same operands gives the format's result however the library is compiled: g++ or clang, C++11 to C++20, with or without optimisation, bit manipulation instructions and 128-bit integers, and evaluated by the compiler in a constant "
         "expression where the operation is declared constexpr.",
         ["configurations", "inputs"], "every supported build and every operation of posits, unpacked numbers and emulated floats",
         "The tests are compiled once with one compiler and one set of flags; code selected by the compiler, instruction set or language level is never compiled, let alone run.",
         ["include/posit.h", "include/bithippop.hpp", "include/unpacked.h", "include/typehelpers.hpp", "include/floattraits.hpp", "include/anyfloat.hpp"],
         [("conditional implementations and intrinsics", "include/bithippop.hpp"), ("constexpr operations", "include/posit.h, unpacked.h")],
         TRACE, "Six run-time builds and one compile-time evaluation feed the same specification as the other checks. A build the tree does not support is skipped except those that must compile. " + TRUST)

    prop("P23", "Bit helpers extract, place and count exactly the bits they name",
         "For every word type, offset and length in range: extracting, placing and masking a bit field touches exactly those bits, counting leading zeros and finding the leftmost one are right for every word (including all zeros and all ones), "
         "absolute values and sign splitting are exact, moving a left-aligned word between widths keeps its leading bits, and a float's bits are those of its encoding.",
         ["inputs", "configurations"], "every word of 8 and 16 bits, structured and random wider words, every field position and length",
         "They are templates over word sizes and constants with separate code per width and instruction set; tests use a few.",
         ["include/bithippop.hpp", "include/floatconst2bits.hpp"],
         [("bitset_get, bitset_part, findbitleftmostC, bitmask, pcabs", "include/bithippop.hpp"), ("cast_msb, cast_right_to_left", "include/bithippop.hpp"), ("float2bits, count_leading_zeroes", "include/floatconst2bits.hpp")],
         TRACE, "Calls judged by TLC against definitions over bit sequences. " + TRUST)

    prop("P24", "Tabulated 8-bit floats compute as the float format they tabulate",
         "An 8-bit float that computes through lookup tables (5 or 4 exponent bits) returns, for every pair of patterns, the sum, difference, product, quotient, minimum and maximum of the emulated float it tabulates: the exact result rounded to the format, "
         "with its infinities, NaNs and denormals. Comparisons are those of the values, negation and absolute value touch only the sign, reciprocal, halving, doubling, square and power of two are the format's, conversions from and to int, float and double round "
         "correctly, the named constants are the values they name and the text form is the number.",
         ["inputs", "configurations"], "every pair of patterns of both formats, every float and int",
         "The tables are produced by a separate generator program and the type is not compiled by any stable test.",
         ["include/binary8.hpp", "src/binary8.cpp", "src/binary8_gen.cpp", "include/anyfloat.hpp"],
         [("table lookups, conversions and constants", "include/binary8.hpp"), ("table generator", "src/binary8_gen.cpp")],
         TRACE, "The generator is compiled and run from the current tree; all pairs of patterns of both formats are judged by TLC against exact rounding. The sign of zero and NaN payloads are left open. " + TRUST)

    prop("P25", "Posits processed thirty-two at a time equal the scalar posits",
         "Each of the 32 lanes of a SIMD posit vector is an 8-bit posit: for every pair of patterns, in every lane, sum, difference, product, quotient, and for every pattern negation, absolute value, reciprocal, halving, doubling, "
         "squaring and the classification masks are what the posit format defines for that lane alone. Vectors made from floats, ints or posits hold their conversions, conversion to float gives the posits' values, and the text form "
         "lists the numbers of the lanes in order. This holds for every format the 8-bit tables are generated for, and making or using a vector writes nothing to the standard output.",
         ["inputs", "configurations"], "every pair of patterns, in every lane, for every format of the tables",
         "No test compiles the SIMD type; the lanes are gathered through shuffles and tables, and a lane-dependent error shows for one position and one operand only.",
         ["include/simdposit8.hpp", "src/simdposit8.cpp", "src/posit8_gen.cpp"],
         [("vector operations, masks and conversions", "include/simdposit8.hpp"), ("constants and text", "src/simdposit8.cpp")],
         TRACE, "Four formats with freshly generated tables; every pair of patterns with varying lanes, each lane judged by TLC as one posit call; gauss2 lane by lane as its chain of rounded operations; an index outside an array stops the driver and is a violation. Needs AVX2: on a machine without it nothing is run and the evidence says so. " + TRUST)

    prop("P26", "Posits work as the scalar type of Eigen matrices",
         "With the Eigen adaptor included, coefficient-wise operations on matrices of posits give each coefficient the posit result, comparisons and casts are the scalar ones, sums, products and dot products of coefficients equal some order of rounded posit "
         "operations, matrix products equal such dot products, least and greatest coefficients are found, and the traits Eigen asks for (epsilon, precision, highest, lowest, digits) describe the posit format. "
         "The exact dot product and the fused product of the adaptor round once.",
         ["inputs", "configurations"], "every matrix of posits, every evaluation order of a reduction, every posit format",
         "The tests do not include Eigen; Eigen picks the evaluation order and instantiates operators and traits no test uses.",
         ["include/positeigen.h", "include/posit.h"],
         [("NumTraits and the functions found by Eigen", "include/positeigen.h"), ("operators, numeric_limits, compound assignment", "include/posit.h")],
         TRACE, "Eight formats, random and structured vectors and matrices; for a reduction of up to five terms TLC computes the set of results of all orders of rounded operations. "
         "Decompositions are not covered: Posit has no -= and no square root that compiles. Skipped where /usr/include/eigen3 is absent. " + TRUST)

    prop("P27", "The posit listing tool prints the table of the format it was built for",
         "For every format it is built for, the listing has one line for every pattern, in order; the signed and unsigned patterns, bits, regime, exponent, fraction and length columns are the fields of the pattern, "
         "the value column is the posit's value, and the reciprocal, double and half columns are those operations' results; the heading names the format and its extreme values. Whichever columns are asked for, and in the binary dump, the table is the same.",
         ["inputs", "configurations"], "every pattern of every format the tool is compiled for, every output format",
         "The tool is not built by any stable test; formats beyond the default one were never printed.",
         ["src/listposits.cpp", "include/posit.h"],
         [("the listing", "src/listposits.cpp")],
         TRACE, "The tool is compiled for nine formats and every line of its output is parsed by TLC: decimal text as exact decimals, bit strings as patterns. " + TRUST)

    prop("P28", "The MATLAB functions return the posits of their arguments' elements",
         "Conversion to posits takes double, single and half arrays to the 8-bit posits of their elements, conversion back gives the posits' values as double, single or half, and the binary and reciprocal functions apply the posit operation to every element, "
         "for real and complex arrays of any shape. The result has the class, complexity and dimensions of the arguments; arguments of the wrong class, number, size or complexity are refused with a message and no result; nothing outside the result is written.",
         ["inputs", "configurations"], "every element value, every array shape, real and complex, every kind of bad argument",
         "MATLAB is not present where the tests run; the functions were never compiled by them.",
         ["src/floatTop8.cpp", "matlab/p8Tofloat.cpp", "matlab/p8binop.cpp", "matlab/p8unop.cpp"],
         [("float arrays to posits", "src/floatTop8.cpp"), ("posits to floats", "matlab/p8Tofloat.cpp"), ("operations", "matlab/p8binop.cpp"), ("reciprocal", "matlab/p8unop.cpp")],
         TRACE, "The functions are compiled against a stand-in for MATLAB's interface with guarded arrays; all pairs of posits, all 8-bit posits, sampled floats and all kinds of bad argument are judged by TLC. "
         "What an unknown operator returns beyond its message is left open. " + TRUST)

    prop("P29", "Software floats compute as the IEEE format they name",
         "The wrapped half and single floats give sums, differences, products, quotients, square roots, remainders and fused products that are the exact results rounded once to nearest even, negation flips the sign and comparisons are those of the values "
         "(any comparison with NaN is false), conversions from and to integers, floats, doubles and halves round or convert exactly, constants and numeric_limits describe the format, text shows the value after the name of the format, "
         "and the tabulated and computed powers of two are the true ones rounded to nearest (by way of the host's float or double).",
         ["inputs", "configurations"], "every operand of the software half and single types, and every entry of the generated table",
         "No test builds the wrapper; each operator hands its operands to a C library, and a swapped operand, a wrong constant or a value read as a pattern shows for some operands only.",
         ["include/softfloat.hpp", "include/exp2t.hpp", "src/softfloat_gen.cpp"],
         [("operators, conversions, constants, numeric_limits", "include/softfloat.hpp"), ("powers of two", "include/exp2t.hpp"), ("the table of powers", "src/softfloat_gen.cpp")],
         TRACE, "The SoftFloat library is not present; the wrapper is compiled against a stand-in for its interface made of the compiler's half and single floats, which TLC's exact arithmetic judges too. Half operands are complete for unary operations. " + TRUST)

    prop("P30", "MATLAB's half precision functions convert to and from halves as documented",
         "Singles and doubles become the nearest half (halves of the last place away from zero, beyond the range infinity, below it a zero, NaN to NaN), integers the half of their single, and halves become exactly the single or double they stand for, the integer nearest "
         "to them, or a truth value, for real and complex arrays of any shape; the standalone functions give the same. Arguments of the wrong class, number or kind are refused with a message and no result; arguments stay as they were; nothing outside the result is written.",
         ["inputs", "configurations"], "every element value, every array shape, real and complex, every class name, every kind of bad argument",
         "MATLAB is not present where the tests run; the functions were never compiled by them, and they work on words whose special cases a few numbers do not meet.",
         ["matlab/halfprecision/halfprecision.c", "matlab/halfprecision/ieeehalfprecision.c"],
         [("the MATLAB function", "matlab/halfprecision/halfprecision.c"), ("the standalone functions", "matlab/halfprecision/ieeehalfprecision.c")],
         TRACE, "Both files are compiled against a stand-in for MATLAB's interface with guarded arrays; all halves (sampled runs of 64 in the quick tier), and words around every half, midpoint and denormal are judged by TLC. The sign of zero and NaN payloads are left open. " + TRUST)

    prop("P31", "Unum arithmetic returns the shortest arc of points covering every result",
         "An alphabet (an increasing power-of-two sequence of rationals from 1; anything else is refused) makes a circle of points: its values, their inverses and opposites, 0 and one infinity are exact, the open gaps between neighbours are the other points. "
         "A number converts to the point that contains it (NaN is refused), negation, inversion, absolute value, neighbours and predicates agree with that, and sum, difference, product and quotient of two points are the shortest arc of points that covers every result of "
         "reals of the operands: infinity plus infinity and zero times infinity are everything, infinity absorbs everything else. Arcs are negated, inverted, complemented, listed and printed as the sets of points they are.",
         ["inputs", "configurations"], "every pair of points and every arc of the built-in rational alphabets p1, p2, p4, p8, sampled p8a and p16a, and every alphabet of rationals",
         "No test runs the module; the ends of an arc depend on the signs and exactness of both operands and on which gap the exact result falls into.",
         ["scripts/punum.py"],
         [("alphabets and conversion", "scripts/punum.py"), ("Pnum operations", "scripts/punum.py"), ("Pbound arcs", "scripts/punum.py")],
         TRACE,
         "Pnum.tla defines points, arcs and arithmetic by intervals of rationals; TLC proves on three small alphabets (four in the thorough tier) that each arc covers every sampled result and nothing else. All pairs and arcs of the alphabets of up to 64 points are judged, "
         "larger ones sampled around the special points. sqrt, exp, pow, squares and the alphabet of floats are unfinished in the code and left out. " + TRUST)
