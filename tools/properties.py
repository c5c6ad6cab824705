#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/properties.py)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

IE = "src/ieee.rs"; LB = "src/lib.rs"; PP = "src/ppc.rs"
ALLF = "half, bfloat, single, double, quad, x87 80-bit extended, 8-bit E5M2 and 8-bit E4M3FN"

prop("C01", "Addition and subtraction are correctly rounded in every IEEE-style format",
 "For every pair of operands and each of the five rounding modes, adding or subtracting returns the exact real sum or difference rounded once to the format: overflow goes to infinity (to NaN in the format without infinities) or to the largest finite value as the mode demands, an exact zero result is +0 except toward-negative (or the common sign of two like-signed zeros), and infinities follow IEEE-754. "
 "The returned status is exact: OK when the result is exact, INEXACT when it is not, with OVERFLOW added when an overflow delivers infinity/NaN and UNDERFLOW added when the delivered inexact result is subnormal or zero, and INVALID_OP alone for infinity minus infinity.",
 ["inputs"], f"all operand bit patterns of {ALLF} x 5 rounding modes, both operations",
 "tests/ieee.rs samples about 20 special operand pairs per format in (almost only) round-to-nearest plus one exhaustive 8-bit add; cancellation, sticky bits, subnormal results and directed modes in the wide formats are an input space of up to 2^256 pairs.",
 [IE], [("exponent alignment, borrow and lost-fraction handling", IE+" sig::add_or_sub"), ("normalisation, rounding, overflow and underflow", IE+" IeeeFloat::normalize"), ("special operand table and zero sign", IE+" add_r / sub_r")],
 ["value bits and status returned by add_r/sub_r for operands given as bit patterns"])
prop("C02", "Multiplication is correctly rounded in every IEEE-style format",
 "For every pair of operands and each rounding mode, multiplication returns the exact real product rounded once to the format, with the sign the exclusive-or of the operand signs, the same overflow, subnormal and status rules as addition, and zero times infinity giving NaN with INVALID_OP alone.",
 ["inputs"], f"all operand bit patterns of {ALLF} x 5 rounding modes",
 "The tests multiply a fixed table of special values, nearly all in one rounding mode; products that land on ties, at the subnormal threshold or just at overflow are not sampled.",
 [IE], [("wide product and lost fraction", IE+" sig::mul, sig::widening_mul"), ("rounding", IE+" IeeeFloat::normalize"), ("special operands and sign", IE+" mul_r")],
 ["value bits and status returned by mul_r"])
prop("C03", "Division is correctly rounded in every IEEE-style format",
 "For every pair of operands and each rounding mode, division returns the exact real quotient rounded once to the format, with the sign the exclusive-or of the operand signs and the same overflow, subnormal and status rules as addition. A non-zero finite value over zero gives a signed infinity (NaN in the format without infinities) with DIV_BY_ZERO alone, and 0/0 and infinity/infinity give NaN with INVALID_OP alone.",
 ["inputs"], f"all operand bit patterns of {ALLF} x 5 rounding modes",
 "The long-division, divide-by-power-of-two and three short-division paths are selected by the divisor's bit pattern; the tests divide a small table of special values only.",
 [IE], [("division paths and remainder-to-lost-fraction", IE+" sig::div"), ("rounding", IE+" IeeeFloat::normalize"), ("special operands and sign", IE+" div_r")],
 ["value bits and status returned by div_r"])
prop("C04", "Fused multiply-add rounds exactly once",
 "For every three operands and each rounding mode, fused multiply-add returns the exact value of a*b+c rounded once to the format, with the overflow, subnormal, status and exact-zero sign rules of addition. An infinite addend wins over any finite product without a spurious overflow, and zero times infinity, or opposite infinities meeting in the addition, give NaN with INVALID_OP.",
 ["inputs"], f"all operand triples of {ALLF} x 5 rounding modes",
 "The input space is up to 2^384 triples; the tests hold a few dozen, although every known past defect here needed a particular combination of cancellation, exponent gap and tiny significands.",
 [IE], [("double-width product, addend alignment and lost fraction", IE+" mul_add_r, sig::add_or_sub"), ("rounding", IE+" IeeeFloat::normalize")],
 ["value bits and status returned by mul_add_r"])
prop("C05", "Truncated and IEEE remainder are exact",
 "For finite x and non-zero y (y may also be infinite), the C-style remainder is exactly x - n*y with n the quotient truncated toward zero, and the IEEE remainder is exactly x - n*y with n the quotient rounded to nearest, ties to even; both report OK, a zero result has the sign of x, and an infinite y returns x. Infinite x or zero y gives NaN with INVALID_OP.",
 ["inputs"], f"all operand bit patterns of {ALLF}, including exponent gaps up to the full exponent range",
 "The tests cover about 60 pairs; the reduction loop, overflow of intermediate multiples near the largest values and ties in the IEEE quotient depend on pairs that no table reaches.",
 [IE], [("reduction loop", IE+" c_fmod"), ("final halving comparison and quotient parity", IE+" ieee_rem")],
 ["value bits and status returned by c_fmod, ieee_rem and the % operator"])
prop("C06", "Rounding to an integral value is exact and mode-correct",
 "For every finite value and each rounding mode, rounding to an integral value returns exactly the integer the mode selects (keeping the sign, also for zero results) with status INEXACT if and only if the value changed; infinities and already-integral values come back unchanged with OK. The is-integer query is true exactly for finite values with no fractional part.",
 ["inputs"], f"all bit patterns of {ALLF} x 5 rounding modes",
 "The tests use a handful of doubles; values around 2^(p-1), halves, subnormals and the narrow formats, in all five modes, are not sampled.",
 [IE, LB], [("magic-constant addition and early exit", IE+" round_to_integral"), ("integer test", LB+" is_integer")],
 ["value bits and status of round_to_integral; is_integer"])
prop("C07", "Next-up and next-down step to the adjacent representable value",
 "For every non-NaN value, next-up returns the least representable value strictly greater than it (+infinity is a fixed point, both zeros step to the smallest subnormal, minus the smallest subnormal steps to -0, and the largest finite value steps to infinity, or to NaN in the format without infinities), and next-down is its mirror image; the status is OK.",
 ["inputs"], f"all bit patterns of {ALLF} (exhaustive for 8- and 16-bit formats)",
 "The tests check the edges of one or two formats; carries through every significand length and binade boundary are inputs they do not enumerate.",
 [IE], [("significand increment/decrement and binade crossing", IE+" next_up, sig::increment, sig::decrement"), ("mirror", LB+" next_down")],
 ["value bits and status of next_up/next_down"])
prop("C08", "Conversion between formats is correctly rounded and reports loss truthfully",
 "Converting any finite value between any two IEEE-style formats returns that exact value rounded once to the target in the given mode with the overflow, subnormal and status rules of addition; the information-loss flag is true exactly when the delivered value differs from the source. Zeros and infinities keep their sign (infinity into the format without infinities becomes NaN, is INEXACT and loses information), and a NaN becomes a quiet NaN with the same sign whose leading payload bits are kept, signalling INVALID_OP if it was signaling and reporting loss whenever non-zero payload bits are dropped.",
 ["inputs", "configurations"], f"all bit patterns x all 64 ordered pairs of {ALLF} x 5 rounding modes",
 "Tests convert a few dozen constants between a few pairs; double rounding, source subnormals into narrower or wider exponent ranges and directed modes need per-pair boundary inputs.",
 [IE], [("significand shift and lost fraction", IE+" convert_r"), ("rounding", IE+" IeeeFloat::normalize")],
 ["value bits, status and loses_info of convert_r"])
prop("C09", "Conversion to integers rounds, saturates and flags exactly",
 "For every value, each width from 1 to 128 bits, both signednesses and each rounding mode: if the value rounded to an integer in that mode fits the width it is returned, with OK and is-exact when nothing was lost and INEXACT otherwise; if it does not fit, or is infinite, the nearest bound of the integer type is returned with INVALID_OP, and NaN gives 0 with INVALID_OP. Negative zero converts to 0 with OK but is reported as not exact.",
 ["inputs", "configurations"], f"all bit patterns of {ALLF} x widths 1..128 x signed/unsigned x 5 rounding modes",
 "The tests use about ten doubles at width 5; other formats, widths and rounding modes at the saturation boundary are not sampled.",
 [IE, LB], [("truncation, rounding and range check", IE+" to_u128_r"), ("sign handling and signed bounds", LB+" to_i128_r")],
 ["integer value, status and is_exact of to_u128_r/to_i128_r"])
prop("C10", "Conversion from integers is correctly rounded",
 "For every signed or unsigned 128-bit integer and each rounding mode, conversion to any IEEE-style format returns the integer rounded once to the format with the overflow and status rules of addition; zero gives +0 and exactly representable integers are exact.",
 ["inputs"], f"all i128/u128 values into {ALLF} x 5 rounding modes",
 "Integer conversion is only tested through a few round trips; ties at every bit length and both overflow thresholds are a 2^128 input space.",
 [IE, LB], [("normalisation of a raw integer significand", IE+" from_u128_r"), ("sign and mirrored rounding", LB+" from_i128_r")],
 ["value bits and status of from_u128_r/from_i128_r"])
prop("C11", "Decimal strings of any length are parsed to the correctly rounded value",
 "Every syntactically valid decimal string - any number of digits, any decimal point position, any exponent including absurdly large ones - parses to the exact decimal value rounded once to the format in the given mode, with the overflow, subnormal and status rules of addition; a zero significand gives a zero of the written sign with OK whatever the exponent.",
 ["inputs"], f"all decimal strings (bounded by memory) into {ALLF} x 5 rounding modes",
 "Correct rounding of decimals hinges on inputs within a tiny distance of a rounding boundary, which need hundreds of digits; the tests parse a few dozen short strings.",
 [IE], [("digit accumulation, power-of-five scaling, error bound and retry with more precision", IE+" from_decimal_string, sig::from_limbs, sig::extract"), ("sign-mirrored rounding", IE+" from_str_r")],
 ["value bits and status of from_str_r"])
prop("C12", "Hexadecimal strings of any length are parsed to the correctly rounded value",
 "Every syntactically valid hexadecimal floating string - any number of digits, any point position, any binary exponent - parses to the exact value rounded once to the format in the given mode, with the overflow, subnormal and status rules of addition; a zero significand gives a zero of the written sign with OK.",
 ["inputs"], f"all hexadecimal float strings into {ALLF} x 5 rounding modes",
 "Digits beyond the internal width only matter through the sticky information, and exponents can saturate; tests use short strings around 1.0.",
 [IE], [("nibble accumulation, trailing-digit stickiness, exponent adjustment", IE+" from_hexadecimal_string")],
 ["value bits and status of from_str_r"])
prop("C13", "The number grammar is decided exactly and never crashes",
 "For every string, parsing either returns a value or an error and never panics: it accepts exactly optionally signed decimal or 0x-hexadecimal numbers (at least one digit, at most one point; a hex number must have a p exponent with digits, a decimal e exponent may have none), signed \"Inf\", unsigned-or-minus \"inf\"/\"INFINITY\", and unsigned-or-minus NaN spellings with optional s/S and an optional unsigned payload, and rejects everything else. Accepted special spellings give an infinity or a quiet/signaling NaN of the written sign and payload with status OK.",
 ["inputs"], "all UTF-8 strings, mutated from valid ones, into every format",
 "Tests list some bad strings per error message; acceptance of every other malformed string and absence of panics on arbitrary Unicode are universally quantified.",
 [IE], [("prefix/special parsing and NaN payloads", IE+" from_str_r"), ("character loops", IE+" from_decimal_string, from_hexadecimal_string")],
 ["Ok/Err of from_str_r and FromStr, value bits, status"])
prop("C14", "Default text output reads back to the identical value",
 "Printing any finite value with default formatting (or any padding width or the alternate flag, without a precision) and parsing the text in round-to-nearest gives back exactly the same value including the sign of zero; infinities print as +Inf/-Inf and NaNs as NaN, and these parse back to the same class.",
 ["inputs"], f"all bit patterns of {ALLF} x width/alternate flags",
 "Tests round-trip a few constants; shortest-digit or truncation errors appear only for particular significand/exponent combinations.",
 [IE], [("digit generation and precision choice", IE+" fmt::Display"), ("parser", IE+" from_decimal_string")],
 ["formatted text and re-parsed bits"])
prop("C15", "Formatted digits are correctly rounded and laid out as requested",
 "With a precision p > 0 the printed significand is the exact decimal value rounded to at most p significant digits, nearest with ties away from zero, with trailing zeros dropped; with no precision or precision 0 the format's natural number of digits is used. Positional versus scientific layout, zero padding (alternate form), exponent spelling and the sign follow the documented width and alternate rules for every value.",
 ["inputs", "configurations"], f"all bit patterns of {ALLF} x precision x width x alternate",
 "Tests print seven doubles; rounding carries (9...9), digit discarding for large exponents, and layout thresholds depend on value and both parameters together.",
 [IE], [("digit discarding, decimal rounding, layout", IE+" fmt::Display")],
 ["formatted text"])
prop("C16", "Bit patterns decode and encode faithfully and classify correctly",
 "Every bit pattern of every IEEE-style format decodes to the value, sign and class (zero, subnormal, normal, infinity, quiet or signaling NaN) its encoding defines, and encoding gives back the same bits. The only exceptions are x87 encodings no hardware produces: pseudo-denormals are re-encoded as the equal normal number, and unnormal, pseudo-infinity and pseudo-NaN patterns are NaNs keeping their sign and significand; re-encoding is idempotent.",
 ["inputs"], f"all bit patterns of {ALLF} (exhaustive for 8- and 16-bit formats)",
 "Tests decode a few constants per wide format; class boundaries and the x87 special encodings form regions of a 2^80..2^128 space.",
 [IE], [("special-value matching, denormal and integer-bit handling", IE+" Semantics::from_bits/to_bits, X87DoubleExtendedS")],
 ["from_bits, to_bits, category, is_* queries"])
prop("C17", "Comparison, equality and min/max follow the numeric order",
 "For every two values, comparison gives the order of the real values (+0 and -0 equal, infinities at the ends, magnitude comparison ignoring sign) and unordered if either is NaN; ==, <, <=, >, >= agree with it. minNum/maxNum return the smaller/larger operand and ignore a single NaN, minimum/maximum propagate NaN and order -0 below +0, and bitwise equality holds exactly when the encodings are identical.",
 ["inputs"], f"all operand pairs of {ALLF}",
 "The tests compare a table of about ten values; equal-exponent and sign-mixed comparisons across the full range are not enumerated.",
 [IE, LB], [("ordering", IE+" partial_cmp, cmp_abs_normal, bitwise_eq"), ("selection", LB+" min/max/minimum/maximum")],
 ["results of the comparison operators and of min/max/minimum/maximum/bitwise_eq/cmp_abs_normal"])
prop("C18", "NaN operands propagate quietly, keeping payload and sign, flagging INVALID_OP",
 "Any arithmetic operation (add, subtract, multiply, divide, remainders, fused multiply-add, integral rounding, scaling, fraction extraction) with a NaN operand returns the first NaN operand with its sign and payload unchanged except that a signaling NaN is made quiet, and reports INVALID_OP exactly when an operand is signaling, otherwise OK. Stepping with next-up/next-down leaves a quiet NaN unchanged and turns a signaling one into a quiet NaN of the same sign with INVALID_OP; a fused multiply-add of zero and infinity with a quiet NaN addend gives a fresh NaN with INVALID_OP.",
 ["inputs"], f"all NaN encodings x all other operands of {ALLF} x operations",
 "Existing tests use one or two NaN payloads and mostly check only that the result is NaN.",
 [IE], [("shared NaN handling", IE+" IeeeDefaultExceptionHandling"), ("sign restore before NaN handling", IE+" sub_r/mul_r/div_r/mul_add_r")],
 ["value bits and status of each operation"])
prop("C19", "Scaling by powers of two and exponent extraction are exact",
 "For every finite value and any 32-bit exponent, scaling returns value*2^n rounded once to the format in the given mode (exact when representable, overflowing or underflowing like addition). The exponent query returns floor(log2|x|) (distinct documented codes for zero, infinity and NaN), and fraction extraction returns a fraction in [0.5,1) and an exponent whose recombination is exactly the original value, with zero and infinity returned unchanged.",
 ["inputs"], f"all bit patterns of {ALLF} x all i32 exponents x 5 rounding modes",
 "Tests scale a few values; double rounding into the subnormal range and extreme exponents in all modes are not covered.",
 [IE, LB], [("exponent clamp and renormalisation", IE+" scalbn_r"), ("exponent queries", IE+" ilogb, frexp_r")],
 ["value bits of scalbn_r/frexp_r and returned exponents"])
prop("C20", "An exact inverse is offered exactly when one exists",
 "The exact-inverse query returns a value exactly when the input is a normal power of two (either sign) whose reciprocal is also a normal number of the format, and then returns precisely that reciprocal; for every other value, including zeros, subnormals, infinities and NaNs, it returns nothing.",
 ["inputs"], f"all bit patterns of {ALLF}",
 "Tests try seven values; every other power of two, subnormals and both ends of the exponent range are unobserved.",
 [IE], [("power-of-two test and reciprocal checks", IE+" get_exact_inverse")],
 ["Option and bits returned by get_exact_inverse"])
prop("C21", "Status flags tell the truth about the delivered result",
 "For every operation returning a status, OVERFLOW and UNDERFLOW never appear without INEXACT, INEXACT appears exactly when a well-defined delivered result differs from the exact mathematical one, DIV_BY_ZERO appears only for a finite non-zero value divided by zero and INVALID_OP only when there is no usefully defined result or an operand is a signaling NaN. Or-ing the statuses of a sequence of operations therefore is OK exactly when every step was exact.",
 ["inputs", "histories"], f"all operations and operands of {ALLF} x 5 rounding modes, and sequences of them",
 "Tests compare the status of single constant cases; that flags are neither missing nor spurious for every input, and compose over sequences, is not enumerable by examples.",
 [IE, LB], [("status computation in every operation", IE+" normalize, overflow_result and each operation"), ("flag composition", LB+" Status, StatusAnd, unpack!")],
 ["status of each call and accumulated over call sequences"])
prop("C22", "Sign operations and class queries touch and read only what they should",
 "Negation, absolute value and copy-sign change the sign bit and nothing else for every value including zeros, infinities and every NaN payload; negating twice is the identity. Every class query (negative, zero, finite, normal, denormal, infinite, NaN, signaling, smallest, smallest-normalized, largest, positive/negative zero or infinity) answers exactly what the encoding says.",
 ["inputs"], f"all bit patterns of {ALLF}",
 "Tests query a few constants per predicate; x87 special encodings, NaN payloads and neighbours of the extremes are not enumerated.",
 [IE, LB], [("sign flip", IE+" Neg"), ("abs/copy_sign and derived queries", LB+" Float provided methods")],
 ["to_bits after the operation and boolean results"])
prop("C23", "Format constants, extremes and NaN factories match the format definition",
 "For every format the advertised total width, precision, exponent range, zero, infinity, NaN, largest, smallest and smallest-normalized values are those of the published format. Quiet and signaling NaN factories produce, for every payload, a positive NaN of the right kind carrying exactly the payload bits that fit (a signaling NaN never degenerates into an infinity; formats with a single NaN always give that NaN).",
 ["inputs", "configurations"], f"all 128-bit payloads x {ALLF}",
 "Tests check largest/smallest for a couple of formats and a few payloads.",
 [IE, LB], [("associated constants", IE+" Semantics"), ("factories", IE+" qnan/snan/largest/SMALLEST/smallest_normalized")],
 ["constants and to_bits of factory results"])
prop("C24", "Any operation sequence completes without panic and values stay canonical",
 "Starting from arbitrary bit patterns, any finite sequence of public operations (with integer widths 1..128) on IEEE-style values completes in bounded time without panicking or arithmetic overflow. Every intermediate value behaves exactly like the value obtained by encoding it to bits and decoding it again, so results depend only on encodings and never on how a value was produced.",
 ["histories", "inputs"], "operation histories of bounded length over registers of each IEEE-style format, initial values arbitrary bit patterns",
 "Tests call single operations on freshly built values; hidden representation differences and internal assertion failures only show along operation histories.",
 [IE, LB], [("representation invariants of sign/exponent/significand/category", IE+" IeeeFloat"), ("internal assertions", IE)],
 ["bits, status and panics along a shadow-checked history"])
prop("C25", "Results are deterministic, host-independent and free of side effects",
 "Every operation is a pure function of its arguments: repeating it in any order, on any thread, in optimised or overflow-checked builds, and under any host floating-point rounding, flush or exception settings gives the same bits, status and text, and it neither uses nor disturbs the host floating-point state. Only conversions from and to decimal text may allocate memory.",
 ["schedules", "histories", "configurations", "inputs"], "operation batches over every format, replayed under permutations, thread interleavings, host FP control settings and build profiles",
 "Tests run once, in one build, with the default host FP environment, and never look at host FP flags or allocations.",
 [IE, LB, PP], [("integer-only algorithms", IE), ("short arrays instead of heap bigints outside decimal conversion", IE+" sig")],
 ["digests of batches, host FP status registers, allocation counters"])
prop("C26", "All API spellings of an operation agree",
 "Operators, compound assignments, default-rounding variants, string parsing through the standard trait, and the explicit-rounding methods with nearest-even give identical results; subtraction equals addition of the negation for non-NaN operands. For the IEEE-style formats rounding is sign-symmetric: negating the exact result by negating operands and mirroring the mode negates the delivered number with the same status (exactly cancelling sums are the one exception: both give the zero of the mode). Status-carrying results map, combine and unwrap without altering value or status.",
 ["inputs"], f"all operands of {ALLF} and the double-double format x operations x 5 modes",
 "Tests exercise one operator example each; agreement for all operands and mirrored modes is universally quantified.",
 [LB, IE, PP], [("shared operator implementations", LB+" float_common_impls!"), ("mirrored rounding", LB+" Neg for Round"), ("status plumbing", LB+" Status/StatusAnd/unpack!")],
 ["value bits and status from each spelling"])
prop("C27", "User-defined formats get the same guarantees as the built-in ones",
 "A new format declared only by its total width and exponent width (optionally without infinities), with precision between 3 and 120 bits, exponents of at most 15 bits and 2^precision in range, gets correctly rounded arithmetic, remainders, conversions to and from other formats, integers and text, and correct bit encodings, exactly as the built-in formats do.",
 ["configurations", "inputs"], "a family of custom formats from 6 to 126 bits, including formats without infinities; exhaustive operand pairs and triples for the tiny ones",
 "No test instantiates a custom format; format-parameter-dependent code (single-limb widths, payload masks, exponent bounds) is only exercised for eight parameter sets.",
 [IE], [("derived constants", IE+" Semantics defaults"), ("generic algorithms", IE+" IeeeFloat<S>")],
 ["value bits and status of all operations instantiated at custom formats"])
prop("C28", "Rounding modes bracket the exact value and rounding is monotonic",
 "For every operation and operands, the toward-negative result is never above and the toward-positive result never below the result of any other mode, they are equal or adjacent values, toward-zero equals the one nearer zero, and the two nearest modes each return one of the two. Results are monotonic: increasing an operand never decreases a sum, and likewise for conversions and parsing of increasing inputs.",
 ["inputs"], f"all operands of {ALLF}, operations with a rounding mode",
 "Relations between results of different modes and neighbouring operands are never asserted by the tests.",
 [IE], [("rounding decision", IE+" round_away_from_zero, normalize, overflow_result")],
 ["value bits of the same operation under the five modes and at neighbouring operands"])
prop("D01", "Double-double special values follow the limits of real arithmetic",
 "For double-double values, every operation with a zero, infinity or NaN operand gives the class and sign the limit of real arithmetic gives: NaN if any operand is NaN or the operation is undefined (infinity minus infinity, zero times infinity, zero or infinity over itself, remainder of infinity or by zero), otherwise a zero or infinity with the correctly combined sign and a zero low part (opposite zeros may add to either zero). Adding or subtracting a zero leaves a finite non-zero operand unchanged bit for bit.",
 ["inputs"], "all combinations of special and finite double-double operands x operations x 5 rounding modes",
 "The tests check only the class, not the sign, of about five combinations.",
 [PP], [("special-case tables", PP+" add_r/mul_r"), ("delegation", PP+" div_r/mul_add_r/...")],
 ["category, sign and components of results"])
prop("D02", "Double-double add, subtract and multiply are accurate and stay normalised",
 "For finite normalised double-double operands in round-to-nearest, addition and subtraction differ from the exact result by at most 2^-102 times the sum of the operand magnitudes and multiplication by at most 2^-102 relative (plus 2^-1072 for products below 2^-959); sums, and products reaching no bit below 2^-1074, of operands whose low parts are zero are exact. Results (products below 2^-959 aside) are normalised pairs (the high part equals the pair's value rounded to double), and a result of magnitude 2^1024 or more is the infinity of its sign with a zero low part, while one below 2^1024-2^973 stays finite however close to the top the operands are. In the other rounding modes, away from overflow, the same bounds hold with 2^-100, the low part stays below two units in the last place of the high part, and rounding upward (downward) never gives a sum, or a product of 2^-959 or more with a factor that has no low part, below (above) the exact one.",
 ["inputs"], "all normalised double-double operand pairs in the stated range",
 "About twenty constant pairs are tested; error terms that are dropped or mis-signed show only for operands with non-trivial low parts.",
 [PP], [("error-compensated sum and product", PP+" add_r/mul_r")],
 ["component doubles of the result, compared with exact arithmetic"])
prop("D03", "Double-double division, FMA, remainders and rounding match 106-bit arithmetic",
 "For normalised finite double-double operands, division, fused multiply-add, both remainders, integral rounding and next-up/next-down return the result of the documented stand-in arithmetic - operands first rounded to a 106-bit significand with the double exponent range, the operation correctly rounded once to 106 bits in the given mode with the usual status - split into a normalised pair of doubles (a 106-bit result above the largest pair becomes infinite). An exact inverse is offered exactly when a normal 106-bit power of two has one.",
 ["inputs"], "all normalised double-double operands x operations x 5 rounding modes",
 "Each of these has one or two constant cases in the tests.",
 [PP, IE], [("conversion to and from the 106-bit format", PP+" From<Fallback>/From<DoubleFloat>"), ("generic arithmetic at 106 bits", IE)],
 ["component doubles and status of the results"])
prop("D04", "Double-double conversions to and from integers and text are faithful",
 "Parsing decimal or hexadecimal text and converting 128-bit integers into double-double give the exact value correctly rounded to 106 bits as a normalised pair (infinity above the largest pair) with the usual status, accept the same grammar as the other formats and never panic; converting to an integer of any width and default printing are those of the pair's value rounded to 106 bits, and printed text parses back to the same value. Any 128-bit pattern decodes to its two component doubles and encodes back unchanged, NaN payloads included.",
 ["inputs"], "all strings, 128-bit integers and bit patterns for double-double",
 "Three strings and a handful of patterns are tested.",
 [PP, IE], [("delegation to the 106-bit format", PP+" from_str_r/from_u128_r/to_u128_r/Display"), ("component packing", PP+" from_bits/to_bits")],
 ["bits, status, text"])
prop("D05", "Double-double ordering, sign, queries and scaling act on the pair value",
 "For normalised double-double values, comparison, min/max variants and magnitude comparison follow the real order of the pair's sum; negation, absolute value and copy-sign negate the value exactly; scaling by a power of two is exact when no part underflows and becomes the signed infinity above the range, fraction extraction returns an exact fraction whose high part is in [0.5,1) unless its low part underflows, and no result keeps a low part beside a zero or infinity. The exponent query is that of the high part; a pair is denormal exactly if it is finite and a component is subnormal or the pair is not normalised; the integer, sign, class and extreme-value queries and the constants describe the pair's value.",
 ["inputs"], "all normalised double-double values and pairs",
 "Tests compare seven constant pairs and query single constants.",
 [PP, LB], [("lexicographic ordering", PP+" derive(PartialOrd), cmp_abs_normal"), ("component-wise sign and scaling", PP+" Neg, scalbn_r, frexp_r")],
 ["results of comparison, sign, scaling and query methods"])
prop("D06", "Double-double status flags tell the truth",
 "For double-double addition, subtraction and multiplication of finite normalised values: neither INVALID_OP nor DIV_BY_ZERO is ever reported and no result is NaN; an infinite result reports OVERFLOW, and in round-to-nearest only an infinite result does; OVERFLOW and UNDERFLOW come with INEXACT; UNDERFLOW is reported only if a part of an operand or a product of parts comes near the subnormal range; and an inexact result reports INEXACT (left open: a sum delivered as the rounded sum of the high parts alone, a product that differs from the exact one by exactly the product of the low parts; exact results may report INEXACT). With a zero, infinite or quiet NaN operand every operation reports what 106-bit IEEE arithmetic would: INVALID_OP for an undefined operation (left open for zero times infinity, in multiplication), DIV_BY_ZERO alone for a finite value over zero, and otherwise OK (left open: 106-bit results above the largest pair).",
 ["inputs"], "all normalised double-double operands x operations x 5 rounding modes",
 "The tests look at the status of almost no double-double operation.",
 [PP], [("status accumulation", PP+" add_r/mul_r"), ("delegation", PP+" div_r/mul_add_r/...")],
 ["status of results, related to the component doubles"])
prop("D07", "Pairs of any element format behave as double-double does",
 "The two-number format over any IEEE-style element format of precision p (3 to 60 bits of significand, at most 64 bits in all, with exponents reaching below 2^-p) obeys the rules of D01 to D06 with p for 53 and 2p for 106: sums, differences and products of normalised pairs stay normalised and within 2^-(2p-4) (relative; 2^-(2p-6) in directed modes), are exact for operands without low parts, and never fall on the wrong side of the exact result in directed modes (products near the subnormal range keep only the bound, plus four units of its last place); division, fused multiply-add, stepping and inverses are those of arithmetic with 2p bits, and so are remainders and integral rounding where 2^(2p) is in range; zeros, infinities, NaNs and flags, ordering, min/max, signs, scaling, fraction extraction, queries and constants describe the pair's value; integers and text convert with one rounding to 2p bits.",
 ["configurations", "inputs"], "pairs of nine element formats (7 to 64 bits), operations, modes; every pair of pairs for the 7-bit element (thorough), rows of the tables of three small ones (quick)",
 "The tests instantiate the template with Double only, on a few dozen values; errors that need one coincidence of low bits in 2^200 operand pairs need one in a few million with small elements.",
 [PP], [("generic pair arithmetic", PP+" impl Float for DoubleFloat<F>"), ("stand-in formats and splitting", PP+" FallbackS/FallbackExtendedS, From")],
 ["component bits, status and text of operations on DoubleFloat of other element formats"])
prop("E01", "Text conversion needs memory, stack and time only in proportion to the text",
 "Parsing any text of n characters, valid or not, in any format and mode holds at most 32 KiB + 8n bytes of heap at once however large or long the written exponent is, and takes CPU time at most quadratic in n, independent of the exponent. Printing any value holds at most 64 KiB + 8 bytes per requested digit of precision or width and writes at most 20100 characters more than twice what was asked for. Both give back all memory they took and need at most 24 KiB of stack.",
 ["inputs"], "all strings; all values x widths and precisions",
 "The tests parse short strings and never look at resources; a lost clamp on exponents or a quadratic blow-up gives the right answer late.",
 [IE], [("decimal conversion buffers and their bounds", IE+" from_decimal_string"), ("formatting buffers", IE+" fmt")],
 ["heap peak and balance, stack depth and thread CPU time of each call"])

prop("E02", "Half, single, double and 80-bit results are those of conforming hardware",
 "For canonical operands of the half, single, double and 80-bit formats, in round-to-nearest-even, toward-zero, upward and downward modes, addition, subtraction, multiplication, division, fused multiply-add, remainders, integral rounding, comparison, scaling, conversions between these formats and to and from integers deliver bit for bit the value that IEEE-conforming hardware delivers (where one result is NaN, both are), with the same invalid, divide-by-zero, overflow and inexact indications where hardware defines them (OVERFLOW is reported by the crate only with an infinite result; UNDERFLOW is judged by the delivered value). Single and double text conversion agrees with the host language: parsing any decimal text, shortest printing read back, and fixed-precision printing (except decimal ties).",
 ["inputs"], "all canonical operands of four hardware formats x operations x 4 rounding modes",
 "Compiler constant folding must equal run-time results; the tests compare a few constants and never ask the processor.",
 [IE], [("generic arithmetic, conversion and text", IE+" IeeeFloat<S>")],
 ["value bits and status, next to what the processor's own instructions deliver"])

prop("E03", "Results are the same whatever machine the library runs on",
 "Every call - arithmetic, remainders, integral rounding, neighbours, conversions between formats and to and from integers, parsing, printing, scaling, comparison, queries, constants and NaN factories, in every built-in format, double-double and user-defined formats - gives on a host with 32-bit pointers, or with the opposite byte order, exactly the bits, status, further outputs and text it gives on a 64-bit little-endian host; it neither panics nor fails to finish there, and executes no undefined behaviour.",
 ["configurations", "inputs"], "all inputs x {32, 64}-bit pointers x {little, big} endian hosts",
 "A cross compiler must fold constants identically on every host; the tests run on one host only.",
 [IE, PP, LB], [("limb arithmetic and shifts counted in usize", IE+" sig"), ("exponent and digit bookkeeping", IE+" from_decimal_string/from_hexadecimal_string/fmt"), ("inline small vectors", IE+" DynPrecisionLimbVec")],
 ["complete answers of the same calls on four kinds of machine; reports of the undefined-behaviour interpreter"])

prop("E04", "Quad, 80-bit and narrow-format results and text are those of the C library",
 "In round-to-nearest-even, toward-zero, upward and downward modes (all five where C has them), the crate delivers bit for bit the value that the C library delivers (where one result is NaN, both are), with the same invalid, divide-by-zero, overflow, underflow and inexact indications where C defines them (OVERFLOW only with an infinite result; UNDERFLOW and loss judged by the delivered value): quad addition, subtraction, multiplication, division and comparison; fused multiply-add, remainders, integral rounding, neighbours, scaling, exponents, minimum/maximum and class queries of single, double, 80-bit and quad; conversions among half, bfloat, single, double, 80-bit and quad (NaN payloads included); integers of 128 bits to every format and back, and of any width to 64 bits; decimal and hexadecimal text of any length read as single, double, 80-bit and quad; printed text read back by C, C's %a text read here, and digits of any requested precision (except decimal ties).",
 ["inputs"], "all canonical operands of six formats x operations x rounding modes; all numeric texts",
 "Compilers fold long double and __float128 constants that must equal what the target's run-time library computes; the tests compare a few constants and never ask another implementation.",
 [IE], [("generic arithmetic, conversion and text", IE+" IeeeFloat<S>")],
 ["value bits and status, next to what libm, libgcc and strto*/strfrom* deliver"])

prop("E05", "Text output treats its sink and the other formatting flags correctly",
 "Printing any value, in every built-in format and double-double, with any precision, width and alternate flag, delivers the same text whatever sign, fill, alignment and zero flags are given besides. Into a sink that fails after any number of bytes it delivers exactly the leading bytes of that text, returns the sink's error and writes nothing more; into a sink large enough it succeeds. A sink that prints and reads other numbers while it is written to disturbs neither. The debug form begins with the value as printed by default (IEEE-style formats), ignores precision, width and flags, and differs for any two values of different encodings.",
 ["inputs", "configurations", "fault_sequences"], f"all values of {ALLF} and double-double x flags x every byte at which the sink may fail",
 "The tests print into strings that never fail, with no flag but precision, width and alternate, and never print NaNs or signs in the debug form.",
 [IE, PP], [("formatting", IE+" fmt::Display, fmt::Debug"), ("delegation", PP+" fmt::Display, derive(Debug)")],
 ["bytes that arrive at the sink, the returned result, text of the debug form"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    print(len(P), "properties")
