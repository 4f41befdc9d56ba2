#!/usr/bin/env python3
# Writes /verif/properties.jsonl.
import json
N="astro-float-num/src/"
def P(id,title,st,over,text,why,files,mech,obs,state=()):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[N+f if not f.startswith('astro') else f for f in files],
        state=[dict(name=a,meaning=b,where=N+c) for a,b,c in state],
        mechanism=[dict(name=a,where=N+b) for a,b in mech],observe_at=obs,hook_needed=None))
L=[]
L.append(P("C01","Addition and subtraction are correctly rounded",
 "For every pair of finite numbers, every target precision p >= 1 and every rounding mode, add and sub return exactly the number that the rounding mode selects for the exact sum or difference at that precision rounded up to a whole word (with rounding mode None: the exact value or one of its two neighbours). The inexact flag of the result is set if and only if the result differs from the exact value or an operand was inexact (mode None aside), and the operands are not changed.",
 ["inputs"],"all finite operands (normal, subnormal, zero, any precision and exponent), all p >= 1, all seven rounding modes",
 "Tests sample random operands of a few lengths and mostly check identities such as a+b-b=a; carries through several words, cancellation, sticky digits far to the right and operands of very different exponents and lengths form an unbounded input space.",
 ["num.rs","mantissa/mantissa.rs","mantissa/util.rs","common/util.rs","common/buf.rs"],
 [("add / sub / add_sub","num.rs"),("abs_add, abs_sub, round_mantissa","mantissa/mantissa.rs"),("shift_slice_left/right, carry propagation","common/util.rs")],
 ["BigFloat::add","BigFloat::sub"]))
L.append(P("C02","Multiplication is correctly rounded",
 "For every pair of finite numbers, every target precision p >= 1 and every rounding mode, mul returns exactly the number that the rounding mode selects for the exact product at that precision rounded up to a whole word (with None: the exact value or a neighbour), with the inexact flag set if and only if precision was lost or an operand was inexact. This holds whatever multiplication algorithm the operand lengths select.",
 ["inputs"],"all finite operands of any lengths, all p >= 1, all seven rounding modes",
 "Tests compare a few algorithms on random words and check identities; carry chains, lengths around algorithm thresholds and halfway cases are not enumerable.",
 ["num.rs","mantissa/mantissa.rs","mantissa/mul.rs","mantissa/toom2.rs","mantissa/toom3.rs","mantissa/fft.rs"],
 [("mul / mul_general_case","num.rs"),("Mantissa::mul, round_mantissa","mantissa/mantissa.rs"),("mul_basic, mul_unbalanced, mul_slices","mantissa/mul.rs"),("toom2","mantissa/toom2.rs"),("toom3","mantissa/toom3.rs"),("fft_mul","mantissa/fft.rs")],
 ["BigFloat::mul"]))
L.append(P("C03","Division and reciprocal are correctly rounded",
 "For every finite dividend and every finite non-zero divisor, every target precision p >= 1 and every rounding mode, div (and reciprocal, with dividend 1) returns exactly the number that the rounding mode selects for the exact quotient at that precision rounded up to a whole word (with None: a neighbour or the exact value). The inexact flag is set if and only if the quotient is not exact or an operand was inexact.",
 ["inputs"],"all finite operands of any lengths, divisor non-zero, all p >= 1, all seven rounding modes",
 "The quotient digit correction and the add-back step of long division fire with probability about 2^-63 on random input, so random tests practically never reach them.",
 ["num.rs","mantissa/mantissa.rs","mantissa/div.rs","ops/consts/mod.rs"],
 [("div / reciprocal","num.rs"),("Mantissa::div","mantissa/mantissa.rs"),("div_basic, div_recursive, div_unbalanced","mantissa/div.rs")],
 ["BigFloat::div","BigFloat::reciprocal"]))
L.append(P("C04","Square and cube roots are correctly rounded",
 "For every finite number (non-negative for sqrt), every p >= 1 and every rounding mode, sqrt and cbrt return exactly the number that the rounding mode selects for the exact root at precision p rounded up to a whole word (with None: a neighbour or the exact value). The inexact flag is set if and only if the root is not exact or the operand was inexact.",
 ["inputs"],"all finite operands of any lengths and exponents, all p >= 1, all seven rounding modes",
 "Tests check sqrt(x)^2 against x within an error on random x; exact squares, near-halfway roots and parity of the exponent over all lengths are not sampled.",
 ["num.rs","ops/sqrt.rs","ops/cbrt.rs","mantissa/sqrt.rs","mantissa/cbrt.rs"],
 [("sqrt","ops/sqrt.rs"),("cbrt","ops/cbrt.rs"),("sqrt_rem","mantissa/sqrt.rs"),("cbrt","mantissa/cbrt.rs")],
 ["BigFloat::sqrt","BigFloat::cbrt"]))
L.append(P("C05","Full-precision operations and remainder are exact",
 "add_full_prec, sub_full_prec and mul_full_prec return the exact sum, difference and product without any rounding, whenever it lies inside the exponent range. rem returns the exact remainder of truncated division: it has the sign of the dividend, is smaller than the divisor in absolute value, and the dividend minus it is an integer multiple of the divisor.",
 ["inputs"],"all finite operands of any lengths and exponents whose exact result is representable",
 "Tests check random cases of similar magnitude; widely different exponents, cancellation to a single bit and the subnormal range are not reached.",
 ["num.rs","mantissa/mantissa.rs","mantissa/div.rs"],
 [("add_full_prec, sub_full_prec, mul_full_prec, rem","num.rs"),("abs_add, abs_sub, mul, div","mantissa/mantissa.rs")],
 ["BigFloat::add_full_prec","BigFloat::sub_full_prec","BigFloat::mul_full_prec","BigFloat::rem"]))
L.append(P("C06","Comparison is the order of the represented values",
 "For all numbers, cmp returns a negative, zero or positive answer according to the mathematical order of the represented values, independent of precision, trailing zeros and the sign of zero, and None exactly when an argument is NaN; abs_cmp does the same for absolute values. min, max, clamp and the comparison operators agree with that order.",
 ["inputs"],"all pairs (triples) of values, including numbers of different precision, subnormals, zeros, infinities and NaN",
 "Tests check a dozen literal pairs; equality of the same value held at different precisions and orders decided in the last word are unbounded.",
 ["num.rs","ext.rs","mantissa/mantissa.rs"],
 [("cmp, abs_cmp","num.rs"),("Mantissa::abs_cmp","mantissa/mantissa.rs"),("cmp, abs_cmp, min, max, clamp, PartialOrd, PartialEq","ext.rs")],
 ["BigFloat::cmp","BigFloat::abs_cmp","BigFloat::min","BigFloat::max","BigFloat::clamp"]))
L.append(P("C07","Changing precision and rounding to a digit are correctly rounded",
 "set_precision(p, mode) replaces a number by exactly the p-bit number that the mode selects for it, keeps the value when p is not smaller than the number of significant bits, and stores it at precision p rounded up to a whole word. round(n, mode) returns exactly the multiple of 2^-n that the mode selects; try_set_precision(p, mode, s) returns true only if rounding at p would not be affected by any change of digits beyond bit s.",
 ["inputs"],"all finite numbers (normal, subnormal, zero), all p >= 1, all n, all rounding modes",
 "Tests enumerate the positions of a few bit patterns of one length; ties, carries out of the top word and rounding positions at every offset in every length are unbounded.",
 ["num.rs","mantissa/mantissa.rs"],
 [("set_precision, try_set_precision, round","num.rs"),("round_mantissa, set_length, check_rounding","mantissa/mantissa.rs")],
 ["BigFloat::set_precision","BigFloat::round","BigFloat::try_set_precision"]))
L.append(P("C08","int, fract, floor and ceil split the value exactly",
 "For every finite number, int and fract are the integer part (towards zero) and the remaining fraction with the sign of the number, and their exact sum is the number. floor and ceil return the greatest integer not above and the least integer not below the number, and is_int is true exactly for integers.",
 ["inputs"],"all finite numbers of any length and exponent, including subnormals and zero, both signs",
 "Tests check random doubles and a few literals; the boundary between integer and fraction may fall at any bit of any word.",
 ["num.rs","mantissa/mantissa.rs"],
 [("int, fract, floor, ceil, is_int","num.rs"),("mask_bits / find_one_from","mantissa/mantissa.rs")],
 ["BigFloat::int","BigFloat::fract","BigFloat::floor","BigFloat::ceil","BigFloat::is_int"]))
L.append(P("C09","Gradual underflow and overflow at the ends of the exponent range",
 "A result whose exact value lies below the smallest normal number is rounded once, by the rounding mode, to a multiple of the smallest positive number of its precision, and becomes zero only if the mode selects zero. A result whose exponent would exceed the largest exponent is infinity with the sign of the exact result; exponents never wrap around.",
 ["inputs"],"all operands of add, sub, mul, div and set_exponent whose results fall at or beyond either end of the exponent range",
 "Tests place a few results at the ends of the range; the distance by which a result underflows, its sticky digits and the precision are unbounded.",
 ["num.rs","mantissa/mantissa.rs","defs.rs"],
 [("subnormalize, new_subnormal, set_exponent, exponent arithmetic in add_sub/mul/div","num.rs")],
 ["BigFloat::add","BigFloat::sub","BigFloat::mul","BigFloat::div","BigFloat::set_exponent"]))
L.append(P("C10","Algebra of NaN, infinities and zero",
 "NaN is absorbing in every arithmetic operation. Operations on infinities and zeros return what the limit dictates: Inf+x=Inf, Inf-Inf, 0*Inf, Inf/Inf, 0/0, any remainder by zero or of infinity and the square root of a negative number are NaN, x/Inf is 0, x/0 is a signed infinity, and the signs of infinite and zero results follow the sign rules.",
 ["inputs"],"all combinations of NaN, +Inf, -Inf, signed zero, finite numbers in every operand position of the arithmetic operations, all precisions and rounding modes",
 "Tests check chosen pairs of special values with one precision and rounding mode, not the complete table against all finite numbers.",
 ["ext.rs"],
 [("add, sub, mul, div, rem, ..., special-case matching","ext.rs")],
 ["BigFloat operations"]))
L.append(P("C11","Construction from words, integers and floats is exact",
 "Constructing a number from mantissa words with an exponent, from any primitive integer, or from raw parts represents exactly the given value when the precision can hold it; from_f64 and from_f32 represent the given finite value exactly when the precision can hold it, zero, infinities and NaN included. The largest, smallest positive and epsilon-like values returned by the library are exactly the limits they claim to be, and decomposing a number into raw parts and recomposing it gives the same number.",
 ["inputs"],"all words, integers of all primitive types, all floating point bit patterns, all exponents and precisions; all combinations of raw parts",
 "Tests use random integers and doubles; extreme integers, subnormal doubles, and malformed raw parts are not enumerated.",
 ["num.rs","ext.rs","mantissa/mantissa.rs"],
 [("from_word, from_words, from_usize, from_i8.., from_f64, from_raw_parts, min_positive, max_value","num.rs"),("from_u64, from_raw_parts, ...","mantissa/mantissa.rs"),("from_*","ext.rs")],
 ["BigFloat::from_*","BigFloat::as_raw_parts"]))
L.append(P("C12","Classification, sign and exponent accessors agree with the value",
 "Exactly one of NaN, infinite, zero and finite non-zero holds of every number, and is_positive, is_negative, is_subnormal, signum, sign, exponent, precision and mantissa length agree with the value represented. neg and abs change only the sign, inv_sign and set_sign change nothing else, applying neg twice gives the number back, and cloning preserves every component.",
 ["inputs"],"all values, including zero of both signs, subnormals, infinities and NaN",
 "Tests check individual literals.",
 ["ext.rs","num.rs","mantissa/mantissa.rs"],
 [("is_nan, is_inf, is_zero, is_subnormal, sign, exponent, precision, signum, neg, abs, inv_sign, set_sign, clone","ext.rs"),("the same","num.rs")],
 ["BigFloat accessors"]))
L.append(P("C13","Numerals are read as the number they denote, correctly rounded",
 "Parsing a numeral with an exponent inside the exponent range, or converting a digit sequence, in radix 2, 8, 10 or 16 yields the number that the rounding mode selects for the value it denotes at the target precision (for radix 2, 8 and 16 also exactly when the precision suffices). Malformed input gives NaN, values beyond the range give infinity or underflow, and no input makes the conversion panic or fail to terminate.",
 ["inputs"],"all strings and digit sequences, all four radices, all precisions and rounding modes",
 "Tests round-trip random numbers through text and check parser states of fixed literals; leading zeros, long digit strings, ties and extreme exponents form an infinite language.",
 ["parser.rs","conv.rs","mantissa/conv.rs"],
 [("parse","parser.rs"),("convert_from_radix, conv_from_binary, conv_from_commensurable, conv_from_num_dec","conv.rs")],
 ["BigFloat::parse","BigFloat::convert_from_radix","FromStr"]))
L.append(P("C14","Numbers are written as numerals that denote them",
 "Converting a finite number to radix 2, 8 or 16 yields digits and an exponent that denote exactly the number, and parsing the formatted text back gives an equal number. Converting to radix 10 yields digits that are the correctly rounded decimal representation under the requested rounding mode for the number of digits that corresponds to the precision.",
 ["inputs"],"all finite numbers including subnormals and zero, all four radices, all rounding modes",
 "Tests round-trip random numbers with tolerance; sparse mantissas, digit boundaries straddling words and exponents not divisible by the digit width are unbounded.",
 ["strop.rs","conv.rs","mantissa/conv.rs"],
 [("convert_to_radix, conv_to_binary, conv_to_commensurable, conv_to_dec","conv.rs"),("conv_to_dec","mantissa/conv.rs"),("format","strop.rs")],
 ["BigFloat::convert_to_radix","BigFloat::format"]))
L.append(P("C15","Constants do not depend on the history of the cache",
 "pi, e, ln 2 and ln 10 returned at any precision and rounding mode are the correctly rounded constants, whatever sequence of precisions and constants was requested from the cache before.",
 ["histories","inputs"],"all finite sequences of requests to a constants cache, all precisions and rounding modes",
 "Tests request each constant a few times in ascending precision; the cache is reused or extended depending on the whole history.",
 ["ops/consts/mod.rs","ops/consts/pi.rs","ops/consts/e.rs","ops/consts/ln2.rs","ops/consts/ln10.rs"],
 [("PiCache, ECache, Ln2Cache, Ln10Cache for_prec","ops/consts/")],
 ["Consts::pi","Consts::e","Consts::ln_2","Consts::ln_10"]))
L.append(P("C16","Context limits hold for every sequence of settings",
 "A context always holds a minimum exponent between the library minimum and 0 and a maximum exponent between 0 and the library maximum, whatever values and order they are set in, and returns precision and rounding mode as last set. Restricting a number to an exponent range yields infinity of the same sign above it, zero below it, and the unchanged number inside it.",
 ["inputs","histories"],"all exponent bounds, all numbers, all sequences of context updates",
 "Tests set one pair of limits; the interplay of out-of-range limits with clamping is not sampled.",
 ["ctx.rs","macro_util.rs"],
 [("Context::new, set_emin, set_emax, clone","ctx.rs"),("check_exponent_range","macro_util.rs")],
 ["Context","expr! results"]))
L.append(P("C17","Integer powers are correctly rounded",
 "For every finite number, every unsigned exponent n, every p >= 1 and every rounding mode, powi returns exactly the number that the rounding mode selects for the exact n-th power at precision p rounded up to a whole word (with None: a neighbour or the exact value).",
 ["inputs"],"all finite numbers, all n, all p, all rounding modes",
 "Tests compare with repeated multiplication for small random cases within an error.",
 ["ops/pow.rs"],
 [("powi","ops/pow.rs")],["BigFloat::powi"]))
L.append(P("C18","Every number produced is well formed",
 "Every number returned by an operation has a mantissa of exactly the promised number of whole words, is normalised unless its exponent is the smallest one, and holds zero in a single canonical form apart from its sign, so that every later operation can rely on it. No operation on well-formed numbers panics, reads or writes outside its buffers, or exposes uninitialised words.",
 ["inputs","histories"],"all operations on all well-formed numbers, hence all sequences of operations",
 "Tests look at values, seldom at the representation, and never at the uninitialised part of freshly allocated buffers; an ill-formed number shows up only in a later operation.",
 ["num.rs","mantissa/mantissa.rs","mantissa/util.rs","common/util.rs","common/buf.rs"],
 [("normalisation and trimming in every constructor and operation","num.rs"),("WordBuf::new, set_len, trunc_to, try_extend","common/buf.rs"),("raw pointer loops","common/util.rs")],
 ["all operations, as_raw_parts"],[("length, number of bits, exponent, sign, inexact","representation of a number","num.rs")]))
L.append(P("C19","Elementary functions are correctly rounded",
 "exp, ln, log2, log10, log, pow, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh and atanh return the correctly rounded value of the exact mathematical result for every finite argument in their domain, every precision and every rounding mode.",
 ["inputs"],"all finite arguments, precisions and rounding modes",
 "Tests check identities within an error on random arguments.",
 ["ops/exp.rs","ops/log.rs","ops/pow.rs","ops/sin.rs","ops/cos.rs","ops/tan.rs","ops/asin.rs","ops/acos.rs","ops/atan.rs","ops/sinh.rs","ops/cosh.rs","ops/tanh.rs","ops/asinh.rs","ops/acosh.rs","ops/atanh.rs","ops/series.rs"],
 [("Ziv loop with error bound and try_set_precision","ops/")],["BigFloat::exp","BigFloat::ln","BigFloat::sin"]))
L.append(P("C20","Expressions compiled by the expression macro are correctly rounded",
 "The value of an expression given to the expression macro is the correctly rounded value of the expression at the precision and rounding mode of the context, for all argument values in the domain of the expression.",
 ["programs","inputs"],"all expressions of the macro grammar and all argument values",
 "Tests evaluate a fixed list of expressions.",
 ["macro_util.rs","astro-float-macro/src/lib.rs"],
 [("generated loop that raises the working precision until rounding succeeds","macro_util.rs")],["expr!"]))
with open('/verif/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p)+"\n")
