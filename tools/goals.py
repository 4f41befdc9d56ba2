"""Which functions carry each property (their postconditions state it), and at which callees a property stops:
the contract of a stopped callee is assumed for that property and discharged by the check of the property named."""
X='ext::BigFloat::'; N='num::BigFloatNumber::'; M='mant::Mantissa::'
def l(p,s): return [p+x for x in s.split()]
A='arith::BigFloatNumber::'; P='prec::BigFloatNumber::'
ARITH={A+'mul':'C02',A+'mul_full_prec':'C05',A+'div':'C03',A+'reciprocal':'C03',A+'add':'C01',A+'sub':'C01',A+'add_full_prec':'C05',A+'sub_full_prec':'C05'}
GOALS={
 'C01': dict(goals=l(X,'add sub')+l(A,'add sub add_sub')+['asum::Mantissa::abs_add','asum::Mantissa::abs_sub']),
 'C02': dict(goals=l(X,'mul')+l(A,'mul mul_general_case')),
 'C03': dict(goals=l(X,'div reciprocal')+l(A,'div reciprocal')),
 'C05': dict(goals=l(X,'add_full_prec sub_full_prec mul_full_prec rem')+l(A,'add_full_prec sub_full_prec mul_full_prec add_sub')),
 'C06': dict(goals=l(X,'cmp abs_cmp min max clamp op_eq0 op_eq1 op_cmp0 op_cmp1')),
 'C07': dict(goals=l(X,'set_precision')+l(P,'set_precision set_precision_internal')),
 'C08': dict(goals=l(X,'int fract floor ceil is_int')+l('part::BigFloatNumber::','int fract floor ceil is_int')),
 'C09': dict(goals=l(X,'add sub mul div set_precision result_to_ext')+l(A,'add_sub mul_general_case div subnormalize new_subnormal normalize')+l(P,'set_precision')),
 'C10': dict(goals=l(X,'add sub mul div rem add_full_prec sub_full_prec mul_full_prec neg abs signum result_to_ext'),stop=ARITH),
 'C11': dict(goals=l(X,'from_word from_words from_raw_parts as_raw_parts max_value min_value min_positive min_positive_normal from_u8 from_u16 from_u32 from_u64 from_i8 from_i16 from_i32 from_i64 from_u128 from_i128 from_f64 from_f32 op_from_u128 op_from_i128 op_from_f64 op_from_f32 op_from_u8 op_from_u16 op_from_u32 op_from_u64 op_from_i8 op_from_i16 op_from_i32 op_from_i64 nan new')),
 'C12': dict(goals=l(X,'is_nan is_inf is_inf_pos is_inf_neg is_zero is_positive is_negative is_subnormal classify signum sign exponent precision mantissa_max_bit_len mantissa_digits neg abs inv_sign set_sign clone inexact set_inexact set_exponent')),
 'C18': dict(goals=l(X,'add sub mul div reciprocal add_full_prec sub_full_prec mul_full_prec neg abs signum clone set_precision int fract floor ceil set_exponent from_word from_words from_raw_parts max_value min_value min_positive min_positive_normal from_u64 from_i64 min max clamp cmp abs_cmp')),
 'C16': dict(goals=['ctx::Context::'+x for x in 'new to_raw_parts set_precision set_rounding_mode set_consts set_emin set_emax precision rounding_mode emin emax clone'.split()]+['ctx::check_exponent_range']),
}
NOTE={
 'C01': 'add and sub are proved correctly rounded, from the public functions down to add_sub (alignment, sign, cancellation, normalisation, underflow and overflow, inexact flag), for all well-formed operands, every precision and mode. The sums and differences of two aligned digit sequences with sticky digit, carry, normalisation and rounding (Mantissa::abs_add, abs_sub) are proved word by word.',
 'C05': 'add_full_prec, sub_full_prec and mul_full_prec are proved exact for all well-formed operands, with the mantissa sums and differences proved word by word, over the contract of mul_unbalanced, which is assumed and exercised by the bounded oracle; rem is proved to treat special values and to return what the number-level remainder returns, whose contract is assumed and exercised by the bounded oracle.',
 'C03': 'div and reciprocal are proved correctly rounded, from the public functions down to the rounding of the quotient of the mantissas, for all well-formed operands, every precision and mode. The integer quotient and remainder of two digit sequences (div_unbalanced) is an assumed contract, exercised by the bounded oracle; the static ONE is modelled by the proved contract of from_word.',
 'C02': 'The number-level multiplication (normalisation, rounding, underflow, overflow, inexact flag, full precision) is proved against the correct-rounding specification for all well-formed operands, every precision and mode; so is the rounding of the product of the mantissas. The integer product of two digit sequences (mul_unbalanced) is an assumed contract, exercised by the bounded oracle.',
 'C08': 'int, fract, floor, ceil and is_int are proved for all well-formed numbers of any precision: the integer part and the fraction are those of the value and add up to it, floor and ceil are the neighbouring integers (infinity only beyond the exponent range), flag, sign and precision are kept.',
 'C07': 'set_precision is proved to return the number that the mode selects, for all numbers, precisions and modes; round and try_set_precision are covered by the bounded oracle only.',
 'C09': 'Rounding below the smallest normal number and overflow are proved for addition, subtraction, multiplication, division, set_precision and the helpers that every operation uses to build a subnormal result; the other operations are covered by the bounded oracle.',
 'C06': 'cmp, abs_cmp, min, max, clamp and the comparison operators satisfy the order of the represented values, proved for all well-formed numbers of at most 2^56 words; the text verified is extracted from /repo on every run. Allocation failure is an allowed outcome (NaN). A bounded oracle runs the same property on the real crate.',
 'C10': 'The special-value tables of add, sub, mul, div, rem, the full-precision variants, neg, abs and signum are proved for all arguments; the finite cases rely on the contracts of the number operations, which the checks of C01, C02, C03, C05 discharge or list as assumed. The square root and the powers are covered by the bounded oracle only.',
 'C11': 'from_word, from_words, from_raw_parts, as_raw_parts, all integer conversions and the limit values are proved exact for all arguments; from_f64 is proved exact from the bits of the double (comparison with zero, negation and classification of doubles are assumed to be those of IEEE 754, the widening of f32 to be exact).',
 'C12': 'Every accessor, classifier and sign operation is proved to agree with the value represented, for all well-formed numbers.',
 'C18': 'Every function under contract is proved to return a well-formed number and to index inside its buffers, without arithmetic overflow or panic, for all well-formed arguments; the digit-level functions whose contracts are assumed and the operations outside the verified program are covered by the bounded oracle, which checks the form of every result on the real crate.',
 'C16': 'The Context range invariant is proved for new and every setter and getter, hence for every sequence of them; restricting a number to an exponent range is proved for all numbers. Consts is an opaque trusted type.',
}
_later='no contract within reach yet; see DESIGN.md'
NA={'C%02d'%i:_later for i in range(1,21)}
NA['C15']='The cached constants are computed by binary splitting over series: the statement needs the real numbers pi, e and logarithms and error analysis of series in the verifier, which no contract within reach of Verus expresses.'
NA['C19']='Correct rounding of elementary functions needs real analysis (series, argument reduction, error bounds, table-maker loops); no contract within reach of a deductive verifier for Rust expresses it.'
NA['C20']='The macro generates programs over the elementary functions; its values depend on C19 and on a procedural macro, which is outside the language the verifier reads.'
