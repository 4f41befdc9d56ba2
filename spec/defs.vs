%% ghost
impl Sign {
    pub open spec fn spec_invert(&self) -> Sign { if *self == Sign::Pos { Sign::Neg } else { Sign::Pos } }
}
%% disc defs.rs RoundingMode rm_bits u32
%% disc defs.rs Sign sign_int i8
%% item defs.rs||Word
%% item defs.rs||DoubleWord
%% item defs.rs||SignedWord
%% item defs.rs||Exponent
%% item defs.rs||EXPONENT_MAX
fold
%% item defs.rs||EXPONENT_MIN
fold
%% item defs.rs||WORD_MAX
fold
%% item defs.rs||WORD_BASE
fold
%% item defs.rs||WORD_BIT_SIZE
fold
%% item defs.rs||WORD_SIGNIFICANT_BIT
fold
%% item defs.rs||DEFAULT_P
fold
%% item defs.rs||EXPONENT_BIT_SIZE
fold
%% item defs.rs||Sign
#[derive(PartialEq, Eq, Structural, Copy, Clone)]
%% item defs.rs||Radix
#[derive(PartialEq, Eq, Structural, Copy, Clone)]
%% item defs.rs||RoundingMode
#[derive(PartialEq, Eq, Structural, Copy, Clone)]
%% item defs.rs||Error
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
%% fn defs.rs|impl Sign|invert
pub fn invert(&self) -> (ret: Self)
@    ensures ret == self.spec_invert(),
{
    match *self {
        Sign::Pos => Sign::Neg,
        Sign::Neg => Sign::Pos,
    }
}
%% fn defs.rs|impl Sign|is_positive
pub fn is_positive(&self) -> (ret: bool)
@    ensures ret == (*self == Sign::Pos),
{
    *self == Sign::Pos
}
%% fn defs.rs|impl Sign|is_negative
pub fn is_negative(&self) -> (ret: bool)
@    ensures ret == (*self == Sign::Neg),
{
    *self == Sign::Neg
}
%% fn defs.rs|impl Sign|to_int
pub fn to_int(&self) -> (ret: i8)
@    ensures ret == (if *self == Sign::Pos { 1i8 } else { -1i8 }),
{
