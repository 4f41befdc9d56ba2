%% item ext.rs||Flavor
pub
%% item ext.rs||BigFloat
%% item ext.rs||NAN
%% item ext.rs||INF_POS
%% item ext.rs||INF_NEG
%% ghost
pub use core::num::FpCategory;
#[verifier::external_type_specification]
pub struct ExFpCategory(core::num::FpCategory);
impl BigFloat {
    pub open spec fn wf(&self) -> bool { self.inner is Value ==> self.inner->Value_0.wf() }
    pub open spec fn v(&self) -> BigFloatNumber { self.inner->Value_0 }
    pub open spec fn isv(&self) -> bool { self.inner is Value }
    pub open spec fn isinf(&self, s: Sign) -> bool { self.inner == Flavor::Inf(s) }
    pub open spec fn zero(&self) -> bool { self.inner is Value && self.inner->Value_0.m.n == 0 }
    /// position in the order of all values other than NaN
    pub open spec fn ord(&self) -> (int, int) {
        match self.inner { Flavor::Value(v) => (0, v.sv()), Flavor::Inf(Sign::Pos) => (1, 0), _ => (-1, 0) }
    }
    pub open spec fn aord(&self) -> (int, int) {
        match self.inner { Flavor::Value(v) => (0, v.mag() as int), _ => (1, 0) }
    }
    pub open spec fn same(&self, x: BigFloat) -> bool {
        match self.inner { Flavor::Value(v) => x.isv() && v.same(x.v()), Flavor::Inf(s) => x.isinf(s), Flavor::NaN(_) => x.inner == self.inner }
    }
}
pub open spec fn nomem(x: BigFloat) -> bool { x.inner == Flavor::NaN(Some(Error::MemoryAllocation)) }
pub open spec fn lt(a: (int, int), b: (int, int)) -> bool { a.0 < b.0 || a.0 == b.0 && a.1 < b.1 }
/// the correctly rounded result, an infinity beyond the largest exponent, NaN when memory runs out or the precision is out of range
pub open spec fn eres(x: nat, s: int, sg: Sign, p: usize, rm: RoundingMode, dirty: bool, ret: BigFloat) -> bool {
    match ret.inner {
        Flavor::Value(r) => cround(x, s, sg, words_of(p), rm, dirty, r),
        Flavor::Inf(g) => g == sg && coverflow(x, s, sg, words_of(p), rm),
        Flavor::NaN(Some(Error::MemoryAllocation)) => true,
        Flavor::NaN(Some(Error::InvalidArgument)) => p >= pmax() - 63,
        Flavor::NaN(_) => false,
    }
}
pub open spec fn eexres(x: nat, s: int, sg: Sign, dirty: bool, ret: BigFloat) -> bool {
    match ret.inner {
        Flavor::Value(r) => exact(x, s, sg, dirty, r),
        Flavor::Inf(g) => g == sg && x >= pow2((EXPONENT_MAX + s) as nat),
        Flavor::NaN(Some(Error::MemoryAllocation)) => true,
        Flavor::NaN(_) => false,
    }
}
pub open spec fn ssign(a: Sign, b: Sign) -> Sign { if a == b { Sign::Pos } else { Sign::Neg } }
/// what becomes of the result of an operation on numbers
pub open spec fn r2e(res: Result<BigFloatNumber, Error>, dz: bool, ss: bool) -> Flavor {
    match res {
        Ok(v) => Flavor::Value(v),
        Err(Error::ExponentOverflow(s)) => Flavor::Inf(s),
        Err(Error::DivisionByZero) => if dz { Flavor::NaN(None) } else if ss { Flavor::Inf(Sign::Pos) } else { Flavor::Inf(Sign::Neg) },
        Err(e) => Flavor::NaN(Some(e)),
    }
}
/// the argument given by an integer
pub open spec fn ewordres(i: int, bits: int, p: usize, ret: BigFloat) -> bool {
    match ret.inner {
        Flavor::Value(r) => wordres(i, p, Ok(r)),
        Flavor::NaN(Some(e)) => e == Error::InvalidArgument && p < bits || wordres(i, p, Err(e)),
        _ => false,
    }
}
/// the double: NaN, infinity, or exactly its value
pub open spec fn efloatres(u: u64, p: usize, ret: BigFloat) -> bool {
    match ret.inner {
        Flavor::Value(r) => floatres(u, p, Ok(r)),
        Flavor::NaN(Some(e)) => floatres(u, p, Err(e)),
        Flavor::NaN(None) => false,
        Flavor::Inf(s) => floatres(u, p, Err(Error::ExponentOverflow(s))),
    }
}
pub open spec fn mulex(a: BigFloatNumber, b: BigFloatNumber, ret: BigFloat) -> bool {
    match ret.inner {
        Flavor::Value(r) => r.s == ssign(a.s, b.s) && (a.mag() * b.mag() >= pow2((EXPONENT_MIN - 1 + 2 * kk()) as nat) ==> exact(a.mag() * b.mag(), 2 * kk(), r.s, a.inexact || b.inexact, r)),
        Flavor::Inf(g) => g == ssign(a.s, b.s) && a.mag() * b.mag() >= pow2((EXPONENT_MAX + 2 * kk()) as nat),
        Flavor::NaN(Some(Error::MemoryAllocation)) => true,
        Flavor::NaN(_) => false,
    }
}
pub open spec fn edivres(a: BigFloatNumber, b: BigFloatNumber, p: usize, rm: RoundingMode, ret: BigFloat) -> bool {
    match ret.inner {
        Flavor::Value(r) => divres(a, b, p, rm, Ok(r)),
        Flavor::Inf(g) => divres(a, b, p, rm, Err(Error::ExponentOverflow(g))),
        Flavor::NaN(Some(Error::MemoryAllocation)) => true,
        Flavor::NaN(Some(Error::InvalidArgument)) => p >= pmax() - 63,
        Flavor::NaN(_) => false,
    }
}
pub open spec fn erecres(b: BigFloatNumber, p: usize, rm: RoundingMode, ret: BigFloat) -> bool {
    match ret.inner {
        Flavor::Value(r) => recres(b, p, rm, Ok(r)),
        Flavor::Inf(g) => recres(b, p, rm, Err(Error::ExponentOverflow(g))),
        Flavor::NaN(Some(Error::MemoryAllocation)) => true,
        Flavor::NaN(Some(Error::InvalidArgument)) => p >= pmax() - 63,
        Flavor::NaN(_) => false,
    }
}
pub open spec fn snan(x: BigFloat, y: BigFloat) -> bool { x.inner is NaN || y.inner is NaN }
%% fn ext.rs|impl BigFloat|new
pub fn new(p: usize) -> (ret: Self)
@    ensures match ret.inner { Flavor::Value(v) => p < pmax() && v.m.l() == words_of(p) && v.m.n == 0 && v.e == 0 && v.s == Sign::Pos && !v.inexact && v.sv() == 0 && (p > 0 ==> v.wf()), Flavor::NaN(Some(Error::MemoryAllocation)) => true, Flavor::NaN(Some(Error::InvalidArgument)) => p >= pmax(), _ => false },
{
    Self::result_to_ext(BigFloatNumber::new(p), false, true)
}
%% fn ext.rs|impl BigFloat|nan
pub fn nan(err: Option<Error>) -> (ret: Self)
@    ensures ret.inner == Flavor::NaN(err),
{
    BigFloat {
        inner: Flavor::NaN(err),
    }
}
%% fn ext.rs|impl BigFloat|is_inf_pos
pub fn is_inf_pos(&self) -> (ret: bool)
@    ensures ret == (self.inner == Flavor::Inf(Sign::Pos)),
{
    matches!(self.inner, Flavor::Inf(Sign::Pos))
}
%% fn ext.rs|impl BigFloat|is_inf_neg
pub fn is_inf_neg(&self) -> (ret: bool)
@    ensures ret == (self.inner == Flavor::Inf(Sign::Neg)),
{
    matches!(self.inner, Flavor::Inf(Sign::Neg))
}
%% fn ext.rs|impl BigFloat|is_inf
pub fn is_inf(&self) -> (ret: bool)
@    ensures ret == (self.inner is Inf),
{
    matches!(self.inner, Flavor::Inf(_))
}
%% fn ext.rs|impl BigFloat|is_nan
pub fn is_nan(&self) -> (ret: bool)
@    ensures ret == (self.inner is NaN),
{
    matches!(self.inner, Flavor::NaN(_))
}
%% fn ext.rs|impl BigFloat|err
pub fn err(&self) -> (ret: Option<Error>)
@    ensures ret == (match self.inner { Flavor::NaN(e) => e, _ => None }),
{
    match &self.inner {
        Flavor::NaN(Some(e)) => Some(*e),
        _ => None,
    }
}
%% fn ext.rs|impl BigFloat|add
pub fn add(&self, d2: &Self, p: usize, rm: RoundingMode) -> (ret: Self)
@    requires self.wf(), d2.wf(), p > 0,
@    ensures ret.wf(), snan(*self, *d2) ==> ret.inner is NaN,
@        self.isv() && d2.inner is Inf ==> ret.isinf(d2.inner->Inf_0),
@        self.inner is Inf && d2.isv() ==> ret.inner == self.inner,
@        self.inner is Inf && d2.inner is Inf ==> if self.inner->Inf_0 == d2.inner->Inf_0.spec_invert() { ret.inner is NaN } else { ret.inner == self.inner },
@        self.isv() && d2.isv() ==> eres(iabs(self.v().sv() + d2.v().sv()), kk(), isgn(self.v().sv() + d2.v().sv()), p, rm, self.v().inexact || d2.v().inexact, ret),
{
    self.add_op(d2, p, rm, false)
}
%% fn ext.rs|impl BigFloat|add_full_prec
pub fn add_full_prec(&self, d2: &Self) -> (ret: Self)
@    requires self.wf(), d2.wf(),
@    ensures ret.wf(), snan(*self, *d2) ==> ret.inner is NaN,
@        self.isv() && d2.inner is Inf ==> ret.isinf(d2.inner->Inf_0),
@        self.inner is Inf && d2.isv() ==> ret.inner == self.inner,
@        self.inner is Inf && d2.inner is Inf ==> if self.inner->Inf_0 == d2.inner->Inf_0.spec_invert() { ret.inner is NaN } else { ret.inner == self.inner },
@        self.isv() && d2.isv() ==> eexres(iabs(self.v().sv() + d2.v().sv()), kk(), isgn(self.v().sv() + d2.v().sv()), self.v().inexact || d2.v().inexact, ret),
{
    self.add_op(d2, 0, RoundingMode::None, true)
}
%% fn ext.rs|impl BigFloat|add_op
pub fn add_op(&self, d2: &Self, p: usize, rm: RoundingMode, full_prec: bool) -> (ret: Self)
@    requires self.wf(), d2.wf(), full_prec || p > 0,
@    ensures ret.wf(), snan(*self, *d2) ==> ret.inner is NaN,
@        self.isv() && d2.inner is Inf ==> ret.isinf(d2.inner->Inf_0),
@        self.inner is Inf && d2.isv() ==> ret.inner == self.inner,
@        self.inner is Inf && d2.inner is Inf ==> if self.inner->Inf_0 == d2.inner->Inf_0.spec_invert() { ret.inner is NaN } else { ret.inner == self.inner },
@        self.isv() && d2.isv() ==> (if full_prec { eexres(iabs(self.v().sv() + d2.v().sv()), kk(), isgn(self.v().sv() + d2.v().sv()), self.v().inexact || d2.v().inexact, ret) } else { eres(iabs(self.v().sv() + d2.v().sv()), kk(), isgn(self.v().sv() + d2.v().sv()), p, rm, self.v().inexact || d2.v().inexact, ret) }),
{
    match &self.inner {
        Flavor::Value(v1) => match &d2.inner {
            Flavor::Value(v2) => Self::result_to_ext(
                if full_prec {
                    v1.add_full_prec(v2)
                } else {
                    v1.add(v2, p, rm)
                },
                v1.is_zero(),
                v1.sign() == v2.sign(),
            ),
            Flavor::Inf(s2) => BigFloat {
                inner: Flavor::Inf(*s2),
            },
            Flavor::NaN(err) => Self::nan(*err),
        },
        Flavor::Inf(s1) => match &d2.inner {
            Flavor::Value(_) => BigFloat {
                inner: Flavor::Inf(*s1),
            },
            Flavor::Inf(s2) => {
                if *s1 != *s2 {
                    NAN
                } else {
                    BigFloat {
                        inner: Flavor::Inf(*s2),
                    }
                }
            }
            Flavor::NaN(err) => Self::nan(*err),
        },
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|sub
pub fn sub(&self, d2: &Self, p: usize, rm: RoundingMode) -> (ret: Self)
@    requires self.wf(), d2.wf(), p > 0,
@    ensures ret.wf(), snan(*self, *d2) ==> ret.inner is NaN,
@        self.isv() && d2.inner is Inf ==> ret.isinf(d2.inner->Inf_0.spec_invert()),
@        self.inner is Inf && d2.isv() ==> ret.inner == self.inner,
@        self.inner is Inf && d2.inner is Inf ==> if self.inner->Inf_0 == d2.inner->Inf_0 { ret.inner is NaN } else { ret.inner == self.inner },
@        self.isv() && d2.isv() ==> eres(iabs(self.v().sv() - d2.v().sv()), kk(), isgn(self.v().sv() - d2.v().sv()), p, rm, self.v().inexact || d2.v().inexact, ret),
{
    self.sub_op(d2, p, rm, false)
}
%% fn ext.rs|impl BigFloat|sub_full_prec
pub fn sub_full_prec(&self, d2: &Self) -> (ret: Self)
@    requires self.wf(), d2.wf(),
@    ensures ret.wf(), snan(*self, *d2) ==> ret.inner is NaN,
@        self.isv() && d2.inner is Inf ==> ret.isinf(d2.inner->Inf_0.spec_invert()),
@        self.inner is Inf && d2.isv() ==> ret.inner == self.inner,
@        self.inner is Inf && d2.inner is Inf ==> if self.inner->Inf_0 == d2.inner->Inf_0 { ret.inner is NaN } else { ret.inner == self.inner },
@        self.isv() && d2.isv() ==> eexres(iabs(self.v().sv() - d2.v().sv()), kk(), isgn(self.v().sv() - d2.v().sv()), self.v().inexact || d2.v().inexact, ret),
{
    self.sub_op(d2, 0, RoundingMode::None, true)
}
%% fn ext.rs|impl BigFloat|sub_op
pub fn sub_op(&self, d2: &Self, p: usize, rm: RoundingMode, full_prec: bool) -> (ret: Self)
@    requires self.wf(), d2.wf(), full_prec || p > 0,
@    ensures ret.wf(), snan(*self, *d2) ==> ret.inner is NaN,
@        self.isv() && d2.inner is Inf ==> ret.isinf(d2.inner->Inf_0.spec_invert()),
@        self.inner is Inf && d2.isv() ==> ret.inner == self.inner,
@        self.inner is Inf && d2.inner is Inf ==> if self.inner->Inf_0 == d2.inner->Inf_0 { ret.inner is NaN } else { ret.inner == self.inner },
@        self.isv() && d2.isv() ==> (if full_prec { eexres(iabs(self.v().sv() - d2.v().sv()), kk(), isgn(self.v().sv() - d2.v().sv()), self.v().inexact || d2.v().inexact, ret) } else { eres(iabs(self.v().sv() - d2.v().sv()), kk(), isgn(self.v().sv() - d2.v().sv()), p, rm, self.v().inexact || d2.v().inexact, ret) }),
{
    match &self.inner {
        Flavor::Value(v1) => match &d2.inner {
            Flavor::Value(v2) => Self::result_to_ext(
                if full_prec {
                    v1.sub_full_prec(v2)
                } else {
                    v1.sub(v2, p, rm)
                },
                v1.is_zero(),
                v1.sign() == v2.sign(),
            ),
            Flavor::Inf(s2) => {
                if s2.is_positive() {
                    INF_NEG
                } else {
                    INF_POS
                }
            }
            Flavor::NaN(err) => Self::nan(*err),
        },
        Flavor::Inf(s1) => match &d2.inner {
            Flavor::Value(_) => BigFloat {
                inner: Flavor::Inf(*s1),
            },
            Flavor::Inf(s2) => {
                if *s1 == *s2 {
                    NAN
                } else {
                    BigFloat {
                        inner: Flavor::Inf(*s1),
                    }
                }
            }
            Flavor::NaN(err) => Self::nan(*err),
        },
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|mul
pub fn mul(&self, d2: &Self, p: usize, rm: RoundingMode) -> (ret: Self)
@    requires self.wf(), d2.wf(), p > 0,
@    ensures ret.wf(), snan(*self, *d2) ==> ret.inner is NaN,
@        self.inner is Inf && d2.zero() || self.zero() && d2.inner is Inf ==> ret.inner is NaN,
@        self.inner is Inf && d2.isv() && !d2.zero() ==> ret.isinf(ssign(self.inner->Inf_0, d2.v().s)),
@        d2.inner is Inf && self.isv() && !self.zero() ==> ret.isinf(ssign(d2.inner->Inf_0, self.v().s)),
@        self.inner is Inf && d2.inner is Inf ==> ret.isinf(ssign(self.inner->Inf_0, d2.inner->Inf_0)),
@        self.isv() && d2.isv() && (self.zero() || d2.zero()) ==> ret.isv() && ret.v().s == ssign(self.v().s, d2.v().s) || nomem(ret) || p >= pmax() - 63,
@        self.isv() && d2.isv() ==> eres(self.v().mag() * d2.v().mag(), 2 * kk(), ssign(self.v().s, d2.v().s), p, rm, self.v().inexact || d2.v().inexact, ret),
{
    self.mul_op(d2, p, rm, false)
}
%% fn ext.rs|impl BigFloat|mul_full_prec
pub fn mul_full_prec(&self, d2: &Self) -> (ret: Self)
@    requires self.wf(), d2.wf(),
@    ensures ret.wf(), snan(*self, *d2) ==> ret.inner is NaN,
@        self.inner is Inf && d2.zero() || self.zero() && d2.inner is Inf ==> ret.inner is NaN,
@        self.inner is Inf && d2.isv() && !d2.zero() ==> ret.isinf(ssign(self.inner->Inf_0, d2.v().s)),
@        d2.inner is Inf && self.isv() && !self.zero() ==> ret.isinf(ssign(d2.inner->Inf_0, self.v().s)),
@        self.inner is Inf && d2.inner is Inf ==> ret.isinf(ssign(self.inner->Inf_0, d2.inner->Inf_0)),
@        self.isv() && d2.isv() && (self.zero() || d2.zero()) ==> ret.isv() && ret.v().s == ssign(self.v().s, d2.v().s) || nomem(ret),
@        self.isv() && d2.isv() ==> mulex(self.v(), d2.v(), ret),
{
    self.mul_op(d2, 0, RoundingMode::None, true)
}
%% fn ext.rs|impl BigFloat|mul_op
pub fn mul_op(&self, d2: &Self, p: usize, rm: RoundingMode, full_prec: bool) -> (ret: Self)
@    requires self.wf(), d2.wf(), full_prec || p > 0,
@    ensures ret.wf(), snan(*self, *d2) ==> ret.inner is NaN,
@        self.inner is Inf && d2.zero() || self.zero() && d2.inner is Inf ==> ret.inner is NaN,
@        self.inner is Inf && d2.isv() && !d2.zero() ==> ret.isinf(ssign(self.inner->Inf_0, d2.v().s)),
@        d2.inner is Inf && self.isv() && !self.zero() ==> ret.isinf(ssign(d2.inner->Inf_0, self.v().s)),
@        self.inner is Inf && d2.inner is Inf ==> ret.isinf(ssign(self.inner->Inf_0, d2.inner->Inf_0)),
@        self.isv() && d2.isv() && (self.zero() || d2.zero()) ==> ret.isv() && ret.v().s == ssign(self.v().s, d2.v().s) || nomem(ret) || !full_prec && p >= pmax() - 63,
@        self.isv() && d2.isv() ==> (if full_prec { mulex(self.v(), d2.v(), ret) } else { eres(self.v().mag() * d2.v().mag(), 2 * kk(), ssign(self.v().s, d2.v().s), p, rm, self.v().inexact || d2.v().inexact, ret) }),
{
    match &self.inner {
        Flavor::Value(v1) => match &d2.inner {
            Flavor::Value(v2) => Self::result_to_ext(
                if full_prec {
                    v1.mul_full_prec(v2)
                } else {
                    v1.mul(v2, p, rm)
                },
                v1.is_zero(),
                v1.sign() == v2.sign(),
            ),
            Flavor::Inf(s2) => {
                if v1.is_zero() {
                    NAN
                } else {
                    let s = if v1.sign() == *s2 { Sign::Pos } else { Sign::Neg };
                    BigFloat {
                        inner: Flavor::Inf(s),
                    }
                }
            }
            Flavor::NaN(err) => Self::nan(*err),
        },
        Flavor::Inf(s1) => match &d2.inner {
            Flavor::Value(v2) => {
                if v2.is_zero() {
                    NAN
                } else {
                    let s = if v2.sign() == *s1 { Sign::Pos } else { Sign::Neg };
                    BigFloat {
                        inner: Flavor::Inf(s),
                    }
                }
            }
            Flavor::Inf(s2) => {
                let s = if s1 == s2 { Sign::Pos } else { Sign::Neg };
                BigFloat {
                    inner: Flavor::Inf(s),
                }
            }
            Flavor::NaN(err) => Self::nan(*err),
        },
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|div
pub fn div(&self, d2: &Self, p: usize, rm: RoundingMode) -> (ret: Self)
@    requires self.wf(), d2.wf(), p > 0,
@    ensures snan(*self, *d2) ==> ret.inner is NaN,
@        self.inner is Inf && d2.inner is Inf ==> ret.inner is NaN,
@        self.inner is Inf && d2.isv() ==> ret.isinf(ssign(self.inner->Inf_0, d2.v().s)),
@        self.isv() && d2.inner is Inf ==> ret.zero() || nomem(ret) || self.v().m.l() * 64 >= pmax(),
@        self.zero() && d2.zero() ==> ret.inner is NaN,
@        self.isv() && !self.zero() && d2.zero() ==> ret.isinf(ssign(self.v().s, d2.v().s)),
@        self.zero() && d2.isv() && !d2.zero() ==> ret.zero() && ret.v().s == ssign(self.v().s, d2.v().s) || nomem(ret) || p >= pmax() - 63,
@        ret.wf(), self.isv() && d2.isv() && !d2.zero() ==> edivres(self.v(), d2.v(), p, rm, ret),
{
    match &self.inner {
        Flavor::Value(v1) => match &d2.inner {
            Flavor::Value(v2) => {
                Self::result_to_ext(v1.div(v2, p, rm), v1.is_zero(), v1.sign() == v2.sign())
            }
            Flavor::Inf(_) => Self::new(v1.mantissa_max_bit_len()),
            Flavor::NaN(err) => Self::nan(*err),
        },
        Flavor::Inf(s1) => match &d2.inner {
            Flavor::Value(v) => {
                if *s1 == v.sign() {
                    INF_POS
                } else {
                    INF_NEG
                }
            }
            Flavor::Inf(_) => NAN,
            Flavor::NaN(err) => Self::nan(*err),
        },
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|rem
pub fn rem(&self, d2: &Self) -> (ret: Self)
@    requires self.wf(), d2.wf(),
@    ensures ret.wf(), snan(*self, *d2) ==> ret.inner is NaN, self.inner is Inf || d2.zero() ==> ret.inner is NaN,
@        self.isv() && d2.inner is Inf ==> ret.same(*self) || nomem(ret),
@        self.isv() && d2.isv() && !d2.zero() ==> nomem(ret) || ret.isv() && exact(self.v().mag() % d2.v().mag(), kk(), self.v().s, ret.v().inexact, ret.v()),
{
    match &self.inner {
        Flavor::Value(v1) => match &d2.inner {
            Flavor::Value(v2) => Self::result_to_ext(v1.rem(v2), v1.is_zero(), v1.sign() == v2.sign()),
            Flavor::Inf(_) => self.clone(),
            Flavor::NaN(err) => Self::nan(*err),
        },
        Flavor::Inf(_) => NAN,
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|cmp
pub fn cmp(&self, d2: &BigFloat) -> (ret: Option<SignedWord>)
@    requires self.wf(), d2.wf(),
@    ensures ret is None <==> snan(*self, *d2), ret is Some ==> (ret->Some_0 < 0 <==> lt(self.ord(), d2.ord())) && (ret->Some_0 > 0 <==> lt(d2.ord(), self.ord())),
{
    match &self.inner {
        Flavor::Value(v1) => match &d2.inner {
            Flavor::Value(v2) => Some(v1.cmp(v2)),
            Flavor::Inf(s2) => {
                if *s2 == Sign::Pos {
                    Some(-1)
                } else {
                    Some(1)
                }
            }
            Flavor::NaN(_) => None,
        },
        Flavor::Inf(s1) => match &d2.inner {
            Flavor::Value(_) => Some((sign_int(*s1) as SignedWord)),
            Flavor::Inf(s2) => Some((sign_int(*s1) as SignedWord) - (sign_int(*s2) as SignedWord)),
            Flavor::NaN(_) => None,
        },
        Flavor::NaN(_) => None,
    }
}
%% fn ext.rs|impl BigFloat|abs_cmp
pub fn abs_cmp(&self, d2: &Self) -> (ret: Option<SignedWord>)
@    requires self.wf(), d2.wf(),
@    ensures ret is None <==> snan(*self, *d2), ret is Some ==> (ret->Some_0 < 0 <==> lt(self.aord(), d2.aord())) && (ret->Some_0 > 0 <==> lt(d2.aord(), self.aord())),
{
    match &self.inner {
        Flavor::Value(v1) => match &d2.inner {
            Flavor::Value(v2) => Some(v1.abs_cmp(v2)),
            Flavor::Inf(_) => Some(-1),
            Flavor::NaN(_) => None,
        },
        Flavor::Inf(_) => match &d2.inner {
            Flavor::Value(_) => Some(1),
            Flavor::Inf(_) => Some(0),
            Flavor::NaN(_) => None,
        },
        Flavor::NaN(_) => None,
    }
}
%% fn ext.rs|impl BigFloat|inv_sign
pub fn inv_sign(&mut self)
@    ensures match old(self).inner { Flavor::Value(v) => final(self).isv() && final(self).v().same_m(v) && final(self).v().s == v.s.spec_invert() && final(self).v().inexact == v.inexact && final(self).v().sv() == -v.sv(), Flavor::Inf(s) => final(self).isinf(s.spec_invert()), Flavor::NaN(_) => final(self).inner == old(self).inner },
{
    match &mut self.inner {
        Flavor::Value(v1) => v1.inv_sign(),
        Flavor::Inf(s) => self.inner = Flavor::Inf(s.invert()),
        Flavor::NaN(_) => {}
    }
}
%% fn ext.rs|impl BigFloat|is_positive
pub fn is_positive(&self) -> (ret: bool)
@    ensures ret == (match self.inner { Flavor::Value(v) => v.s == Sign::Pos, Flavor::Inf(s) => s == Sign::Pos, _ => false }),
{
    match &self.inner {
        Flavor::Value(v) => v.is_positive(),
        Flavor::Inf(s) => *s == Sign::Pos,
        Flavor::NaN(_) => false,
    }
}
%% fn ext.rs|impl BigFloat|is_negative
pub fn is_negative(&self) -> (ret: bool)
@    ensures ret == (match self.inner { Flavor::Value(v) => v.s == Sign::Neg, Flavor::Inf(s) => s == Sign::Neg, _ => false }),
{
    match &self.inner {
        Flavor::Value(v) => v.is_negative(),
        Flavor::Inf(s) => *s == Sign::Neg,
        Flavor::NaN(_) => false,
    }
}
%% fn ext.rs|impl BigFloat|is_subnormal
pub fn is_subnormal(&self) -> (ret: bool)
@    requires self.wf(),
@    ensures ret == (self.isv() && !self.zero() && self.v().m.n < 64 * self.v().m.l()),
{
    if let Flavor::Value(v) = &self.inner {
        return v.is_subnormal() && !v.is_zero();
    }
    false
}
%% fn ext.rs|impl BigFloat|is_zero
pub fn is_zero(&self) -> (ret: bool)
@    requires self.wf(),
@    ensures ret == self.zero(), ret == (self.isv() && self.v().sv() == 0),
{
    match &self.inner {
        Flavor::Value(v) => v.is_zero(),
        Flavor::Inf(_) => false,
        Flavor::NaN(_) => false,
    }
}
%% fn ext.rs|impl BigFloat|clamp
pub fn clamp(&self, min: &Self, max: &Self) -> (ret: Self)
@    requires self.wf(), min.wf(), max.wf(),
@    ensures ret.wf(), snan(*self, *min) || max.inner is NaN ==> ret.inner is NaN,
@        !snan(*self, *min) && !(max.inner is NaN) ==> (if lt(max.ord(), min.ord()) { ret.inner is NaN } else if lt(self.ord(), min.ord()) { ret.same(*min) || nomem(ret) } else if lt(max.ord(), self.ord()) { ret.same(*max) || nomem(ret) } else { ret.same(*self) || nomem(ret) }),
{
    if self.is_nan() || min.is_nan() || max.is_nan() || max.cmp(min).unwrap() < 0 {
        NAN
    } else if self.cmp(min).unwrap() < 0 {
        min.clone()
    } else if self.cmp(max).unwrap() > 0 {
        max.clone()
    } else {
        self.clone()
    }
}
%% fn ext.rs|impl BigFloat|max
pub fn max(&self, d1: &Self) -> (ret: Self)
@    requires self.wf(), d1.wf(),
@    ensures ret.wf(), snan(*self, *d1) ==> ret.inner is NaN, !snan(*self, *d1) ==> (nomem(ret) || (if lt(self.ord(), d1.ord()) { ret.same(*d1) } else { ret.same(*self) })),
{
    if self.is_nan() || d1.is_nan() {
        NAN
    } else if self.cmp(d1).unwrap() < 0 {
        d1.clone()
    } else {
        self.clone()
    }
}
%% fn ext.rs|impl BigFloat|min
pub fn min(&self, d1: &Self) -> (ret: Self)
@    requires self.wf(), d1.wf(),
@    ensures ret.wf(), snan(*self, *d1) ==> ret.inner is NaN, !snan(*self, *d1) ==> (nomem(ret) || (if lt(d1.ord(), self.ord()) { ret.same(*d1) } else { ret.same(*self) })),
{
    if self.is_nan() || d1.is_nan() {
        NAN
    } else if self.cmp(d1).unwrap() > 0 {
        d1.clone()
    } else {
        self.clone()
    }
}
%% fn ext.rs|impl BigFloat|signum
pub fn signum(&self) -> (ret: Self)
@    requires self.wf(),
@    ensures self.inner is NaN ==> ret.inner is NaN, !(self.inner is NaN) ==> nomem(ret) || ret.isv() && ret.v().wf() && ret.v().mag() == pow2(kk() as nat) && ret.v().s == (match self.inner { Flavor::Value(v) => v.s, Flavor::Inf(s) => s, _ => Sign::Pos }),
{
@proof { lemma_pow2_pos(kk() as nat); assert(1 * pow2(kk() as nat) == pow2(kk() as nat)); }
    if self.is_nan() {
        NAN
    } else if self.is_negative() {
        let mut ret = Self::from_u8(1, DEFAULT_P);
        ret.inv_sign();
        ret
    } else {
        Self::from_u8(1, DEFAULT_P)
    }
}
%% fn ext.rs|impl BigFloat|classify
pub fn classify(&self) -> (ret: FpCategory)
@    requires self.wf(),
@    ensures ret == (match self.inner { Flavor::NaN(_) => FpCategory::Nan, Flavor::Inf(_) => FpCategory::Infinite, Flavor::Value(v) => if v.sv() == 0 { FpCategory::Zero } else if v.m.n < 64 * v.m.l() { FpCategory::Subnormal } else { FpCategory::Normal } }),
{
    match &self.inner {
        Flavor::Value(v) => {
            if v.is_zero() {
                FpCategory::Zero
            } else if v.is_subnormal() {
                FpCategory::Subnormal
            } else {
                FpCategory::Normal
            }
        }
        Flavor::Inf(_) => FpCategory::Infinite,
        Flavor::NaN(_) => FpCategory::Nan,
    }
}
%% fn ext.rs|impl BigFloat|result_to_ext
pub fn result_to_ext(
    res: Result<BigFloatNumber, Error>,
    is_dividend_zero: bool,
    is_same_sign: bool,
) -> (ret: BigFloat)
@    ensures ret.inner == r2e(res, is_dividend_zero, is_same_sign),
{
    match res {
        Err(e) => match e {
            Error::ExponentOverflow(s) => {
                if s.is_positive() {
                    INF_POS
                } else {
                    INF_NEG
                }
            }
            Error::DivisionByZero => {
                if is_dividend_zero {
                    NAN
                } else if is_same_sign {
                    INF_POS
                } else {
                    INF_NEG
                }
            }
            Error::MemoryAllocation => Self::nan(Some(Error::MemoryAllocation)),
            Error::InvalidArgument => Self::nan(Some(Error::InvalidArgument)),
        },
        Ok(v) => BigFloat {
            inner: Flavor::Value(v),
        },
    }
}
%% fn ext.rs|impl BigFloat|exponent
pub fn exponent(&self) -> (ret: Option<Exponent>)
@    ensures ret == (match self.inner { Flavor::Value(v) => Some(v.e), _ => None }),
{
    match &self.inner {
        Flavor::Value(v) => Some(v.exponent()),
        _ => None,
    }
}
%% fn ext.rs|impl BigFloat|precision
pub fn precision(&self) -> (ret: Option<usize>)
@    ensures ret == (match self.inner { Flavor::Value(v) => Some(v.m.n), _ => None }),
{
    match &self.inner {
        Flavor::Value(v) => Some(v.precision()),
        _ => None,
    }
}
%% fn ext.rs|impl BigFloat|max_value
pub fn max_value(p: usize) -> (ret: Self)
@    ensures ret.isv() || nomem(ret) || p >= pmax() && ret.inner == Flavor::NaN(Some(Error::InvalidArgument)), ret.isv() && p > 0 ==> ret.v().wf() && ret.v().m.l() == words_of(p) && ret.v().e == EXPONENT_MAX && forall|x: BigFloatNumber| x.wf() && x.m.l() == words_of(p) ==> #[trigger] x.sv() <= ret.v().sv(),
{
    Self::result_to_ext(BigFloatNumber::max_value(p), false, true)
}
%% fn ext.rs|impl BigFloat|min_value
pub fn min_value(p: usize) -> (ret: Self)
@    ensures ret.isv() || nomem(ret) || p >= pmax() && ret.inner == Flavor::NaN(Some(Error::InvalidArgument)), ret.isv() && p > 0 ==> ret.v().wf() && ret.v().m.l() == words_of(p) && ret.v().e == EXPONENT_MAX && forall|x: BigFloatNumber| x.wf() && x.m.l() == words_of(p) ==> ret.v().sv() <= #[trigger] x.sv(),
{
    Self::result_to_ext(BigFloatNumber::min_value(p), false, true)
}
%% fn ext.rs|impl BigFloat|min_positive
pub fn min_positive(p: usize) -> (ret: Self)
@    requires p > 0,
@    ensures ret.isv() || nomem(ret) || p >= pmax() && ret.inner == Flavor::NaN(Some(Error::InvalidArgument)), ret.isv() ==> ret.v().wf() && ret.v().m.l() == words_of(p) && ret.v().sv() > 0 && forall|x: BigFloatNumber| x.wf() && x.m.l() == words_of(p) && x.sv() > 0 ==> ret.v().sv() <= #[trigger] x.sv(),
{
@proof { lemma_pow2_pos((EXPONENT_MIN - 64 * words_of(p) + kk()) as nat); }
    Self::result_to_ext(BigFloatNumber::min_positive(p), false, true)
}
%% fn ext.rs|impl BigFloat|min_positive_normal
pub fn min_positive_normal(p: usize) -> (ret: Self)
@    requires p > 0,
@    ensures ret.isv() || nomem(ret) || p >= pmax() && ret.inner == Flavor::NaN(Some(Error::InvalidArgument)), ret.isv() ==> ret.v().wf() && ret.v().m.l() == words_of(p) && ret.v().s == Sign::Pos && ret.v().e == EXPONENT_MIN && ret.v().m.v() == pow2((64 * words_of(p) - 1) as nat),
{
    Self::result_to_ext(BigFloatNumber::min_positive_normal(p), false, true)
}
%% fn ext.rs|impl BigFloat|from_word
pub fn from_word(d: Word, p: usize) -> (ret: Self)
@    ensures ewordres(d as int, 0, p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_word(d, p), false, true)
}
%% fn ext.rs|impl BigFloat|neg
pub fn neg(&self) -> (ret: Self)
@    ensures match self.inner { Flavor::Value(v) => nomem(ret) || ret.isv() && ret.v().same_m(v) && ret.v().s == v.s.spec_invert() && ret.v().inexact == v.inexact && ret.v().sv() == -v.sv(), Flavor::Inf(s) => ret.isinf(s.spec_invert()), Flavor::NaN(_) => ret.inner == self.inner },
{
    let mut ret = self.clone();
    ret.inv_sign();
    ret
}
%% fn ext.rs|impl BigFloat|as_raw_parts
pub fn as_raw_parts(&self) -> (ret: Option<(&[Word], usize, Sign, Exponent, bool)>)
@    ensures self.isv() <==> ret is Some, ret is Some ==> ret->Some_0.0@ == self.v().m.m.inner@ && ret->Some_0.1 == self.v().m.n && ret->Some_0.2 == self.v().s && ret->Some_0.3 == self.v().e && ret->Some_0.4 == self.v().inexact,
{
    if let Flavor::Value(v) = &self.inner {
        Some(v.as_raw_parts())
    } else {
        None
    }
}
%% fn ext.rs|impl BigFloat|from_raw_parts
pub fn from_raw_parts(m: &[Word], n: usize, s: Sign, e: Exponent, inexact: bool) -> (ret: Self)
@    requires m@.len() <= maxw(),
@    ensures ret.inner is NaN ==> nomem(ret) || ret.inner == Flavor::NaN(Some(Error::InvalidArgument)) && !(m@.len() > 0 && isbl(val(m@), n as nat) && (0 < n < 64 * m@.len() ==> e == EXPONENT_MIN)),
@        !(ret.inner is Inf), ret.isv() ==> ret.v().m.m.inner@ =~= m@ && ret.v().m.n == n && ret.v().s == s && ret.v().inexact == inexact && ret.v().e == (if n == 0 { 0 } else { e }) && (m@.len() > 0 ==> ret.v().wf()),
{
    Self::result_to_ext(BigFloatNumber::from_raw_parts(m, n, s, e, inexact), false, true)
}
%% fn ext.rs|impl BigFloat|sign
pub fn sign(&self) -> (ret: Option<Sign>)
@    ensures ret == (match self.inner { Flavor::Value(v) => Some(v.s), Flavor::Inf(s) => Some(s), _ => None }),
{
    match &self.inner {
        Flavor::Value(v) => Some(v.sign()),
        Flavor::Inf(s) => Some(*s),
        Flavor::NaN(_) => None,
    }
}
%% fn ext.rs|impl BigFloat|mantissa_max_bit_len
pub fn mantissa_max_bit_len(&self) -> (ret: Option<usize>)
@    requires self.wf(),
@    ensures ret == (match self.inner { Flavor::Value(v) => Some((64 * v.m.l()) as usize), _ => None }),
{
    if let Flavor::Value(v) = &self.inner {
        Some(v.mantissa_max_bit_len())
    } else {
        None
    }
}
%% fn ext.rs|impl BigFloat|set_sign
pub fn set_sign(&mut self, s: Sign)
@    ensures match old(self).inner { Flavor::Value(v) => final(self).isv() && final(self).v().same_m(v) && final(self).v().s == s && final(self).v().inexact == v.inexact, Flavor::Inf(_) => final(self).isinf(s), Flavor::NaN(_) => final(self).inner == old(self).inner },
{
    match &mut self.inner {
        Flavor::Value(v) => v.set_sign(s),
        Flavor::Inf(_) => self.inner = Flavor::Inf(s),
        Flavor::NaN(_) => {}
    };
}
%% fn ext.rs|impl BigFloat|mantissa_digits
pub fn mantissa_digits(&self) -> (ret: Option<&[Word]>)
@    ensures self.isv() <==> ret is Some, ret is Some ==> ret->Some_0@ == self.v().m.m.inner@,
{
    if let Flavor::Value(v) = &self.inner {
        Some(v.mantissa().digits())
    } else {
        None
    }
}
%% fn ext.rs|impl BigFloat|inexact
pub fn inexact(&self) -> (ret: bool)
@    ensures ret == (self.isv() && self.v().inexact),
{
    if let Flavor::Value(v) = &self.inner {
        v.inexact()
    } else {
        false
    }
}
%% fn ext.rs|impl BigFloat|set_inexact
pub fn set_inexact(&mut self, inexact: bool)
@    ensures match old(self).inner { Flavor::Value(v) => final(self).isv() && final(self).v().same_m(v) && final(self).v().s == v.s && final(self).v().inexact == inexact, _ => final(self).inner == old(self).inner },
{
    if let Flavor::Value(v) = &mut self.inner {
        v.set_inexact(inexact);
    }
}
%% fn ext.rs|impl Clone for BigFloat|clone
fn clone(&self) -> (ret: Self)
@    ensures ret.same(*self) || nomem(ret) && self.isv(), self.wf() ==> ret.wf(),
{
    match &self.inner {
        Flavor::Value(v) => Self::result_to_ext(v.clone(), false, true),
        Flavor::Inf(s) => {
            if s.is_positive() {
                INF_POS
            } else {
                INF_NEG
            }
        }
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|abs
pub fn abs(&self) -> (ret: Self)
@    ensures match self.inner { Flavor::Value(v) => nomem(ret) || ret.isv() && ret.v().same_m(v) && ret.v().s == Sign::Pos && ret.v().inexact == v.inexact && ret.v().sv() == v.mag(), Flavor::Inf(s) => ret.isinf(Sign::Pos), Flavor::NaN(_) => ret.inner == self.inner },
{
    match &self.inner {
        Flavor::Value(v) => Self::result_to_ext(v.abs(), v.is_zero(), true),
        Flavor::Inf(s) => {
            if s.is_positive() {
                INF_POS
            } else {
                INF_POS
            }
        }
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|from_u8
pub fn from_u8(i: u8, p: usize) -> (ret: Self)
@    ensures ewordres(i as int, 8, p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_u8(i, p), false, true)
}
%% fn ext.rs|impl BigFloat|from_i8
pub fn from_i8(i: i8, p: usize) -> (ret: Self)
@    ensures ewordres(i as int, 8, p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_i8(i, p), false, true)
}
%% fn ext.rs|impl BigFloat|from_u16
pub fn from_u16(i: u16, p: usize) -> (ret: Self)
@    ensures ewordres(i as int, 16, p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_u16(i, p), false, true)
}
%% fn ext.rs|impl BigFloat|from_i16
pub fn from_i16(i: i16, p: usize) -> (ret: Self)
@    ensures ewordres(i as int, 16, p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_i16(i, p), false, true)
}
%% fn ext.rs|impl BigFloat|from_u32
pub fn from_u32(i: u32, p: usize) -> (ret: Self)
@    ensures ewordres(i as int, 32, p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_u32(i, p), false, true)
}
%% fn ext.rs|impl BigFloat|from_i32
pub fn from_i32(i: i32, p: usize) -> (ret: Self)
@    ensures ewordres(i as int, 32, p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_i32(i, p), false, true)
}
%% fn ext.rs|impl BigFloat|from_u64
pub fn from_u64(i: u64, p: usize) -> (ret: Self)
@    ensures ewordres(i as int, 64, p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_u64(i, p), false, true)
}
%% fn ext.rs|impl BigFloat|from_i64
pub fn from_i64(i: i64, p: usize) -> (ret: Self)
@    ensures ewordres(i as int, 64, p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_i64(i, p), false, true)
}
%% ghost
pub use core::cmp::Ordering;
pub open spec fn ordof(a: BigFloat, b: BigFloat) -> Option<Ordering> { if snan(a, b) { None } else if lt(a.ord(), b.ord()) { Some(Ordering::Less) } else if lt(b.ord(), a.ord()) { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
%% inh ext.rs|impl PartialEq for BigFloat|eq|op_eq0
fn eq(&self, other: &Self) -> (ret: bool)
@    requires self.wf(), other.wf(),
@    ensures ret == (!snan(*self, *other) && self.ord() == other.ord()),
{
    let cmp_result = BigFloat::cmp(self, other);
    matches!(cmp_result, Some(0))
}
%% inh ext.rs|impl < 'a > PartialEq < & 'a BigFloat > for BigFloat|eq|op_eq1
fn eq(&self, other: &&'a BigFloat) -> (ret: bool)
@    requires self.wf(), other.wf(),
@    ensures ret == (!snan(*self, **other) && self.ord() == other.ord()),
{
    let cmp_result = BigFloat::cmp(self, other);
    matches!(cmp_result, Some(0))
}
%% inh ext.rs|impl PartialOrd for BigFloat|partial_cmp|op_cmp0
fn partial_cmp(&self, other: &Self) -> (ret: Option<Ordering>)
@    requires self.wf(), other.wf(),
@    ensures ret == ordof(*self, *other),
{
    let cmp_result = BigFloat::cmp(self, other);
    match cmp_result {
        Some(v) => {
            if v > 0 {
                Some(Ordering::Greater)
            } else if v < 0 {
                Some(Ordering::Less)
            } else {
                Some(Ordering::Equal)
            }
        }
        None => None,
    }
}
%% inh ext.rs|impl < 'a > PartialOrd < & 'a BigFloat > for BigFloat|partial_cmp|op_cmp1
fn partial_cmp(&self, other: &&'a BigFloat) -> (ret: Option<Ordering>)
@    requires self.wf(), other.wf(),
@    ensures ret == ordof(*self, **other),
{
    let cmp_result = BigFloat::cmp(self, other);
    match cmp_result {
        Some(v) => {
            if v > 0 {
                Some(Ordering::Greater)
            } else if v < 0 {
                Some(Ordering::Less)
            } else {
                Some(Ordering::Equal)
            }
        }
        None => None,
    }
}
%% inh ext.rs|impl From < i8 > for BigFloat|from|op_from_i8
fn from(v: i8) -> (ret: Self)
@    ensures ewordres(v as int, 8, DEFAULT_P, ret),
{
    BigFloat::from_i8(v, DEFAULT_P)
}
%% inh ext.rs|impl From < u8 > for BigFloat|from|op_from_u8
fn from(v: u8) -> (ret: Self)
@    ensures ewordres(v as int, 8, DEFAULT_P, ret),
{
    BigFloat::from_u8(v, DEFAULT_P)
}
%% inh ext.rs|impl From < i16 > for BigFloat|from|op_from_i16
fn from(v: i16) -> (ret: Self)
@    ensures ewordres(v as int, 16, DEFAULT_P, ret),
{
    BigFloat::from_i16(v, DEFAULT_P)
}
%% inh ext.rs|impl From < u16 > for BigFloat|from|op_from_u16
fn from(v: u16) -> (ret: Self)
@    ensures ewordres(v as int, 16, DEFAULT_P, ret),
{
    BigFloat::from_u16(v, DEFAULT_P)
}
%% inh ext.rs|impl From < i32 > for BigFloat|from|op_from_i32
fn from(v: i32) -> (ret: Self)
@    ensures ewordres(v as int, 32, DEFAULT_P, ret),
{
    BigFloat::from_i32(v, DEFAULT_P)
}
%% inh ext.rs|impl From < u32 > for BigFloat|from|op_from_u32
fn from(v: u32) -> (ret: Self)
@    ensures ewordres(v as int, 32, DEFAULT_P, ret),
{
    BigFloat::from_u32(v, DEFAULT_P)
}
%% inh ext.rs|impl From < i64 > for BigFloat|from|op_from_i64
fn from(v: i64) -> (ret: Self)
@    ensures ewordres(v as int, 64, DEFAULT_P, ret),
{
    BigFloat::from_i64(v, DEFAULT_P)
}
%% inh ext.rs|impl From < u64 > for BigFloat|from|op_from_u64
fn from(v: u64) -> (ret: Self)
@    ensures ewordres(v as int, 64, DEFAULT_P, ret),
{
    BigFloat::from_u64(v, DEFAULT_P)
}
%% inh ext.rs|impl From < u128 > for BigFloat|from|op_from_u128
fn from(v: u128) -> (ret: Self)
@    ensures ewordres(v as int, 128, DEFAULT_P, ret),
{
    BigFloat::from_u128(v, DEFAULT_P)
}
%% inh ext.rs|impl From < i128 > for BigFloat|from|op_from_i128
fn from(v: i128) -> (ret: Self)
@    ensures ewordres(v as int, 128, DEFAULT_P, ret),
{
    BigFloat::from_i128(v, DEFAULT_P)
}
%% inh ext.rs|impl From < f64 > for BigFloat|from|op_from_f64
fn from(v: f64) -> (ret: Self)
@    ensures efloatres(fbits(v), DEFAULT_P, ret),
{
    BigFloat::from_f64(v, DEFAULT_P)
}
%% inh ext.rs|impl From < f32 > for BigFloat|from|op_from_f32
fn from(v: f32) -> (ret: Self)
@    ensures efloatres(fbits(widen(v)), DEFAULT_P, ret),
{
    BigFloat::from_f32(v, DEFAULT_P)
}
%% fn ext.rs|impl BigFloat|set_precision
pub fn set_precision(&mut self, p: usize, rm: RoundingMode) -> (ret: Result<(), Error>)
@    requires old(self).wf(),
@    ensures match old(self).inner { Flavor::Value(v) => final(self).isv() && (match ret { Ok(_) => prec_res(v, p, rm, final(self).v()), Err(e) => prec_err(v, p, rm, e) }), _ => ret is Ok && *final(self) == *old(self) },
{
    if let Flavor::Value(v) = &mut self.inner {
        v.set_precision(p, rm)
    } else {
        Ok(())
    }
}
%% fn ext.rs|impl BigFloat|reciprocal
pub fn reciprocal(&self, p: usize, rm: RoundingMode) -> (ret: Self)
@    requires self.wf(), p > 0,
@    ensures ret.wf(), self.inner is NaN ==> ret.inner is NaN, self.inner is Inf ==> nomem(ret) || p >= pmax() - 63 || ret.zero() && ret.v().s == self.inner->Inf_0,
@        self.zero() ==> ret.isinf(self.v().s),
@        self.isv() && !self.zero() ==> erecres(self.v(), p, rm, ret),
{
    match &self.inner {
        Flavor::Value(v) => Self::result_to_ext(v.reciprocal(p, rm), false, v.is_positive()),
        Flavor::Inf(s) => {
            let mut ret = Self::new(p);
            ret.set_sign(*s);
            ret
        }
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% ghost
/// the result has the value x (units of 2^-kk), the precision and the flag of a; or memory is exhausted
pub open spec fn epart(a: BigFloatNumber, x: int, r: BigFloat) -> bool {
    nomem(r) || r.isv() && r.v().wf() && r.v().m.l() == a.m.l() && r.v().sv() == x && r.v().inexact == a.inexact
}
%% fn ext.rs|impl BigFloat|is_int
pub fn is_int(&self) -> (ret: bool)
@    requires self.wf(),
@    ensures ret == (self.isv() && self.v().mag() % u1() == 0),
{
    match &self.inner {
        Flavor::Value(v) => v.is_int(),
        Flavor::NaN(_) => false,
        Flavor::Inf(_) => false,
    }
}
%% fn ext.rs|impl BigFloat|int
pub fn int(&self) -> (ret: Self)
@    requires self.wf(),
@    ensures ret.wf(), self.isv() ==> (nomem(ret) || ret.isv() && part_of(self.v(), self.v().mag() / u1() * u1(), ret.v())), !self.isv() ==> ret.inner is NaN,
{
    match &self.inner {
        Flavor::Value(v) => Self::result_to_ext(v.int(), v.is_zero(), true),
        Flavor::Inf(s) => {
            if s.is_positive() {
                NAN
            } else {
                NAN
            }
        }
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|fract
pub fn fract(&self) -> (ret: Self)
@    requires self.wf(),
@    ensures ret.wf(), self.isv() ==> (nomem(ret) || ret.isv() && part_of(self.v(), self.v().mag() % u1(), ret.v())), !self.isv() ==> ret.inner is NaN,
{
    match &self.inner {
        Flavor::Value(v) => Self::result_to_ext(v.fract(), v.is_zero(), true),
        Flavor::Inf(s) => {
            if s.is_positive() {
                NAN
            } else {
                NAN
            }
        }
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|floor
pub fn floor(&self) -> (ret: Self)
@    requires self.wf(),
@    ensures ret.wf(), self.isv() ==> epart(self.v(), floor_of(self.v().sv()), ret) || ret.isinf(isgn(floor_of(self.v().sv()))) && iabs(floor_of(self.v().sv())) >= pow2((EXPONENT_MAX + kk()) as nat), self.inner is NaN ==> ret.inner is NaN, self.inner is Inf ==> ret.isinf(self.inner->Inf_0),
{
    match &self.inner {
        Flavor::Value(v) => Self::result_to_ext(v.floor(), v.is_zero(), true),
        Flavor::Inf(s) => {
            if s.is_positive() {
                INF_POS
            } else {
                INF_NEG
            }
        }
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|ceil
pub fn ceil(&self) -> (ret: Self)
@    requires self.wf(),
@    ensures ret.wf(), self.isv() ==> epart(self.v(), ceil_of(self.v().sv()), ret) || ret.isinf(isgn(ceil_of(self.v().sv()))) && iabs(ceil_of(self.v().sv())) >= pow2((EXPONENT_MAX + kk()) as nat), self.inner is NaN ==> ret.inner is NaN, self.inner is Inf ==> ret.isinf(self.inner->Inf_0),
{
    match &self.inner {
        Flavor::Value(v) => Self::result_to_ext(v.ceil(), v.is_zero(), true),
        Flavor::Inf(s) => {
            if s.is_positive() {
                INF_POS
            } else {
                INF_NEG
            }
        }
        Flavor::NaN(err) => Self::nan(*err),
    }
}
%% fn ext.rs|impl BigFloat|from_words
pub fn from_words(m: &[Word], s: Sign, e: Exponent) -> (ret: Self)
@    requires m@.len() <= maxw(),
@    ensures ret.wf(), 64 * m@.len() < pmax() ==> nomem(ret) || ret.isv() && wordsres(m@, s, e, Ok(ret.v())),
{
    Self::result_to_ext(BigFloatNumber::from_words(m, s, e), false, true)
}
%% fn ext.rs|impl BigFloat|set_exponent
pub fn set_exponent(&mut self, e: Exponent)
@    requires old(self).wf(),
@    ensures final(self).wf(), !old(self).isv() ==> final(self).inner == old(self).inner,
@        old(self).isv() ==> final(self).isv() && final(self).v().m.l() == old(self).v().m.l() && final(self).v().s == old(self).v().s && final(self).v().inexact == old(self).v().inexact
@            && final(self).v().mag() == scal(old(self).v().m.v(), e - 64 * old(self).v().m.l())
@            && (0 < old(self).v().m.n == old(self).v().m.max_bits() ==> final(self).v().e == e && final(self).v().m == old(self).v().m),
{
    if let Flavor::Value(v) = &mut self.inner {
        v.set_exponent(e)
    }
}
%% fn ext.rs|impl BigFloat|from_u128
pub fn from_u128(i: u128, p: usize) -> (ret: Self)
@    ensures ewordres(i as int, 128, p, ret), ret.isv() ==> p >= 128,
{
    Self::result_to_ext(BigFloatNumber::from_u128(i, p), false, true)
}
%% fn ext.rs|impl BigFloat|from_i128
pub fn from_i128(i: i128, p: usize) -> (ret: Self)
@    ensures ewordres(i as int, 128, p, ret), ret.isv() ==> p >= 128,
{
    Self::result_to_ext(BigFloatNumber::from_i128(i, p), false, true)
}
%% fn ext.rs|impl BigFloat|from_f64
pub fn from_f64(f: f64, p: usize) -> (ret: Self)
@    ensures efloatres(fbits(f), p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_f64(p, f), false, true)
}
%% fn ext.rs|impl BigFloat|from_f32
pub fn from_f32(f: f32, p: usize) -> (ret: Self)
@    ensures efloatres(fbits(widen(f)), p, ret),
{
    Self::result_to_ext(BigFloatNumber::from_f64(p, f32_to_f64(f)), false, true)
}
