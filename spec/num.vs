%% item num.rs||BigFloatNumber
%% ghost
/// all values are compared in units of 2^-kk
pub open spec fn kk() -> int { 0x4000_0000_0000_0000 }
/// v * 2^e in units of 2^-kk
pub open spec fn scal(v: nat, e: int) -> nat { v * pow2((e + kk()) as nat) }
impl BigFloatNumber {
    /// |x| in units of 2^-kk
    pub open spec fn mag(&self) -> nat { scal(self.m.v(), self.e - 64 * self.m.l()) }
    /// x in units of 2^-kk
    pub open spec fn sv(&self) -> int { if self.s == Sign::Neg { -(self.mag() as int) } else { self.mag() as int } }
    /// normalised unless the exponent is the smallest one; a single form of zero
    pub open spec fn wf(&self) -> bool {
        &&& self.m.wf()
        &&& self.m.n < 64 * self.m.l() && self.m.n > 0 ==> self.e == EXPONENT_MIN
        &&& self.m.n == 0 ==> self.e == 0
        &&& EXPONENT_MIN <= self.e <= EXPONENT_MAX
    }
    /// the mantissa and everything else are those of x
    pub open spec fn same_m(&self, x: Self) -> bool { self.m.m.inner@ == x.m.m.inner@ && self.m.n == x.m.n && self.e == x.e }
    pub open spec fn same(&self, x: Self) -> bool { self.same_m(x) && self.s == x.s && self.inexact == x.inexact }
}
pub open spec fn mem(e: Error) -> bool { e == Error::MemoryAllocation }
pub open spec fn pmax() -> int { 0x3fff_ffff_8000_0000 - 1 }
pub proof fn lemma_scal_pos(v: nat, e: int)
    requires e + kk() >= 0,
    ensures scal(v, e) == 0 <==> v == 0, pow2((e + kk()) as nat) > 0,
{
    lemma_pow2_pos((e + kk()) as nat);
    let p = pow2((e + kk()) as nat);
    assert(v * p == 0 <==> v == 0) by(nonlinear_arith) requires p > 0;
}
/// v * 2^(e + d) = (v * 2^d) * 2^e
pub proof fn lemma_scal_shift(v: nat, e: int, d: nat)
    requires e + kk() >= 0,
    ensures scal(v, e + d) == scal(v * pow2(d), e), pow2(d) > 0,
{
    lemma_pow2_adds((e + kk()) as nat, d); lemma_pow2_pos(d);
    let p = pow2((e + kk()) as nat); let q = pow2(d);
    assert(v * (p * q) == (v * q) * p) by(nonlinear_arith);
}
/// order of scaled values
pub proof fn lemma_scal_le(a: nat, b: nat, e: int)
    requires e + kk() >= 0,
    ensures a < b ==> scal(a, e) < scal(b, e), a <= b ==> scal(a, e) <= scal(b, e), a == b <==> scal(a, e) == scal(b, e), a > b <==> scal(a, e) > scal(b, e),
{
    lemma_pow2_pos((e + kk()) as nat);
    let p = pow2((e + kk()) as nat);
    assert(a < b ==> a * p < b * p) by(nonlinear_arith) requires p > 0;
    assert(a > b ==> a * p > b * p) by(nonlinear_arith) requires p > 0;
}
/// the magnitude of a non-zero number lies in [2^(k-1), 2^k), k = e - 64 l + n
pub proof fn lemma_mag_bl(x: BigFloatNumber)
    requires x.wf(),
    ensures x.m.n > 0 ==> isbl(x.mag(), (x.e - 64 * x.m.l() + x.m.n + kk()) as nat), x.m.n <= 64 * x.m.l(), x.m.n == 0 <==> x.mag() == 0, x.m.n == 0 <==> x.m.v() == 0,
        x.e - 64 * x.m.l() + kk() > 0x1000_0000_0000_0000, x.m.v() < pow2((64 * x.m.l()) as nat),
{
    lemma_wf_len(x.m);
    lemma_val_bound(x.m.m.inner@);
    lemma_scal_pos(x.m.v(), x.e - 64 * x.m.l());
    if x.m.n > 0 { lemma_bl_shl(x.m.v(), x.m.n as nat, (x.e - 64 * x.m.l() + kk()) as nat); }
}
/// the number whose mantissa has all bits set, with the largest exponent, is the largest of its length
pub proof fn lemma_max(x: BigFloatNumber, y: BigFloatNumber)
    requires x.wf(), y.wf(), x.m.l() == y.m.l(), y.m.v() + 1 == pow2((64 * y.m.l()) as nat), y.e == EXPONENT_MAX,
    ensures x.mag() <= y.mag(),
{
    lemma_mag_bl(x); lemma_mag_bl(y);
    let l = 64 * x.m.l();
    let e = x.e - l;
    lemma_scal_le(x.m.v(), y.m.v(), e);
    let d = (y.e - x.e) as nat;
    lemma_scal_shift(y.m.v(), e, d);
    let (v, q) = (y.m.v(), pow2(d));
    assert(v <= v * q) by(nonlinear_arith) requires q >= 1;
    lemma_scal_le(v, v * q, e);
}
/// the number with only the lowest bit set and the smallest exponent is the smallest positive one of its length
pub proof fn lemma_min(x: BigFloatNumber, y: BigFloatNumber)
    requires x.wf(), y.wf(), x.m.l() == y.m.l(), y.m.v() == 1, y.e == EXPONENT_MIN, x.mag() > 0,
    ensures y.mag() <= x.mag(), y.mag() == pow2((y.e - 64 * y.m.l() + kk()) as nat),
{
    lemma_mag_bl(x); lemma_mag_bl(y);
    let e = y.e - 64 * y.m.l();
    let d = (x.e - y.e) as nat;
    lemma_scal_shift(x.m.v(), e, d);
    let (v, q) = (x.m.v(), pow2(d));
    assert(v >= 1);
    assert(v * q >= 1) by(nonlinear_arith) requires q >= 1, v >= 1;
    lemma_scal_le(1, v * q, e);
    assert(1 * pow2((e + kk()) as nat) == pow2((e + kk()) as nat));
}
pub proof fn lemma_extremes()
    ensures
        forall|x: BigFloatNumber, y: BigFloatNumber| #![trigger x.sv(), y.sv()] x.wf() && y.wf() && x.m.l() == y.m.l() && y.m.v() + 1 == pow2((64 * y.m.l()) as nat) && y.e == EXPONENT_MAX ==> (y.s == Sign::Pos ==> x.sv() <= y.sv()) && (y.s == Sign::Neg ==> y.sv() <= x.sv()),
        forall|x: BigFloatNumber, y: BigFloatNumber| #![trigger x.sv(), y.sv()] x.wf() && y.wf() && x.m.l() == y.m.l() && y.m.v() == 1 && y.e == EXPONENT_MIN && x.sv() > 0 && y.s == Sign::Pos ==> y.sv() <= x.sv(),
        forall|y: BigFloatNumber| y.wf() && y.m.v() == 1 && y.e == EXPONENT_MIN && y.s == Sign::Pos ==> #[trigger] y.sv() == pow2((y.e - 64 * y.m.l() + kk()) as nat),
        forall|y: BigFloatNumber| y.m.v() == 0 ==> #[trigger] y.sv() == 0,
        forall|y: BigFloatNumber| y.wf() ==> (#[trigger] y.sv() == 0 <==> y.m.n == 0),
{
    assert forall|x: BigFloatNumber, y: BigFloatNumber| #![trigger x.sv(), y.sv()] x.wf() && y.wf() && x.m.l() == y.m.l() && y.m.v() + 1 == pow2((64 * y.m.l()) as nat) && y.e == EXPONENT_MAX implies (y.s == Sign::Pos ==> x.sv() <= y.sv()) && (y.s == Sign::Neg ==> y.sv() <= x.sv()) by { lemma_max(x, y); }
    assert forall|x: BigFloatNumber, y: BigFloatNumber| #![trigger x.sv(), y.sv()] x.wf() && y.wf() && x.m.l() == y.m.l() && y.m.v() == 1 && y.e == EXPONENT_MIN && x.sv() > 0 && y.s == Sign::Pos implies y.sv() <= x.sv() by { lemma_min(x, y); }
    assert forall|y: BigFloatNumber| y.wf() && y.m.v() == 1 && y.e == EXPONENT_MIN && y.s == Sign::Pos implies #[trigger] y.sv() == pow2((y.e - 64 * y.m.l() + kk()) as nat) by { lemma_mag_bl(y); lemma_min(y, y); }
    assert forall|y: BigFloatNumber| y.wf() implies (#[trigger] y.sv() == 0 <==> y.m.n == 0) by { lemma_mag_bl(y); }
}
/// longer is greater
pub proof fn lemma_bl_lt(a: nat, b: nat, n: nat, m: nat)
    requires isbl(a, n), isbl(b, m), n < m,
    ensures a < b,
{
    if n > 0 { lemma_pow2_strictly_increases_or_eq(n, (m - 1) as nat); } else { lemma_pow2_pos((m - 1) as nat); }
}
%% fn num.rs|impl BigFloatNumber|p_assertion
pub fn p_assertion(p: usize) -> (ret: Result<(), Error>)
@    ensures ret is Ok <==> p < pmax(), ret is Err ==> ret->Err_0 == Error::InvalidArgument,
{
    if p >= (isize::MAX / 2 + EXPONENT_MIN as isize) as usize {
        Err(Error::InvalidArgument)
    } else {
        Ok(())
    }
}
%% fn num.rs|impl BigFloatNumber|new
pub fn new(p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation || ret->Err_0 == Error::InvalidArgument && p >= pmax(), ret is Ok ==> p < pmax() && ret->Ok_0.m.l() == words_of(p) <= maxw() && ret->Ok_0.m.n == 0 && ret->Ok_0.m.v() == 0 && ret->Ok_0.e == 0 && ret->Ok_0.s == Sign::Pos && !ret->Ok_0.inexact && ret->Ok_0.sv() == 0,
@        ret is Ok && p > 0 ==> ret->Ok_0.wf(),
{
    Self::p_assertion(p)?;
    Ok(BigFloatNumber {
        m: Mantissa::new(p)?,
        e: 0,
        s: Sign::Pos,
        inexact: false,
    })
}
%% fn num.rs|impl BigFloatNumber|new2
pub fn new2(p: usize, s: Sign, inexact: bool) -> (ret: Result<Self, Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation || ret->Err_0 == Error::InvalidArgument && p >= pmax(), ret is Ok ==> p < pmax() && ret->Ok_0.m.l() == words_of(p) <= maxw() && ret->Ok_0.m.n == 0 && ret->Ok_0.m.v() == 0 && ret->Ok_0.e == 0 && ret->Ok_0.s == s && ret->Ok_0.inexact == inexact && ret->Ok_0.sv() == 0,
@        ret is Ok && p > 0 ==> ret->Ok_0.wf(),
{
    Self::p_assertion(p)?;
    Ok(BigFloatNumber {
        m: Mantissa::new(p)?,
        e: 0,
        s,
        inexact,
    })
}
%% fn num.rs|impl BigFloatNumber|max_value
pub fn max_value(p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation || ret->Err_0 == Error::InvalidArgument && p >= pmax(), ret is Ok ==> p < pmax() && ret->Ok_0.m.l() == words_of(p) && ret->Ok_0.m.v() + 1 == pow2((64 * words_of(p)) as nat) && ret->Ok_0.e == EXPONENT_MAX && ret->Ok_0.s == Sign::Pos && !ret->Ok_0.inexact,
@        ret is Ok && p > 0 ==> ret->Ok_0.wf() && forall|x: BigFloatNumber| x.wf() && x.m.l() == words_of(p) ==> #[trigger] x.sv() <= ret->Ok_0.sv(),
{
@    proof { lemma_extremes(); }
    Self::p_assertion(p)?;
    Ok(BigFloatNumber {
        m: Mantissa::oned_mantissa(p)?,
        e: EXPONENT_MAX,
        s: Sign::Pos,
        inexact: false,
    })
}
%% fn num.rs|impl BigFloatNumber|min_value
pub fn min_value(p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation || ret->Err_0 == Error::InvalidArgument && p >= pmax(), ret is Ok ==> p < pmax() && ret->Ok_0.m.l() == words_of(p) && ret->Ok_0.m.v() + 1 == pow2((64 * words_of(p)) as nat) && ret->Ok_0.e == EXPONENT_MAX && ret->Ok_0.s == Sign::Neg && !ret->Ok_0.inexact,
@        ret is Ok && p > 0 ==> ret->Ok_0.wf() && forall|x: BigFloatNumber| x.wf() && x.m.l() == words_of(p) ==> ret->Ok_0.sv() <= #[trigger] x.sv(),
{
@    proof { lemma_extremes(); }
    Self::p_assertion(p)?;
    Ok(BigFloatNumber {
        m: Mantissa::oned_mantissa(p)?,
        e: EXPONENT_MAX,
        s: Sign::Neg,
        inexact: false,
    })
}
%% fn num.rs|impl BigFloatNumber|min_positive
pub fn min_positive(p: usize) -> (ret: Result<Self, Error>)
@    requires p > 0,
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation || ret->Err_0 == Error::InvalidArgument && p >= pmax(), ret is Ok ==> p < pmax() && ret->Ok_0.m.l() == words_of(p) && ret->Ok_0.m.v() == 1 && ret->Ok_0.m.n == 1 && ret->Ok_0.e == EXPONENT_MIN && ret->Ok_0.s == Sign::Pos && !ret->Ok_0.inexact && ret->Ok_0.wf() && ret->Ok_0.sv() == pow2((EXPONENT_MIN - 64 * words_of(p) + kk()) as nat),
@        ret is Ok ==> forall|x: BigFloatNumber| x.wf() && x.m.l() == words_of(p) && x.sv() > 0 ==> ret->Ok_0.sv() <= #[trigger] x.sv(),
{
@    proof { lemma_extremes(); }
    Self::p_assertion(p)?;
    Ok(BigFloatNumber {
        m: Mantissa::min(p)?,
        e: EXPONENT_MIN,
        s: Sign::Pos,
        inexact: false,
    })
}
%% fn num.rs|impl BigFloatNumber|min_positive_normal
pub fn min_positive_normal(p: usize) -> (ret: Result<Self, Error>)
@    requires p > 0,
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation || ret->Err_0 == Error::InvalidArgument && p >= pmax(), ret is Ok ==> p < pmax() && ret->Ok_0.m.l() == words_of(p) && ret->Ok_0.m.normal() && ret->Ok_0.e == EXPONENT_MIN && ret->Ok_0.s == Sign::Pos && !ret->Ok_0.inexact && ret->Ok_0.wf() && ret->Ok_0.m.v() == pow2((64 * words_of(p) - 1) as nat),
{
@    proof { lemma_top_bit(p); }
    Self::p_assertion(p)?;
    Ok(BigFloatNumber {
        m: Mantissa::from_word(p, WORD_SIGNIFICANT_BIT)?,
        e: EXPONENT_MIN,
        s: Sign::Pos,
        inexact: false,
    })
}
%% fn num.rs|impl BigFloatNumber|clone
pub fn clone(&self) -> (ret: Result<Self, Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation, ret is Ok ==> ret->Ok_0.same(*self) && self.m.l() <= maxw(),
{
    Ok(BigFloatNumber {
        e: self.e,
        s: self.s,
        m: self.m.clone()?,
        inexact: self.inexact,
    })
}
%% fn num.rs|impl BigFloatNumber|neg
pub fn neg(&self) -> (ret: Result<Self, Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation, ret is Ok ==> ret->Ok_0.same_m(*self) && ret->Ok_0.s == self.s.spec_invert() && ret->Ok_0.inexact == self.inexact && ret->Ok_0.sv() == -self.sv() && self.m.l() <= maxw(),
{
    let mut ret = self.clone()?;
    ret.s = ret.s.invert();
    Ok(ret)
}
%% fn num.rs|impl BigFloatNumber|abs
pub fn abs(&self) -> (ret: Result<Self, Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation, ret is Ok ==> ret->Ok_0.same_m(*self) && ret->Ok_0.s == Sign::Pos && ret->Ok_0.inexact == self.inexact && ret->Ok_0.sv() == self.mag(),
{
    let mut ret = self.clone()?;
    ret.s = Sign::Pos;
    Ok(ret)
}
%% fn num.rs|impl BigFloatNumber|cmp
pub fn cmp(&self, d2: &Self) -> (ret: SignedWord)
@    requires self.wf(), d2.wf(),
@    ensures ret > 0 <==> self.sv() > d2.sv(), ret < 0 <==> self.sv() < d2.sv(),
{
@    proof { lemma_mag_bl(*self); lemma_mag_bl(*d2); lemma_extremes(); }
@    proof { assert forall|c: int, k: int| (k == 1 ==> #[trigger] (c * k) == c) && (k == -1 ==> c * k == -c) by { assert((k == 1 ==> c * k == c) && (k == -1 ==> c * k == -c)) by(nonlinear_arith); } }
    if self.is_zero() && d2.is_zero() {
        return 0;
    }
    if self.s != d2.s {
        return (sign_int(self.s) as SignedWord);
    }
    self.abs_cmp(d2) * (sign_int(self.s) as SignedWord)
}
%% fn num.rs|impl BigFloatNumber|abs_cmp
pub fn abs_cmp(&self, d2: &Self) -> (ret: SignedWord)
@    requires self.wf(), d2.wf(),
@    ensures ret > 0 <==> self.mag() > d2.mag(), ret < 0 <==> self.mag() < d2.mag(), -0x1_0000_0000_0000_0000 < ret < 0x1_0000_0000_0000_0000,
{
@    proof { lemma_mag_bl(*self); lemma_mag_bl(*d2); }
    if self.m.is_zero() {
        if d2.m.is_zero() {
            return 0;
        } else {
            return -1;
        }
    }
    if d2.m.is_zero() {
        return 1;
    }
    let n1 = self.mantissa_max_bit_len() as isize - self.precision() as isize;
    let n2 = d2.mantissa_max_bit_len() as isize - d2.precision() as isize;
    let e: isize = self.e as isize - n1 - d2.e as isize + n2;
@    proof { lemma_num_cmp(*self, *d2); }
    if e > 0 {
        return 1;
    } else if e < 0 {
        return -1;
    }
    self.m.abs_cmp(&d2.m, n1 == n2)
}
%% fn num.rs|impl BigFloatNumber|is_subnormal
pub fn is_subnormal(&self) -> (ret: bool)
@    requires self.m.l() <= maxw(),
@    ensures ret == (self.m.n < 64 * self.m.l()),
{
    self.m.is_subnormal()
}
%% fn num.rs|impl BigFloatNumber|as_raw_parts
pub fn as_raw_parts(&self) -> (ret: (&[Word], usize, Sign, Exponent, bool))
@    ensures ret.0@ == self.m.m.inner@, ret.1 == self.m.n, ret.2 == self.s, ret.3 == self.e, ret.4 == self.inexact,
{
    let (m, n) = self.m.as_raw_parts();
    (m, n, self.s, self.e, self.inexact)
}
%% fn num.rs|impl BigFloatNumber|into_raw_parts
pub fn into_raw_parts(self) -> (ret: (Mantissa, Sign, Exponent, bool))
@    ensures ret.0 == self.m, ret.1 == self.s, ret.2 == self.e, ret.3 == self.inexact,
{
    (self.m, self.s, self.e, self.inexact)
}
%% fn num.rs|impl BigFloatNumber|from_raw_parts
pub fn from_raw_parts(
    m: &[Word],
    n: usize,
    s: Sign,
    mut e: Exponent,
    inexact: bool,
) -> (ret: Result<Self, Error>)
@    requires m@.len() <= maxw(), EXPONENT_MIN <= e <= EXPONENT_MAX,
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation || ret->Err_0 == Error::InvalidArgument && !(m@.len() > 0 && isbl(val(m@), n as nat) && (0 < n < 64 * m@.len() ==> e == EXPONENT_MIN)),
@        ret is Ok ==> ret->Ok_0.m.m.inner@ =~= m@ && ret->Ok_0.m.n == n && ret->Ok_0.s == s && ret->Ok_0.inexact == inexact && ret->Ok_0.e == (if n == 0 { 0 } else { e }) && (m@.len() > 0 ==> ret->Ok_0.wf()),
{
@    let ghost m0 = m@;
    let p = m.len() * WORD_BIT_SIZE;
    Self::p_assertion(p)?;
    if n > p {
@        proof { lemma_val_bound(m0); assert(words_of(p) == m0.len()); if m0.len() > 0 && isbl(val(m0), n as nat) { lemma_pow2_strictly_increases_or_eq((64 * m0.len()) as nat, (n - 1) as nat); } }
        Err(Error::InvalidArgument)
    } else {
        let m = Mantissa::from_words(p, m)?;
@        proof { lemma_pow2_64(); assert(val(m0) * 1 == val(m0)); assert(m.m.inner@ =~= m0) by { assert forall|i: int| 0 <= i < m0.len() implies m.m.inner@[i] == m0[i] by { assert(m.m.inner@[words_of(p) - m0.len() + i] == m0[i]); } } assert forall|a: nat| isbl(val(m0), a) implies a == m.n as nat by { lemma_bl_unique(val(m0), a, m.n as nat); } lemma_val_bound(m0); }
        if m.bit_len() != n {
            return Err(Error::InvalidArgument);
        }
        if n > 0 && n < p && e > EXPONENT_MIN {
            return Err(Error::InvalidArgument);
        }
        if n == 0 {
            e = 0;
        }
        Ok(BigFloatNumber { e, s, m, inexact })
    }
}
%% fn num.rs|impl BigFloatNumber|from_raw_unchecked
pub fn from_raw_unchecked(m: Mantissa, s: Sign, e: Exponent, inexact: bool) -> (ret: Self)
@    ensures ret == (BigFloatNumber { e, s, m, inexact }),
{
    BigFloatNumber { e, s, m, inexact }
}
%% fn num.rs|impl BigFloatNumber|sign
pub fn sign(&self) -> (ret: Sign)
@    ensures ret == self.s,
{
    self.s
}
%% fn num.rs|impl BigFloatNumber|is_positive
pub fn is_positive(&self) -> (ret: bool)
@    ensures ret == (self.s == Sign::Pos),
{
    self.s == Sign::Pos
}
%% fn num.rs|impl BigFloatNumber|is_negative
pub fn is_negative(&self) -> (ret: bool)
@    ensures ret == (self.s == Sign::Neg),
{
    self.s == Sign::Neg
}
%% fn num.rs|impl BigFloatNumber|exponent
pub fn exponent(&self) -> (ret: Exponent)
@    ensures ret == self.e,
{
    self.e
}
%% fn num.rs|impl BigFloatNumber|is_zero
pub fn is_zero(&self) -> (ret: bool)
@    ensures ret == (self.m.n == 0), self.wf() ==> ret == (self.sv() == 0),
{
@    proof { lemma_extremes(); }
    self.m.is_zero()
}
%% fn num.rs|impl BigFloatNumber|mantissa_max_bit_len
pub fn mantissa_max_bit_len(&self) -> (ret: usize)
@    requires self.m.l() <= maxw(),
@    ensures ret == 64 * self.m.l(),
{
    self.m.max_bit_len()
}
%% fn num.rs|impl BigFloatNumber|precision
pub fn precision(&self) -> (ret: usize)
@    ensures ret == self.m.n,
{
    self.m.bit_len()
}
%% fn num.rs|impl BigFloatNumber|set_sign
pub fn set_sign(&mut self, s: Sign)
@    ensures final(self).m == old(self).m, final(self).e == old(self).e, final(self).inexact == old(self).inexact, final(self).s == s,
{
    self.s = s;
}
%% fn num.rs|impl BigFloatNumber|inv_sign
pub fn inv_sign(&mut self)
@    ensures final(self).m == old(self).m, final(self).e == old(self).e, final(self).inexact == old(self).inexact, final(self).s == old(self).s.spec_invert(), final(self).sv() == -old(self).sv(),
{
    if self.is_negative() {
        self.set_sign(Sign::Pos);
    } else {
        self.set_sign(Sign::Neg);
    }
}
%% fn num.rs|impl BigFloatNumber|inexact
pub fn inexact(&self) -> (ret: bool)
@    ensures ret == self.inexact,
{
    self.inexact
}
%% fn num.rs|impl BigFloatNumber|set_inexact
pub fn set_inexact(&mut self, inexact: bool)
@    ensures final(self).m == old(self).m, final(self).e == old(self).e, final(self).inexact == inexact, final(self).s == old(self).s,
{
    self.inexact = inexact;
}
%% fn num.rs|impl BigFloatNumber|mantissa
pub fn mantissa(&self) -> (ret: &Mantissa)
@    ensures *ret == self.m,
{
    &self.m
}
%% fn num.rs|impl BigFloatNumber|mantissa_mut
pub fn mantissa_mut(&mut self) -> (ret: &mut Mantissa)
@    ensures *ret == old(self).m, final(self).m == *final(ret), final(self).e == old(self).e, final(self).s == old(self).s, final(self).inexact == old(self).inexact,
{
    &mut self.m
}
%% ghost
/// the mantissa with only the top bit
pub proof fn lemma_top_bit(p: usize)
    requires p > 0,
    ensures isbl(WORD_SIGNIFICANT_BIT as nat, 64),
        forall|k: nat| isbl(WORD_SIGNIFICANT_BIT as nat, (64 - k) as nat) && k < 64 ==> #[trigger] (WORD_SIGNIFICANT_BIT as nat * pow2(k)) * pow2((64 * (words_of(p) - 1)) as nat) == pow2((64 * words_of(p) - 1) as nat),
{
    lemma_pow2_64();
    assert forall|k: nat| isbl(WORD_SIGNIFICANT_BIT as nat, (64 - k) as nat) && k < 64 implies #[trigger] (WORD_SIGNIFICANT_BIT as nat * pow2(k)) * pow2((64 * (words_of(p) - 1)) as nat) == pow2((64 * words_of(p) - 1) as nat) by {
        lemma_bl_unique(WORD_SIGNIFICANT_BIT as nat, (64 - k) as nat, 64);
        lemma_pow2_adds(63, (64 * (words_of(p) - 1)) as nat);
    }
}
pub proof fn lemma_num_cmp(x: BigFloatNumber, y: BigFloatNumber)
    requires x.wf(), y.wf(), x.m.n > 0, y.m.n > 0,
    ensures ({ let a = x.e - 64 * x.m.l() + x.m.n; let b = y.e - 64 * y.m.l() + y.m.n;
        &&& (a > b ==> x.mag() > y.mag())
        &&& (a < b ==> x.mag() < y.mag())
        &&& (a == b ==> x.e == y.e && 64 * x.m.l() - x.m.n == 64 * y.m.l() - y.m.n)
        &&& (a == b ==> (x.mag() > y.mag() <==> x.m.v() * bp(y.m.l()) > y.m.v() * bp(x.m.l())) && (x.mag() == y.mag() <==> x.m.v() * bp(y.m.l()) == y.m.v() * bp(x.m.l()))) }),
{
    lemma_mag_bl(x); lemma_mag_bl(y);
    let a = x.e - 64 * x.m.l() + x.m.n; let b = y.e - 64 * y.m.l() + y.m.n;
    if a > b { lemma_bl_lt(y.mag(), x.mag(), (b + kk()) as nat, (a + kk()) as nat); }
    if a < b { lemma_bl_lt(x.mag(), y.mag(), (a + kk()) as nat, (b + kk()) as nat); }
    if a == b {
        assert(x.e == y.e);
        let e = x.e - 64 * (x.m.l() + y.m.l());
        lemma_scal_shift(x.m.v(), e, (64 * y.m.l()) as nat);
        lemma_scal_shift(y.m.v(), e, (64 * x.m.l()) as nat);
        lemma_scal_le(x.m.v() * bp(y.m.l()), y.m.v() * bp(x.m.l()), e);
    }
}
%% ghost
// ---- correct rounding of an exact result
/// number of significant bits
pub open spec fn blen(v: nat) -> nat
    decreases v,
{ if v == 0 { 0 } else { blen(v / 2) + 1 } }
pub proof fn lemma_blen(v: nat)
    ensures isbl(v, blen(v)),
    decreases v,
{
    lemma_pow2_64();
    if v > 0 {
        lemma_blen(v / 2);
        let k = blen(v / 2);
        if k > 0 { lemma_pow2_unfold(k as nat); lemma_pow2_unfold(k + 1); } else { assert(v == 1); }
    }
}
pub proof fn lemma_blen_is(v: nat, k: nat)
    requires isbl(v, k),
    ensures blen(v) == k,
{ lemma_blen(v); lemma_bl_unique(v, k, blen(v)); }
/// number of low bits of the exact magnitude x (in units of 2^-s) that do not fit pw words, gradual underflow included
pub open spec fn cut(x: nat, s: int, pw: int) -> int {
    let e = blen(x) - s;
    (if e > EXPONENT_MIN { e } else { EXPONENT_MIN as int }) - 64 * pw + s
}
/// q is what rm selects for x / 2^n; with None: one of the two integers next to it
pub open spec fn sel(x: nat, n: nat, rm: RoundingMode, sg: Sign, q: nat) -> bool {
    if rm == RoundingMode::None { q == x / pow2(n) || q == x / pow2(n) + 1 && x % pow2(n) != 0 } else { q == rnd(x, n, rm, sg == Sign::Pos) }
}
/// r is the correctly rounded result for the exact value x * 2^-s with sign sg; dirty: an operand is inexact
pub open spec fn cround(x: nat, s: int, sg: Sign, pw: int, rm: RoundingMode, dirty: bool, r: BigFloatNumber) -> bool {
    let n = cut(x, s, pw) as nat;
    &&& r.wf() && r.m.l() == pw
    &&& r.s == sg || x == 0
    &&& exists|q: nat| #[trigger] sel(x, n, rm, sg, q) && q * pow2(n) == r.mag() * pow2((s - kk()) as nat)
    &&& rm != RoundingMode::None ==> (r.inexact <==> dirty || x % pow2(n) != 0)
}
/// the correctly rounded result is beyond the largest exponent
pub open spec fn coverflow(x: nat, s: int, sg: Sign, pw: int, rm: RoundingMode) -> bool {
    let n = cut(x, s, pw) as nat;
    exists|q: nat| #[trigger] sel(x, n, rm, sg, q) && q * pow2(n) >= pow2((EXPONENT_MAX + s) as nat)
}
pub open spec fn cres(x: nat, s: int, sg: Sign, p: usize, rm: RoundingMode, dirty: bool, ret: Result<BigFloatNumber, Error>) -> bool {
    match ret {
        Ok(r) => cround(x, s, sg, words_of(p), rm, dirty, r),
        Err(Error::ExponentOverflow(g)) => g == sg && coverflow(x, s, sg, words_of(p), rm),
        Err(Error::MemoryAllocation) => true,
        Err(Error::InvalidArgument) => p >= pmax() - 63,
        Err(Error::DivisionByZero) => false,
    }
}
pub open spec fn iabs(x: int) -> nat { if x < 0 { (-x) as nat } else { x as nat } }
pub open spec fn isgn(x: int) -> Sign { if x < 0 { Sign::Neg } else { Sign::Pos } }
pub open spec fn exres(x: nat, s: int, sg: Sign, dirty: bool, ret: Result<BigFloatNumber, Error>) -> bool {
    match ret {
        Ok(r) => exact(x, s, sg, dirty, r),
        Err(Error::ExponentOverflow(g)) => g == sg && x >= pow2((EXPONENT_MAX + s) as nat),
        Err(Error::MemoryAllocation) => true,
        _ => false,
    }
}
/// r is exactly x (units of 2^-s)
pub open spec fn exact(x: nat, s: int, sg: Sign, dirty: bool, r: BigFloatNumber) -> bool {
    r.wf() && (r.s == sg || x == 0) && x == r.mag() * pow2((s - kk()) as nat) && r.inexact == dirty
}
%% ext num.rs|impl BigFloatNumber|rem
pub fn rem(&self, d2: &Self) -> (ret: Result<Self, Error>)
@    requires self.wf(), d2.wf(),
@    ensures
@        d2.m.n == 0 ==> ret is Err && ret->Err_0 == Error::InvalidArgument,
@        d2.m.n != 0 ==> match ret { Err(Error::MemoryAllocation) => true, Err(_) => false, Ok(r) => exact(self.mag() % d2.mag(), kk(), self.s, r.inexact, r) },
{
%% ghost
/// the absolute values of the primitive integers (core)
pub assume_specification [i8::unsigned_abs] (x: i8) -> (r: u8) ensures r == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i16::unsigned_abs] (x: i16) -> (r: u16) ensures r == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64) ensures r == (if x < 0 { -(x as int) } else { x as int });
/// the number represents the integer i exactly, with p bits rounded up to whole words
pub open spec fn wordres(i: int, p: usize, ret: Result<BigFloatNumber, Error>) -> bool {
    match ret {
        Err(e) => e == Error::MemoryAllocation || e == Error::InvalidArgument && (p == 0 || p >= pmax()),
        Ok(r) => p < pmax() && r.m.l() == words_of(p) && (p > 0 ==> r.wf()) && !r.inexact && r.sv() == i * pow2(kk() as nat) && (i == 0 ==> r.s == Sign::Pos),
    }
}
%% ghost
pub proof fn lemma_from_word(d0: u64, d: u64, k: int, l: int, x: nat)
    requires d0 != 0, nsh(d0, d, k), d >= 0x8000_0000_0000_0000, 0 < l <= maxw(), 
    ensures k < 64, isbl(d as nat, 64), (d as nat * pow2((64 * (l - 1)) as nat)) * pow2((64 - k - 64 * l + kk()) as nat) == d0 as nat * pow2(kk() as nat),
        forall|j: nat| #![trigger pow2(j)] j < 64 && isbl(d as nat, (64 - j) as nat) ==> j == 0, pow2(0) == 1,
{
    lemma_nsh(d0, d, k); lemma_pow2_64();
    assert(isbl(d as nat, 64));
    assert forall|j: nat| #![trigger pow2(j)] j < 64 && isbl(d as nat, (64 - j) as nat) implies j == 0 by { lemma_bl_unique(d as nat, 64, (64 - j) as nat); }
    let a = (64 * (l - 1)) as nat; let b = (64 - k - 64 * l + kk()) as nat;
    lemma_pow2_adds(a, b); lemma_pow2_adds(k as nat, a + b);
    let (pa, pb, pk, dd) = (pow2(a), pow2(b), pow2(k as nat), d0 as nat);
    assert(((dd * pk) * pa) * pb == dd * (pk * (pa * pb))) by(nonlinear_arith);
    assert(k + a + b == kk());
}
%% fn num.rs|impl BigFloatNumber|from_word
pub fn from_word(mut d: Word, p: usize) -> (ret: Result<Self, Error>)
@    ensures wordres(d as int, p, ret),
{
    Self::p_assertion(p)?;
    if d == 0 {
        Self::new(p)
    } else {
        let mut shift = 0;
@let ghost d0 = d;
@proof { lemma_nsh0(d); }
        while d & WORD_SIGNIFICANT_BIT == 0
@    invariant d0 != 0, nsh(d0, d, shift as int), shift >= 0,
@    decreases 0x1_0000_0000_0000_0000 - d,
        {
@proof { lemma_shl1(d); lemma_nsh(d0, d, shift as int); }
            d <<= 1;
            shift += 1;
        }
@proof { lemma_shl1(d); lemma_nsh(d0, d, shift as int); if words_of(p) <= maxw() && p > 0 { lemma_from_word(d0, d, shift as int, words_of(p), 0); } }
@assert(d as nat * 1 == d as nat);
        Ok(BigFloatNumber {
            m: Mantissa::from_word(p, d)?,
            e: (WORD_BIT_SIZE - shift) as Exponent,
            s: Sign::Pos,
            inexact: false,
        })
    }
}
%% fn num.rs|impl BigFloatNumber|from_u64_internal
pub fn from_u64_internal(d: u64, p: usize) -> (ret: Result<Self, Error>)
@    ensures wordres(d as int, p, ret),
{
    Self::from_word(d, p)
}
%% fn num.rs|impl BigFloatNumber|from_u8
pub fn from_u8(u: u8, p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err && ret->Err_0 == Error::InvalidArgument && p < 8 || wordres(u as int, p, ret),
{
    const SZ: usize = core::mem::size_of::<u8>() * 8;
    if p < SZ {
        return Err(Error::InvalidArgument);
    }
    Self::from_u64_internal(u as u64, p)
}
%% fn num.rs|impl BigFloatNumber|from_i8
pub fn from_i8(i: i8, p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err && ret->Err_0 == Error::InvalidArgument && p < 8 || wordres(i as int, p, ret),
{
    let sign = if i < 0 { Sign::Neg } else { Sign::Pos };
    let mut ret = Self::from_u8(i.unsigned_abs(), p)?;
@proof { let c = i as int; let q = pow2(kk() as nat) as int; assert((-c) * q == -(c * q)) by(nonlinear_arith); lemma_extremes(); assert(0 * q == 0); assert(ret.m.n == 0 ==> ret.mag() == 0) by { if ret.m.n == 0 { lemma_scal_pos(0, ret.e - 64 * ret.m.l()); } } }
    ret.set_sign(sign);
    Ok(ret)
}
%% fn num.rs|impl BigFloatNumber|from_u16
pub fn from_u16(u: u16, p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err && ret->Err_0 == Error::InvalidArgument && p < 16 || wordres(u as int, p, ret),
{
    const SZ: usize = core::mem::size_of::<u16>() * 8;
    if p < SZ {
        return Err(Error::InvalidArgument);
    }
    Self::from_u64_internal(u as u64, p)
}
%% fn num.rs|impl BigFloatNumber|from_i16
pub fn from_i16(i: i16, p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err && ret->Err_0 == Error::InvalidArgument && p < 16 || wordres(i as int, p, ret),
{
    let sign = if i < 0 { Sign::Neg } else { Sign::Pos };
    let mut ret = Self::from_u16(i.unsigned_abs(), p)?;
@proof { let c = i as int; let q = pow2(kk() as nat) as int; assert((-c) * q == -(c * q)) by(nonlinear_arith); lemma_extremes(); assert(0 * q == 0); assert(ret.m.n == 0 ==> ret.mag() == 0) by { if ret.m.n == 0 { lemma_scal_pos(0, ret.e - 64 * ret.m.l()); } } }
    ret.set_sign(sign);
    Ok(ret)
}
%% fn num.rs|impl BigFloatNumber|from_u32
pub fn from_u32(u: u32, p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err && ret->Err_0 == Error::InvalidArgument && p < 32 || wordres(u as int, p, ret),
{
    const SZ: usize = core::mem::size_of::<u32>() * 8;
    if p < SZ {
        return Err(Error::InvalidArgument);
    }
    Self::from_u64_internal(u as u64, p)
}
%% fn num.rs|impl BigFloatNumber|from_i32
pub fn from_i32(i: i32, p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err && ret->Err_0 == Error::InvalidArgument && p < 32 || wordres(i as int, p, ret),
{
    let sign = if i < 0 { Sign::Neg } else { Sign::Pos };
    let mut ret = Self::from_u32(i.unsigned_abs(), p)?;
@proof { let c = i as int; let q = pow2(kk() as nat) as int; assert((-c) * q == -(c * q)) by(nonlinear_arith); lemma_extremes(); assert(0 * q == 0); assert(ret.m.n == 0 ==> ret.mag() == 0) by { if ret.m.n == 0 { lemma_scal_pos(0, ret.e - 64 * ret.m.l()); } } }
    ret.set_sign(sign);
    Ok(ret)
}
%% fn num.rs|impl BigFloatNumber|from_u64
pub fn from_u64(u: u64, p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err && ret->Err_0 == Error::InvalidArgument && p < 64 || wordres(u as int, p, ret),
{
    const SZ: usize = 8usize * 8;
    if p < SZ {
        return Err(Error::InvalidArgument);
    }
    Self::from_u64_internal(u as u64, p)
}
%% fn num.rs|impl BigFloatNumber|from_i64
pub fn from_i64(i: i64, p: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err && ret->Err_0 == Error::InvalidArgument && p < 64 || wordres(i as int, p, ret),
{
    let sign = if i < 0 { Sign::Neg } else { Sign::Pos };
    let mut ret = Self::from_u64(i.unsigned_abs(), p)?;
@proof { let c = i as int; let q = pow2(kk() as nat) as int; assert((-c) * q == -(c * q)) by(nonlinear_arith); lemma_extremes(); assert(0 * q == 0); assert(ret.m.n == 0 ==> ret.mag() == 0) by { if ret.m.n == 0 { lemma_scal_pos(0, ret.e - 64 * ret.m.l()); } } }
    ret.set_sign(sign);
    Ok(ret)
}
