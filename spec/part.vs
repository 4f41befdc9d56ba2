%% ghost
/// the unit of the integers
pub open spec fn u1() -> nat { pow2(kk() as nat) }
/// r is the number x (units of 2^-kk) with the precision, the sign and the flag of a
pub open spec fn part_of(a: BigFloatNumber, x: nat, r: BigFloatNumber) -> bool {
    r.wf() && r.m.l() == a.m.l() && r.s == a.s && r.inexact == a.inexact && r.mag() == x && (r.m.n == 0 <==> x == 0)
}
/// greatest integer not above, least integer not below x
pub open spec fn floor_of(x: int) -> int { x / (u1() as int) * u1() }
pub open spec fn ceil_of(x: int) -> int { -(floor_of(-x)) }
/// the scaled mantissa split at bit c: c = 64 l - e bits are fraction
pub proof fn lemma_split(v: nat, c: nat, e: int)
    requires e + kk() >= 0, c == -e,
    ensures pow2(c) > 0, v == v / pow2(c) * pow2(c) + v % pow2(c), v % pow2(c) < pow2(c), u1() == pow2(c) * pow2((e + kk()) as nat), u1() > 0,
        scal(v, e) / u1() == v / pow2(c), scal(v, e) % u1() == scal(v % pow2(c), e), scal(v, e) / u1() * u1() == scal(v / pow2(c) * pow2(c), e),
{
    let p = pow2(c); let g = pow2((e + kk()) as nat); let q = v / p; let r = v % p;
    lemma_pow2_pos(c); lemma_pow2_pos((e + kk()) as nat); lemma_pow2_adds(c, (e + kk()) as nat);
    assert(u1() == p * g);
    lemma_fundamental_div_mod(v as int, p as int); lemma_mod_bound(v as int, p as int);
    assert(v == q * p + r) by(nonlinear_arith) requires v == p * q + r;
    assert(v * g == q * (p * g) + r * g) by(nonlinear_arith) requires v == q * p + r;
    assert(r * g < p * g) by(nonlinear_arith) requires r < p, g > 0;
    assert(p * g > 0);
    lemma_fundamental_div_mod_converse((v * g) as int, (p * g) as int, q as int, (r * g) as int);
    assert(q * (p * g) == q * p * g) by(nonlinear_arith);
}
/// all digits are integer digits
pub proof fn lemma_whole(v: nat, e: int)
    requires e >= 0,
    ensures u1() > 0, scal(v, e) % u1() == 0, scal(v, e) / u1() * u1() == scal(v, e),
{
    lemma_pow2_pos(kk() as nat); lemma_pow2_adds(e as nat, kk() as nat);
    let g = u1(); let t = v * pow2(e as nat);
    assert(scal(v, e) == t * g) by(nonlinear_arith) requires scal(v, e) == v * (pow2(e as nat) * g), t == v * pow2(e as nat);
    lemma_fundamental_div_mod_converse((t * g) as int, g as int, t as int, 0);
}
/// all digits are digits of the fraction
pub proof fn lemma_frac(v: nat, e: int, l: nat)
    requires v < pow2(64 * l), e <= -64 * l, e + kk() >= 0,
    ensures u1() > 0, scal(v, e) < u1(), scal(v, e) % u1() == scal(v, e), scal(v, e) / u1() == 0,
{
    let g = pow2((e + kk()) as nat); lemma_pow2_pos((e + kk()) as nat); lemma_pow2_pos(kk() as nat);
    lemma_pow2_adds(64 * l, (e + kk()) as nat);
    assert(v * g < pow2(64 * l) * g) by(nonlinear_arith) requires v < pow2(64 * l), g > 0;
    lemma_pow2_le((64 * l + e + kk()) as nat, kk() as nat);
    assert(pow2(64 * l) * g == pow2((64 * l + e + kk()) as nat));
    lemma_small_mod(scal(v, e), u1());
    lemma_fundamental_div_mod_converse(scal(v, e) as int, u1() as int, 0, scal(v, e) as int);
}
pub proof fn lemma_mag_zero(v: nat, e: int)
    requires e + kk() >= 0,
    ensures scal(v, e) == 0 <==> v == 0,
{
    lemma_pow2_pos((e + kk()) as nat); let g = pow2((e + kk()) as nat);
    assert(v * g == 0 <==> v == 0) by(nonlinear_arith) requires g > 0;
}
impl Mantissa { pub open spec fn max_bits(&self) -> nat { 64 * self.l() } }
pub proof fn lemma_n_le(m: Mantissa)
    requires m.wf(),
    ensures m.n <= 64 * m.l(), m.v() < pow2(64 * m.l()), m.n == 0 ==> m.v() == 0,
{
    lemma_val_bound(m.m.inner@);
    if m.n > 64 * m.l() { lemma_pow2_le(64 * m.l(), (m.n - 1) as nat); }
}
/// the fraction digits moved to the top by k
pub proof fn lemma_fract(v: nat, l: nat, e: nat, k: nat, e0: int)
    requires e <= k < 64 * l, isbl(v % pow2((64 * l - e) as nat), (64 * l - k) as nat), v < pow2(64 * l), e0 == e - 64 * l, e0 - k + kk() >= 0,
    ensures ({ let x = v % pow2((64 * l - e) as nat); &&& forall|j: nat| j <= k ==> #[trigger] ((v * pow2(j)) % pow2(64 * l)) == (if j >= e { x * pow2(j) } else { (v * pow2(j)) % pow2(64 * l) })
        &&& forall|j: nat| e <= j <= k ==> isbl(#[trigger] (x * pow2(j)), (64 * l - k + j) as nat) && scal(x * pow2(j), e0 - j) == scal(x, e0)
        &&& x < pow2((64 * l - k) as nat) }),
{
    let t = 64 * l; let x = v % pow2((t - e) as nat);
    lemma_pow2_64();
    assert forall|j: nat| e <= j <= k implies #[trigger] ((v * pow2(j)) % pow2(t)) == x * pow2(j) by {
        let a = pow2((t - j) as nat); lemma_pow2_pos((t - j) as nat); lemma_pow2_pos(j); lemma_pow2_adds((t - j) as nat, j);
        lemma_pow2_pos((j - e) as nat); lemma_pow2_adds((t - j) as nat, (j - e) as nat); lemma_pow2_pos((t - e) as nat);
        // v % a == x % a == x
        lemma_mod_mod(v as int, a as int, pow2((j - e) as nat) as int);
        lemma_pow2_le((t - k) as nat, (t - j) as nat);
        lemma_small_mod(x, a);
        assert(v % a == x);
        lemma_truncate_middle(v as int, pow2(j) as int, a as int);
        assert(pow2(j) * (v % a) == (pow2(j) * v) % (pow2(j) * a));
        assert(pow2(j) * v == v * pow2(j)) by(nonlinear_arith);
        assert(pow2(j) * a == a * pow2(j)) by(nonlinear_arith);
        assert(pow2(j) * x == x * pow2(j)) by(nonlinear_arith);
    }
    assert forall|j: nat| e <= j <= k implies isbl(#[trigger] (x * pow2(j)), (t - k + j) as nat) && scal(x * pow2(j), e0 - j) == scal(x, e0) by {
        lemma_bl_shl(x, (t - k) as nat, j);
        lemma_pow2_adds(j, (e0 - j + kk()) as nat);
        let g = pow2((e0 - j + kk()) as nat); let pj = pow2(j);
        assert(x * pj * g == x * (pj * g)) by(nonlinear_arith);
    }
}
pub proof fn lemma_pow2_le(a: nat, b: nat)
    requires a <= b,
    ensures pow2(a) <= pow2(b),
{ if a < b { lemma_pow2_strictly_increases(a, b); } }
/// clearing low digits keeps the most significant bit
pub proof fn lemma_int_bl(m: Mantissa, c: nat)
    requires m.wf(), c < 64 * m.l(), m.n == 64 * m.l() || m.n == 0,
    ensures isbl(m.v() / pow2(c) * pow2(c), m.n as nat),
{
    lemma_pow2_pos(c);
    let v = m.v(); let p = pow2(c);
    if m.n == 0 { lemma_div_basics(p as int); assert(0nat / p == 0) by(nonlinear_arith) requires p > 0; assert(0 * p == 0); }
    else {
        lemma_fundamental_div_mod(v as int, p as int); lemma_mod_bound(v as int, p as int);
        let n = m.n as nat; let d = (n - 1 - c) as nat; let q = v / p;
        lemma_pow2_adds(c, d); lemma_pow2_pos(d);
        assert(p * d >= 0) by(nonlinear_arith);
        assert(p * q == q * p) by(nonlinear_arith);
        let r = v % p; let g = pow2(d);
        if q < g { assert(p * q + p <= p * g) by(nonlinear_arith) requires q + 1 <= g, p > 0; }
        assert(q * p >= pow2(d) * p) by(nonlinear_arith) requires q >= pow2(d);
        assert(pow2(d) * p == p * pow2(d)) by(nonlinear_arith);
    }
}
/// floor/ceil: exactly x with the precision and the flag of a, unless x exceeds the exponent range
pub open spec fn partres(a: BigFloatNumber, x: int, ret: Result<BigFloatNumber, Error>) -> bool {
    match ret {
        Ok(r) => r.wf() && r.m.l() == a.m.l() && r.sv() == x && r.inexact == a.inexact,
        Err(Error::ExponentOverflow(g)) => g == isgn(x) && iabs(x) >= pow2((EXPONENT_MAX + kk()) as nat),
        Err(e) => e == Error::MemoryAllocation,
    }
}
pub proof fn lemma_floor(a: BigFloatNumber)
    requires a.wf(),
    ensures u1() > 0, ({ let q = (a.mag() / u1()) as int; floor_of(a.sv()) == (if a.s == Sign::Neg && a.mag() % u1() != 0 { -(q + 1) } else if a.s == Sign::Neg { -q } else { q }) * u1() && -(q * u1()) == -q * u1() }),
{
    lemma_pow2_pos(kk() as nat);
    let m = a.mag() as int; let u = u1() as int; let q = m / u; let r = m % u;
    lemma_fundamental_div_mod(m, u); lemma_mod_bound(m, u);
    assert(-(q * u) == -q * u) by(nonlinear_arith);
    if a.s == Sign::Neg {
        if r != 0 { assert(-m == u * (-(q + 1)) + (u - r)) by(nonlinear_arith) requires m == u * q + r; lemma_fundamental_div_mod_converse(-m, u, -(q + 1), u - r); }
        else { assert(-m == u * (-q)) by(nonlinear_arith) requires m == u * q + r, r == 0; lemma_fundamental_div_mod_converse(-m, u, -q, 0); }
    }
}
pub proof fn lemma_ceil(a: BigFloatNumber)
    requires a.wf(),
    ensures u1() > 0, ({ let q = (a.mag() / u1()) as int; ceil_of(a.sv()) == (if a.s == Sign::Pos && a.mag() % u1() != 0 { q + 1 } else if a.s == Sign::Pos { q } else { -q }) * u1() && -(q * u1()) == -q * u1() }),
{
    lemma_pow2_pos(kk() as nat);
    let m = a.mag() as int; let u = u1() as int; let q = m / u; let r = m % u;
    lemma_fundamental_div_mod(m, u); lemma_mod_bound(m, u);
    assert(-(q * u) == -q * u) by(nonlinear_arith);
    if a.s == Sign::Pos {
        if r != 0 { assert(-m == u * (-(q + 1)) + (u - r)) by(nonlinear_arith) requires m == u * q + r; lemma_fundamental_div_mod_converse(-m, u, -(q + 1), u - r); assert(-(-(q + 1) * u) == (q + 1) * u) by(nonlinear_arith); }
        else { assert(-m == u * (-q)) by(nonlinear_arith) requires m == u * q + r, r == 0; lemma_fundamental_div_mod_converse(-m, u, -q, 0); assert(-(-q * u) == q * u) by(nonlinear_arith); }
    } else { assert(-(q * u) == -q * u) by(nonlinear_arith); }
}
/// the two parts add up to the number; floor and ceiling are the neighbouring integers
pub proof fn lemma_parts(a: BigFloatNumber)
    requires a.wf(),
    ensures a.mag() / u1() * u1() + a.mag() % u1() == a.mag(), a.mag() % u1() < u1(),
        floor_of(a.sv()) <= a.sv() < floor_of(a.sv()) + u1(), ceil_of(a.sv()) - u1() < a.sv() <= ceil_of(a.sv()),
{
    lemma_pow2_pos(kk() as nat); let u = u1() as int;
    lemma_fundamental_div_mod(a.mag() as int, u); lemma_mod_bound(a.mag() as int, u);
    lemma_fundamental_div_mod(a.sv(), u); lemma_mod_bound(a.sv(), u);
    lemma_fundamental_div_mod(-a.sv(), u); lemma_mod_bound(-a.sv(), u);
    assert(a.mag() as int / u * u == u * (a.mag() as int / u)) by(nonlinear_arith);
    assert(a.sv() / u * u == u * (a.sv() / u)) by(nonlinear_arith);
    assert(-a.sv() / u * u == u * (-a.sv() / u)) by(nonlinear_arith);
}
pub proof fn lemma_one()
    ensures one().wf(), one().mag() == u1(), one().s == Sign::Pos, !one().inexact, one().sv() == u1(),
{
    axiom_one();
    assert(1 * pow2(kk() as nat) == pow2(kk() as nat));
    lemma_pow2_pos(kk() as nat);
}
/// the next integer is representable with the precision of a
pub proof fn lemma_step(a: BigFloatNumber, i: BigFloatNumber)
    requires a.wf(), a.mag() % u1() != 0, i.mag() == a.mag() / u1() * u1(), i.m.l() == a.m.l(), 
    ensures a.m.l() > 0, ({ let y = ((a.mag() / u1() + 1) * u1()) as nat;
        &&& i.mag() + u1() == y
        &&& forall|sg: Sign, dirty: bool, r: BigFloatNumber| #[trigger] cround(y, kk(), sg, a.m.l() as int, RoundingMode::ToZero, dirty, r) ==> r.wf() && r.m.l() == a.m.l() && r.s == sg && r.mag() == y && r.inexact == dirty
        &&& forall|sg: Sign| #[trigger] coverflow(y, kk(), sg, a.m.l() as int, RoundingMode::ToZero) ==> y >= pow2((EXPONENT_MAX + kk()) as nat)
    }),
{
    let l = a.m.l(); let e = a.e - 64 * l; let v = a.m.v(); let u = u1(); let m = a.mag(); let q = m / u; let c = q + 1; let y = c * u;
    lemma_n_le(a.m); lemma_mag_bl(a); lemma_pow2_pos(kk() as nat); lemma_pow2_64();
    if l == 0 { assert(v == 0); lemma_mag_zero(v, e); assert(0nat % u == 0); }
    if e >= 0 { lemma_whole(v, e); assert(false); }
    assert(i.mag() + u == y) by(nonlinear_arith) requires i.mag() == q * u, y == (q + 1) * u;
    lemma_fundamental_div_mod(m as int, u as int);
    assert(c <= pow2((64 * l - 1) as nat)) by {
        if a.e <= 0 { lemma_frac(v, e, l); lemma_pow2_pos((64 * l - 1) as nat); }
        else {
            // m < 2^(e + kk)
            lemma_split(v, (-e) as nat, e);
            lemma_pow2_adds(a.e as nat, (-e) as nat);
            let p = pow2((-e) as nat); let g = pow2(a.e as nat);
            assert(v / p < g) by { lemma_fundamental_div_mod(v as int, p as int); if v / p >= g { assert(p * (v / p) >= g * p) by(nonlinear_arith) requires v / p >= g, p > 0; } }
            lemma_pow2_le(a.e as nat, (64 * l - 1) as nat);
        }
    }
    let b = blen(c); lemma_blen(c); lemma_bl_shl(c, b, kk() as nat); lemma_blen_is(y, (b + kk()) as nat);
    if b > 64 * l { lemma_pow2_strictly_increases((64 * l - 1) as nat, (b - 1) as nat); }
    let n = cut(y, kk(), l as int) as nat;
    assert(n == b - 64 * l + kk());
    lemma_pow2_adds(n, (kk() - n) as nat); lemma_pow2_pos(n);
    let z = c * pow2((kk() - n) as nat); let pn = pow2(n);
    assert(y == z * pn) by(nonlinear_arith) requires y == c * u, u == pn * pow2((kk() - n) as nat), z == c * pow2((kk() - n) as nat);
    lemma_fundamental_div_mod_converse(y as int, pn as int, z as int, 0);
    assert(y > 0) by(nonlinear_arith) requires y == c * u, c > 0, u > 0;
    lemma_rnd_exact(y, n, RoundingMode::ToZero, true); lemma_rnd_exact(y, n, RoundingMode::ToZero, false);
}
%% fn num.rs|impl BigFloatNumber|int
pub fn int(&self) -> (ret: Result<Self, Error>)
@    requires self.wf(),
@    ensures match ret { Ok(r) => part_of(*self, self.mag() / u1() * u1(), r), Err(e) => e == Error::MemoryAllocation },
{
@let ghost v = self.m.v(); let ghost l = self.m.l(); let ghost e = self.e - 64 * l;
@proof { lemma_n_le(self.m); if self.e <= 0 { lemma_frac(v, e, l); } else if e < 0 { lemma_split(v, (-e) as nat, e); } else { lemma_whole(v, e); } lemma_pow2_64(); lemma_mag_zero(0, 0 - 64 * l); lemma_mag_bl(*self); }
    let mut ret = self.clone()?;
    if self.e > 0 {
        if (self.e as usize) < self.m.max_bit_len() {
            ret.m.mask_bits(self.m.max_bit_len() - self.e as usize, false)
@;proof { lemma_int_bl(self.m, (-e) as nat); }
        }
    } else {
        ret.m.set_zero();
        ret.e = 0;
    }
@proof { assert(ret.wf()); lemma_mag_bl(ret); }
    Ok(ret)
}
%% fn num.rs|impl BigFloatNumber|fract
pub fn fract(&self) -> (ret: Result<Self, Error>)
@    requires self.wf(),
@    ensures match ret { Ok(r) => part_of(*self, self.mag() % u1(), r), Err(e) => e == Error::MemoryAllocation },
{
@let ghost v = self.m.v(); let ghost l = self.m.l(); let ghost e0 = self.e - 64 * l; let ghost c = (-e0) as nat;
@proof { lemma_n_le(self.m); if self.e <= 0 { lemma_frac(v, e0, l); } else if e0 < 0 { lemma_split(v, c, e0); lemma_mag_zero(v % pow2(c), e0); } else { lemma_whole(v, e0); } lemma_pow2_64(); lemma_mag_zero(0, 0 - 64 * l); lemma_bp(l); }
    let mut ret = self.clone()?;
    if self.e > 0 {
        if (self.e as usize) < self.m.max_bit_len() {
            if let Some(shift) = self.m.find_one_from(self.e as usize) {
@proof { lemma_fract(v, l, self.e as nat, shift as nat, e0); }
                let mut e = self.e as isize - shift as isize;
                if e < EXPONENT_MIN as isize {
                    let shift1 = (self.e as isize - EXPONENT_MIN as isize) as usize;
                    ret.m.shift_left(shift1);
@let ghost x1 = ret.m.v();
@proof { assert(x1 == (v % pow2(c)) * pow2(shift1 as nat)); lemma_small_mod(x1, pow2((64 * l - (shift - shift1)) as nat)); }
                    ret.m.mask_bits(shift - shift1, true);
                    e = EXPONENT_MIN as isize;
                } else {
                    ret.m.shift_left(shift);
                }
                ret.e = e as Exponent;
            } else {
                ret.m.set_zero();
                ret.e = 0;
            }
        } else {
            ret.m.set_zero();
            ret.e = 0;
        }
    }
@proof { assert(ret.wf()); lemma_mag_bl(ret); }
    Ok(ret)
}
%% fn num.rs|impl BigFloatNumber|is_int
pub fn is_int(&self) -> (ret: bool)
@    requires self.wf(),
@    ensures ret == (self.mag() % u1() == 0),
{
@let ghost v = self.m.v(); let ghost l = self.m.l(); let ghost e = self.e - 64 * l;
@proof { lemma_n_le(self.m); if self.e <= 0 { lemma_frac(v, e, l); lemma_mag_zero(v, e); } else if e < 0 { lemma_split(v, (-e) as nat, e); lemma_mag_zero(v % pow2((-e) as nat), e); } else { lemma_whole(v, e); } lemma_pow2_64(); }
    if self.e > 0 {
        if (self.e as usize) < self.m.max_bit_len() {
            self.m.find_one_from(self.e as usize).is_none()
        } else {
            true
        }
    } else {
        self.is_zero()
    }
}
%% fn num.rs|impl BigFloatNumber|floor
pub fn floor(&self) -> (ret: Result<Self, Error>)
@    requires self.wf(),
@    ensures partres(*self, floor_of(self.sv()), ret),
{
@proof { lemma_n_le(self.m); lemma_floor(*self); }
    let int_ = self.int()?;
    if self.is_negative() && !self.fract()?.m.is_zero() {
@proof { lemma_one(); lemma_step(*self, int_); let y = ((self.mag() / u1() + 1) * u1()) as int; assert(int_.sv() - one().sv() == -y); assert(-y == ({ let q = self.mag() / u1();  -(q + 1) }) * u1()) by(nonlinear_arith) requires y == (self.mag() / u1() + 1) * u1(); assert(iabs(int_.sv() - one().sv()) == (self.mag() / u1() + 1) * u1()); }
        return int_.sub(&ONE, int_.mantissa_max_bit_len(), RoundingMode::ToZero);
    }
    Ok(int_)
}
%% fn num.rs|impl BigFloatNumber|ceil
pub fn ceil(&self) -> (ret: Result<Self, Error>)
@    requires self.wf(),
@    ensures partres(*self, ceil_of(self.sv()), ret),
{
@proof { lemma_n_le(self.m); lemma_ceil(*self); }
    let int_ = self.int()?;
    if self.is_positive() && !self.fract()?.m.is_zero() {
@proof { lemma_one(); lemma_step(*self, int_); let y = ((self.mag() / u1() + 1) * u1()) as int; assert(int_.sv() + one().sv() == y); assert(y == ({ let q = self.mag() / u1(); q + 1 }) * u1()) by(nonlinear_arith) requires y == (self.mag() / u1() + 1) * u1(); assert(iabs(int_.sv() + one().sv()) == (self.mag() / u1() + 1) * u1()); }
        return int_.add(&ONE, int_.mantissa_max_bit_len(), RoundingMode::ToZero);
    }
    Ok(int_)
}
%% ghost
/// moving the digits to the top by k and the exponent down by k keeps the value
pub proof fn lemma_move(v: nat, l: nat, n: nat, k: nat, e: int)
    requires isbl(v, n), n + k <= 64 * l, e - k + kk() >= 0,
    ensures (v * pow2(k)) % bp(l) == v * pow2(k), isbl(v * pow2(k), n + k) || n == 0, scal(v * pow2(k), e - k) == scal(v, e),
{
    lemma_bp(l); if n > 0 { lemma_bl_shl(v, n, k); }
    let x = v * pow2(k); lemma_pow2_pos(n + k); 
    if n > 0 { lemma_pow2_le(n + k, 64 * l); } else { lemma_pow2_pos(64 * l); assert(0 * pow2(k) == 0); }
    lemma_small_mod(x, pow2(64 * l));
    lemma_pow2_adds(k, (e - k + kk()) as nat);
    let g = pow2((e - k + kk()) as nat); let pj = pow2(k);
    assert(v * pj * g == v * (pj * g)) by(nonlinear_arith);
}
%% fn num.rs|impl BigFloatNumber|set_exponent
pub fn set_exponent(&mut self, e: Exponent)
@    requires old(self).wf(),
@    ensures final(self).wf(), final(self).m.l() == old(self).m.l(), final(self).s == old(self).s, final(self).inexact == old(self).inexact,
@        final(self).mag() == scal(old(self).m.v(), e - 64 * old(self).m.l()), 0 < old(self).m.n == old(self).m.max_bits() ==> final(self).e == e && final(self).m == old(self).m,
@        old(self).m.n == 0 ==> final(self).m == old(self).m && final(self).e == old(self).e,
{
@let ghost v = self.m.v(); let ghost l = self.m.l(); let ghost nn = self.m.n as nat; let ghost e0 = (e - EXPONENT_MIN) as nat;
@proof { lemma_n_le(self.m); lemma_mag_zero(0, -64 * l); lemma_mag_zero(0, e - 64 * l); if nn > 0 && nn < 64 * l { let d = 64 * l - nn; if d >= e0 { lemma_move(v, l, nn, e0, e - 64 * l); } else { lemma_move(v, l, nn, d as nat, e - 64 * l); } } }
    if !self.is_zero() {
        if self.is_subnormal() && e > EXPONENT_MIN {
            let ediff = e as isize - EXPONENT_MIN as isize;
            let n = self.mantissa_max_bit_len() - self.precision();
            if n as isize >= ediff {
                self.m.shift_left(ediff as usize);
                self.m.set_bit_len(self.m.bit_len() + ediff as usize);
            } else {
                self.m.shift_left(n);
                self.m.set_bit_len(self.m.max_bit_len());
                self.e = (e as isize - n as isize) as Exponent;
            }
        } else {
            self.e = e;
        }
    }
}
%% ghost
/// the number with the given words, sign and exponent, exactly
pub open spec fn wordsres(m: Seq<u64>, s: Sign, e: Exponent, ret: Result<BigFloatNumber, Error>) -> bool {
    match ret {
        Err(x) => x == Error::MemoryAllocation || x == Error::InvalidArgument && 64 * m.len() >= pmax(),
        Ok(r) => r.wf() && r.m.l() == m.len() && r.s == s && !r.inexact && r.mag() == scal(val(m), e - 64 * m.len()),
    }
}
%% fn num.rs|impl BigFloatNumber|from_words
pub fn from_words(m: &[Word], s: Sign, mut e: Exponent) -> (ret: Result<Self, Error>)
@    requires m@.len() <= maxw(),
@    ensures wordsres(m@, s, e, ret),
{
@let ghost v = val(m@); let ghost l = m@.len() as nat; let ghost ei = e as int;
@proof { lemma_val_bound(m@); lemma_pow2_64(); lemma_mag_zero(0, -64 * l); lemma_mag_zero(0, e - 64 * l); assert(v * 1 == v); }
    let p = m.len() * WORD_BIT_SIZE;
    Self::p_assertion(p)?;
    let mut m = Mantissa::from_words(p, m)?;
    let bl = m.bit_len();
@proof { lemma_n_le(m); let d = p - bl; let e1 = (ei - EXPONENT_MIN) as nat; if d >= e1 { lemma_move(v, l, bl as nat, e1, ei - 64 * l); } else { lemma_move(v, l, bl as nat, d as nat, ei - 64 * l); } }
    if m.is_zero() {
        e = 0;
    } else if bl < p {
        let mut shift = p - bl;
        if (e as isize) < EXPONENT_MIN as isize + shift as isize {
            shift = (e as isize - EXPONENT_MIN as isize) as usize;
            e = EXPONENT_MIN;
        } else {
            e = (e as isize - shift as isize) as Exponent;
        }
        m.shift_left(shift);
        m.set_bit_len(bl + shift);
    }
    Ok(BigFloatNumber {
        e,
        s,
        m,
        inexact: false,
    })
}
%% ghost
pub assume_specification [i128::unsigned_abs] (x: i128) -> (r: u128) ensures r == (if x < 0 { -(x as int) } else { x as int });
pub open spec fn longres(i: int, p: usize, ret: Result<BigFloatNumber, Error>) -> bool { ret == Err::<BigFloatNumber, Error>(Error::InvalidArgument) && p < 128 || wordres(i, p, ret) && (ret is Ok ==> p >= 128) }
pub proof fn lemma_u128(v0: nat, v: nat, k: nat, l: nat)
    requires v0 > 0, v == v0 * pow2(k), pow2(127) <= v < pow2(128), k < 128, 2 <= l, 64 * l <= kk(),
    ensures isbl(v * pow2((64 * (l - 2)) as nat), 64 * l), scal(v * pow2((64 * (l - 2)) as nat), 128 - k - 64 * l) == v0 * pow2(kk() as nat),
        forall|j: nat| #[trigger] isbl(v * pow2((64 * (l - 2)) as nat), j) ==> j == 64 * l,
{
    let a = (64 * (l - 2)) as nat; let g = pow2((128 - k - 64 * l + kk()) as nat);
    lemma_bl_shl(v, 128, a);
    assert forall|j: nat| #[trigger] isbl(v * pow2(a), j) implies j == 64 * l by { lemma_bl_unique(v * pow2(a), j, 64 * l); }
    lemma_pow2_adds(k, a); lemma_pow2_adds(k + a, (128 - k - 64 * l + kk()) as nat);
    let x = pow2(k); let y = pow2(a);
    assert(v0 * x * y * g == v0 * (x * y * g)) by(nonlinear_arith);
}
pub proof fn lemma_double(v: u128)
    requires v <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff,
    ensures (v << 1) == 2 * v,
{ assert((v << 1) == 2 * v) by(bit_vector) requires v <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff; }
pub proof fn lemma_halves(v: u128)
    ensures v == (v as u64) + ((v >> 64) as u64) * 0x1_0000_0000_0000_0000, v >> 64 < 0x1_0000_0000_0000_0000,
{
    assert(v == (v as u64) as u128 + ((v >> 64) as u64) as u128 * 0x1_0000_0000_0000_0000u128) by(bit_vector);
    assert(v >> 64 < 0x1_0000_0000_0000_0000u128) by(bit_vector);
}
%% fn num.rs|impl BigFloatNumber|from_u128
pub fn from_u128(mut v: u128, p: usize) -> (ret: Result<Self, Error>)
@    ensures longres(v as int, p, ret),
{
@let ghost v0 = v;
@proof { assert(u128::MAX >> 1 == 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128) by(bit_vector); lemma_pow2_64(); assert(v as nat * pow2(0) == v) by(nonlinear_arith) requires pow2(0) == 1; lemma_pow2_adds(64, 64); lemma_pow2_adds(127, 1); }
    let SZ: usize = 16usize * 8;
    if p < SZ {
        return Err(Error::InvalidArgument);
    }
    Self::p_assertion(p)?;
    if v == 0 {
        Self::new(p)
    } else {
        let mut shift = 0;
        while v <= (u128::MAX >> 1)
@    invariant v0 > 0, v == v0 as nat * pow2(shift as nat), 0 <= shift, u128::MAX >> 1 == 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, shift < 128, pow2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
@    decreases u128::MAX - v,
        {
@proof { lemma_double(v); let sh: int = shift as int; lemma_pow2_unfold((sh + 1) as nat); lemma_pow2_pos(sh as nat); let x = pow2(sh as nat); assert(v0 as nat * (2 * x) == 2 * (v0 as nat * x)) by(nonlinear_arith); assert(v > 0) by(nonlinear_arith) requires v == v0 as nat * x, v0 > 0, x > 0; assert(2 * x < pow2(128)) by(nonlinear_arith) requires 2 * (v0 as nat * x) < pow2(128), v0 >= 1; if sh + 1 >= 128 { lemma_pow2_le(128, (sh + 1) as nat); } }
            v <<= 1;
            shift += 1;
        }
        let mut words = [0; 2];
        let mut ix_1: usize = 0;
        let end_2: usize = words.len();
@let ghost v1 = v;
@proof { lemma_halves(v); lemma_halves(v >> 64); }
        while ix_1 < end_2
@    invariant ix_1 <= end_2, end_2 == 2, words@.len() == 2, ix_1 == 0 ==> v == v1, ix_1 >= 1 ==> words@[0] == v1 as u64, ix_1 == 1 ==> v == v1 >> 64, ix_1 == 2 ==> words@[1] == (v1 >> 64) as u64,
@    decreases end_2 - ix_1,
        {
            let k_3 = ix_1;
            ix_1 += 1;
            words[k_3] = v as Word;
            v >>= WORD_BIT_SIZE;
        }
@proof { assert(words@.len() == 2); lemma_bp(0); lemma_bp(1); reveal_with_fuel(valr, 3); assert(val(words@) == v1) by { assert(valr(words@, 0, 2) == valr(words@, 0, 1) + words@[1] as nat * bp(1)); assert(valr(words@, 0, 1) == words@[0] as nat * bp(0)); assert(words@[0] as nat * 1 == words@[0] as nat); } lemma_u128(v0 as nat, v1 as nat, shift as nat, words_of(p) as nat); }
        Ok(BigFloatNumber {
            m: Mantissa::from_words(p, &words)?,
            e: (SZ - shift) as Exponent,
            s: Sign::Pos,
            inexact: false,
        })
    }
}
%% fn num.rs|impl BigFloatNumber|from_i128
pub fn from_i128(i: i128, p: usize) -> (ret: Result<Self, Error>)
@    ensures longres(i as int, p, ret),
{
    let sign = if i < 0 { Sign::Neg } else { Sign::Pos };
    let mut ret = Self::from_u128(i.unsigned_abs(), p)?;
    ret.set_sign(sign);
@proof { let m = iabs(i as int) as int; assert(-(m * pow2(kk() as nat)) == (-m) * pow2(kk() as nat)) by(nonlinear_arith); }
    Ok(ret)
}
%% ghost
/// the bits of a double (IEEE 754 binary64) and the arithmetic on doubles that the source uses
pub uninterp spec fn fbits(f: f64) -> u64;
pub open spec fn fexp(u: u64) -> u64 { (u >> 52) & 0x7ff }
pub open spec fn ffrac(u: u64) -> u64 { u & 0xf_ffff_ffff_ffff }
pub open spec fn fnan(u: u64) -> bool { fexp(u) == 0x7ff && ffrac(u) != 0 }
pub open spec fn finf(u: u64) -> bool { fexp(u) == 0x7ff && ffrac(u) == 0 }
pub open spec fn fzero(u: u64) -> bool { fexp(u) == 0 && ffrac(u) == 0 }
pub open spec fn fneg(u: u64) -> bool { u >> 63 == 1 }
/// absolute value in units of 2^-1074
pub open spec fn fmag(u: u64) -> nat { if fexp(u) == 0 { ffrac(u) as nat } else { (0x10_0000_0000_0000 + ffrac(u) as nat) * pow2((fexp(u) - 1) as nat) } }
#[verifier::external_body]
pub fn f64_eq0(f: f64) -> (r: bool) ensures r == fzero(fbits(f)), { f == 0.0 }
#[verifier::external_body]
pub fn f64_lt0(f: f64) -> (r: bool) ensures r == (fneg(fbits(f)) && !fzero(fbits(f)) && !fnan(fbits(f))), { f < 0.0 }
#[verifier::external_body]
pub fn f64_gt0(f: f64) -> (r: bool) ensures r == (!fneg(fbits(f)) && !fzero(fbits(f)) && !fnan(fbits(f))), { f > 0.0 }
#[verifier::external_body]
pub fn f64_neg(f: f64) -> (r: f64) ensures fbits(r) == fbits(f) ^ 0x8000_0000_0000_0000, { -f }
/// widening is exact: its value is that of the float
pub uninterp spec fn widen(f: f32) -> f64;
#[verifier::external_body]
pub fn f32_to_f64(f: f32) -> (r: f64) ensures r == widen(f), { f as f64 }
pub assume_specification [f64::is_infinite] (x: f64) -> (r: bool) ensures r == finf(fbits(x));
pub assume_specification [f64::is_nan] (x: f64) -> (r: bool) ensures r == fnan(fbits(x));
pub assume_specification [f64::is_sign_negative] (x: f64) -> (r: bool) ensures r == fneg(fbits(x));
pub assume_specification [f64::to_bits] (x: f64) -> (r: u64) ensures r == fbits(x);
/// the number represents the double exactly
pub open spec fn floatres(u: u64, p: usize, ret: Result<BigFloatNumber, Error>) -> bool {
    match ret {
        Err(Error::MemoryAllocation) => true,
        Err(Error::InvalidArgument) => p == 0 || p >= pmax() || fnan(u),
        Err(Error::ExponentOverflow(g)) => finf(u) && g == (if fneg(u) { Sign::Neg } else { Sign::Pos }),
        Err(Error::DivisionByZero) => false,
        Ok(r) => !fnan(u) && !finf(u) && p < pmax() && r.m.l() == words_of(p) && (p > 0 ==> r.wf()) && !r.inexact
            && r.sv() == (if fneg(u) { -(fmag(u) as int) } else { fmag(u) as int }) * pow2((kk() - 1074) as nat),
    }
}
pub proof fn lemma_sgn(u: u64)
    ensures -(fmag(u) as int) * pow2((kk() - 1074) as nat) == -(fmag(u) * pow2((kk() - 1074) as nat)),
{ let a = fmag(u) as int; let b = pow2((kk() - 1074) as nat) as int; assert(-a * b == -(a * b)) by(nonlinear_arith); }
pub proof fn lemma_fbits(u: u64, m: u64)
    requires m == (if fexp(u) == 0 { u << 12 } else { (u << 12) >> 1 | 0x8000_0000_0000_0000 }),
    ensures m == (if fexp(u) == 0 { ffrac(u) * 0x1000 } else { (0x10_0000_0000_0000 + ffrac(u)) * 0x800 }), fexp(u) <= 0x7ff, ffrac(u) <= 0xf_ffff_ffff_ffff,
        ((u >> 52) as i32) & 0x7ff == fexp(u), 
{
    assert(u << 12 == mul((u & 0xf_ffff_ffff_ffff), 0x1000)) by(bit_vector);
    assert((u << 12) >> 1 | 0x8000_0000_0000_0000 == mul(add(0x10_0000_0000_0000, (u & 0xf_ffff_ffff_ffff)), 0x800)) by(bit_vector);
    assert((u >> 52) & 0x7ff <= 0x7ff) by(bit_vector);
    assert(u & 0xf_ffff_ffff_ffff <= 0xf_ffff_ffff_ffff) by(bit_vector);
    assert(((u >> 52) as i32) & 0x7ff == ((u >> 52) & 0x7ff) as i32) by(bit_vector);
}
pub proof fn lemma_fexp(u: u64)
    ensures ((u >> 52) as i32) & 0x7ff == fexp(u), 0 <= fexp(u) <= 0x7ff,
{ assert(((u >> 52) as i32) & 0x7ff == ((u >> 52) & 0x7ff) as i32) by(bit_vector); assert((u >> 52) & 0x7ff <= 0x7ff) by(bit_vector); }
pub proof fn lemma_fneg(u: u64)
    ensures ({ let w = u ^ 0x8000_0000_0000_0000; fexp(w) == fexp(u) && ffrac(w) == ffrac(u) && (fneg(w) <==> !fneg(u)) }),
{
    assert(((u ^ 0x8000_0000_0000_0000) >> 52) & 0x7ff == (u >> 52) & 0x7ff) by(bit_vector);
    assert((u ^ 0x8000_0000_0000_0000) & 0xf_ffff_ffff_ffff == u & 0xf_ffff_ffff_ffff) by(bit_vector);
    assert((u ^ 0x8000_0000_0000_0000) >> 63 == 1 <==> u >> 63 != 1) by(bit_vector);
}
/// m, normalised by k, with the exponent of the double
pub proof fn lemma_float(u: u64, m: u64, k: nat, l: nat, e: int)
    requires m == (if fexp(u) == 0 { ffrac(u) * 0x1000 } else { (0x10_0000_0000_0000 + ffrac(u)) * 0x800 }), k < 64, 0 < l, 64 * l + 2000 <= kk(), e == fexp(u) + 1 - 1023, fexp(u) <= 0x7ff,
    ensures scal((m as nat * pow2(k)) * pow2((64 * (l - 1)) as nat), e - k - 64 * l) == fmag(u) * pow2((kk() - 1074) as nat),
{
    let a = (64 * (l - 1)) as nat; let g = (e - k - 64 * l + kk()) as nat;
    lemma_pow2_adds(k, a); lemma_pow2_adds(k + a, g); lemma_pow2_64();
    let x = pow2(k); let y = pow2(a); let z = pow2(g); let mm = m as nat;
    assert(mm * x * y * z == mm * (x * y * z)) by(nonlinear_arith);
    let t = (e - 64 + kk()) as nat;
    assert(x * y * z == pow2(t));
    assert(scal((mm * x) * y, e - k - 64 * l) == mm * pow2(t));
    let fr = ffrac(u) as nat;
    if fexp(u) == 0 {
        lemma_pow2_adds(12, t); assert(pow2(12) == 0x1000) by { lemma2_to64(); }
        assert(t + 12 == kk() - 1074);
        let z = pow2(t); assert(fr * 0x1000 * z == fr * (0x1000 * z)) by(nonlinear_arith);
    } else {
        let b = 0x10_0000_0000_0000 + fr; let c = (fexp(u) - 1) as nat; let d = (kk() - 1074) as nat;
        lemma_pow2_adds(11, t); assert(pow2(11) == 0x800) by { lemma2_to64(); } lemma_pow2_adds(c, d);
        assert(t + 11 == c + d);
        let z = pow2(t); assert(b * 0x800 * z == b * (0x800 * z)) by(nonlinear_arith);
        let p = pow2(c); let q = pow2(d); assert(b * p * q == b * (p * q)) by(nonlinear_arith);
    }
}
%% fn num.rs|impl BigFloatNumber|from_f64
@#[verifier::rlimit(40)]
pub fn from_f64(p: usize, mut f: f64) -> (ret: Result<Self, Error>)
@    ensures floatres(fbits(f), p, ret),
{
@let ghost f0 = fbits(f);
@proof { lemma_fneg(f0); lemma_pow2_pos((kk() - 1074) as nat); assert(0 * pow2((kk() - 1074) as nat) == 0); assert(-(0 as int) * pow2((kk() - 1074) as nat) == 0); lemma_sgn(f0); }
    Self::p_assertion(p)?;
    if f64_eq0(f) {
        return Self::new(p);
    }
    let mut ret = Self::new(0)?;
    if f.is_infinite() {
        return Err(Error::ExponentOverflow(if f.is_sign_negative() {
            Sign::Neg
        } else {
            Sign::Pos
        }));
    }
    if f.is_nan() {
        return Err(Error::InvalidArgument);
    }
    if f64_lt0(f) {
        ret.s = Sign::Neg;
        f = f64_neg(f);
    }
    let u = f.to_bits();
@assert(fexp(u) == fexp(f0) && ffrac(u) == ffrac(f0)); proof { lemma_fexp(u); }
    let mut mantissa = u << 12;
    let mut exponent: Exponent = (u >> 52) as Exponent & 0b11111111111;
    if exponent != 0 {
        mantissa >>= 1;
        mantissa |= 0x8000000000000000u64;
    }
@proof { lemma_fbits(u, mantissa); }
    exponent += 1;
    let (shift, m) = Mantissa::from_u64(p, mantissa)?;
@proof { lemma_float(u, mantissa, shift as nat, words_of(p) as nat, exponent - 1023); assert(mantissa != 0); }
    ret.m = m;
    ret.e = exponent - 0b1111111111 - shift as Exponent;
    Ok(ret)
}
