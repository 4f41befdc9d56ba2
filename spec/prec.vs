%% ghost
// ---- equality of scaled naturals with integer exponents
/// a * 2^i == b * 2^j
pub open spec fn feq(a: nat, i: int, b: nat, j: int) -> bool {
    if i >= j { a * pow2((i - j) as nat) == b } else { a == b * pow2((j - i) as nat) }
}
pub proof fn lemma_mul_inj(a: nat, b: nat, c: nat)
    requires a * c == b * c, c > 0,
    ensures a == b,
{ assert(a == b) by(nonlinear_arith) requires a * c == b * c, c > 0; }
/// common low exponent
pub proof fn lemma_feq_at(a: nat, i: int, b: nat, j: int, k: int)
    requires k <= i, k <= j,
    ensures feq(a, i, b, j) <==> a * pow2((i - k) as nat) == b * pow2((j - k) as nat),
{
    lemma_pow2_pos((i - k) as nat); lemma_pow2_pos((j - k) as nat);
    if i >= j {
        lemma_pow2_adds((i - j) as nat, (j - k) as nat);
        let (p, q) = (pow2((i - j) as nat), pow2((j - k) as nat));
        assert(a * (p * q) == (a * p) * q) by(nonlinear_arith);
        if a * pow2((i - k) as nat) == b * q { lemma_mul_inj(a * p, b, q); }
    } else {
        lemma_pow2_adds((j - i) as nat, (i - k) as nat);
        let (p, q) = (pow2((j - i) as nat), pow2((i - k) as nat));
        assert(b * (p * q) == (b * p) * q) by(nonlinear_arith);
        if a * q == b * pow2((j - k) as nat) { lemma_mul_inj(a, b * p, q); }
    }
}
pub proof fn lemma_feq_trans(a: nat, i: int, b: nat, j: int, c: nat, k: int)
    requires feq(a, i, b, j), feq(b, j, c, k),
    ensures feq(a, i, c, k), feq(c, k, a, i),
{
    let m = if i <= j && i <= k { i } else if j <= k { j } else { k };
    lemma_feq_at(a, i, b, j, m); lemma_feq_at(b, j, c, k, m); lemma_feq_at(a, i, c, k, m); lemma_feq_at(c, k, a, i, m);
}
pub proof fn lemma_feq_sym(a: nat, i: int, b: nat, j: int)
    ensures feq(a, i, b, j) <==> feq(b, j, a, i), feq(a, i, a, i),
{
    let m = if i <= j { i } else { j };
    lemma_feq_at(a, i, b, j, m); lemma_feq_at(b, j, a, i, m); lemma_feq_at(a, i, a, i, i);
}
/// a * 2^(i + d) == (a * 2^d) * 2^i
pub proof fn lemma_feq_shift(a: nat, i: int, d: nat)
    ensures feq(a, i + d, a * pow2(d), i), feq(a * pow2(d), i, a, i + d),
{ lemma_pow2_64(); lemma_feq_sym(a, i + d, a * pow2(d), i); assert(a * 1 == a); }
pub proof fn lemma_feq_scal(a: nat, i: int, b: nat, j: int)
    requires i + kk() >= 0, j + kk() >= 0,
    ensures scal(a, i) == scal(b, j) <==> feq(a, i, b, j),
{ lemma_feq_at(a, i, b, j, -kk()); }
/// the bits of v below position n are dropped or rounded
pub proof fn lemma_rnd_bounds(v: nat, n: nat, rm: RoundingMode, pos: bool)
    ensures v / pow2(n) <= rnd(v, n, rm, pos) <= v / pow2(n) + 1, (v / pow2(n)) * pow2(n) <= v < (v / pow2(n) + 1) * pow2(n),
{
    lemma_pow2_pos(n); let p = pow2(n);
    lemma_fundamental_div_mod(v as int, p as int); lemma_mod_bound(v as int, p as int);
    let q = v / p; let r = v % p;
    assert(p * q == q * p) by(nonlinear_arith);
    assert((q + 1) * p == q * p + p) by(nonlinear_arith);
}
%% ghost
/// number of bits of a mantissa of l words beyond p bits
pub open spec fn cutp(l: nat, p: usize) -> int { if 64 * l > p { 64 * l - p } else { 0 } }
/// x replaced by its p-bit neighbour
pub open spec fn prec_res(x: BigFloatNumber, p: usize, rm: RoundingMode, r: BigFloatNumber) -> bool {
    let c = cutp(x.m.l(), p) as nat;
    let e = x.e - 64 * x.m.l();
    &&& r.s == x.s && r.m.l() == words_of(p) <= maxw()
    &&& p > 0 ==> r.wf()
    &&& p > 0 ==> (if rm == RoundingMode::None { r.mag() == scal((x.m.v() / bp((c / 64) as nat)) * bp((c / 64) as nat), e) } else { r.mag() == scal(rnd(x.m.v(), c, rm, x.s == Sign::Pos) * pow2(c), e) })
    &&& r.inexact == (x.inexact || x.m.v() % pow2(c) != 0)
    &&& p == 0 ==> r.mag() == 0
}
pub open spec fn prec_err(x: BigFloatNumber, p: usize, rm: RoundingMode, e: Error) -> bool {
    match e {
        Error::MemoryAllocation => words_of(p) > x.m.l(),
        Error::InvalidArgument => p >= pmax(),
        Error::ExponentOverflow(s) => s == x.s && p > 0 && rm != RoundingMode::None && x.e == EXPONENT_MAX && rnd(x.m.v(), cutp(x.m.l(), p) as nat, rm, x.s == Sign::Pos) * pow2(cutp(x.m.l(), p) as nat) == bp(x.m.l()),
        Error::DivisionByZero => false,
    }
}
%% ghost
pub proof fn lemma_isq_val(v: nat, q: nat, n: nat, full: bool)
    requires isq(v, q, n, full),
    ensures (v / bp((n / 64) as nat)) * bp((n / 64) as nat) == q * pow2(n), q * pow2(n) <= v < q * pow2(n) + bp((n / 64) as nat), bp((n / 64) as nat) > 0,
{
    let k = (n / 64) as nat; let b = bp(k); let z = pow2((n % 64) as nat);
    lemma_bp(k); lemma_pow2_adds((n % 64) as nat, (64 * k) as nat);
    assert(64 * k + n % 64 == n);
    assert((q * z) * b == q * (z * b)) by(nonlinear_arith);
    lemma_fundamental_div_mod(v as int, b as int); lemma_mod_bound(v as int, b as int);
    let d = v / b; assert(b * d == d * b) by(nonlinear_arith);
}
/// the top bit of a mantissa of w bits under rounding at position c
pub proof fn lemma_rnd_top(v: nat, c: nat, w: nat, rm: RoundingMode, pos: bool)
    requires 0 < w, c < w, v < pow2(w),
    ensures v >= pow2((w - 1) as nat) ==> (v / pow2(c)) * pow2(c) >= pow2((w - 1) as nat) && rnd(v, c, rm, pos) * pow2(c) >= pow2((w - 1) as nat),
        v < pow2((w - 1) as nat) ==> rnd(v, c, rm, pos) * pow2(c) <= pow2((w - 1) as nat),
        rnd(v, c, rm, pos) * pow2(c) <= pow2(w), pow2((w - 1) as nat) < pow2(w),
{
    lemma_pow2_pos(c); let p = pow2(c); let q = v / p;
    lemma_fundamental_div_mod(v as int, p as int); lemma_mod_bound(v as int, p as int);
    lemma_rnd_bounds(v, c, rm, pos);
    lemma_pow2_adds((w - 1 - c) as nat, c); lemma_pow2_adds((w - c) as nat, c); lemma_pow2_unfold(w); lemma_pow2_pos((w - 1) as nat);
    let a = pow2((w - 1 - c) as nat); let a2 = pow2((w - c) as nat); let r = rnd(v, c, rm, pos); let m = v % p;
    assert(q < a2) by(nonlinear_arith) requires v == p * q + m, m >= 0, v < a2 * p, p > 0;
    assert(r * p <= a2 * p) by(nonlinear_arith) requires r <= q + 1, q < a2, p > 0;
    if v >= pow2((w - 1) as nat) {
        assert(q >= a) by(nonlinear_arith) requires v == p * q + m, m < p, v >= a * p, p > 0;
        assert(q * p >= a * p) by(nonlinear_arith) requires q >= a, p > 0;
        assert(r * p >= a * p) by(nonlinear_arith) requires r >= q, q >= a, p > 0;
    } else {
        assert(q < a) by(nonlinear_arith) requires v == p * q + m, m >= 0, v < a * p, p > 0;
        assert(r * p <= a * p) by(nonlinear_arith) requires r <= q + 1, q < a, p > 0;
    }
}
/// the last step: y is rounded but has the length of x, r has the final length; w is the rounded mantissa of x
pub proof fn lemma_prec_fin(x: BigFloatNumber, y: BigFloatNumber, r: BigFloatNumber, k: nat, w: nat)
    requires x.wf(), x.m.l() == y.m.l(), 0 <= k < x.m.l(), r.m.l() == x.m.l() - k, r.m.v() == y.m.v() / bp(k), isbl(r.m.v(), r.m.n as nat), r.m.l() <= maxw(),
        isbl(y.m.v(), y.m.n as nat), r.m.n == (if y.m.n >= 64 * k { y.m.n - 64 * k } else { 0 }),
        y.m.n <= 64 * k || y.m.n == 64 * x.m.l() || x.e == EXPONENT_MIN,
        r.e == (if r.m.n == 0 { 0 } else { y.e as int }),
        (y.m.v() / bp(k)) * bp(k) == w && (y.e == x.e || w == 0 && y.e == 0) || (y.m.v() / bp(k)) * bp(k) == pow2((64 * x.m.l() - 1) as nat) && w == pow2((64 * x.m.l()) as nat) && y.e == x.e + 1 && x.e < EXPONENT_MAX && y.m.n == 64 * x.m.l(),
    ensures r.wf(), r.mag() == scal(w, x.e - 64 * x.m.l()),
{
    lemma_mag_bl(x);
    let l = x.m.l(); let e = x.e - 64 * l;
    lemma_pow2_64(); lemma_bp(k);
    lemma_pow2_pos(0);
    assert(isbl(0, 0)); lemma_scal_pos(0, e);
    if r.m.n == 0 {
        assert(r.m.v() == 0);
        lemma_scal_pos(0, r.e - 64 * r.m.l());
        assert(0 * bp(k) == 0);
        lemma_pow2_pos((64 * l - 1) as nat);
        assert(w == 0);
    } else {
        let v = r.m.v();
        lemma_scal_shift(v, y.e - 64 * l, (64 * k) as nat);
        assert(y.e - 64 * l + 64 * k == r.e - 64 * r.m.l());
        if w == 0 { lemma_pow2_pos((r.m.n - 1) as nat); assert(v == 0) by(nonlinear_arith) requires v * bp(k) == 0, bp(k) > 0; assert(false); }
        if y.e != x.e {
            lemma_pow2_unfold((64 * l) as nat);
            lemma_scal_shift(pow2((64 * l - 1) as nat), e, 1);
            assert(pow2((64 * l - 1) as nat) * 2 == w);
        }
    }
}
pub proof fn lemma_isbl_small(v: nat, n: nat, k: nat)
    requires isbl(v, n), v / bp(k) == 0 || (v / bp(k)) * bp(k) == 0,
    ensures n <= 64 * k,
{
    lemma_bp(k); let b = bp(k); let q = v / b;
    lemma_fundamental_div_mod(v as int, b as int); lemma_mod_bound(v as int, b as int);
    assert(q * b == b * q) by(nonlinear_arith);
    if n > 64 * k { if n - 1 > 64 * k { lemma_pow2_strictly_increases((64 * k) as nat, (n - 1) as nat); } }
}
pub proof fn lemma_words(l: nat, p: usize)
    requires p <= usize::MAX - 64,
    ensures 0 < p < 64 * l ==> l - words_of(p) == cutp(l, p) / 64 && 0 < words_of(p) <= l, p >= 64 * l ==> words_of(p) >= l, p == 0 ==> words_of(p) == 0,
{}
%% fn num.rs|impl BigFloatNumber|set_precision_internal
@#[verifier::rlimit(100)]
@#[verifier::loop_isolation(false)]
pub fn set_precision_internal(
    &mut self,
    p: usize,
    rm: RoundingMode,
    mut check_roundable: bool,
    s: usize,
) -> (ret: Result<bool, Error>)
@    requires old(self).wf(), check_roundable ==> old(self).inexact, rm != RoundingMode::None && 0 < p < 64 * old(self).m.l() ==> p <= s <= 64 * old(self).m.l(),
@    ensures match ret {
@        Ok(b) => (b ==> prec_res(*old(self), p, rm, *final(self))) && (!b ==> check_roundable),
@        Err(e) => prec_err(*old(self), p, rm, e) },
{
    Self::p_assertion(p)?;
@let ghost x = *self; let ghost l = x.m.l(); let ghost c = cutp(l, p) as nat; let ghost k = (c / 64) as nat; let ghost pos = x.s == Sign::Pos; let ghost v0 = x.m.v();
@proof { lemma_wf_len(x.m); lemma_words(l, p); lemma_mag_bl(x); lemma_pow2_64(); lemma_val_bound(x.m.m.inner@); assert(v0 / 1 == v0) by(nonlinear_arith); assert(v0 * 1 == v0); assert(v0 % 1 == 0); if c < 64 * l { lemma_rnd_top(v0, c, (64 * l) as nat, rm, pos); } }
@let ghost w: nat = if rm == RoundingMode::None { (v0 / bp(k)) * bp(k) } else { rnd(v0, c, rm, pos) * pow2(c) };
    if self.mantissa_max_bit_len() > p && p > 0 {
        let mut inexact = self.inexact;
@let ghost full = !check_roundable;
        let ovf = self.m.round_mantissa(
            self.mantissa_max_bit_len() - p,
            rm,
            self.is_positive(),
            &mut check_roundable,
            s,
            &mut inexact,
        );
@proof { let v1 = self.m.v(); lemma_val_bound(self.m.m.inner@); if rm != RoundingMode::None && !check_roundable { if ovf { lemma_isq_val(v1, pow2((64 * l - 1 - c) as nat), c, full); lemma_pow2_adds((64 * l - 1 - c) as nat, c); } else { lemma_isq_val(v1, rnd(v0, c, rm, pos), c, full); } } }
        self.inexact = inexact || self.inexact;
        if check_roundable && self.inexact {
            return Ok(false);
        }
@assert(!check_roundable);
@assert(rm == RoundingMode::None ==> !ovf);
@assert(ovf ==> rnd(v0, c, rm, pos) * pow2(c) == bp(l));
@assert(ovf ==> v0 >= pow2((64 * l - 1) as nat));
@proof { if ovf && x.m.n < 64 * l - 1 { lemma_pow2_strictly_increases(x.m.n as nat, (64 * l - 1) as nat); } }
@assert(ovf ==> x.m.n == 64 * l);
@assert(x.m.n == 64 * l ==> self.m.v() >= pow2((64 * l - 1) as nat));
        if ovf {
            if self.e == EXPONENT_MAX {
                return Err(Error::ExponentOverflow(self.s));
            }
            self.e += 1;
@assert(x.m.n == 64 * l);
        } else if self.m.is_all_zero() {
            self.m.set_bit_len(0);
@assert(isbl(self.m.v(), self.m.n as nat));
            self.e = 0;
        } else if self.is_subnormal() {
            self.m.update_bit_len();
@assert(isbl(self.m.v(), self.m.n as nat));
        }
    } else if p == 0 {
        if self.is_zero() {
            if check_roundable && self.inexact {
                return Ok(false);
            }
        } else {
            self.inexact = true || self.inexact;
        }
    }
@let ghost y = *self;
@assert(x.m.n == 64 * l || x.m.n == 0 || x.e == EXPONENT_MIN);
@assert(x.m.n == 64 * l ==> y.m.n == 0 || y.m.n == 64 * l);
@proof { if x.m.n == 0 && 0 < p && p < 64 * l { lemma_pow2_pos(0); assert(v0 == 0); lemma_pow2_pos(c); lemma_bp(k); lemma_small_mod(0, pow2(c)); lemma_basic_div(0, pow2(c) as int); lemma_rnd_exact(v0, c, rm, pos); assert(0 * pow2(c) == 0); lemma_basic_div(0, bp(k) as int); assert(0 * bp(k) == 0); assert(w == 0); lemma_isbl_small(y.m.v(), y.m.n as nat, k); } }
@assert(x.m.n == 0 ==> y.m.n <= 64 * k);
@proof { if 0 < p && p < 64 * l { lemma_val_bound(y.m.m.inner@);
@ if x.m.n == 64 * l {
@ assert(x.m.v() >= pow2((64 * l - 1) as nat));
@ assert(y.m.v() >= pow2((64 * l - 1) as nat)); 
@assert(isbl(y.m.v(), y.m.n as nat));}
@else {
@ assert(isbl(y.m.v(), y.m.n as nat)); }
@} else {
@ assert(isbl(y.m.v(), y.m.n as nat)); } }
    self.m.set_length(p)?;
    if self.m.is_zero() {
        self.e = 0;
    }
@proof { if 0 < p && p <= 64 * l { lemma_prec_fin(x, y, *self, k, w); } else if p > 64 * l { let d = (words_of(p) - l) as nat; lemma_scal_shift(v0, x.e - 64 * self.m.l(), (64 * d) as nat); lemma_rnd_exact(v0, 0, rm, pos); } else { lemma_scal_pos(0, self.e - 64 * self.m.l()); assert(self.m.v() == 0) by { lemma_basic_div(v0 as int, bp(l) as int); } lemma_small_mod(v0, pow2(c)); } }
    Ok(true)
}
%% fn num.rs|impl BigFloatNumber|set_precision
pub fn set_precision(&mut self, p: usize, rm: RoundingMode) -> (ret: Result<(), Error>)
@    requires old(self).wf(),
@    ensures match ret {
@        Ok(_) => prec_res(*old(self), p, rm, *final(self)),
@        Err(e) => prec_err(*old(self), p, rm, e) },
{
    match self.set_precision_internal(p, rm, false, self.mantissa_max_bit_len()) {
        Ok(_) => Ok(()),
        Err(err) => Err(err),
    }
}
