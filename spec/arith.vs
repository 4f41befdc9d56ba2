%% ghost
// ---- from a rounded mantissa to a correctly rounded number
pub proof fn lemma_divmod_is(v: nat, d: nat, q: nat, r: nat)
    requires v == q * d + r, r < d,
    ensures v / d == q, v % d == r,
{ lemma_fundamental_div_mod_converse(v as int, d as int, q as int, r as int); }
/// scaling does not change the rounding
pub proof fn lemma_rnd_scale(v: nat, n: nat, d: nat, rm: RoundingMode, pos: bool)
    ensures (v * pow2(d)) / pow2(n + d) == v / pow2(n), (v * pow2(d)) % pow2(n + d) == (v % pow2(n)) * pow2(d),
        rnd(v * pow2(d), n + d, rm, pos) == rnd(v, n, rm, pos), (v * pow2(d)) % pow2(n + d) == 0 <==> v % pow2(n) == 0,
{
    lemma_pow2_pos(n); lemma_pow2_pos(d); lemma_pow2_adds(n, d);
    let p = pow2(n); let z = pow2(d); let q = v / p; let r = v % p;
    lemma_fundamental_div_mod(v as int, p as int); lemma_mod_bound(v as int, p as int);
    assert(v * z == q * (p * z) + r * z) by(nonlinear_arith) requires v == p * q + r;
    assert(r * z < p * z) by(nonlinear_arith) requires r < p, z > 0;
    lemma_divmod_is(v * z, p * z, q, r * z);
    assert(2 * (r * z) > p * z <==> 2 * r > p) by(nonlinear_arith) requires z > 0;
    assert(2 * (r * z) == p * z <==> 2 * r == p) by(nonlinear_arith) requires z > 0;
    assert(r * z > 0 <==> r > 0) by(nonlinear_arith) requires z > 0;
}
pub proof fn lemma_sel_scale(v: nat, n: nat, d: nat, rm: RoundingMode, sg: Sign, q: nat)
    ensures sel(v * pow2(d), n + d, rm, sg, q) <==> sel(v, n, rm, sg, q), (v * pow2(d)) % pow2(n + d) == 0 <==> v % pow2(n) == 0,
{ lemma_rnd_scale(v, n, d, rm, sg == Sign::Pos); }
/// rounding a number of b bits below its top
pub proof fn lemma_sel_bounds(x: nat, b: nat, n: nat, rm: RoundingMode, sg: Sign, q: nat)
    requires isbl(x, b), n < b, sel(x, n, rm, sg, q),
    ensures pow2((b - n - 1) as nat) <= q <= pow2((b - n) as nat), q == pow2((b - n) as nat) ==> x % pow2(n) != 0,
{
    lemma_rnd_bounds(x, n, rm, sg == Sign::Pos);
    lemma_pow2_pos(n); lemma_pow2_adds((b - n - 1) as nat, n); lemma_pow2_adds((b - n) as nat, n);
    let p = pow2(n); let f = x / p; let a = pow2((b - n - 1) as nat); let c = pow2((b - n) as nat);
    lemma_fundamental_div_mod(x as int, p as int); lemma_mod_bound(x as int, p as int);
    let r = x % p;
    assert(f >= a) by(nonlinear_arith) requires x == p * f + r, r < p, x >= a * p, p > 0;
    assert(f < c) by(nonlinear_arith) requires x == p * f + r, r >= 0, x < c * p, p > 0;
    if r == 0 && rm != RoundingMode::None { lemma_rnd_exact(x, n, rm, sg == Sign::Pos); }
}
/// rounding to the power of two above, seen with one bit less
pub proof fn lemma_sel_carry(x: nat, b: nat, n: nat, rm: RoundingMode, sg: Sign)
    requires isbl(x, b), 0 < n, n + 1 < b, sel(x, n, rm, sg, pow2((b - n) as nat)),
    ensures sel(x, n + 1, rm, sg, pow2((b - n - 1) as nat)), x % pow2(n) != 0, x % pow2(n + 1) != 0,
{
    lemma_sel_bounds(x, b, n, rm, sg, pow2((b - n) as nat));
    lemma_rnd_bounds(x, n, rm, sg == Sign::Pos);
    lemma_pow2_pos(n); lemma_pow2_adds((b - n - 1) as nat, n + 1); lemma_pow2_adds((b - n) as nat, n); lemma_pow2_unfold((b - n) as nat); lemma_pow2_unfold(n + 1); lemma_pow2_unfold((b - n - 1) as nat);
    let p = pow2(n); let f = x / p; let c = pow2((b - n) as nat); let a = pow2((b - n - 1) as nat);
    lemma_fundamental_div_mod(x as int, p as int); lemma_mod_bound(x as int, p as int);
    let r = x % p;
    assert(f < c) by(nonlinear_arith) requires x == p * f + r, r >= 0, x < c * p, p > 0;
    assert(f == c - 1);
    assert(x == (a - 1) * (2 * p) + (p + r)) by(nonlinear_arith) requires x == p * f + r, f == 2 * a - 1;
    lemma_divmod_is(x, 2 * p, (a - 1) as nat, p + r);
}
/// a rounded mantissa of pw words of the exact value x * 2^-w, in [1/2, 1) * 2^-sh
pub open spec fn mres(x: nat, w: int, pw: int, rm: RoundingMode, sg: Sign, sh: int, m: Mantissa) -> bool {
    let b = blen(x); let n = b - 64 * pw;
    &&& m.normal() && m.l() == pw
    &&& if n > 0 { exists|q: nat| #[trigger] sel(x, n as nat, rm, sg, q) && (q < bp(pw as nat) && m.v() == q && sh == w - b || q == bp(pw as nat) && 2 * m.v() == q && sh == w - b - 1) }
        else { m.v() == x * pow2((-n) as nat) && sh == w - b }
}
/// digits lost by mres
pub open spec fn mdirty(x: nat, pw: int) -> bool { blen(x) > 64 * pw && x % pow2((blen(x) - 64 * pw) as nat) != 0 }
/// the same without rounding
pub open spec fn fres(x: nat, w: int, sh: int, m: Mantissa) -> bool {
    m.normal() && sh == w - blen(x) && feq(m.v(), 0, x, 64 * m.l() - blen(x))
}
pub proof fn lemma_isbl_scale(x: nat, t: nat)
    requires x > 0,
    ensures isbl(x, blen(x)), blen(x) > 0, blen(x * pow2(t)) == blen(x) + t, x * pow2(t) > 0,
{
    lemma_blen(x); lemma_bl_shl(x, blen(x), t); lemma_blen_is(x * pow2(t), blen(x) + t); lemma_pow2_pos(t);
    assert(x * pow2(t) > 0) by(nonlinear_arith) requires x > 0, pow2(t) > 0;
}
/// a mantissa rounded for an exponent in range is the correctly rounded number
pub proof fn lemma_norm(x: nat, w: int, t: nat, e0: int, s: int, rm: RoundingMode, sg: Sign, sh: int, m: Mantissa, e: int, dirty: bool)
    requires x > 0, mres(x, w, m.l() as int, rm, sg, sh, m), e == e0 - sh, t == s + e0 - w, s >= kk(), t >= 64 * m.l(), -0x3000_0000_0000_0000 < e0 - sh,
    ensures
        EXPONENT_MIN <= e <= EXPONENT_MAX ==> forall|r: BigFloatNumber| #![trigger r.wf()] r.m == m && r.e == e && r.s == sg && (rm != RoundingMode::None ==> (r.inexact <==> dirty || mdirty(x, m.l() as int))) ==> cround(x * pow2(t), s, sg, m.l() as int, rm, dirty, r),
        e > EXPONENT_MAX ==> coverflow(x * pow2(t), s, sg, m.l() as int, rm),
        e < EXPONENT_MIN ==> blen(x) + e0 - w < EXPONENT_MIN,
{
    let pw = m.l() as int; let b = blen(x); let n = b - 64 * pw; let y = x * pow2(t);
    lemma_isbl_scale(x, t);
    lemma_pow2_64(); lemma_bp(pw as nat);
    lemma_pow2_unfold((64 * pw) as nat);
    let c = cut(y, s, pw);
    assert(blen(y) - s == b + e0 - w);
    assert(c >= n + t);
    // the selected integer for the natural cut n + t
    let q: nat = if n > 0 { choose|q: nat| #[trigger] sel(x, n as nat, rm, sg, q) && (q < bp(pw as nat) && m.v() == q && sh == w - b || q == bp(pw as nat) && 2 * m.v() == q && sh == w - b - 1) } else { x * pow2((-n) as nat) };
    let nt = (n + t) as nat;
    if n > 0 {
        lemma_sel_scale(x, n as nat, t, rm, sg, q);
        lemma_sel_bounds(x, b, n as nat, rm, sg, q);
        assert(mdirty(x, pw) <==> y % pow2(nt) != 0);
    } else {
        lemma_pow2_adds((-n) as nat, nt);
        assert(y == q * pow2(nt)) by(nonlinear_arith) requires y == x * pow2(t), q == x * pow2((-n) as nat), pow2(t) == pow2((-n) as nat) * pow2(nt);
        lemma_pow2_pos(nt);
        lemma_divmod_is(y, pow2(nt), q, 0);
        lemma_rnd_exact(y, nt, rm, sg == Sign::Pos);
        assert(!mdirty(x, pw));
    }
    assert(sel(y, nt, rm, sg, q));
    // its value is that of m
    let k = (e - 64 * pw + s) as nat;
    if e >= EXPONENT_MIN || e > EXPONENT_MAX {
        assert(e - 64 * pw + s >= 0);
        if q == m.v() {
            assert(k == nt);
        } else {
            assert(k == nt + 1); lemma_pow2_unfold(k);
            assert(q * pow2(nt) == m.v() * pow2(k)) by(nonlinear_arith) requires q == 2 * m.v(), pow2(k) == 2 * pow2(nt);
        }
        assert(q * pow2(nt) == m.v() * pow2(k));
    }
    if EXPONENT_MIN <= e <= EXPONENT_MAX {
        if b + e0 - w >= EXPONENT_MIN {
            assert(c == nt);
        } else {
            assert(q != m.v());
            assert(c == nt + 1);
            lemma_bl_shl(x, b, t);
            lemma_sel_carry(y, b + t, nt, rm, sg);
        }
        assert forall|r: BigFloatNumber| #![trigger r.wf()] r.m == m && r.e == e && r.s == sg && (rm != RoundingMode::None ==> (r.inexact <==> dirty || mdirty(x, pw))) implies cround(y, s, sg, pw, rm, dirty, r) by {
            lemma_val_bound(m.m.inner@);
            lemma_wf_normal(m);
            lemma_scal_kk(r, s);
            assert(r.mag() * pow2((s - kk()) as nat) == m.v() * pow2(k));
            if c == nt { assert(sel(y, c as nat, rm, sg, q) && q * pow2(c as nat) == r.mag() * pow2((s - kk()) as nat)); }
            else {
                let q2 = m.v();
                assert(q2 == pow2((b + t - nt - 1) as nat));
                assert(sel(y, c as nat, rm, sg, q2) && q2 * pow2(c as nat) == r.mag() * pow2((s - kk()) as nat));
            }
        }
    }
    if e > EXPONENT_MAX {
        assert(b + e0 - w >= EXPONENT_MAX);
        assert(c == nt);
        lemma_pow2_adds((64 * pw - 1) as nat, k);
        if 64 * pw - 1 + k > EXPONENT_MAX + s { lemma_pow2_strictly_increases((EXPONENT_MAX + s) as nat, (64 * pw - 1 + k) as nat); }
        assert(m.v() * pow2(k) >= pow2((64 * pw - 1) as nat) * pow2(k)) by(nonlinear_arith) requires m.v() >= pow2((64 * pw - 1) as nat);
        assert(sel(y, c as nat, rm, sg, q) && q * pow2(c as nat) >= pow2((EXPONENT_MAX + s) as nat));
    }
}
pub proof fn lemma_wf_normal(m: Mantissa)
    requires m.normal(),
    ensures m.wf(), isbl(m.v(), (64 * m.l()) as nat), blen(m.v()) == 64 * m.l(), m.v() > 0, m.n > 0,
{ lemma_val_bound(m.m.inner@); lemma_pow2_pos((64 * m.l() - 1) as nat); lemma_blen_is(m.v(), (64 * m.l()) as nat); }
pub proof fn lemma_scal_kk(r: BigFloatNumber, s: int)
    requires s >= kk(), r.e - 64 * r.m.l() + kk() >= 0,
    ensures r.mag() * pow2((s - kk()) as nat) == r.m.v() * pow2((r.e - 64 * r.m.l() + s) as nat),
{
    lemma_pow2_adds((r.e - 64 * r.m.l() + kk()) as nat, (s - kk()) as nat);
    let (a, b) = (pow2((r.e - 64 * r.m.l() + kk()) as nat), pow2((s - kk()) as nat));
    assert((r.m.v() * a) * b == r.m.v() * (a * b)) by(nonlinear_arith);
}
%% ghost
/// a rounded mantissa shifted to the place of its exponent
pub proof fn lemma_sub_final(v0: nat, v1: nat, l: nat, n: nat, sh: nat, rm: RoundingMode, pos: bool)
    requires l > 0, isbl(v0, 64 * l), 0 < n < 64 * l,
        rm == RoundingMode::None && sh == n && v1 == v0 || rm != RoundingMode::None && sh == n && isq(v1, rnd(v0, n, rm, pos), n, true)
            || sh == n - 1 && rnd(v0, n, rm, pos) * pow2(n) == bp(l) && isq(v1, pow2((64 * l - 1 - n) as nat), n, true),
    ensures v1 / pow2(sh) == rnd(v0, n, rm, pos), rnd(v0, n, rm, pos) > 0, sh == 0 ==> isbl(v1, 64 * l),
{
    lemma_pow2_pos(n); lemma_pow2_pos(sh);
    lemma_rnd_bounds(v0, n, rm, pos);
    lemma_sel_bounds(v0, 64 * l, n, rm, if pos { Sign::Pos } else { Sign::Neg }, rnd(v0, n, rm, pos));
    let q = rnd(v0, n, rm, pos);
    lemma_pow2_pos((64 * l - n - 1) as nat);
    if sh == n - 1 {
        lemma_pow2_adds((64 * l - 1 - n) as nat, n); lemma_pow2_adds((64 * l - n) as nat, n); lemma_pow2_adds((64 * l - n) as nat, sh);
        lemma_mul_inj(q, pow2((64 * l - n) as nat), pow2(n));
        lemma_divmod_is(v1, pow2(sh), q, 0);
        lemma_pow2_unfold((64 * l) as nat);
    } else if rm != RoundingMode::None {
        lemma_divmod_is(v1, pow2(sh), q, 0);
    }
}
pub proof fn lemma_one_word(z: Seq<u64>, s: Seq<u64>)
    requires val(z) == 0, z.len() > 0, s =~= z.update(0, 1),
    ensures val(s) == 1,
{ lemma_valr_zero_rev(z, 0, z.len() as int); lemma_valr_first(s, 0, s.len() as int); lemma_valr_zero(s, 1, s.len() as int); lemma_pow2_64(); }
%% ghost
/// rounding at or above the top bit
pub proof fn lemma_rnd_tiny(v: nat, b: nat, n: nat, rm: RoundingMode, pos: bool)
    requires isbl(v, b), 0 < b <= n,
    ensures v / pow2(n) == 0, v % pow2(n) == v, v % pow2(n) != 0,
        rnd(v, n, rm, pos) == (if rm == RoundingMode::FromZero || rm == RoundingMode::Up && pos || rm == RoundingMode::Down && !pos || b == n && (rm == RoundingMode::ToOdd || rm == RoundingMode::ToEven && v % pow2((n - 1) as nat) != 0) { 1nat } else { 0 }),
{
    lemma_pow2_pos((b - 1) as nat);
    if b < n { lemma_pow2_strictly_increases(b, n); }
    lemma_divmod_is(v, pow2(n), 0, v);
    lemma_pow2_unfold(n);
    let h = pow2((n - 1) as nat);
    if b < n { if b < n - 1 { lemma_pow2_strictly_increases(b, (n - 1) as nat); } }
    else { lemma_divmod_is(v, h, 1, (v - h) as nat); }
}
pub proof fn lemma_rnd_zero(n: nat, rm: RoundingMode, pos: bool)
    ensures rnd(0, n, rm, pos) == 0, 0nat % pow2(n) == 0,
{ lemma_pow2_pos(n); lemma_divmod_is(0, pow2(n), 0, 0); }
%% fn num.rs|impl BigFloatNumber|subnormalize
pub fn subnormalize(&mut self, e: isize, rm: RoundingMode)
@    requires old(self).m.normal(), old(self).e == EXPONENT_MIN, -0x4000_0000_0000_0000 < e < EXPONENT_MIN,
@    ensures final(self).wf(), final(self).m.l() == old(self).m.l(), final(self).s == old(self).s,
@        final(self).m.v() == rnd(old(self).m.v(), (EXPONENT_MIN - e) as nat, rm, old(self).s == Sign::Pos),
@        final(self).m.n > 0 ==> final(self).e == EXPONENT_MIN,
@        final(self).inexact == (old(self).inexact || old(self).m.v() % pow2((EXPONENT_MIN - e) as nat) != 0),
{
@let ghost l = self.m.l(); let ghost v0 = self.m.v(); let ghost n = (EXPONENT_MIN - e) as nat; let ghost pos = self.s == Sign::Pos;
@proof { lemma_wf_normal(self.m); lemma_wf_len(self.m); if n >= 64 * l { lemma_rnd_tiny(v0, 64 * l, n, rm, pos); } }
    if self.is_zero() {
        return;
    }
    let is_positive = self.is_positive();
    if (self.m.max_bit_len() as isize) + e > EXPONENT_MIN as isize {
        let mut shift = (EXPONENT_MIN as isize - e) as usize;
        let mut inexact = self.inexact;
        if self.m.round_mantissa(
            shift,
            rm,
            is_positive,
            &mut false,
            self.m.max_bit_len(),
            &mut inexact,
        ) {
            shift -= 1;
        }
        self.inexact = inexact || self.inexact;
@proof { let v1 = self.m.v(); lemma_val_bound(self.m.m.inner@); lemma_sub_final(v0, v1, l, n, shift as nat, rm, pos); }
@proof { if shift == 0 { lemma_pow2_64(); assert(self.m.v() / 1 == self.m.v()) by(nonlinear_arith); } }
        if shift > 0 {
            self.m.shift_right(shift);
            self.m.update_bit_len();
        }
    } else if rm == RoundingMode::FromZero
        || (is_positive && rm == RoundingMode::Up)
        || (!is_positive && rm == RoundingMode::Down)
        || (self.m.max_bit_len() as isize + e == EXPONENT_MIN as isize
            && (rm == RoundingMode::ToOdd
                || (rm == RoundingMode::ToEven
                    && count_leading_zeroes_skip_first(self.m.digits()) != self.m.max_bit_len())))
    {
        self.m.set_zero();
@let ghost z = self.m.m.inner@;
        self.m.digits_mut()[0] = 1;
@proof { lemma_one_word(z, self.m.m.inner@); lemma_pow2_64(); }
        self.m.set_bit_len(1);
        self.inexact = true || self.inexact;
    } else {
        self.m.set_zero();
        self.e = 0;
        self.inexact = true || self.inexact;
    }
}
%% ghost
/// the exact number (v * 2^(e - 64 l)) below half of the smallest positive one
pub proof fn lemma_newsub_tiny(v: nat, l: nat, e: int, v2: nat, p: usize, rm: RoundingMode, sg: Sign, dirty: bool, r: BigFloatNumber)
    requires l > 0, isbl(v, 64 * l), isbl(v2, p as nat), p > 0, p % 64 == 0, EXPONENT_MIN - e > p, e - 64 * l + kk() >= 0,
        r.wf(), r.m.l() == words_of(p), r.s == sg, r.m.v() == rnd(v2, (EXPONENT_MIN - e) as nat, rm, sg == Sign::Pos), r.m.n > 0 ==> r.e == EXPONENT_MIN,
        r.inexact == (dirty || v2 % pow2((EXPONENT_MIN - e) as nat) != 0),
    ensures cround(v * pow2((e - 64 * l + kk()) as nat), kk(), sg, words_of(p), rm, dirty, r),
{
    let t = (e - 64 * l + kk()) as nat; let x = v * pow2(t); let pw = words_of(p);
    let n = (EXPONENT_MIN - e) as nat;
    lemma_pow2_pos((64 * l - 1) as nat);
    lemma_blen_is(v, 64 * l); lemma_isbl_scale(v, t); lemma_bl_shl(v, 64 * l, t);
    let c = cut(x, kk(), pw);
    assert(c == EXPONENT_MIN - p + kk());
    lemma_rnd_tiny(x, 64 * l + t, c as nat, rm, sg == Sign::Pos);
    lemma_rnd_tiny(v2, p as nat, n, rm, sg == Sign::Pos);
    let q = r.m.v();
    lemma_mag_bl(r);
    lemma_pow2_64();
    if q == 0 { assert(0 * pow2(c as nat) == 0); assert(r.mag() == 0); assert(r.mag() * pow2(0) == 0); }
    else {
        assert(r.m.n > 0);
        assert(r.e - 64 * r.m.l() + kk() == c);
        assert(r.mag() == q * pow2(c as nat));
        lemma_mul_basics_3(r.mag() as int);
        assert(r.mag() * pow2(0) == r.mag());
    }
    assert(sel(x, c as nat, rm, sg, q) && q * pow2(c as nat) == r.mag() * pow2((kk() - kk()) as nat));
}
/// y: the exact number, r: the same after set_precision
pub proof fn lemma_prec_cround(y: BigFloatNumber, p: usize, rm: RoundingMode, r: BigFloatNumber)
    requires y.wf(), 0 < p, p % 64 == 0, prec_res(y, p, rm, r),
    ensures cround(y.mag(), kk(), y.s, words_of(p), rm, y.inexact, r),
{
    let l = y.m.l(); let e = (y.e - 64 * l + kk()) as nat; let pw = words_of(p); let v = y.m.v(); let x = y.mag(); let pos = y.s == Sign::Pos;
    lemma_mag_bl(y); lemma_mag_bl(r);
    lemma_wf_len(y.m);
    if y.m.n == 0 {
        let d = cutp(l, p) as nat;
        lemma_rnd_zero(d, rm, pos); lemma_pow2_pos(d); lemma_pow2_64(); lemma_bp((d / 64) as nat);
        assert(v == 0);
        assert(0nat / bp((d / 64) as nat) == 0) by { lemma_divmod_is(0, bp((d / 64) as nat), 0, 0); }
        assert(0 * bp((d / 64) as nat) == 0); assert(0 * pow2(d) == 0);
        lemma_scal_zero(y.e - 64 * l);
        assert(r.mag() == 0);
        lemma_scal_pos(r.m.v(), r.e - 64 * r.m.l());
        assert(r.m.n == 0);
        lemma_cround_zero(kk(), y.s, pw, rm, y.inexact, r);
        return;
    }
    lemma_isbl_scale(v, e); lemma_blen_is(v, y.m.n as nat);
    let c = cut(x, kk(), pw);
    assert(blen(x) - kk() == y.e - 64 * l + y.m.n);
    assert(c == y.e - p + kk());
    let d = cutp(l, p) as nat;
    lemma_pow2_64(); lemma_bp((d / 64) as nat);
    let q: nat = if 64 * l > p { rnd(v, d, rm, pos) } else { v * pow2((p - 64 * l) as nat) };
    if 64 * l > p {
        assert(d % 64 == 0);
        assert(64 * (d / 64) == d);
        assert(e + d == c);
        lemma_rnd_scale(v, d, e, rm, pos);
        lemma_scal_shift(q, y.e - 64 * l, d);
        assert(r.mag() == q * pow2(c as nat));
    } else {
        assert(d == 0);
        lemma_pow2_adds((p - 64 * l) as nat, c as nat);
        let (a, b) = (pow2((p - 64 * l) as nat), pow2(c as nat));
        assert(x == q * b) by(nonlinear_arith) requires x == v * pow2(e), q == v * a, pow2(e) == a * b;
        lemma_pow2_pos(c as nat);
        lemma_divmod_is(x, b, q, 0);
        lemma_rnd_exact(x, c as nat, rm, pos);
        assert(v % 1 == 0); assert(v / 1 == v) by(nonlinear_arith);
        lemma_rnd_exact(v, 0, rm, pos);
        assert(v * 1 == v);
        assert(r.mag() == x);
    }
    assert(r.mag() * 1 == r.mag());
    assert(sel(x, c as nat, rm, y.s, q) && q * pow2(c as nat) == r.mag() * pow2((kk() - kk()) as nat));
}
pub proof fn lemma_scal_zero(e: int) ensures scal(0, e) == 0 {}
/// the error of set_precision
pub proof fn lemma_prec_over(y: BigFloatNumber, p: usize, rm: RoundingMode, g: Sign)
    requires y.wf(), prec_err(y, p, rm, Error::ExponentOverflow(g)), p % 64 == 0,
    ensures coverflow(y.mag(), kk(), y.s, words_of(p), rm), g == y.s,
{
    let l = y.m.l(); let v = y.m.v(); let d = cutp(l, p) as nat; let pos = y.s == Sign::Pos; let pw = words_of(p);
    let q = rnd(v, d, rm, pos);
    lemma_val_bound(y.m.m.inner@); lemma_wf_len(y.m); lemma_pow2_64(); lemma_bp(l);
    if d == 0 { lemma_rnd_exact(v, 0, rm, pos); assert(v % 1 == 0); assert(v / 1 == v) by(nonlinear_arith); assert(v * 1 == v); assert(false); }
    if y.m.n < 64 * l { if y.m.n == 0 { lemma_rnd_zero(d, rm, pos); assert(0 * pow2(d) == 0); } assert(false); }
    lemma_mag_bl(y);
    let e = (y.e - 64 * l + kk()) as nat;
    lemma_isbl_scale(v, e); lemma_blen_is(v, (64 * l) as nat);
    let c = cut(y.mag(), kk(), pw) as nat;
    assert(c == e + d);
    lemma_rnd_scale(v, d, e, rm, pos);
    lemma_pow2_adds(d, e); lemma_pow2_adds((64 * l) as nat, e);
    let (a, b) = (pow2(d), pow2(e));
    assert(q * (a * b) == (q * a) * b) by(nonlinear_arith);
    assert(sel(y.mag(), c, rm, y.s, q) && q * pow2(c) >= pow2((EXPONENT_MAX + kk()) as nat));
}
/// extension by at least sh bits makes the shift exact
pub proof fn lemma_newsub_ext(v: nat, l: nat, e: int, d: nat, sh: nat, rm: RoundingMode, pos: bool, y: BigFloatNumber)
    requires l > 0, isbl(v, 64 * l), d * 64 >= sh, sh == EXPONENT_MIN - e, sh > 0, y.wf(), y.m.l() == l + d, y.m.v() == rnd(v * bp(d), sh, rm, pos), y.m.n > 0 ==> y.e == EXPONENT_MIN, e - 64 * l + kk() >= 0, EXPONENT_MIN - 64 * l - 64 * d + kk() >= 0,
    ensures y.mag() == v * pow2((e - 64 * l + kk()) as nat), y.m.n > 0, y.m.n < 64 * y.m.l(), (v * bp(d)) % pow2(sh) == 0,
{
    let f = (64 * d - sh) as nat;
    lemma_pow2_adds(f, sh); lemma_pow2_pos(sh); lemma_pow2_pos(f);
    let w = v * pow2(f);
    assert(v * bp(d) == w * pow2(sh)) by(nonlinear_arith) requires w == v * pow2(f), bp(d) == pow2(f) * pow2(sh);
    lemma_divmod_is(v * bp(d), pow2(sh), w, 0);
    lemma_rnd_exact(v * bp(d), sh, rm, pos);
    assert(y.m.v() == w);
    lemma_bl_shl(v, 64 * l, f);
    lemma_bl_unique(w, (64 * l + f) as nat, y.m.n as nat);
    lemma_scal_shift(v, EXPONENT_MIN - 64 * (l + d), f);
}
%% ghost
/// a change of length keeps the top bit
pub proof fn lemma_set_len_top(v: nat, l: nat, v2: nat, l2: nat, n2: nat)
    requires l > 0, l2 > 0, isbl(v, 64 * l), isbl(v2, n2),
        l2 <= l ==> n2 == 64 * l - 64 * (l - l2), l2 >= l ==> n2 == 64 * l + 64 * (l2 - l),
    ensures isbl(v2, 64 * l2), n2 == 64 * l2, v2 >= pow2((64 * l2 - 1) as nat),
{}
%% fn num.rs|impl BigFloatNumber|new_subnormal
pub fn new_subnormal(
    m: Mantissa,
    s: Sign,
    e: isize,
    p: usize,
    rm: RoundingMode,
    inexact: bool,
) -> (ret: Result<Self, Error>)
@    requires m.normal(), -0x3000_0000_0000_0000 < e < EXPONENT_MIN, 0 < p < pmax(), p % 64 == 0,
@    ensures match ret { Err(e2) => mem(e2), Ok(r) => cround(m.v() * pow2((e - 64 * m.l() + kk()) as nat), kk(), s, words_of(p), rm, inexact, r) },
{
@let ghost l = m.l(); let ghost v0 = m.v();
@proof { lemma_wf_normal(m); lemma_wf_len(m); }
    let mut ret = BigFloatNumber {
        m,
        s,
        e: EXPONENT_MIN,
        inexact,
    };
    let shift = (EXPONENT_MIN as isize - e) as usize;
    if shift > p {
        ret.m.set_length(p)?;
@let ghost v2 = ret.m.v(); proof { lemma_set_len_top(v0, l, v2, ret.m.l(), ret.m.n as nat); }
        ret.subnormalize(e, rm);
@proof { assert(64 * words_of(p) == p); lemma_newsub_tiny(v0, l, e as int, v2, p, rm, s, inexact, ret); }
    } else {
        ret.m.set_length(ret.m.max_bit_len() + shift)?;
@let ghost v2 = ret.m.v(); let ghost d = (ret.m.l() - l) as nat; proof { lemma_set_len_top(v0, l, v2, ret.m.l(), ret.m.n as nat); }
        ret.subnormalize(e, rm);
@let ghost y = ret; proof { lemma_newsub_ext(v0, l, e as int, d, shift as nat, rm, s == Sign::Pos, y); }
        ret.set_precision(p, rm)?;
@proof { lemma_prec_cround(y, p, rm, ret); }
    }
    Ok(ret)
}
%% ghost
/// the normalized mantissa chosen by normalize
pub open spec fn nm(o: Option<Mantissa>, m: Mantissa) -> Mantissa { match o { Some(x) => x, None => m } }
/// (e1, m1) is the normalized form of x
pub open spec fn isnorm(x: BigFloatNumber, e1: int, m1: Mantissa) -> bool {
    m1.normal() && m1.l() == x.m.l() && x.mag() == m1.v() * pow2((e1 - 64 * m1.l() + kk()) as nat) && EXPONENT_MIN - 64 * x.m.l() <= e1 <= EXPONENT_MAX
}
%% fn num.rs|impl BigFloatNumber|normalize
pub fn normalize(&self) -> (ret: Result<(isize, Option<Mantissa>), Error>)
@    requires self.wf(), self.m.n > 0,
@    ensures match ret { Err(e) => mem(e), Ok(r) => isnorm(*self, r.0 as int, nm(r.1, self.m)) },
{
@proof { lemma_wf_len(self.m); }
    if self.is_subnormal() {
        let (shift, mantissa) = self.m.normilize()?;
        if (self.e as isize) - shift as isize <= isize::MIN / 2 {
            return Err(Error::ExponentOverflow(self.s));
        }
@proof { lemma_scal_shift(self.m.v(), self.e - shift - 64 * self.m.l(), shift as nat); }
        Ok((self.e as isize - shift as isize, Some(mantissa)))
    } else {
        Ok((self.e as isize, None))
    }
}
%% ghost
pub proof fn lemma_mround(x: nat, w: int, k: nat, g0: Seq<u64>, pw: nat, rm: RoundingMode, sg: Sign, v1: nat, ret: bool, g: Seq<u64>)
    requires x > 0, val(g0) == x * pow2(k), isbl(val(g0), 64 * g0.len()), k < 64 * g0.len(), 0 < pw < g0.len() <= maxw(), g.len() == pw, val(g) == v1 / bp((g0.len() - pw) as nat),
        ({ let n = (64 * (g0.len() - pw)) as nat; let m = val(g0); let r = rnd(m, n, rm, sg == Sign::Pos);
            if rm == RoundingMode::None { !ret && v1 == m } else if ret { r * pow2(n) == bp(g0.len()) && isq(v1, pow2((64 * g0.len() - 1 - n) as nat), n, true) } else { isq(v1, r, n, true) } }),
    ensures val(g) >= pow2((64 * pw - 1) as nat), forall|m: Mantissa| #![trigger m.normal()] m.m.inner@ == g && m.n == 64 * pw ==> m.normal() && (m.normal() ==> mres(x, w, pw as int, rm, sg, w - (64 * g0.len() - k) - (if ret { 1int } else { 0int }), m)),
        mdirty(x, pw as int) <==> val(g0) % pow2((64 * (g0.len() - pw)) as nat) != 0,
{
    let l = g0.len(); let n = (64 * (l - pw)) as nat; let m = val(g0); let pos = sg == Sign::Pos; let r = rnd(m, n, rm, pos);
    let b = (64 * l - k) as nat;
    lemma_bl_unscale(x, k, 64 * l);
    lemma_blen_is(x, b); lemma_val_bound(g); lemma_pow2_pos(n);
    lemma_rnd_top(m, n, 64 * l, rm, pos); lemma_pow2_adds((64 * pw - 1) as nat, n); lemma_pow2_adds((64 * pw) as nat, n);
    let q = if rm == RoundingMode::None { m / pow2(n) } else { r };
    let (hp, pn, fp) = (pow2((64 * pw - 1) as nat), pow2(n), pow2((64 * pw) as nat));
    assert(q >= hp) by(nonlinear_arith) requires q * pn >= hp * pn, pn > 0;
    assert(q <= fp) by(nonlinear_arith) requires q * pn <= fp * pn, pn > 0, q * pn <= fp * pn || q <= fp;
    if rm != RoundingMode::None {
        let z = if ret { hp } else { r };
        lemma_isq_val(v1, z, n, true);
        assert(val(g) == z) by(nonlinear_arith) requires val(g) * pn == z * pn, pn > 0;
        if ret { assert(r == fp) by(nonlinear_arith) requires r * pn == fp * pn, pn > 0; lemma_pow2_unfold(64 * pw); }
    }
    if b > 64 * pw {
        let nn = (b - 64 * pw) as nat;
        assert(nn + k == n);
        lemma_sel_scale(x, nn, k, rm, sg, q);
        lemma_rnd_scale(x, nn, k, rm, pos);
        assert(sel(x, nn, rm, sg, q));
    } else {
        let d = (k - n) as nat;
        lemma_pow2_adds(d, n);
        let (pd, y) = (pow2(d), x * pow2(d));
        assert(m == y * pn) by(nonlinear_arith) requires m == x * pow2(k), pow2(k) == pd * pn, y == x * pd;
        lemma_divmod_is(m, pn, y, 0);
        lemma_rnd_exact(m, n, rm, pos);
        if ret { assert(false) by(nonlinear_arith) requires m < fp * pn, r == fp, m == r * pn; }
        assert(val(g) == y);
    }
    assert forall|mm: Mantissa| #![trigger mm.normal()] mm.m.inner@ == g && mm.n == 64 * pw implies mm.normal() && (mm.normal() ==> mres(x, w, pw as int, rm, sg, w - (64 * l - k) - (if ret { 1int } else { 0int }), mm)) by {
        if b > 64 * pw { let nn = (b - 64 * pw) as nat; assert(sel(x, nn, rm, sg, q)); }
    }
}
pub proof fn lemma_bl_unscale(x: nat, k: nat, n: nat)
    requires isbl(x * pow2(k), n), x > 0, k < n,
    ensures isbl(x, (n - k) as nat),
{
    lemma_blen(x); lemma_bl_shl(x, blen(x), k); lemma_blen_is(x * pow2(k), n); lemma_blen_is(x * pow2(k), blen(x) + k);
}
pub proof fn lemma_mext(x: nat, w: int, sh: int, k: nat, g0: Seq<u64>, d: nat, g: Seq<u64>)
    requires x > 0, val(g0) == x * pow2(k), isbl(val(g0), 64 * g0.len()), k < 64 * g0.len(), g.len() == g0.len() + d <= maxw(), val(g) == val(g0) * bp(d) || d == 0 && g == g0, 0 < g0.len(), sh == w - (64 * g0.len() - k),
    ensures forall|m: Mantissa, rm: RoundingMode, sg: Sign, pw: int| #![trigger mres(x, w, pw, rm, sg, sh, m)] pw == g.len() && m.m.inner@ == g && m.n == 64 * g.len() ==> m.normal() && mres(x, w, pw, rm, sg, sh, m),
        !mdirty(x, g.len() as int),
{
    let l = g0.len(); lemma_bl_unscale(x, k, 64 * l); lemma_blen_is(x, (64 * l - k) as nat);
    lemma_pow2_adds(k, 64 * d); lemma_bp(0); lemma_pow2_64();
    let (a, b) = (pow2(k), pow2(64 * d));
    assert(val(g0) * 1 == val(g0));
    assert(val(g) == x * (a * b)) by(nonlinear_arith) requires val(g) == (x * a) * b;
    lemma_bl_shl(val(g0), 64 * l, 64 * d);
}
pub proof fn lemma_mfull(x: nat, w: int, sh: int, k: nat, g0: Seq<u64>, g: Seq<u64>)
    requires x > 0, val(g0) == x * pow2(k), isbl(val(g0), 64 * g0.len()), k < 64 * g0.len(), 0 < g0.len() <= maxw(), g.len() <= g0.len(), ({ let j = g0.len() - g.len(); g =~= g0.subrange(j, g0.len() as int) && (forall|i: int| 0 <= i < j ==> g0[i] == 0) }),
        sh == w - (64 * g0.len() - k),
    ensures forall|m: Mantissa| #![trigger fres(x, w, sh, m)] m.m.inner@ == g && m.n == 64 * g.len() ==> m.normal() && fres(x, w, sh, m),
{
    let l = g0.len(); let j = (l - g.len()) as nat;
    lemma_bl_unscale(x, k, 64 * l); lemma_blen_is(x, (64 * l - k) as nat);
    lemma_drop_low(g0, g, j as int); lemma_valr_split(g0, 0, j as int, l as int); lemma_valr_zero(g0, 0, j as int); lemma_valr_ext(g0, j as int, l as int, g, 0);
    assert(val(g0) == bp(j) * val(g));
    lemma_pow2_pos((64 * l - 1) as nat);
    if g.len() == 0 { assert(val(g) == 0); assert(bp(j) * 0 == 0); }
    lemma_bl_unscale2(val(g), 64 * j, 64 * l);
    lemma_mul_is_commutative(bp(j) as int, val(g) as int);
    assert(feq(val(g), (64 * j) as int, x, k as int)) by {
        lemma_feq_at(val(g), (64 * j) as int, x, k as int, 0);
    }
    let i0 = 0int; let j0 = k - 64 * j;
    lemma_feq_at(val(g), (64 * j) as int, x, k as int, if k <= 64 * j { k as int } else { (64 * j) as int });
    lemma_feq_at(val(g), 0, x, j0, if j0 <= 0 { j0 } else { 0 });
}
pub proof fn lemma_bl_unscale2(v: nat, k: nat, n: nat)
    requires isbl(v * pow2(k), n) || isbl(pow2(k) * v, n), n > 0,
    ensures v > 0, k < n, isbl(v, (n - k) as nat),
{
    lemma_mul_is_commutative(v as int, pow2(k) as int); lemma_pow2_pos((n - 1) as nat);
    if v == 0 { assert(0 * pow2(k) == 0); }
    lemma_blen(v); lemma_bl_shl(v, blen(v), k); lemma_blen_is(v * pow2(k), n); lemma_blen_is(v * pow2(k), blen(v) + k);
}
%% ext mantissa/mul.rs|impl Mantissa|mul_unbalanced
pub fn mul_unbalanced(m1: &[Word], m2: &[Word], m3: &mut [Word]) -> (ret: Result<(), Error>)
@    requires 0 < m1@.len() <= maxw(), 0 < m2@.len() <= maxw(), old(m3)@.len() == m1@.len() + m2@.len(),
@    ensures final(m3)@.len() == old(m3)@.len(), ret is Ok ==> val(final(m3)@) == val(m1@) * val(m2@), ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
{
%% fn mantissa/mantissa.rs|impl Mantissa|mul
pub fn mul(
    &self,
    m2: &Self,
    p: usize,
    rm: RoundingMode,
    is_positive: bool,
    full_prec: bool,
    inexact: &mut bool,
) -> (ret: Result<(isize, Self), Error>)
@    requires self.normal(), m2.normal(), p < pmax(), full_prec || 0 < p,
@    ensures match ret { Err(e) => mem(e), Ok(r) => {
@        let x = self.v() * m2.v(); let w = 64 * (self.l() + m2.l());
@        if full_prec { fres(x, w as int, r.0 as int, r.1) && *final(inexact) == *old(inexact) }
@        else { mres(x, w as int, words_of(p), rm, if is_positive { Sign::Pos } else { Sign::Neg }, r.0 as int, r.1) && *final(inexact) == (*old(inexact) || mdirty(x, words_of(p))) } } },
{
    let mut m3 = Self::reserve_new(self.len() + m2.len())?;
    Self::mul_unbalanced(&self.m, &m2.m, &mut m3)?;
@let ghost x = self.v() * m2.v(); let ghost l = m3.inner@.len(); let ghost w = (64 * l) as int;
@proof { lemma_wf_normal(*self); lemma_wf_normal(*m2); assert(x > 0) by(nonlinear_arith) requires x == self.v() * m2.v(), self.v() > 0, m2.v() > 0; }
    let mut shift = Self::maximize(&mut m3) as isize;
@let ghost k = shift as nat; let ghost g0 = m3.inner@; let ghost sg = if is_positive { Sign::Pos } else { Sign::Neg };
@proof { lemma_blen_is(x, (64 * l - k) as nat); }
    let mut m3 = Mantissa { m: m3, n: 0 };
    let p = Self::bit_len_to_word_len(p);
    if full_prec {
        m3.m.trunc_trailing_zeroes();
@proof { lemma_mfull(x, w, shift as int, k, g0, m3.m.inner@); }
    } else if m3.len() < p {
        let n = m3.len();
        m3.m.try_extend(p * WORD_BIT_SIZE)?;
        m3.m[..p - n].fill(0);
@proof { lemma_add_low(g0, m3.m.inner@, p - n); lemma_mext(x, w, shift as int, k, g0, (p - n) as nat, m3.m.inner@); }
    } else if m3.len() > p {
@let ghost mut gr = false;
        if m3.round_mantissa(
            (m3.len() - p) * WORD_BIT_SIZE,
            rm,
            is_positive,
            &mut false,
            m3.max_bit_len(),
            inexact,
        ) {
@proof { gr = true; }
            shift -= 1;
        }
@let ghost g1 = m3.m.inner@;
        m3.m.trunc_to(p * WORD_BIT_SIZE);
@proof { lemma_drop_low(g1, m3.m.inner@, l - p); lemma_mround(x, w, k, g0, p as nat, rm, sg, val(g1), gr, m3.m.inner@); }
    }
@proof { if !full_prec && l == p { lemma_mext(x, w, shift as int, k, g0, 0, m3.m.inner@); } }
    m3.n = m3.max_bit_len();
@assert(full_prec ==> fres(x, w, shift as int, m3));
@assert(!full_prec && l < p ==> mres(x, w, p as int, rm, sg, shift as int, m3));
@assert(!full_prec && l == p ==> mres(x, w, p as int, rm, sg, shift as int, m3));
@assert(!full_prec && l > p ==> m3.normal());
@assert(!full_prec && l > p ==> mres(x, w, p as int, rm, sg, shift as int, m3));
@assert(!full_prec ==> *inexact == (*old(inexact) || mdirty(x, p as int)));
    Ok((shift, m3))
}
%% ghost
pub proof fn lemma_words_rp(p: usize, q: usize)
    requires q == round_p_spec(p), p <= usize::MAX - 64,
    ensures q % 64 == 0, words_of(q) == words_of(p), q == 64 * words_of(p), q >= p, q < p + 64,
{}
/// exact products in units of 2^-2kk
pub proof fn lemma_mul_mag(x: BigFloatNumber, e1: int, m1: Mantissa, y: BigFloatNumber, e2: int, m2: Mantissa, t: nat)
    requires x.wf(), y.wf(), isnorm(x, e1, m1), isnorm(y, e2, m2), t == e1 + e2 - 64 * m1.l() - 64 * m2.l() + 2 * kk(),
    ensures x.mag() * y.mag() == (m1.v() * m2.v()) * pow2(t), m1.v() * m2.v() > 0, m1.v() > 0, m2.v() > 0,
        64 * (m1.l() + m2.l()) - 1 <= blen(m1.v() * m2.v()) <= 64 * (m1.l() + m2.l()),
{
    lemma_wf_normal(m1); lemma_wf_normal(m2); lemma_wf_len(x.m); lemma_wf_len(y.m);
    let a = (e1 - 64 * m1.l() + kk()) as nat; let b = (e2 - 64 * m2.l() + kk()) as nat;
    lemma_pow2_adds(a, b);
    let (v1, v2, p, q) = (m1.v(), m2.v(), pow2(a), pow2(b));
    assert((v1 * p) * (v2 * q) == (v1 * v2) * (p * q)) by(nonlinear_arith);
    lemma_bl_mul(v1, v2, 64 * m1.l(), 64 * m2.l());
}
pub proof fn lemma_bl_mul(v1: nat, v2: nat, a: nat, b: nat)
    requires a > 0, b > 0, isbl(v1, a), isbl(v2, b),
    ensures v1 * v2 > 0, a + b - 1 <= blen(v1 * v2) <= a + b, pow2((a + b - 2) as nat) <= v1 * v2 < pow2(a + b),
{
    lemma_pow2_adds((a - 1) as nat, (b - 1) as nat); lemma_pow2_adds(a, b);
    lemma_pow2_pos((a - 1) as nat); lemma_pow2_pos((b - 1) as nat);
    let (p, q) = (pow2((a - 1) as nat), pow2((b - 1) as nat)); let (pp, qq) = (pow2(a), pow2(b));
    assert(v1 * v2 >= p * q) by(nonlinear_arith) requires v1 >= p, v2 >= q;
    assert(v1 * v2 < pp * qq) by(nonlinear_arith) requires v1 < pp, v2 < qq, v1 >= 0, v2 >= 0;
    assert(p * q > 0) by(nonlinear_arith) requires p > 0, q > 0;
    if v1 * v2 >= pow2((a + b - 1) as nat) { lemma_blen_is(v1 * v2, a + b); } else { lemma_blen_is(v1 * v2, (a + b - 1) as nat); }
}
/// units
pub proof fn lemma_cround_scale(x: nat, s: int, d: nat, sg: Sign, pw: int, rm: RoundingMode, dirty: bool, r: BigFloatNumber)
    requires cround(x, s, sg, pw, rm, dirty, r), x > 0, s >= kk(), cut(x, s, pw) >= 0,
    ensures cround(x * pow2(d), s + d, sg, pw, rm, dirty, r),
{
    lemma_isbl_scale(x, d);
    let n = cut(x, s, pw) as nat; let y = x * pow2(d);
    assert(cut(y, s + d, pw) == n + d);
    let q = choose|q: nat| #[trigger] sel(x, n, rm, sg, q) && q * pow2(n) == r.mag() * pow2((s - kk()) as nat);
    lemma_sel_scale(x, n, d, rm, sg, q);
    lemma_pow2_adds(n, d); lemma_pow2_adds((s - kk()) as nat, d);
    let (a, b, c, z, m) = (pow2(n), pow2(d), pow2((s - kk()) as nat), pow2((s - kk()) as nat) * pow2(d), r.mag());
    assert(q * (a * b) == m * (c * b)) by(nonlinear_arith) requires q * a == m * c;
    assert(sel(y, n + d, rm, sg, q) && q * pow2(n + d) == r.mag() * pow2((s + d - kk()) as nat));
}
/// an exact mantissa below the smallest exponent, rounded by new_subnormal
pub proof fn lemma_sub_norm(x: nat, w: int, t: nat, e0: int, s: int, rm: RoundingMode, sg: Sign, sh: int, m: Mantissa, pw: int, dirty: bool, r: BigFloatNumber)
    requires x > 0, fres(x, w, sh, m), t == s + e0 - w, s >= kk(), pw > 0, e0 - sh - 64 * m.l() + kk() >= 0, EXPONENT_MIN - 64 * pw + kk() >= 0,
        cround(m.v() * pow2((e0 - sh - 64 * m.l() + kk()) as nat), kk(), sg, pw, rm, dirty, r),
    ensures cround(x * pow2(t), s, sg, pw, rm, dirty, r),
{
    lemma_wf_normal(m);
    let y = m.v() * pow2((e0 - sh - 64 * m.l() + kk()) as nat);
    lemma_isbl_scale(m.v(), (e0 - sh - 64 * m.l() + kk()) as nat);
    let d = (s - kk()) as nat;
    lemma_cround_scale(y, kk(), d, sg, pw, rm, dirty, r);
    // both are the same number
    let a = (e0 - sh - 64 * m.l() + s) as nat;
    lemma_pow2_adds((e0 - sh - 64 * m.l() + kk()) as nat, d);
    let (p, q) = (pow2((e0 - sh - 64 * m.l() + kk()) as nat), pow2(d));
    assert((m.v() * p) * q == m.v() * (p * q)) by(nonlinear_arith);
    assert(y * pow2(d) == m.v() * pow2(a));
    lemma_fres_val(x, w, sh, m, t, a);
}
/// value of an exact result
pub proof fn lemma_fres_val(x: nat, w: int, sh: int, m: Mantissa, t: nat, a: nat)
    requires fres(x, w, sh, m), a == t + w - sh - 64 * m.l(),
    ensures m.v() * pow2(a) == x * pow2(t),
{
    let j = 64 * m.l() - blen(x);
    // feq(m.v, 0, x, j), a == t - j... scaled by 2^a
    assert(a == t - j);
    lemma_feq_at(m.v(), 0, x, j, if j >= 0 { 0 } else { j });
    if j >= 0 {
        lemma_pow2_adds(j as nat, a); lemma_pow2_64();
        let (p, q) = (pow2(j as nat), pow2(a));
        assert(m.v() * 1 == m.v());
        assert((x * p) * q == x * (p * q)) by(nonlinear_arith);
    } else {
        lemma_pow2_adds((-j) as nat, t); lemma_pow2_64();
        let (p, q) = (pow2((-j) as nat), pow2(t));
        assert(x * 1 == x);
        assert((m.v() * p) * q == m.v() * (p * q)) by(nonlinear_arith);
    }
}
%% ghost
pub open spec fn psign(a: BigFloatNumber, b: BigFloatNumber) -> Sign { if a.s == b.s { Sign::Pos } else { Sign::Neg } }
pub open spec fn mulres(a: BigFloatNumber, b: BigFloatNumber, p: usize, rm: RoundingMode, ret: Result<BigFloatNumber, Error>) -> bool {
    &&& cres(a.mag() * b.mag(), 2 * kk(), psign(a, b), p, rm, a.inexact || b.inexact, ret)
    &&& (a.m.n == 0 || b.m.n == 0) ==> !(ret is Err && ret->Err_0 is ExponentOverflow) && (ret is Ok ==> ret->Ok_0.m.n == 0 && ret->Ok_0.s == psign(a, b))
}
pub open spec fn mulexres(a: BigFloatNumber, b: BigFloatNumber, p: usize, ret: Result<BigFloatNumber, Error>) -> bool {
    let x = a.mag() * b.mag();
    &&& (a.m.n == 0 || b.m.n == 0) ==> !(ret is Err && ret->Err_0 is ExponentOverflow) && (ret is Ok ==> ret->Ok_0.m.n == 0)
    &&& match ret {
        Err(Error::MemoryAllocation) => true,
        Err(Error::ExponentOverflow(g)) => g == psign(a, b) && x >= pow2((EXPONENT_MAX + 2 * kk()) as nat),
        Err(Error::InvalidArgument) => p >= pmax() - 63,
        Err(_) => false,
        Ok(r) => r.wf() && r.s == psign(a, b) && (x == 0 || x >= pow2((EXPONENT_MIN - 1 + 2 * kk()) as nat) ==> exact(x, 2 * kk(), r.s, a.inexact || b.inexact, r)),
    }
}
%% ghost
pub proof fn lemma_cround_zero(s: int, sg: Sign, pw: int, rm: RoundingMode, dirty: bool, r: BigFloatNumber)
    requires r.wf(), r.m.l() == pw, r.m.n == 0, r.inexact == dirty, s >= kk(),
    ensures cround(0, s, sg, pw, rm, dirty, r), exact(0, s, sg, dirty, r), r.mag() == 0,
{
    let n = cut(0, s, pw) as nat;
    lemma_mag_bl(r); lemma_rnd_zero(n, rm, sg == Sign::Pos); lemma_pow2_pos(n); lemma_divmod_is(0, pow2(n), 0, 0);
    assert(0 * pow2(n) == 0); assert(0 * pow2((s - kk()) as nat) == 0);
    assert(sel(0, n, rm, sg, 0) && 0 * pow2(n) == r.mag() * pow2((s - kk()) as nat));
}
/// an exact mantissa
pub proof fn lemma_full(x: nat, w: int, t: nat, e0: int, s: int, sh: int, m: Mantissa, e: int)
    requires x > 0, fres(x, w, sh, m), e == e0 - sh, t == s + e0 - w, s >= kk(), e - 64 * m.l() + s >= 0,
    ensures
        isbl(x * pow2(t), (e + s) as nat), e + s > 0, x * pow2(t) > 0, x * pow2(t) == m.v() * pow2((e - 64 * m.l() + s) as nat),
        EXPONENT_MIN <= e <= EXPONENT_MAX ==> forall|r: BigFloatNumber| #![trigger r.wf()] r.m == m && r.e == e ==> r.wf() && (r.wf() ==> x * pow2(t) == r.mag() * pow2((s - kk()) as nat)),
        e > EXPONENT_MAX ==> x * pow2(t) >= pow2((EXPONENT_MAX + s) as nat),
        e < EXPONENT_MIN ==> x * pow2(t) < pow2((EXPONENT_MIN - 1 + s) as nat),
{
    lemma_wf_normal(m);
    lemma_fres_val(x, w, sh, m, t, (e - 64 * m.l() + s) as nat);
    lemma_isbl_scale(x, t); lemma_blen(x * pow2(t));
    let y = x * pow2(t);
    assert(blen(y) == e + s);
    if e > EXPONENT_MAX && e + s - 1 > EXPONENT_MAX + s { lemma_pow2_strictly_increases((EXPONENT_MAX + s) as nat, (e + s - 1) as nat); }
    if e < EXPONENT_MIN && e + s < EXPONENT_MIN - 1 + s { lemma_pow2_strictly_increases((e + s) as nat, (EXPONENT_MIN - 1 + s) as nat); }
    if EXPONENT_MIN <= e <= EXPONENT_MAX {
        assert forall|r: BigFloatNumber| #![trigger r.wf()] r.m == m && r.e == e implies r.wf() && x * pow2(t) == r.mag() * pow2((s - kk()) as nat) by { lemma_scal_kk(r, s); assert(r.wf()); }
    }
}
%% fn num.rs|impl BigFloatNumber|mul_general_case
@#[verifier::rlimit(60)]
@#[verifier::spinoff_prover]
pub fn mul_general_case(
    &self,
    d2: &Self,
    p: usize,
    rm: RoundingMode,
    full_prec: bool,
) -> (ret: Result<Self, Error>)
@    requires self.wf(), d2.wf(), full_prec || p > 0,
@    ensures !full_prec ==> mulres(*self, *d2, p, rm, ret), full_prec ==> mulexres(*self, *d2, p, ret),
{
@let ghost p0 = p;
    let p = round_p(p);
    Self::p_assertion(p)?;
@proof { lemma_words_rp(p0, p); }
    let s = if self.s == d2.s { Sign::Pos } else { Sign::Neg };
    if self.m.is_zero() || d2.m.is_zero() {
@proof { lemma_mag_bl(*self); lemma_mag_bl(*d2); let (a, b) = (self.mag(), d2.mag()); assert(a == 0 || b == 0 ==> a * b == 0) by(nonlinear_arith); assert forall|r: BigFloatNumber| #![trigger r.wf()] r.wf() && r.m.l() == words_of(p) && r.m.n == 0 && r.inexact == (self.inexact || d2.inexact) implies cround(0, 2 * kk(), s, words_of(p), rm, r.inexact, r) && exact(0, 2 * kk(), r.s, r.inexact, r) by { lemma_cround_zero(2 * kk(), s, words_of(p), rm, r.inexact, r); lemma_cround_zero(2 * kk(), r.s, words_of(p), rm, r.inexact, r); } }
        return Self::new2(p, s, self.inexact || d2.inexact);
    }
    let (e1, m1_opt) = self.normalize()?;
    let m1_normalized = m1_opt.as_ref().unwrap_or(&self.m);
    let (e2, m2_opt) = d2.normalize()?;
    let m2_normalized = m2_opt.as_ref().unwrap_or(&d2.m);
@proof { lemma_mag_bl(*self); lemma_mag_bl(*d2); lemma_wf_len(self.m); lemma_wf_len(d2.m); }
@let ghost w = 64 * (m1_normalized.l() + m2_normalized.l()); let ghost x = m1_normalized.v() * m2_normalized.v(); let ghost e0 = e1 + e2; let ghost t = (2 * kk() + e0 - w) as nat;
@proof { lemma_mul_mag(*self, e1 as int, *m1_normalized, *d2, e2 as int, *m2_normalized, t); }
    let mut inexact = self.inexact || d2.inexact;
    let (e_shift, m3) =
        m1_normalized.mul(m2_normalized, p, rm, s == Sign::Pos, full_prec, &mut inexact)?;
    let e = e1 + e2 - e_shift;
@proof { if !full_prec { lemma_norm(x, w as int, t, e0 as int, 2 * kk(), rm, s, e_shift as int, m3, e as int, self.inexact || d2.inexact); } }
@proof { if full_prec { lemma_full(x, w as int, t, e0 as int, 2 * kk(), e_shift as int, m3, e as int); } }
    if e > EXPONENT_MAX as isize {
        return Err(Error::ExponentOverflow(s));
    }
    if e < EXPONENT_MIN as isize {
        if !full_prec {
            inexact = self.inexact || d2.inexact;
            let (e_shift, m3) =
                m1_normalized.mul(m2_normalized, p, rm, s == Sign::Pos, true, &mut inexact)?;
@proof { lemma_full(x, w as int, t, e0 as int, 2 * kk(), e_shift as int, m3, e0 - e_shift); assert forall|r: BigFloatNumber| #[trigger] cround(m3.v() * pow2((e0 - e_shift - 64 * m3.l() + kk()) as nat), kk(), s, words_of(p), rm, inexact, r) implies cround(x * pow2(t), 2 * kk(), s, words_of(p), rm, inexact, r) by { lemma_sub_norm(x, w as int, t, e0 as int, 2 * kk(), rm, s, e_shift as int, m3, words_of(p), inexact, r); } }
            return Self::new_subnormal(m3, s, e1 + e2 - e_shift, p, rm, inexact);
        }
        let mut ret = BigFloatNumber {
            m: m3,
            s,
            e: EXPONENT_MIN,
            inexact,
        };
        ret.subnormalize(e, rm);
@assert(mulexres(*self, *d2, p0, Ok(ret)));
        Ok(ret)
    } else {
@let ghost r0 = BigFloatNumber { m: m3, s, e: e as Exponent, inexact };
@assert(r0.wf() && r0.e == e);
@assert(full_prec ==> exact(x * pow2(t), 2 * kk(), s, self.inexact || d2.inexact, r0));
@assert(!full_prec ==> cround(x * pow2(t), 2 * kk(), s, words_of(p), rm, self.inexact || d2.inexact, r0));
        Ok(BigFloatNumber {
            m: m3,
            s,
            e: e as Exponent,
            inexact,
        })
    }
}
%% fn num.rs|impl BigFloatNumber|mul
pub fn mul(&self, d2: &Self, p: usize, rm: RoundingMode) -> (ret: Result<Self, Error>)
@    requires self.wf(), d2.wf(), p > 0,
@    ensures mulres(*self, *d2, p, rm, ret),
{
    self.mul_general_case(d2, p, rm, false)
}
%% fn num.rs|impl BigFloatNumber|mul_full_prec
pub fn mul_full_prec(&self, d2: &Self) -> (ret: Result<Self, Error>)
@    requires self.wf(), d2.wf(),
@    ensures mulexres(*self, *d2, 0, ret),
{
    self.mul_general_case(d2, 0, RoundingMode::None, true)
}
%% ghost
// ---- rounding of a quotient
/// x / y rounded to an integer
pub open spec fn rnd_frac(x: nat, y: nat, rm: RoundingMode, pos: bool) -> nat {
    let q = x / y; let r = x % y;
    let up = match rm {
        RoundingMode::None => false,
        RoundingMode::ToZero => false,
        RoundingMode::FromZero => r > 0,
        RoundingMode::Up => r > 0 && pos,
        RoundingMode::Down => r > 0 && !pos,
        RoundingMode::ToEven => 2 * r > y || 2 * r == y && q % 2 == 1,
        RoundingMode::ToOdd => 2 * r > y || 2 * r == y && q % 2 == 0,
    };
    (q + (if up { 1nat } else { 0nat })) as nat
}
/// q is what rm selects for x / y; with None: one of the two integers next to it
pub open spec fn selq(x: nat, y: nat, rm: RoundingMode, sg: Sign, q: nat) -> bool {
    if rm == RoundingMode::None { q == x / y || q == x / y + 1 && x % y != 0 } else { q == rnd_frac(x, y, rm, sg == Sign::Pos) }
}
pub open spec fn qcut(x: nat, d: nat, s: int, pw: int) -> int {
    let e = blen(x / d) - s;
    (if e > EXPONENT_MIN { e } else { EXPONENT_MIN as int }) - 64 * pw + s
}
/// r is the correctly rounded result for the exact value x / d * 2^-s with sign sg; dirty: an operand is inexact
pub open spec fn qcround(x: nat, d: nat, s: int, sg: Sign, pw: int, rm: RoundingMode, dirty: bool, r: BigFloatNumber) -> bool {
    let n = qcut(x, d, s, pw) as nat;
    &&& r.wf() && r.m.l() == pw && r.s == sg
    &&& exists|q: nat| #[trigger] selq(x, d * pow2(n), rm, sg, q) && q * pow2(n) == r.mag() * pow2((s - kk()) as nat)
    &&& rm != RoundingMode::None ==> (r.inexact <==> dirty || x % (d * pow2(n)) != 0)
}
pub open spec fn qcoverflow(x: nat, d: nat, s: int, sg: Sign, pw: int, rm: RoundingMode) -> bool {
    let n = qcut(x, d, s, pw) as nat;
    exists|q: nat| #[trigger] selq(x, d * pow2(n), rm, sg, q) && q * pow2(n) >= pow2((EXPONENT_MAX + s) as nat)
}
/// the quotient with one more bit that tells whether it is exact
pub open spec fn qst(x: nat, d: nat) -> nat { 2 * (x / d) + (if x % d != 0 { 1nat } else { 0nat }) }
pub proof fn lemma_frac_scale(x: nat, y: nat, c: nat, rm: RoundingMode, pos: bool)
    requires y > 0, c > 0,
    ensures (x * c) / (y * c) == x / y, rnd_frac(x * c, y * c, rm, pos) == rnd_frac(x, y, rm, pos), (x * c) % (y * c) == 0 <==> x % y == 0, y * c > 0,
{
    let q = x / y; let r = x % y;
    lemma_fundamental_div_mod(x as int, y as int); lemma_mod_bound(x as int, y as int);
    assert(x * c == q * (y * c) + r * c) by(nonlinear_arith) requires x == y * q + r;
    assert(r * c < y * c) by(nonlinear_arith) requires r < y, c > 0;
    assert(y * c > 0) by(nonlinear_arith) requires y > 0, c > 0;
    lemma_divmod_is(x * c, y * c, q, r * c);
    assert(2 * (r * c) > y * c <==> 2 * r > y) by(nonlinear_arith) requires c > 0;
    assert(2 * (r * c) == y * c <==> 2 * r == y) by(nonlinear_arith) requires c > 0;
    assert(r * c > 0 <==> r > 0) by(nonlinear_arith) requires c > 0;
}
pub proof fn lemma_selq_scale(x: nat, y: nat, c: nat, rm: RoundingMode, sg: Sign, q: nat)
    requires y > 0, c > 0,
    ensures selq(x * c, y * c, rm, sg, q) <==> selq(x, y, rm, sg, q), (x * c) % (y * c) == 0 <==> x % y == 0, (x * c) / (y * c) == x / y,
{ lemma_frac_scale(x, y, c, rm, sg == Sign::Pos); }
/// the sticky bit replaces the remainder
pub proof fn lemma_qst(x: nat, d: nat, n: nat, rm: RoundingMode, pos: bool)
    requires d > 0, n >= 1,
    ensures rnd(qst(x, d), n + 1, rm, pos) == rnd_frac(x, d * pow2(n), rm, pos), qst(x, d) / pow2(n + 1) == x / (d * pow2(n)),
        qst(x, d) % pow2(n + 1) == 0 <==> x % (d * pow2(n)) == 0, d * pow2(n) > 0,
{
    let p = pow2(n); let f = x / d; let u = x % d; let st = if u != 0 { 1nat } else { 0nat }; let y = qst(x, d);
    lemma_pow2_pos(n); lemma_pow2_unfold(n + 1); lemma_pow2_unfold(n); 
    lemma_fundamental_div_mod(x as int, d as int); lemma_mod_bound(x as int, d as int);
    lemma_fundamental_div_mod(f as int, p as int); lemma_mod_bound(f as int, p as int);
    let q = f / p; let a = f % p;
    let r = a * d + u;
    assert(x == q * (d * p) + r) by(nonlinear_arith) requires x == d * f + u, f == p * q + a, r == a * d + u;
    assert(r < d * p) by(nonlinear_arith) requires r == a * d + u, u < d, a + 1 <= p;
    lemma_divmod_is(x, d * p, q, r);
    assert(y == q * (2 * p) + (2 * a + st)) by(nonlinear_arith) requires y == 2 * f + st, f == p * q + a;
    lemma_divmod_is(y, 2 * p, q, 2 * a + st);
    let h = pow2((n - 1) as nat);
    assert(p == 2 * h);
    assert(d * p > 0) by(nonlinear_arith) requires d > 0, p > 0;
    assert(r == 0 <==> a == 0 && u == 0) by(nonlinear_arith) requires r == a * d + u, d > 0;
    assert(2 * r > d * p <==> a > h || a == h && u > 0) by(nonlinear_arith) requires r == a * d + u, u < d, p == 2 * h, d > 0;
    assert(2 * r == d * p <==> a == h && u == 0) by(nonlinear_arith) requires r == a * d + u, u < d, p == 2 * h, d > 0;
}
/// number of bits of the quotient with the sticky bit
pub proof fn lemma_qst_len(x: nat, d: nat)
    requires d > 0, x >= d,
    ensures blen(qst(x, d)) == blen(x / d) + 1, x / d > 0,
{
    lemma_fundamental_div_mod(x as int, d as int); lemma_mod_bound(x as int, d as int);
    let f = x / d;
    if f == 0 { assert(d * f == 0); }
    lemma_blen(f); let b = blen(f);
    lemma_pow2_unfold(b); lemma_pow2_unfold(b + 1);
    assert(isbl(qst(x, d), b + 1));
    lemma_blen_is(qst(x, d), b + 1);
}
/// correct rounding of a quotient from correct rounding with the sticky bit
pub proof fn lemma_div_fin(z: nat, d: nat, t: nat, x: nat, y: nat, c: nat, s: int, sg: Sign, pw: int, rm: RoundingMode, dirty: bool)
    requires d > 0, z >= d, s >= kk(), x == (z * pow2(t)) * c, y == d * c, c > 0, cut(qst(z, d) * pow2(t), s + 1, pw) >= t + 2,
    ensures
        forall|r: BigFloatNumber| r.s == sg && #[trigger] cround(qst(z, d) * pow2(t), s + 1, sg, pw, rm, dirty, r) ==> qcround(x, y, s, sg, pw, rm, dirty, r),
        coverflow(qst(z, d) * pow2(t), s + 1, sg, pw, rm) ==> qcoverflow(x, y, s, sg, pw, rm), y > 0,
{
    let u = qst(z, d); let p = pow2(t); lemma_pow2_pos(t);
    lemma_qst_len(z, d);
    lemma_isbl_scale(u, t);
    assert(y > 0) by(nonlinear_arith) requires y == d * c, d > 0, c > 0;
    // length of the quotient
    lemma_frac_scale(z * p, d, c, rm, true);
    lemma_quot_len(z, d, t);
    let n1 = cut(u * p, s + 1, pw) as nat; let n = qcut(x, y, s, pw) as nat;
    assert(n1 == n + 1);
    let k = (n - t) as nat;
    lemma_qst(z, d, k, rm, sg == Sign::Pos);
    lemma_rnd_scale(u, k + 1, t, rm, sg == Sign::Pos);
    assert(k + 1 + t == n1);
    // x / (y 2^n) == z / (d 2^k)
    lemma_pow2_adds(k, t); lemma_pow2_pos(k); lemma_pow2_pos(n);
    let pk = pow2(k); let pn = pow2(n);
    let cc = p * c;
    assert(cc > 0) by(nonlinear_arith) requires cc == p * c, p > 0, c > 0;
    assert(x == z * cc) by(nonlinear_arith) requires x == (z * p) * c, cc == p * c;
    assert(y * pn == (d * pk) * cc) by(nonlinear_arith) requires y == d * c, pn == pk * p, cc == p * c;
    lemma_frac_scale(z, d * pk, cc, rm, sg == Sign::Pos);
    lemma_pow2_unfold(n1); lemma_pow2_unfold((s + 1 - kk()) as nat);
    assert forall|q: nat| #[trigger] sel(u * p, n1, rm, sg, q) <==> selq(x, y * pn, rm, sg, q) by {}
    assert forall|r: BigFloatNumber| r.s == sg && #[trigger] cround(u * p, s + 1, sg, pw, rm, dirty, r) implies qcround(x, y, s, sg, pw, rm, dirty, r) by {
        let q = choose|q: nat| #[trigger] sel(u * p, n1, rm, sg, q) && q * pow2(n1) == r.mag() * pow2((s + 1 - kk()) as nat);
        let (a, b, m) = (pow2((s - kk()) as nat), pow2(n), r.mag());
        assert(q * b == m * a) by(nonlinear_arith) requires q * (2 * b) == m * (2 * a);
        assert(selq(x, y * pn, rm, sg, q) && q * pow2(n) == r.mag() * pow2((s - kk()) as nat));
    }
    if coverflow(u * p, s + 1, sg, pw, rm) {
        let q = choose|q: nat| #[trigger] sel(u * p, n1, rm, sg, q) && q * pow2(n1) >= pow2((EXPONENT_MAX + s + 1) as nat);
        lemma_pow2_unfold((EXPONENT_MAX + s + 1) as nat);
        let (a, b) = (pow2((EXPONENT_MAX + s) as nat), pow2(n));
        assert(q * b >= a) by(nonlinear_arith) requires q * (2 * b) >= 2 * a;
        assert(selq(x, y * pn, rm, sg, q) && q * pow2(n) >= pow2((EXPONENT_MAX + s) as nat));
    }
}
/// (z 2^t) / d has t more bits than z / d
pub proof fn lemma_quot_len(z: nat, d: nat, t: nat)
    requires d > 0, z >= d,
    ensures blen((z * pow2(t)) / d) == blen(z / d) + t,
{
    lemma_qst_len(z, d);
    let f = z / d; let b = blen(f); let p = pow2(t); lemma_pow2_pos(t);
    lemma_blen(f);
    lemma_fundamental_div_mod(z as int, d as int); lemma_mod_bound(z as int, d as int);
    lemma_fundamental_div_mod((z * p) as int, d as int); lemma_mod_bound((z * p) as int, d as int);
    let g = (z * p) / d; let rg = (z * p) % d; let rf = z % d;
    lemma_pow2_adds((b - 1) as nat, t); lemma_pow2_adds(b, t);
    let (lo, hi) = (pow2((b - 1) as nat), pow2(b));
    assert(z * p >= d * (f * p)) by(nonlinear_arith) requires z >= d * f, p > 0;
    assert(f * p >= lo * p) by(nonlinear_arith) requires f >= lo, p > 0;
    assert(g >= f * p) by(nonlinear_arith) requires z * p == d * g + rg, rg < d, z * p >= d * (f * p), d > 0;
    assert(z + 1 <= d * (f + 1)) by(nonlinear_arith) requires z == d * f + rf, rf + 1 <= d;
    assert(d * (f + 1) <= d * hi) by(nonlinear_arith) requires f + 1 <= hi, d > 0;
    assert(z * p < d * (hi * p)) by(nonlinear_arith) requires z + 1 <= d * hi, p > 0;
    assert(g < hi * p) by(nonlinear_arith) requires z * p == d * g + rg, rg >= 0, z * p < d * (hi * p), d > 0;
    lemma_blen_is(g, b + t);
}
/// a sticky bit below the rounding position
pub proof fn lemma_sticky(y: nat, a: nat, v: nat, n: nat, rm: RoundingMode, pos: bool)
    requires n >= a + 2, v == (if y % pow2(a) != 0 && (y / pow2(a)) % 2 == 0 { y / pow2(a) + 1 } else { y / pow2(a) }),
    ensures rnd(v, (n - a) as nat, rm, pos) == rnd(y, n, rm, pos), v / pow2((n - a) as nat) == y / pow2(n), v % pow2((n - a) as nat) == 0 <==> y % pow2(n) == 0,
{
    let k = (n - a) as nat; let p = pow2(a); let z = pow2(k);
    lemma_pow2_pos(a); lemma_pow2_pos(k); lemma_pow2_adds(k, a); lemma_pow2_unfold(k); lemma_pow2_unfold((k - 1) as nat);
    let f = y / p; let u = y % p;
    lemma_fundamental_div_mod(y as int, p as int); lemma_mod_bound(y as int, p as int);
    lemma_fundamental_div_mod(f as int, z as int); lemma_mod_bound(f as int, z as int);
    let q = f / z; let g = f % z;
    let r = g * p + u;
    assert(y == q * (z * p) + r) by(nonlinear_arith) requires y == p * f + u, f == z * q + g, r == g * p + u;
    assert(r < z * p) by(nonlinear_arith) requires r == g * p + u, u < p, g + 1 <= z;
    lemma_divmod_is(y, z * p, q, r);
    let h = pow2((k - 1) as nat); let h2 = pow2((k - 2) as nat);
    assert(z == 2 * h && h == 2 * h2);
    assert(f == 2 * (h * q) + g) by(nonlinear_arith) requires f == z * q + g, z == 2 * h;
    assert(f % 2 == g % 2);
    let gv = if u != 0 && g % 2 == 0 { g + 1 } else { g };
    assert(gv < z);
    assert(v == q * z + gv) by(nonlinear_arith) requires f == z * q + g, v == f + (gv - g);
    lemma_divmod_is(v, z, q, gv);
    assert(r == 0 <==> g == 0 && u == 0) by(nonlinear_arith) requires r == g * p + u, p > 0;
    assert(2 * r > z * p <==> g > h || g == h && u > 0) by(nonlinear_arith) requires r == g * p + u, u < p, z == 2 * h, p > 0;
    assert(2 * r == z * p <==> g == h && u == 0) by(nonlinear_arith) requires r == g * p + u, u < p, z == 2 * h, p > 0;
}
%% ghost
pub open spec fn divres(a: BigFloatNumber, b: BigFloatNumber, p: usize, rm: RoundingMode, ret: Result<BigFloatNumber, Error>) -> bool {
    let dirty = a.inexact || b.inexact;
    &&& b.m.n == 0 ==> ret is Err && ret->Err_0 == (if a.m.n == 0 { Error::InvalidArgument } else { Error::DivisionByZero })
    &&& b.m.n != 0 ==> match ret {
        Ok(r) => if a.m.n == 0 { r.wf() && r.m.n == 0 && r.s == psign(a, b) && r.m.l() == words_of(p) && r.inexact == dirty } else { qcround(a.mag() * pow2((3 * kk()) as nat), b.mag(), 3 * kk(), psign(a, b), words_of(p), rm, dirty, r) },
        Err(Error::MemoryAllocation) => true,
        Err(Error::ExponentOverflow(g)) => a.m.n != 0 && g == psign(a, b) && qcoverflow(a.mag() * pow2((3 * kk()) as nat), b.mag(), 3 * kk(), psign(a, b), words_of(p), rm),
        Err(Error::InvalidArgument) => p >= pmax() - 63,
        Err(Error::DivisionByZero) => false,
    }
}
/// the quotient of normalized mantissas, scaled by 2^kk, with the sticky bit
pub open spec fn mq(m1: Mantissa, m2: Mantissa) -> nat { qst(m1.v() * pow2(kk() as nat), m2.v()) }
pub proof fn lemma_mq(m1: Mantissa, m2: Mantissa)
    requires m1.normal(), m2.normal(),
    ensures m1.v() * pow2(kk() as nat) >= m2.v(), m2.v() > 0, m1.v() > 0, mq(m1, m2) > 0,
        64 * m1.l() - 64 * m2.l() + kk() <= blen(mq(m1, m2)) <= 64 * m1.l() - 64 * m2.l() + kk() + 2,
{
    lemma_wf_normal(m1); lemma_wf_normal(m2);
    let (l1, l2) = (64 * m1.l(), 64 * m2.l()); let k = kk() as nat; let z = m1.v() * pow2(k); let d = m2.v();
    lemma_bl_shl(m1.v(), l1, k);
    lemma_bl_lt(d, z, l2, l1 + k);
    lemma_qst_len(z, d);
    let f = z / d; let b = blen(f); lemma_blen(f);
    lemma_fundamental_div_mod(z as int, d as int); lemma_mod_bound(z as int, d as int);
    // 2^(l1+k-1) <= z < 2^(l1+k), 2^(l2-1) <= d < 2^l2
    let r = z % d;
    lemma_pow2_adds((l1 + k - 1 - l2) as nat, l2); lemma_pow2_adds((l1 + k - l2 + 1) as nat, (l2 - 1) as nat);
    let a = pow2((l1 + k - 1 - l2) as nat); let c = pow2((l1 + k - l2 + 1) as nat); let h = pow2((l2 - 1) as nat); let hh = pow2(l2);
    lemma_pow2_pos((l1 + k - 1 - l2) as nat);
    assert(f >= a) by(nonlinear_arith) requires z == d * f + r, r < d, z >= a * hh, d < hh, a > 0;
    assert(f < c) by(nonlinear_arith) requires z == d * f + r, r >= 0, z < c * h, d >= h, h > 0;
    if b < l1 + k - l2 { if b < l1 + k - l2 - 1 { lemma_pow2_strictly_increases(b, (l1 + k - l2 - 1) as nat); } }
    if b > l1 + k - l2 + 1 { if b - 1 > l1 + k - l2 + 1 { lemma_pow2_strictly_increases((l1 + k - l2 + 1) as nat, (b - 1) as nat); } }
}
pub proof fn lemma_or1(s: Seq<u64>, t: Seq<u64>)
    requires s.len() > 0, t =~= s.update(0, s[0] | 1),
    ensures val(t) == (if val(s) % 2 == 0 { val(s) + 1 } else { val(s) }),
{
    let w = s[0]; let l = s.len() as int;
    lemma_valr_first(s, 0, l); lemma_valr_first(t, 0, l); lemma_valr_ext(s, 1, l, t, 1);
    assert(w | 1 == (if w % 2 == 0 { add(w, 1) } else { w })) by(bit_vector);
    assert(w % 2 == 0 ==> w < 0xffff_ffff_ffff_ffffu64) by(bit_vector);
    let h = valr(s, 1, l);
    assert(base() * h == 2 * (0x8000_0000_0000_0000 * h));
}
/// the connection of mantissas and magnitudes of a quotient
pub proof fn lemma_div_mag(x: BigFloatNumber, e1: int, m1: Mantissa, y: BigFloatNumber, e2: int, m2: Mantissa, t: nat, c: nat)
    requires x.wf(), y.wf(), isnorm(x, e1, m1), isnorm(y, e2, m2), t == 2 * kk() + (e1 - 64 * m1.l()) - (e2 - 64 * m2.l()), c == pow2((e2 - 64 * m2.l() + kk()) as nat),
    ensures x.mag() * pow2((3 * kk()) as nat) == ((m1.v() * pow2(kk() as nat)) * pow2(t)) * c, y.mag() == m2.v() * c, c > 0,
{
    lemma_wf_len(x.m); lemma_wf_len(y.m);
    let g = (e2 - 64 * m2.l() + kk()) as nat; let a = (e1 - 64 * m1.l() + kk()) as nat;
    lemma_pow2_pos(g);
    lemma_pow2_adds(a, (3 * kk()) as nat); lemma_pow2_adds(kk() as nat, t); lemma_pow2_adds((kk() + t) as nat, g);
    let (v, pa, p3, pk, pt) = (m1.v(), pow2(a), pow2((3 * kk()) as nat), pow2(kk() as nat), pow2(t));
    assert((v * pa) * p3 == v * (pa * p3)) by(nonlinear_arith);
    assert(((v * pk) * pt) * c == v * ((pk * pt) * c)) by(nonlinear_arith);
}
pub proof fn lemma_mres_tz(y: nat, w: int, pw: int, sg: Sign, sh: int, m: Mantissa)
    requires y > 0, mres(y, w, pw, RoundingMode::ToZero, sg, sh, m), pw > 0,
    ensures sh == w - blen(y), m.v() > 0, blen(y) > 64 * pw ==> m.v() == y / pow2((blen(y) - 64 * pw) as nat),
{
    let b = blen(y); lemma_blen(y); lemma_wf_normal(m);
    if b > 64 * pw {
        let a = (b - 64 * pw) as nat;
        let q = choose|q: nat| #[trigger] sel(y, a, RoundingMode::ToZero, sg, q) && (q < bp(pw as nat) && m.v() == q && sh == w - b || q == bp(pw as nat) && 2 * m.v() == q && sh == w - b - 1);
        lemma_pow2_pos(a); lemma_fundamental_div_mod(y as int, pow2(a) as int); lemma_mod_bound(y as int, pow2(a) as int);
        lemma_pow2_adds((64 * pw) as nat, a);
        let (f, p, z, u) = (y / pow2(a), pow2(a), pow2((64 * pw) as nat), y % pow2(a));
        assert(f < z) by(nonlinear_arith) requires y == p * f + u, u >= 0, y < z * p;
    }
}
/// rounding of a quotient with the sticky bit, below the smallest normal number
pub proof fn lemma_div_sub(y: nat, w: int, t: nat, e0: int, s: int, rm: RoundingMode, sg: Sign, sh: int, m: Mantissa, v: nat, pw: int, dirty: bool, r: BigFloatNumber)
    requires y > 0, mres(y, w, pw + 1, RoundingMode::ToZero, sg, sh, m), pw > 0, blen(y) > 64 * (pw + 1), t == s + e0 - w, s >= kk(), e0 - sh < EXPONENT_MIN,
        e0 - sh - 64 * (pw + 1) + kk() >= 0, EXPONENT_MIN - 64 * pw + kk() >= 0,
        v == (if mdirty(y, pw + 1) && m.v() % 2 == 0 { m.v() + 1 } else { m.v() }),
        cround(v * pow2((e0 - sh - 64 * (pw + 1) + kk()) as nat), kk(), sg, pw, rm, dirty, r),
    ensures cround(y * pow2(t), s, sg, pw, rm, dirty, r),
{
    let b = blen(y); let a = (b - 64 * (pw + 1)) as nat; let l = 64 * (pw + 1);
    lemma_wf_normal(m); lemma_blen(y);
    let q = choose|q: nat| #[trigger] sel(y, a, RoundingMode::ToZero, sg, q) && (q < bp((pw + 1) as nat) && m.v() == q && sh == w - b || q == bp((pw + 1) as nat) && 2 * m.v() == q && sh == w - b - 1);
    lemma_pow2_pos(a); lemma_fundamental_div_mod(y as int, pow2(a) as int); lemma_mod_bound(y as int, pow2(a) as int);
    lemma_pow2_adds(l as nat, a);
    let (f, p, z, u) = (y / pow2(a), pow2(a), pow2(l as nat), y % pow2(a));
    assert(f < z) by(nonlinear_arith) requires y == p * f + u, u >= 0, y < z * p;
    assert(q == f && m.v() == f && sh == w - b);
    lemma_sticky_len(f, l as nat, v);
    let g = (e0 - sh - l + kk()) as nat;
    lemma_isbl_scale(v, g); lemma_isbl_scale(y, t); lemma_isbl_scale(v * pow2(g), (s - kk()) as nat);
    let c0 = cut(v * pow2(g), kk(), pw);
    assert(c0 == EXPONENT_MIN - 64 * pw + kk());
    lemma_cround_scale(v * pow2(g), kk(), (s - kk()) as nat, sg, pw, rm, dirty, r);
    let v2 = (v * pow2(g)) * pow2((s - kk()) as nat); let yt = y * pow2(t);
    let n = cut(v2, s, pw) as nat;
    assert(n == cut(yt, s, pw));
    let at = (a + t) as nat;
    assert(at == g + s - kk());
    lemma_pow2_adds(g, (s - kk()) as nat);
    assert(v2 == v * pow2(at)) by(nonlinear_arith) requires v2 == (v * pow2(g)) * pow2((s - kk()) as nat), pow2(at) == pow2(g) * pow2((s - kk()) as nat);
    let k = (n - at) as nat;
    lemma_rnd_scale(v, k, at, rm, sg == Sign::Pos);
    lemma_rnd_scale(y, (n - t) as nat, t, rm, sg == Sign::Pos);
    lemma_sticky(y, a, v, (n - t) as nat, rm, sg == Sign::Pos);
    assert(k == n - t - a);
    let qq = choose|q: nat| #[trigger] sel(v2, n, rm, sg, q) && q * pow2(n) == r.mag() * pow2((s - kk()) as nat);
    assert(sel(yt, n, rm, sg, qq) && qq * pow2(n) == r.mag() * pow2((s - kk()) as nat));
}
pub proof fn lemma_sticky_len(f: nat, l: nat, v: nat)
    requires l > 1, isbl(f, l), v == f || v == f + 1 && f % 2 == 0,
    ensures isbl(v, l), blen(v) == l, v > 0,
{ lemma_pow2_unfold(l); lemma_pow2_pos((l - 1) as nat); lemma_blen_is(v, l); }
/// integer quotient f, with rest iff nz, prepared for rounding by rm
pub open spec fn isaway(rm: RoundingMode, sg: Sign) -> bool { rm == RoundingMode::FromZero || rm == RoundingMode::Up && sg == Sign::Pos || rm == RoundingMode::Down && sg == Sign::Neg }
pub open spec fn prep(f: nat, nz: bool, rm: RoundingMode, sg: Sign) -> nat {
    if !nz { f } else if rm == RoundingMode::ToEven || rm == RoundingMode::ToOdd { if f % 2 == 0 { f + 1 } else { f } } else if isaway(rm, sg) { f + 1 } else { f }
}
/// cutting y at n = a + k, in terms of its part above a
pub proof fn lemma_cut2(y: nat, a: nat, k: nat)
    ensures ({ let f = y / pow2(a); let g = f % pow2(k); let u = y % pow2(a); y / pow2(a + k) == f / pow2(k) && y % pow2(a + k) == g * pow2(a) + u && u < pow2(a) && g < pow2(k) && f == pow2(k) * (f / pow2(k)) + g }),
{
    let p = pow2(a); let z = pow2(k);
    lemma_pow2_pos(a); lemma_pow2_pos(k); lemma_pow2_adds(k, a);
    let f = y / p; let u = y % p;
    lemma_fundamental_div_mod(y as int, p as int); lemma_mod_bound(y as int, p as int);
    lemma_fundamental_div_mod(f as int, z as int); lemma_mod_bound(f as int, z as int);
    let q = f / z; let g = f % z;
    let r = g * p + u;
    assert(y == q * (z * p) + r) by(nonlinear_arith) requires y == p * f + u, f == z * q + g, r == g * p + u;
    assert(r < z * p) by(nonlinear_arith) requires r == g * p + u, u < p, g + 1 <= z;
    lemma_divmod_is(y, z * p, q, r);
}
pub proof fn lemma_prep(y: nat, a: nat, v: nat, k: nat, rm: RoundingMode, sg: Sign, q: nat)
    requires k >= 2, v == prep(y / pow2(a), y % pow2(a) != 0, rm, sg), sel(v, k, rm, sg, q),
    ensures sel(y, a + k, rm, sg, q), y % pow2(a + k) != 0 <==> (y % pow2(a) != 0 || v % pow2(k) != 0),
{
    let pos = sg == Sign::Pos; let f = y / pow2(a); let u = y % pow2(a); let p = pow2(a); let z = pow2(k);
    lemma_cut2(y, a, k); lemma_pow2_pos(a);
    let g = f % z; let r = g * p + u;
    assert(r == 0 <==> g == 0 && u == 0) by(nonlinear_arith) requires r == g * p + u, p > 0;
    if rm == RoundingMode::ToEven || rm == RoundingMode::ToOdd { lemma_sticky(y, a, v, a + k, rm, pos); }
    else if u != 0 && isaway(rm, sg) {
        let qq = f / z;
        if g + 1 < z { lemma_divmod_is(v, z, qq, g + 1); }
        else {
            assert(g < z);
            assert(g + 1 == z) by(nonlinear_arith) requires g < z, !(g + 1 < z);
            assert(f == z * qq + g);
            assert(v == f + 1);
            assert(v == (qq + 1) * z + 0) by(nonlinear_arith) requires v == f + 1, f == z * qq + g, g + 1 == z;
            lemma_divmod_is(v, z, qq + 1, 0);
        }
    } else {
        // same digits, truncated or exact
        if u == 0 {
            lemma_fundamental_div_mod(y as int, p as int);
            assert(y == f * p) by(nonlinear_arith) requires y == p * f + u, u == 0;
            lemma_rnd_scale(f, k, a, rm, pos); lemma_sel_scale(f, k, a, rm, sg, q);
            lemma_add_is_comm(k, a);
        }
    }
}
pub proof fn lemma_add_is_comm(k: nat, a: nat) ensures k + a == a + k {}
/// digits prepared for rounding give the rounding of the exact quotient
pub proof fn lemma_prep_mres(y: nat, a: nat, v: nat, w: int, pw: int, rm: RoundingMode, sg: Sign, sh: int, m: Mantissa)
    requires y > 0, pw > 0, v == prep(y / pow2(a), y % pow2(a) != 0, rm, sg), blen(y / pow2(a)) >= 64 * pw + 2, y / pow2(a) > 0, mres(v, w - a, pw, rm, sg, sh, m),
    ensures mres(y, w, pw, rm, sg, sh, m), mdirty(y, pw) <==> (y % pow2(a) != 0 || mdirty(v, pw)),
{
    let f = y / pow2(a); let b = blen(f); let k = (b - 64 * pw) as nat; let p = pow2(a); let u = y % p;
    lemma_blen(f); lemma_pow2_pos(a);
    lemma_fundamental_div_mod(y as int, p as int); lemma_mod_bound(y as int, p as int);
    lemma_pow2_adds((b - 1) as nat, a); lemma_pow2_adds(b, a);
    let (h, t) = (pow2((b - 1) as nat), pow2(b));
    assert(y >= h * p && y < t * p) by(nonlinear_arith) requires y == p * f + u, 0 <= u < p, h <= f, f + 1 <= t;
    lemma_blen_is(y, b + a);
    lemma_pow2_even(b);
    if v < pow2(b) {
        lemma_blen_is(v, b);
        let q = choose|q: nat| #[trigger] sel(v, k, rm, sg, q) && (q < bp(pw as nat) && m.v() == q && sh == w - a - b || q == bp(pw as nat) && 2 * m.v() == q && sh == w - a - b - 1);
        lemma_prep(y, a, v, k, rm, sg, q);
        assert(a + k == b + a - 64 * pw);
        assert(sel(y, (b + a - 64 * pw) as nat, rm, sg, q));
    } else {
        // 2^b: one above f
        assert(v == pow2(b) && isaway(rm, sg) && u != 0);
        lemma_pow2_unfold(b + 1); lemma_pow2_pos(b); lemma_blen_is(v, b + 1);
        let q1 = choose|q: nat| #[trigger] sel(v, k + 1, rm, sg, q) && (q < bp(pw as nat) && m.v() == q && sh == w - a - b - 1 || q == bp(pw as nat) && 2 * m.v() == q && sh == w - a - b - 2);
        lemma_pow2_adds((64 * pw - 1) as nat, k + 1); lemma_pow2_adds((64 * pw) as nat, k);
        lemma_pow2_pos(k + 1); lemma_pow2_pos(k);
        lemma_divmod_is(v, pow2(k + 1), pow2((64 * pw - 1) as nat), 0);
        lemma_divmod_is(v, pow2(k), pow2((64 * pw) as nat), 0);
        lemma_pow2_unfold((64 * pw) as nat); lemma_pow2_pos((64 * pw - 1) as nat);
        assert(q1 == pow2((64 * pw - 1) as nat));
        let q = pow2((64 * pw) as nat);
        assert(sel(v, k, rm, sg, q));
        lemma_prep(y, a, v, k, rm, sg, q);
        assert(a + k == b + a - 64 * pw);
        assert(sel(y, (b + a - 64 * pw) as nat, rm, sg, q));
        assert(q == bp(pw as nat) && 2 * m.v() == q && sh == w - (b + a) - 1);
    }
}
pub proof fn lemma_pow2_even(b: nat)
    requires b > 0,
    ensures pow2(b) % 2 == 0,
{ lemma_pow2_unfold(b); }
pub proof fn lemma_mres_scale1(x: nat, w: int, pw: int, rm: RoundingMode, sg: Sign, sh: int, m: Mantissa)
    requires x > 0, pw > 0, mres(x, w, pw, rm, sg, sh, m), blen(x) > 64 * pw,
    ensures mres(2 * x, w + 1, pw, rm, sg, sh, m), mdirty(2 * x, pw) <==> mdirty(x, pw),
{
    lemma_pow2_64(); lemma_isbl_scale(x, 1); lemma_mul_is_commutative(2, x as int);
    let n = (blen(x) - 64 * pw) as nat;
    let q = choose|q: nat| #[trigger] sel(x, n, rm, sg, q) && (q < bp(pw as nat) && m.v() == q && sh == w - blen(x) || q == bp(pw as nat) && 2 * m.v() == q && sh == w - blen(x) - 1);
    lemma_sel_scale(x, n, 1, rm, sg, q);
    assert(sel(2 * x, n + 1, rm, sg, q));
}
/// the quotient of shifted digits
pub proof fn lemma_dq(v1: nat, v2: nat, j: nat, q: nat, r: nat, t: nat, kx: nat)
    requires v1 * pow2(j) == q * v2 + r, r < v2, t + j == kx, t > 0,
    ensures ({ let y = qst(v1 * pow2(kx), v2); y / pow2(t + 1) == q && (y % pow2(t + 1) == 0 <==> r == 0) }),
{
    let z = v1 * pow2(j); let p = pow2(t); lemma_pow2_pos(t); lemma_pow2_adds(j, t);
    lemma_divmod_is(z, v2, q, r);
    let a = pow2(j);
    assert(v1 * (a * p) == (v1 * a) * p) by(nonlinear_arith);
    lemma_frac_scale(z, v2, p, RoundingMode::None, true);
    lemma_qst(z * p, v2, t, RoundingMode::None, true);
}
/// length of a quotient of digit sequences
pub proof fn lemma_dq_len(z: nat, v2: nat, q: nat, r: nat, bz: nat, b2: nat)
    requires z == q * v2 + r, r < v2, isbl(z, bz), isbl(v2, b2), bz > b2 > 0,
    ensures q > 0, blen(q) >= bz - b2,
{
    lemma_pow2_adds((bz - 1 - b2) as nat, b2); lemma_pow2_pos((bz - 1 - b2) as nat);
    let a = pow2((bz - 1 - b2) as nat); let hh = pow2(b2);
    assert(q >= a) by(nonlinear_arith) requires z == q * v2 + r, r < v2, z >= a * hh, v2 < hh, a > 0;
    lemma_blen(q);
    if blen(q) < bz - b2 { if blen(q) < bz - 1 - b2 { lemma_pow2_strictly_increases(blen(q), (bz - 1 - b2) as nat); } }
}
/// rounding of the quotient, from the digits given to round_mantissa
pub proof fn lemma_div_round(y: nat, a: nat, f: nat, nz: bool, ov: bool, l: nat, g0: Seq<u64>, shift: nat, pw: nat, rm: RoundingMode, sg: Sign, w: int, v1: nat, ret: bool, g: Seq<u64>, base: Seq<u64>)
    requires y > 0, f == y / pow2(a), nz <==> y % pow2(a) != 0, f > 0, blen(f) >= 64 * pw + 2, 0 < pw < l <= maxw(),
        val(base) == (if ov { bp((l - 1) as nat) * 0x8000_0000_0000_0000 } else { prep(f, nz, rm, sg) }), ov ==> prep(f, nz, rm, sg) == bp(l),
        g0.len() == l, base.len() == l, val(g0) == val(base) * pow2(shift), isbl(val(g0), 64 * l), shift < 64 * l,
        g.len() == pw, val(g) == v1 / bp((l - pw) as nat),
        ({ let n = (64 * (l - pw)) as nat; let m = val(g0); let r = rnd(m, n, rm, sg == Sign::Pos);
            if rm == RoundingMode::None { !ret && v1 == m } else if ret { r * pow2(n) == bp(l) && isq(v1, pow2((64 * l - 1 - n) as nat), n, true) } else { isq(v1, r, n, true) } }),
    ensures
        forall|m: Mantissa| #![trigger m.normal()] m.m.inner@ == g && m.n == 64 * pw ==> m.normal() && (m.normal() ==> mres(y, w, pw as int, rm, sg, w - a - (64 * l - shift) - (if ret { 1int } else { 0int }) - (if ov { 1int } else { 0int }), m)),
        mdirty(y, pw as int) <==> (nz || val(g0) % pow2((64 * (l - pw)) as nat) != 0),
{
    let x = val(base); let o = if ov { 1int } else { 0int }; let wx = w - a - o; let v = prep(f, nz, rm, sg);
    let sh = wx - (64 * l - shift) - (if ret { 1int } else { 0int });
    lemma_pow2_pos((64 * l - 1) as nat);
    if x == 0 { assert(0 * pow2(shift) == 0); }
    lemma_blen(f);
    lemma_mround(x, wx, shift, g0, pw, rm, sg, v1, ret, g);
    lemma_bl_unscale(x, shift, 64 * l); lemma_blen_is(x, (64 * l - shift) as nat);
    if ov { lemma_topbit(l); }
    assert(v == (if ov { 2 * x } else { x }));
    if !ov { lemma_prep_len(f, nz, rm, sg); }
    let mm = Mantissa { m: WordBuf { inner: arbitrary() }, n: 0 };
    assert forall|m: Mantissa| #![trigger m.normal()] m.m.inner@ == g && m.n == 64 * pw implies m.normal() && (m.normal() ==> mres(y, w, pw as int, rm, sg, sh, m)) by {
        assert(m.normal());
        if ov { lemma_mres_scale1(x, wx, pw as int, rm, sg, sh, m); }
        lemma_prep_mres(y, a, v, w, pw as int, rm, sg, sh, m);
    }
    lemma_dirty_prep(y, a, v, pw as int, rm, sg);
    if ov { lemma_mdirty_scale1(x, pw as int); }
}
pub proof fn lemma_topbit(l: nat)
    requires l > 0,
    ensures bp((l - 1) as nat) * 0x8000_0000_0000_0000 == pow2((64 * l - 1) as nat), bp(l) == 2 * pow2((64 * l - 1) as nat), blen(pow2((64 * l - 1) as nat)) == 64 * l, pow2((64 * l - 1) as nat) > 0,
{
    lemma_pow2_adds((64 * (l - 1)) as nat, 63); lemma_pow2_64(); lemma_pow2_unfold(64 * l); lemma_pow2_pos((64 * l - 1) as nat);
    lemma_pow2_63();
    lemma_blen_is(pow2((64 * l - 1) as nat), 64 * l);
}
pub proof fn lemma_pow2_63() ensures pow2(63) == 0x8000_0000_0000_0000 { lemma_pow2_64(); lemma_pow2_unfold(64); }
pub proof fn lemma_prep_len(f: nat, nz: bool, rm: RoundingMode, sg: Sign)
    requires f > 0,
    ensures blen(prep(f, nz, rm, sg)) >= blen(f), prep(f, nz, rm, sg) > 0,
{
    lemma_blen(f); let v = prep(f, nz, rm, sg); lemma_blen(v);
    if blen(v) < blen(f) { if blen(v) < blen(f) - 1 { lemma_pow2_strictly_increases(blen(v), (blen(f) - 1) as nat); } }
}
pub proof fn lemma_mdirty_scale1(x: nat, pw: int)
    requires x > 0, pw > 0, blen(x) > 64 * pw,
    ensures mdirty(2 * x, pw) <==> mdirty(x, pw),
{
    lemma_pow2_64(); lemma_isbl_scale(x, 1); lemma_mul_is_commutative(2, x as int);
    lemma_rnd_scale(x, (blen(x) - 64 * pw) as nat, 1, RoundingMode::None, true);
}
pub proof fn lemma_dirty_prep(y: nat, a: nat, v: nat, pw: int, rm: RoundingMode, sg: Sign)
    requires y > 0, pw > 0, v == prep(y / pow2(a), y % pow2(a) != 0, rm, sg), blen(y / pow2(a)) >= 64 * pw + 2, y / pow2(a) > 0,
    ensures mdirty(y, pw) <==> (y % pow2(a) != 0 || mdirty(v, pw)),
{
    let f = y / pow2(a); let b = blen(f); let k = (b - 64 * pw) as nat; let p = pow2(a); let u = y % p;
    lemma_blen(f); lemma_pow2_pos(a);
    lemma_fundamental_div_mod(y as int, p as int); lemma_mod_bound(y as int, p as int);
    lemma_pow2_adds((b - 1) as nat, a); lemma_pow2_adds(b, a);
    let (h, t) = (pow2((b - 1) as nat), pow2(b));
    assert(y >= h * p && y < t * p) by(nonlinear_arith) requires y == p * f + u, 0 <= u < p, h <= f, f + 1 <= t;
    lemma_blen_is(y, b + a);
    lemma_cut2(y, a, k);
    let g = f % pow2(k); let r = g * p + u;
    assert(r == 0 <==> g == 0 && u == 0) by(nonlinear_arith) requires r == g * p + u, p > 0;
    assert(a + k == b + a - 64 * pw);
    if u == 0 { assert(v == f); }
}
pub proof fn lemma_nzero(s: Seq<u64>)
    ensures val(s) != 0 <==> exists|i: int| 0 <= i < s.len() && s[i] != 0,
{
    if forall|i: int| 0 <= i < s.len() ==> s[i] == 0 { lemma_valr_zero(s, 0, s.len() as int); }
    else { let i = choose|i: int| 0 <= i < s.len() && s[i] != 0; lemma_valr_split(s, 0, i, s.len() as int); lemma_valr_first(s, i, s.len() as int); lemma_bp(i as nat);
        let (b, v, h) = (bp(i as nat), valr(s, i, s.len() as int), valr(s, i + 1, s.len() as int));
        assert(b * v > 0) by(nonlinear_arith) requires b > 0, v > 0; }
}
/// digits all ones, incremented
pub proof fn lemma_ulp_ov(s0: Seq<u64>, s1: Seq<u64>, s2: Seq<u64>)
    requires s0.len() == s1.len() > 0, val(s1) + bp(s0.len()) == val(s0) + 1, s2 =~= s1.update(s1.len() - 1, 0x8000_0000_0000_0000u64),
    ensures val(s2) == bp((s0.len() - 1) as nat) * 0x8000_0000_0000_0000, val(s0) + 1 == bp(s0.len()),
{
    let l = s0.len() as int;
    lemma_val_bound(s0); lemma_val_bound(s1);
    lemma_nzero(s1);
    lemma_valr_split(s2, 0, l - 1, l); lemma_valr_zero(s2, 0, l - 1); lemma_valr_first(s2, l - 1, l);
    assert(valr(s2, l, l) == 0);
}
%% ext mantissa/div.rs|impl Mantissa|div_unbalanced
pub fn div_unbalanced(m1: &[Word], m2: &[Word]) -> (ret: Result<(WordBuf, WordBuf), Error>)
@    requires 0 < m2@.len() <= m1@.len() <= maxw(), isbl(val(m2@), (64 * m2@.len()) as nat),
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> { let q = ret->Ok_0.0.inner@; let r = ret->Ok_0.1.inner@; q.len() == m1@.len() - m2@.len() + 1 && val(m1@) == val(q) * val(m2@) + val(r) && val(r) < val(m2@) && r.len() <= maxw() },
{
%% fn mantissa/mantissa.rs|impl Mantissa|div
@#[verifier::rlimit(60)]
@#[verifier::spinoff_prover]
pub fn div(
    &self,
    m2: &Self,
    p: usize,
    rm: RoundingMode,
    is_positive: bool,
    inexact: &mut bool,
) -> (ret: Result<(isize, Self), Error>)
@    requires self.normal(), m2.normal(), 0 < p < pmax() + 64,
@    ensures match ret { Err(e) => mem(e), Ok(r) => {
@        let x = mq(*self, *m2); let w = kk() + 1 + 64 * self.l() - 64 * m2.l();
@        mres(x, w, words_of(p), rm, if is_positive { Sign::Pos } else { Sign::Neg }, -r.0, r.1) && *final(inexact) == (*old(inexact) || mdirty(x, words_of(p))) } },
{
@let ghost pw = words_of(p) as nat; let ghost l1 = self.l(); let ghost l2 = m2.l(); let ghost y = mq(*self, *m2); let ghost sg = if is_positive { Sign::Pos } else { Sign::Neg };
@let ghost w = kk() + 1 + 64 * l1 - 64 * l2; let ghost inex0 = *inexact;
@assert(pw <= 0x100_0000_0000_0002 && l1 <= 0x20_0000_0000_0000 && l2 <= 0x20_0000_0000_0000);
@proof { lemma_wf_normal(*self); lemma_wf_normal(*m2); lemma_mq(*self, *m2); }
    let p = Self::bit_len_to_word_len(p);
    let k = (p + m2.len()).max(self.len()) + 1;
@assert(p == pw && k <= 0x180_0000_0000_0000 && k == (if pw + l2 >= l1 { pw + l2 + 1 } else { l1 + 1 }));
@assert(m2.l() == l2);
@assert(l2 as isize - k as isize == l2 - k);
@assert(WORD_BIT_SIZE as isize == 64);
    let mut e_shift = (m2.len() as isize - k as isize) * WORD_BIT_SIZE as isize;
    let mut m1 = Self::reserve_new(k)?;
    if k > self.len() {
        let l = k - self.len();
        m1[l..].copy_from_slice(&self.m);
        m1[..l].fill(0);
@proof { lemma_add_low(self.m.inner@, m1.inner@, l as int); }
    } else {
        m1.copy_from_slice(&self.m);
    }
@assert(k <= maxw() && e_shift == 64 * l2 - 64 * k);
@let ghost j = (64 * (k - l1)) as nat; let ghost t = (kk() - j) as nat; let ghost a = t + 1;
@proof { lemma_bl_shl(self.v(), 64 * l1, j); }
    let (q, r) = Self::div_unbalanced(&m1, &m2.m)?;
@let ghost f = val(q.inner@); let ghost nz = val(r.inner@) != 0; let ghost l = q.inner@.len(); let ghost rs = r.inner@;
@proof { lemma_dq(self.v(), m2.v(), j, f, val(rs), t, kk() as nat); lemma_dq_len(self.v() * pow2(j), m2.v(), f, val(rs), (64 * k) as nat, (64 * l2) as nat); }
    e_shift += q.len() as isize * WORD_BIT_SIZE as isize;
    let mut m3 = Mantissa { m: q, n: 0 };
    let r_sticky = {
        let mut found_1 = false;
        let mut ix_2: usize = 0;
        let end_3: usize = r.len();
        while ix_2 < end_3
@        invariant_except_break !found_1, forall|i: int| 0 <= i < ix_2 ==> rs[i] == 0,
@        invariant ix_2 <= end_3 == rs.len(), rs == r.inner@,
@        ensures found_1 ==> exists|i: int| 0 <= i < rs.len() && rs[i] != 0, !found_1 ==> forall|i: int| 0 <= i < rs.len() ==> rs[i] == 0,
@        decreases end_3 - ix_2,
        {
            let x = r[ix_2];
            ix_2 += 1;
            if x != 0 {
@assert(rs[ix_2 - 1] != 0);
                found_1 = true;
                break;
            }
        }
        found_1
    };
@proof { lemma_nzero(rs); assert(r_sticky == nz); }
@let ghost mut ov = false; let ghost s0 = m3.m.inner@;
    if r_sticky {
        *inexact = true || *inexact;
@assert(1u32 & 0b1100000 == 0 && 2u32 & 0b1100000 == 0 && 4u32 & 0b1100000 == 0 && 8u32 & 0b1100000 == 0 && 16u32 & 0b1100000 == 0 && 32u32 & 0b1100000 != 0 && 64u32 & 0b1100000 != 0) by(bit_vector);
        if (rm_bits(rm) as u32) & 0b1100000 != 0 {
            m3.m[0] |= 1;
@proof { lemma_or1(s0, m3.m.inner@); }
        } else if rm == RoundingMode::FromZero
            || (is_positive && rm == RoundingMode::Up)
            || (!is_positive && rm == RoundingMode::Down)
        {
            if m3.add_ulp() {
@let ghost s1 = m3.m.inner@;
                let m3l = m3.len() - 1;
                m3.m[m3l] = WORD_SIGNIFICANT_BIT;
                e_shift += 1;
@proof { ov = true; lemma_ulp_ov(s0, s1, m3.m.inner@); }
            }
        }
    }
@let ghost base = m3.m.inner@;
@assert(val(base) == (if ov { bp((l - 1) as nat) * 0x8000_0000_0000_0000 } else { prep(f, nz, rm, sg) }));
@proof { lemma_prep_len(f, nz, rm, sg); if ov { lemma_topbit(l); } }
@let ghost es = e_shift;
    e_shift -= Self::maximize(&mut m3.m) as isize;
@let ghost g0 = m3.m.inner@; let ghost shift = (es - e_shift) as nat;
@assert(val(g0) == val(base) * pow2(shift) && isbl(val(g0), 64 * l) && shift < 64 * l);
@assert(es == 64 * l2 - 64 * k + 64 * l + (if ov { 1int } else { 0int }));
@let ghost mut gr = false;
    if m3.round_mantissa(
        (m3.len() - p) * WORD_BIT_SIZE,
        rm,
        is_positive,
        &mut false,
        m3.max_bit_len(),
        inexact,
    ) {
@proof { gr = true; }
        e_shift += 1;
    }
@let ghost g1 = m3.m.inner@;
    m3.m.trunc_to(p * WORD_BIT_SIZE);
@proof { lemma_drop_low(g1, m3.m.inner@, l - p); lemma_div_round(y, a, f, nz, ov, l, g0, shift, pw, rm, sg, w, val(g1), gr, m3.m.inner@, base); }
    m3.n = m3.max_bit_len();
@assert(m3.normal());
@assert(w - a - (64 * l - shift) - (if gr { 1int } else { 0int }) - (if ov { 1int } else { 0int }) == -e_shift);
@assert(mres(y, w, pw as int, rm, sg, -e_shift, m3));
    Ok((e_shift, m3))
}
%% fn num.rs|impl BigFloatNumber|div
pub fn div(&self, d2: &Self, p: usize, rm: RoundingMode) -> (ret: Result<Self, Error>)
@    requires self.wf(), d2.wf(), p > 0,
@    ensures divres(*self, *d2, p, rm, ret),
{
    if d2.m.is_zero() {
        return if self.is_zero() {
            Err(Error::InvalidArgument)
        } else {
            Err(Error::DivisionByZero)
        };
    }
@let ghost p0 = p;
@proof { lemma_mag_bl(*self); lemma_mag_bl(*d2); lemma_wf_len(self.m); lemma_wf_len(d2.m); }
    let p = round_p(p);
    Self::p_assertion(p)?;
@proof { lemma_words_rp(p0, p); }
    let s = if self.s == d2.s { Sign::Pos } else { Sign::Neg };
    if self.m.is_zero() {
        return Self::new2(p, s, self.inexact || d2.inexact);
    }
    let (e1, m1_opt) = self.normalize()?;
    let m1_normalized = m1_opt.as_ref().unwrap_or(&self.m);
    let (e2, m2_opt) = d2.normalize()?;
    let m2_normalized = m2_opt.as_ref().unwrap_or(&d2.m);
@let ghost l1 = 64 * m1_normalized.l(); let ghost l2 = 64 * m2_normalized.l(); let ghost e0 = e1 - e2; let ghost w = kk() + 1 + l1 - l2; let ghost t = (2 * kk() + (e1 - l1) - (e2 - l2)) as nat;
@let ghost z = m1_normalized.v() * pow2(kk() as nat); let ghost d = m2_normalized.v(); let ghost c = pow2((e2 - l2 + kk()) as nat); let ghost y = mq(*m1_normalized, *m2_normalized); let ghost dirty = self.inexact || d2.inexact; let ghost ss = 3 * kk(); let ghost xx = self.mag() * pow2(ss as nat);
@proof { lemma_mq(*m1_normalized, *m2_normalized); lemma_div_mag(*self, e1 as int, *m1_normalized, *d2, e2 as int, *m2_normalized, t, c); lemma_isbl_scale(y, t); }
    let mut inexact = self.inexact || d2.inexact;
    let (e_shift, m3) = m1_normalized.div(m2_normalized, p, rm, s == Sign::Pos, &mut inexact)?;
    let e = e1 - e2 + e_shift;
@assert(m3.l() == words_of(p) <= maxw());
@assert(cut(y * pow2(t), ss + 1, words_of(p)) >= t + 2);
@proof { lemma_div_fin(z, d, t, xx, d2.mag(), c, ss, s, words_of(p), rm, dirty); }
@proof { lemma_norm(y, w, t, e0 as int, ss + 1, rm, s, -e_shift, m3, e as int, dirty); }
    if e > EXPONENT_MAX as isize {
        return Err(Error::ExponentOverflow(s));
    }
    if e < EXPONENT_MIN as isize {
        let mut sticky = false;
        let (e_shift, mut m3) = m1_normalized.div(
            m2_normalized,
            p + WORD_BIT_SIZE,
            RoundingMode::ToZero,
            s == Sign::Pos,
            &mut sticky,
        )?;
@proof { lemma_mres_tz(y, w, words_of(p) + 1, s, -e_shift, m3); }
@assert(e0 + e_shift <= e);
@assert(blen(y) > 64 * (words_of(p) + 1));
@assert(e0 + e_shift > -0x3000_0000_0000_0000);
@assert(e0 + e_shift - 64 * (words_of(p) + 1) + kk() >= 0);
@let ghost m4 = m3; let ghost ms = m3.m.inner@;
@proof { lemma_wf_normal(m3); }
        if sticky {
            m3.digits_mut()[0] |= 1;
        }
@proof { if sticky { lemma_or1(ms, m3.m.inner@); lemma_sticky_len(m4.v(), 64 * m4.l(), m3.v()); } }
        inexact = self.inexact || d2.inexact;
@proof { assert forall|r: BigFloatNumber| #[trigger] cround(m3.v() * pow2((e0 + e_shift - 64 * m3.l() + kk()) as nat), kk(), s, words_of(p), rm, inexact, r) implies cround(y * pow2(t), ss + 1, s, words_of(p), rm, dirty, r) by { lemma_div_sub(y, w, t, e0 as int, ss + 1, rm, s, -e_shift, m4, m3.v(), words_of(p), dirty, r); } }
        Self::new_subnormal(m3, s, e1 - e2 + e_shift, p, rm, inexact)
    } else {
@let ghost r0 = BigFloatNumber { m: m3, s, e: e as Exponent, inexact };
@assert(r0.wf() && r0.e == e);
@assert(cround(y * pow2(t), ss + 1, s, words_of(p), rm, dirty, r0));
        Ok(BigFloatNumber {
            m: m3,
            s,
            e: e as Exponent,
            inexact,
        })
    }
}
%% ghost
// ---- sums of mantissas
pub open spec fn wmax(m1: Mantissa, m2: Mantissa, d: int) -> int { if 64 * m1.l() >= 64 * m2.l() + d { 64 * m1.l() as int } else { 64 * m2.l() + d } }
/// m1 and m2 * 2^-d in units of 2^-wmax
pub open spec fn al1(m1: Mantissa, m2: Mantissa, d: int) -> nat { m1.v() * pow2((wmax(m1, m2, d) - 64 * m1.l()) as nat) }
pub open spec fn al2(m1: Mantissa, m2: Mantissa, d: int) -> nat { m2.v() * pow2((wmax(m1, m2, d) - 64 * m2.l() - d) as nat) }
#[verifier::opaque]
pub open spec fn sumres(x: nat, w: int, p: usize, rm: RoundingMode, pos: bool, full: bool, i0: bool, i1: bool, r: (isize, Mantissa)) -> bool {
    if full { fres(x, w, r.0 as int, r.1) && i1 == i0 } else { mres(x, w, words_of(p), rm, if pos { Sign::Pos } else { Sign::Neg }, r.0 as int, r.1) && i1 == (i0 || mdirty(x, words_of(p))) }
}
pub proof fn lemma_al(m1: Mantissa, m2: Mantissa, d: int)
    requires m1.normal(), m2.normal(), d >= 0,
    ensures isbl(al1(m1, m2, d), wmax(m1, m2, d) as nat), isbl(al2(m1, m2, d), (wmax(m1, m2, d) - d) as nat), al1(m1, m2, d) > 0, al2(m1, m2, d) > 0,
{
    lemma_wf_normal(m1); lemma_wf_normal(m2);
    lemma_bl_shl(m1.v(), 64 * m1.l(), (wmax(m1, m2, d) - 64 * m1.l()) as nat);
    lemma_bl_shl(m2.v(), 64 * m2.l(), (wmax(m1, m2, d) - 64 * m2.l() - d) as nat);
    lemma_pow2_pos((wmax(m1, m2, d) - 1) as nat); lemma_pow2_pos((wmax(m1, m2, d) - d - 1) as nat);
}
/// the magnitudes of two numbers on the common grid
pub proof fn lemma_al_mag(x: BigFloatNumber, e1: int, m1: Mantissa, y: BigFloatNumber, e2: int, m2: Mantissa)
    requires x.wf(), y.wf(), isnorm(x, e1, m1), isnorm(y, e2, m2), e1 >= e2,
    ensures ({ let d = e1 - e2; let w = wmax(m1, m2, d); let t = (kk() + e1 - w) as nat;
        kk() + e1 - w > 0x1000_0000_0000_0000 && w <= 0x1900_0000_0000_0000 && d <= 0xa00_0000_0000_0000 && x.mag() == al1(m1, m2, d) * pow2(t) && y.mag() == al2(m1, m2, d) * pow2(t) }),
{
    let d = e1 - e2; let w = wmax(m1, m2, d); let t = (kk() + e1 - w) as nat;
    let (a, b) = ((w - 64 * m1.l()) as nat, (w - 64 * m2.l() - d) as nat);
    lemma_pow2_adds(a, t); lemma_pow2_adds(b, t);
    let (v1, v2, pa, pb, pt) = (m1.v(), m2.v(), pow2(a), pow2(b), pow2(t));
    assert((v1 * pa) * pt == v1 * (pa * pt)) by(nonlinear_arith);
    assert((v2 * pb) * pt == v2 * (pb * pt)) by(nonlinear_arith);
}
/// a number of larger magnitude has no smaller exponent
pub proof fn lemma_norm_le(x: BigFloatNumber, e1: int, m1: Mantissa, y: BigFloatNumber, e2: int, m2: Mantissa)
    requires x.wf(), y.wf(), isnorm(x, e1, m1), isnorm(y, e2, m2), x.mag() >= y.mag(),
    ensures e1 >= e2,
{
    lemma_wf_normal(m1); lemma_wf_normal(m2);
    lemma_bl_shl(m1.v(), 64 * m1.l(), (e1 - 64 * m1.l() + kk()) as nat);
    lemma_bl_shl(m2.v(), 64 * m2.l(), (e2 - 64 * m2.l() + kk()) as nat);
    if e1 < e2 { lemma_bl_lt(x.mag(), y.mag(), (e1 + kk()) as nat, (e2 + kk()) as nat); }
}
/// the sum (or difference) of the aligned mantissas is that of the magnitudes
pub proof fn lemma_al_sum(a: nat, b: nat, t: nat, add: bool)
    requires add || a > b,
    ensures a * pow2(t) + b * pow2(t) == (a + b) * pow2(t), a * pow2(t) - b * pow2(t) == (a - b) * pow2(t),
        !add ==> a * pow2(t) > b * pow2(t), pow2(t) > 0,
{
    lemma_pow2_pos(t); let p = pow2(t);
    assert(a * p + b * p == (a + b) * p) by(nonlinear_arith);
    assert(a * p - b * p == (a - b) * p) by(nonlinear_arith);
    if !add { assert(a * p > b * p) by(nonlinear_arith) requires a > b, p > 0; }
}
pub proof fn lemma_al_gt(a: nat, b: nat, t: nat)
    requires a * pow2(t) > b * pow2(t),
    ensures a > b,
{ let p = pow2(t); assert(a > b) by(nonlinear_arith) requires a * p > b * p, p >= 0; }
/// the exact sum (or difference) of two magnitudes as an aligned integer
pub open spec fn asx(m1: Mantissa, m2: Mantissa, d: int, add: bool) -> nat { (if add { (al1(m1, m2, d) + al2(m1, m2, d)) as int } else { al1(m1, m2, d) - al2(m1, m2, d) }) as nat }
/// x * 2^-w at exponent e0 is the exact magnitude a
#[verifier::opaque]
pub open spec fn addpre(x: nat, w: int, t: nat, e0: int, a: nat) -> bool {
    &&& x > 0 && x * pow2(t) == a && t == kk() + e0 - w
    &&& kk() + e0 - w > 0x1000_0000_0000_0000 && 0 <= w <= 0x1900_0000_0000_0000 && blen(x) <= w + 1
    &&& EXPONENT_MIN - 0x800_0000_0000_0000 <= e0 <= EXPONENT_MAX
}
pub proof fn lemma_as(x: BigFloatNumber, e1: int, m1: Mantissa, y: BigFloatNumber, e2: int, m2: Mantissa, add: bool, a: nat)
    requires x.wf(), y.wf(), isnorm(x, e1, m1), isnorm(y, e2, m2), if add { e1 >= e2 && a == x.mag() + y.mag() } else { x.mag() > y.mag() && a == x.mag() - y.mag() },
    ensures e1 >= e2, e1 - e2 <= 0xa00_0000_0000_0000, !add ==> al1(m1, m2, e1 - e2) > al2(m1, m2, e1 - e2),
        ({ let d = e1 - e2; let w = wmax(m1, m2, d); addpre(asx(m1, m2, d, add), w, (kk() + e1 - w) as nat, e1, a) }),
{
    if !add { lemma_norm_le(x, e1, m1, y, e2, m2); }
    let d = e1 - e2; let w = wmax(m1, m2, d); let t = (kk() + e1 - w) as nat;
    lemma_al_mag(x, e1, m1, y, e2, m2); lemma_al(m1, m2, d);
    let (a, b) = (al1(m1, m2, d), al2(m1, m2, d));
    if !add { lemma_al_gt(a, b, t); }
    lemma_al_sum(a, b, t, add);
    if d > 0 { lemma_pow2_strictly_increases((w - d) as nat, w as nat); }
    lemma_sum_len(asx(m1, m2, d, add), w);
    reveal(addpre);
}
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
pub proof fn lemma_add_fin(x: nat, w: int, t: nat, e0: int, a: nat, p: usize, rm: RoundingMode, sg: Sign, full: bool, dirty: bool, inexact: bool, shift: isize, m3: Mantissa, e: int)
    requires addpre(x, w, t, e0, a), sumres(x, w, p, rm, sg == Sign::Pos, full, dirty, inexact, (shift, m3)), e == e0 - shift, full || p > 0, p < pmax() + 64,
    ensures m3.normal(), -2 <= shift <= w, -0x3000_0000_0000_0000 < e < 0x3000_0000_0000_0000, a > 0,
        EXPONENT_MIN <= e <= EXPONENT_MAX ==> forall|r: BigFloatNumber| #![trigger r.wf()] r.m == m3 && r.e == e && r.s == sg && r.inexact == inexact ==> r.wf() && (r.wf() ==> if full { exact(a, kk(), sg, dirty, r) } else { cround(a, kk(), sg, words_of(p), rm, dirty, r) }),
        e > EXPONENT_MAX ==> if full { a >= pow2((EXPONENT_MAX + kk()) as nat) } else { coverflow(a, kk(), sg, words_of(p), rm) },
        e < EXPONENT_MIN && !full ==> a < pow2((EXPONENT_MAX + kk()) as nat),
        full ==> inexact == dirty && e - 64 * m3.l() + kk() >= 0 && a == m3.v() * pow2((e - 64 * m3.l() + kk()) as nat),
{
    reveal(addpre); reveal(sumres);
    lemma_isbl_scale(x, t); lemma_pow2_64();
    if full {
        lemma_wf_normal(m3);
        lemma_full(x, w, t, e0, kk(), shift as int, m3, e);
        assert forall|r: BigFloatNumber| #![trigger r.wf()] r.m == m3 && r.e == e && r.s == sg && r.inexact == inexact && EXPONENT_MIN <= e <= EXPONENT_MAX implies r.wf() && exact(a, kk(), sg, dirty, r) by { assert(r.wf()); assert(r.mag() * 1 == r.mag()); }
    } else {
        let pw = words_of(p); let n = blen(x) - 64 * pw;
        assert(mres(x, w, pw, rm, sg, shift as int, m3));
        lemma_wf_normal(m3);
        assert(shift == w - blen(x) || shift == w - blen(x) - 1) by {
            if n > 0 { let q = choose|q: nat| #[trigger] sel(x, n as nat, rm, sg, q) && (q < bp(pw as nat) && m3.v() == q && shift == w - blen(x) || q == bp(pw as nat) && 2 * m3.v() == q && shift == w - blen(x) - 1); }
        }
        assert(m3.l() == pw);
        lemma_norm(x, w, t, e0, kk(), rm, sg, shift as int, m3, e, dirty);
        if e < EXPONENT_MIN { lemma_bits_small(a, (EXPONENT_MIN + kk()) as nat, (EXPONENT_MAX + kk()) as nat); }
        assert(inexact == (dirty || mdirty(x, pw)));
        assert forall|r: BigFloatNumber| #![trigger r.wf()] r.m == m3 && r.e == e && r.s == sg && r.inexact == inexact && EXPONENT_MIN <= e <= EXPONENT_MAX implies r.wf() && cround(a, kk(), sg, words_of(p), rm, dirty, r) by {
            assert(r.wf());
            assert(r.inexact <==> dirty || mdirty(x, m3.l() as int));
            assert(cround(x * pow2(t), kk(), sg, m3.l() as int, rm, dirty, r));
        }
    }
}
pub proof fn lemma_add_sub(m3: Mantissa, e: int, m4: Mantissa, p4: int, rm: RoundingMode, sg: Sign, a: nat, dirty: bool, r: BigFloatNumber)
    requires m3.normal(), -0x3000_0000_0000_0000 < e < EXPONENT_MIN, p4 == m3.n + (EXPONENT_MIN - e), a == m3.v() * pow2((e - 64 * m3.l() + kk()) as nat), words_of(p4 as usize) >= m3.l(), m4.l() == words_of(p4 as usize) <= maxw(),
        m4.v() == m3.v() * bp((m4.l() - m3.l()) as nat), m4.n == m3.n + 64 * (m4.l() - m3.l()), isbl(m4.v(), m4.n as nat),
    ensures m4.normal(), r.wf() && r.s == sg && r.m.l() == m4.l() && r.m.v() == rnd(m4.v(), (EXPONENT_MIN - e) as nat, rm, sg == Sign::Pos) && (r.m.n > 0 ==> r.e == EXPONENT_MIN) && r.inexact == (dirty || m4.v() % pow2((EXPONENT_MIN - e) as nat) != 0) ==> exact(a, kk(), sg, dirty, r),
{
    lemma_wf_normal(m3);
    let d = (m4.l() - m3.l()) as nat; let l = m3.l();
    lemma_set_len_top(m3.v(), l, m4.v(), m4.l(), m4.n as nat);
    if r.wf() && r.s == sg && r.m.l() == m4.l() && r.m.v() == rnd(m4.v(), (EXPONENT_MIN - e) as nat, rm, sg == Sign::Pos) && (r.m.n > 0 ==> r.e == EXPONENT_MIN) && r.inexact == (dirty || m4.v() % pow2((EXPONENT_MIN - e) as nat) != 0) {
        lemma_newsub_ext(m3.v(), l, e, d, (EXPONENT_MIN - e) as nat, rm, sg == Sign::Pos, r);
        lemma_pow2_64(); assert(r.mag() * 1 == r.mag());
    }
}
pub open spec fn svop(a: BigFloatNumber, b: BigFloatNumber, op: i8) -> int { if op < 0 { a.sv() - b.sv() } else { a.sv() + b.sv() } }
/// an inexact operand
pub proof fn lemma_cround_dirty(x: nat, s: int, sg: Sign, pw: int, rm: RoundingMode, d1: bool, r: BigFloatNumber, d2: bool, r2: BigFloatNumber)
    requires cround(x, s, sg, pw, rm, d1, r), r2.m == r.m, r2.e == r.e, r2.s == r.s, r2.inexact == (d2 || r.inexact),
    ensures cround(x, s, sg, pw, rm, d1 || d2, r2),
{
    let n = cut(x, s, pw) as nat;
    let q = choose|q: nat| #[trigger] sel(x, n, rm, sg, q) && q * pow2(n) == r.mag() * pow2((s - kk()) as nat);
    assert(r2.mag() == r.mag());
    assert(sel(x, n, rm, sg, q) && q * pow2(n) == r2.mag() * pow2((s - kk()) as nat));
}
/// the sign of zero does not matter
pub proof fn lemma_cround_sign(x: nat, s: int, sg: Sign, sg2: Sign, pw: int, rm: RoundingMode, dirty: bool, r: BigFloatNumber)
    requires cround(x, s, sg, pw, rm, dirty, r), sg == sg2 || x == 0,
    ensures cround(x, s, sg2, pw, rm, dirty, r),
{
    let n = cut(x, s, pw) as nat;
    let q = choose|q: nat| #[trigger] sel(x, n, rm, sg, q) && q * pow2(n) == r.mag() * pow2((s - kk()) as nat);
    if x == 0 { lemma_rnd_zero(n, rm, true); lemma_rnd_zero(n, rm, false); lemma_pow2_pos(n); lemma_divmod_is(0, pow2(n), 0, 0); }
    assert(sel(x, n, rm, sg2, q) && q * pow2(n) == r.mag() * pow2((s - kk()) as nat));
}
pub proof fn lemma_sum_len(x: nat, w: int)
    requires w >= 0, 0 < x < 2 * pow2(w as nat),
    ensures blen(x) <= w + 1,
{ lemma_blen(x); lemma_pow2_unfold((w + 1) as nat); if blen(x) > w + 1 { if blen(x) - 1 > w + 1 { lemma_pow2_strictly_increases((w + 1) as nat, (blen(x) - 1) as nat); } } }
/// a number small or large in bits
pub proof fn lemma_bits_small(x: nat, n: nat, k: nat)
    requires x > 0, blen(x) <= n, n <= k,
    ensures x < pow2(k),
{ lemma_blen(x); if blen(x) < k { lemma_pow2_strictly_increases(blen(x), k); } }
%% fn num.rs|impl BigFloatNumber|add_sub
@#[verifier::rlimit(300)]
@#[verifier::spinoff_prover]
pub fn add_sub(
    &self,
    d2: &Self,
    p: usize,
    op: i8,
    rm: RoundingMode,
    full_prec: bool,
) -> (ret: Result<Self, Error>)
@    requires self.wf(), d2.wf(), full_prec ==> p == 0, full_prec || p > 0,
@    ensures ({ let v = svop(*self, *d2, op); if full_prec { exres(iabs(v), kk(), isgn(v), self.inexact || d2.inexact, ret) } else { cres(iabs(v), kk(), isgn(v), p, rm, self.inexact || d2.inexact, ret) } }),
@    decreases (if full_prec { 0int } else { 1int }),
{
@let ghost p0 = p; let ghost v = svop(*self, *d2, op); let ghost dirty = self.inexact || d2.inexact;
    let p = round_p(p);
    Self::p_assertion(p)?;
@proof { lemma_words_rp(p0, p); lemma_mag_bl(*self); lemma_mag_bl(*d2); lemma_wf_len(self.m); lemma_wf_len(d2.m); }
    let mut d3 = Self::new(0)?;
    if self.m.is_zero() {
        let mut ret = if op < 0 { d2.neg() } else { d2.clone() }?;
@let ghost y0 = ret;
@assert(y0.wf() && y0.mag() == iabs(v) && (y0.s == isgn(v) || iabs(v) == 0));
        if !full_prec {
@proof { assert forall|g: Sign| #[trigger] prec_err(y0, p, rm, Error::ExponentOverflow(g)) implies g == y0.s && coverflow(iabs(v), kk(), y0.s, words_of(p), rm) by { lemma_prec_over(y0, p, rm, g); } }
            ret.set_precision(p, rm)?;
@proof { lemma_prec_cround(y0, p, rm, ret); lemma_cround_sign(iabs(v), kk(), y0.s, isgn(v), words_of(p), rm, y0.inexact, ret); }
        }
@let ghost y1 = ret;
        ret.inexact = self.inexact || ret.inexact;
@proof { lemma_pow2_64(); assert(y0.mag() * 1 == y0.mag()); if !full_prec { lemma_cround_dirty(iabs(v), kk(), isgn(v), words_of(p), rm, y0.inexact, y1, self.inexact, ret); } }
        return Ok(ret);
    }
    if d2.m.is_zero() {
        let mut ret = self.clone()?;
@let ghost y0 = ret;
@assert(y0.wf() && y0.mag() == iabs(v) && (y0.s == isgn(v) || iabs(v) == 0));
        if !full_prec {
@proof { assert forall|g: Sign| #[trigger] prec_err(y0, p, rm, Error::ExponentOverflow(g)) implies g == y0.s && coverflow(iabs(v), kk(), y0.s, words_of(p), rm) by { lemma_prec_over(y0, p, rm, g); } }
            ret.set_precision(p, rm)?;
@proof { lemma_prec_cround(y0, p, rm, ret); lemma_cround_sign(iabs(v), kk(), y0.s, isgn(v), words_of(p), rm, y0.inexact, ret); }
        }
@let ghost y1 = ret;
        ret.inexact = d2.inexact || ret.inexact;
@proof { lemma_pow2_64(); assert(y0.mag() * 1 == y0.mag()); if !full_prec { lemma_cround_dirty(iabs(v), kk(), isgn(v), words_of(p), rm, y0.inexact, y1, d2.inexact, ret); } }
        return Ok(ret);
    }
    let (e1, m1_opt) = self.normalize()?;
    let m1 = m1_opt.as_ref().unwrap_or(&self.m);
    let (e2, m2_opt) = d2.normalize()?;
    let m2 = m2_opt.as_ref().unwrap_or(&d2.m);
    let mut inexact = self.inexact || d2.inexact;
    let mut e;
@let ghost mut w = 0int; let ghost mut t: nat = 0; let ghost mut x: nat = 0; let ghost mut e0: int = 0;
    let (shift, m3) = if (self.s != d2.s && op >= 0) || (op < 0 && self.s == d2.s) {
        let cmp = self.abs_cmp(d2);
        if cmp > 0 {
            d3.s = self.s;
            e = e1;
@proof { lemma_as(*self, e1 as int, *m1, *d2, e2 as int, *m2, false, iabs(v)); w = wmax(*m1, *m2, e1 - e2); t = (kk() + e1 - w) as nat; x = asx(*m1, *m2, e1 - e2, false); e0 = e1 as int; }
            m1.abs_sub(
                m2,
                p,
                (e1 - e2) as usize,
                rm,
                d3.is_positive(),
                full_prec,
                &mut inexact,
            )
        } else if cmp < 0 {
            d3.s = if op >= 0 { d2.s } else { d2.s.invert() };
            e = e2;
@proof { lemma_as(*d2, e2 as int, *m2, *self, e1 as int, *m1, false, iabs(v)); w = wmax(*m2, *m1, e2 - e1); t = (kk() + e2 - w) as nat; x = asx(*m2, *m1, e2 - e1, false); e0 = e2 as int; }
            m2.abs_sub(
                m1,
                p,
                (e2 - e1) as usize,
                rm,
                d3.is_positive(),
                full_prec,
                &mut inexact,
            )
        } else {
            let mut ret = Self::new(p)?;
            ret.inexact = inexact;
@proof { lemma_cround_zero(kk(), isgn(v), words_of(p), rm, dirty, ret); }
            return Ok(ret);
        }
    } else {
        d3.s = self.s;
        if e1 >= e2 {
            e = e1;
@proof { lemma_as(*self, e1 as int, *m1, *d2, e2 as int, *m2, true, iabs(v)); w = wmax(*m1, *m2, e1 - e2); t = (kk() + e1 - w) as nat; x = asx(*m1, *m2, e1 - e2, true); e0 = e1 as int; }
            m1.abs_add(
                m2,
                p,
                (e1 - e2) as usize,
                rm,
                d3.is_positive(),
                full_prec,
                &mut inexact,
            )
        } else {
            e = e2;
@proof { lemma_as(*d2, e2 as int, *m2, *self, e1 as int, *m1, true, iabs(v)); w = wmax(*m2, *m1, e2 - e1); t = (kk() + e2 - w) as nat; x = asx(*m2, *m1, e2 - e1, true); e0 = e2 as int; }
            m2.abs_add(
                m1,
                p,
                (e2 - e1) as usize,
                rm,
                d3.is_positive(),
                full_prec,
                &mut inexact,
            )
        }
    }?;
@assert(d3.s == isgn(v) && e == e0);
@assert(addpre(x, w, t, e0, iabs(v)));
@assert(sumres(x, w, p, rm, d3.s == Sign::Pos, full_prec, dirty, inexact, (shift, m3)));
@proof { lemma_add_fin(x, w, t, e0, iabs(v), p, rm, isgn(v), full_prec, dirty, inexact, shift, m3, e0 - shift); }
@let ghost mg = m3;
    d3.inexact = inexact || d3.inexact;
    e -= shift;
    if e > EXPONENT_MAX as isize {
        return Err(Error::ExponentOverflow(d3.s));
    }
    d3.m = m3;
    if e < EXPONENT_MIN as isize {
        if !full_prec {
            let mut ret = self.add_sub(d2, 0, op, rm, true)?;
@let ghost y0 = ret;
@proof { lemma_pow2_64(); assert(y0.mag() * 1 == y0.mag()); assert forall|g: Sign| #[trigger] prec_err(y0, p, rm, Error::ExponentOverflow(g)) implies g == y0.s && coverflow(iabs(v), kk(), y0.s, words_of(p), rm) by { lemma_prec_over(y0, p, rm, g); } }
            ret.set_precision(p, rm)?;
@proof { lemma_prec_cround(y0, p, rm, ret); }
            return Ok(ret);
        }
        d3.e = EXPONENT_MIN;
@proof { lemma_wf_normal(mg); }
        d3.m.set_length(d3.m.max_bit_len() + (EXPONENT_MIN as isize - e) as usize)?;
@let ghost m4 = d3.m; let ghost i4 = d3.inexact;
@proof { lemma_add_sub(mg, e as int, m4, mg.n + (EXPONENT_MIN - e), rm, isgn(v), iabs(v), dirty, d3); }
        d3.subnormalize(e, rm);
@proof { lemma_add_sub(mg, e as int, m4, mg.n + (EXPONENT_MIN - e), rm, isgn(v), iabs(v), dirty, d3); }
    } else {
        d3.e = e as Exponent;
@assert(d3.wf());
    }
    Ok(d3)
}
%% ghost
/// the value of the lazy static ONE (BigFloatNumber::from_word(1, DEFAULT_P), whose contract is proved)
pub uninterp spec fn one() -> BigFloatNumber;
pub axiom fn axiom_one()
    ensures wordres(1, DEFAULT_P, Ok(one()));
pub struct OneRef {}
pub const ONE: OneRef = OneRef {};
impl core::ops::Deref for OneRef {
    type Target = BigFloatNumber;
    #[verifier::external_body]
    fn deref(&self) -> (ret: &BigFloatNumber)
        ensures *ret == one(),
    { unimplemented!() }
}
/// 1 / b
pub open spec fn recres(b: BigFloatNumber, p: usize, rm: RoundingMode, ret: Result<BigFloatNumber, Error>) -> bool {
    &&& b.m.n == 0 ==> ret is Err && ret->Err_0 == Error::DivisionByZero
    &&& b.m.n != 0 ==> match ret {
        Ok(r) => qcround(pow2(kk() as nat) * pow2((3 * kk()) as nat), b.mag(), 3 * kk(), b.s, words_of(p), rm, b.inexact, r),
        Err(Error::MemoryAllocation) => true,
        Err(Error::ExponentOverflow(g)) => g == b.s && qcoverflow(pow2(kk() as nat) * pow2((3 * kk()) as nat), b.mag(), 3 * kk(), b.s, words_of(p), rm),
        Err(Error::InvalidArgument) => p >= pmax() - 63,
        Err(Error::DivisionByZero) => false,
    }
}
%% fn num.rs|impl BigFloatNumber|reciprocal
pub fn reciprocal(&self, p: usize, rm: RoundingMode) -> (ret: Result<Self, Error>)
@    requires self.wf(), p > 0,
@    ensures recres(*self, p, rm, ret),
{
@proof { axiom_one(); assert(one().wf()); lemma_mag_bl(one()); lemma_pow2_pos(kk() as nat); }
    ONE.div(self, p, rm)
}
%% fn num.rs|impl BigFloatNumber|add
pub fn add(&self, d2: &Self, p: usize, rm: RoundingMode) -> (ret: Result<Self, Error>)
@    requires self.wf(), d2.wf(), p > 0,
@    ensures cres(iabs(self.sv() + d2.sv()), kk(), isgn(self.sv() + d2.sv()), p, rm, self.inexact || d2.inexact, ret),
{
    self.add_sub(d2, p, 1, rm, false)
}
%% fn num.rs|impl BigFloatNumber|sub
pub fn sub(&self, d2: &Self, p: usize, rm: RoundingMode) -> (ret: Result<Self, Error>)
@    requires self.wf(), d2.wf(), p > 0,
@    ensures cres(iabs(self.sv() - d2.sv()), kk(), isgn(self.sv() - d2.sv()), p, rm, self.inexact || d2.inexact, ret),
{
    self.add_sub(d2, p, -1, rm, false)
}
%% fn num.rs|impl BigFloatNumber|add_full_prec
pub fn add_full_prec(&self, d2: &Self) -> (ret: Result<Self, Error>)
@    requires self.wf(), d2.wf(),
@    ensures exres(iabs(self.sv() + d2.sv()), kk(), isgn(self.sv() + d2.sv()), self.inexact || d2.inexact, ret),
{
    self.add_sub(d2, 0, 1, RoundingMode::None, true)
}
%% fn num.rs|impl BigFloatNumber|sub_full_prec
pub fn sub_full_prec(&self, d2: &Self) -> (ret: Result<Self, Error>)
@    requires self.wf(), d2.wf(),
@    ensures exres(iabs(self.sv() - d2.sv()), kk(), isgn(self.sv() - d2.sv()), self.inexact || d2.inexact, ret),
{
    self.add_sub(d2, 0, -1, RoundingMode::None, true)
}
