%% ghost
// ---- rounding of a natural number at a bit position: the oracle of this development
/// does the rounding mode move the magnitude q (dropped part r out of 2^n) away from zero?
pub open spec fn rnd_up(q: nat, r: nat, n: nat, rm: RoundingMode, pos: bool) -> bool {
    match rm {
        RoundingMode::None => false,
        RoundingMode::ToZero => false,
        RoundingMode::FromZero => r > 0,
        RoundingMode::Up => r > 0 && pos,
        RoundingMode::Down => r > 0 && !pos,
        RoundingMode::ToEven => 2 * r > pow2(n) || 2 * r == pow2(n) && q % 2 == 1,
        RoundingMode::ToOdd => 2 * r > pow2(n) || 2 * r == pow2(n) && q % 2 == 0,
    }
}
/// v / 2^n rounded to an integer
pub open spec fn rnd(v: nat, n: nat, rm: RoundingMode, pos: bool) -> nat {
    let q = v / pow2(n);
    (q + (if rnd_up(q, v % pow2(n), n, rm, pos) { 1nat } else { 0nat })) as nat
}
pub proof fn lemma_rnd_exact(v: nat, n: nat, rm: RoundingMode, pos: bool)
    requires v % pow2(n) == 0,
    ensures rnd(v, n, rm, pos) * pow2(n) == v, rnd(v, n, rm, pos) == v / pow2(n),
{
    lemma_pow2_pos(n);
    lemma_fundamental_div_mod(v as int, pow2(n) as int);
    assert(pow2(n) * (v / pow2(n)) == (v / pow2(n)) * pow2(n)) by(nonlinear_arith);
}
pub proof fn lemma_valr_max(s: Seq<u64>, lo: int, hi: int)
    requires lo <= hi, forall|j: int| lo <= j < hi ==> s[j] == 0xffff_ffff_ffff_ffff,
    ensures valr(s, lo, hi) + 1 == bp((hi - lo) as nat),
    decreases hi - lo,
{
    lemma_bp(0);
    if lo < hi {
        lemma_valr_max(s, lo, hi - 1);
        let k = (hi - 1 - lo) as nat;
        lemma_bp(k);
        assert((hi - lo) as nat == k + 1);
        assert(0xffff_ffff_ffff_ffff * bp(k) + bp(k) == bp(k) * base()) by(nonlinear_arith);
    }
}
/// zero / non-zero low part
pub proof fn lemma_rem_zero(s: Seq<u64>, i: int, t: nat)
    requires 0 <= i < s.len(), t <= 64,
    ensures val(s) % pow2((64 * i + t) as nat) == 0 <==> ((forall|j: int| 0 <= j < i ==> s[j] == 0) && s[i] as nat % pow2(t) == 0),
{
    lemma_low_part(s, i, t);
    let b = bp(i as nat); let m = s[i] as nat % pow2(t);
    lemma_bp(i as nat);
    if (forall|j: int| 0 <= j < i ==> s[j] == 0) && m == 0 { lemma_valr_zero(s, 0, i); assert(b * 0 == 0); }
    if valr(s, 0, i) + b * m == 0 {
        assert(m == 0) by(nonlinear_arith) requires b * m == 0, b > 0;
        lemma_valr_zero_rev(s, 0, i);
    }
}
/// clearing the low part
pub proof fn lemma_round_keep(m0: Seq<u64>, m1: Seq<u64>, i: int, t: nat)
    requires 0 <= i < m0.len(), m0.len() == m1.len(), t <= 64,
        forall|j: int| 0 <= j < i ==> m1[j] == 0, forall|j: int| i < j < m0.len() ==> m1[j] == m0[j],
        m1[i] == (m0[i] as nat / pow2(t)) * pow2(t),
    ensures val(m1) == (val(m0) / pow2((64 * i + t) as nat)) * pow2((64 * i + t) as nat),
{
    let l = m0.len() as int;
    lemma_low_part(m0, i, t);
    lemma_round_parts(m0, m1, i, i);
    lemma_pow2_64(); lemma_pow2_adds((64 - t) as nat, t);
    let q = m0[i] as nat / pow2(t); let h = valr(m0, i + 1, l); let b = bp(i as nat); let p = pow2(t); let r = pow2((64 - t) as nat);
    assert(b * (q * p + base() * h) == (q + r * h) * (b * p)) by(nonlinear_arith) requires r * p == base();
}
/// m1 has zeroes below k, its own word at k and the words of m0 above
proof fn lemma_round_parts(m0: Seq<u64>, m1: Seq<u64>, i: int, k: int)
    requires 0 <= i <= k < m0.len(), m0.len() == m1.len(),
        forall|j: int| 0 <= j < k ==> m1[j] == 0, forall|j: int| k < j < m0.len() ==> m1[j] == m0[j],
    ensures val(m1) == bp(k as nat) * (m1[k] as nat + base() * valr(m0, k + 1, m0.len() as int)),
{
    let l = m0.len() as int;
    lemma_valr_split(m1, 0, k, l);
    lemma_valr_zero(m1, 0, k);
    lemma_valr_first(m1, k, l);
    lemma_valr_ext(m1, k + 1, l, m0, k + 1);
}
pub proof fn lemma_round_inc(m0: Seq<u64>, m1: Seq<u64>, i: int, t: nat)
    requires 0 <= i < m0.len(), m0.len() == m1.len(), t <= 64,
        forall|j: int| 0 <= j < i ==> m1[j] == 0, forall|j: int| i < j < m0.len() ==> m1[j] == m0[j],
        m1[i] == (m0[i] as nat / pow2(t) + 1) * pow2(t),
    ensures val(m1) == (val(m0) / pow2((64 * i + t) as nat) + 1) * pow2((64 * i + t) as nat),
{
    let l = m0.len() as int;
    lemma_low_part(m0, i, t);
    lemma_round_parts(m0, m1, i, i);
    lemma_pow2_64(); lemma_pow2_adds((64 - t) as nat, t);
    let q = m0[i] as nat / pow2(t); let h = valr(m0, i + 1, l); let b = bp(i as nat); let p = pow2(t); let r = pow2((64 - t) as nat);
    assert(b * ((q + 1) * p + base() * h) == (q + r * h + 1) * (b * p)) by(nonlinear_arith) requires r * p == base();
}
pub proof fn lemma_round_carry(m0: Seq<u64>, m1: Seq<u64>, i: int, t: nat, k: int)
    requires 0 <= i < k < m0.len(), m0.len() == m1.len(), t <= 64,
        m0[i] as nat / pow2(t) + 1 == pow2((64 - t) as nat),
        forall|j: int| i < j < k ==> m0[j] == 0xffff_ffff_ffff_ffff,
        forall|j: int| 0 <= j < k ==> m1[j] == 0, forall|j: int| k < j < m0.len() ==> m1[j] == m0[j],
        m1[k] == m0[k] + 1,
    ensures val(m1) == (val(m0) / pow2((64 * i + t) as nat) + 1) * pow2((64 * i + t) as nat),
{
    let l = m0.len() as int;
    lemma_low_part(m0, i, t);
    lemma_round_parts(m0, m1, i, k);
    lemma_valr_split(m0, i + 1, k, l);
    lemma_valr_first(m0, k, l);
    lemma_valr_max(m0, i + 1, k);
    lemma_pow2_64(); lemma_pow2_adds((64 - t) as nat, t);
    lemma_bp_add((i + 1) as nat, (k - i - 1) as nat); lemma_bp(i as nat);
    let h = valr(m0, i + 1, l); let b = bp(i as nat); let p = pow2(t); let r = pow2((64 - t) as nat);
    let x = valr(m0, i + 1, k); let c = bp((k - i - 1) as nat); let hk = valr(m0, k + 1, l); let w = m0[k] as nat;
    assert(h + 1 == c * (w + 1 + base() * hk)) by(nonlinear_arith) requires h == x + c * (w + base() * hk), x + 1 == c;
    assert((r - 1 + r * h + 1) * (b * p) == (b * base()) * (h + 1)) by(nonlinear_arith) requires r * p == base();
    assert(bp(k as nat) == (b * base()) * c);
    assert(((b * base()) * c) * (w + 1 + base() * hk) == (b * base()) * (c * (w + 1 + base() * hk))) by(nonlinear_arith);
}
pub proof fn lemma_round_over(m0: Seq<u64>, i: int, t: nat)
    requires 0 <= i < m0.len(), t <= 64, m0[i] as nat / pow2(t) + 1 == pow2((64 - t) as nat),
        forall|j: int| i < j < m0.len() ==> m0[j] == 0xffff_ffff_ffff_ffff,
    ensures (val(m0) / pow2((64 * i + t) as nat) + 1) * pow2((64 * i + t) as nat) == bp(m0.len()),
{
    let l = m0.len() as int;
    lemma_low_part(m0, i, t);
    lemma_valr_max(m0, i + 1, l);
    lemma_pow2_64(); lemma_pow2_adds((64 - t) as nat, t);
    lemma_bp_add((i + 1) as nat, (l - i - 1) as nat); lemma_bp(i as nat);
    let h = valr(m0, i + 1, l); let b = bp(i as nat); let p = pow2(t); let r = pow2((64 - t) as nat);
    assert((r - 1 + r * h + 1) * (b * p) == (b * base()) * (h + 1)) by(nonlinear_arith) requires r * p == base();
}
/// the increment of the word at the rounding position does not carry
pub proof fn lemma_inc_word(a: u64, t: u64)
    requires t < 64,
    ensures a >> t == a as nat / pow2(t as nat),
        (a >> t) as u128 + 1 < (0x1_0000_0000_0000_0000u128 >> t) ==> (((a >> t) + 1) as u64) << t == (a as nat / pow2(t as nat) + 1) * pow2(t as nat),
        !((a >> t) as u128 + 1 < (0x1_0000_0000_0000_0000u128 >> t)) ==> a as nat / pow2(t as nat) + 1 == pow2((64 - t) as nat),
        (a >> t) << t == (a as nat / pow2(t as nat)) * pow2(t as nat),
        (a >> t) + 1 <= 0x1_0000_0000_0000_0000,
        (a >> t) as u128 + 1 < (0x1_0000_0000_0000_0000u128 >> t) ==> (a >> t) < 0xffff_ffff_ffff_ffff,
{
    lemma_word_shr(a, t);
    let m = 0xffff_ffff_ffff_ffffu64;
    lemma_word_shr(m, t);
    lemma_pow2_64(); lemma_pow2_adds((64 - t) as nat, t as nat); lemma_pow2_pos(t as nat); lemma_pow2_pos((64 - t) as nat);
    let p = pow2(t as nat); let r = pow2((64 - t) as nat);
    // MAX / p == r - 1
    assert(m as int == (r - 1) * p + (p - 1)) by(nonlinear_arith) requires r * p == base(), m == base() - 1;
    lemma_fundamental_div_mod_converse(m as int, p as int, r - 1, p - 1);
    assert(m >> t == r - 1);
    assert(((a >> t) as u128 + 1 < (0x1_0000_0000_0000_0000u128 >> t)) == ((a >> t) != (m >> t))) by(bit_vector) requires t < 64, m == 0xffff_ffff_ffff_ffffu64;
    assert((a >> t) <= (m >> t)) by(bit_vector) requires t < 64, m == 0xffff_ffff_ffff_ffffu64;
    lemma_word_shl(a >> t, t);
    lemma_small_mod((a >> t) as nat, r);
    if (a >> t) != (m >> t) {
        let x = ((a >> t) + 1) as u64;
        lemma_word_shl(x, t);
        lemma_small_mod(x as nat, r);
    }
}
/// shifting out the upper bits
pub proof fn lemma_low_bits(a: u64, t: u64)
    requires 0 < t < 64,
    ensures a << ((64 - t) as u64) == 0 <==> a as nat % pow2(t as nat) == 0,
{
    lemma_word_shl(a, (64 - t) as u64);
    lemma_pow2_pos((64 - t) as nat);
    assert((64 - (64 - t)) as nat == t as nat);
    let m = a as nat % pow2(t as nat); let p = pow2((64 - t) as nat);
    assert(m * p == 0 <==> m == 0) by(nonlinear_arith) requires p > 0, m >= 0;
}
/// a single bit
pub proof fn lemma_bit(a: u64, t: u64)
    requires t < 64,
    ensures (a >> t) & 1 == (a as nat / pow2(t as nat)) % 2, ((a >> t) & 1) & 1 == (a >> t) & 1, (a >> t) & 1 <= 1,
{
    lemma_word_shr(a, t);
    let x = a >> t;
    assert(x & 1 == x % 2 && (x & 1) & 1 == x & 1 && x & 1 <= 1) by(bit_vector);
}
/// the tie decision from the bit below the rounding position and the rest
pub proof fn lemma_tie(v: nat, n: nat)
    requires n > 0,
    ensures ({ let h = v / pow2((n - 1) as nat); let r1 = v % pow2((n - 1) as nat); let q = v / pow2(n); let r = v % pow2(n);
        &&& h / 2 == q
        &&& r == (h % 2) * pow2((n - 1) as nat) + r1
        &&& (r == 0 <==> r1 == 0 && h % 2 == 0)
        &&& (2 * r > pow2(n) <==> h % 2 == 1 && r1 > 0)
        &&& (2 * r == pow2(n) <==> h % 2 == 1 && r1 == 0) }),
{
    let k = (n - 1) as nat;
    lemma_pow2_pos(k); lemma_pow2_unfold(n);
    let p = pow2(k);
    assert(pow2(n) == 2 * p);
    let h = v / p; let r1 = v % p;
    lemma_fundamental_div_mod(v as int, p as int);
    lemma_mod_bound(v as int, p as int);
    let q = h / 2; let b = h % 2;
    assert(v == q * (2 * p) + (b * p + r1)) by(nonlinear_arith) requires v == p * h + r1, h == 2 * q + b;
    assert(b * p + r1 < 2 * p) by(nonlinear_arith) requires r1 < p, 0 <= b <= 1;
    lemma_fundamental_div_mod_converse(v as int, (2 * p) as int, q as int, (b * p + r1) as int);
    assert(b == 0 ==> b * p == 0); assert(b == 1 ==> b * p == p);
}
/// the words below i do not matter for the quotient
pub proof fn lemma_clear(m1: Seq<u64>, mm: Seq<u64>, i: int, t: nat)
    requires 0 <= i < m1.len(), mm.len() == m1.len(), t <= 64, forall|j: int| i <= j < m1.len() ==> m1[j] == mm[j],
    ensures val(m1) / pow2((64 * i + t) as nat) == val(mm) / pow2((64 * i + t) as nat),
{
    lemma_low_part(m1, i, t); lemma_low_part(mm, i, t);
    lemma_valr_ext(m1, i + 1, m1.len() as int, mm, i + 1);
}
pub open spec fn cleared(m: Seq<u64>, i: int) -> Seq<u64> { Seq::new(m.len(), |j: int| if j < i { 0u64 } else { m[j] }) }
/// v is q * 2^n, but for bits below the word of position n
pub open spec fn isq(v: nat, q: nat, n: nat, full: bool) -> bool { v / bp((n / 64) as nat) == q * pow2((n % 64) as nat) && (full ==> v == q * pow2(n)) }
proof fn lemma_isq(m1: Seq<u64>, q: nat, i: int, t: nat, full: bool)
    requires 0 <= i < m1.len(), t <= 64, val(cleared(m1, i)) == q * pow2((64 * i + t) as nat), full ==> forall|j: int| 0 <= j < i ==> m1[j] == 0, t == 64 ==> m1[i] == 0,
    ensures isq(val(m1), q, (64 * i + t) as nat, full),
{
    let n = (64 * i + t) as nat;
    let k = (n / 64) as int;
    let mm = cleared(m1, i);
    if full { assert(m1 =~= mm); }
    // the words from k on
    lemma_valr_split(m1, 0, k, m1.len() as int); lemma_valr_bound(m1, 0, k);
    lemma_valr_split(mm, 0, k, m1.len() as int); lemma_valr_zero(mm, 0, k);
    lemma_valr_ext(m1, k, m1.len() as int, mm, k);
    let h = valr(m1, k, m1.len() as int); let b = bp(k as nat);
    lemma_bp(k as nat);
    assert(b * h == h * b) by(nonlinear_arith);
    lemma_fundamental_div_mod_converse(val(m1) as int, b as int, h as int, valr(m1, 0, k) as int);
    lemma_pow2_adds((n % 64) as nat, (64 * k) as nat);
    assert(64 * k + n % 64 == n);
    let z = pow2((n % 64) as nat);
    assert(q * (z * b) == (q * z) * b) by(nonlinear_arith);
    assert(h * b == (q * z) * b);
    assert(h == q * z) by(nonlinear_arith) requires h * b == (q * z) * b, b > 0;
}
pub proof fn lemma_exit_keep(m0: Seq<u64>, m1: Seq<u64>, i: int, t: nat, full: bool)
    requires 0 <= i < m0.len(), m0.len() == m1.len(), t <= 64, full ==> forall|j: int| 0 <= j < i ==> m1[j] == 0,
        forall|j: int| i < j < m0.len() ==> m1[j] == m0[j],
        m1[i] == (m0[i] as nat / pow2(t)) * pow2(t), t == 64 ==> m1[i] == 0,
    ensures isq(val(m1), val(m0) / pow2((64 * i + t) as nat), (64 * i + t) as nat, full),
{
    lemma_round_keep(m0, cleared(m1, i), i, t);
    lemma_isq(m1, val(m0) / pow2((64 * i + t) as nat), i, t, full);
}
pub proof fn lemma_exit_inc(m0: Seq<u64>, m1: Seq<u64>, i: int, t: nat, full: bool)
    requires 0 <= i < m0.len(), m0.len() == m1.len(), t <= 64, full ==> forall|j: int| 0 <= j < i ==> m1[j] == 0,
        forall|j: int| i < j < m0.len() ==> m1[j] == m0[j],
        m1[i] == (m0[i] as nat / pow2(t) + 1) * pow2(t), t == 64 ==> m1[i] == 0,
    ensures isq(val(m1), val(m0) / pow2((64 * i + t) as nat) + 1, (64 * i + t) as nat, full),
{
    lemma_round_inc(m0, cleared(m1, i), i, t);
    lemma_isq(m1, val(m0) / pow2((64 * i + t) as nat) + 1, i, t, full);
}
pub proof fn lemma_exit_carry(m0: Seq<u64>, m1: Seq<u64>, i: int, t: nat, k: int, full: bool)
    requires 0 <= i < k < m0.len(), m0.len() == m1.len(), t <= 64, full ==> forall|j: int| 0 <= j < i ==> m1[j] == 0,
        m0[i] as nat / pow2(t) + 1 == pow2((64 - t) as nat),
        forall|j: int| i < j < k ==> m0[j] == 0xffff_ffff_ffff_ffff,
        forall|j: int| i <= j < k ==> m1[j] == 0, forall|j: int| k < j < m0.len() ==> m1[j] == m0[j],
        m1[k] == m0[k] + 1,
    ensures isq(val(m1), val(m0) / pow2((64 * i + t) as nat) + 1, (64 * i + t) as nat, full),
{
    lemma_round_carry(m0, cleared(m1, i), i, t, k);
    lemma_isq(m1, val(m0) / pow2((64 * i + t) as nat) + 1, i, t, full);
}
/// only the top bit
pub proof fn lemma_exit_over(m1: Seq<u64>, i: int, t: nat, full: bool)
    requires m1.len() > 0, 0 <= i < m1.len(), t <= 64, m1[m1.len() - 1] == 0x8000_0000_0000_0000, forall|j: int| i <= j < m1.len() - 1 ==> m1[j] == 0, full ==> forall|j: int| 0 <= j < m1.len() - 1 ==> m1[j] == 0, 64 * i + t < 64 * m1.len(),
    ensures isq(val(m1), pow2((64 * m1.len() - 1 - (64 * i + t)) as nat), (64 * i + t) as nat, full),
{
    let l = m1.len() as int;
    let mm = cleared(m1, i); let n = (64 * i + t) as nat;
    lemma_valr_zero(mm, 0, l - 1);
    lemma_pow2_64(); lemma_pow2_adds((64 * (l - 1)) as nat, 63);
    assert(0x8000_0000_0000_0000 * bp((l - 1) as nat) == bp((l - 1) as nat) * 0x8000_0000_0000_0000) by(nonlinear_arith);
    lemma_pow2_adds((64 * l - 1 - n) as nat, n);
    lemma_isq(m1, pow2((64 * l - 1 - n) as nat), i, t, full);
}
/// the low words are dropped
pub proof fn lemma_drop_low(s: Seq<u64>, t: Seq<u64>, k: int)
    requires 0 <= k <= s.len(), t =~= s.subrange(k, s.len() as int),
    ensures val(t) == val(s) / bp(k as nat),
{
    lemma_valr_ext(t, 0, t.len() as int, s, k);
    lemma_valr_split(s, 0, k, s.len() as int);
    lemma_valr_bound(s, 0, k);
    assert(bp(k as nat) * val(t) == val(t) * bp(k as nat)) by(nonlinear_arith);
    lemma_fundamental_div_mod_converse(val(s) as int, bp(k as nat) as int, val(t) as int, valr(s, 0, k) as int);
}
/// zero words are added at the low end
pub proof fn lemma_add_low(s: Seq<u64>, t: Seq<u64>, k: int)
    requires 0 <= k, t.len() == s.len() + k, forall|i: int| 0 <= i < k ==> t[i] == 0, forall|i: int| k <= i < t.len() ==> t[i] == s[i - k],
    ensures val(t) == val(s) * bp(k as nat),
{
    lemma_valr_split(t, 0, k, t.len() as int);
    lemma_valr_zero(t, 0, k);
    lemma_valr_ext(t, k, t.len() as int, s, 0);
    assert(bp(k as nat) * val(s) == val(s) * bp(k as nat)) by(nonlinear_arith);
}
pub proof fn lemma_bl_shr(v: nat, n: nat, k: nat)
    requires isbl(v, n),
    ensures isbl(v / pow2(k), if n >= k { (n - k) as nat } else { 0 }),
{
    lemma_pow2_pos(k);
    let p = pow2(k);
    if n <= k {
        if n < k { lemma_pow2_strictly_increases(n, k); }
        if n == 0 { assert(v == 0); }
        lemma_basic_div(v as int, p as int);
    } else {
        lemma_pow2_adds((n - k - 1) as nat, k); lemma_pow2_adds((n - k) as nat, k);
        lemma_fundamental_div_mod(v as int, p as int); lemma_mod_bound(v as int, p as int);
        let q = v / p; let a = pow2((n - k - 1) as nat); let b = pow2((n - k) as nat); let r = v % p;
        assert(a <= q) by(nonlinear_arith) requires a * p <= v, v == p * q + r, r < p, p > 0;
        assert(q < b) by(nonlinear_arith) requires v < b * p, v == p * q + r, r >= 0, p > 0;
    }
}
pub proof fn lemma_bl_len(s: Seq<u64>, n: nat)
    requires isbl(val(s), n),
    ensures n <= 64 * s.len(),
{
    lemma_valr_bound(s, 0, s.len() as int);
    if n > 64 * s.len() { if n - 1 > 64 * s.len() { lemma_pow2_strictly_increases((64 * s.len()) as nat, (n - 1) as nat); } }
}
/// the zero words at the high end are dropped
pub proof fn lemma_drop_high(s: Seq<u64>, t: Seq<u64>, n: nat)
    requires isbl(val(s), n), n > 0, t.len() <= s.len(), t =~= s.subrange(0, t.len() as int), forall|i: int| t.len() <= i < s.len() ==> s[i] == 0, t.len() > 0 ==> s[t.len() - 1] != 0,
    ensures val(t) == val(s), t.len() == (n + 63) / 64,
{
    let k = t.len() as int;
    lemma_valr_ext(t, 0, k, s, 0);
    lemma_valr_split(s, 0, k, s.len() as int);
    lemma_valr_zero(s, k, s.len() as int);
    assert(bp(k as nat) * 0 == 0);
    lemma_pow2_pos((n - 1) as nat);
    lemma_bl_len(t, n);
    if k > 0 {
        lemma_valr_bound(s, 0, k - 1);
        let b = bp((k - 1) as nat); let w = s[k - 1] as nat;
        assert(w * b >= b) by(nonlinear_arith) requires w >= 1, b > 0;
        if n <= 64 * (k - 1) { if n < 64 * (k - 1) { lemma_pow2_strictly_increases(n, (64 * (k - 1)) as nat); } }
    }
}
pub proof fn lemma_shl_over(s: Seq<u64>, n: nat)
    ensures n >= 64 * s.len() ==> val(s) / pow2(n) == 0, 0 * pow2(n) == 0,
{
    lemma_valr_bound(s, 0, s.len() as int); lemma_pow2_pos(n);
    if n > 64 * s.len() { lemma_pow2_strictly_increases((64 * s.len()) as nat, n); }
    if n >= 64 * s.len() { lemma_basic_div(val(s) as int, pow2(n) as int); }
}
pub proof fn lemma_mask_left(m0: Seq<u64>, m1: Seq<u64>, i: int, n: u64, mask: u64)
    requires 0 <= i < m0.len(), m0.len() == m1.len(), n < 64, mask == 0xffff_ffff_ffff_ffffu64 >> n, m1[i] == m0[i] & mask,
        forall|j: int| 0 <= j < i ==> m1[j] == m0[j], forall|j: int| i < j < m0.len() ==> m1[j] == 0,
    ensures val(m1) == val(m0) % pow2((64 * (i + 1) - n) as nat),
{
    let l = m0.len() as int; let k = (64 - n) as nat; let a = m0[i];
    lemma_low_part(m0, i, k);
    lemma_valr_split(m1, 0, i, l); lemma_valr_first(m1, i, l); lemma_valr_zero(m1, i + 1, l); lemma_valr_ext(m1, 0, i, m0, 0);
    lemma_pow2_64();
    if n == 0 {
        assert(a & (0xffff_ffff_ffff_ffffu64 >> 0) == a) by(bit_vector);
        lemma_small_mod(a as nat, pow2(64));
    } else {
        let s = (64 - n) as u64;
        assert((a & (0xffff_ffff_ffff_ffffu64 >> n)) == sub(a, (a >> s) << s) && (a >> s) << s <= a) by(bit_vector) requires 0 < n < 64, s == 64 - n;
        lemma_inc_word(a, s);
        lemma_fundamental_div_mod(a as int, pow2(k) as int);
        assert(pow2(k) * (a as nat / pow2(k)) == (a as nat / pow2(k)) * pow2(k)) by(nonlinear_arith);
    }
    assert(64 * i + k == 64 * (i + 1) - n);
    assert(bp(i as nat) * (m1[i] as nat + base() * 0) == bp(i as nat) * (a as nat % pow2(k)));
}
pub proof fn lemma_mask_right(m0: Seq<u64>, m1: Seq<u64>, i: int, n: u64, mask: u64)
    requires 0 <= i < m0.len(), m0.len() == m1.len(), n < 64, mask == 0xffff_ffff_ffff_ffffu64 << n, m1[i] == m0[i] & mask,
        forall|j: int| 0 <= j < i ==> m1[j] == 0, forall|j: int| i < j < m0.len() ==> m1[j] == m0[j],
    ensures val(m1) == (val(m0) / pow2((64 * i + n) as nat)) * pow2((64 * i + n) as nat),
{
    let a = m0[i];
    assert(a & (0xffff_ffff_ffff_ffffu64 << n) == (a >> n) << n) by(bit_vector) requires n < 64;
    lemma_inc_word(a, n);
    lemma_round_keep(m0, m1, i, n as nat);
}
/// the bit at position n
pub proof fn lemma_odd_bit(s: Seq<u64>, n: int)
    requires 0 <= n < 64 * s.len(),
    ensures ((s[n / 64] >> ((n % 64) as u64)) & 1) == (val(s) / pow2(n as nat)) % 2, n == 0 ==> ((s[0] & 1) == val(s) % 2 && val(s) / pow2(0) == val(s)),
{
    let i = n / 64; let t = (n % 64) as nat;
    lemma_bit(s[i], t as u64);
    lemma_low_part(s, i, t);
    let hv = valr(s, i + 1, s.len() as int); let w = s[i] as nat / pow2(t); let pp = pow2((64 - t) as nat);
    lemma_pow2_unfold((64 - t) as nat); let pq = pow2((63 - t) as nat);
    assert(pp * hv == 2 * (pq * hv)) by(nonlinear_arith) requires pp == 2 * pq;
    let x = s[i];
    assert(x >> 0 == x) by(bit_vector);
    lemma_pow2_64();
    assert(val(s) / 1 == val(s)) by(nonlinear_arith);
}
/// equal above k
pub proof fn lemma_tail_same(s: Seq<u64>, t: Seq<u64>, k: int)
    requires 0 <= k <= s.len(), s.len() == t.len(), forall|j: int| k <= j < s.len() ==> t[j] == s[j],
    ensures val(t) + valr(s, 0, k) == val(s) + valr(t, 0, k),
{
    lemma_valr_split(s, 0, k, s.len() as int); lemma_valr_split(t, 0, k, s.len() as int);
    lemma_valr_ext(t, k, s.len() as int, s, k);
}
