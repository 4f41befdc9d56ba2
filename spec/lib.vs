%% ghost
global size_of usize == 8;
pub use vstd::arithmetic::power2::*;
pub use vstd::arithmetic::div_mod::*;
pub use vstd::arithmetic::mul::*;
pub use vstd::bits::*;

pub open spec fn base() -> int { 0x1_0000_0000_0000_0000 }
/// B^k
pub open spec fn bp(k: nat) -> nat { pow2((64 * k) as nat) }
/// value of the words s[lo..hi]
pub open spec fn valr(s: Seq<u64>, lo: int, hi: int) -> nat
    decreases hi - lo,
{
    if hi <= lo { 0 } else { valr(s, lo, hi - 1) + s[hi - 1] as nat * bp((hi - 1 - lo) as nat) }
}
pub open spec fn val(s: Seq<u64>) -> nat { valr(s, 0, s.len() as int) }

pub proof fn lemma_bp(k: nat)
    ensures bp(0) == 1, bp(k + 1) == bp(k) * base(), bp(k) > 0,
{
    lemma2_to64();
    lemma2_to64_rest();
    lemma_pow2_adds((64 * k) as nat, 64);
    lemma_pow2_pos((64 * k) as nat);
    assert((64 * (k + 1)) as nat == (64 * k + 64) as nat);
}
pub proof fn lemma_bp_add(a: nat, b: nat)
    ensures bp(a + b) == bp(a) * bp(b), bp(a) > 0, bp(b) > 0,
{
    lemma_pow2_adds((64 * a) as nat, (64 * b) as nat);
    lemma_pow2_pos((64 * a) as nat);
    lemma_pow2_pos((64 * b) as nat);
    assert((64 * (a + b)) as nat == (64 * a + 64 * b) as nat);
}
pub proof fn lemma_pow2_64()
    ensures pow2(64) == base(), pow2(63) == 0x8000_0000_0000_0000, pow2(0) == 1, pow2(1) == 2,
{ lemma2_to64(); lemma2_to64_rest(); }

/// the value of a window depends on its words only
pub proof fn lemma_valr_ext(s: Seq<u64>, lo: int, hi: int, t: Seq<u64>, lo2: int)
    requires forall|j: int| lo <= j < hi ==> s[j] == t[j - lo + lo2],
    ensures valr(s, lo, hi) == valr(t, lo2, lo2 + (hi - lo)),
    decreases hi - lo,
{
    if lo < hi { lemma_valr_ext(s, lo, hi - 1, t, lo2); }
}
pub proof fn lemma_valr_zero(s: Seq<u64>, lo: int, hi: int)
    requires forall|j: int| lo <= j < hi ==> s[j] == 0,
    ensures valr(s, lo, hi) == 0,
    decreases hi - lo,
{
    if lo < hi { lemma_valr_zero(s, lo, hi - 1); }
}
pub proof fn lemma_valr_zero_rev(s: Seq<u64>, lo: int, hi: int)
    requires valr(s, lo, hi) == 0,
    ensures forall|j: int| lo <= j < hi ==> s[j] == 0,
    decreases hi - lo,
{
    if lo < hi {
        let k = (hi - 1 - lo) as nat;
        lemma_bp(k);
        assert(s[hi - 1] as nat * bp(k) == 0);
        assert(s[hi - 1] == 0) by(nonlinear_arith) requires s[hi - 1] as nat * bp(k) == 0, bp(k) > 0;
        lemma_valr_zero_rev(s, lo, hi - 1);
    }
}
pub proof fn lemma_valr_bound(s: Seq<u64>, lo: int, hi: int)
    requires lo <= hi,
    ensures valr(s, lo, hi) < bp((hi - lo) as nat),
    decreases hi - lo,
{
    lemma_bp(0);
    if lo < hi {
        let k = (hi - 1 - lo) as nat;
        lemma_valr_bound(s, lo, hi - 1);
        lemma_bp(k);
        let w = s[hi - 1] as nat;
        assert(w + 1 <= base());
        assert((w + 1) * bp(k) <= base() * bp(k)) by(nonlinear_arith) requires w + 1 <= base(), bp(k) > 0;
        assert((w + 1) * bp(k) == w * bp(k) + bp(k)) by(nonlinear_arith);
        assert((hi - lo) as nat == k + 1);
        assert(base() * bp(k) == bp(k) * base()) by(nonlinear_arith);
    }
}
pub proof fn lemma_valr_split(s: Seq<u64>, lo: int, mid: int, hi: int)
    requires lo <= mid <= hi,
    ensures valr(s, lo, hi) == valr(s, lo, mid) + bp((mid - lo) as nat) * valr(s, mid, hi),
    decreases hi - mid,
{
    if mid < hi {
        lemma_valr_split(s, lo, mid, hi - 1);
        let a = (mid - lo) as nat;
        let b = (hi - 1 - mid) as nat;
        lemma_bp_add(a, b);
        assert((hi - 1 - lo) as nat == a + b);
        let w = s[hi - 1] as nat;
        let v = valr(s, mid, hi - 1);
        assert(bp(a) * (v + w * bp(b)) == bp(a) * v + w * (bp(a) * bp(b))) by(nonlinear_arith);
    } else {
        assert(valr(s, mid, hi) == 0);
    }
}
/// least significant word first
pub proof fn lemma_valr_first(s: Seq<u64>, lo: int, hi: int)
    requires lo < hi,
    ensures valr(s, lo, hi) == s[lo] as nat + base() * valr(s, lo + 1, hi),
{
    lemma_valr_split(s, lo, lo + 1, hi);
    lemma_bp(0);
    assert(valr(s, lo, lo) == 0);
    assert(valr(s, lo, lo + 1) == s[lo] as nat * bp(0));
    assert(bp(1) == base());
}
/// extensional equality of values
pub proof fn lemma_val_eq(s: Seq<u64>, t: Seq<u64>)
    requires s =~= t,
    ensures val(s) == val(t),
{}

// ---- bits of one word
pub proof fn lemma_word_shr(a: u64, s: u64)
    requires s < 64,
    ensures a >> s == a as nat / pow2(s as nat), pow2(s as nat) > 0,
{
    lemma_u64_shr_is_div(a, s);
    lemma_pow2_pos(s as nat);
}
pub proof fn lemma_word_shl(a: u64, s: u64)
    requires s < 64,
    ensures
        a << s == (a as nat % pow2((64 - s) as nat)) * pow2(s as nat),
        a << s == (a as nat * pow2(s as nat)) % (base() as nat),
        pow2(s as nat) > 0, pow2((64 - s) as nat) > 0, pow2(s as nat) * pow2((64 - s) as nat) == base(),
{
    lemma_pow2_64();
    lemma_pow2_pos(s as nat);
    lemma_pow2_pos((64 - s) as nat);
    lemma_pow2_adds(s as nat, (64 - s) as nat);
    let t = (64 - s) as nat;
    if s == 0 {
        assert(a << 0u64 == a) by(bit_vector);
        assert(a as nat % base() as nat == a as nat);
    } else {
        let hb = pow2(t);
        let mask = low_bits_mask(t) as u64;
        lemma_low_bits_mask_values();
        lemma_u64_low_bits_mask_is_mod(a, t);
        let lo = (a as nat % hb) as u64;
        let q = a as nat / hb;
        lemma_fundamental_div_mod(a as int, hb as int);
        lemma_u64_pow2_no_overflow(t);
        assert(lo < hb) by { lemma_mod_bound(a as int, hb as int); }
        assert(lo * pow2(s as nat) < base()) by(nonlinear_arith) requires 0 <= lo < hb, pow2(s as nat) * hb == base(), pow2(s as nat) > 0;
        lemma_u64_shl_is_mul(lo, s);
        assert(a & mask == lo);
        lemma_mask_shl(a, s, mask, t);
        assert(a as nat * pow2(s as nat) == q * base() + lo * pow2(s as nat)) by(nonlinear_arith)
            requires a as nat == hb * q + lo, pow2(s as nat) * hb == base();
        lemma_mod_multiples_vanish(q as int, (lo * pow2(s as nat)) as int, base());
        assert(base() * q == q * base()) by(nonlinear_arith);
        lemma_small_mod((lo * pow2(s as nat)) as nat, base() as nat);
    }
}
proof fn lemma_mask_shl(a: u64, s: u64, mask: u64, t: nat)
    requires 0 < s < 64, t == 64 - s, mask == low_bits_mask(t),
    ensures a << s == (a & mask) << s,
{
    // mask == (1 << t) - 1
    lemma_low_bits_mask_values();
    lemma_u64_pow2_no_overflow(t);
    lemma_u64_shl_is_mul(1, t as u64);
    let tt = t as u64;
    assert(mask == ((1u64 << tt) - 1) as u64);
    assert(a << s == (a & sub(1u64 << tt, 1)) << s) by(bit_vector) requires 0 < s < 64, tt == 64 - s;
}
/// two neighbouring words shifted right
pub proof fn lemma_word_merge(lo: u64, hi: u64, s: u64)
    requires 0 < s < 64,
    ensures (lo >> s) | (hi << ((64 - s) as u64)) == lo as nat / pow2(s as nat) + (hi as nat % pow2(s as nat)) * pow2((64 - s) as nat),
        (hi << ((64 - s) as u64)) | (lo >> s) == lo as nat / pow2(s as nat) + (hi as nat % pow2(s as nat)) * pow2((64 - s) as nat),
{
    lemma_word_shr(lo, s);
    let r = (64 - s) as u64;
    lemma_word_shl(hi, r);
    assert((64 - r) as nat == s as nat);
    assert((lo >> s) | (hi << r) == add(lo >> s, hi << r) && (hi << r) | (lo >> s) == add(lo >> s, hi << r) && (lo >> s) <= sub(0xffff_ffff_ffff_ffff, (hi << r))) by(bit_vector) requires 0 < s < 64, r == 64 - s;
}
/// (a + B*t) / 2^s in terms of words
pub proof fn lemma_shr_step(a: u64, b: u64, t: nat, s: nat)
    requires 0 < s < 64, t % (base() as nat) == b as nat,
    ensures (a as nat + base() * t) / (pow2(s) as int) == a as nat / pow2(s) + (b as nat % pow2(s)) * pow2((64 - s) as nat) + base() * (t / pow2(s)),
{
    lemma_pow2_64();
    let p = pow2(s);
    let r = pow2((64 - s) as nat);
    lemma_pow2_pos(s);
    lemma_pow2_pos((64 - s) as nat);
    lemma_pow2_adds(s, (64 - s) as nat);
    assert(p * r == base());
    // t = p * (t/p) + t % p ; t % p == b % p
    lemma_fundamental_div_mod(t as int, p as int);
    lemma_mod_mod(t as int, p as int, r as int);
    assert(t % p == b as nat % p);
    let q = t / p;
    let m = t % p;
    // B*t = p*(r*t)
    let x = (r * t) as int;
    assert(base() * t == p * x) by(nonlinear_arith) requires p * r == base(), x == r * t;
    lemma_hoist_over_denominator(a as int, x, p);
    assert(p * x + a as int == x * p + a as int) by(nonlinear_arith);
    assert((a as nat + base() * t) / (p as int) == a as int / (p as int) + x);
    assert(x == base() * q + m * r) by(nonlinear_arith) requires x == r * t, t == p * q + m, p * r == base();
}
pub proof fn lemma_valr_mod(s: Seq<u64>, lo: int, hi: int)
    requires lo < hi,
    ensures valr(s, lo, hi) % (base() as nat) == s[lo] as nat,
{
    lemma_valr_first(s, lo, hi);
    let v = valr(s, lo + 1, hi);
    lemma_mod_multiples_vanish(v as int, s[lo] as int, base());
    lemma_small_mod(s[lo] as nat, base() as nat);
}
/// words shifted right by s bits: t[k] combines s[k] and s[k+1]
pub proof fn lemma_shr_words(old: Seq<u64>, new: Seq<u64>, lo: int, hi: int, d: int, s: nat)
    requires
        0 <= lo < hi <= old.len(), 0 < s < 64,
        forall|j: int| lo <= j < hi - 1 ==> #[trigger] new[j - d] == old[j] as nat / pow2(s) + (old[j + 1] as nat % pow2(s)) * pow2((64 - s) as nat),
        new[hi - 1 - d] == old[hi - 1] as nat / pow2(s),
    ensures valr(new, lo - d, hi - d) == valr(old, lo, hi) / pow2(s),
    decreases hi - lo,
{
    lemma_pow2_pos(s);
    lemma_bp(0);
    lemma_valr_first(old, lo, hi);
    lemma_valr_first(new, lo - d, hi - d);
    if lo + 1 < hi {
        lemma_shr_words(old, new, lo + 1, hi, d, s);
        let t = valr(old, lo + 1, hi);
        lemma_valr_mod(old, lo + 1, hi);
        lemma_shr_step(old[lo], old[lo + 1], t, s);
        assert(new[lo - d] == old[lo] as nat / pow2(s) + (old[lo + 1] as nat % pow2(s)) * pow2((64 - s) as nat));
    } else {
        assert(valr(old, lo + 1, hi) == 0);
        assert(valr(new, lo - d + 1, hi - d) == 0);
    }
}
/// words shifted left by s bits: t[k] combines s[k] and s[k-1]; result modulo B^(hi-lo)
pub proof fn lemma_shl_words(old: Seq<u64>, new: Seq<u64>, lo: int, hi: int, d: int, s: nat)
    requires
        0 <= lo < hi, 0 < s < 64,
        new[lo + d] == (old[lo] as nat % pow2((64 - s) as nat)) * pow2(s),
        forall|j: int| lo < j < hi ==> #[trigger] new[j + d] == old[j - 1] as nat / pow2((64 - s) as nat) + (old[j] as nat % pow2((64 - s) as nat)) * pow2(s),
    ensures valr(new, lo + d, hi + d) + bp((hi - lo) as nat) * (old[hi - 1] as nat / pow2((64 - s) as nat)) == valr(old, lo, hi) * pow2(s),
    decreases hi - lo,
{
    lemma_pow2_64();
    let p = pow2(s);
    let r = pow2((64 - s) as nat);
    lemma_pow2_pos(s);
    lemma_pow2_pos((64 - s) as nat);
    lemma_pow2_adds(s, (64 - s) as nat);
    assert(p * r == base());
    let a = old[hi - 1] as nat;
    lemma_fundamental_div_mod(a as int, r as int);
    let q = a / r;
    let m = a % r;
    assert(a * p == q * base() + m * p) by(nonlinear_arith) requires a == r * q + m, p * r == base();
    let k = (hi - 1 - lo) as nat;
    lemma_bp(k);
    lemma_bp(0);
    if lo + 1 < hi {
        lemma_shl_words(old, new, lo, hi - 1, d, s);
        let q0 = old[hi - 2] as nat / r;
        let v = valr(old, lo, hi - 1);
        let w = valr(new, lo + d, hi - 1 + d);
        assert(new[(hi - 1) + d] as nat == q0 + m * p);
        assert(valr(new, lo + d, hi + d) == w + (q0 + m * p) * bp(k));
        assert(valr(old, lo, hi) == v + a * bp(k));
        assert(w + bp(k) * q0 == v * p);
        assert(w + (q0 + m * p) * bp(k) + bp(k) * base() * q == (v + a * bp(k)) * p) by(nonlinear_arith)
            requires w + bp(k) * q0 == v * p, a * p == q * base() + m * p;
        assert(bp((hi - lo) as nat) == bp(k) * base()) by { assert((hi - lo) as nat == k + 1); }
    } else {
        assert(valr(old, lo, hi) == a) by { assert(valr(old, lo, lo) == 0); assert(a * bp(0) == a) by(nonlinear_arith) requires bp(0) == 1; }
        assert(valr(new, lo + d, hi + d) == m * p) by { assert(valr(new, lo + d, lo + d) == 0); assert(new[lo + d] as nat * bp(0) == new[lo + d] as nat) by(nonlinear_arith) requires bp(0) == 1; }
        assert(bp(1) == base());
        assert(base() * q == q * base()) by(nonlinear_arith);
    }
}
// ---- whole-slice shifts
pub proof fn lemma_shl_all(s: Seq<u64>, n: nat)
    requires n >= 64 * s.len(),
    ensures (val(s) * pow2(n)) % bp(s.len()) == 0,
{
    let k = (n - 64 * s.len()) as nat;
    lemma_pow2_adds((64 * s.len()) as nat, k);
    lemma_bp(s.len());
    let v = val(s);
    assert(v * pow2(n) == (v * pow2(k)) * bp(s.len())) by(nonlinear_arith) requires pow2(n) == bp(s.len()) * pow2(k);
    lemma_mod_multiples_basic((v * pow2(k)) as int, bp(s.len()) as int);
}
pub proof fn lemma_shr_all(s: Seq<u64>, n: nat)
    requires n >= 64 * s.len(),
    ensures val(s) / pow2(n) == 0,
{
    let k = (n - 64 * s.len()) as nat;
    lemma_pow2_adds((64 * s.len()) as nat, k);
    lemma_pow2_pos(k);
    lemma_pow2_pos(n);
    lemma_valr_bound(s, 0, s.len() as int);
    assert(bp(s.len()) <= pow2(n)) by(nonlinear_arith) requires pow2(n) == bp(s.len()) * pow2(k), pow2(k) >= 1, bp(s.len()) >= 0;
    lemma_basic_div(val(s) as int, pow2(n) as int);
}
/// the words of a slice shifted left by n < 64 * len bits
pub proof fn lemma_shl_value(old: Seq<u64>, new: Seq<u64>, n: nat)
    requires
        old.len() == new.len(), n < 64 * old.len(),
        ({ let idx = n as int / 64; let s = (n as int % 64) as nat; let l = old.len() as int;
            &&& forall|j: int| 0 <= j < idx ==> new[j] == 0
            &&& s > 0 ==> new[idx] == (old[0] as nat % pow2((64 - s) as nat)) * pow2(s)
            &&& s > 0 ==> forall|j: int| idx < j < l ==> #[trigger] new[j] == old[j - idx - 1] as nat / pow2((64 - s) as nat) + (old[j - idx] as nat % pow2((64 - s) as nat)) * pow2(s)
            &&& s == 0 ==> forall|j: int| idx <= j < l ==> #[trigger] new[j] == old[j - idx] }),
    ensures val(new) == (val(old) * pow2(n)) % bp(old.len()),
{
    let idx = n as int / 64; let s = (n as int % 64) as nat; let l = old.len() as int;
    let h = l - idx;
    lemma_valr_split(new, 0, idx, l);
    lemma_valr_zero(new, 0, idx);
    lemma_valr_split(old, 0, h, l);
    lemma_bp_add(idx as nat, h as nat);
    lemma_pow2_pos(s);
    lemma_pow2_64();
    lemma_pow2_adds((64 * idx) as nat, s);
    assert(pow2(n) == bp(idx as nat) * pow2(s)) by { assert(n == 64 * idx + s); }
    let bi = bp(idx as nat);
    let bh = bp(h as nat);
    let lowv = valr(old, 0, h);
    let hiv = valr(old, h, l);
    let nv = valr(new, idx, l);
    let c: nat;
    if s > 0 {
        lemma_shl_words_at(old, new, idx, h, s);
        c = old[h - 1] as nat / pow2((64 - s) as nat);
        assert(nv + bh * c == lowv * pow2(s));
    } else {
        c = 0;
        lemma_valr_ext(new, idx, l, old, 0);
        assert(nv == lowv);
        assert(bh * 0 == 0 && lowv * 1 == lowv);
    }
    lemma_valr_bound(new, 0, l);
    assert(val(old) * pow2(n) == val(new) + (c + hiv * pow2(s)) * bp(l as nat)) by(nonlinear_arith)
        requires pow2(n) == bi * pow2(s), val(old) == lowv + bh * hiv, val(new) == bi * nv, nv + bh * c == lowv * pow2(s), bp(l as nat) == bi * bh;
    lemma_mod_multiples_vanish((c + hiv * pow2(s)) as int, val(new) as int, bp(l as nat) as int);
    assert(bp(l as nat) * (c + hiv * pow2(s)) == (c + hiv * pow2(s)) * bp(l as nat)) by(nonlinear_arith);
    lemma_small_mod(val(new), bp(l as nat));
}
proof fn lemma_shl_words_at(old: Seq<u64>, new: Seq<u64>, idx: int, h: int, s: nat)
    requires 0 < s < 64, 0 < h, 0 <= idx,
        new[idx] == (old[0] as nat % pow2((64 - s) as nat)) * pow2(s),
        forall|j: int| idx < j < idx + h ==> #[trigger] new[j] == old[j - idx - 1] as nat / pow2((64 - s) as nat) + (old[j - idx] as nat % pow2((64 - s) as nat)) * pow2(s),
    ensures valr(new, idx, h + idx) + bp(h as nat) * (old[h - 1] as nat / pow2((64 - s) as nat)) == valr(old, 0, h) * pow2(s),
{
    assert forall|j: int| 0 < j < h implies #[trigger] new[j + idx] == old[j - 1] as nat / pow2((64 - s) as nat) + (old[j] as nat % pow2((64 - s) as nat)) * pow2(s) by {
        let jj = j + idx;
        assert(new[jj] == old[jj - idx - 1] as nat / pow2((64 - s) as nat) + (old[jj - idx] as nat % pow2((64 - s) as nat)) * pow2(s));
    }
    lemma_shl_words(old, new, 0, h, idx, s);
}
pub proof fn lemma_shr_value(old: Seq<u64>, new: Seq<u64>, n: nat)
    requires
        old.len() == new.len(), n < 64 * old.len(),
        ({ let idx = n as int / 64; let s = (n as int % 64) as nat; let l = old.len() as int;
            &&& forall|j: int| l - idx <= j < l ==> new[j] == 0
            &&& s > 0 ==> new[l - 1 - idx] == old[l - 1] as nat / pow2(s)
            &&& s > 0 ==> forall|j: int| 0 <= j < l - 1 - idx ==> #[trigger] new[j] == old[j + idx] as nat / pow2(s) + (old[j + idx + 1] as nat % pow2(s)) * pow2((64 - s) as nat)
            &&& s == 0 ==> forall|j: int| 0 <= j < l - idx ==> #[trigger] new[j] == old[j + idx] }),
    ensures val(new) == val(old) / pow2(n),
{
    let idx = n as int / 64; let s = (n as int % 64) as nat; let l = old.len() as int;
    let h = l - idx;
    lemma_valr_split(new, 0, h, l);
    lemma_valr_zero(new, h, l);
    lemma_valr_split(old, 0, idx, l);
    lemma_valr_bound(old, 0, idx);
    lemma_pow2_pos(s);
    lemma_pow2_64();
    lemma_bp(idx as nat);
    lemma_pow2_adds((64 * idx) as nat, s);
    assert(pow2(n) == bp(idx as nat) * pow2(s)) by { assert(n == 64 * idx + s); }
    let bi = bp(idx as nat);
    let hv = valr(old, idx, l);
    if s > 0 {
        assert forall|j: int| idx <= j < l - 1 implies #[trigger] new[j - idx] == old[j] as nat / pow2(s) + (old[j + 1] as nat % pow2(s)) * pow2((64 - s) as nat) by {
            let jj = j - idx;
            assert(new[jj] == old[jj + idx] as nat / pow2(s) + (old[jj + idx + 1] as nat % pow2(s)) * pow2((64 - s) as nat));
        }
        lemma_shr_words(old, new, idx, l, idx, s);
        assert(valr(new, 0, h) == hv / pow2(s));
    } else {
        lemma_valr_ext(new, 0, h, old, idx);
        assert(hv / 1 == hv) by(nonlinear_arith);
    }
    assert(bp(h as nat) * valr(new, h, l) == 0) by { assert(bp(h as nat) * 0 == 0); }
    assert(val(new) == hv / pow2(s));
    // val(old) / (bi * 2^s) == (val(old)/bi)/2^s
    lemma_div_denominator(val(old) as int, bi as int, pow2(s) as int);
    let lv = valr(old, 0, idx);
    assert(val(old) == lv + bi * hv);
    assert(((lv + bi * hv) as int) / (bi as int) == hv) by {
        lemma_hoist_over_denominator(lv as int, hv as int, bi);
        lemma_basic_div(lv as int, bi as int);
        assert(hv * bi + lv == lv + bi * hv) by(nonlinear_arith);
    }
}
