%% ghost
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], value: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> cloned(value, #[trigger] final(s)@[i]);
/// `<[Word]>::copy_within(lo..hi, dest)`
#[verifier::external_body]
pub fn copy_within_words(m: &mut [u64], lo: usize, hi: usize, dest: usize)
    requires lo <= hi <= old(m)@.len(), dest + (hi - lo) <= old(m)@.len(),
    ensures final(m)@.len() == old(m)@.len(),
        forall|i: int| 0 <= i < old(m)@.len() ==> #[trigger] final(m)@[i] == (if dest <= i < dest + (hi - lo) { old(m)@[i - dest + lo] } else { old(m)@[i] }),
{ unimplemented!() }
pub open spec fn round_p_spec(p: usize) -> int {
    ((if p + 63 > usize::MAX { usize::MAX as int } else { p + 63 }) / 64) * 64
}
%% ext common/util.rs||add_carry
pub fn add_carry(a: Word, b: Word, c: Word, r: &mut Word) -> (ret: Word)
@    requires c <= 1,
@    ensures ret <= 1, *final(r) + ret * base() == a + b + c,
{
%% ext common/util.rs||sub_borrow
pub fn sub_borrow(a: Word, b: Word, c: Word, r: &mut Word) -> (ret: Word)
@    requires c <= 1,
@    ensures ret <= 1, *final(r) + b + c == a + ret * base(),
{
%% fn common/util.rs||shift_slice_left
pub fn shift_slice_left(m: &mut [Word], n: usize)
@    requires old(m)@.len() < 0x100_0000_0000_0000,
@    ensures final(m)@.len() == old(m)@.len(),
@        val(final(m)@) == (val(old(m)@) * pow2(n as nat)) % bp(old(m)@.len()),
@        n % 64 == 0 ==> forall|i: int| 0 <= i < old(m)@.len() ==> #[trigger] final(m)@[i] == (if i < n / 64 { 0u64 } else { old(m)@[i - n / 64] }),
{
@    let ghost m0 = m@;
@    proof { lemma_bp(m0.len()); lemma_pow2_pos(n as nat); }
    let idx = n / WORD_BIT_SIZE;
    let shift = n % WORD_BIT_SIZE;
    if idx >= m.len() {
        m.fill(0);
@        proof { lemma_valr_zero(m@, 0, m@.len() as int); lemma_shl_all(m0, n as nat); }
    } else if shift > 0 {
        let l = m.len() - 1;
        let end = 0usize;
        {
            let mut dst = end + l;
            let mut src = end + (l - idx);
            loop
@                invariant m@.len() == m0.len(), idx == n / 64, shift == n % 64, 0 < shift < 64, dst == src + idx, idx <= dst <= l, l == m0.len() - 1, end == 0,
@                    forall|j: int| 0 <= j <= dst ==> m@[j] == m0[j],
@                    forall|j: int| dst < j <= l ==> #[trigger] m@[j] == m0[j - idx - 1] as nat / pow2((64 - shift) as nat) + (m0[j - idx] as nat % pow2((64 - shift) as nat)) * pow2(shift as nat),
@                ensures src == 0, dst == idx,
@                decreases src,
            {
                if src > end {
                    let mut d = m[src] << shift;
                    src = src - 1;
                    d |= m[src] >> (WORD_BIT_SIZE - shift);
@                    proof { lemma_word_merge(m0[src as int], m0[src + 1], (64 - shift) as u64); assert((64 - (64 - shift)) as u64 == shift as u64); }
                    m[dst] = d;
                    dst = dst - 1;
                } else {
                    break;
                }
            }
            m[dst] = m[src] << shift;
@            proof { lemma_word_shl(m0[0], shift as u64); }
        }
@        let ghost m1 = m@;
        m[0..idx].fill(0);
@        proof { lemma_shl_value(m0, m@, n as nat); }
    } else if idx > 0 {
        let r = m.len() - idx;
        copy_within_words(m, 0, r, idx);
        m[..idx].fill(0);
@        proof { lemma_shl_value(m0, m@, n as nat); }
    }
@    else { proof { assert(n == 0); lemma_pow2_64(); assert(val(m0) * 1 == val(m0)); lemma_valr_bound(m0, 0, m0.len() as int); lemma_small_mod(val(m0), bp(m0.len())); } }
}
%% fn common/util.rs||shift_slice_right
pub fn shift_slice_right(m: &mut [Word], n: usize)
@    requires old(m)@.len() < 0x100_0000_0000_0000,
@    ensures final(m)@.len() == old(m)@.len(),
@        val(final(m)@) == val(old(m)@) / pow2(n as nat),
@        n % 64 == 0 ==> forall|i: int| 0 <= i < old(m)@.len() ==> #[trigger] final(m)@[i] == (if i + n / 64 < old(m)@.len() { old(m)@[i + n / 64] } else { 0u64 }),
{
@    let ghost m0 = m@;
@    proof { lemma_bp(m0.len()); lemma_pow2_pos(n as nat); }
    let idx = n / WORD_BIT_SIZE;
    let shift = n % WORD_BIT_SIZE;
    if idx >= m.len() {
        m.fill(0);
@        proof { lemma_valr_zero(m@, 0, m@.len() as int); lemma_shr_all(m0, n as nat); }
    } else if shift > 0 {
        let l = m.len();
        let mut dst = 0usize;
        {
            let end = dst + (l - 1);
            let mut src = dst + idx;
            loop
@                invariant m@.len() == m0.len(), idx == n / 64, shift == n % 64, 0 < shift < 64, src == dst + idx, idx <= src <= end, l == m0.len(), end == l - 1,
@                    forall|j: int| dst <= j < l ==> m@[j] == m0[j],
@                    forall|j: int| 0 <= j < dst ==> #[trigger] m@[j] == m0[j + idx] as nat / pow2(shift as nat) + (m0[j + idx + 1] as nat % pow2(shift as nat)) * pow2((64 - shift) as nat),
@                ensures src == end,
@                decreases end - src,
            {
                if src < end {
                    let mut d = m[src] >> shift;
                    src = src + 1;
                    d |= m[src] << (WORD_BIT_SIZE - shift);
@                    proof { lemma_word_merge(m0[src - 1], m0[src as int], shift as u64); }
                    m[dst] = d;
                    dst = dst + 1;
                } else {
                    break;
                }
            }
            m[dst] = m[src] >> shift;
@            proof { lemma_word_shr(m0[l - 1], shift as u64); }
        }
        m[l - idx..].fill(0);
@        proof { lemma_shr_value(m0, m@, n as nat); }
    } else if idx > 0 {
        let r = m.len() - idx;
        copy_within_words(m, idx, m.len(), 0);
        m[r..].fill(0);
@        proof { lemma_shr_value(m0, m@, n as nat); }
    }
@    else { proof { lemma_pow2_64(); assert(val(m0) / 1 == val(m0)) by(nonlinear_arith); } }
}
%% fn common/util.rs||round_p
pub fn round_p(p: usize) -> (ret: usize)
@    ensures ret == round_p_spec(p), ret % 64 == 0, p <= usize::MAX - 63 ==> p <= ret < p + 64,
{
    ((p.saturating_add(WORD_BIT_SIZE - 1)) / WORD_BIT_SIZE) * WORD_BIT_SIZE
}
%% fn common/util.rs||invert_rm_for_sign
pub fn invert_rm_for_sign(rm: RoundingMode) -> (ret: RoundingMode)
@    ensures ret == (match rm { RoundingMode::Up => RoundingMode::Down, RoundingMode::Down => RoundingMode::Up, x => x }),
{
    if rm == RoundingMode::Up {
        RoundingMode::Down
    } else if rm == RoundingMode::Down {
        RoundingMode::Up
    } else {
        rm
    }
}
%% ghost
/// v has exactly n significant bits
pub open spec fn isbl(v: nat, n: nat) -> bool { if n == 0 { v == 0 } else { pow2((n - 1) as nat) <= v && v < pow2(n) } }
pub proof fn lemma_bl_unique(v: nat, a: nat, b: nat)
    requires isbl(v, a), isbl(v, b),
    ensures a == b,
{
    lemma_pow2_pos(0);
    if a > 0 { lemma_pow2_pos((a - 1) as nat); }
    if b > 0 { lemma_pow2_pos((b - 1) as nat); }
    if a < b { if a < b - 1 { lemma_pow2_strictly_increases(a, (b - 1) as nat); } }
    if b < a { if b < a - 1 { lemma_pow2_strictly_increases(b, (a - 1) as nat); } }
}
/// shifting by k moves the length by k
pub proof fn lemma_bl_shl(v: nat, n: nat, k: nat)
    requires isbl(v, n), n > 0,
    ensures isbl(v * pow2(k), n + k), v * pow2(k) > 0,
{
    lemma_pow2_pos((n - 1) as nat);
    lemma_pow2_pos(k);
    lemma_pow2_adds((n - 1) as nat, k);
    lemma_pow2_adds(n, k);
    let a = pow2((n - 1) as nat); let b = pow2(n); let c = pow2(k);
    assert(a * c <= v * c && v * c < b * c && v * c > 0) by(nonlinear_arith) requires a <= v, v < b, c > 0, a > 0;
    assert((n + k - 1) as nat == (n - 1) as nat + k);
}
/// the converse
pub proof fn lemma_bl_unshl(v: nat, n: nat, k: nat)
    requires isbl(v * pow2(k), n), n > k,
    ensures isbl(v, (n - k) as nat), v > 0,
{
    lemma_pow2_pos(k);
    lemma_pow2_pos((n - 1) as nat);
    lemma_pow2_adds((n - 1 - k) as nat, k);
    lemma_pow2_adds((n - k) as nat, k);
    let a = pow2((n - 1 - k) as nat); let b = pow2((n - k) as nat); let c = pow2(k);
    assert(a <= v && v < b) by(nonlinear_arith) requires a * c <= v * c, v * c < b * c, c > 0;
    lemma_pow2_pos((n - 1 - k) as nat);
}
/// the most significant non-zero word determines the length
pub proof fn lemma_bl_top(s: Seq<u64>, i: int, w: nat, e: nat)
    requires 0 <= i, isbl(w, e), e > 0,
    ensures isbl(valr(s, 0, i) + bp(i as nat) * w, (64 * i + e) as nat),
{
    lemma_valr_bound(s, 0, i);
    lemma_bp(i as nat);
    lemma_pow2_adds((64 * i) as nat, (e - 1) as nat);
    lemma_pow2_adds((64 * i) as nat, e);
    assert((64 * i + (e - 1)) as nat == (64 * i + e - 1) as nat);
    let x = valr(s, 0, i); let b = bp(i as nat); let p = pow2((e - 1) as nat); let q = pow2(e);
    assert(b * p <= x + b * w && x + b * w < b * q) by(nonlinear_arith) requires x < b, p <= w, w < q, b > 0, x >= 0;
    assert((64 * i) as nat + (e - 1) as nat == (64 * i + e - 1) as nat);
    assert((64 * i) as nat + e == (64 * i + e) as nat);
}
/// one step of a normalisation loop over a word
pub proof fn lemma_shl1(d: u64)
    ensures d & 0x8000_0000_0000_0000 == 0 ==> d << 1 == 2 * d && d < 0x8000_0000_0000_0000,
        0x8000_0000_0000_0000 & d == d & 0x8000_0000_0000_0000,
        d & 0x8000_0000_0000_0000 != 0 ==> d >= 0x8000_0000_0000_0000,
        d < 0x8000_0000_0000_0000 ==> d << 1 == 2 * d,
{
    assert(d & 0x8000_0000_0000_0000 == 0 ==> d << 1 == mul(2, d) && d < 0x8000_0000_0000_0000) by(bit_vector);
    assert(d & 0x8000_0000_0000_0000 != 0 ==> d >= 0x8000_0000_0000_0000) by(bit_vector);
    assert(0x8000_0000_0000_0000 & d == d & 0x8000_0000_0000_0000) by(bit_vector);
    assert(d < 0x8000_0000_0000_0000 ==> d << 1 == mul(2, d)) by(bit_vector);
}
/// d is d0 shifted left by k without loss
pub open spec fn nsh(d0: u64, d: u64, k: int) -> bool { k >= 0 && d as nat == d0 as nat * pow2(k as nat) }
pub proof fn lemma_nsh0(d: u64)
    ensures nsh(d, d, 0),
{ lemma_pow2_64(); assert(d as nat * 1 == d as nat); }
pub proof fn lemma_nsh(d0: u64, d: u64, k: int)
    requires nsh(d0, d, k), d0 != 0,
    ensures d != 0, k < 64, nsh(d0, d0, 0),
        d < 0x8000_0000_0000_0000 ==> nsh(d0, (2 * d) as u64, k + 1) && k < 63,
        d >= 0x8000_0000_0000_0000 ==> isbl(d0 as nat, (64 - k) as nat),
{
    lemma_pow2_64();
    lemma_pow2_pos(k as nat);
    lemma_pow2_unfold((k + 1) as nat);
    let p = pow2(k as nat);
    assert(d0 as nat * p >= p) by(nonlinear_arith) requires d0 >= 1, p > 0;
    assert(d0 as nat * 1 == d0 as nat);
    assert(d0 as nat * (2 * p) == 2 * (d0 as nat * p)) by(nonlinear_arith);
    if k >= 64 { if k > 64 { lemma_pow2_strictly_increases(64, k as nat); } assert(false); }
    if k == 63 && d < 0x8000_0000_0000_0000 { assert(false); }
    if d >= 0x8000_0000_0000_0000 {
        assert(isbl(d as nat, 64));
        lemma_bl_unshl(d0 as nat, 64, k as nat);
    }
}
%% fn common/util.rs||log2_ceil
pub fn log2_ceil(mut n: usize) -> (ret: usize)
@    ensures n <= pow2(ret as nat), ret > 0 ==> pow2((ret - 1) as nat) < n, ret <= 64,
{
    let mut ret = 0;
    let mut sticky = 0;
@    let ghost n0 = n;
@    proof { lemma_pow2_64(); assert(n0 * 1 == n0); }
    while n > 1
@        invariant ret <= 63, n0 > 0 ==> n > 0, n * pow2(ret as nat) <= n0, n0 < (n + 1) * pow2(ret as nat), sticky == 0 || sticky == 1, sticky == 0 <==> n * pow2(ret as nat) == n0,
@            n0 == 0 ==> n == 0 && ret == 0,
@        decreases n,
    {
@        proof {
@            let n_ = n as u64;
@            assert(n_ & 1 == n_ % 2 && n_ >> 1u64 == n_ / 2) by(bit_vector);
@            assert(n & 1 == n % 2 && n >> 1usize == n / 2) by(bit_vector);
@            lemma_pow2_unfold((ret + 1) as nat); lemma_pow2_pos(ret as nat);
@            let p = pow2(ret as nat); let h = (n / 2) as nat;
@            assert((h * (2 * p) <= n * p) && (n + 1) * p <= (h + 1) * (2 * p) && (n % 2 == 0 ==> h * (2 * p) == n * p) && (n % 2 == 1 ==> h * (2 * p) < n * p)) by(nonlinear_arith) requires n == 2 * h + n % 2, 0 <= n % 2 <= 1, p > 0;
@            lemma_pow2_64();
@            if ret >= 63 { assert(n * p >= 2 * p) by(nonlinear_arith) requires n >= 2, p > 0; }
@        }
        if n & 1 != 0 {
            sticky = 1;
        }
        ret += 1;
        n >>= 1;
    }
@    proof { lemma_pow2_unfold((ret + 1) as nat); lemma_pow2_pos(ret as nat); assert((1 + 1) * pow2(ret as nat) == 2 * pow2(ret as nat)); assert((0 + 1) * pow2(ret as nat) == pow2(ret as nat)); assert(n0 == 0 || n == 1); if ret > 0 { lemma_pow2_unfold(ret as nat); lemma_pow2_pos((ret - 1) as nat); } if n0 == 0 { assert(0 * pow2(ret as nat) == 0); } else { assert(1 * pow2(ret as nat) == pow2(ret as nat)); } }
    ret + sticky
}
%% fn common/util.rs||log2_floor
pub fn log2_floor(mut n: usize) -> (ret: usize)
@    ensures n > 0 ==> pow2(ret as nat) <= n && n < pow2((ret + 1) as nat), ret < 64, n <= 1 ==> ret == 0,
{
    let mut ret = 0;
@    let ghost n0 = n;
@    proof { lemma_pow2_64(); assert(n0 * 1 == n0); }
    while n > 1
@        invariant ret <= 63, n0 > 0 ==> n > 0, n * pow2(ret as nat) <= n0, n0 < (n + 1) * pow2(ret as nat), n0 <= 1 ==> n == n0 && ret == 0,
@        decreases n,
    {
@        proof {
@            assert(n >> 1usize == n / 2) by(bit_vector);
@            lemma_pow2_unfold((ret + 1) as nat); lemma_pow2_pos(ret as nat);
@            let p = pow2(ret as nat); let h = (n / 2) as nat;
@            assert((h * (2 * p) <= n * p) && (n + 1) * p <= (h + 1) * (2 * p)) by(nonlinear_arith) requires n == 2 * h + n % 2, 0 <= n % 2 <= 1, p > 0;
@            lemma_pow2_64();
@            if ret >= 63 { assert(n * p >= 2 * p) by(nonlinear_arith) requires n >= 2, p > 0; }
@        }
        ret += 1;
        n >>= 1;
    }
@    proof { lemma_pow2_unfold((ret + 1) as nat); if n0 > 0 { assert(1 * pow2(ret as nat) == pow2(ret as nat)); assert((1 + 1) * pow2(ret as nat) == 2 * pow2(ret as nat)); } }
    ret
}
%% fn common/util.rs||find_one_from
pub fn find_one_from(slice: &[Word], start_pos: usize) -> (ret: Option<usize>)
@    requires slice@.len() <= maxw(),
@    ensures ({ let tot = 64 * slice@.len(); let x = if start_pos <= tot { val(slice@) % pow2((tot - start_pos) as nat) } else { 0 };
@        match ret { None => x == 0, Some(k) => start_pos <= k < tot && isbl(x, (tot - k) as nat) && x > 0 } }),
{
@    let ghost tot = 64 * slice@.len();
@    proof { lemma_pow2_64(); }
    let start_idx = start_pos / WORD_BIT_SIZE;
    if start_idx >= slice.len() {
@        proof { if start_pos == tot { lemma_pow2_64(); assert(val(slice@) % 1 == 0); } }
        None
    } else {
        let end_iter: usize = 0;
        let mut ix_iter: usize = if slice.len() - 0 >= start_idx {
            slice.len() - start_idx
        } else {
            0
        };
        if ix_iter > end_iter {
            ix_iter -= 1;
            let v = slice[ix_iter];
            let mut d = v;
            let start_bit = start_pos % WORD_BIT_SIZE;
            let mut shift = start_pos;
            d <<= start_bit;
@            let ghost i0 = ix_iter as int;
@            let ghost w = v as nat % pow2((64 - start_bit) as nat);
@            let ghost d0 = d;
@            let ghost x = val(slice@) % pow2((tot - start_pos) as nat);
@            proof {
@                lemma_word_shl(v, start_bit as u64);
@                lemma_low_part(slice@, i0, (64 - start_bit) as nat);
@                assert((64 * i0 + (64 - start_bit)) as nat == (tot - start_pos) as nat);
@                assert(x == valr(slice@, 0, i0) + bp(i0 as nat) * w);
@            }
            if d != 0 {
@                proof { lemma_nsh0(d); }
                while d & WORD_SIGNIFICANT_BIT == 0
@                    invariant d0 != 0, shift >= start_pos, nsh(d0, d, shift - start_pos), start_pos <= tot <= 64 * maxw(),
@                    decreases 0x1_0000_0000_0000_0000 - d,
                {
@                    proof { lemma_shl1(d); lemma_nsh(d0, d, shift - start_pos); }
                    d <<= 1;
                    shift += 1;
                }
@                proof {
@                    lemma_shl1(d); lemma_nsh(d0, d, shift - start_pos);
@                    let e = (64 - (shift - start_pos)) as nat;
@                    if e <= start_bit { lemma_pow2_adds(e, (start_bit - e) as nat); lemma_pow2_pos((start_bit - e) as nat); lemma_pow2_pos(e);
@                        assert(w == 0) by(nonlinear_arith) requires w * pow2(start_bit as nat) < pow2(e), pow2(start_bit as nat) == pow2(e) * pow2((start_bit - e) as nat), pow2((start_bit - e) as nat) >= 1, pow2(e) > 0, w >= 0; assert(0 * pow2(start_bit as nat) == 0); }
@                    lemma_bl_unshl(w, e, start_bit as nat);
@                    lemma_bl_top(slice@, i0, w, (e - start_bit) as nat);
@                    assert(64 * i0 + (e - start_bit) == tot - shift);
@                    lemma_pow2_pos((tot - shift - 1) as nat);
@                }
                return Some(shift);
            }
@            proof { lemma_pow2_pos(start_bit as nat); assert(w == 0) by(nonlinear_arith) requires w * pow2(start_bit as nat) == 0, pow2(start_bit as nat) > 0; assert(bp(i0 as nat) * 0 == 0); }
            shift += WORD_BIT_SIZE - start_bit;
            while ix_iter > end_iter
@                invariant end_iter == 0, ix_iter <= slice@.len() <= maxw(), tot == 64 * slice@.len(), start_pos <= shift, shift == tot - 64 * ix_iter,
@                    x == valr(slice@, 0, ix_iter as int), x == val(slice@) % pow2((tot - start_pos) as nat),
@                decreases ix_iter,
            {
                ix_iter -= 1;
                let v = slice[ix_iter];
                d = v;
@                let ghost s0 = shift as int;
                if d != 0 {
@                    proof { lemma_nsh0(d); }
                    while d & WORD_SIGNIFICANT_BIT == 0
@                        invariant v != 0, shift >= s0, nsh(v, d, shift - s0), s0 <= tot <= 64 * maxw(),
@                        decreases 0x1_0000_0000_0000_0000 - d,
                    {
@                        proof { lemma_shl1(d); lemma_nsh(v, d, shift - s0); }
                        d <<= 1;
                        shift += 1;
                    }
@                    proof {
@                        lemma_shl1(d); lemma_nsh(v, d, shift - s0);
@                        lemma_bl_top(slice@, ix_iter as int, v as nat, (64 - (shift - s0)) as nat);
@                        lemma_pow2_pos((tot - shift - 1) as nat);
@                        assert(v as nat * bp(ix_iter as nat) == bp(ix_iter as nat) * v as nat) by(nonlinear_arith);
@                    }
                    return Some(shift);
                }
@                proof { assert(0 * bp(ix_iter as nat) == 0); }
                shift += WORD_BIT_SIZE;
            }
        }
        None
    }
}
%% ghost
/// the lowest 64*i + k bits of a number
pub proof fn lemma_low_part(s: Seq<u64>, i: int, k: nat)
    requires 0 <= i < s.len(), k <= 64,
    ensures val(s) % pow2((64 * i + k) as nat) == valr(s, 0, i) + bp(i as nat) * (s[i] as nat % pow2(k)),
        val(s) / pow2((64 * i + k) as nat) == s[i] as nat / pow2(k) + pow2((64 - k) as nat) * valr(s, i + 1, s.len() as int),
        pow2((64 * i + k) as nat) == bp(i as nat) * pow2(k), pow2(k) > 0,
{
    lemma_pow2_64();
    lemma_valr_split(s, 0, i, s.len() as int);
    lemma_valr_first(s, i, s.len() as int);
    lemma_valr_bound(s, 0, i);
    lemma_pow2_adds((64 * i) as nat, k);
    lemma_pow2_adds((64 - k) as nat, k);
    lemma_pow2_pos(k); lemma_bp(i as nat);
    let w = s[i] as nat; let p = pow2(k); let r = pow2((64 - k) as nat); let h = valr(s, i + 1, s.len() as int); let b = bp(i as nat); let x = valr(s, 0, i);
    lemma_fundamental_div_mod(w as int, p as int);
    lemma_mod_bound(w as int, p as int);
    let q = w / p; let m = w % p;
    assert(val(s) == (q + r * h) * (b * p) + (x + b * m)) by(nonlinear_arith)
        requires val(s) == x + b * (w + base() * h), base() == r * p, w == p * q + m;
    assert(x + b * m < b * p) by(nonlinear_arith) requires x < b, m < p, m + 1 <= p, b > 0;
    lemma_fundamental_div_mod_converse(val(s) as int, (b * p) as int, (q + r * h) as int, (x + b * m) as int);
}
%% ghost
pub proof fn lemma_mask63(d: u64)
    ensures d & (0xffff_ffff_ffff_ffffu64 >> 1) == d as nat % pow2(63), d & 0x7fff_ffff_ffff_ffff == d as nat % pow2(63),
{ lemma_pow2_64(); assert(d & (0xffff_ffff_ffff_ffffu64 >> 1) == d % 0x8000_0000_0000_0000) by(bit_vector); assert(d & 0x7fff_ffff_ffff_ffff == d % 0x8000_0000_0000_0000) by(bit_vector); }
%% fn common/util.rs||count_leading_zeroes_skip_first
pub fn count_leading_zeroes_skip_first(m: &[Word]) -> (ret: usize)
@    requires 0 < m@.len() <= 0x20_0000_0000_0000,
@    ensures ret <= 64 * m@.len(), ret == 64 * m@.len() <==> val(m@) % pow2((64 * m@.len() - 1) as nat) == 0,
{
    let mut iter = WRev::new(&m, 0);
@let ghost l = m@.len() as int;
@proof { lemma_pow2_64(); lemma_rem_zero(m@, l - 1, 63); lemma_mask63(m@[l - 1]); }
    let mut w;
    let mut ret = 0;
    if let Some(v) = iter.next() {
        w = *v & (WORD_MAX >> 1);
        while w == 0
@    invariant_except_break ret == 64 * (l - 1 - iter.n), w == (if iter.n == l - 1 { (m@[l - 1] & 0x7fff_ffff_ffff_ffff) as u64 } else { m@[iter.n as int] }), iter.n < l, iter.n < l - 1 ==> m@[l - 1] & 0x7fff_ffff_ffff_ffff == 0,
@        forall|j: int| iter.n < j < l - 1 ==> m@[j] == 0,
@    invariant iter.n <= l,
@        iter.s@ == m@,
@        l == m@.len() <= 0x20_0000_0000_0000,
@    ensures w == 0 ==> ret == 64 * l && (forall|j: int| 0 <= j < l - 1 ==> m@[j] == 0) && m@[l - 1] & 0x7fff_ffff_ffff_ffff == 0,
@        w != 0 ==> ret <= 64 * (l - 1) && ((exists|j: int| 0 <= j < l - 1 && m@[j] != 0) || m@[l - 1] & 0x7fff_ffff_ffff_ffff != 0) && (ret == 64 * (l - 1) ==> (l > 1 ==> w == m@[0]) ),
@    decreases iter.n,
        {
            ret += WORD_BIT_SIZE;
            w = match iter.next() {
                Some(v) => *v,
                None => break,
            }
        }
        if w != 0 {
@let ghost w0 = w; let ghost r0 = ret as int;
@proof { lemma_nsh0(w); }
            while w & WORD_SIGNIFICANT_BIT == 0
@    invariant w0 != 0, nsh(w0, w, ret - r0), ret >= r0, ret - r0 < 64, r0 <= 64 * 0x20_0000_0000_0000,
@    decreases 0x1_0000_0000_0000_0000 - w,
            {
@proof { lemma_shl1(w); lemma_nsh(w0, w, ret - r0); }
                w <<= 1;
                ret += 1;
            }
        }
    }
    ret
}
