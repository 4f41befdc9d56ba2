%% ghost
pub assume_specification<'a, T: Copy> [core::option::Option::<&T>::copied] (o: core::option::Option<&'a T>) -> (r: core::option::Option<T>)
    ensures o is None ==> r is None, o is Some ==> r == Some(*o->Some_0);
/// two neighbouring words shifted right by `bits`
pub open spec fn shr2(lo: u64, hi: u64, bits: usize) -> u64 {
    if bits == 0 { lo } else { ((hi as nat % pow2(bits as nat)) * pow2((64 - bits) as nat) + lo as nat / pow2(bits as nat)) as u64 }
}
pub open spec fn wz(s: Seq<u64>, k: int) -> u64 { if 0 <= k < s.len() { s[k] } else { 0 } }
/// the words of `s * B^e >> bits`, least significant first
pub open spec fn rs_at(s: Seq<u64>, bits: usize, e: int, i: int) -> u64 {
    if i + 1 < e { 0 } else if i + 1 == e { shr2(0, wz(s, 0), bits) } else { shr2(wz(s, i - e), wz(s, i - e + 1), bits) }
}
pub proof fn lemma_shr2_val(lo: u64, hi: u64, bits: usize)
    requires 0 < bits < 64,
    ensures shr2(lo, hi, bits) == (hi as nat % pow2(bits as nat)) * pow2((64 - bits) as nat) + lo as nat / pow2(bits as nat),
        shr2(lo, hi, bits) == (hi << ((64 - bits) as u64)) | (lo >> (bits as u64)),
        hi == 0 ==> shr2(lo, hi, bits) == lo >> (bits as u64),
        lo == 0 ==> shr2(lo, hi, bits) == hi << ((64 - bits) as u64),
{
    lemma_word_merge(lo, hi, bits as u64);
    let b = bits as u64;
    assert(((0u64 << sub(64, b)) | (lo >> b)) == lo >> b) by(bit_vector) requires 0 < b < 64;
    assert(((hi << sub(64, b)) | (0u64 >> b)) == hi << sub(64, b)) by(bit_vector) requires 0 < b < 64;
}
/// value of the first `l` words
pub proof fn lemma_rs_value(s: Seq<u64>, bits: usize, e: int, t: Seq<u64>)
    requires 0 <= bits < 64, e >= 0, bits > 0 ==> e > 0, t.len() == s.len() + e,
        forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == rs_at(s, bits, e, i),
    ensures val(t) == val(s) * pow2((64 * e - bits) as nat),
{
    let l = t.len() as int;
    let old = Seq::new(l as nat, |i: int| wz(s, i));
    lemma_valr_ext(old, 0, s.len() as int, s, 0);
    lemma_valr_split(old, 0, s.len() as int, l);
    lemma_valr_zero(old, s.len() as int, l);
    assert(bp(s.len()) * 0 == 0);
    assert(val(old) == val(s));
    let n = (64 * e - bits) as nat;
    lemma_valr_bound(s, 0, s.len() as int);
    lemma_pow2_adds(n, bits as nat);
    lemma_pow2_pos(bits as nat); lemma_pow2_pos(n);
    lemma_bp_add(s.len(), e as nat);
    let v = val(s);
    assert(v * pow2(n) < bp(l as nat)) by(nonlinear_arith)
        requires v < bp(s.len()), pow2(n) * pow2(bits as nat) == bp(e as nat), bp(l as nat) == bp(s.len()) * bp(e as nat), pow2(bits as nat) >= 1, pow2(n) > 0;
    lemma_small_mod(v * pow2(n), bp(l as nat));
    if s.len() == 0 {
        assert forall|j: int| 0 <= j < l implies t[j] == 0 by { if bits > 0 { lemma_shr2_val(0, 0, bits); let b = bits as u64; assert(0u64 >> b == 0) by(bit_vector) requires b < 64; } }
        lemma_valr_zero(t, 0, l);
        assert(0 * pow2(n) == 0);
    } else if bits == 0 {
        assert(n as int / 64 == e && n as int % 64 == 0);
        assert forall|j: int| e <= j < l implies #[trigger] t[j] == old[j - e] by {}
        lemma_shl_value(old, t, n);
    } else {
        assert(n as int / 64 == e - 1 && n as int % 64 == 64 - bits);
        let s2 = (64 - bits) as nat;
        assert((64 - s2) as nat == bits as nat);
        assert forall|j: int| e - 1 < j < l implies #[trigger] t[j] == old[j - (e - 1) - 1] as nat / pow2((64 - s2) as nat) + (old[j - (e - 1)] as nat % pow2((64 - s2) as nat)) * pow2(s2) by {
            lemma_shr2_val(old[j - e], old[j - e + 1], bits);
            assert(t[j] == rs_at(s, bits, e, j));
        }
        lemma_shr2_val(0, old[0], bits);
        assert(t[e - 1] == rs_at(s, bits, e, e - 1));
        assert(0nat / pow2(bits as nat) == 0) by { lemma_pow2_pos(bits as nat); lemma_basic_div(0, pow2(bits as nat) as int); }
        lemma_shl_value(old, t, n);
    }
}
%% item mantissa/util.rs||ExtendedSlice
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(V)]
%% fn mantissa/util.rs|impl < T , V > ExtendedSlice < T , V > where V : WIt < Item = T > ,|new
pub fn new(s: V, extra: usize, default: T) -> (ret: Self)
@    requires s.wf(),
@    ensures ret.s == s, ret.extra == extra, ret.default == default,
{
    ExtendedSlice { s, extra, default }
}
%% implghost impl < T , V > WIt for ExtendedSlice < T , V > where V : WIt < Item = T > , T : Copy + Clone ,
open spec fn at(&self, i: nat) -> Option<T> { if i < self.extra { Some(self.default) } else { self.s.at((i - self.extra) as nat) } }
open spec fn left(&self) -> nat { self.extra as nat + self.s.left() }
open spec fn wf(&self) -> bool { self.s.wf() }
%% fn mantissa/util.rs|impl < T , V > WIt for ExtendedSlice < T , V > where V : WIt < Item = T > , T : Copy + Clone ,|next
fn next(&mut self) -> (ret: Option<Self::Item>)
{
    if self.extra > 0 {
        self.extra -= 1;
        Some(self.default)
    } else {
        self.s.next()
    }
}
%% item mantissa/util.rs||RightShiftedSlice
%% ghost
impl<'a> RightShiftedSlice<'a> {
    /// words not yet consumed
    pub open spec fn rest(&self) -> Seq<u64> {
        if self.prev is Some { Seq::new((1 + self.s.s@.len() - self.s.k) as nat, |i: int| if i == 0 { self.prev->Some_0 } else { self.s.s@[self.s.k + i - 1] }) } else { Seq::empty() }
    }
}
%% fn mantissa/util.rs|impl < 'a > RightShiftedSlice < 'a >|new
pub fn new(s: &'a [Word], shift: usize, default: Word, mut extend_sz: usize) -> (ret: Self)
@    requires default == 0, 64 * extend_sz >= shift,
@    ensures ret.wf(), forall|i: nat| #[trigger] ret.at(i) == Some(rs_at(s@, (shift % 64) as usize, extend_sz - shift / 64, i as int)),
{
    let elsz = 8usize * 8;
    let mut idx = shift / elsz;
    let bits = shift % elsz;
    if extend_sz > idx {
        extend_sz -= idx;
        idx = 0;
    } else {
        idx -= extend_sz;
        extend_sz = 0;
    }
    let mut prev = None;
@    proof { assert(idx == 0 || extend_sz == 0 && bits == 0 && idx == 0); }
    let iter = if idx < s.len() {
        let mut iter = WIter::new(&s[idx..], 0);
        prev = iter.next().copied();
        iter
    } else {
        WIter::empty()
    };
    RightShiftedSlice {
        s: iter,
        bits,
        prev,
        default,
        extend_sz,
    }
}
%% implghost impl < 'a > WIt for RightShiftedSlice < 'a >
open spec fn at(&self, i: nat) -> Option<Word> { Some(rs_at(self.rest(), self.bits, self.extend_sz as int, i as int)) }
open spec fn left(&self) -> nat { 0 }
open spec fn wf(&self) -> bool { self.s.wf() && self.bits < 64 && self.default == 0 && (self.prev is None ==> self.s.left() == 0) }
%% fn mantissa/util.rs|impl < 'a > WIt for RightShiftedSlice < 'a >|next
fn next(&mut self) -> (ret: Option<Self::Item>)
{
@    let ghost r0 = self.rest();
@    let ghost e0 = self.extend_sz as int;
@    proof {
@        if self.bits > 0 {
@            lemma_shr2_val(0, wz(r0, 0), self.bits); lemma_shr2_val(wz(r0, 0), wz(r0, 1), self.bits); lemma_shr2_val(0, 0, self.bits);
@            let b_ = self.bits as u64;
@            assert(0u64 >> b_ == 0) by(bit_vector) requires b_ < 64;
@        }
@        assert forall|i: nat| e0 > 0 implies #[trigger] rs_at(r0, self.bits, e0 - 1, i as int) == rs_at(r0, self.bits, e0, (i + 1) as int) by {}
@    }
    if self.extend_sz > 0 {
        self.extend_sz -= 1;
        if self.extend_sz == 0 && self.bits > 0 {
            if let Some(hi) = self.prev {
                Some(hi << (8usize * 8 - self.bits))
            } else {
                Some(self.default)
            }
        } else {
            Some(self.default)
        }
    } else if let Some(lo) = self.prev {
        self.prev = self.s.next().copied();
@        proof {
@            assert forall|k: int| 0 <= k implies #[trigger] wz(self.rest(), k) == wz(r0, k + 1) by {}
@            assert forall|i: nat| #[trigger] rs_at(self.rest(), self.bits, 0, i as int) == rs_at(r0, self.bits, 0, (i + 1) as int) by {
@                let j = i as int; assert(wz(self.rest(), j) == wz(r0, j + 1)); assert(wz(self.rest(), j + 1) == wz(r0, j + 2));
@            }
@        }
        if self.bits == 0 {
            Some(lo)
        } else if let Some(hi) = self.prev {
            Some((hi << (8usize * 8 - self.bits)) | (lo >> self.bits))
        } else {
            Some(lo >> self.bits)
        }
    } else {
        Some(self.default)
    }
}
%% item mantissa/util.rs||NormalizedView
#[verifier::reject_recursive_types(T)]
%% ext mantissa/util.rs|impl < T > NormalizedView < T > where T : WIt < Item = Word > ,|new
pub fn new(mut iter: T) -> (ret: Self)
@    requires iter.wf(),
@    ensures ret.wf(),
{
%% implghost impl < T > WIt for NormalizedView < T > where T : WIt < Item = Word > ,
uninterp spec fn at(&self, i: nat) -> Option<Word>;
uninterp spec fn left(&self) -> nat;
open spec fn wf(&self) -> bool { self.iter.wf() }
%% ext mantissa/util.rs|impl < T > WIt for NormalizedView < T > where T : WIt < Item = Word > ,|next
fn next(&mut self) -> (ret: Option<Self::Item>)
{
