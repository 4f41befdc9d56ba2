%% ghost
use core::ops::{Deref, DerefMut};
/// Buffers never reach 2^53 words: the user part of the x86-64 address space is at most 2^56 bytes.
pub open spec fn maxw() -> int { 0x20_0000_0000_0000 }
/// `Vec::try_reserve` and friends: they change the capacity only
#[verifier::external_body]
pub fn vec_try_reserve(n: usize, v: &mut Vec<u64>) -> (r: Result<(), Error>)
    ensures final(v)@ == old(v)@, r is Ok ==> old(v)@.len() + n <= maxw() && vec_cap(*final(v)) >= old(v)@.len() + n,
        r is Err ==> r->Err_0 == Error::MemoryAllocation,
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_try_reserve_exact(n: usize, v: &mut Vec<u64>) -> (r: Result<(), Error>)
    ensures final(v)@ == old(v)@, r is Ok ==> old(v)@.len() + n <= maxw() && vec_cap(*final(v)) >= old(v)@.len() + n,
        r is Err ==> r->Err_0 == Error::MemoryAllocation,
{ unimplemented!() }
pub uninterp spec fn vec_cap(v: Vec<u64>) -> nat;
/// the words beyond the old length are arbitrary (uninitialised memory)
#[verifier::external_body]
pub fn vec_set_len(n: usize, v: &mut Vec<u64>)
    requires n <= vec_cap(*old(v)),
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n && i < old(v)@.len() ==> final(v)@[i] == old(v)@[i],
{ unimplemented!() }
/// an allocated buffer is shorter than the address space
#[verifier::external_body]
pub proof fn vec_bound(v: Vec<u64>) ensures v@.len() <= maxw() {}
#[verifier::external_body]
pub fn vec_capacity(v: &Vec<u64>) -> (r: usize)
    ensures r == vec_cap(*v), v@.len() <= r <= maxw(),
{ unimplemented!() }
/// subrange of values
pub proof fn lemma_val_sub(s: Seq<u64>, lo: int, hi: int)
    requires 0 <= lo <= hi <= s.len(),
    ensures val(s.subrange(lo, hi)) == valr(s, lo, hi),
{
    let t = s.subrange(lo, hi);
    lemma_valr_ext(t, 0, hi - lo, s, lo);
}
/// zero words at the high end
pub proof fn lemma_add_high(s: Seq<u64>, t: Seq<u64>)
    requires s.len() <= t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == (if i < s.len() { s[i] } else { 0u64 }),
    ensures val(t) == val(s),
{
    let k = s.len() as int;
    lemma_valr_ext(t, 0, k, s, 0);
    lemma_valr_split(t, 0, k, t.len() as int);
    lemma_valr_zero(t, k, t.len() as int);
    assert(bp(k as nat) * 0 == 0);
}
/// words above position l are shifted out
pub proof fn lemma_shift_out(s: Seq<u64>, t: Seq<u64>, d: nat)
    requires t.len() > s.len(), t[s.len() as int] == 0, forall|i: int| 0 <= i < s.len() ==> t[i] == s[i], d + 64 * (s.len() + 1) >= 64 * t.len(),
    ensures (val(t) * pow2(d)) % bp(t.len()) == (val(s) * pow2(d)) % bp(t.len()),
{
    let l = s.len() as int;
    let n = t.len() as int;
    lemma_valr_ext(t, 0, l, s, 0);
    lemma_valr_split(t, 0, l, n);
    lemma_valr_first(t, l, n);
    let x = valr(t, l + 1, n);
    lemma_bp(l as nat);
    lemma_bp(n as nat);
    let e = (d + 64 * (l + 1) - 64 * n) as nat;
    lemma_pow2_adds((64 * n) as nat, e);
    lemma_pow2_adds((64 * (l + 1)) as nat, d);
    assert(bp((l + 1) as nat) * pow2(d) == bp(n as nat) * pow2(e)) by { assert(64 * (l + 1) + d == 64 * n + e); }
    let a = val(s); let pl = bp(l as nat); let pn = bp(n as nat); let q = pow2(e); let pd = pow2(d);
    assert(val(t) == a + pl * (base() * x));
    assert(bp((l + 1) as nat) == pl * base());
    assert(val(t) * pd == a * pd + (x * q) * pn) by(nonlinear_arith)
        requires val(t) == a + pl * (base() * x), (pl * base()) * pd == pn * q;
    lemma_mod_multiples_vanish((x * q) as int, (a * pd) as int, pn as int);
    assert(pn * (x * q) == (x * q) * pn) by(nonlinear_arith);
}
/// iterators over words: `at(i)` is what the (i+1)-th call of `next` returns
pub trait WIt: Sized {
    type Item;
    spec fn at(&self, i: nat) -> Option<Self::Item>;
    /// number of items of a finite iterator
    spec fn left(&self) -> nat;
    spec fn wf(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf(),
        ensures final(self).wf(), r == old(self).at(0), forall|i: nat| #[trigger] final(self).at(i) == old(self).at(i + 1),
            final(self).left() == (if old(self).left() > 0 { (old(self).left() - 1) as nat } else { 0 });
}
/// `<[Word]>::iter().skip(k)`
pub struct WIter<'a> { pub s: &'a [u64], pub k: usize }
impl<'a> WIter<'a> {
    pub fn new(s: &'a [u64], skip: usize) -> (r: Self)
        ensures r.wf(), r.s@ == s@, r.k == (if skip <= s@.len() { skip } else { s@.len() as usize }), forall|i: nat| #[trigger] r.at(i) == (if skip + i < s@.len() { Some(&s@[skip + i]) } else { None }),
            r.left() == (if skip <= s@.len() { (s@.len() - skip) as nat } else { 0 }),
    { WIter { s, k: if skip <= s.len() { skip } else { s.len() } } }
    #[verifier::external_body]
    pub fn empty() -> (r: Self)
        ensures r.wf(), r.left() == 0, forall|i: nat| #[trigger] r.at(i) is None,
    { unimplemented!() }
}
impl<'a> WIt for WIter<'a> {
    type Item = &'a u64;
    open spec fn at(&self, i: nat) -> Option<&'a u64> { if self.k + i < self.s@.len() { Some(&self.s@[self.k + i]) } else { None } }
    open spec fn left(&self) -> nat { (self.s@.len() - self.k) as nat }
    open spec fn wf(&self) -> bool { self.k <= self.s@.len() }
    fn next(&mut self) -> (r: Option<&'a u64>)
        ensures final(self).s == old(self).s, final(self).k == (if old(self).k < old(self).s@.len() { old(self).k + 1 } else { old(self).k as int }),
    {
        if self.k < self.s.len() { let r = &self.s[self.k]; self.k += 1; Some(r) } else { None }
    }
}
/// `<[Word]>::iter().rev().skip(k).copied()`
pub struct WRevCopied<'a> { pub s: &'a [u64], pub n: usize }
impl<'a> WRevCopied<'a> {
    pub fn new(s: &'a [u64], skip: usize) -> (r: Self)
        ensures r.wf(), r.s@ == s@, r.n == (if skip <= s@.len() { s@.len() - skip } else { 0 }),
    { WRevCopied { s, n: if skip <= s.len() { s.len() - skip } else { 0 } } }
}
impl<'a> WIt for WRevCopied<'a> {
    type Item = u64;
    open spec fn at(&self, i: nat) -> Option<u64> { if i < self.n { Some(self.s@[self.n - 1 - i]) } else { None } }
    open spec fn left(&self) -> nat { self.n as nat }
    open spec fn wf(&self) -> bool { self.n <= self.s@.len() }
    fn next(&mut self) -> (r: Option<u64>) {
        if self.n > 0 { self.n -= 1; Some(self.s[self.n]) } else { None }
    }
}
/// `<[Word]>::iter().rev()`
pub struct WRev<'a> { pub s: &'a [u64], pub n: usize }
impl<'a> WRev<'a> {
    pub fn new(s: &'a [u64], skip: usize) -> (r: Self)
        ensures r.wf(), r.s@ == s@, r.n == (if skip <= s@.len() { s@.len() - skip } else { 0 }),
    { WRev { s, n: if skip <= s.len() { s.len() - skip } else { 0 } } }
}
impl<'a> WIt for WRev<'a> {
    type Item = &'a u64;
    open spec fn at(&self, i: nat) -> Option<&'a u64> { if i < self.n { Some(&self.s@[self.n - 1 - i]) } else { None } }
    open spec fn left(&self) -> nat { self.n as nat }
    open spec fn wf(&self) -> bool { self.n <= self.s@.len() }
    fn next(&mut self) -> (r: Option<&'a u64>)
        ensures final(self).s == old(self).s, final(self).n == (if old(self).n > 0 { old(self).n - 1 } else { 0 }), r is Some <==> old(self).n > 0, r is Some ==> *r->Some_0 == old(self).s@[old(self).n - 1],
    {
        if self.n > 0 { self.n -= 1; Some(&self.s[self.n]) } else { None }
    }
}
%% item common/buf.rs||WordBuf
%% fn common/buf.rs|impl Deref for WordBuf|deref
fn deref(&self) -> (ret: &[Word])
@    ensures ret@ == self.inner@,
{
    self.inner.deref()
}
%% fn common/buf.rs|impl DerefMut for WordBuf|deref_mut
fn deref_mut(&mut self) -> (ret: &mut [Word])
@    ensures ret@ == old(self).inner@, final(ret)@ == final(self).inner@,
{
    self.inner.deref_mut()
}
%% fn common/buf.rs|impl WordBuf|new
pub fn new(sz: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Ok ==> ret->Ok_0.inner@.len() == sz && sz <= maxw(), ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
{
    let mut inner = Vec::new();
    vec_try_reserve_exact(sz, &mut inner)?;
    {
        vec_set_len(sz, &mut inner);
    }
    Ok(WordBuf { inner })
}
%% fn common/buf.rs|impl WordBuf|fill
pub fn fill(&mut self, d: Word)
@    ensures final(self).inner@.len() == old(self).inner@.len(), forall|i: int| 0 <= i < old(self).inner@.len() ==> final(self).inner@[i] == d,
{
    self.inner.fill(d);
}
%% fn common/buf.rs|impl WordBuf|len
pub fn len(&self) -> (ret: usize)
@    ensures ret == self.inner@.len(),
{
    self.inner.len()
}
%% fn common/buf.rs|impl WordBuf|trunc_to
pub fn trunc_to(&mut self, l: usize)
@    requires l <= usize::MAX - 64, (l + 63) / 64 <= old(self).inner@.len() <= maxw(),
@    ensures final(self).inner@ =~= old(self).inner@.subrange(old(self).inner@.len() - (l + 63) / 64, old(self).inner@.len() as int),
{
    let n = (l + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE;
    let sz = self.len();
    shift_slice_right(&mut self.inner, (sz - n) * WORD_BIT_SIZE);
    self.inner.truncate(n);
}
%% fn common/buf.rs|impl WordBuf|trunc_to_2
pub fn trunc_to_2(&mut self, l: usize)
@    requires l <= usize::MAX - 64, (l + 63) / 64 <= old(self).inner@.len(),
@    ensures final(self).inner@ =~= old(self).inner@.subrange(0, ((l + 63) / 64) as int),
{
    let n = (l + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE;
    self.inner.truncate(n);
}
%% fn common/buf.rs|impl WordBuf|try_extend
pub fn try_extend(&mut self, p: usize) -> (ret: Result<(), Error>)
@    requires p <= usize::MAX - 64, (p + 63) / 64 >= old(self).inner@.len(),
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> final(self).inner@.len() == (p + 63) / 64 <= maxw()
@            && (forall|i: int| 0 <= i < (p + 63) / 64 - old(self).inner@.len() ==> final(self).inner@[i] == 0)
@            && (forall|i: int| (p + 63) / 64 - old(self).inner@.len() <= i < (p + 63) / 64 ==> #[trigger] final(self).inner@[i] == old(self).inner@[i - ((p + 63) / 64 - old(self).inner@.len())]),
{
    let n = (p + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE;
    let l = self.inner.len();
    vec_try_reserve(n - l, &mut self.inner)?;
    {
        vec_set_len(n, &mut self.inner);
    }
    shift_slice_left(&mut self.inner, (n - l) * WORD_BIT_SIZE);
    Ok(())
}
%% fn common/buf.rs|impl WordBuf|try_extend_2
pub fn try_extend_2(&mut self, p: usize) -> (ret: Result<(), Error>)
@    requires p <= usize::MAX - 64,
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation && final(self).inner@ == old(self).inner@,
@        ret is Ok ==> final(self).inner@.len() == (if (p + 63) / 64 > old(self).inner@.len() { (p + 63) / 64 } else { old(self).inner@.len() as int })
@            && (forall|i: int| 0 <= i < final(self).inner@.len() ==> #[trigger] final(self).inner@[i] == (if i < old(self).inner@.len() { old(self).inner@[i] } else { 0u64 }))
@            && val(final(self).inner@) == val(old(self).inner@) && (old(self).inner@.len() <= maxw() ==> final(self).inner@.len() <= maxw()),
{
    let n = (p + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE;
    if n > vec_capacity(&self.inner) {
        vec_try_reserve(n - vec_capacity(&self.inner), &mut self.inner)?;
    }
    if n > self.inner.len() {
        self.inner.resize(n, 0);
    }
@    proof { lemma_add_high(old(self).inner@, self.inner@); vec_bound(self.inner); }
    Ok(())
}
%% fn common/buf.rs|impl WordBuf|try_extend_3
pub fn try_extend_3(&mut self, p: usize, d: usize) -> (ret: Result<(), Error>)
@    requires p <= usize::MAX - 64, (p + 63) / 64 > old(self).inner@.len(), d + 64 * (old(self).inner@.len() + 1) >= 64 * ((p + 63) / 64),
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> final(self).inner@.len() == (p + 63) / 64 <= maxw()
@            && val(final(self).inner@) == (val(old(self).inner@) * pow2(d as nat)) % bp(final(self).inner@.len()),
{
    let n = (p + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE;
    let l = self.inner.len();
    vec_try_reserve(n - l, &mut self.inner)?;
    {
        vec_set_len(n, &mut self.inner);
    }
    self.inner[l] = 0;
@    proof { lemma_shift_out(old(self).inner@, self.inner@, d as nat); }
    shift_slice_left(&mut self.inner, d);
    Ok(())
}
%% fn common/buf.rs|impl WordBuf|trunc_trailing_zeroes
pub fn trunc_trailing_zeroes(&mut self)
@    requires old(self).inner@.len() <= maxw(),
@    ensures ({ let k = old(self).inner@.len() - final(self).inner@.len();
@        &&& 0 <= k <= old(self).inner@.len()
@        &&& final(self).inner@ =~= old(self).inner@.subrange(k, old(self).inner@.len() as int)
@        &&& forall|i: int| 0 <= i < k ==> old(self).inner@[i] == 0
@        &&& k < old(self).inner@.len() ==> old(self).inner@[k] != 0 }),
{
    let mut n = 0;
    let mut ix_1: usize = 0;
    let end_2: usize = self.inner.len();
    while ix_1 < end_2
@        invariant_except_break n == ix_1,
@        invariant ix_1 <= end_2, end_2 == self.inner@.len(), self.inner@ == old(self).inner@, forall|i: int| 0 <= i < n ==> self.inner@[i] == 0,
@        ensures n <= end_2, n < end_2 ==> self.inner@[n as int] != 0,
@        decreases end_2 - ix_1,
    {
        let v = self.inner[ix_1];
        ix_1 += 1;
        if v == 0 {
            n += 1;
        } else {
            break;
        }
    }
    if n > 0 {
        let sz = self.len();
        shift_slice_right(&mut self.inner, n * WORD_BIT_SIZE);
        self.inner.truncate(sz - n);
    }
}
%% fn common/buf.rs|impl WordBuf|trunc_leading_zeroes
pub fn trunc_leading_zeroes(&mut self)
@    ensures ({ let k = final(self).inner@.len();
@        &&& 0 <= k <= old(self).inner@.len()
@        &&& final(self).inner@ =~= old(self).inner@.subrange(0, k as int)
@        &&& forall|i: int| k <= i < old(self).inner@.len() ==> old(self).inner@[i] == 0
@        &&& k > 0 ==> old(self).inner@[k - 1] != 0 }),
{
    let mut n = 0;
    let end_2: usize = 0;
    let mut ix_1: usize = self.inner.len();
    while ix_1 > end_2
@        invariant_except_break n == self.inner@.len() - ix_1,
@        invariant ix_1 <= self.inner@.len() <= usize::MAX, end_2 == 0, self.inner@ == old(self).inner@, forall|i: int| self.inner@.len() - n <= i < self.inner@.len() ==> self.inner@[i] == 0,
@        ensures n <= self.inner@.len(), n < self.inner@.len() ==> self.inner@[self.inner@.len() - 1 - n] != 0,
@        decreases ix_1,
    {
        ix_1 -= 1;
        let v = self.inner[ix_1];
        if v == 0 {
            n += 1;
        } else {
            break;
        }
    }
    if n > 0 {
        let sz = self.len();
        self.inner.truncate(sz - n);
    }
}
