%% item mantissa/mantissa.rs||Mantissa
%% ghost
impl Mantissa {
    pub open spec fn v(&self) -> nat { val(self.m.inner@) }
    pub open spec fn l(&self) -> nat { self.m.inner@.len() }
    /// a buffer of at least one word, `n` is the number of significant bits
    pub open spec fn wf(&self) -> bool { self.l() <= maxw() && isbl(self.v(), self.n as nat) }
    /// the most significant bit is set
    pub open spec fn normal(&self) -> bool { 0 < self.l() <= maxw() && self.n == 64 * self.l() && self.v() >= pow2((64 * self.l() - 1) as nat) }
    /// invariant of the words only
    pub open spec fn top(&self) -> bool { 0 < self.l() <= maxw() && self.v() >= pow2((64 * self.l() - 1) as nat) }
}
pub proof fn lemma_val_bound(s: Seq<u64>)
    ensures val(s) < pow2((64 * s.len()) as nat), val(s) < bp(s.len()),
{ lemma_valr_bound(s, 0, s.len() as int); }
pub open spec fn words_of(p: usize) -> int { (p + 63) / 64 }
%% fn mantissa/mantissa.rs|impl Mantissa|bit_len_to_word_len
pub fn bit_len_to_word_len(p: usize) -> (ret: usize)
@    requires p <= usize::MAX - 64,
@    ensures ret == words_of(p),
{
    (p + WORD_BIT_SIZE - 1) / 8usize / 8
}
%% fn mantissa/mantissa.rs|impl Mantissa|reserve_new
pub fn reserve_new(sz: usize) -> (ret: Result<WordBuf, Error>)
@    ensures ret is Ok ==> ret->Ok_0.inner@.len() == sz && sz <= maxw(), ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
{
    WordBuf::new(sz)
}
%% fn mantissa/mantissa.rs|impl Mantissa|new
pub fn new(p: usize) -> (ret: Result<Self, Error>)
@    requires p <= usize::MAX - 64,
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> ret->Ok_0.l() == words_of(p) <= maxw() && ret->Ok_0.n == 0 && ret->Ok_0.v() == 0 && forall|i: int| 0 <= i < words_of(p) ==> ret->Ok_0.m.inner@[i] == 0,
{
    let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
    m.fill(0);
@    proof { lemma_valr_zero(m.inner@, 0, m.inner@.len() as int); }
    Ok(Mantissa { m, n: 0 })
}
%% fn mantissa/mantissa.rs|impl Mantissa|oned_mantissa
pub fn oned_mantissa(p: usize) -> (ret: Result<Self, Error>)
@    requires p <= usize::MAX - 64,
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> ret->Ok_0.l() == words_of(p) && (p > 0 ==> ret->Ok_0.wf() && ret->Ok_0.normal()) && ret->Ok_0.v() + 1 == pow2((64 * words_of(p)) as nat),
{
    let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
    let n = WORD_BIT_SIZE * m.len();
    m.fill(WORD_MAX);
@    proof { lemma_valr_max(m.inner@, 0, m.inner@.len() as int); if n > 0 { lemma_pow2_unfold(n as nat); lemma_pow2_pos((n - 1) as nat); } else { lemma_pow2_64(); } }
    Ok(Mantissa { m, n })
}
%% fn mantissa/mantissa.rs|impl Mantissa|min
pub fn min(p: usize) -> (ret: Result<Self, Error>)
@    requires 0 < p <= usize::MAX - 64,
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> ret->Ok_0.l() == words_of(p) && ret->Ok_0.wf() && ret->Ok_0.n == 1 && ret->Ok_0.v() == 1,
{
    let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
    m.fill(0);
    m[0] = 1;
@    proof { lemma_valr_first(m.inner@, 0, m.inner@.len() as int); lemma_valr_zero(m.inner@, 1, m.inner@.len() as int); lemma_pow2_64(); }
    Ok(Mantissa { m, n: 1 })
}
%% fn mantissa/mantissa.rs|impl Mantissa|from_word
pub fn from_word(p: usize, mut d: Word) -> (ret: Result<Self, Error>)
@    requires p <= usize::MAX - 64,
@    ensures ret is Err ==> ret->Err_0 == (if p == 0 { Error::InvalidArgument } else { Error::MemoryAllocation }) || ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> p > 0 && ret->Ok_0.l() == words_of(p) <= maxw() && ret->Ok_0.n == 64 * words_of(p),
@        ret is Ok && d == 0 ==> ret->Ok_0.v() == 0,
@        ret is Ok && d != 0 ==> ret->Ok_0.wf() && ret->Ok_0.normal()
@            && exists|k: nat| k < 64 && isbl(d as nat, (64 - k) as nat) && #[trigger] (d as nat * pow2(k)) * pow2((64 * (words_of(p) - 1)) as nat) == ret->Ok_0.v(),
{
    let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
    if m.len() == 0 {
        return Err(Error::InvalidArgument);
    }
    m.fill(0);
    let l = m.len();
@    let ghost d0 = d;
@    let ghost mut k: int = 0;
@    proof { lemma_nsh0(d); }
    if d > 0 {
        while d & WORD_SIGNIFICANT_BIT == 0
@            invariant d0 != 0, nsh(d0, d, k), k >= 0,
@            decreases 0x1_0000_0000_0000_0000 - d,
        {
@            proof { lemma_shl1(d); lemma_nsh(d0, d, k); k = k + 1; }
            d <<= 1;
        }
@        proof { lemma_shl1(d); lemma_nsh(d0, d, k); }
    }
    m[l - 1] = d;
    let n = WORD_BIT_SIZE * m.len();
@    proof {
@        lemma_valr_zero(m.inner@, 0, l - 1);
@        assert(val(m.inner@) == d as nat * bp((l - 1) as nat));
@        assert(0 * bp((l - 1) as nat) == 0);
@        if d0 > 0 {
@            lemma_pow2_64(); assert(isbl(d as nat, 64)); lemma_bl_top(m.inner@, l - 1, d as nat, 64);
@            assert(bp((l - 1) as nat) * d as nat == d as nat * bp((l - 1) as nat)) by(nonlinear_arith);
@            assert((64 * (l - 1) + 64) as nat == n as nat);
@            assert((d0 as nat * pow2(k as nat)) * pow2((64 * (words_of(p) - 1)) as nat) == val(m.inner@));
@        }
@    }
    Ok(Mantissa { m, n })
}
%% fn mantissa/mantissa.rs|impl Mantissa|from_words
pub fn from_words(p: usize, w: &[Word]) -> (ret: Result<Self, Error>)
@    requires p <= usize::MAX - 64,
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation || ret->Err_0 == Error::InvalidArgument && words_of(p) < w@.len(),
@        ret is Ok ==> ret->Ok_0.l() == words_of(p) <= maxw() && words_of(p) >= w@.len() && isbl(ret->Ok_0.v(), ret->Ok_0.n as nat)
@            && ret->Ok_0.v() == val(w@) * pow2((64 * (words_of(p) - w@.len())) as nat)
@            && (forall|i: int| 0 <= i < w@.len() ==> #[trigger] ret->Ok_0.m.inner@[words_of(p) - w@.len() + i] == w@[i]),
{
    let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
    if m.len() < w.len() {
        return Err(Error::InvalidArgument);
    }
    let b = m.len() - w.len();
    (&mut m)[..b].fill(0);
    (&mut m)[b..].copy_from_slice(w);
@    proof { lemma_valr_split(m.inner@, 0, b as int, m.inner@.len() as int); lemma_valr_zero(m.inner@, 0, b as int); lemma_valr_ext(w@, 0, w@.len() as int, m.inner@, b as int);
@        assert(bp(b as nat) * val(w@) == val(w@) * bp(b as nat)) by(nonlinear_arith); }
    let n = Self::find_bit_len(&m);
    Ok(Mantissa { m, n })
}
%% fn mantissa/mantissa.rs|impl Mantissa|is_zero
pub fn is_zero(&self) -> (ret: bool)
@    ensures ret == (self.n == 0),
{
    self.n == 0
}
%% fn mantissa/mantissa.rs|impl Mantissa|set_zero
pub fn set_zero(&mut self)
@    ensures final(self).n == 0, final(self).l() == old(self).l(), final(self).v() == 0, isbl(final(self).v(), 0),
{
    self.m.fill(0);
@    proof { lemma_valr_zero(self.m.inner@, 0, self.m.inner@.len() as int); }
    self.n = 0;
}
%% fn mantissa/mantissa.rs|impl Mantissa|set_bit_len
pub fn set_bit_len(&mut self, n: usize)
@    ensures final(self).n == n, final(self).m == old(self).m,
{
    self.n = n;
}
%% fn mantissa/mantissa.rs|impl Mantissa|update_bit_len
pub fn update_bit_len(&mut self)
@    requires old(self).l() <= maxw(),
@    ensures final(self).m == old(self).m, isbl(final(self).v(), final(self).n as nat),
{
    let n = Self::find_bit_len(&self.m);
    self.n = n;
}
%% fn mantissa/mantissa.rs|impl Mantissa|shift_right
pub fn shift_right(&mut self, n: usize)
@    requires old(self).l() <= maxw(),
@    ensures final(self).n == old(self).n, final(self).l() == old(self).l(), final(self).v() == old(self).v() / pow2(n as nat),
{
    shift_slice_right(&mut self.m, n)
}
%% fn mantissa/mantissa.rs|impl Mantissa|shift_left
pub fn shift_left(&mut self, n: usize)
@    requires old(self).l() <= maxw(),
@    ensures final(self).n == old(self).n, final(self).l() == old(self).l(), final(self).v() == (old(self).v() * pow2(n as nat)) % bp(old(self).l()),
{
    shift_slice_left(&mut self.m, n)
}
%% fn mantissa/mantissa.rs|impl Mantissa|maximize
pub fn maximize(m: &mut [Word]) -> (ret: usize)
@    requires old(m)@.len() <= maxw(),
@    ensures final(m)@.len() == old(m)@.len(), ret <= 64 * old(m)@.len(),
@        val(old(m)@) == 0 ==> ret == 0 && final(m)@ == old(m)@,
@        val(old(m)@) != 0 ==> val(final(m)@) == val(old(m)@) * pow2(ret as nat) && isbl(val(final(m)@), (64 * old(m)@.len()) as nat) && isbl(val(old(m)@), (64 * old(m)@.len() - ret) as nat) && ret < 64 * old(m)@.len(),
{
    let mut shift = 0;
    let mut d = 0;
@    let ghost m0 = m@;
@    let ghost l = m@.len() as int;
    let end_2: usize = 0;
    let mut ix_1: usize = m.len();
    while ix_1 > end_2
@        invariant_except_break shift == 64 * (l - ix_1), d == 0,
@        invariant end_2 == 0, ix_1 <= l == m@.len() <= maxw(), m@ == m0, d == 0 ==> (forall|j: int| ix_1 <= j < l ==> m0[j] == 0),
@        ensures d != 0 ==> ix_1 < l && shift == 64 * (l - 1 - ix_1) && d == m0[ix_1 as int] && (forall|j: int| ix_1 < j < l ==> m0[j] == 0), d == 0 ==> (forall|j: int| 0 <= j < l ==> m0[j] == 0),
@        decreases ix_1,
    {
        ix_1 -= 1;
        let v = m[ix_1];
        d = v;
        if d != 0 {
            break;
        }
        shift += WORD_BIT_SIZE;
    }
    if d != 0 {
@        let ghost d0 = d;
@        let ghost s0 = shift as int;
@        proof { lemma_nsh0(d); }
        while WORD_SIGNIFICANT_BIT & d == 0
@            invariant d0 != 0, nsh(d0, d, shift - s0), shift >= s0, s0 <= 64 * maxw(),
@            decreases 0x1_0000_0000_0000_0000 - d,
        {
@            proof { lemma_shl1(d); lemma_nsh(d0, d, shift - s0); }
            d <<= 1;
            shift += 1;
        }
@        proof {
@            lemma_shl1(d); lemma_nsh(d0, d, shift - s0);
@            let i = ix_1 as int;
@            lemma_valr_split(m0, 0, i, l); lemma_valr_first(m0, i, l); lemma_valr_zero(m0, i + 1, l);
@            lemma_bl_top(m0, i, d0 as nat, (64 - (shift - s0)) as nat);
@            lemma_bl_shl(val(m0), (64 * l - shift) as nat, shift as nat);
@            lemma_small_mod(val(m0) * pow2(shift as nat), bp(l as nat));
@            lemma_pow2_pos((64 * l - shift - 1) as nat);
@            assert(val(m0) != 0);
@        }
        shift_slice_left(m, shift);
        shift
    } else {
@        proof { lemma_valr_zero(m0, 0, l); }
        0
    }
}
%% fn mantissa/mantissa.rs|impl Mantissa|find_one_from
pub fn find_one_from(&self, start_pos: usize) -> (ret: Option<usize>)
@    requires self.l() <= maxw(),
@    ensures ({ let tot = 64 * self.l(); let x = if start_pos <= tot { self.v() % pow2((tot - start_pos) as nat) } else { 0 };
@        match ret { None => x == 0, Some(k) => start_pos <= k < tot && isbl(x, (tot - k) as nat) && x > 0 } }),
{
    find_one_from(&self.m, start_pos)
}
%% fn mantissa/mantissa.rs|impl Mantissa|find_bit_len
pub fn find_bit_len(m: &[Word]) -> (ret: usize)
@    requires m@.len() <= maxw(),
@    ensures isbl(val(m@), ret as nat), ret <= 64 * m@.len(),
{
    let mut n = 0;
@    let ghost l = m@.len() as int;
    let end_2: usize = 0;
    let mut ix_1: usize = m.len();
    while ix_1 > end_2
@        invariant_except_break n == 64 * (l - ix_1), forall|j: int| ix_1 <= j < l ==> m@[j] == 0,
@        invariant end_2 == 0, ix_1 <= l == m@.len() <= maxw(),
@        ensures n <= 64 * l, isbl(val(m@), (64 * l - n) as nat) || n == 64 * l && (forall|j: int| 0 <= j < l ==> m@[j] == 0),
@        decreases ix_1,
    {
        ix_1 -= 1;
        let v = m[ix_1];
        if v != 0 {
            let mut v = v;
@            let ghost v0 = v;
@            let ghost s0 = n as int;
@            proof { lemma_nsh0(v); }
            while v & WORD_SIGNIFICANT_BIT == 0
@                invariant v0 != 0, nsh(v0, v, n - s0), n >= s0, s0 <= 64 * maxw(),
@                decreases 0x1_0000_0000_0000_0000 - v,
            {
@                proof { lemma_shl1(v); lemma_nsh(v0, v, n - s0); }
                n += 1;
                v <<= 1;
            }
@            proof {
@                lemma_shl1(v); lemma_nsh(v0, v, n - s0);
@                let i = ix_1 as int;
@                lemma_valr_split(m@, 0, i, l); lemma_valr_first(m@, i, l); lemma_valr_zero(m@, i + 1, l);
@                lemma_bl_top(m@, i, v0 as nat, (64 - (n - s0)) as nat);
@            }
            break;
        }
        n += WORD_BIT_SIZE;
    }
@    proof { if (forall|j: int| 0 <= j < l ==> m@[j] == 0) { lemma_valr_zero(m@, 0, l); } }
    m.len() * WORD_BIT_SIZE - n
}
%% fn mantissa/mantissa.rs|impl Mantissa|from_u64
pub fn from_u64(p: usize, u: u64) -> (ret: Result<(usize, Self), Error>)
@    requires p <= usize::MAX - 64,
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation || ret->Err_0 == Error::InvalidArgument && p == 0,
@        ret is Ok ==> p > 0 && ret->Ok_0.1.l() == words_of(p) <= maxw() && ret->Ok_0.1.n == 64 * words_of(p),
@        ret is Ok && u == 0 ==> ret->Ok_0.1.v() == 0 && ret->Ok_0.0 == 0,
@        ret is Ok && u != 0 ==> ret->Ok_0.1.wf() && ret->Ok_0.1.normal() && ret->Ok_0.0 < 64 && isbl(u as nat, (64 - ret->Ok_0.0) as nat)
@            && ret->Ok_0.1.v() == (u as nat * pow2(ret->Ok_0.0 as nat)) * pow2((64 * (words_of(p) - 1)) as nat),
{
    let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
    if m.len() < 8usize / 8usize {
        return Err(Error::InvalidArgument);
    }
    let nd = m.len() - 8usize / 8usize;
    m[..nd].fill(0);
    m[nd] = u;
@    let ghost m0 = m.inner@;
@    proof { lemma_one_top_word(m0, u); }
    let shift = Self::maximize(&mut m);
@    proof { if u != 0 { lemma_top_word_shift(m0, u, shift as nat); } }
    let mut ret = Mantissa { m, n: 0 };
    ret.n = ret.max_bit_len();
    Ok((shift, ret))
}
%% ghost
/// a single non-zero word on top
pub proof fn lemma_one_top_word(s: Seq<u64>, u: u64)
    requires s.len() > 0, s[s.len() - 1] == u, forall|j: int| 0 <= j < s.len() - 1 ==> s[j] == 0,
    ensures val(s) == u as nat * bp((s.len() - 1) as nat), val(s) == 0 <==> u == 0,
{
    lemma_valr_zero(s, 0, s.len() - 1);
    lemma_bp((s.len() - 1) as nat);
    let b = bp((s.len() - 1) as nat);
    assert(u as nat * b == 0 <==> u == 0) by(nonlinear_arith) requires b > 0;
}
pub proof fn lemma_top_word_shift(s: Seq<u64>, u: u64, k: nat)
    requires s.len() > 0, val(s) == u as nat * bp((s.len() - 1) as nat), u != 0, k < 64 * s.len(), isbl(val(s), (64 * s.len() - k) as nat),
    ensures k < 64, isbl(u as nat, (64 - k) as nat), val(s) * pow2(k) == (u as nat * pow2(k)) * pow2((64 * (s.len() - 1)) as nat),
{
    let b = bp((s.len() - 1) as nat);
    let c = (64 * (s.len() - 1)) as nat;
    lemma_pow2_pos(c); lemma_pow2_64();
    assert(u as nat * b >= b) by(nonlinear_arith) requires u >= 1, b > 0;
    if k >= 64 { lemma_pow2_strictly_increases_or_eq((64 * s.len() - k) as nat, c); assert(false); }
    lemma_bl_unshl(u as nat, (64 * s.len() - k) as nat, c);
    assert((u as nat * b) * pow2(k) == (u as nat * pow2(k)) * b) by(nonlinear_arith);
}
pub proof fn lemma_pow2_strictly_increases_or_eq(a: nat, b: nat)
    requires a <= b,
    ensures pow2(a) <= pow2(b),
{ if a < b { lemma_pow2_strictly_increases(a, b); } }
%% fn mantissa/mantissa.rs|impl Mantissa|from_usize
pub fn from_usize(u: usize) -> (ret: Result<(usize, Self), Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> ret->Ok_0.1.l() == 1,
@        ret is Ok && u == 0 ==> ret->Ok_0.1.v() == 0 && ret->Ok_0.0 == 0 && ret->Ok_0.1.wf() && ret->Ok_0.1.n == 0,
@        ret is Ok && u != 0 ==> ret->Ok_0.1.wf() && ret->Ok_0.1.normal() && ret->Ok_0.0 < 64 && isbl(u as nat, (64 - ret->Ok_0.0) as nat)
@            && ret->Ok_0.1.v() == u as nat * pow2(ret->Ok_0.0 as nat),
{
    let mut m;
@    proof { lemma_bp(0); }
    if u == 0 {
        m = Self::reserve_new(1)?;
        m[0] = 0 as Word;
@        proof { lemma_one_top_word(m.inner@, 0); }
        let ret = Mantissa { m, n: 0 };
        return Ok((0, ret));
    }
    m = Self::reserve_new(1)?;
    m[0] = u as Word;
@    let ghost m0 = m.inner@;
@    proof { lemma_one_top_word(m0, u as u64); assert(u as nat * 1 == u as nat); }
    let shift = Self::maximize(&mut m);
    let mut ret = Mantissa { m, n: 0 };
    ret.n = ret.max_bit_len();
    Ok((shift, ret))
}
%% fn mantissa/mantissa.rs|impl Mantissa|is_subnormal
pub fn is_subnormal(&self) -> (ret: bool)
@    requires self.l() <= maxw(),
@    ensures ret == (self.n < 64 * self.l()),
{
    self.n < self.max_bit_len()
}
%% fn mantissa/mantissa.rs|impl Mantissa|normilize
pub fn normilize(&self) -> (ret: Result<(usize, Self), Error>)
@    requires self.wf(),
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> ret->Ok_0.0 == 64 * self.l() - self.n && ret->Ok_0.1.l() == self.l(),
@        ret is Ok && self.n > 0 ==> ret->Ok_0.1.wf() && ret->Ok_0.1.normal() && ret->Ok_0.1.v() == self.v() * pow2(ret->Ok_0.0 as nat),
{
@    proof { lemma_wf_len(*self); }
    let shift = self.max_bit_len() - self.n;
    let mut m = self.clone()?;
@    proof { if self.n > 0 { lemma_bl_shl(self.v(), self.n as nat, shift as nat); lemma_small_mod(self.v() * pow2(shift as nat), bp(self.l())); } lemma_pow2_64(); assert(self.v() * 1 == self.v()); }
    if shift > 0 {
        shift_slice_left(&mut m.m, shift);
        m.n = self.max_bit_len();
    }
    Ok((shift, m))
}
%% ghost
pub proof fn lemma_wf_len(m: Mantissa)
    requires m.wf(),
    ensures m.n <= 64 * m.l(), (0 < m.n && m.n == 64 * m.l()) == m.normal(), m.v() == 0 <==> m.n == 0,
{
    lemma_val_bound(m.m.inner@);
    if m.n > 64 * m.l() {
        lemma_pow2_strictly_increases_or_eq((64 * m.l()) as nat, (m.n - 1) as nat);
        assert(false);
    }
    if m.n > 0 { lemma_pow2_pos((m.n - 1) as nat); }
}
%% fn mantissa/mantissa.rs|impl Mantissa|normilize2
pub fn normilize2(&mut self) -> (ret: usize)
@    requires 0 < old(self).l() <= maxw(), old(self).v() > 0,
@    ensures final(self).wf(), final(self).normal(), final(self).l() == old(self).l(), ret < 64 * old(self).l(), final(self).v() == old(self).v() * pow2(ret as nat), isbl(old(self).v(), (64 * old(self).l() - ret) as nat),
{
    self.n = self.max_bit_len();
    Self::maximize(&mut self.m)
}
%% fn mantissa/mantissa.rs|impl Mantissa|as_raw_parts
pub fn as_raw_parts(&self) -> (ret: (&[Word], usize))
@    ensures ret.0@ == self.m.inner@, ret.1 == self.n,
{
    (&self.m, self.n)
}
%% fn mantissa/mantissa.rs|impl Mantissa|from_raw_parts
pub fn from_raw_parts(m: &[Word], n: usize) -> (ret: Result<Self, Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> ret->Ok_0.m.inner@ =~= m@ && ret->Ok_0.n == n && m@.len() <= maxw(),
{
    let mut mm = Self::reserve_new(m.len())?;
    mm.copy_from_slice(m);
    Ok(Mantissa { m: mm, n })
}
%% fn mantissa/mantissa.rs|impl Mantissa|is_all_zero
pub fn is_all_zero(&self) -> (ret: bool)
@    ensures ret == (self.v() == 0),
{
    {
        let mut found_1 = true;
        let mut ix_2: usize = 0;
        let end_3: usize = self.m.len();
@        proof { if self.v() == 0 { lemma_valr_zero_rev(self.m.inner@, 0, self.l() as int); } }
        while ix_2 < end_3
@            invariant_except_break found_1,
@            invariant ix_2 <= end_3 == self.l(), found_1 ==> (forall|j: int| 0 <= j < ix_2 ==> self.m.inner@[j] == 0), self.v() == 0 ==> (forall|j: int| 0 <= j < end_3 ==> self.m.inner@[j] == 0),
@            ensures found_1 ==> ix_2 == end_3, !found_1 ==> exists|j: int| 0 <= j < end_3 && self.m.inner@[j] != 0,
@            decreases end_3 - ix_2,
        {
            let v = self.m[ix_2];
            ix_2 += 1;
            if !(v == 0) {
                found_1 = false;
                break;
            }
        }
@        proof { if found_1 { lemma_valr_zero(self.m.inner@, 0, self.l() as int); } }
        found_1
    }
}
%% fn mantissa/mantissa.rs|impl Mantissa|len
pub fn len(&self) -> (ret: usize)
@    ensures ret == self.l(),
{
    self.m.len()
}
%% fn mantissa/mantissa.rs|impl Mantissa|max_bit_len
pub fn max_bit_len(&self) -> (ret: usize)
@    requires self.l() <= maxw(),
@    ensures ret == 64 * self.l(),
{
    self.len() * WORD_BIT_SIZE
}
%% fn mantissa/mantissa.rs|impl Mantissa|most_significant_word
pub fn most_significant_word(&self) -> (ret: Word)
@    requires self.wf(),
@    ensures self.n == 0 ==> ret == 0, self.n > 0 ==> ret == self.m.inner@[(self.n - 1) / 64],
{
@    proof { lemma_wf_len(*self); }
    if self.n > 0 {
        self.m[(self.n - 1) / WORD_BIT_SIZE]
    } else {
        0
    }
}
%% fn mantissa/mantissa.rs|impl Mantissa|clone
pub fn clone(&self) -> (ret: Result<Self, Error>)
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation,
@        ret is Ok ==> ret->Ok_0.m.inner@ =~= self.m.inner@ && ret->Ok_0.n == self.n && self.l() <= maxw(),
{
    let mut m = Self::reserve_new(self.m.len())?;
    m.copy_from_slice(&self.m);
    Ok(Mantissa { m, n: self.n })
}
%% fn mantissa/mantissa.rs|impl Mantissa|digits
pub fn digits(&self) -> (ret: &[Word])
@    ensures ret@ == self.m.inner@,
{
    &self.m
}
%% fn mantissa/mantissa.rs|impl Mantissa|digits_mut
pub fn digits_mut(&mut self) -> (ret: &mut [Word])
@    ensures ret@ == old(self).m.inner@, final(ret)@ == final(self).m.inner@, final(self).n == old(self).n,
{
    &mut self.m
}
%% fn mantissa/mantissa.rs|impl Mantissa|bit_len
pub fn bit_len(&self) -> (ret: usize)
@    ensures ret == self.n,
{
    self.n
}
%% fn mantissa/mantissa.rs|impl Mantissa|from_word_buf
pub fn from_word_buf(m: WordBuf) -> (ret: Self)
@    requires m.inner@.len() <= maxw(),
@    ensures ret.m == m, isbl(ret.v(), ret.n as nat),
{
    let n = Self::find_bit_len(&m);
    Mantissa { m, n }
}
%% ghost
/// item i of an iterator over words, 0 behind the end
pub open spec fn zat<T: WIt<Item = u64>>(t: T, i: nat) -> u64 { match t.at(i) { Some(x) => x, None => 0 } }
pub open spec fn fin<T: WIt<Item = u64>>(t: T) -> bool { t.wf() && forall|i: nat| (#[trigger] t.at(i)) is Some <==> i < t.left() }
pub open spec fn same<T: WIt<Item = u64>>(a: T, b: T) -> bool { forall|i: nat| zat(a, i) == zat(b, i) }
/// first difference at item k
pub open spec fn diff_at<T: WIt<Item = u64>>(a: T, b: T, k: nat) -> bool { zat(a, k) != zat(b, k) && forall|i: nat| i < k ==> zat(a, i) == zat(b, i) }
%% fn mantissa/mantissa.rs|impl Mantissa|cmp_iters
@#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
pub fn cmp_iters<T>(mut iter1: T, mut iter2: T, n: usize) -> (ret: SignedWord)
where
    T: WIt<Item = Word>,
@    requires fin(iter1), fin(iter2), n == iter1.left() && n <= iter2.left() || n == iter2.left() && n <= iter1.left(), iter1.left() <= usize::MAX, iter2.left() <= usize::MAX,
@    ensures ret == 0 ==> same(iter1, iter2), -0x1_0000_0000_0000_0000 < ret < 0x1_0000_0000_0000_0000,
@        ret != 0 ==> exists|k: nat| #[trigger] diff_at(iter1, iter2, k) && (ret > 0 <==> zat(iter1, k) > zat(iter2, k)),
{
@    let ghost a0 = iter1;
@    let ghost b0 = iter2;
@    let ghost mut c: nat = 0;
    let mut left_1: usize = n;
    while left_1 > 0
@        invariant_except_break left_1 + c == n,
@        invariant c <= n, fin(a0), fin(b0), fin(iter1), fin(iter2), c + iter1.left() == a0.left(), c + iter2.left() == b0.left(), n <= a0.left(), n <= b0.left(),
@            forall|i: nat| #[trigger] iter1.at(i) == a0.at(i + c), forall|i: nat| #[trigger] iter2.at(i) == b0.at(i + c),
@            forall|i: nat| i < c ==> zat(a0, i) == zat(b0, i),
@        ensures c == n,
@        decreases left_1,
    {
        left_1 -= 1;
@        proof { assert(iter1.at(0) == a0.at(c)); assert(iter2.at(0) == b0.at(c)); assert(zat(a0, c) == iter1.at(0)->Some_0); assert(zat(b0, c) == iter2.at(0)->Some_0); assert(a0.at(c) is Some); assert(b0.at(c) is Some); }
        let a = match iter1.next() {
            Some(x_) => x_,
            None => break,
        };
        let b = match iter2.next() {
            Some(x_) => x_,
            None => break,
        };
        let diff = a as SignedWord - b as SignedWord;
        if diff != 0 {
@            proof { assert(a == zat(a0, c) && b == zat(b0, c)); assert(diff_at(a0, b0, c)); }
            return diff;
        }
@        proof {
@            c = c + 1;
@            assert forall|i: nat| #[trigger] iter1.at(i) == a0.at(i + c) by {}
@            assert forall|i: nat| #[trigger] iter2.at(i) == b0.at(i + c) by {}
@            assert forall|i: nat| (#[trigger] iter1.at(i)) is Some <==> i < iter1.left() by { assert(a0.at(i + c) is Some <==> i + c < a0.left()); }
@            assert forall|i: nat| (#[trigger] iter2.at(i)) is Some <==> i < iter2.left() by { assert(b0.at(i + c) is Some <==> i + c < b0.left()); }
@        }
    }
    loop
@        invariant fin(a0), fin(b0), fin(iter1), fin(iter2), c + iter1.left() == a0.left(), c >= b0.left() || c == a0.left(), n + iter2.left() == b0.left(), n <= c, c > n ==> n == b0.left(),
@            forall|i: nat| #[trigger] iter1.at(i) == a0.at(i + c), forall|i: nat| #[trigger] iter2.at(i) == b0.at(i + n as nat),
@            forall|i: nat| i < c ==> zat(a0, i) == zat(b0, i),
@        ensures c == a0.left(),
@        decreases iter1.left(),
    {
@        proof { assert(iter1.at(0) == a0.at(c)); assert(b0.at(c) is Some <==> c < b0.left()); assert(iter1.at(0) is Some <==> 0 < iter1.left()); }
        let v = match iter1.next() {
            Some(x_) => x_,
            None => break,
        };
@        proof { assert(zat(a0, c) == v); assert(zat(b0, c) == 0); }
        if v != 0 {
@            proof { assert(diff_at(a0, b0, c)); }
            return 1;
        }
@        proof {
@            c = c + 1;
@            assert forall|i: nat| #[trigger] iter1.at(i) == a0.at(i + c) by {}
@            assert forall|i: nat| (#[trigger] iter1.at(i)) is Some <==> i < iter1.left() by { assert(a0.at(i + c) is Some <==> i + c < a0.left()); }
@        }
    }
@    let ghost mut d: nat = n as nat;
    loop
@        invariant fin(a0), fin(b0), fin(iter2), d + iter2.left() == b0.left(), c == a0.left(), d <= b0.left(), n == a0.left() || n == b0.left(), n <= d, n <= c,
@            forall|i: nat| #[trigger] iter2.at(i) == b0.at(i + d),
@            forall|i: nat| i < c ==> zat(a0, i) == zat(b0, i), forall|i: nat| i < d ==> zat(a0, i) == zat(b0, i),
@        ensures d == b0.left(),
@        decreases iter2.left(),
    {
@        proof { assert(iter2.at(0) == b0.at(d)); assert(a0.at(d) is Some <==> d < a0.left()); assert(iter2.at(0) is Some <==> 0 < iter2.left()); }
        let v = match iter2.next() {
            Some(x_) => x_,
            None => break,
        };
@        proof { assert(zat(b0, d) == v); assert(zat(a0, d) == 0); }
        if v != 0 {
@            proof { assert(zat(a0, d) < zat(b0, d)); assert(diff_at(a0, b0, d)); }
            return -1;
        }
@        proof {
@            d = d + 1;
@            assert forall|i: nat| #[trigger] iter2.at(i) == b0.at(i + d) by {}
@            assert forall|i: nat| (#[trigger] iter2.at(i)) is Some <==> i < iter2.left() by { assert(b0.at(i + d) is Some <==> i + d < b0.left()); }
@        }
    }
@    proof { assert forall|i: nat| zat(a0, i) == zat(b0, i) by { assert(a0.at(i) is Some <==> i < a0.left()); assert(b0.at(i) is Some <==> i < b0.left()); } }
    0
}
%% ghost
/// lexicographic order of the words from the top is the order of the values
pub proof fn lemma_lex(a: Seq<u64>, b: Seq<u64>, k: int)
    requires
        forall|i: int| 0 <= i < k ==> topw(a, i) == topw(b, i), k >= 0, topw(a, k) > topw(b, k),
    ensures val(a) * bp(b.len()) > val(b) * bp(a.len()),
{
    // pad both to n words
    let n = if a.len() + b.len() > k { (a.len() + b.len() + 1) as int } else { k + 1 };
    let x = padlow(a, n); let y = padlow(b, n);
    lemma_padlow(a, n); lemma_padlow(b, n);
    let i = n - 1 - k;
    assert(x[i] > y[i]);
    lemma_valr_split(x, 0, i, n); lemma_valr_split(y, 0, i, n);
    lemma_valr_first(x, i, n); lemma_valr_first(y, i, n);
    assert forall|j: int| i + 1 <= j < n implies x[j] == y[j - (i + 1) + (i + 1)] by { assert(topw(a, n - 1 - j) == topw(b, n - 1 - j)); }
    lemma_valr_ext(x, i + 1, n, y, i + 1);
    lemma_valr_bound(y, 0, i);
    let h = valr(x, i + 1, n); let p = bp(i as nat); let xi = x[i] as nat; let yi = y[i] as nat; let xl = valr(x, 0, i); let yl = valr(y, 0, i);
    assert(val(x) > val(y)) by(nonlinear_arith) requires val(x) == xl + p * (xi + base() * h), val(y) == yl + p * (yi + base() * h), yl < p, xi >= yi + 1;
    // val(x) = val(a) * B^(n - la)
    let ca = (n - a.len()) as nat; let cb = (n - b.len()) as nat;
    lemma_bp_add(ca, a.len()); lemma_bp_add(cb, b.len());
    lemma_bp(a.len()); lemma_bp(b.len()); lemma_bp(ca); lemma_bp(cb);
    let va = val(a); let vb = val(b); let pa = bp(a.len()); let pb = bp(b.len()); let qa = bp(ca); let qb = bp(cb);
    assert(qa * pa == qb * pb);
    assert(va * pb > vb * pa) by(nonlinear_arith) requires va * qa > vb * qb, qa * pa == qb * pb, qa > 0, qb > 0, pa > 0, pb > 0;
}
pub proof fn lemma_lex_eq(a: Seq<u64>, b: Seq<u64>)
    requires forall|i: int| 0 <= i ==> topw(a, i) == topw(b, i),
    ensures val(a) * bp(b.len()) == val(b) * bp(a.len()),
{
    let n = (a.len() + b.len()) as int;
    lemma_padlow(a, n); lemma_padlow(b, n);
    assert(padlow(a, n) =~= padlow(b, n)) by { assert forall|j: int| 0 <= j < n implies padlow(a, n)[j] == padlow(b, n)[j] by { assert(topw(a, n - 1 - j) == topw(b, n - 1 - j)); } }
    assert((n - a.len()) as nat == b.len() && (n - b.len()) as nat == a.len());
}
pub open spec fn topw(a: Seq<u64>, i: int) -> u64 { if 0 <= i < a.len() { a[a.len() - 1 - i] } else { 0 } }
/// n words, the words of a on top
pub open spec fn padlow(a: Seq<u64>, n: int) -> Seq<u64> { Seq::new(n as nat, |j: int| topw(a, n - 1 - j)) }
pub proof fn lemma_padlow(a: Seq<u64>, n: int)
    requires n >= a.len(),
    ensures val(padlow(a, n)) == val(a) * bp((n - a.len()) as nat),
{
    let c = n - a.len();
    let x = padlow(a, n);
    lemma_valr_split(x, 0, c, n);
    lemma_valr_zero(x, 0, c);
    lemma_valr_ext(x, c, n, a, 0);
    assert(bp(c as nat) * val(a) == val(a) * bp(c as nat)) by(nonlinear_arith);
}
%% ghost
pub open spec fn revof<'a>(x: WRevCopied<'a>, p: Seq<u64>) -> bool { x.s@ == p && x.n == p.len() }
pub proof fn lemma_abs_cmp<'a>(p: Seq<u64>, q: Seq<u64>)
    ensures
        forall|x: WRevCopied<'a>| x.wf() && x.n == x.s@.len() ==> #[trigger] fin(x),
        forall|x: WRevCopied<'a>, y: WRevCopied<'a>| #![trigger same(x, y)] revof(x, p) && revof(y, q) && same(x, y) ==> val(p) * bp(q.len()) == val(q) * bp(p.len()),
        forall|x: WRevCopied<'a>, y: WRevCopied<'a>, k: nat| #![trigger diff_at(x, y, k)] revof(x, p) && revof(y, q) && diff_at(x, y, k) ==>
            (zat(x, k) > zat(y, k) ==> val(p) * bp(q.len()) > val(q) * bp(p.len())) && (zat(x, k) < zat(y, k) ==> val(p) * bp(q.len()) < val(q) * bp(p.len())),
{
    assert forall|x: WRevCopied<'a>, y: WRevCopied<'a>| #![trigger same(x, y)] revof(x, p) && revof(y, q) && same(x, y) implies val(p) * bp(q.len()) == val(q) * bp(p.len()) by {
        assert forall|i: int| 0 <= i implies topw(p, i) == topw(q, i) by { assert(zat(x, i as nat) == zat(y, i as nat)); }
        lemma_lex_eq(p, q);
    }
    assert forall|x: WRevCopied<'a>, y: WRevCopied<'a>, k: nat| #![trigger diff_at(x, y, k)] revof(x, p) && revof(y, q) && diff_at(x, y, k) implies
            (zat(x, k) > zat(y, k) ==> val(p) * bp(q.len()) > val(q) * bp(p.len())) && (zat(x, k) < zat(y, k) ==> val(p) * bp(q.len()) < val(q) * bp(p.len())) by {
        assert forall|i: int| 0 <= i < k implies topw(p, i) == topw(q, i) && topw(q, i) == topw(p, i) by { assert(zat(x, i as nat) == zat(y, i as nat)); }
        if zat(x, k) > zat(y, k) { lemma_lex(p, q, k as int); } else { lemma_lex(q, p, k as int); }
    }
}
%% fn mantissa/mantissa.rs|impl Mantissa|abs_cmp
pub fn abs_cmp(&self, m2: &Self, normalized: bool) -> (ret: SignedWord)
@    requires normalized, self.l() <= maxw(), m2.l() <= maxw(),
@    ensures ret == 0 <==> self.v() * bp(m2.l()) == m2.v() * bp(self.l()), ret > 0 <==> self.v() * bp(m2.l()) > m2.v() * bp(self.l()), -0x1_0000_0000_0000_0000 < ret < 0x1_0000_0000_0000_0000,
{
    let n = self.len().min(m2.len());
@    proof { let (a, b) = (self.m.inner@, m2.m.inner@); lemma_abs_cmp(a, b); }
    if normalized {
        Self::cmp_iters(WRevCopied::new(&self.m, 0), WRevCopied::new(&m2.m, 0), n)
    } else {
        Self::cmp_iters(
            NormalizedView::new(WRevCopied::new(&self.m, 0)),
            NormalizedView::new(WRevCopied::new(&m2.m, 0)),
            n,
        )
    }
}
%% fn mantissa/mantissa.rs|impl Mantissa|round_mantissa
@#[verifier::loop_isolation(false)]
@#[verifier::rlimit(300)]
@#[verifier::spinoff_prover]
pub fn round_mantissa(
    &mut self,
    n: usize,
    rm: RoundingMode,
    is_positive: bool,
    check_roundable: &mut bool,
    s: usize,
    inexact: &mut bool,
) -> (ret: bool)
@    requires 0 < old(self).l() <= maxw(), 0 < n < 64 * old(self).l() && rm != RoundingMode::None ==> s <= 64 * old(self).l() && n + s >= 64 * old(self).l(),
@    ensures final(self).l() == old(self).l(), final(self).n == old(self).n,
@        rm == RoundingMode::None || n == 0 || n >= 64 * old(self).l() ==> !ret && *final(self) == *old(self),
@        rm == RoundingMode::None ==> !*final(check_roundable) && *final(inexact) == (*old(inexact) || 0 < n < 64 * old(self).l() && old(self).v() % pow2(n as nat) != 0),
@        rm != RoundingMode::None && (n == 0 || n >= 64 * old(self).l()) ==> *final(inexact) == *old(inexact) && *final(check_roundable) == *old(check_roundable),
@        !*old(check_roundable) ==> !*final(check_roundable),
@        rm != RoundingMode::None && 0 < n < 64 * old(self).l() && !*final(check_roundable) ==> *final(inexact) == (*old(inexact) || old(self).v() % pow2(n as nat) != 0)
@            && (!ret ==> isq(final(self).v(), rnd(old(self).v(), n as nat, rm, is_positive), n as nat, !*old(check_roundable)))
@            && (ret ==> rnd(old(self).v(), n as nat, rm, is_positive) * pow2(n as nat) == bp(old(self).l()) && isq(final(self).v(), pow2((64 * old(self).l() - 1 - n) as nat), n as nat, !*old(check_roundable))),
{
@let ghost m0 = self.m.inner@; let ghost n00 = self.n; let ghost full = !*check_roundable;
@let ghost gn = n as nat; let ghost mut gi: int = 0; let ghost mut gt: nat = 0;
    if rm == RoundingMode::None {
        *check_roundable = false;
        if !(*inexact) && n > 0 && n < self.max_bit_len() {
            if self.find_one_from(self.max_bit_len() - n).is_some() {
                *inexact = true || *inexact;
            }
        }
        return false;
    }
    let self_len = self.m.len();
    if n > 0 && n < self.max_bit_len() {
        let mut i;
        let mut t;
        let mut c = false;
        let mut cc = (n - (self.max_bit_len() - s)) / WORD_BIT_SIZE;
        if rm == RoundingMode::ToEven || rm == RoundingMode::ToOdd {
            let n = n - 1;
            let mut rem_zero = true;
            let mut td = 0;
            let np1 = n + 1;
            i = n / WORD_BIT_SIZE;
            let mut z = i;
            t = n % WORD_BIT_SIZE;
            let ip1 = np1 / WORD_BIT_SIZE;
            let tp1 = np1 % WORD_BIT_SIZE;
@let ghost i1 = i as int; let ghost t1 = t as nat;
@proof { lemma_bit(m0[i1], t as u64); lemma_word_shr(m0[i1], t as u64); lemma_low_part(m0, i1, t1); lemma_tie(val(m0), gn); lemma_rem_zero(m0, i1, t1); if t > 0 { lemma_low_bits(m0[i1], t as u64); } else { lemma_pow2_64(); assert(m0[i1] as nat % 1 == 0); } }
            let num = (self.m[i] >> t) & 1;
            if t > 0 {
                let rb = self.m[i] << (WORD_BIT_SIZE - t);
                if rb != 0 {
                    rem_zero = false;
                    if *check_roundable {
                        let msk = rb & (WORD_MAX << (WORD_BIT_SIZE - t));
                        if msk == rb {
                            td = WORD_MAX;
                        } else if msk != 0 {
                            *check_roundable = false;
                        }
                    }
                }
            } else if *check_roundable && cc > 0 && z > 0 {
                z -= 1;
                if self.m[z] == WORD_MAX {
                    td = WORD_MAX;
                    rem_zero = false;
                } else if self.m[z] != 0 {
                    *check_roundable = false;
                    rem_zero = false;
                }
                cc -= 1;
            }
@proof { lemma_bit(m0[ip1 as int], tp1 as u64); lemma_low_part(m0, ip1 as int, tp1 as nat); }
            let nump1 = if ip1 < self_len {
                (self.m[ip1] >> tp1) & 1
            } else {
                0
            };
            let mut ix_1: usize = 0;
            let end_2: usize = n / WORD_BIT_SIZE;
            while ix_1 < end_2
@    invariant self.m.inner@.len() == m0.len(), self.n == n00, self_len == m0.len(), ix_1 <= end_2 == i, n < 64 * m0.len(), n == 64 * i + t, t < 64, m0.len() <= maxw(), n00 == old(self).n, np1 == n + 1,
@        forall|j: int| 0 <= j < ix_1 ==> self.m.inner@[j] == 0, forall|j: int| ix_1 <= j < m0.len() ==> self.m.inner@[j] == m0[j],
@        rem_zero ==> m0[i as int] as nat % pow2(t as nat) == 0 && forall|j: int| 0 <= j < ix_1 ==> m0[j] == 0,
@        !rem_zero ==> m0[i as int] as nat % pow2(t as nat) != 0 || exists|j: int| 0 <= j < i && m0[j] != 0, !*old(check_roundable) ==> !*check_roundable,
@    decreases end_2 - ix_1,
            {
                let k_3 = ix_1;
                ix_1 += 1;
                if *check_roundable && cc > 0 {
                    if self.m[k_3] != td {
                        *check_roundable = false;
                    } else {
                        cc -= 1;
                    }
                }
                if self.m[k_3] != 0 {
                    rem_zero = false;
                }
@proof { let q = m0[k_3 as int]; assert(self.m.inner@[k_3 as int] == q); }
                self.m[k_3] = 0;
            }
            if *check_roundable {
                return false;
            }
@proof { lemma_rem_zero(m0, i1, t1); assert(rem_zero <==> val(m0) % pow2(n as nat) == 0);
@  let h = val(m0) / pow2(n as nat); let pp = pow2((64 - t1) as nat); let hv = valr(m0, i1 + 1, m0.len() as int); let w = m0[i1] as nat / pow2(t1);
@  assert(h == w + pp * hv); lemma_pow2_unfold((64 - t1) as nat); let pq = pow2((63 - t1) as nat); assert(pp * hv == 2 * (pq * hv)) by(nonlinear_arith) requires pp == 2 * pq; assert(h % 2 == w % 2); assert((num == 1) == (h % 2 == 1));
@  let q = val(m0) / pow2(gn); let pp2 = pow2((64 - tp1) as nat); let hv2 = valr(m0, ip1 + 1, m0.len() as int); let w2 = m0[ip1 as int] as nat / pow2(tp1 as nat);
@  assert(q == w2 + pp2 * hv2); lemma_pow2_unfold((64 - tp1) as nat); let pq2 = pow2((63 - tp1) as nat); assert(pp2 * hv2 == 2 * (pq2 * hv2)) by(nonlinear_arith) requires pp2 == 2 * pq2; assert(q % 2 == w2 % 2);
@}
            *inexact = (!rem_zero || num == 1) || *inexact;
            let eq1 = num == 1 && rem_zero;
            let gt1 = num == 1 && !rem_zero;
            match rm {
                RoundingMode::ToEven => {
                    if gt1 || (eq1 && (nump1 & 1) != 0) {
                        c = true;
                    }
                }
                RoundingMode::ToOdd => {
                    if gt1 || (eq1 && (nump1 & 1) == 0) {
                        c = true;
                    }
                }
                _ => vstd::pervasive::unreached(),
            };
            if c {
                if ip1 > i {
                    self.m[i] = 0;
                }
                i = ip1;
                t = tp1;
            } else {
                t += 1;
            }
        } else {
            let mut rem_zero = true;
            let mut td = 0;
            i = n / WORD_BIT_SIZE;
            let mut z = i;
            t = n % WORD_BIT_SIZE;
@let ghost i1 = i as int; let ghost t1 = t as nat;
@proof { lemma_low_part(m0, i1, t1); lemma_rem_zero(m0, i1, t1); if t > 0 { lemma_low_bits(m0[i1], t as u64); } else { lemma_pow2_64(); assert(m0[i1] as nat % 1 == 0); } }
            if t > 0 {
                let rb = self.m[i] << (WORD_BIT_SIZE - t);
                if rb != 0 {
                    rem_zero = false;
                    if *check_roundable {
                        let msk = rb & (WORD_MAX << (WORD_BIT_SIZE - t));
                        if msk == rb {
                            td = WORD_MAX;
                        } else if msk != 0 {
                            *check_roundable = false;
                        }
                    }
                }
            } else if *check_roundable && cc > 0 && z > 0 {
                z -= 1;
                if self.m[z] == WORD_MAX {
                    td = WORD_MAX;
                    rem_zero = false;
                } else if self.m[z] != 0 {
                    *check_roundable = false;
                    rem_zero = false;
                }
                cc -= 1;
            }
            let end_5: usize = 0;
            let mut ix_4: usize = z;
            while ix_4 > end_5
@    invariant self.m.inner@.len() == m0.len(), self.n == n00, self_len == m0.len(), ix_4 <= z <= i, end_5 == 0, n < 64 * m0.len(), n == 64 * i + t, t < 64, m0.len() <= maxw(), n00 == old(self).n, z < i ==> i == z + 1 && *old(check_roundable), z < i && m0[z as int] != 0 ==> !rem_zero, z < i && self.m.inner@[z as int] != 0 ==> *old(check_roundable),
@        forall|j: int| ix_4 <= j < z ==> self.m.inner@[j] == 0, forall|j: int| 0 <= j < ix_4 ==> self.m.inner@[j] == m0[j], forall|j: int| z <= j < m0.len() ==> self.m.inner@[j] == m0[j],
@        rem_zero ==> m0[i as int] as nat % pow2(t as nat) == 0 && forall|j: int| ix_4 <= j < z ==> m0[j] == 0,
@        !rem_zero ==> m0[i as int] as nat % pow2(t as nat) != 0 || exists|j: int| 0 <= j < i && m0[j] != 0, !*old(check_roundable) ==> !*check_roundable,
@    decreases ix_4,
            {
                ix_4 -= 1;
                if *check_roundable && cc > 0 {
                    if self.m[ix_4] != td {
                        *check_roundable = false;
                    } else {
                        cc -= 1;
                    }
                }
                if self.m[ix_4] != 0 {
                    rem_zero = false;
                }
@proof { let q = m0[ix_4 as int]; assert(self.m.inner@[ix_4 as int] == q); }
                self.m[ix_4] = 0;
            }
            if *check_roundable {
                return false;
            }
@proof { lemma_rem_zero(m0, i1, t1); assert(rem_zero <==> val(m0) % pow2(n as nat) == 0); }
            *inexact = !rem_zero || *inexact;
            match rm {
                RoundingMode::ToZero => {}
                RoundingMode::FromZero => {
                    if !rem_zero {
                        c = true;
                    }
                }
                RoundingMode::Up => {
                    if !rem_zero && is_positive {
                        c = true;
                    }
                }
                RoundingMode::Down => {
                    if !rem_zero && !is_positive {
                        c = true;
                    }
                }
                _ => vstd::pervasive::unreached(),
            };
        }
@proof { gi = i as int; gt = t as nat; assert(gn == 64 * gi + gt); assert(t == 64 ==> !c); if t < 64 { lemma_inc_word(m0[gi], t as u64); } else { lemma_pow2_64(); lemma_basic_div(m0[gi] as int, pow2(64) as int); }
@if c { assert(rnd(val(m0), gn, rm, is_positive) == val(m0) / pow2(gn) + 1); } else { assert(rnd(val(m0), gn, rm, is_positive) == val(m0) / pow2(gn)); } }
        if c {
            if i < self_len {
                if (self.m[i] >> t) as DoubleWord + 1 < (WORD_BASE >> t) {
                    self.m[i] = ((self.m[i] >> t) + 1) << t;
@proof { lemma_exit_inc(m0, self.m.inner@, gi, gt, full); }
                    return false;
                } else {
                    self.m[i] = 0;
                }
            }
            i += 1;
            let mut ix_6: usize = i;
            let end_7: usize = self.m.len();
            while ix_6 < end_7
@    invariant self.m.inner@.len() == m0.len(), self.n == n00, self_len == m0.len(), end_7 == m0.len(), ix_6 <= end_7, i == ix_6, gi < ix_6, m0.len() <= maxw(), n00 == old(self).n, gn == 64 * gi + gt, gt <= 64, *old(check_roundable) || !*check_roundable,
@        full ==> forall|j: int| 0 <= j < gi ==> self.m.inner@[j] == 0, forall|j: int| gi <= j < ix_6 ==> self.m.inner@[j] == 0, forall|j: int| gi < j < ix_6 ==> m0[j] == 0xffff_ffff_ffff_ffff, forall|j: int| ix_6 <= j < m0.len() ==> self.m.inner@[j] == m0[j],
@        m0[gi] as nat / pow2(gt) + 1 == pow2((64 - gt) as nat),
@        *inexact == (*old(inexact) || val(m0) % pow2(gn) != 0), rnd(val(m0), gn, rm, is_positive) == val(m0) / pow2(gn) + 1, full == !*old(check_roundable), !*check_roundable,
@        m0 == old(self).m.inner@, gn == n,
@    decreases end_7 - ix_6,
            {
                let k_8 = ix_6;
                ix_6 += 1;
                if self.m[k_8] < WORD_MAX {
                    self.m[k_8] += 1;
@proof { lemma_exit_carry(m0, self.m.inner@, gi, gt, k_8 as int, full); }
                    return false;
                } else {
                    self.m[k_8] = 0;
                }
                i += 1;
            }
            self.m[self_len - 1] = WORD_SIGNIFICANT_BIT;
@proof { lemma_round_over(m0, gi, gt); lemma_exit_over(self.m.inner@, gi, gt, full); }
            return true;
        } else {
            self.m[i] = if t >= WORD_BIT_SIZE {
                0
            } else {
                (self.m[i] >> t) << t
            };
@proof { if t >= 64 { lemma_pow2_64(); lemma_basic_div(m0[gi] as int, pow2(64) as int); assert(0 * pow2(64) == 0); } assert(self.m.inner@[gi] == (m0[gi] as nat / pow2(gt)) * pow2(gt)); lemma_exit_keep(m0, self.m.inner@, gi, gt, full); }
        }
    }
    false
}
%% fn mantissa/mantissa.rs|impl Mantissa|set_length
pub fn set_length(&mut self, p: usize) -> (ret: Result<(), Error>)
@    requires p <= usize::MAX - 64, old(self).l() <= maxw(), isbl(old(self).v(), old(self).n as nat),
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation && words_of(p) > old(self).l(),
@        ret is Ok ==> final(self).l() == words_of(p) <= maxw() && isbl(final(self).v(), final(self).n as nat)
@            && (words_of(p) <= old(self).l() ==> final(self).v() == old(self).v() / bp((old(self).l() - words_of(p)) as nat) && final(self).n == (if old(self).n >= 64 * (old(self).l() - words_of(p)) { old(self).n - 64 * (old(self).l() - words_of(p)) } else { 0 }))
@            && (words_of(p) >= old(self).l() ==> final(self).v() == old(self).v() * bp((words_of(p) - old(self).l()) as nat) && final(self).n == (if old(self).n == 0 { 0 } else { old(self).n + 64 * (words_of(p) - old(self).l()) })),
{
@let ghost m0 = self.m.inner@; let ghost l0 = m0.len() as int; let ghost n0 = self.n;
@proof { lemma_bl_len(m0, n0 as nat); lemma_pow2_64(); assert(val(m0) / 1 == val(m0)) by(nonlinear_arith); assert(val(m0) * 1 == val(m0)); }
    let sz = Self::bit_len_to_word_len(p);
    let orig_len = self.m.len();
    if sz < orig_len {
        self.m.trunc_to(p);
@proof { lemma_drop_low(m0, self.m.inner@, l0 - sz); lemma_bl_shr(val(m0), n0 as nat, (64 * (l0 - sz)) as nat); }
        let nn = (orig_len - sz) * WORD_BIT_SIZE;
        if self.n >= nn {
            self.n -= nn;
        } else {
            self.n = 0;
        }
    } else if sz > orig_len {
        self.m.try_extend(p)?;
@proof { lemma_add_low(m0, self.m.inner@, sz - l0); if n0 != 0 { lemma_bl_shl(val(m0), n0 as nat, (64 * (sz - l0)) as nat); } }
        if self.n != 0 {
            self.n += (sz - orig_len) * WORD_BIT_SIZE;
        }
    }
    Ok(())
}
%% fn mantissa/mantissa.rs|impl Mantissa|mask_bits
pub fn mask_bits(&mut self, mut n: usize, from_left: bool)
@    requires old(self).l() <= maxw(),
@    ensures final(self).l() == old(self).l(), final(self).n == old(self).n,
@        from_left ==> final(self).v() == (if n <= 64 * old(self).l() { old(self).v() % pow2((64 * old(self).l() - n) as nat) } else { 0 }),
@        !from_left ==> final(self).v() == (old(self).v() / pow2(n as nat)) * pow2(n as nat),
{
@let ghost m0 = self.m.inner@; let ghost l0 = m0.len() as int; let ghost n0 = n as int; let ghost oldn = self.n;
    if from_left {
        let end_2: usize = 0;
        let mut ix_1: usize = self.m.len();
@proof { lemma_pow2_64(); assert(val(m0) % 1 == 0); lemma_val_bound(m0); lemma_shl_over(m0, n0 as nat); }
        while ix_1 > end_2
@    invariant_except_break n0 == n + 64 * (l0 - ix_1), forall|j: int| 0 <= j < ix_1 ==> self.m.inner@[j] == m0[j], forall|j: int| ix_1 <= j < l0 ==> self.m.inner@[j] == 0,
@    invariant self.m.inner@.len() == l0 == m0.len(), l0 <= maxw(), ix_1 <= l0, end_2 == 0, self.n == oldn,
@    ensures ix_1 == 0 && n0 >= 64 * l0 && (forall|j: int| 0 <= j < l0 ==> self.m.inner@[j] == 0) || val(self.m.inner@) == (if n0 <= 64 * l0 { val(m0) % pow2((64 * l0 - n0) as nat) } else { 0 }),
@    decreases ix_1,
        {
            ix_1 -= 1;
            if n >= WORD_BIT_SIZE {
                self.m[ix_1] = 0;
                n -= WORD_BIT_SIZE;
            } else {
                let mask = WORD_MAX >> n;
                self.m[ix_1] &= mask;
@proof { lemma_mask_left(m0, self.m.inner@, ix_1 as int, n as u64, mask); }
                break;
            }
        }
@proof { if forall|j: int| 0 <= j < l0 ==> self.m.inner@[j] == 0 { lemma_valr_zero(self.m.inner@, 0, l0); } }
    } else {
        let mut ix_3: usize = 0;
        let end_4: usize = self.m.len();
@proof { lemma_val_bound(m0); lemma_shl_over(m0, n0 as nat); }
        while ix_3 < end_4
@    invariant_except_break n0 == n + 64 * ix_3, forall|j: int| 0 <= j < ix_3 ==> self.m.inner@[j] == 0, forall|j: int| ix_3 <= j < l0 ==> self.m.inner@[j] == m0[j],
@    invariant self.m.inner@.len() == l0 == m0.len(), l0 <= maxw(), ix_3 <= end_4, end_4 == l0, self.n == oldn, n0 >= 0,
@    ensures n0 >= 64 * l0 && (forall|j: int| 0 <= j < l0 ==> self.m.inner@[j] == 0) || val(self.m.inner@) == (val(m0) / pow2(n0 as nat)) * pow2(n0 as nat),
@    decreases l0 - ix_3,
        {
            let k_5 = ix_3;
            ix_3 += 1;
            if n >= WORD_BIT_SIZE {
                self.m[k_5] = 0;
                n -= WORD_BIT_SIZE;
            } else {
                let mask = WORD_MAX << n;
                self.m[k_5] &= mask;
@proof { lemma_mask_right(m0, self.m.inner@, k_5 as int, n as u64, mask); }
                break;
            }
        }
@proof { if forall|j: int| 0 <= j < l0 ==> self.m.inner@[j] == 0 { lemma_valr_zero(self.m.inner@, 0, l0); } }
    }
}
%% fn mantissa/mantissa.rs|impl Mantissa|extend_subnormal
pub fn extend_subnormal(&mut self, n: usize) -> (ret: Result<(), Error>)
@    requires old(self).n + n <= usize::MAX - 64, old(self).l() <= maxw(),
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation, final(self).n == old(self).n, ret is Ok ==> final(self).v() == old(self).v() && final(self).l() == (if (old(self).n + n + 63) / 64 > old(self).l() { (old(self).n + n + 63) / 64 } else { old(self).l() as int }) && final(self).l() <= maxw(),
{
    self.m.try_extend_2(self.n + n)
}
%% fn mantissa/mantissa.rs|impl Mantissa|shift_left_resize
pub fn shift_left_resize(&mut self, n: usize) -> (ret: Result<(), Error>)
@    requires old(self).n + n <= usize::MAX - 64, 0 < old(self).l() <= maxw(), isbl(old(self).v(), old(self).n as nat), old(self).n > 0,
@    ensures ret is Err ==> ret->Err_0 == Error::MemoryAllocation, ret is Ok ==> final(self).v() == old(self).v() * pow2(n as nat) && final(self).n == old(self).n + n && final(self).wf() && final(self).l() == (old(self).n + n + 63) / 64,
{
@let ghost v0 = self.v(); let ghost l0 = self.l(); let ghost n0 = self.n as nat; let ghost n1 = (n0 + n) as nat;
@proof { lemma_bl_shl(v0, n0, n as nat); lemma_bl_len(self.m.inner@, n0); }
    if self.max_bit_len() >= self.bit_len() + n {
        self.shift_left(n);
@let ghost m1 = self.m.inner@;
@proof { if n1 < 64 * l0 { lemma_pow2_strictly_increases(n1, (64 * l0) as nat); } lemma_small_mod(v0 * pow2(n as nat), bp(l0)); }
        self.m.trunc_leading_zeroes();
@proof { lemma_drop_high(m1, self.m.inner@, n1); }
    } else {
        self.m.try_extend_3(self.bit_len() + n, n)?;
@proof { let l1 = self.l(); lemma_val_bound(self.m.inner@); if n1 < 64 * l1 { lemma_pow2_strictly_increases(n1, (64 * l1) as nat); } lemma_small_mod(v0 * pow2(n as nat), bp(l1)); }
    }
    self.n += n;
    Ok(())
}
%% fn mantissa/mantissa.rs|impl Mantissa|is_odd_int
pub fn is_odd_int(&self, e: usize) -> (ret: bool)
@    requires 0 < e <= 64 * self.l(), self.l() <= maxw(),
@    ensures ret == ((self.v() / pow2((64 * self.l() - e) as nat)) % 2 == 1 && self.v() % pow2((64 * self.l() - e) as nat) == 0),
{
    let n = self.max_bit_len() - e;
@proof { lemma_odd_bit(self.m.inner@, n as int); lemma_pow2_64(); assert(self.v() % 1 == 0); }
    if n == 0 {
        return self.m[0] & 1 > 0;
    }
    if ((self.m[n / WORD_BIT_SIZE]) >> (n % WORD_BIT_SIZE)) & 1 != 0 {
        self.find_one_from(e).is_none()
    } else {
        false
    }
}
%% fn mantissa/mantissa.rs|impl Mantissa|add_ulp
pub fn add_ulp(&mut self) -> (ret: bool)
@    requires old(self).l() <= maxw(),
@    ensures final(self).n == old(self).n, final(self).l() == old(self).l(), final(self).v() + (if ret { bp(old(self).l()) } else { 0 }) == old(self).v() + 1,
{
@let ghost m0 = self.m.inner@; let ghost l0 = m0.len() as int; let ghost oldn = self.n;
    let mut c = 1;
    let mut ix_1: usize = 0;
    let end_2: usize = self.m.len();
@proof { lemma_bp(0); }
    while ix_1 < end_2
@    invariant c <= 1, self.m.inner@.len() == l0 == m0.len(), ix_1 <= end_2 == l0, self.n == oldn, forall|j: int| ix_1 <= j < l0 ==> self.m.inner@[j] == m0[j],
@        valr(self.m.inner@, 0, ix_1 as int) + c * bp(ix_1 as nat) == valr(m0, 0, ix_1 as int) + 1,
@    ensures ix_1 == l0 || c == 0,
@    decreases l0 - ix_1,
    {
@let ghost mb = self.m.inner@; let ghost c0 = c;
        let k_3 = ix_1;
        ix_1 += 1;
        c = add_carry(self.m[k_3], 0, c, &mut self.m[k_3]);
@proof { lemma_valr_ext(mb, 0, k_3 as int, self.m.inner@, 0); lemma_bp(k_3 as nat); let b = bp(k_3 as nat); let w = self.m.inner@[k_3 as int] as nat; let w0 = m0[k_3 as int] as nat;
@  assert(w * b + c * (b * base()) == w0 * b + c0 * b) by(nonlinear_arith) requires w + c * base() == w0 + c0; }
        if c == 0 {
            break;
        }
    }
@proof { lemma_tail_same(m0, self.m.inner@, ix_1 as int); assert(0 * bp(ix_1 as nat) == 0); assert(1 * bp(ix_1 as nat) == bp(ix_1 as nat)); }
    c > 0
}
