//! Deterministic, boundary-heavy generators.
use crate::model::*;
use crate::nat::Nat;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}

/// words of a mantissa with interesting bit patterns (top bit set)
pub fn mant(r: &mut Rng, len: usize) -> Vec<u64> {
    let mut w = vec![0u64; len];
    match r.below(10) {
        0 => {}
        1 => w.iter_mut().for_each(|x| *x = u64::MAX),
        2 | 3 => w.iter_mut().for_each(|x| *x = r.next()),
        4 => { for _ in 0..1 + r.below(4) { let b = r.below(64 * len as u64); w[(b / 64) as usize] |= 1 << (b % 64); } }
        5 => {
            w.iter_mut().for_each(|x| *x = u64::MAX);
            for _ in 0..1 + r.below(4) { let b = r.below(64 * len as u64); w[(b / 64) as usize] &= !(1 << (b % 64)); }
        }
        6 => { // runs
            let mut v = r.chance(1, 2);
            let mut left = 1 + r.below(130);
            for i in 0..64 * len {
                if left == 0 { v = !v; left = match r.below(4) { 0 => 1, 1 => 64, 2 => 1 + r.below(64), _ => 1 + r.below(200) }; }
                if v { w[i / 64] |= 1 << (i % 64) }
                left -= 1;
            }
        }
        7 => w.iter_mut().for_each(|x| *x = *r.pick(&[0u64, u64::MAX, 1, 1 << 63, u64::MAX >> 1, u64::MAX - 1, 0x8000000000000001])),
        8 => { let k = r.below(len as u64 + 1) as usize; for x in w.iter_mut().skip(k) { *x = r.next() } }
        _ => { let k = r.below(len as u64 + 1) as usize; for (i, x) in w.iter_mut().enumerate() { *x = if i < k { u64::MAX } else { r.next() } } }
    }
    if len > 0 { w[len - 1] |= 1 << 63; }
    w
}

pub fn len(r: &mut Rng) -> usize {
    match r.below(40) {
        0..=9 => 1, 10..=19 => 2, 20..=26 => 3, 27..=31 => 4, 32..=35 => r.range(5, 8) as usize,
        36 | 37 => r.range(9, 20) as usize, 38 => r.range(30, 40) as usize, _ => r.range(60, 80) as usize,
    }
}

pub fn exp(r: &mut Rng) -> i64 {
    match r.below(12) {
        0..=3 => r.range(-4, 140),
        4 | 5 => r.range(-300, 300),
        6 => r.range(-70, 5),
        7 => EMIN + r.range(0, 200),
        8 => EMAX - r.range(0, 200),
        9 => r.range(EMIN, EMAX),
        10 => *r.pick(&[EMIN, EMIN + 1, EMAX, EMAX - 1, 0, 1, 63, 64, 65, 128, -1, -63, -64, EMIN / 2, EMAX / 2, EMAX / 2 + 1]),
        _ => r.range(0, 64 * 4),
    }
}

pub fn fin_len(r: &mut Rng, l: usize) -> Fin {
    let neg = r.chance(1, 2);
    let inexact = r.chance(1, 6);
    if r.chance(1, 25) { return Fin { neg, w: vec![0; l], n: 0, e: 0, inexact }; }
    let mut w = mant(r, l);
    if r.chance(1, 12) { // subnormal
        let sh = r.range(1, 64 * l as i64 - 1);
        let m = Nat::words(&w).shr(sh);
        w = m.0.clone();
        let n = m.bits() as usize;
        w.resize(l, 0);
        return Fin { neg, w, n, e: EMIN, inexact };
    }
    Fin { neg, w, n: 64 * l, e: exp(r), inexact }
}
pub fn fin(r: &mut Rng) -> Fin { let l = len(r); fin_len(r, l) }
pub fn small_fin(r: &mut Rng) -> Fin { let l = 1 + r.below(4) as usize; fin_len(r, l) }

/// normalized Fin with value (+-) m*2^lsb padded to whole words; None if out of the normal range
pub fn from_nat(neg: bool, m: &Nat, lsb: i64, extra_words: usize) -> Option<Fin> {
    if m.is_zero() { return None; }
    let e = m.bits() + lsb;
    if e < EMIN || e > EMAX { return None; }
    let l = ((m.bits() + 63) / 64) as usize + extra_words;
    let w = m.shl(64 * l as i64 - m.bits());
    Some(Fin { neg, w: w.0.clone(), n: 64 * l, e, inexact: false })
}

pub fn prec(r: &mut Rng, around: i64) -> usize {
    let v = match r.below(12) {
        0 => r.range(1, 64), 1 => 64, 2 => 128, 3 => 192, 4 => r.range(1, 400),
        5 | 6 => around, 7 => around + r.range(-70, 70), 8 => around + 64, 9 => around - 64, 10 => around * 2, _ => around / 2,
    };
    v.max(1) as usize
}

/// operand related to `a`: aligned at word boundaries, cancelling, producing ties, ...
pub fn related(r: &mut Rng, a: &Fin, p: usize) -> Fin {
    if a.is_zero() { return fin(r); }
    match r.below(12) {
        0 => { let mut b = a.clone(); b.neg = !b.neg; b }
        1 => { // differ in the low bits
            let mut b = a.clone(); if r.chance(1, 2) { b.neg = !b.neg }
            for _ in 0..1 + r.below(3) { let i = r.below(64 * a.w.len() as u64 - 1).min(r.below(64 * a.w.len() as u64)); b.w[(i / 64) as usize] ^= 1 << (i % 64); }
            fix(b)
        }
        2 | 3 | 4 => { // exponent differences near word multiples
            let mut b = fin(r);
            if b.is_zero() { return b; }
            let d = 64 * r.range(-(b.w.len() as i64) - 2, a.w.len() as i64 + 2) + *r.pick(&[0, 1, -1, 2, 63, 31, 7]);
            b = renorm(b);
            b.e = (a.e - d).clamp(EMIN, EMAX);
            b
        }
        5 | 6 => { // a single bit at a chosen position relative to the precision p of the result
            let pos = a.e - p as i64 + r.range(-3, 3);
            let e = (pos + 1).clamp(EMIN, EMAX);
            Fin { neg: r.chance(1, 2), w: vec![1 << 63], n: 64, e, inexact: false }
        }
        7 => { // power of two near a
            let e = (a.e + r.range(-2, 2)).clamp(EMIN, EMAX);
            let mut w = vec![0; 1 + r.below(3) as usize]; *w.last_mut().unwrap() = 1 << 63;
            Fin { neg: r.chance(1, 2), n: w.len() * 64, w, e, inexact: false }
        }
        8 => { // exponent sum / difference at the range limits
            let mut b = renorm(fin(r));
            if b.is_zero() { return b; }
            let t = *r.pick(&[EMIN - 64, EMIN - 65, EMIN, EMIN + 1, EMIN - 1, EMAX, EMAX + 1, EMAX - 1, EMIN - 63, EMIN - 128, EMIN - 2]);
            b.e = if r.chance(1, 2) { t - a.e } else { a.e - t }.clamp(EMIN, EMAX);
            b
        }
        9 => { // opposite half-ulp neighbour: a*(1 + 2^-k)
            let k = r.range(1, 64 * a.w.len() as i64 + 130);
            from_nat(!a.neg, &a.m().shl(k).add(&a.m()), a.lsb() - k, 0).unwrap_or_else(|| fin(r))
        }
        _ => fin(r),
    }
}

fn renorm(b: Fin) -> Fin {
    if b.is_zero() || b.n == b.bits() { return b; }
    let m = b.m();
    let l = b.w.len();
    Fin { w: m.shl(64 * l as i64 - m.bits()).0, n: 64 * l, ..b }
}
/// restore the invariant after bit flips
pub fn fix(b: Fin) -> Fin {
    let m = b.m();
    let l = b.w.len();
    if m.is_zero() { return Fin { n: 0, e: 0, ..b }; }
    let sh = (64 * l as i64 - m.bits()).min(b.e - EMIN);
    let mut w = m.shl(sh).0; w.resize(l, 0);
    let n = Nat::words(&w).bits() as usize;
    Fin { w, n, e: b.e - sh, ..b }
}

pub fn special(r: &mut Rng) -> Val {
    match r.below(6) { 0 => Val::NaN, 1 => Val::Inf(false), 2 => Val::Inf(true), 3 => { let mut z = Fin::zero(1 + r.below(3) as usize); z.neg = r.chance(1, 2); Val::Fin(z) } _ => Val::Fin(small_fin(r)) }
}
