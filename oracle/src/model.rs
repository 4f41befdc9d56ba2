//! Abstract value model and the executable form of the contracts (correct rounding, representation invariant, inexact flag).
use crate::nat::{cmp_dy, Nat};
use astro_float_num::*;
use std::cmp::Ordering;
use std::fmt::Write;

pub const EMIN: i64 = EXPONENT_MIN as i64;
pub const EMAX: i64 = EXPONENT_MAX as i64;

#[derive(Clone, Debug, PartialEq)]
pub struct Fin { pub neg: bool, pub w: Vec<u64>, pub n: usize, pub e: i64, pub inexact: bool }

#[derive(Clone, Debug, PartialEq)]
pub enum Val { NaN, Inf(bool), Fin(Fin) }

impl Fin {
    pub fn zero(words: usize) -> Fin { Fin { neg: false, w: vec![0; words], n: 0, e: 0, inexact: false } }
    pub fn m(&self) -> Nat { Nat::words(&self.w) }
    pub fn is_zero(&self) -> bool { self.w.iter().all(|&x| x == 0) }
    /// exponent of the unit of the mantissa integer
    pub fn lsb(&self) -> i64 { self.e - 64 * self.w.len() as i64 }
    pub fn bits(&self) -> usize { self.w.len() * 64 }
}

pub fn sgn(neg: bool) -> Sign { if neg { Sign::Neg } else { Sign::Pos } }

impl Val {
    pub fn of(b: &BigFloat) -> Val {
        if b.is_nan() { return Val::NaN; }
        if b.is_inf() { return Val::Inf(b.is_inf_neg()); }
        let (m, n, s, e, inexact) = b.as_raw_parts().unwrap();
        let v = Fin { neg: s == Sign::Neg, w: m.to_vec(), n, e: e as i64, inexact };
        let b = crate::nat::Nat::words(&v.w).bits();
        let bad = if v.n as i64 != b as i64 { "wrong number of significant bits" }
            else if b == 0 && v.e != 0 { "zero with an exponent" } else if b > 0 && (b as usize) < 64 * v.w.len() && v.e != EMIN { "not normalised" } else if v.e < EMIN || v.e > EMAX { "exponent outside the range" } else { "" };
        let v = Val::Fin(v);
        if !bad.is_empty() { MALFORMED.with(|x| { let mut x = x.borrow_mut(); if x.is_empty() { *x = format!("malformed number ({}): {}", bad, v.show()); } }); }
        v
    }
    pub fn bf(&self) -> BigFloat {
        match self {
            Val::NaN => NAN,
            Val::Inf(n) => if *n { INF_NEG } else { INF_POS },
            Val::Fin(f) => {
                let b = BigFloat::from_raw_parts(&f.w, f.n, sgn(f.neg), f.e as Exponent, f.inexact);
                assert!(!b.is_nan(), "oracle built an invalid operand {:?}", f);
                b
            }
        }
    }
    pub fn show(&self) -> String {
        match self {
            Val::NaN => "NaN".into(),
            Val::Inf(n) => if *n { "-Inf".into() } else { "Inf".into() },
            Val::Fin(f) => {
                let mut s = String::new();
                write!(s, "{}:{}:{}:{}:", if f.neg { '-' } else { '+' }, f.n, f.e, if f.inexact { 'i' } else { 'x' }).unwrap();
                for (i, w) in f.w.iter().enumerate() { if i > 0 { s.push(',') } write!(s, "{:x}", w).unwrap(); }
                s
            }
        }
    }
    pub fn parse(s: &str) -> Val {
        match s { "NaN" => return Val::NaN, "Inf" => return Val::Inf(false), "-Inf" => return Val::Inf(true), _ => {} }
        let p: Vec<&str> = s.split(':').collect();
        Val::Fin(Fin {
            neg: p[0] == "-", n: p[1].parse().unwrap(), e: p[2].parse().unwrap(), inexact: p[3] == "i",
            w: p[4].split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect(),
        })
    }
    pub fn fin(&self) -> Option<&Fin> { if let Val::Fin(f) = self { Some(f) } else { None } }
}

pub const RMS: [RoundingMode; 7] = [RoundingMode::None, RoundingMode::Up, RoundingMode::Down, RoundingMode::ToZero,
    RoundingMode::FromZero, RoundingMode::ToEven, RoundingMode::ToOdd];
pub fn rm_name(r: RoundingMode) -> &'static str {
    match r { RoundingMode::None => "None", RoundingMode::Up => "Up", RoundingMode::Down => "Down", RoundingMode::ToZero => "ToZero",
        RoundingMode::FromZero => "FromZero", RoundingMode::ToEven => "ToEven", RoundingMode::ToOdd => "ToOdd" }
}
pub fn rm_of(s: &str) -> RoundingMode { *RMS.iter().find(|r| rm_name(**r) == s).unwrap() }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dir { Any, Zero, Away, Even, Odd }
pub fn dir(rm: RoundingMode, neg: bool) -> Dir {
    match rm {
        RoundingMode::None => Dir::Any,
        RoundingMode::Up => if neg { Dir::Zero } else { Dir::Away },
        RoundingMode::Down => if neg { Dir::Away } else { Dir::Zero },
        RoundingMode::ToZero => Dir::Zero,
        RoundingMode::FromZero => Dir::Away,
        RoundingMode::ToEven => Dir::Even,
        RoundingMode::ToOdd => Dir::Odd,
    }
}

pub fn round_up64(p: usize) -> usize { p.saturating_add(63) / 64 * 64 }

/// Representation invariant every finite value handed to a user must satisfy.
pub fn rep_ok(v: &Val, want_bits: Option<usize>) -> Result<(), String> {
    if let Val::Fin(f) = v {
        if let Some(p) = want_bits { if f.bits() != p { return Err(format!("mantissa length is {} bits, expected {}", f.bits(), p)); } }
        if f.e < EMIN || f.e > EMAX { return Err("exponent out of range".into()); }
        if f.is_zero() {
            if f.n != 0 { return Err(format!("zero with {} significant bits", f.n)); }
            if f.e != 0 { return Err(format!("zero with exponent {}", f.e)); }
        } else {
            let bl = f.m().bits() as usize;
            if f.n != bl { return Err(format!("recorded precision {} but the mantissa has {} significant bits", f.n, bl)); }
            if bl != f.bits() && f.e != EMIN { return Err(format!("not normalized: {} of {} bits at exponent {}", bl, f.bits(), f.e)); }
        }
    }
    Ok(())
}

pub struct Rounded { pub exact: bool }

/// Is `res` the correct rounding to `p` bits (p >= 1) with mode `rm` of a real x with sign `xneg` and |x| compared through `c`
/// (`c(m,e)` = |x| compared with m*2^e)? x must be non-zero. The mantissa of `res` may be longer than `p`.
pub fn check_rounded(res: &Val, p: usize, rm: RoundingMode, xneg: bool, c: &dyn Fn(&Nat, i64) -> Ordering) -> Result<Rounded, String> {
    use Ordering::*;
    let d = dir(rm, xneg);
    let p = p as i64;
    match res {
        Val::NaN => Err("result is NaN".into()),
        Val::Inf(n) => {
            if *n != xneg { return Err("infinity of the wrong sign".into()); }
            let top = Nat::one();
            let ok = match d {
                Dir::Zero => c(&top, EMAX) != Less,
                Dir::Away | Dir::Any => c(&Nat::pow2(p).sub(&Nat::one()), EMAX - p) == Greater,
                Dir::Even => c(&Nat::pow2(p + 1).sub(&Nat::one()), EMAX - p - 1) != Less,
                Dir::Odd => c(&Nat::pow2(p + 1).sub(&Nat::one()), EMAX - p - 1) == Greater,
            };
            if ok { Ok(Rounded { exact: false }) } else { Err("Inf, but the exact value does not round beyond the exponent range".into()) }
        }
        Val::Fin(f) => {
            let one = Nat::one();
            if f.is_zero() {
                let unit = EMIN - p; // min positive = 1*2^unit
                let ok = match d {
                    Dir::Any | Dir::Zero => c(&one, unit) == Less,
                    Dir::Away => false,
                    Dir::Even => c(&one, unit - 1) != Greater,
                    Dir::Odd => c(&one, unit - 1) == Less,
                };
                return if ok { Ok(Rounded { exact: false }) } else { Err("zero, but the exact value does not round to zero".into()) };
            }
            let m = f.m();
            let lsb = f.lsb();
            // bring to the p-bit grid
            let mag = m.bits() + lsb; // value in [2^(mag-1), 2^mag)
            let unit = if mag <= EMIN { EMIN - p } else { mag - p };
            // r = k * 2^unit
            if lsb < unit && m.tz() < unit - lsb {
                return Err(format!("result does not fit in {} bits", p));
            }
            let k = m.shl(lsb - unit);
            if f.neg != xneg { return Err("result has the wrong sign".into()); }
            match c(&k, unit) {
                Equal => return Ok(Rounded { exact: true }),
                _ => {}
            }
            let normal_pow2 = k.bits() == p && k.is_pow2() && mag > EMIN + 1 - 0; // predecessor has half the spacing
            let normal_pow2 = normal_pow2 && unit > EMIN - p;
            let k2 = k.shl(1); // in half units
            let k4 = k.shl(2); // in quarter units
            let gt = c(&k, unit) == Greater; // x > r
            let ok = if gt {
                match d {
                    Dir::Any | Dir::Zero => c(&k.add(&one), unit) == Less,
                    Dir::Away => false,
                    Dir::Even => match c(&k2.add(&one), unit - 1) { Less => true, Equal => !k.is_odd(), Greater => false },
                    Dir::Odd => match c(&k2.add(&one), unit - 1) { Less => true, Equal => k.is_odd(), Greater => false },
                }
            } else {
                let (pm, pe) = if normal_pow2 { (k2.sub(&one), unit - 1) } else { (k.sub(&one), unit) };
                let (mm, me) = if normal_pow2 { (k4.sub(&one), unit - 2) } else { (k2.sub(&one), unit - 1) };
                // seen from the lower binade a power of two is twice a mantissa of p bits, hence even (it matters for p = 1 only)
                let odd = !normal_pow2 && k.is_odd();
                match d {
                    Dir::Zero => false,
                    Dir::Any | Dir::Away => c(&pm, pe) == Greater,
                    Dir::Even => match c(&mm, me) { Greater => true, Equal => !odd, Less => false },
                    Dir::Odd => match c(&mm, me) { Greater => true, Equal => odd, Less => false },
                }
            };
            if ok { Ok(Rounded { exact: false }) } else {
                Err(format!("not the correctly rounded {}-bit result: exact value is {} the result", p, if gt { "above" } else { "below" }))
            }
        }
    }
}

/// Full check of an operation result: invariant, length, rounding, inexact flag.
pub fn check_result(res: &Val, p: usize, bits: usize, rm: RoundingMode, xneg: bool, arg_inexact: bool,
                    c: &dyn Fn(&Nat, i64) -> Ordering) -> Result<(), String> {
    rep_ok(res, Some(bits))?;
    let r = check_rounded(res, p, rm, xneg, c)?;
    if let Val::Fin(f) = res {
        let want = arg_inexact || !r.exact;
        if f.inexact != want { return Err(format!("[inexact] flag is {} but should be {} (result is {}exact, an argument inexact: {})", f.inexact, want, if r.exact { "" } else { "in" }, arg_inexact)); }
    }
    Ok(())
}

/// Exact zero result expected.
pub fn check_zero(res: &Val, bits: Option<usize>, inexact: Option<bool>) -> Result<(), String> {
    rep_ok(res, bits)?;
    match res {
        Val::Fin(f) if f.is_zero() => {
            if let Some(i) = inexact { if f.inexact != i { return Err(format!("[inexact] flag of zero result is {} but should be {}", f.inexact, i)); } }
            Ok(())
        }
        _ => Err("exact result is zero".into()),
    }
}

/// Compare exact values of two finite numbers (signed).
pub fn cmp_fin(a: &Fin, b: &Fin) -> Ordering {
    match (a.is_zero(), b.is_zero()) {
        (true, true) => return Ordering::Equal,
        (true, false) => return if b.neg { Ordering::Greater } else { Ordering::Less },
        (false, true) => return if a.neg { Ordering::Less } else { Ordering::Greater },
        _ => {}
    }
    if a.neg != b.neg { return if a.neg { Ordering::Less } else { Ordering::Greater }; }
    let o = cmp_dy(&a.m(), a.lsb(), &b.m(), b.lsb());
    if a.neg { o.reverse() } else { o }
}

/// Exact |a + b| (signed): returns (neg, m, lsb), m = 0 when the sum is zero. For hugely distant operands the smaller one is
/// replaced by an epsilon of the same sign; this is order-preserving against every candidate or midpoint of at most `p`+1 bits.
pub fn exact_sum(a: &Fin, b: &Fin, p: usize) -> (bool, Nat, i64) {
    if a.is_zero() { return (b.neg, b.m(), b.lsb()); }
    if b.is_zero() { return (a.neg, a.m(), a.lsb()); }
    let (ma, mb) = (a.m(), b.m());
    let (ta, tb) = (ma.bits() + a.lsb(), mb.bits() + b.lsb());
    let (hi, mh, lo, ml) = if ta >= tb { (a, ma, b, mb) } else { (b, mb, a, ma) };
    let (th, tl) = (ta.max(tb), ta.min(tb));
    let lowest = hi.lsb().min(th - p as i64 - 4);
    let (ml, llsb) = if tl < lowest - 70 { (Nat::one(), lowest - 70) } else { (ml, lo.lsb()) };
    let l = hi.lsb().min(llsb);
    let x = mh.shl(hi.lsb() - l);
    let y = ml.shl(llsb - l);
    if hi.neg == lo.neg { return (hi.neg, x.add(&y), l); }
    match x.cmp(&y) {
        Ordering::Equal => (false, Nat::zero(), 0),
        Ordering::Greater => (hi.neg, x.sub(&y), l),
        Ordering::Less => (lo.neg, y.sub(&x), l),
    }
}

thread_local! { pub static MALFORMED: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
