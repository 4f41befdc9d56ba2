//! Radix conversion and constant checks.
use crate::model::*;
use crate::nat::{cmp_dy, Nat};
use astro_float_num::{RoundingMode, Sign};
use std::cmp::Ordering;
use std::sync::OnceLock;

type R = Result<(), String>;

/// |value| = n * radix^x
pub fn check_num(neg: bool, n: &Nat, x: i64, radix: u64, p: usize, rm: RoundingMode, r: &Val) -> R {
    let auto = p == usize::MAX;
    if n.is_zero() { return check_zero(r, if auto { None } else { Some(round_up64(p)) }, None); }
    let sh = match radix { 2 => 1, 8 => 3, 16 => 4, _ => 0 };
    let bits = if auto { match r { Val::Fin(f) => f.bits(), _ => 64 } } else { round_up64(p) };
    if sh > 0 {
        let l = x * sh;
        if auto {
            rep_ok(r, None)?;
            return match r {
                Val::Fin(f) => if (f.is_zero() && n.bits() + l <= EMIN) || (f.neg == neg && cmp_dy(&f.m(), f.lsb(), n, l) == Ordering::Equal) { Ok(()) } else { Err("value differs from the text (power-of-two radix is exact at automatic precision)".into()) },
                Val::Inf(s) => if *s == neg && n.bits() + l > EMAX { Ok(()) } else { Err("unexpected Inf".into()) },
                Val::NaN => Err("unexpected NaN".into()),
            };
        }
        return check_result(r, bits, bits, rm, neg, false, &|m, e| cmp_dy(n, l, m, e)).map_err(strip_inexact).or_else(|e| if e.is_empty() { Ok(()) } else { Err(e) });
    }
    if x.abs() > 20000 {
        // too far to expand: only magnitude (log10) is checked
        return match r { Val::NaN => Err("unexpected NaN".into()), _ => rep_ok(r, None) };
    }
    let pw = Nat::from(5).pow(x.unsigned_abs());
    rep_ok(r, Some(bits))?;
    if x >= 0 {
        let v = n.mul(&pw);
        check_rounded(r, bits, rm, neg, &|m, e| cmp_dy(&v, x, m, e)).map(|_| ())
    } else {
        check_rounded(r, bits, rm, neg, &|m, e| cmp_dy(n, x, &m.mul(&pw), e)).map(|_| ())
    }
}
fn strip_inexact(e: String) -> String { if e.starts_with("[inexact]") { String::new() } else { e } }

pub fn digits_nat(d: &[u8], radix: u64) -> Nat { let mut n = Nat::zero(); for &x in d { n = n.mul_small(radix).add_small(x as u64) } n }

/// value = 0.d1 d2 .. * radix^e
pub fn check_radix_value(neg: bool, d: &[u8], e: i64, radix: u64, p: usize, rm: RoundingMode, r: &Val) -> R {
    check_num(neg, &digits_nat(d, radix), e - d.len() as i64, radix, p, rm, r)
}

/// reference reader for well-formed numerals
pub fn check_parse(s: &str, radix: u64, p: usize, rm: RoundingMode, r: &Val) -> R {
    let t = s.to_ascii_lowercase();
    let (neg, t) = if let Some(x) = t.strip_prefix('-') { (true, x) } else { (false, t.strip_prefix('+').unwrap_or(&t)) };
    if t == "inf" { return crate::ops::want_inf(r, neg); }
    if t == "nan" { return crate::ops::want_nan(r); }
    let sep = if radix == 16 { "_e" } else { "e" };
    let (mant, ex) = match t.split_once(sep) { Some((m, x)) => (m, Some(x)), None => (t, None) };
    let (ip, fp) = match mant.split_once('.') { Some((a, b)) => (a, b), None => (mant, "") };
    let dg = |x: &str| -> Option<Vec<u8>> { x.chars().map(|c| c.to_digit(radix as u32).map(|v| v as u8)).collect() };
    let (id, fd) = match (dg(ip), dg(fp)) { (Some(a), Some(b)) => (a, b), _ => return Ok(()) };
    if id.is_empty() && fd.is_empty() { return crate::ops::want_nan(r); }
    let mut e: i64 = 0;
    if let Some(x) = ex {
        let (en, x) = if let Some(y) = x.strip_prefix('-') { (true, y) } else { (false, x.strip_prefix('+').unwrap_or(x)) };
        for d in match dg(x) { Some(d) => d, None => return Ok(()) } { e = (e * radix as i64 + d as i64).min(1 << 40); }
        if en { e = -e }
    }
    let mut all = id.clone(); all.extend(&fd);
    let n = digits_nat(&all, radix);
    if n.is_zero() { return check_num(neg, &n, 0, radix, p, rm, r); }
    let x = e - fd.len() as i64;
    let il = id.iter().skip_while(|d| **d == 0).count() as i64;
    if e + il > EMAX || e + il < EMIN {
        if radix != 10 && e.abs() < 1 << 33 && check_num(neg, &n, x, radix, p, rm, r).is_ok() { return Ok(()); }
        return match r { Val::NaN => Err("unexpected NaN".into()), Val::Inf(s) if e > 0 => if *s == neg { Ok(()) } else { Err("Inf of the wrong sign".into()) },
            Val::Fin(f) if e < 0 && f.is_zero() => Ok(()), Val::Fin(f) if e < 0 && f.n < f.bits() => Ok(()), _ => Err(format!("exponent far out of range gave {}", r.show())) };
    }
    check_num(neg, &n, x, radix, p, rm, r)
}

pub fn check_to_radix(a: &Fin, radix: u64, rm: RoundingMode, s: Sign, d: &[u8], e: i64) -> R {
    if (s == Sign::Neg) != a.neg { return Err("wrong sign".into()); }
    if d.iter().any(|x| *x as u64 >= radix) { return Err("digit out of range".into()); }
    let n = digits_nat(d, radix);
    if a.is_zero() { return if n.is_zero() { Ok(()) } else { Err("digits of zero are not zero".into()) }; }
    if a.n == a.bits() && (d.is_empty() || d[0] == 0) { return Err("leading digit is zero".into()); }
    let x = e - d.len() as i64;
    let sh = match radix { 2 => 1, 8 => 3, 16 => 4, _ => 0 };
    if sh > 0 {
        if cmp_dy(&n, x * sh, &a.m(), a.lsb()) != Ordering::Equal { return Err(format!("digits {:?} exponent {} do not denote the value", d, e)); }
        return Ok(());
    }
    if x.abs() > 20000 || a.lsb().abs() > 60000 { return Ok(()); }
    // decimal: correctly rounded to floor(p*log10(2))+1 significant digits
    let nd = (a.bits() as u64 * 301029996 / 1000000000) as i64 + 1;
    if d.len() as i64 > nd { return Err(format!("{} digits, expected at most {}", d.len(), nd)); }
    let pad = nd - d.len() as i64;
    let n = n.mul(&Nat::from(10).pow(pad as u64));
    let x = x - pad; // result = n * 10^x with nd digits
    // compare |a| = m*2^l with (2n + k) * 10^x / 2
    let cmp = |k: &Nat| -> Ordering {
        // a*2 vs k*10^x
        let p5 = Nat::from(5).pow(x.unsigned_abs());
        if x >= 0 { cmp_dy(&a.m(), a.lsb() + 1, &k.mul(&p5), x) } else { cmp_dy(&a.m().mul(&p5), a.lsb() + 1, k, x) }
    };
    let n2 = n.shl(1);
    let one = Nat::one();
    let two = Nat::from(2);
    let pow10 = { let mut t = n.clone(); loop { let (q, r) = t.divrem(&Nat::from(10)); if !r.is_zero() { break t == Nat::one(); } t = q; } };
    let (dn_half_num, dn_full_num, scale) = if pow10 { (n2.mul_small(10).sub(&one), n2.mul_small(10).sub(&two), true) } else { (n2.sub(&one), n2.sub(&two), false) };
    let cmp_dn = |k: &Nat| -> Ordering {
        if !scale { return cmp(k); }
        let y = x - 1;
        let p5 = Nat::from(5).pow(y.unsigned_abs());
        if y >= 0 { cmp_dy(&a.m(), a.lsb() + 1, &k.mul(&p5), y) } else { cmp_dy(&a.m().mul(&p5), a.lsb() + 1, k, y) }
    };
    let c0 = cmp(&n2);
    if c0 == Ordering::Equal { return Ok(()); }
    let up = c0 == Ordering::Greater; // exact value above the digits
    let odd = n.is_odd();
    let ok = match (dir(rm, a.neg), up) {
        (Dir::Any, true) | (Dir::Zero, true) => cmp(&n2.add(&two)) == Ordering::Less,
        (Dir::Zero, false) | (Dir::Away, true) => false,
        (Dir::Any, false) | (Dir::Away, false) => cmp_dn(&dn_full_num) == Ordering::Greater,
        (Dir::Even, true) => match cmp(&n2.add(&one)) { Ordering::Less => true, Ordering::Equal => !odd, _ => false },
        (Dir::Odd, true) => match cmp(&n2.add(&one)) { Ordering::Less => true, Ordering::Equal => odd, _ => false },
        (Dir::Even, false) => match cmp_dn(&dn_half_num) { Ordering::Greater => true, Ordering::Equal => !odd, _ => false },
        (Dir::Odd, false) => match cmp_dn(&dn_half_num) { Ordering::Greater => true, Ordering::Equal => odd, _ => false },
    };
    if ok { Ok(()) } else { Err(format!("decimal digits are not the {}-digit rounding of the value", nd)) }
}

// ---- constants, in fixed point with CP fractional bits; error below 2^-(CP-40)
const CP: i64 = 9000;
fn divs(n: &Nat, k: u64) -> Nat {
    let mut r = vec![0u64; n.0.len()];
    let mut c = 0u128;
    for i in (0..n.0.len()).rev() { let t = (c << 64) | n.0[i] as u128; r[i] = (t / k as u128) as u64; c = t % k as u128; }
    Nat::words(&r)
}
/// sum (+-1)^k / ((2k+1) x^(2k+1))
fn atan_inv(x: u64, alt: bool) -> Nat {
    let mut t = divs(&Nat::pow2(CP), x);
    let (mut pos, mut negs) = (Nat::zero(), Nat::zero());
    let mut k = 0u64;
    while !t.is_zero() {
        let v = divs(&t, 2 * k + 1);
        if alt && k % 2 == 1 { negs = negs.add(&v) } else { pos = pos.add(&v) }
        t = divs(&t, x * x);
        k += 1;
    }
    pos.sub(&negs)
}
fn consts() -> &'static [Nat; 4] {
    static C: OnceLock<[Nat; 4]> = OnceLock::new();
    C.get_or_init(|| {
        let pi = atan_inv(5, true).mul_small(16).sub(&atan_inv(239, true).mul_small(4));
        let mut e = Nat::zero();
        let mut t = Nat::pow2(CP);
        let mut k = 1;
        while !t.is_zero() { e = e.add(&t); t = divs(&t, k); k += 1; }
        let ln2 = atan_inv(3, false).mul_small(2);
        let ln10 = ln2.mul_small(3).add(&atan_inv(9, false).mul_small(2));
        [pi, e, ln2, ln10]
    })
}
pub fn check_const(which: usize, p: usize, rm: RoundingMode, r: &Val) -> R {
    let v = &consts()[which];
    let bits = round_up64(p);
    assert!((bits as i64) < CP - 200);
    let err = Nat::pow2(40);
    let (lo, hi) = (v.sub(&err), v.add(&err));
    check_result(r, bits, bits, rm, false, true, &|m, e| {
        let (a, b) = (cmp_dy(&lo, -CP, m, e), cmp_dy(&hi, -CP, m, e));
        assert!(a == b, "constant comparison too close");
        a
    }).map(|_| ())
}
