//! Case generators per property.
use crate::gen::*;
use crate::model::*;
use crate::nat::Nat;
use crate::ops::Case;
use astro_float_num::*;

pub const PROPS: [&str; 18] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"];

fn rmode(r: &mut Rng) -> RoundingMode { *r.pick(&RMS) }

fn addsub(r: &mut Rng, full: bool) -> Case {
    let a = fin(r);
    let p = prec(r, a.bits() as i64);
    let mut b = related(r, &a, p);
    if full { // keep the exponent gap affordable
        if !a.is_zero() && !b.is_zero() && (a.e - b.e).abs() > 2000 { b.e = (a.e + r.range(-300, 300)).clamp(EMIN, EMAX); b = fix(b); }
        if b.n != b.bits() && b.n != 0 && b.e != EMIN { b = fix(b) }
    }
    let op = match (full, r.chance(1, 2)) { (false, true) => "add", (false, false) => "sub", (true, true) => "add_full", _ => "sub_full" };
    let (a, b) = if r.chance(1, 4) { (b, a) } else { (a, b) };
    Case::new(op, p, rmode(r), vec![Val::Fin(a), Val::Fin(b)])
}

/// operands whose product / quotient / root is at or next to a rounding boundary of precision p
fn boundary_nat(r: &mut Rng, p: usize) -> Nat {
    let bits = round_up64(p);
    let mut q = Nat::words(&mant(r, bits / 64));
    match r.below(4) { 0 => q, 1 => { q = q.shl(1).add_small(1); q } 2 => q.shl(64 * r.range(0, 2)), _ => q.shl(2).add_small(1) }
}

fn mulcase(r: &mut Rng, big: bool) -> Case {
    let (a, b, p);
    if big {
        let l = *r.pick(&[30usize, 32, 33, 34, 40, 64, 65, 70, 71, 72, 100, 140, 150, 219, 220, 221, 230, 300, 450, 460]);
        let l2 = if r.chance(1, 3) { l } else { match r.below(4) { 0 => 33 + r.below(40) as usize, 1 => l + 1, 2 => (l / 2).max(1), _ => 1 + r.below(l as u64) as usize } };
        a = fin_len(r, l); b = fin_len(r, l2); p = prec(r, (a.bits() + b.bits()) as i64);
    } else {
        a = fin(r);
        p = prec(r, a.bits() as i64);
        b = if r.chance(1, 3) && !a.is_zero() { // quotient chosen so that the product is close to a boundary
            let t = boundary_nat(r, p);
            let am = a.m();
            let (q, _) = t.shl((am.bits() - t.bits() + 70).max(0)).divrem(&am);
            from_nat(r.chance(1, 2), &if r.chance(1, 2) { q.add_small(1) } else { q }, 0, 0).map(|mut f| { f.e = exp(r); f }).unwrap_or_else(|| fin(r))
        } else { related(r, &a, p) };
    }
    let (a, b) = if r.chance(1, 2) { (b, a) } else { (a, b) };
    Case::new("mul", p, rmode(r), vec![Val::Fin(a), Val::Fin(b)])
}

fn divcase(r: &mut Rng, big: bool) -> Case {
    let b = if big { let l = *r.pick(&[69usize, 70, 71, 72, 80, 90, 100, 140]); fin_len(r, l) } else { fin(r) };
    let p = if big { 64 * r.range(60, 200) as usize } else { prec(r, b.bits() as i64) };
    if b.is_zero() || r.chance(1, 6) { let a = fin(r); if r.chance(1, 4) { return Case::new("recip", p, rmode(r), vec![Val::Fin(a)]); } return Case::new("div", p, rmode(r), if r.chance(1, 2) { vec![Val::Fin(a), Val::Fin(b)] } else { vec![Val::Fin(b), Val::Fin(a)] }); }
    if !big && r.chance(1, 8) { return Case::new("recip", p, rmode(r), vec![Val::Fin(b)]); }
    let a = if r.chance(2, 3) {
        let q = boundary_nat(r, p);
        let mut t = q.mul(&b.m());
        match r.below(4) { 0 => t = t.add_small(1), 1 => t = t.sub(&Nat::one()), 2 => t = t.add(&b.m().shr(1)), _ => {} }
        let mut f = from_nat(r.chance(1, 2), &t, 0, r.below(2) as usize).unwrap_or_else(|| fin(r));
        if f.is_zero() { fin(r) } else {
            f.e = if r.chance(1, 4) { (b.e + *r.pick(&[EMIN, EMIN - 1, EMIN - 63, EMIN - 64, EMIN - 65, EMAX, EMAX + 1, EMAX - 1, EMIN + 1])).clamp(EMIN, EMAX) } else { exp(r) };
            f
        }
    } else { related(r, &b, p) };
    Case::new("div", p, rmode(r), vec![Val::Fin(a), Val::Fin(b)])
}

fn rootcase(r: &mut Rng, big: bool) -> Case {
    let cb = r.chance(1, 3);
    let op = if cb { "cbrt" } else { "sqrt" };
    let a0 = if big { let l = r.range(5, 60) as usize; fin_len(r, l) } else { fin(r) };
    let p = prec(r, a0.bits() as i64);
    let a = if r.chance(1, 2) {
        let mut q = boundary_nat(r, p.min(if cb { 600 } else { 2000 }));
        if r.chance(1, 3) { q = Nat::from(r.next() >> r.below(63)).add_small(1) }
        let mut t = q.pow(if cb { 3 } else { 2 });
        match r.below(3) { 0 => t = t.add_small(1), 1 => t = t.sub(&Nat::one()), _ => {} }
        let k = if cb { 3 } else { 2 };
        let sc = exp(r) / k * k - t.bits() / k * k;
        from_nat(cb && r.chance(1, 2), &t, sc, r.below(2) as usize).unwrap_or_else(|| a0.clone())
    } else { a0 };
    let mut a = a;
    if !cb && !r.chance(1, 10) { a.neg = false; }
    Case::new(op, p, rmode(r), vec![Val::Fin(a)])
}

fn hexwords(w: &[u64]) -> String { w.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(",") }

fn digits(r: &mut Rng, radix: u64, n: usize) -> Vec<u8> {
    let st = r.below(4);
    (0..n).map(|_| match st { 0 => r.below(radix) as u8, 1 => (radix - 1) as u8, 2 => *r.pick(&[0, 0, 0, 1, (radix / 2) as u8, (radix - 1) as u8]), _ => if r.chance(1, 8) { r.below(radix) as u8 } else { 0 } }).collect()
}
const DG: &[u8] = b"0123456789abcdef";
fn dstr(d: &[u8]) -> String { d.iter().map(|x| DG[*x as usize] as char).collect() }

fn radix_num(mut v: u64, radix: u64) -> String { let mut s = vec![]; loop { s.push(DG[(v % radix) as usize]); v /= radix; if v == 0 { break } } s.reverse(); String::from_utf8(s).unwrap() }

fn parsecase(r: &mut Rng) -> Case {
    let radix = *r.pick(&[2u64, 8, 10, 16, 10]);
    let mut s = String::new();
    s.push_str(*r.pick(&["", "", "+", "-"]));
    if r.chance(1, 40) { s.push_str(*r.pick(&["inf", "Inf", "INF", "NaN", "nan"])); } else {
        let maxd = if r.chance(1, 10) { 200 } else { 30 };
        let (i, f) = (r.below(maxd), r.below(maxd));
        let (mut i, f) = if i + f == 0 { (1, 0) } else { (i, f) };
        if r.chance(1, 6) { i = 0; if f == 0 { i = 1 } }
        if r.chance(1, 5) { for _ in 0..r.below(70) { s.push('0') } }
        let d = digits(r, radix, i as usize); s.push_str(&dstr(&d));
        if f > 0 || r.chance(1, 4) { s.push('.'); }
        if r.chance(1, 6) { for _ in 0..r.below(70) { s.push('0') } }
        let d = digits(r, radix, f as usize); s.push_str(&dstr(&d));
        if r.chance(1, 3) { s = s.to_uppercase(); }
        if r.chance(1, 2) {
            s.push_str(if radix == 16 { *r.pick(&["_e", "_E"]) } else { *r.pick(&["e", "E"]) });
            s.push_str(*r.pick(&["", "+", "-"]));
            let sh = match radix { 2 => 1, 8 => 3, 16 => 4, _ => 0 };
            let e = match r.below(8) { 0 => 0, 1..=4 => r.below(60), 5 => r.below(400), 6 if sh > 0 => (1u64 << 31) / sh + r.below(300) - 150, 7 if sh > 0 => r.below((1u64 << 31) / sh), 7 => *r.pick(&[1u64 << 31, (1 << 31) + 5, (1 << 31) - 1, 1 << 40, 999999999999999999]), _ => r.below(2000) };
            s.push_str(&radix_num(e, radix));
        }
    }
    let p = if r.chance(1, 6) { usize::MAX } else { prec(r, 128) };
    let mut c = Case::new("parse", p, rmode(r), vec![]);
    c.k = vec![radix as i128];
    c.s = s;
    c
}

pub fn gen(prop: &str, r: &mut Rng) -> Case {
    match prop {
        "C01" => addsub(r, false),
        "C02" => { let big = r.chance(1, 40); mulcase(r, big) }
        "C03" => { let big = r.chance(1, 200); divcase(r, big) }
        "C04" => { let big = r.chance(1, 50); rootcase(r, big) }
        "C05" => { // exact operations
            if r.chance(1, 2) { return if r.chance(1, 2) { addsub(r, true) } else { let mut c = mulcase(r, false); c.op = "mul_full".into(); c }; }
            let a = fin(r);
            let mut b = if r.chance(1, 2) { fin(r) } else { related(r, &a, 64) };
            if r.chance(1, 3) && !b.is_zero() { // exact multiples and near multiples
                let q = Nat::words(&[r.next() | 1, r.next()]);
                let t = b.m().mul(&q);
                let t = match r.below(3) { 0 => t.add_small(1), 1 => t.sub(&Nat::one()), _ => t };
                if let Some(f) = from_nat(r.chance(1, 2), &t, b.lsb() + r.range(-3, 3), 0) { return Case::new("rem", 64, RoundingMode::None, vec![Val::Fin(f), Val::Fin(b)]); }
            }
            if !a.is_zero() && !b.is_zero() && a.e - b.e > 200000 && b.w.len() > 8 { b = small_fin(r); }
            Case::new("rem", 64, RoundingMode::None, vec![Val::Fin(a), Val::Fin(b)])
        }
        "C06" => {
            let a = if r.chance(1, 8) { special(r) } else { Val::Fin(fin(r)) };
            let b = if r.chance(1, 8) { special(r) } else if let Val::Fin(f) = &a { Val::Fin(related(r, f, 64)) } else { special(r) };
            let mut v = vec![a, b];
            if r.chance(1, 3) { let c = if r.chance(1, 4) { special(r) } else if let Val::Fin(f) = &v[0] { Val::Fin(related(r, f, 64)) } else { special(r) }; v.push(c) }
            // same value at another length
            if r.chance(1, 8) { if let Val::Fin(f) = &v[0] { let mut g = f.clone(); for _ in 0..1 + r.below(2) { g.w.insert(0, 0) } if !g.is_zero() { g.n += (g.w.len() - f.w.len()) * 64 } if r.chance(1, 3) { g.neg = !g.neg } v[1] = Val::Fin(g); } }
            Case::new("cmp", 64, RoundingMode::None, v)
        }
        "C07" => {
            if r.chance(1, 3) {
                let a = fin(r);
                let lsb = -a.lsb();
                let n = match r.below(4) { 0 => r.below(200) as i64, 1 => lsb - r.range(0, a.bits() as i64 + 3), 2 => lsb - a.bits() as i64 + r.range(-2, 2), _ => r.range(0, a.bits() as i64 * 2) }.max(0);
                let mut c = Case::new("round", 64, rmode(r), vec![Val::Fin(a)]);
                c.k = vec![n as i128];
                return c;
            }
            let a = fin(r);
            let p = if r.chance(1, 2) { r.range(1, a.bits() as i64 + 70) as usize } else { prec(r, a.bits() as i64) };
            if r.chance(1, 5) && !a.is_zero() && a.bits() > 70 && a.n == a.bits() {
                let p = r.range(1, a.bits() as i64 - 4) as usize;
                let mut c = Case::new("tryset", p, rmode(r), vec![Val::Fin(a.clone())]);
                c.k = vec![r.range(p as i64 + 1, a.bits() as i64) as i128];
                return c;
            }
            Case::new("setprec", p, rmode(r), vec![Val::Fin(a)])
        }
        "C08" => { let a = if r.chance(1, 20) { special(r) } else { Val::Fin(fin(r)) }; Case::new("intpart", 64, RoundingMode::None, vec![a]) }
        "C09" => { // subnormal and range-limit results of the four operations
            let mut c = match r.below(5) { 0 | 1 => addsub(r, false), 2 => mulcase(r, false), 3 => divcase(r, false), _ => { let a = fin(r); let mut c = Case::new("set_exponent", 64, RoundingMode::None, vec![Val::Fin(a)]); c.k = vec![exp(r) as i128]; return c } };
            let t = [EMIN, EMIN - 1, EMIN + 1, EMIN - 32, EMIN - 63, EMIN - 64, EMIN - 65, EMIN - 127, EMIN - 128, EMIN - 129, EMAX, EMAX + 1, EMAX - 1, EMIN + 64];
            let t = *r.pick(&t);
            let near = r.range(-2, 2);
            let force = |f: &mut Fin, e: i64| { if !f.is_zero() { let m = f.m(); let l = f.w.len(); f.w = m.shl(64 * l as i64 - m.bits()).0; f.n = 64 * l; f.e = e.clamp(EMIN, EMAX); } };
            match c.op.as_str() {
                "add" | "sub" => { let e2 = t + near; let d = r.range(-130, 130); if let Val::Fin(f) = &mut c.a[0] { force(f, e2 + d.max(0)) } if r.chance(1, 2) { let d2 = r.range(0, 3); if let Val::Fin(f) = &mut c.a[1] { force(f, e2 + d2) } } }
                "mul" => { let ea = exp(r); if let Val::Fin(f) = &mut c.a[0] { force(f, ea) } if let Val::Fin(f) = &mut c.a[1] { force(f, t + near - ea) } }
                "div" => { let eb = exp(r); if let Val::Fin(f) = &mut c.a[1] { force(f, eb) } if let Val::Fin(f) = &mut c.a[0] { force(f, t + near + eb) } }
                _ => {}
            }
            c
        }
        "C10" => { // special values through every arithmetic operation
            let op = *r.pick(&["add", "sub", "mul", "div", "rem", "recip", "sqrt", "cbrt", "add_full", "mul_full", "sub_full", "powi", "special1", "special_pow", "unary"]);
            let p = *r.pick(&[1usize, 64, 65, 128, 200]);
            if op == "special_pow" {
                let vals: [(f64, f64, f64); 17] = [(0.5, f64::INFINITY, 0.0), (2.0, f64::INFINITY, f64::INFINITY), (f64::INFINITY, 2.0, f64::INFINITY), (f64::NEG_INFINITY, 3.0, f64::NEG_INFINITY),
                    (f64::NEG_INFINITY, 2.0, f64::INFINITY), (f64::INFINITY, -2.0, 0.0), (f64::NEG_INFINITY, -3.0, 0.0), (f64::INFINITY, 0.0, 1.0), (f64::NEG_INFINITY, 0.0, 1.0), (f64::INFINITY, f64::INFINITY, f64::INFINITY), (f64::INFINITY, f64::NEG_INFINITY, 0.0),
                    (0.0, 2.0, 0.0), (0.0, 0.0, 1.0), (3.0, 0.0, 1.0), (-3.0, 0.0, 1.0), (1.0, 5.0, 1.0), (-2.0, 0.5, f64::NAN)];
                let (x, y, z) = *r.pick(&vals);
                let v = |x: f64| Val::of(&BigFloat::from_f64(x, 64));
                let v2 = |x: f64| if x == 0.0 { Val::Fin(Fin::zero(1)) } else { v(x) };
                let mut c = Case::new(op, (*r.pick(&[64usize, 128, 200])).max(8), rmode(r), vec![v2(x), v2(y)]);
                c.s = format!("{}", z);
                return c;
            }
            let p = if op == "powi" { p.max(8) } else { p };
            let mut c = { let m = rmode(r); Case::new(op, p, m, { let x = special(r); vec![x, special(r)] }) };
            if matches!(op, "recip" | "sqrt" | "cbrt" | "powi" | "special1" | "unary") { c.a.truncate(1); }
            if op == "powi" { c.k = vec![r.below(6) as i128]; }
            if op.ends_with("full") { if let (Val::Fin(a), Val::Fin(b)) = (&c.a[0], &c.a[1]) { if (a.e - b.e).abs() > 2000 { c.a[1] = Val::NaN } } }
            c
        }
        "C11" => match r.below(8) { // exact construction
            0 => { let l = r.below(5) as usize; let mut w = if l > 0 { mant(r, l) } else { vec![] }; if l > 0 && r.chance(1, 2) { let s = r.range(0, 64 * l as i64); w = Nat::words(&w).shr(s).0; w.resize(l, 0); }
                let n = if r.chance(3, 4) { Nat::words(&w).bits() } else { r.range(0, 64 * l as i64 + 70) };
                let e = if r.chance(1, 2) { EMIN } else { exp(r) };
                let mut c = Case::new("raw_parts", 64, RoundingMode::None, vec![]); c.s = hexwords(&w); c.k = vec![n as i128, e as i128, r.below(2) as i128, r.below(2) as i128]; c }
            1 => { let l = 1 + r.below(5) as usize; let mut w = mant(r, l); if r.chance(2, 3) { let s = r.range(0, 64 * l as i64); w = Nat::words(&w).shr(s).0; w.resize(l, 0); }
                let mut c = Case::new("from_words", 64, RoundingMode::None, vec![]); c.s = hexwords(&w); c.k = vec![exp(r) as i128, r.below(2) as i128]; c }
            2 | 3 | 4 => { let mut c = Case::new("from_int", *r.pick(&[1usize, 8, 16, 31, 32, 63, 64, 65, 127, 128, 129, 192, 256]), RoundingMode::None, vec![]);
                c.s = r.pick(&["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "word"]).to_string();
                let v = ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128);
                let v = match r.below(5) { 0 => *r.pick(&[0i128, 1, -1, i128::MIN, i128::MAX, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, 1 << 64, 1 << 63, i32::MIN as i128, i16::MIN as i128, i8::MIN as i128, 255, 256, 128, 127]), 1 => 1i128 << r.below(127), 2 => -(1i128 << r.below(127)), _ => v as i128 };
                c.k = vec![v]; c }
            5 => { let mut c = Case::new("from_f64", *r.pick(&[1usize, 32, 53, 64, 65, 128, 200]), RoundingMode::None, vec![]);
                let v = match r.below(6) { 0 => r.next() & ((1 << 52) - 1) >> r.below(52), 1 => *r.pick(&[0u64, 1 << 63, 1, f64::MAX.to_bits(), f64::MIN_POSITIVE.to_bits(), f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), f64::NAN.to_bits(), 1f64.to_bits(), 0x000fffffffffffff]), 2 => (r.next() & ((1 << 52) - 1)) | 1 << 63, _ => r.next() };
                c.k = vec![v as i128]; c }
            6 => { let mut c = Case::new("from_f32", *r.pick(&[1usize, 24, 64, 65, 128]), RoundingMode::None, vec![]);
                let v = match r.below(4) { 0 => r.next() as u32 & 0x7fffff, 1 => *r.pick(&[0u32, 1 << 31, 1, 0x7f800000, 0xff800000, 0x7fc00000, 0x007fffff]), _ => r.next() as u32 };
                c.k = vec![v as i128]; c }
            _ => { let mut c = Case::new("limits", r.range(1, 300) as usize, RoundingMode::None, vec![]); c.k = vec![r.below(1000) as i128]; c }
        },
        "C12" => { let a = if r.chance(1, 10) { special(r) } else { Val::Fin(fin(r)) }; Case::new("unary", 64, RoundingMode::None, vec![a]) }
        "C13" => { // numerals -> numbers
            if r.chance(2, 3) { return parsecase(r); }
            let radix = *r.pick(&[2u64, 8, 10, 16]);
            let n = { let m = if r.chance(1, 10) { 260 } else { 70 }; 1 + r.below(m) as usize };
            let mut d = digits(r, radix, n);
            if r.chance(1, 4) { for x in d.iter_mut().take(1 + r.below(n as u64) as usize) { *x = 0 } }
            if r.chance(1, 60) { let i = r.below(n as u64) as usize; d[i] = radix as u8; }
            let sh = match radix { 2 => 1, 8 => 3, 16 => 4, _ => 0 };
            let e = if sh > 0 { let e = exp(r); if r.chance(1, 2) { e / sh } else { e } } else { r.range(-400, 400) };
            let mut c = Case::new("from_radix", if r.chance(1, 6) { usize::MAX } else { prec(r, 128) }, rmode(r), vec![]);
            c.s = d.iter().map(|x| char::from_digit(*x as u32, 36).unwrap()).collect();
            c.k = vec![radix as i128, e as i128, r.below(2) as i128];
            c
        }
        "C14" => { // numbers -> numerals
            let radix = *r.pick(&[2u64, 8, 16, 10]);
            let mut a = if r.chance(1, 4) { fin(r) } else { small_fin(r) };
            if radix == 10 { if !a.is_zero() && a.e.abs() > 3000 { let m = a.m(); let l = a.w.len(); a.w = m.shl(64 * l as i64 - m.bits()).0; a.n = 64 * l; a.e = r.range(-700, 700); } }
            let v = if r.chance(1, 40) { special(r) } else { Val::Fin(a) };
            let op = if radix != 10 && r.chance(1, 2) { "fmt_roundtrip" } else { "to_radix" };
            let big = v.fin().map_or(false, |f| f.e.abs() > 100000);
            let mut c = Case::new(op, 64, rmode(r), vec![v]);
            c.k = vec![radix as i128];
            if radix != 10 && op == "to_radix" { c.k.push(1) }
            let _ = big;
            c
        }
        "C15" => { // constants
            let n = 1 + r.below(6);
            let mut k = vec![];
            for _ in 0..n { let p = match r.below(6) { 0 => 64, 1 => r.range(1, 64), 2 => r.range(65, 300), 3 => r.range(300, 1500), 4 => 64 * r.range(1, 20), _ => r.range(1, 4000) }; k.push(r.below(4) as i128); k.push(p as i128); k.push(r.below(7) as i128); }
            let mut c = Case::new("consts", 64, RoundingMode::None, vec![]); c.k = k; c
        }
        "C16" => {
            let mut ex = |r: &mut Rng| -> i128 { (match r.below(4) { 0 => r.range(EMIN, EMAX), 1 => *r.pick(&[EMIN, EMAX, 0, 1, -1, EMIN + 1, EMAX - 1]), _ => r.range(-100, 100) }) as i128 };
            if r.chance(1, 2) {
                let a = if r.chance(1, 12) { special(r) } else { Val::Fin(fin(r)) };
                let (x, y) = (ex(r).min(0), ex(r).max(0));
                let (x, y) = match a.fin() { Some(f) if r.chance(1, 2) && !f.is_zero() => if f.e > 0 { (x, (f.e as i128 + r.range(-1, 1) as i128).clamp(0, EMAX as i128)) } else { ((f.e as i128 + r.range(-1, 1) as i128).clamp(EMIN as i128, 0), y) }, _ => (x, y) };
                let mut c = Case::new("exp_range", 64, RoundingMode::None, vec![a]); c.k = vec![x, y]; c
            } else {
                let mut c = Case::new("ctx", r.range(1, 300) as usize, rmode(r), vec![]);
                c.k = vec![ex(r), ex(r), ex(r), ex(r), r.range(1, 300) as i128, r.below(7) as i128];
                c
            }
        }
        "C17" => { // powi
            let a = small_fin(r);
            let mut a = a;
            let n = match r.below(5) { 0 => 0, 1 => 1, 2 => 2, _ => r.below(30) };
            if !a.is_zero() && n > 0 && r.chance(2, 3) { a.e = a.e.clamp(EMIN, EMAX) / n as i64; a = fix(Fin { e: a.e.max(EMIN + 300), ..a }); }
            let mut c = Case::new("powi", prec(r, 128).max(8), rmode(r), vec![Val::Fin(a)]); c.k = vec![n as i128]; c
        }
        "C18" => { let q = *r.pick(&["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C16", "C17"]); gen(q, r) }
        _ => { let a = small_fin(r); Case::new("serde", 64, RoundingMode::None, vec![Val::Fin(a)]) }
    }
}
