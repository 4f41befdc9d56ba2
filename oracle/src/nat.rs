//! Independent arbitrary-size naturals used as the oracle's arithmetic (schoolbook only; shares no code with /repo).
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Nat(pub Vec<u64>);

impl Nat {
    pub fn zero() -> Nat { Nat(vec![]) }
    pub fn one() -> Nat { Nat(vec![1]) }
    pub fn from(v: u64) -> Nat { Nat(if v == 0 { vec![] } else { vec![v] }) }
    pub fn from_u128(v: u128) -> Nat { Nat::words(&[v as u64, (v >> 64) as u64]) }
    pub fn words(w: &[u64]) -> Nat { let mut n = Nat(w.to_vec()); n.norm(); n }
    fn norm(&mut self) { while let Some(0) = self.0.last() { self.0.pop(); } }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn bits(&self) -> i64 {
        match self.0.last() { None => 0, Some(w) => self.0.len() as i64 * 64 - w.leading_zeros() as i64 }
    }
    pub fn bit(&self, i: i64) -> bool {
        if i < 0 { return false; }
        let (w, b) = ((i / 64) as usize, i % 64);
        w < self.0.len() && (self.0[w] >> b) & 1 == 1
    }
    pub fn is_odd(&self) -> bool { self.bit(0) }
    pub fn is_pow2(&self) -> bool {
        if self.is_zero() { return false; }
        let l = self.0.len();
        self.0[l - 1].is_power_of_two() && self.0[..l - 1].iter().all(|&x| x == 0)
    }
    /// number of trailing zero bits
    pub fn tz(&self) -> i64 {
        let mut n = 0;
        for &w in &self.0 { if w == 0 { n += 64 } else { return n + w.trailing_zeros() as i64; } }
        n
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let (a, b) = if self.0.len() >= o.0.len() { (self, o) } else { (o, self) };
        let mut r = Vec::with_capacity(a.0.len() + 1);
        let mut c = 0u128;
        for i in 0..a.0.len() {
            let s = a.0[i] as u128 + c + if i < b.0.len() { b.0[i] as u128 } else { 0 };
            r.push(s as u64);
            c = s >> 64;
        }
        if c > 0 { r.push(c as u64) }
        Nat(r)
    }
    pub fn sub(&self, o: &Nat) -> Nat {
        assert!(self.cmp(o) != Ordering::Less);
        let mut r = Vec::with_capacity(self.0.len());
        let mut c = 0i128;
        for i in 0..self.0.len() {
            let mut s = self.0[i] as i128 - c - if i < o.0.len() { o.0[i] as i128 } else { 0 };
            if s < 0 { s += 1i128 << 64; c = 1 } else { c = 0 }
            r.push(s as u64);
        }
        let mut n = Nat(r); n.norm(); n
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        if self.is_zero() || o.is_zero() { return Nat::zero(); }
        let mut r = vec![0u64; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            if a == 0 { continue; }
            let mut c = 0u128;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u128 * b as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        let mut n = Nat(r); n.norm(); n
    }
    pub fn mul_small(&self, k: u64) -> Nat { self.mul(&Nat::from(k)) }
    pub fn add_small(&self, k: u64) -> Nat { self.add(&Nat::from(k)) }
    pub fn shl(&self, n: i64) -> Nat {
        if self.is_zero() { return Nat::zero(); }
        if n < 0 { return self.shr(-n); }
        let (w, b) = ((n / 64) as usize, (n % 64) as u32);
        let mut r = vec![0u64; w];
        if b == 0 { r.extend_from_slice(&self.0) } else {
            let mut p = 0u64;
            for &v in &self.0 { r.push((v << b) | (p >> (64 - b))); p = v; }
            r.push(p >> (64 - b));
        }
        let mut n = Nat(r); n.norm(); n
    }
    pub fn shr(&self, n: i64) -> Nat {
        if n < 0 { return self.shl(-n); }
        let (w, b) = ((n / 64) as usize, (n % 64) as u32);
        if w >= self.0.len() { return Nat::zero(); }
        let mut r = Vec::new();
        for i in w..self.0.len() {
            let hi = if i + 1 < self.0.len() { self.0[i + 1] } else { 0 };
            r.push(if b == 0 { self.0[i] } else { (self.0[i] >> b) | (hi << (64 - b)) });
        }
        let mut n = Nat(r); n.norm(); n
    }
    pub fn pow2(n: i64) -> Nat { Nat::one().shl(n) }
    pub fn pow(&self, mut k: u64) -> Nat {
        let mut r = Nat::one();
        let mut b = self.clone();
        while k > 0 { if k & 1 == 1 { r = r.mul(&b) } k >>= 1; if k > 0 { b = b.mul(&b) } }
        r
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        if self.0.len() != o.0.len() { return self.0.len().cmp(&o.0.len()); }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); }
        }
        Ordering::Equal
    }
    /// Knuth division; the result is self-checked by multiplication.
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less { return (Nat::zero(), self.clone()); }
        let s = d.0.last().unwrap().leading_zeros() as i64;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        let n = v.len();
        while u.len() < self.0.len() + 1 { u.push(0) }
        let m = u.len() - n;
        let mut q = vec![0u64; m];
        let top = v[n - 1] as u128;
        for j in (0..m).rev() {
            let num = ((u[j + n] as u128) << 64) | u[j + n - 1] as u128;
            let mut qh = if u[j + n] as u128 >= top { u64::MAX as u128 } else { num / top };
            loop {
                // multiply-subtract trial: compute qh*v and compare with u[j..=j+n]
                let mut prod = Vec::with_capacity(n + 1);
                let mut c = 0u128;
                for &x in &v { let t = qh * x as u128 + c; prod.push(t as u64); c = t >> 64; }
                prod.push(c as u64);
                let seg = &u[j..=j + n];
                let mut less = false; // seg < prod
                for i in (0..=n).rev() { if seg[i] != prod[i] { less = seg[i] < prod[i]; break; } }
                if less { qh -= 1; continue; }
                let mut b = 0i128;
                for i in 0..=n {
                    let mut t = u[j + i] as i128 - prod[i] as i128 - b;
                    if t < 0 { t += 1i128 << 64; b = 1 } else { b = 0 }
                    u[j + i] = t as u64;
                }
                break;
            }
            q[j] = qh as u64;
        }
        let q = Nat::words(&q);
        let r = Nat::words(&u).shr(s);
        debug_assert!(r.cmp(d) == Ordering::Less && q.mul(d).add(&r) == *self);
        (q, r)
    }
    pub fn rem(&self, d: &Nat) -> Nat { self.divrem(d).1 }
}

/// Compare m1*2^e1 with m2*2^e2.
pub fn cmp_dy(m1: &Nat, e1: i64, m2: &Nat, e2: i64) -> Ordering {
    match (m1.is_zero(), m2.is_zero()) {
        (true, true) => return Ordering::Equal,
        (true, false) => return Ordering::Less,
        (false, true) => return Ordering::Greater,
        _ => {}
    }
    let (t1, t2) = (m1.bits() + e1, m2.bits() + e2);
    if t1 != t2 { return t1.cmp(&t2); }
    if e1 >= e2 { m1.shl(e1 - e2).cmp(m2) } else { m1.cmp(&m2.shl(e2 - e1)) }
}
