//! Independent reference integers/rationals (schoolbook, no code shared with hmath).
use std::cmp::Ordering;

/// Non-negative integer, little-endian u32 limbs, no trailing zero limbs; zero is the empty vector.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Nat(pub Vec<u32>);

impl std::fmt::Debug for Nat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.short())
    }
}

fn trim(mut v: Vec<u32>) -> Nat {
    while let Some(0) = v.last() {
        v.pop();
    }
    Nat(v)
}

impl Nat {
    pub fn zero() -> Nat { Nat(vec![]) }
    pub fn one() -> Nat { Nat(vec![1]) }
    pub fn from_limbs(v: Vec<u32>) -> Nat { trim(v) }
    pub fn u(n: u128) -> Nat {
        trim(vec![n as u32, (n >> 32) as u32, (n >> 64) as u32, (n >> 96) as u32])
    }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn is_one(&self) -> bool { self.0.len() == 1 && self.0[0] == 1 }
    pub fn is_even(&self) -> bool { self.0.first().map_or(true, |x| x % 2 == 0) }
    /// hmath raw form
    pub fn raw(&self) -> Vec<u32> {
        if self.0.is_empty() { vec![0] } else { self.0.clone() }
    }
    pub fn limbs(&self) -> usize { self.0.len() }
    pub fn bits(&self) -> u64 {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() as u64 * 32 - t.leading_zeros() as u64,
        }
    }
    pub fn bit(&self, i: u64) -> bool {
        let l = (i / 32) as usize;
        l < self.0.len() && (self.0[l] >> (i % 32)) & 1 == 1
    }
    pub fn trailing_zeros(&self) -> u64 {
        let mut i = 0;
        if self.is_zero() { return 0; }
        while !self.bit(i) { i += 1; }
        i
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 { return None; }
        let mut r = 0u128;
        for (i, l) in self.0.iter().enumerate() { r |= (*l as u128) << (32 * i); }
        Some(r)
    }
    pub fn to_u64(&self) -> Option<u64> {
        self.to_u128().and_then(|x| u64::try_from(x).ok())
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let (a, b) = if self.0.len() >= o.0.len() { (&self.0, &o.0) } else { (&o.0, &self.0) };
        let mut r = Vec::with_capacity(a.len() + 1);
        let mut c = 0u64;
        for i in 0..a.len() {
            let s = a[i] as u64 + if i < b.len() { b[i] as u64 } else { 0 } + c;
            r.push(s as u32);
            c = s >> 32;
        }
        r.push(c as u32);
        trim(r)
    }
    /// self - o; None when negative
    pub fn sub(&self, o: &Nat) -> Option<Nat> {
        if self.cmp(o) == Ordering::Less { return None; }
        let mut r = Vec::with_capacity(self.0.len());
        let mut bor = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - bor - if i < o.0.len() { o.0[i] as i64 } else { 0 };
            bor = 0;
            if d < 0 { d += 1 << 32; bor = 1; }
            r.push(d as u32);
        }
        Some(trim(r))
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        if self.is_zero() || o.is_zero() { return Nat::zero(); }
        let mut r = vec![0u32; self.0.len() + o.0.len()];
        for i in 0..self.0.len() {
            let mut c = 0u64;
            let a = self.0[i] as u64;
            for j in 0..o.0.len() {
                let t = a * o.0[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        trim(r)
    }
    pub fn mul_u(&self, k: u32) -> Nat { self.mul(&Nat::u(k as u128)) }
    pub fn divrem_u(&self, k: u32) -> (Nat, u32) {
        let mut r = 0u64;
        let mut q = vec![0u32; self.0.len()];
        for i in (0..self.0.len()).rev() {
            let cur = (r << 32) | self.0[i] as u64;
            q[i] = (cur / k as u64) as u32;
            r = cur % k as u64;
        }
        (trim(q), r as u32)
    }
    pub fn shl(&self, n: u64) -> Nat {
        if self.is_zero() { return Nat::zero(); }
        let (l, b) = ((n / 32) as usize, n % 32);
        let mut r = vec![0u32; l];
        let mut c = 0u64;
        for x in self.0.iter() {
            let t = ((*x as u64) << b) | c;
            r.push(t as u32);
            c = t >> 32;
        }
        r.push(c as u32);
        trim(r)
    }
    pub fn shr(&self, n: u64) -> Nat {
        let (l, b) = ((n / 32) as usize, n % 32);
        if l >= self.0.len() { return Nat::zero(); }
        let mut r = Vec::with_capacity(self.0.len() - l);
        for i in l..self.0.len() {
            let hi = if i + 1 < self.0.len() { self.0[i + 1] as u64 } else { 0 };
            let t = ((hi << 32) | self.0[i] as u64) >> b;
            r.push(t as u32);
        }
        trim(r)
    }
    pub fn low_bits(&self, n: u64) -> Nat {
        self.sub(&self.shr(n).shl(n)).unwrap()
    }
    /// Knuth algorithm D
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less { return (Nat::zero(), self.clone()); }
        if d.0.len() == 1 {
            let (q, r) = self.divrem_u(d.0[0]);
            return (q, Nat::u(r as u128));
        }
        let s = d.0.last().unwrap().leading_zeros() as u64;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        let n = v.len();
        while u.len() < self.0.len() + 1 { u.push(0); }
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        let b = 1u64 << 32;
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= b || (qh as u128 * v[n - 2] as u128) > (((rh as u128) << 32) | u[j + n - 2] as u128) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= b { break; }
            }
            let mut bor = 0i64;
            let mut c = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + c;
                c = p >> 32;
                let t = u[i + j] as i64 - bor - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                bor = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - bor - c as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        (trim(q), trim(u).shr(s))
    }
    pub fn div(&self, d: &Nat) -> Nat { self.divrem(d).0 }
    pub fn rem(&self, d: &Nat) -> Nat { self.divrem(d).1 }
    pub fn pow(&self, mut e: u64) -> Nat {
        let mut r = Nat::one();
        let mut b = self.clone();
        while e > 0 {
            if e & 1 == 1 { r = r.mul(&b); }
            e >>= 1;
            if e > 0 { b = b.mul(&b); }
        }
        r
    }
    pub fn gcd(&self, o: &Nat) -> Nat {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn pow10(e: u64) -> Nat { Nat::u(10).pow(e) }
    /// floor sqrt (bit-by-bit Newton from above)
    pub fn isqrt(&self) -> Nat {
        if self.is_zero() { return Nat::zero(); }
        let mut x = Nat::one().shl((self.bits() + 1) / 2);
        loop {
            let y = x.add(&self.div(&x)).shr(1);
            if y.cmp(&x) != Ordering::Less { return x; }
            x = y;
        }
    }
    pub fn parse_radix(s: &str, radix: u32) -> Nat {
        let mut r = Nat::zero();
        for c in s.chars() {
            r = r.mul_u(radix).add(&Nat::u(c.to_digit(radix).unwrap() as u128));
        }
        r
    }
    pub fn dec(&self) -> String {
        if self.is_zero() { return "0".into(); }
        let mut parts = vec![];
        let mut x = self.clone();
        while !x.is_zero() {
            let (q, r) = x.divrem_u(1_000_000_000);
            parts.push(r);
            x = q;
        }
        let mut s = parts.last().unwrap().to_string();
        for p in parts.iter().rev().skip(1) { s.push_str(&format!("{:09}", p)); }
        s
    }
    pub fn radix(&self, radix: u32) -> String {
        if self.is_zero() { return "0".into(); }
        let mut v = vec![];
        let bits = match radix { 16 => 4, 8 => 3, 2 => 1, _ => unreachable!() };
        let n = self.bits();
        let mut i = 0;
        while i < n {
            let mut d = 0u32;
            for k in 0..bits { if self.bit(i + k) { d |= 1 << k; } }
            v.push(std::char::from_digit(d, radix).unwrap());
            i += bits;
        }
        v.iter().rev().collect()
    }
    pub fn short(&self) -> String {
        if self.0.len() <= 6 { self.dec() } else { format!("0x{}", self.radix(16)) }
    }
}

impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Nat) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for Nat {
    fn cmp(&self, o: &Nat) -> Ordering {
        if self.0.len() != o.0.len() { return self.0.len().cmp(&o.0.len()); }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); }
        }
        Ordering::Equal
    }
}

/// Signed integer; neg is false for zero.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Int {
    pub neg: bool,
    pub mag: Nat,
}
impl std::fmt::Debug for Int {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}{:?}", if self.neg { "-" } else { "" }, self.mag)
    }
}
impl Int {
    pub fn new(neg: bool, mag: Nat) -> Int { Int { neg: neg && !mag.is_zero(), mag } }
    pub fn zero() -> Int { Int::new(false, Nat::zero()) }
    pub fn one() -> Int { Int::new(false, Nat::one()) }
    pub fn i(n: i128) -> Int { Int::new(n < 0, Nat::u(n.unsigned_abs())) }
    pub fn nat(n: &Nat) -> Int { Int::new(false, n.clone()) }
    pub fn is_zero(&self) -> bool { self.mag.is_zero() }
    pub fn neg(&self) -> Int { Int::new(!self.neg, self.mag.clone()) }
    pub fn abs(&self) -> Int { Int::new(false, self.mag.clone()) }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg { return Int::new(self.neg, self.mag.add(&o.mag)); }
        match self.mag.sub(&o.mag) {
            Some(d) => Int::new(self.neg, d),
            None => Int::new(o.neg, o.mag.sub(&self.mag).unwrap()),
        }
    }
    pub fn sub(&self, o: &Int) -> Int { self.add(&o.neg()) }
    pub fn mul(&self, o: &Int) -> Int { Int::new(self.neg != o.neg, self.mag.mul(&o.mag)) }
    /// truncated division
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        let (q, r) = self.mag.divrem(&o.mag);
        (Int::new(self.neg != o.neg, q), Int::new(self.neg, r))
    }
    pub fn div(&self, o: &Int) -> Int { self.divrem(o).0 }
    pub fn rem(&self, o: &Int) -> Int { self.divrem(o).1 }
    pub fn div_floor(&self, o: &Int) -> Int {
        let (q, r) = self.divrem(o);
        if !r.is_zero() && (r.neg != o.neg) { q.sub(&Int::one()) } else { q }
    }
    pub fn pow(&self, e: u64) -> Int { Int::new(self.neg && e % 2 == 1, self.mag.pow(e)) }
    /// floor shift
    pub fn shr_floor(&self, n: u64) -> Int {
        let q = self.mag.shr(n);
        if self.neg && self.mag != q.shl(n) { Int::new(true, q.add(&Nat::one())) } else { Int::new(self.neg, q) }
    }
    pub fn shl(&self, n: u64) -> Int { Int::new(self.neg, self.mag.shl(n)) }
    pub fn to_i128(&self) -> Option<i128> {
        let m = self.mag.to_u128()?;
        if self.neg {
            if m <= 1u128 << 127 { Some((m as i128).wrapping_neg()) } else { None }
        } else { i128::try_from(m).ok() }
    }
    pub fn dec(&self) -> String { format!("{}{}", if self.neg { "-" } else { "" }, self.mag.dec()) }
}
impl PartialOrd for Int {
    fn partial_cmp(&self, o: &Int) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for Int {
    fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
}

/// Reduced rational, den > 0.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Rat {
    pub n: Int,
    pub d: Nat,
}
impl std::fmt::Debug for Rat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.d.is_one() { write!(f, "{:?}", self.n) } else { write!(f, "{:?}/{:?}", self.n, self.d) }
    }
}
impl Rat {
    pub fn new(n: Int, d: Int) -> Rat {
        assert!(!d.is_zero());
        let g = n.mag.gcd(&d.mag);
        let nn = n.mag.div(&g);
        let dd = d.mag.div(&g);
        Rat { n: Int::new(n.neg != d.neg, nn), d: dd }
    }
    pub fn int(n: Int) -> Rat { Rat { n, d: Nat::one() } }
    pub fn i(n: i128) -> Rat { Rat::int(Int::i(n)) }
    pub fn zero() -> Rat { Rat::i(0) }
    pub fn one() -> Rat { Rat::i(1) }
    pub fn frac(n: i128, d: i128) -> Rat { Rat::new(Int::i(n), Int::i(d)) }
    /// m * 2^e
    pub fn pow2(m: Int, e: i64) -> Rat {
        if e >= 0 { Rat::int(m.shl(e as u64)) } else { Rat::new(m, Int::nat(&Nat::one().shl(-e as u64))) }
    }
    pub fn pow10(e: i64) -> Rat {
        let p = Nat::pow10(e.unsigned_abs());
        if e >= 0 { Rat::int(Int::nat(&p)) } else { Rat { n: Int::one(), d: p } }
    }
    pub fn is_zero(&self) -> bool { self.n.is_zero() }
    pub fn is_neg(&self) -> bool { self.n.neg }
    pub fn den(&self) -> Int { Int::nat(&self.d) }
    pub fn add(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.den()).add(&o.n.mul(&self.den())), self.den().mul(&o.den()))
    }
    pub fn neg(&self) -> Rat { Rat { n: self.n.neg(), d: self.d.clone() } }
    pub fn abs(&self) -> Rat { Rat { n: self.n.abs(), d: self.d.clone() } }
    pub fn sub(&self, o: &Rat) -> Rat { self.add(&o.neg()) }
    pub fn mul(&self, o: &Rat) -> Rat { Rat::new(self.n.mul(&o.n), self.den().mul(&o.den())) }
    pub fn reci(&self) -> Rat { Rat::new(self.den(), self.n.clone()) }
    pub fn div(&self, o: &Rat) -> Rat { self.mul(&o.reci()) }
    pub fn pow(&self, e: i64) -> Rat {
        let p = Rat { n: self.n.pow(e.unsigned_abs()), d: self.d.pow(e.unsigned_abs()) };
        if e < 0 { p.reci() } else { p }
    }
    pub fn trunc(&self) -> Int { self.n.div(&self.den()) }
    pub fn floor(&self) -> Int { self.n.div_floor(&self.den()) }
    /// floor(log2(|x|)), x != 0
    pub fn ilog2(&self) -> i64 {
        let mut e = self.n.mag.bits() as i64 - self.d.bits() as i64;
        // 2^(e-1) < |x| < 2^(e+1)
        let c = if e >= 0 { self.n.mag.cmp(&self.d.shl(e as u64)) } else { self.n.mag.shl(-e as u64).cmp(&self.d) };
        if c == Ordering::Less { e -= 1; }
        e
    }
    pub fn to_f64_approx(&self) -> f64 {
        if self.is_zero() { return 0.0; }
        let e = self.ilog2();
        let s = 60 - e;
        let m = if s >= 0 { self.n.mag.shl(s as u64).div(&self.d) } else { self.n.mag.div(&self.d.shl(-s as u64)) };
        let f = m.to_u64().unwrap() as f64;
        let r = f * 2f64.powi((-s).clamp(-2000, 2000) as i32);
        if self.n.neg { -r } else { r }
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> Ordering { self.n.mul(&o.den()).cmp(&o.n.mul(&self.den())) }
}
