//! Fixed-point reference for elementary functions: a value v is the integer floor(v * 2^p).
//! Every routine is accurate to about 2^-(p-24) absolute (checked against mpmath by `hv selftest`).
use crate::nat::{Int, Nat, Rat};
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! { static CACHE: RefCell<HashMap<(u8, u64), Int>> = RefCell::new(HashMap::new()); }
fn cached(k: u8, p: u64, f: impl FnOnce() -> Int) -> Int {
    if let Some(v) = CACHE.with(|c| c.borrow().get(&(k, p)).cloned()) { return v; }
    let v = f();
    CACHE.with(|c| c.borrow_mut().insert((k, p), v.clone()));
    v
}

#[derive(Clone, Copy)]
pub struct R { pub p: u64 }

impl R {
    pub fn one(&self) -> Int { Int::one().shl(self.p) }
    pub fn rat(&self, r: &Rat) -> Int { r.n.shl(self.p).div_floor(&r.den()) }
    pub fn mul(&self, a: &Int, b: &Int) -> Int { a.mul(b).shr_floor(self.p) }
    pub fn div(&self, a: &Int, b: &Int) -> Int { a.shl(self.p).div_floor(b) }
    pub fn divi(&self, a: &Int, k: i64) -> Int { a.div_floor(&Int::i(k as i128)) }
    pub fn val(&self, a: &Int) -> Rat { Rat::pow2(a.clone(), -(self.p as i64)) }
    fn up(&self, g: u64) -> R { R { p: self.p + g } }

    /// atan(1/k)
    fn atan_inv(&self, k: u32) -> Int {
        let k2 = Int::i(k as i128 * k as i128);
        let mut t = self.one().div(&Int::i(k as i128));
        let mut s = Int::zero();
        let mut n = 1i128;
        while !t.is_zero() {
            let q = t.div(&Int::i(n));
            s = if (n / 2) % 2 == 0 { s.add(&q) } else { s.sub(&q) };
            t = t.div(&k2);
            n += 2;
        }
        s
    }
    /// atanh(1/k)
    fn atanh_inv(&self, k: u32) -> Int {
        let k2 = Int::i(k as i128 * k as i128);
        let mut t = self.one().div(&Int::i(k as i128));
        let mut s = Int::zero();
        let mut n = 1i128;
        while !t.is_zero() {
            s = s.add(&t.div(&Int::i(n)));
            t = t.div(&k2);
            n += 2;
        }
        s
    }
    pub fn pi(&self) -> Int {
        cached(0, self.p, || {
            let u = self.up(32);
            u.atan_inv(5).mul(&Int::i(16)).sub(&u.atan_inv(239).mul(&Int::i(4))).shr_floor(32)
        })
    }
    pub fn ln2(&self) -> Int {
        cached(1, self.p, || { let u = self.up(32); u.atanh_inv(3).mul(&Int::i(2)).shr_floor(32) })
    }
    pub fn e(&self) -> Int {
        cached(2, self.p, || {
            let u = self.up(32);
            let mut t = u.one();
            let mut s = Int::zero();
            let mut n = 1i128;
            while !t.is_zero() { s = s.add(&t); t = t.div(&Int::i(n)); n += 1; }
            s.shr_floor(32)
        })
    }
    /// exp(x) as (m, k): m in [0.5,2) fixed point, value m * 2^k
    pub fn exp(&self, x: &Rat) -> (Int, i64) {
        let mag = if x.is_zero() { 0 } else { x.ilog2().max(0) as u64 };
        let u = self.up(64 + mag);
        let xf = u.rat(x);
        let l2 = u.ln2();
        let k = xf.add(&l2.shr_floor(1)).div_floor(&l2);
        let r = xf.sub(&k.mul(&l2));
        // exp(r) = exp(r/2^8)^(2^8)
        let s = 8u64;
        let rr = r.shr_floor(s);
        let mut t = u.one();
        let mut sum = Int::zero();
        let mut n = 1i64;
        while !t.is_zero() && !(t.neg && t.mag.is_one()) {
            sum = sum.add(&t);
            t = u.divi(&u.mul(&t, &rr), n);
            n += 1;
        }
        for _ in 0..s { sum = u.mul(&sum, &sum); }
        (sum.shr_floor(64 + mag), k.to_i128().unwrap() as i64)
    }
    pub fn exp_rat(&self, x: &Rat) -> Rat { let (m, k) = self.exp(x); Rat::pow2(m, k - self.p as i64) }
    /// ln(x), x > 0
    pub fn ln(&self, x: &Rat) -> Int {
        let u = self.up(48);
        let mut k = x.ilog2();
        let mut m = x.mul(&Rat::pow2(Int::one(), -k));
        if m > Rat::frac(3, 2) { m = m.mul(&Rat::frac(1, 2)); k += 1; }
        let z = u.rat(&m.sub(&Rat::one()).div(&m.add(&Rat::one())));
        let z2 = u.mul(&z, &z);
        let mut t = z;
        let mut s = Int::zero();
        let mut n = 1i64;
        while !t.is_zero() && !(t.neg && t.mag.is_one()) {
            s = s.add(&u.divi(&t, n));
            t = u.mul(&t, &z2);
            n += 2;
        }
        s.mul(&Int::i(2)).add(&u.ln2().mul(&Int::i(k as i128))).shr_floor(48)
    }
    pub fn sqrt(&self, x: &Rat) -> Int {
        let n = x.n.mag.shl(2 * self.p).div(&x.d);
        Int::nat(&n.isqrt())
    }
    fn sqrt_fx(&self, a: &Int) -> Int { Int::nat(&a.mag.shl(self.p).isqrt()) }
    /// (sin x, cos x)
    pub fn sincos(&self, x: &Rat) -> (Int, Int) {
        let mag = if x.is_zero() { 0 } else { x.ilog2().max(0) as u64 };
        let g = 48 + mag;
        let u = self.up(g);
        let xf = u.rat(x);
        let h = u.pi().shr_floor(1);
        let q = xf.add(&h.shr_floor(1)).div_floor(&h);
        let r = xf.sub(&q.mul(&h)); // |r| <= pi/4
        let r2 = u.mul(&r, &r);
        let series = |first: Int, mut n: i64| {
            let mut t = first;
            let mut s = Int::zero();
            while !t.is_zero() && !(t.neg && t.mag.is_one()) {
                s = s.add(&t);
                t = u.divi(&u.mul(&t, &r2), n * (n + 1)).neg();
                n += 2;
            }
            s
        };
        let (s, c) = (series(r.clone(), 2), series(u.one(), 1));
        let m = q.rem(&Int::i(4)).to_i128().unwrap().rem_euclid(4);
        let (a, b) = match m { 0 => (s, c), 1 => (c, s.neg()), 2 => (s.neg(), c.neg()), _ => (c.neg(), s) };
        (a.shr_floor(g), b.shr_floor(g))
    }
    pub fn atan(&self, x: &Rat) -> Int {
        let u = self.up(64);
        if x.abs() > Rat::one() {
            let y = u.atan(&x.reci());
            let h = u.pi().shr_floor(1);
            let r = if x.is_neg() { h.neg().sub(&y) } else { h.sub(&y) };
            return r.shr_floor(64);
        }
        let mut t = u.rat(x);
        let halve = 4;
        for _ in 0..halve {
            let d = u.one().add(&u.sqrt_fx(&u.one().add(&u.mul(&t, &t))));
            t = u.div(&t, &d);
        }
        let t2 = u.mul(&t, &t);
        let mut s = Int::zero();
        let mut n = 1i64;
        while !t.is_zero() && !(t.neg && t.mag.is_one()) {
            s = s.add(&u.divi(&t, n));
            t = u.mul(&t, &t2).neg();
            n += 2;
        }
        s.shl(halve).shr_floor(64)
    }
    /// asin(x), |x| <= 1
    pub fn asin(&self, x: &Rat) -> Int {
        // asin x = atan(x / sqrt(1-x^2)); accuracy guarded by extra bits
        let u = self.up(128);
        let c = Rat::one().sub(&x.mul(x));
        if c.is_zero() { let h = self.pi().shr_floor(1); return if x.is_neg() { h.neg() } else { h }; }
        // atan2 through half angle: asin x = 2 atan(x / (1 + sqrt(1-x^2)))
        let d = u.one().add(&u.sqrt(&c));
        let t = u.div(&u.rat(x), &d);
        u.atan(&u.val(&t)).shl(1).shr_floor(128)
    }
}
#[allow(dead_code)]
pub fn cbrt_nat(n: &Nat) -> Nat {
    if n.is_zero() { return Nat::zero(); }
    let mut x = Nat::one().shl(n.bits() / 3 + 1);
    loop {
        let y = x.mul_u(2).add(&n.div(&x.mul(&x))).divrem_u(3).0;
        if y >= x { return x; }
        x = y;
    }
}
impl R {
    /// cbrt(x) for x >= 0
    pub fn cbrt(&self, x: &Rat) -> Int { Int::nat(&cbrt_nat(&x.n.mag.shl(3 * self.p).div(&x.d))) }
}

pub fn selftest() {
    let r = R { p: 400 };
    let mut args: Vec<Rat> = vec![];
    for (n, d) in [(0, 1), (1, 1), (-1, 1), (1, 3), (-2, 3), (99, 100), (7, 2), (-22, 7), (355, 113), (1000, 3), (-12345, 67), (1, 1_000_000_007), (3, 2), (1_000_000, 1)] { args.push(Rat::frac(n, d)); }
    for a in args {
        let (s, c) = r.sincos(&a);
        println!("sin {} {} {}", a.n.dec(), a.d.dec(), s.dec());
        println!("cos {} {} {}", a.n.dec(), a.d.dec(), c.dec());
        println!("atan {} {} {}", a.n.dec(), a.d.dec(), r.atan(&a).dec());
        if a.abs() <= Rat::one() { println!("asin {} {} {}", a.n.dec(), a.d.dec(), r.asin(&a).dec()); }
        if a.abs() < Rat::i(500) { let (m, k) = r.exp(&a); println!("exp {} {} {}", a.n.dec(), a.d.dec(), if k >= 0 { m.shl(k as u64) } else { m.shr_floor(-k as u64) }.dec()); }
        if !a.is_zero() && !a.is_neg() { println!("ln {} {} {}", a.n.dec(), a.d.dec(), r.ln(&a).dec()); println!("sqrt {} {} {}", a.n.dec(), a.d.dec(), r.sqrt(&a).dec()); println!("cbrt {} {} {}", a.n.dec(), a.d.dec(), r.cbrt(&a).dec()); }
    }
    println!("pi 0 1 {}\nexp 1 1 {}\nln 2 1 {}", r.pi().dec(), r.e().dec(), r.ln2().dec());
}
