//! C01..C05: integer arithmetic, division, histories, ordering.
use super::{enumd, sub};
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::nat::{Int, Nat};
use hmath::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "operands drawn by limb count (1..300 limbs) from random, all-ones, sparse, run-length, power-of-two/ten +-d and carry-chain patterns; non-trivial = an operand of at least two limbs, or a carry/borrow crossing a limb, or an exponent above 2",
            assumptions: &["reference naturals (schoolbook, 32-bit limbs) in harness/src/nat.rs are correct; validated against Python integers", "results above ~1200 limbs are not generated"],
            subs: vec![
                sub("addsub", 12_500_000, 50_000_000, u_addsub),
                sub("small_operand", 7_500_000, 30_000_000, u_small),
                sub("mul", 7_500_000, 30_000_000, u_mul),
                sub("mul_large", 150_000, 600_000, u_mul_large),
                sub("mul_pow2", 3_000_000, 12_000_000, u_mul_pow2),
                sub("pow", 750_000, 3_000_000, u_pow),
                sub("sum_product", 1_000_000, 4_000_000, u_sum_product),
            ],
        },
        Prop {
            id: "C02",
            rule: "dividends built as q*d+r with r in {0,1,d-1,random} and divisors with extreme leading limbs, plus independent random pairs; non-trivial = divisor of at least two limbs and quotient at least 1, or a multi-limb dividend for one-word divisors",
            assumptions: &["reference long division (Knuth D) in harness/src/nat.rs is correct; validated against Python integers"],
            subs: vec![
                sub("div_built", 4_800_000, 19_200_000, u_div_built),
                sub("div_random", 4_800_000, 19_200_000, u_div_random),
                sub("div_large", 240_000, 960_000, u_div_large),
                sub("div_word", 6_000_000, 24_000_000, u_div_word),
                sub("div_zero", 12_000, 48_000, u_div_zero),
            ],
        },
        Prop {
            id: "C03",
            rule: "signed operands of all sign combinations, word operands including both ends of the 32-bit range; non-trivial = both operands non-zero and at least one negative or multi-limb",
            assumptions: &["reference integers in harness/src/nat.rs are correct"],
            subs: vec![
                sub("addsub", 7_500_000, 30_000_000, b_addsub),
                sub("muldiv", 6_000_000, 24_000_000, b_muldiv),
                sub("word", 10_000_000, 40_000_000, b_word),
                sub("misc", 4_000_000, 16_000_000, b_misc),
                sub("pow", 500_000, 2_000_000, u_pow),
                sub("div_zero", 12_000, 48_000, u_div_zero),
                enumd("small_grid", 61 * 61, b_grid),
            ],
        },
        Prop {
            id: "C04",
            rule: "random histories of 4..40 in-place and pure operations over four signed and four unsigned registers mirrored in a reference model; after every step the touched value, its limb form, equality, hashing and ordering are compared; non-trivial = at least 4 executed steps and a multi-limb intermediate",
            assumptions: &["values are folded back below 40 limbs by a generated reduction step"],
            subs: vec![sub("history", 1_500_000, 6_000_000, h_ints)],
        },
        Prop {
            id: "C05",
            rule: "pairs equal, equal up to one limb or sign, or independent; word comparisons with all 32-bit edges; sorted vectors; non-trivial = operands share sign and limb count, or a multi-limb value against a word",
            assumptions: &["reference ordering in harness/src/nat.rs is correct"],
            subs: vec![
                sub("unsigned", 10_000_000, 40_000_000, c_unsigned),
                sub("signed", 10_000_000, 40_000_000, c_signed),
                sub("sort", 400_000, 1_600_000, c_sort),
            ],
        },
    ]
}

fn pair(cx: &mut Cx, max: usize) -> (Nat, Nat) {
    let a = nat(cx, max);
    let b = match cx.draw(8) {
        0 => a.clone(),
        1 => { // carry chain: 2^(32k) - a (+-d)
            let k = a.limbs().max(1) as u64 + cx.draw(3);
            let p = Nat::one().shl(32 * k).sub(&a).unwrap();
            let d = Nat::u(cx.draw(3) as u128);
            if cx.bool() { p.add(&d) } else { p.sub(&d).unwrap_or(p) }
        }
        2 => { let d = Nat::u(cx.draw(4) as u128); if cx.bool() { a.add(&d) } else { a.sub(&d).unwrap_or(a.clone()) } }
        3 => { // same high limbs
            let k = cx.draw(a.limbs() as u64 * 32 + 1);
            let low = nat(cx, max).low_bits(k);
            a.shr(k).shl(k).add(&low)
        }
        4 => { let n = a.limbs(); nat_of(cx, n) }
        _ => nat(cx, max),
    };
    if cx.bool() { (a, b) } else { (b, a) }
}

fn u_addsub(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 24, 600);
    let (a, b) = pair(cx, max);
    cx.note(|| format!("a={:?} b={:?}", a, b));
    cx.nt(a.limbs() > 1 || b.limbs() > 1);
    let (x, y) = (ub(&a), ub(&b));
    let s = a.add(&b);
    ck_u("add", &x.add(&y), &s)?;
    let mut t = x.clone();
    t.add_mut(&y);
    ck_u("add_mut", &t, &s)?;
    match a.sub(&b) {
        Some(d) => {
            ck_u("sub", &x.sub(&y), &d)?;
            let mut t = x.clone();
            t.sub_mut(&y);
            ck_u("sub_mut", &t, &d)?;
            ck_u("abs_diff", &x.abs_diff(&y), &d)?;
        }
        None => {
            cx.label("underflow");
            ck_u("abs_diff", &x.abs_diff(&y), &b.sub(&a).unwrap())?;
            if cx.draw(4) == 0 {
                must_panic("sub below zero", || x.sub(&y))?;
                must_panic("sub_mut below zero", || { let mut t = x.clone(); t.sub_mut(&y); t })?;
            }
        }
    }
    ck_u("operand a changed", &x, &a)?;
    ck_u("operand b changed", &y, &b)
}

fn u_small(cx: &mut Cx) -> Result<(), String> {
    let k = edge_u32(cx);
    let a = match cx.draw(6) {
        0 => { let n = cx.draw(4); Nat::one().shl(32 * n).sub(&Nat::u(k as u128)).unwrap_or(Nat::u(k as u128)) }
        1 => { let n = cx.draw(5); let d = cx.draw(3); Nat::one().shl(32 * n).add(&Nat::u(d as u128)) }
        _ => { let max = up(cx, 12, 500); nat(cx, max) }
    };
    let kn = Nat::u(k as u128);
    cx.note(|| format!("a={:?} k={}", a, k));
    cx.nt(a.limbs() > 1);
    let x = ub(&a);
    let w = a.add(&kn);
    ck_u("add_u32", &x.add_u32(k), &w)?;
    let mut t = x.clone();
    t.add_u32_mut(k);
    ck_u("add_u32_mut", &t, &w)?;
    let w = a.mul(&kn);
    ck_u("mul_u32", &x.mul_u32(k), &w)?;
    let mut t = x.clone();
    t.mul_u32_mut(k);
    ck_u("mul_u32_mut", &t, &w)?;
    match a.sub(&kn) {
        Some(w) => {
            ck_u("sub_u32", &x.sub_u32(k), &w)?;
            let mut t = x.clone();
            t.sub_u32_mut(k);
            ck_u("sub_u32_mut", &t, &w)?;
            ck_u("abs_diff_u32", &x.abs_diff_u32(k), &w)?;
        }
        None => {
            ck_u("abs_diff_u32", &x.abs_diff_u32(k), &kn.sub(&a).unwrap())?;
            if cx.draw(4) == 0 {
                must_panic("sub_u32 below zero", || x.sub_u32(k))?;
                must_panic("sub_u32_mut below zero", || { let mut t = x.clone(); t.sub_u32_mut(k); t })?;
            }
        }
    }
    Ok(())
}

fn u_mul(cx: &mut Cx) -> Result<(), String> {
    let (a, b) = if cx.draw(4) == 0 { pair(cx, 10) } else { (nat(cx, 24), nat(cx, 24)) };
    cx.note(|| format!("a={:?} b={:?}", a, b));
    cx.nt(a.limbs() > 1 && b.limbs() > 1);
    let (x, y) = (ub(&a), ub(&b));
    let w = a.mul(&b);
    ck_u("mul", &x.mul(&y), &w)?;
    let mut t = x.clone();
    t.mul_mut(&y);
    ck_u("mul_mut", &t, &w)?;
    if cx.draw(4) == 0 { ck_u("square", &x.mul(&x), &a.mul(&a))?; }
    Ok(())
}

/// long operand with an interesting layout (runs of zero limbs in either half)
fn big_nat(cx: &mut Cx, n: usize) -> Nat {
    let a = nat_of(cx, n);
    if a.is_zero() { return Nat::one().shl(32 * (n as u64 - 1)); }
    match cx.draw(6) {
        0 => { // zero window
            let mut l = a.raw();
            let s = cx.usize(0, l.len() - 1);
            let e = cx.usize(s, l.len() - 1);
            let fill = if cx.bool() { 0 } else { u32::MAX };
            for x in l[s..e].iter_mut() { *x = fill; }
            Nat::from_limbs(l)
        }
        1 => { let k = cx.draw(32 * n as u64); a.shr(k).shl(k) }
        _ => a,
    }
}

fn u_mul_large(cx: &mut Cx) -> Result<(), String> {
    let hi = if cx.thorough { 520 } else { 300 };
    let n = match cx.draw(4) { 0 => cx.usize(60, 70), 1 => cx.usize(120, 135), 2 => cx.usize(60, 160), _ => cx.usize(40, hi) };
    let m = match cx.draw(4) { 0 => n, 1 => cx.usize(60, 70), 2 => cx.usize(60, 160), _ => cx.usize(1, hi) };
    let a = big_nat(cx, n);
    let b = if cx.draw(8) == 0 { a.clone() } else { big_nat(cx, m) };
    cx.note(|| format!("a={:?} ({} limbs) b={:?} ({} limbs)", a, a.limbs(), b, b.limbs()));
    cx.nt(a.limbs() > 64 && b.limbs() > 64);
    if a.limbs() > 64 && b.limbs() > 64 { cx.label("karatsuba-size"); }
    let (x, y) = (ub(&a), ub(&b));
    let w = a.mul(&b);
    ck_u("mul", &x.mul(&y), &w)?;
    if cx.draw(4) == 0 {
        ck_u("mul commuted", &y.mul(&x), &w)?;
        let mut t = x.clone();
        t.mul_mut(&y);
        ck_u("mul_mut", &t, &w)?;
        let (p, q) = (bi(&Int::new(true, a.clone())), bi(&Int::new(cx.bool(), b.clone())));
        ck_b("signed mul", &p.mul(&q), &Int::new(p.is_neg() != q.is_neg(), w.clone()))?;
    }
    if cx.draw(4) == 0 {
        ck_u("add", &x.add(&y), &a.add(&b))?;
        ck_u("abs_diff", &x.abs_diff(&y), &if a >= b { a.sub(&b).unwrap() } else { b.sub(&a).unwrap() })?;
    }
    Ok(())
}

fn u_mul_pow2(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 12, 300);
    let a = nat(cx, max);
    let e = (match cx.draw(4) { 0 => cx.draw(34), 1 => 32 * cx.draw(12), 2 => 32 * cx.draw(12) + 31, _ => if cx.one_in(50) { cx.draw(40_000) } else { cx.draw(2000) } }) as u32;
    cx.note(|| format!("a={:?} e={}", a, e));
    cx.nt(e > 0 && !a.is_zero());
    let w = a.shl(e as u64);
    let x = ub(&a);
    ck_u("mul_pow2", &x.mul_pow2(e), &w)?;
    let mut t = x.clone();
    t.mul_pow2_mut(e);
    ck_u("mul_pow2_mut", &t, &w)?;
    let p = Nat::one().shl(e as u64);
    ck_u("pow2", &UBigInt::pow2(e), &p)?;
    ck_u("exp2", &UBigInt::exp2(e as u64), &p)?;
    ck_b("BigInt::pow2", &BigInt::pow2(e), &Int::nat(&p))?;
    ck_b("BigInt::exp2", &BigInt::exp2(e as u64), &Int::nat(&p))
}

fn u_pow(cx: &mut Cx) -> Result<(), String> {
    let a = match cx.draw(5) { 0 => Nat::u(cx.draw(4) as u128), 1 => Nat::u(cx.draw(1000) as u128), _ => nat(cx, 6) };
    let cap: u64 = if cx.thorough { 400 } else { 100 };
    let max_e = if a.bits() < 2 { 0 } else { (cap * 32 / a.bits()).max(3) };
    let e = if max_e == 0 { edge_u32(cx) } else { (match cx.draw(3) { 0 => cx.draw(4.min(max_e + 1)), 1 => (1u64 << cx.draw(64 - max_e.leading_zeros() as u64)).min(max_e), _ => cx.draw(max_e + 1) }) as u32 };
    cx.note(|| format!("a={:?} e={}", a, e));
    cx.nt(e > 2);
    let w = if a.bits() < 2 { if e == 0 { Nat::one() } else { a.clone() } } else { a.pow(e as u64) };
    let x = ub(&a);
    ck_u("pow_u32", &x.pow_u32(e), &w)?;
    let mut t = x.clone();
    t.pow_u32_mut(e);
    ck_u("pow_u32_mut", &t, &w)?;
    let neg = cx.bool();
    let b = Int::new(neg, a.clone());
    let bw = Int::new(b.neg && e % 2 == 1, w);
    let y = bi(&b);
    ck_b("BigInt::pow_u32", &y.pow_u32(e), &bw)?;
    let mut t = y.clone();
    t.pow_u32_mut(e);
    ck_b("BigInt::pow_u32_mut", &t, &bw)
}

fn u_sum_product(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(0, 12);
    let v: Vec<Nat> = (0..n).map(|_| nat(cx, 5)).collect();
    cx.note(|| format!("{:?}", v));
    cx.nt(n > 1);
    let s = v.iter().fold(Nat::zero(), |a, b| a.add(b));
    let p = v.iter().fold(Nat::one(), |a, b| a.mul(b));
    ck_u("sum", &v.iter().map(ub).sum::<UBigInt>(), &s)?;
    ck_u("product", &v.iter().map(ub).product::<UBigInt>(), &p)
}

fn ck_div(what: &str, a: &Nat, d: &Nat) -> Result<(), String> {
    let (q, r) = a.divrem(d);
    let (x, y) = (ub(a), ub(d));
    ck_u(&format!("{} div", what), &x.div(&y), &q)?;
    ck_u(&format!("{} rem", what), &x.rem(&y), &r)?;
    let mut t = x.clone();
    t.div_mut(&y);
    ck_u(&format!("{} div_mut", what), &t, &q)?;
    let mut t = x.clone();
    t.rem_mut(&y);
    ck_u(&format!("{} rem_mut", what), &t, &r)
}
fn divisor(cx: &mut Cx, max: usize) -> Nat {
    let d = match cx.draw(8) {
        0 => { let n = nlimbs(cx, max); let mut v: Vec<u32> = (0..n).map(|_| limb(cx)).collect(); let n = v.len(); v[n - 1] = u32::MAX; if n > 1 { v[n - 2] = u32::MAX - cx.draw(2) as u32; } Nat::from_limbs(v) }
        1 => { let n = nlimbs(cx, max); let mut v: Vec<u32> = (0..n).map(|_| limb(cx)).collect(); let n = v.len(); v[n - 1] = 1; if n > 1 { v[n - 2] = cx.draw(2) as u32; } if n > 2 { v[n - 3] = limb(cx); } Nat::from_limbs(v) }
        _ => nat(cx, max),
    };
    if d.is_zero() { Nat::one() } else { d }
}
fn u_div_built(cx: &mut Cx) -> Result<(), String> {
    let d = divisor(cx, 24);
    let q = match cx.draw(4) { 0 => Nat::u(cx.draw(5) as u128), 1 => { let n = cx.usize(1, 3); nat_of(cx, n) } _ => nat(cx, 20) };
    let r = match cx.draw(5) {
        0 => Nat::zero(),
        1 => Nat::one(),
        2 => d.sub(&Nat::one()).unwrap(),
        3 => d.sub(&Nat::u(2)).unwrap_or(Nat::zero()),
        _ => nat(cx, 24),
    };
    let r = r.rem(&d);
    let a = q.mul(&d).add(&r);
    cx.note(|| format!("a={:?} d={:?}", a, d));
    cx.nt(d.limbs() > 1 && !q.is_zero());
    if a.limbs() >= 5 && d.limbs() >= 2 {
        cx.label(match a.limbs() as i64 - d.limbs() as i64 { 0 => "same-length", 1 | 2 => "short-quotient", _ => "long-quotient" });
    }
    ck_div("built", &a, &d)
}
fn u_div_random(cx: &mut Cx) -> Result<(), String> {
    let a = nat(cx, 30);
    let d = if cx.draw(6) == 0 { let k = cx.draw(a.bits() + 1); let s = a.shr(k); if s.is_zero() { Nat::one() } else { s } } else { divisor(cx, 20) };
    cx.note(|| format!("a={:?} d={:?}", a, d));
    cx.nt(d.limbs() > 1 && a >= d);
    ck_div("random", &a, &d)
}
fn u_div_large(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(20, if cx.thorough { 260 } else { 140 });
    let m = match cx.draw(3) { 0 => cx.usize(1, n), 1 => cx.usize(n.saturating_sub(4).max(1), n), _ => cx.usize(1, 8) };
    let d = { let d = big_nat(cx, m); if d.is_zero() { Nat::one() } else { d } };
    let a = if cx.bool() { let q = big_nat(cx, n - m + 1); let e = cx.draw(3); q.mul(&d).add(&Nat::u(e as u128)).sub(&Nat::one()).unwrap_or(Nat::zero()) } else { big_nat(cx, n) };
    cx.note(|| format!("a={:?} ({} limbs) d={:?} ({} limbs)", a, a.limbs(), d, d.limbs()));
    cx.nt(d.limbs() > 1 && a >= d);
    ck_div("large", &a, &d)
}
fn u_div_word(cx: &mut Cx) -> Result<(), String> {
    let k = edge_u32(cx).max(1);
    let a = if cx.draw(3) == 0 { let q = nat(cx, 8); let r = cx.draw(k as u64); q.mul_u(k).add(&Nat::u(r as u128)) } else { { let max = up(cx, 14, 400); nat(cx, max) } };
    cx.note(|| format!("a={:?} k={}", a, k));
    cx.nt(a.limbs() > 1 && k > 1);
    let (q, r) = a.divrem_u(k);
    let r = Nat::u(r as u128);
    let x = ub(&a);
    ck_u("div_u32", &x.div_u32(k), &q)?;
    let mut t = x.clone();
    t.div_u32_mut(k);
    ck_u("div_u32_mut", &t, &q)?;
    ck_u("rem_u32", &x.rem_u32(k), &r)?;
    let mut t = x.clone();
    t.rem_u32_mut(k);
    ck_u("rem_u32_mut", &t, &r)?;
    let p = 1u32 << cx.draw(32);
    ck_u("rem_pow2", &x.rem_pow2(p), &a.rem(&Nat::u(p as u128)))
}
fn u_div_zero(cx: &mut Cx) -> Result<(), String> {
    let a = nat(cx, 9);
    let x = ub(&a);
    cx.note(|| format!("a={:?}", a));
    cx.nt(a.limbs() > 1);
    let z = UBigInt::zero();
    must_panic("div by zero", || x.div(&z))?;
    must_panic("rem by zero", || x.rem(&z))?;
    must_panic("div_u32 by zero", || x.div_u32(0))?;
    must_panic("rem_u32 by zero", || x.rem_u32(0))?;
    must_panic("div_mut by zero", || { let mut t = x.clone(); t.div_mut(&z); t })?;
    must_panic("rem_mut by zero", || { let mut t = x.clone(); t.rem_mut(&z); t })?;
    must_panic("div_u32_mut by zero", || { let mut t = x.clone(); t.div_u32_mut(0); t })?;
    must_panic("rem_u32_mut by zero", || { let mut t = x.clone(); t.rem_u32_mut(0); t })?;
    let s = Int::new(cx.bool(), a);
    let y = bi(&s);
    must_panic("signed div by zero", || y.div(&BigInt::zero()))?;
    must_panic("signed rem by zero", || y.rem(&BigInt::zero()))?;
    must_panic("div_i32 by zero", || y.div_i32(0))?;
    must_panic("rem_i32 by zero", || y.rem_i32(0))?;
    must_panic("signed div_mut by zero", || { let mut t = y.clone(); t.div_mut(&BigInt::zero()); t })?;
    must_panic("signed rem_mut by zero", || { let mut t = y.clone(); t.rem_mut(&BigInt::zero()); t })?;
    must_panic("div_i32_mut by zero", || { let mut t = y.clone(); t.div_i32_mut(0); t })?;
    must_panic("rem_i32_mut by zero", || { let mut t = y.clone(); t.rem_i32_mut(0); t })
}

fn ipair(cx: &mut Cx, max: usize) -> (Int, Int) {
    let (a, b) = pair(cx, max);
    let (s, t) = (cx.bool(), cx.bool());
    (Int::new(s, a), Int::new(t, b))
}
fn b_addsub(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 14, 400);
    let (a, b) = ipair(cx, max);
    cx.note(|| format!("a={:?} b={:?}", a, b));
    cx.nt(!a.is_zero() && !b.is_zero());
    let (x, y) = (bi(&a), bi(&b));
    let w = a.add(&b);
    ck_b("add", &x.add(&y), &w)?;
    let mut t = x.clone();
    t.add_mut(&y);
    ck_b("add_mut", &t, &w)?;
    let w = a.sub(&b);
    ck_b("sub", &x.sub(&y), &w)?;
    let mut t = x.clone();
    t.sub_mut(&y);
    ck_b("sub_mut", &t, &w)
}
fn b_muldiv(cx: &mut Cx) -> Result<(), String> {
    let (a, b) = match cx.draw(3) {
        0 => ipair(cx, 10),
        1 => { let d = divisor(cx, 9); let q = nat(cx, 8); let r = nat(cx, 9).rem(&d); let s = cx.bool(); let t = cx.bool(); (Int::new(s, q.mul(&d).add(&r)), Int::new(t, d)) }
        _ => { let (m, n) = (up(cx, 16, 200), up(cx, 10, 120)); (int(cx, m), int(cx, n)) }
    };
    cx.note(|| format!("a={:?} b={:?}", a, b));
    cx.nt(!a.is_zero() && !b.is_zero());
    let (x, y) = (bi(&a), bi(&b));
    let w = a.mul(&b);
    ck_b("mul", &x.mul(&y), &w)?;
    let mut t = x.clone();
    t.mul_mut(&y);
    ck_b("mul_mut", &t, &w)?;
    if !b.is_zero() {
        let (q, r) = a.divrem(&b);
        ck_b("div", &x.div(&y), &q)?;
        let mut t = x.clone();
        t.div_mut(&y);
        ck_b("div_mut", &t, &q)?;
        ck_b("rem", &x.rem(&y), &r)?;
        let mut t = x.clone();
        t.rem_mut(&y);
        ck_b("rem_mut", &t, &r)?;
    }
    Ok(())
}
fn b_word_check(a: &Int, k: i32) -> Result<(), String> {
    let kn = Int::i(k as i128);
    let x = bi(a);
    macro_rules! both {
        ($n:expr, $m:ident, $mm:ident, $w:expr) => {{
            let w = $w;
            ck_b($n, &x.$m(k), &w)?;
            let mut t = x.clone();
            t.$mm(k);
            ck_b(concat!($n, " in place"), &t, &w)?;
        }};
    }
    both!("add_i32", add_i32, add_i32_mut, a.add(&kn));
    both!("sub_i32", sub_i32, sub_i32_mut, a.sub(&kn));
    both!("mul_i32", mul_i32, mul_i32_mut, a.mul(&kn));
    if k != 0 {
        both!("div_i32", div_i32, div_i32_mut, a.div(&kn));
        both!("rem_i32", rem_i32, rem_i32_mut, a.rem(&kn));
    }
    Ok(())
}
fn b_word(cx: &mut Cx) -> Result<(), String> {
    let k = edge_i32(cx);
    let a = match cx.draw(4) {
        0 => { let d = cx.range(-2, 2); let s = Int::i(d as i128 - k as i128); let e = Int::nat(&Nat::one().shl(32 * cx.draw(3))); if cx.bool() { s } else { s.add(&e) } }
        1 => { let q = int(cx, 5); let r = Int::i(cx.range(0, 3) as i128); q.mul(&Int::i(k as i128)).add(&r) }
        _ => { let max = up(cx, 8, 300); int(cx, max) }
    };
    cx.note(|| format!("a={:?} k={}", a, k));
    cx.nt(!a.is_zero() && k != 0);
    if k == i32::MIN { cx.label("i32-min"); }
    b_word_check(&a, k)
}
fn b_misc(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 10, 300);
    let a = int(cx, max);
    let e = cx.draw(200) as u32;
    let p = cx.draw(32);
    cx.note(|| format!("a={:?} e={} p={}", a, e, p));
    cx.nt(a.mag.limbs() > 1);
    let x = bi(&a);
    ck_b("neg", &x.neg(), &a.neg())?;
    ck_b("abs", &x.abs(), &a.abs())?;
    let mut t = x.clone();
    t.neg_mut();
    ck_b("neg_mut", &t, &a.neg())?;
    let mut t = x.clone();
    t.abs_mut();
    ck_b("abs_mut", &t, &a.abs())?;
    ck_b("mul_pow2", &x.mul_pow2(e), &a.shl(e as u64))?;
    let mut t = x.clone();
    t.mul_pow2_mut(e);
    ck_b("mul_pow2_mut", &t, &a.shl(e as u64))?;
    let k = (1u32 << p) as i32; // 2^31 becomes -2^31: x % y = x % -y
    ck_b("rem_pow2", &x.rem_pow2(k), &a.rem(&Int::i(k as i128)))?;
    ck_b("from_ubi", &BigInt::from_ubi(ub(&a.mag), a.neg), &a)?;
    eqv("is_neg", x.is_neg(), a.neg)?;
    eqv("is_zero", x.is_zero(), a.is_zero())?;
    eqv("is_one", x.is_one(), a == Int::one())?;
    ck_b("from_ubi(0, true)", &BigInt::from_ubi(UBigInt::zero(), true), &Int::zero())
}
fn b_grid(cx: &mut Cx) -> Result<(), String> {
    let (i, j) = ((cx.case / 61) as i64 - 30, (cx.case % 61) as i64 - 30);
    cx.nt(i != 0 && j != 0);
    cx.note(|| format!("{} {}", i, j));
    let (a, b) = (Int::i(i as i128), Int::i(j as i128));
    b_word_check(&a, j as i32)?;
    let (x, y) = (BigInt::from_i32(i as i32), BigInt::from_i32(j as i32));
    ck_b("add", &x.add(&y), &a.add(&b))?;
    ck_b("sub", &x.sub(&y), &a.sub(&b))?;
    ck_b("mul", &x.mul(&y), &a.mul(&b))?;
    if j != 0 {
        ck_b("div", &x.div(&y), &a.div(&b))?;
        ck_b("rem", &x.rem(&y), &a.rem(&b))?;
    }
    Ok(())
}

fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

fn h_ints(cx: &mut Cx) -> Result<(), String> {
    let mut s: Vec<(BigInt, Int)> = vec![];
    let mut u: Vec<(UBigInt, Nat)> = vec![];
    for _ in 0..4 {
        let a = int(cx, 5);
        s.push((bi(&a), a));
        let b = nat(cx, 5);
        u.push((ub(&b), b));
    }
    let steps = if cx.one_in(50) { cx.usize(40, 400) } else { cx.usize(1, 40) };
    let mut multi = false;
    for st in 0..steps {
        let (i, j, k) = (cx.usize(0, 3), cx.usize(0, 3), cx.usize(0, 3));
        let op = cx.draw(46);
        let w = edge_i32(cx);
        let uw = edge_u32(cx);
        let (bj, mj) = s[j].clone();
        let (bk, mk) = s[k].clone();
        let (uj, nj) = u[j].clone();
        let (uk, nk) = u[k].clone();
        let wi = Int::i(w as i128);
        cx.note(|| format!("step {}: op {} s{}={:?} s{}={:?} w={} u{}={:?} u{}={:?} -> {}", st, op, j, mj, k, mk, w, j, nj, k, nk, i));
        match op {
            0 => s[i] = (bj.add(&bk), mj.add(&mk)),
            1 => s[i] = (bj.sub(&bk), mj.sub(&mk)),
            2 => s[i] = (bj.mul(&bk), mj.mul(&mk)),
            3 => if !mk.is_zero() { s[i] = (bj.div(&bk), mj.div(&mk)) },
            4 => if !mk.is_zero() { s[i] = (bj.rem(&bk), mj.rem(&mk)) },
            5 => { s[i].0.add_mut(&bk); s[i].1 = s[i].1.add(&mk); }
            6 => { s[i].0.sub_mut(&bk); s[i].1 = s[i].1.sub(&mk); }
            7 => { s[i].0.mul_mut(&bk); s[i].1 = s[i].1.mul(&mk); }
            8 => if !mk.is_zero() { s[i].0.div_mut(&bk); s[i].1 = s[i].1.div(&mk); },
            9 => if !mk.is_zero() { s[i].0.rem_mut(&bk); s[i].1 = s[i].1.rem(&mk); },
            10 => { s[i].0.add_i32_mut(w); s[i].1 = s[i].1.add(&wi); }
            11 => { s[i].0.sub_i32_mut(w); s[i].1 = s[i].1.sub(&wi); }
            12 => { s[i].0.mul_i32_mut(w); s[i].1 = s[i].1.mul(&wi); }
            13 => if w != 0 { s[i].0.div_i32_mut(w); s[i].1 = s[i].1.div(&wi); },
            14 => if w != 0 { s[i].0.rem_i32_mut(w); s[i].1 = s[i].1.rem(&wi); },
            15 => { s[i].0.neg_mut(); s[i].1 = s[i].1.neg(); }
            16 => { s[i].0.abs_mut(); s[i].1 = s[i].1.abs(); }
            17 => { let n = (uw % 4) as usize; s[i].0.shift_left_mut(n); s[i].1 = s[i].1.shl(32 * n as u64); }
            18 => { let n = (uw % 4) as usize; s[i].0.shift_right_mut(n); s[i].1 = Int::new(s[i].1.neg, s[i].1.mag.shr(32 * n as u64)); }
            19 => { let n = cx.usize(0, s[i].1.mag.limbs().max(1)); s[i].0.slice_right_mut(n); s[i].1 = Int::new(s[i].1.neg, s[i].1.mag.low_bits(32 * n as u64)); }
            20 => { let e = uw % 100; s[i].0.mul_pow2_mut(e); s[i].1 = s[i].1.shl(e as u64); }
            21 => { let e = uw % 4; s[i].0.pow_u32_mut(e); s[i].1 = s[i].1.pow(e as u64); }
            22 => { u[i] = (uj.add(&uk), nj.add(&nk)); }
            23 => { u[i] = (uj.abs_diff(&uk), if nj >= nk { nj.sub(&nk).unwrap() } else { nk.sub(&nj).unwrap() }); }
            24 => { u[i].0.mul_mut(&uk); u[i].1 = u[i].1.mul(&nk); }
            25 => if !nk.is_zero() { u[i].0.div_mut(&uk); u[i].1 = u[i].1.div(&nk); },
            26 => if !nk.is_zero() { u[i].0.rem_mut(&uk); u[i].1 = u[i].1.rem(&nk); },
            27 => { u[i].0.add_u32_mut(uw); u[i].1 = u[i].1.add(&Nat::u(uw as u128)); }
            28 => { if let Some(d) = u[i].1.sub(&nk) { u[i].0.sub_mut(&uk); u[i].1 = d; } }
            29 => { u[i].0.mul_u32_mut(uw); u[i].1 = u[i].1.mul_u(uw); }
            30 => if uw != 0 { u[i].0.div_u32_mut(uw); u[i].1 = u[i].1.divrem_u(uw).0; },
            31 => if uw != 0 { u[i].0.rem_u32_mut(uw); u[i].1 = Nat::u(u[i].1.divrem_u(uw).1 as u128); },
            32 => { let n = (uw % 4) as usize; u[i].0.shift_right_mut(n); u[i].1 = u[i].1.shr(32 * n as u64); }
            33 => { u[i].0.add_mut(&uk); u[i].1 = u[i].1.add(&nk); }
            34 => { if let Some(d) = u[i].1.sub(&Nat::u(uw as u128)) { u[i].0.sub_u32_mut(uw); u[i].1 = d; } }
            35 => { let e = uw % 100; u[i].0.mul_pow2_mut(e); u[i].1 = u[i].1.shl(e as u64); }
            36 => { let n = (uw % 4) as usize; u[i].0.shift_left_mut(n); u[i].1 = u[i].1.shl(32 * n as u64); }
            37 => { let e = uw % 4; u[i].0.pow_u32_mut(e); u[i].1 = u[i].1.pow(e as u64); }
            38 => s[i] = (bj.add_i32(w), mj.add(&wi)),
            39 => s[i] = (bj.sub_i32(w), mj.sub(&wi)),
            40 => s[i] = (bj.mul_i32(w), mj.mul(&wi)),
            41 => if w != 0 { s[i] = if uw % 2 == 0 { (bj.div_i32(w), mj.div(&wi)) } else { (bj.rem_i32(w), mj.rem(&wi)) } },
            42 => if !nk.is_zero() { u[i] = if uw % 2 == 0 { (uj.div(&uk), nj.div(&nk)) } else { (uj.rem(&uk), nj.rem(&nk)) } },
            43 => u[i] = (uj.mul(&uk), nj.mul(&nk)),
            44 => s[i] = if uw % 2 == 0 { (bj.neg(), mj.neg()) } else { (bj.abs(), mj.abs()) },
            _ => { // cross-type moves
                s[i] = (BigInt::from_ubi(uj.clone(), w < 0), Int::new(w < 0, nj.clone()));
                match bk.to_ubi() {
                    Ok(v) => { ensure(!mk.neg, || format!("to_ubi accepted {:?}", mk))?; u[i] = (v, mk.mag.clone()); }
                    Err(_) => ensure(mk.neg, || format!("to_ubi refused {:?}", mk))?,
                }
            }
        }
        ck_b(&format!("after op {} signed", op), &s[i].0, &s[i].1)?;
        ck_u(&format!("after op {} unsigned", op), &u[i].0, &u[i].1)?;
        for t in 0..4 {
            let same = s[t].1 == s[i].1;
            ensure((s[t].0 == s[i].0) == same, || format!("== of {:?} and {:?}", s[t].1, s[i].1))?;
            ensure(s[t].0.cmp(&s[i].0) == s[t].1.cmp(&s[i].1), || format!("cmp of {:?} and {:?}", s[t].1, s[i].1))?;
            if same { ensure(hash(&s[t].0) == hash(&s[i].0), || format!("hash of equal values {:?}", s[i].1))?; }
            ensure((u[t].0 == u[i].0) == (u[t].1 == u[i].1), || format!("== of {:?} and {:?}", u[t].1, u[i].1))?;
            ensure(u[t].0.cmp(&u[i].0) == u[t].1.cmp(&u[i].1), || format!("cmp of {:?} and {:?}", u[t].1, u[i].1))?;
            if u[t].1 == u[i].1 { ensure(hash(&u[t].0) == hash(&u[i].0), || format!("hash of equal values {:?}", u[i].1))?; }
            // nothing but the target changed
            ck_b(&format!("register s{} after op {} on {}", t, op, i), &s[t].0, &s[t].1)?;
            ck_u(&format!("register u{} after op {} on {}", t, op, i), &u[t].0, &u[t].1)?;
        }
        let f = bi(&s[i].1);
        ensure(f == s[i].0 && hash(&f) == hash(&s[i].0), || format!("fresh copy differs: {:?}", s[i].1))?;
        multi |= s[i].1.mag.limbs() > 1;
        if s[i].1.mag.limbs() > 40 { let a = int(cx, 4); s[i] = (bi(&a), a); }
        if u[i].1.limbs() > 40 { let a = nat(cx, 4); u[i] = (ub(&a), a); }
    }
    cx.nt(steps >= 4 && multi);
    for t in 0..4 {
        ck_b("register at end", &s[t].0, &s[t].1)?;
        ck_u("register at end", &u[t].0, &u[t].1)?;
    }
    Ok(())
}

macro_rules! six {
    ($x:expr, $y:expr, $o:expr, $($lt:ident $gt:ident $eq:ident $ne:ident $le:ident $ge:ident $cmp:ident),*) => {$(
        eqv(stringify!($lt), $x.$lt($y), $o == Ordering::Less)?;
        eqv(stringify!($gt), $x.$gt($y), $o == Ordering::Greater)?;
        eqv(stringify!($eq), $x.$eq($y), $o == Ordering::Equal)?;
        eqv(stringify!($ne), $x.$ne($y), $o != Ordering::Equal)?;
        eqv(stringify!($le), $x.$le($y), $o != Ordering::Greater)?;
        eqv(stringify!($ge), $x.$ge($y), $o != Ordering::Less)?;
        eqv(stringify!($cmp), $x.$cmp($y), $o)?;
    )*};
}
fn near(cx: &mut Cx, a: &Nat) -> Nat {
    match cx.draw(4) {
        0 => a.clone(),
        1 => { let mut v = a.raw(); let i = cx.usize(0, v.len() - 1); v[i] = v[i].wrapping_add(*cx.pick(&[1, u32::MAX, 0x8000_0000])); Nat::from_limbs(v) }
        2 => { let mut v = a.raw(); let i = cx.usize(0, v.len() - 1); v[i] = limb(cx); let j = cx.usize(0, v.len() - 1); v[j] = limb(cx); Nat::from_limbs(v) }
        _ => nat(cx, 10),
    }
}
fn c_unsigned(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 10, 300);
    let a = nat(cx, max);
    let b = near(cx, &a);
    let k = if cx.draw(3) == 0 { a.raw()[0].wrapping_add(cx.draw(3) as u32).wrapping_sub(1) } else { edge_u32(cx) };
    cx.note(|| format!("a={:?} b={:?} k={}", a, b, k));
    cx.nt(a.limbs() == b.limbs() || a.limbs() > 1);
    let (x, y) = (ub(&a), ub(&b));
    let o = a.cmp(&b);
    six!(x, &y, o, lt gt eq neq leq geq comp);
    eqv("==", x == y, o == Ordering::Equal)?;
    eqv("<", x < y, o == Ordering::Less)?;
    eqv("<=", x <= y, o != Ordering::Greater)?;
    eqv(">", x > y, o == Ordering::Greater)?;
    eqv(">=", x >= y, o != Ordering::Less)?;
    eqv("Ord::max", r_ub(&Ord::max(x.clone(), y.clone())), Ord::max(&a, &b).clone())?;
    eqv("Ord::min", r_ub(&Ord::min(x.clone(), y.clone())), Ord::min(&a, &b).clone())?;
    eqv("cmp", Ord::cmp(&x, &y), o)?;
    eqv("partial_cmp", x.partial_cmp(&y), Some(o))?;
    let ok = a.cmp(&Nat::u(k as u128));
    six!(x, k, ok, lt_u32 gt_u32 eq_u32 neq_u32 leq_u32 geq_u32 comp_u32);
    eqv("is_zero", x.is_zero(), a.is_zero())?;
    eqv("is_one", x.is_one(), a.is_one())?;
    if o == Ordering::Equal { eqv("hash", hash(&x), hash(&y))?; }
    Ok(())
}
fn c_signed(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 8, 300);
    let m = nat(cx, max);
    let n = near(cx, &m);
    let (s, t) = (cx.bool(), cx.bool());
    let (a, b) = (Int::new(s, m), Int::new(t, n));
    let k = match cx.draw(3) { 0 => { let l = a.mag.raw()[0] as i32; let d = cx.range(-1, 1) as i32; let l = l.wrapping_add(d); if a.neg { l.wrapping_neg() } else { l } } _ => edge_i32(cx) };
    cx.note(|| format!("a={:?} b={:?} k={}", a, b, k));
    cx.nt(a.neg == b.neg || a.mag.limbs() > 1);
    let (x, y) = (bi(&a), bi(&b));
    let o = a.cmp(&b);
    six!(x, &y, o, lt gt eq neq leq geq comp);
    eqv("==", x == y, o == Ordering::Equal)?;
    eqv("<", x < y, o == Ordering::Less)?;
    eqv(">=", x >= y, o != Ordering::Less)?;
    eqv("cmp", Ord::cmp(&x, &y), o)?;
    eqv("partial_cmp", x.partial_cmp(&y), Some(o))?;
    let ok = a.cmp(&Int::i(k as i128));
    six!(x, k, ok, lt_i32 gt_i32 eq_i32 neq_i32 leq_i32 geq_i32 comp_i32);
    eqv("is_zero", x.is_zero(), a.is_zero())?;
    eqv("is_one", x.is_one(), a == Int::one())?;
    eqv("is_neg", x.is_neg(), a.neg)?;
    eqv("Ord::max", r_bi(&Ord::max(x.clone(), y.clone())), if o == Ordering::Less { b.clone() } else { a.clone() })?;
    eqv("Ord::min", r_bi(&Ord::min(x.clone(), y.clone())), if o == Ordering::Greater { b.clone() } else { a.clone() })?;
    eqv(">", x > y, o == Ordering::Greater)?;
    eqv("<=", x <= y, o != Ordering::Greater)?;
    if o == Ordering::Equal { eqv("hash", hash(&x), hash(&y))?; }
    Ok(())
}
fn c_sort(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(2, 16);
    let base = nat(cx, 4);
    let mut v: Vec<Int> = (0..n).map(|_| { let m = near(cx, &base); let s = cx.bool(); Int::new(s, m) }).collect();
    cx.note(|| format!("{:?}", v));
    cx.nt(n > 3);
    let mut x: Vec<BigInt> = v.iter().map(bi).collect();
    let mut y: Vec<UBigInt> = v.iter().map(|i| ub(&i.mag)).collect();
    let mut w: Vec<Nat> = v.iter().map(|i| i.mag.clone()).collect();
    x.sort();
    y.sort();
    v.sort();
    w.sort();
    for i in 0..n {
        ck_b("sorted signed", &x[i], &v[i])?;
        ck_u("sorted unsigned", &y[i], &w[i])?;
    }
    eqv("max", r_bi(x.iter().max().unwrap()), v[n - 1].clone())?;
    eqv("min", r_ub(y.iter().min().unwrap()), w[0].clone())
}
