//! C35: random values (feature `rand`). The values themselves come from the operating system, so only
//! statements that hold for every draw (or fail with negligible probability, < 2^-80) are checked.
use super::sub;
use crate::conv::*;
use crate::engine::*;
use crate::nat::{Nat, Rat};
use hmath::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C35",
        rule: "scales 0..40 (signed and unsigned), batches of rationals, shapes 0..6 by 0..6; each case draws several values; non-trivial = scale or size greater than one",
        assumptions: &["the random source is the operating system's; what is generated is the scale, size and number of draws"],
        subs: vec![sub("integers", 30_000, 400_000, r_int), sub("sign", 300, 3000, r_sign), sub("rationals", 30_000, 300_000, r_ratio), sub("matrices", 8_000, 80_000, r_matrix)],
    }]
}

fn r_int(cx: &mut Cx) -> Result<(), String> {
    let hi = if cx.one_in(10) { 40 } else { 6 };
    let s = cx.usize(0, hi);
    cx.note(|| format!("scale {}", s));
    cx.nt(s > 1);
    let lim = Nat::one().shl(32 * s as u64);
    let range = |w: &str, n: &Nat| -> Result<(), String> {
        if s == 0 { return ensure(n.is_zero(), || format!("{}: scale 0 gives {:?}", w, n)); }
        ensure(!n.is_zero(), || format!("{}: zero at scale {}", w, s))?;
        ensure(*n < lim, || format!("{}: {:?} is outside scale {}", w, n, s))
    };
    let (mut us, mut bs) = (vec![], vec![]);
    for _ in 0..4 {
        let u = UBigInt::random(s);
        let n = r_ub(&u);
        ck_u("random", &u, &n)?; // canonical
        range("unsigned random", &n)?;
        us.push(n);
        let b = BigInt::random(s);
        let i = r_bi(&b);
        ck_b("random", &b, &i)?;
        range("signed random", &i.mag)?;
        ensure(!(i.neg && i.is_zero()), || "negative zero".into())?;
        bs.push(i);
    }
    // draws are not constant, and every limb varies (a collision of 96 bits is negligible)
    if s >= 3 {
        ensure(us[0] != us[1] && bs[0].mag != bs[1].mag && us[0] != bs[0].mag, || format!("repeated value at scale {}", s))?;
        ensure(us[0].clone().rem(&Nat::one().shl(96)) != us[1].clone().rem(&Nat::one().shl(96)), || "low limbs do not vary".into())?;
        ensure(us.iter().any(|n| n.bits() as usize > 32 * s - 32), || "the top limb is never used".into())?;
    }
    Ok(())
}
/// both signs occur: 400 fair draws stay within 80..320 except with probability below 2^-100
fn r_sign(cx: &mut Cx) -> Result<(), String> {
    let s = cx.usize(1, 4);
    cx.note(|| format!("scale {}", s));
    cx.nt(true);
    let k = (0..400).filter(|_| BigInt::random(s).is_neg()).count();
    ensure((80..=320).contains(&k), || format!("{} of 400 draws are negative", k))
}
fn r_ratio(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(2, 6);
    cx.note(|| format!("{} draws", n));
    cx.nt(true);
    let mut seen: Vec<Rat> = vec![];
    for _ in 0..n {
        let x = Ratio::random();
        let r = r_ra("random rational", &x)?;
        ensure(!r.is_neg() && !r.is_zero() && r.sub(&Rat::one()).is_neg(), || format!("{:?} is not between 0 and 1", r))?;
        ensure(!seen.contains(&r), || "repeated value".into())?;
        seen.push(r);
    }
    Ok(())
}
fn r_matrix(cx: &mut Cx) -> Result<(), String> {
    let (c, r) = (cx.usize(1, 6), cx.usize(1, 6));
    cx.note(|| format!("{} columns, {} rows", c, r));
    cx.nt(c > 1 && r > 1);
    let m = Matrix::random(c, r);
    eqv("is_square", m.is_square(), c == r)?;
    let mut seen: Vec<Rat> = vec![];
    for i in 0..r {
        for j in 0..c {
            let v = r_ra("entry", m.get(i, j))?;
            ensure(!v.is_neg() && !v.is_zero() && v.sub(&Rat::one()).is_neg(), || format!("{:?} is not between 0 and 1", v))?;
            ensure(!seen.contains(&v), || "repeated entry".into())?;
            seen.push(v);
        }
    }
    // the same data with the stated shape is the same matrix
    let data: Vec<Vec<Ratio>> = (0..r).map(|i| (0..c).map(|j| m.get(i, j).clone()).collect()).collect();
    ensure(Matrix::from_raw(data, c, r) == m, || format!("not {} columns by {} rows", c, r))
}
