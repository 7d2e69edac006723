//! C13..C16, C20: rational arithmetic, histories, ordering, rounding, shrink.
use super::{enumd, sub};
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::nat::{Int, Nat, Rat};
use hmath::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "pairs of rationals (integers, tiny fractions, dyadic, decimal, 1..12-limb parts, pairs sharing denominators or factors, pairs summing to zero or integers, reciprocals), integer and 32-bit operands with both range ends; non-trivial = at least one operand is not an integer",
            assumptions: &["reference rationals in harness/src/nat.rs are correct; validated against Python fractions"],
            subs: vec![
                sub("binary", 1_000_000, 9_000_000, binary),
                sub("with_integer", 1_400_000, 7_000_000, with_bi),
                sub("with_word", 1_800_000, 9_000_000, with_i32),
                sub("construct", 1_400_000, 7_000_000, construct),
                sub("pow", 600_000, 3_000_000, pow),
                sub("unary", 900_000, 4_000_000, parts),
                sub("zero_division", 40_000, 160_000, zero_division),
                enumd("small_grid", 41 * 41, grid),
            ],
        },
        Prop {
            id: "C14",
            rule: "random histories of 4..30 in-place and pure operations over four rational registers mirrored in a reference model; after every step value, lowest terms, sign normalisation, equality, hash and order are compared; non-trivial = at least 4 executed steps and a non-integer intermediate",
            assumptions: &["registers above 16 limbs are folded back by a generated shrinking step"],
            subs: vec![sub("history", 480_000, 1_920_000, history)],
        },
        Prop {
            id: "C15",
            rule: "pairs that are equal, differ in the last place, share a numerator or denominator, are mirror images, or are independent; 32-bit operands around the value; sorted vectors; non-trivial = two distinct non-integers, or a value within 1 of the word",
            assumptions: &["reference ordering by cross multiplication in harness/src/nat.rs is correct"],
            subs: vec![
                sub("pairs", 3_600_000, 14_400_000, cmp_pairs),
                sub("words", 3_600_000, 14_400_000, cmp_words),
                sub("sort", 240_000, 960_000, sort),
            ],
        },
        Prop {
            id: "C16",
            rule: "rationals at, just above and just below integers and half-integers, of both signs and up to 12 limbs, plus random ones; integer targets of every width with values at the ends of each range; non-trivial = not an integer",
            assumptions: &["reference rationals in harness/src/nat.rs are correct"],
            subs: vec![
                sub("rounding", 3_000_000, 12_000_000, rounding),
                sub("parts", 2_100_000, 8_400_000, parts),
                sub("to_integers", 1_500_000, 6_000_000, to_ints),
                enumd("small_grid", 401 * 24, round_grid),
            ],
        },
        Prop {
            id: "C20",
            rule: "numerators and denominators of 1..40 limbs with equal, slightly different and very different lengths, limits 0..40; non-trivial = at least one part longer than the limit and limit >= 3",
            assumptions: &["accuracy bound 2^-62 relative (three limbs always survive a cut)"],
            subs: vec![sub("shrink", 240_000, 1_500_000, shrink)],
        },
    ]
}

/// pairs of rationals with a relation between them often enough
fn pair(cx: &mut Cx, max: usize) -> (Rat, Rat) {
    let a = rat(cx, max);
    let b = match cx.draw(10) {
        0 => a.clone(),
        1 => a.neg(),
        2 => if a.is_zero() { Rat::one() } else { a.reci() },
        3 => Rat::i(cx.range(-3, 3) as i128).sub(&a),
        4 => Rat::new(int(cx, max), a.den()),
        5 => { let k = cx.range(1, 60) as i128; Rat::new(int(cx, max), a.den().mul(&Int::i(k))) }
        6 => { let d = nat_nz(cx, max); Rat::new(a.n.clone(), Int::nat(&d)) }
        7 => { let k = nat_nz(cx, 2); let g = nat_nz(cx, max); Rat::new(a.den().mul(&Int::nat(&k)), Int::nat(&g)) }
        _ => rat(cx, max),
    };
    if cx.bool() { (a, b) } else { (b, a) }
}

fn binary(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 10, 70);
    let (a, b) = pair(cx, max);
    cx.note(|| format!("a={:?} b={:?}", a, b));
    cx.nt(!a.d.is_one() || !b.d.is_one());
    let (x, y) = (ra(&a), ra(&b));
    let w = a.add(&b);
    ck_r("add", &x.add(&y), &w)?;
    let mut t = x.clone();
    t.add_mut(&y);
    ck_r("add_mut", &t, &w)?;
    let w = a.sub(&b);
    ck_r("sub", &x.sub(&y), &w)?;
    let mut t = x.clone();
    t.sub_mut(&y);
    ck_r("sub_mut", &t, &w)?;
    let w = a.mul(&b);
    ck_r("mul", &x.mul(&y), &w)?;
    let mut t = x.clone();
    t.mul_mut(&y);
    ck_r("mul_mut", &t, &w)?;
    if !b.is_zero() {
        let w = a.div(&b);
        ck_r("div", &x.div(&y), &w)?;
        let mut t = x.clone();
        t.div_mut(&y);
        ck_r("div_mut", &t, &w)?;
    }
    ck_r("operand a changed", &x, &a)?;
    ck_r("operand b changed", &y, &b)
}

fn with_bi(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 10, 70);
    let a = rat(cx, max);
    let k = match cx.draw(6) {
        0 => a.den(),
        1 => a.n.clone(),
        2 => { let m = Int::i(cx.range(-40, 40) as i128); a.den().mul(&m) }
        3 => { let m = Int::i(cx.range(-40, 40) as i128); a.n.mul(&m) }
        _ => int(cx, max),
    };
    cx.note(|| format!("a={:?} k={:?}", a, k));
    cx.nt(!a.d.is_one());
    let kr = Rat::int(k.clone());
    let (x, y) = (ra(&a), bi(&k));
    macro_rules! two {
        ($f:ident, $m:ident, $w:expr) => {{
            let w = $w;
            ck_r(stringify!($f), &x.$f(&y), &w)?;
            let mut t = x.clone();
            t.$m(&y);
            ck_r(stringify!($m), &t, &w)?;
        }};
    }
    two!(add_bi, add_bi_mut, a.add(&kr));
    two!(sub_bi, sub_bi_mut, a.sub(&kr));
    two!(mul_bi, mul_bi_mut, a.mul(&kr));
    if !k.is_zero() { two!(div_bi, div_bi_mut, a.div(&kr)); }
    ck_r("operand changed", &x, &a)
}

fn with_i32(cx: &mut Cx) -> Result<(), String> {
    let k = edge_i32(cx);
    let a = match cx.draw(6) {
        0 => Rat::new(int(cx, 3), Int::i(k.unsigned_abs().max(1) as i128)),
        1 => { let d = nat_nz(cx, 3); Rat::new(Int::i(k as i128), Int::nat(&d)) }
        _ => { let max = up(cx, 10, 70); rat(cx, max) }
    };
    cx.note(|| format!("a={:?} k={}", a, k));
    cx.nt(!a.d.is_one());
    let kr = Rat::i(k as i128);
    let x = ra(&a);
    macro_rules! two {
        ($f:ident, $m:ident, $w:expr) => {{
            let w = $w;
            ck_r(stringify!($f), &x.$f(k), &w)?;
            let mut t = x.clone();
            t.$m(k);
            ck_r(stringify!($m), &t, &w)?;
        }};
    }
    two!(add_i32, add_i32_mut, a.add(&kr));
    two!(sub_i32, sub_i32_mut, a.sub(&kr));
    two!(mul_i32, mul_i32_mut, a.mul(&kr));
    if k != 0 { two!(div_i32, div_i32_mut, a.div(&kr)); }
    ck_r("operand changed", &x, &a)
}

fn construct(cx: &mut Cx) -> Result<(), String> {
    // unreduced pairs
    let max = up(cx, 6, 60);
    let n = int(cx, max);
    let d = int_nz(cx, max);
    let g = if cx.bool() { int_nz(cx, 3.max(max / 2)) } else { Int::one() };
    let (n, d) = (n.mul(&g), d.mul(&g));
    let w = Rat::new(n.clone(), d.clone());
    cx.note(|| format!("numerator={:?} denominator={:?}", n, d));
    cx.nt(!w.d.is_one());
    ck_r("from denominator and numerator", &Ratio::from_denom_and_numer(bi(&d), bi(&n)), &w)?;
    ck_r("from pair", &Ratio::try_from((d.dec(), n.dec())).map_err(|e| format!("pair: {:?}", e))?, &w)?;
    let x = ra(&w);
    ck_b("get_denom", &x.get_denom(), &w.den())?;
    ck_b("get_numer", &x.get_numer(), &w.n)?;
    let (dd, nn): (BigInt, BigInt) = (&x).into();
    ck_b("pair denominator", &dd, &w.den())?;
    ck_b("pair numerator", &nn, &w.n)?;
    predicates(&x, &w)?;
    let (ni, di) = (edge_i32(cx), edge_i32(cx));
    if di != 0 {
        let w = Rat::frac(ni as i128, di as i128);
        cx.note(|| format!("word numerator={} word denominator={}", ni, di));
        ck_r("from 32-bit parts", &Ratio::from_denom_and_numer_i32(di, ni), &w)?;
        ck_r("from text pair", &Ratio::try_from((di.to_string().as_str(), ni.to_string())).map_err(|e| format!("pair: {:?}", e))?, &w)?;
    }
    ck_r("from integer", &Ratio::from_bi(bi(&n)), &Rat::int(n.clone()))?;
    ck_r("from integer ref", &Ratio::from(&bi(&n)), &Rat::int(n.clone()))?;
    ck_r("from natural", &Ratio::from_ubi(ub(&n.mag)), &Rat::int(n.abs()))?;
    let v = edge_i128(cx);
    let wi = |v: i128| Rat::i(v);
    ck_r("from i128", &Ratio::from(v), &wi(v))?;
    ck_r("from u128", &Ratio::from(v as u128), &Rat::int(Int::nat(&Nat::u(v as u128))))?;
    ck_r("from i64", &Ratio::from(v as i64), &wi(v as i64 as i128))?;
    ck_r("from u64", &Ratio::from(v as u64), &wi(v as u64 as i128))?;
    ck_r("from isize", &Ratio::from(v as isize), &wi(v as isize as i128))?;
    ck_r("from usize", &Ratio::from(v as usize), &wi(v as usize as i128))?;
    ck_r("from i32", &Ratio::from(v as i32), &wi(v as i32 as i128))?;
    ck_r("from u32", &Ratio::from(v as u32), &wi(v as u32 as i128))?;
    ck_r("from i16", &Ratio::from(v as i16), &wi(v as i16 as i128))?;
    ck_r("from u16", &Ratio::from(v as u16), &wi(v as u16 as i128))?;
    ck_r("from i8", &Ratio::from(v as i8), &wi(v as i8 as i128))?;
    ck_r("from u8", &Ratio::from(v as u8), &wi(v as u8 as i128))?;
    ck_r("from bool", &Ratio::from(v & 1 == 1), &wi(v & 1))
}

fn pow(cx: &mut Cx) -> Result<(), String> {
    let (a, e) = match cx.draw(10) {
        0 => (rat(cx, 1), cx.range(-60, 60) as i32),
        1 => (Rat::i(cx.range(-1, 1) as i128), edge_i32(cx)),
        2 => (small_rat(cx, 12), cx.range(-120, 120) as i32),
        _ => (rat(cx, 5), cx.range(-12, 12) as i32),
    };
    if a.is_zero() && e < 0 { return must_panic("0 to a negative power", || ra(&a).pow_i32(e)); }
    cx.note(|| format!("a={:?} e={}", a, e));
    cx.nt(!a.d.is_one() && e.unsigned_abs() > 1);
    let w = a.pow(e as i64);
    let x = ra(&a);
    ck_r("pow_i32", &x.pow_i32(e), &w)?;
    let mut t = x.clone();
    t.pow_i32_mut(e);
    ck_r("pow_i32_mut", &t, &w)
}

fn zero_division(cx: &mut Cx) -> Result<(), String> {
    let a = rat(cx, 4);
    let x = ra(&a);
    let z = Ratio::zero();
    cx.note(|| format!("a={:?}", a));
    cx.nt(!a.d.is_one());
    must_panic("div by zero", || x.div(&z))?;
    must_panic("div_mut by zero", || { let mut t = x.clone(); t.div_mut(&z); t })?;
    must_panic("div_bi by zero", || x.div_bi(&BigInt::zero()))?;
    must_panic("div_bi_mut by zero", || { let mut t = x.clone(); t.div_bi_mut(&BigInt::zero()); t })?;
    must_panic("div_i32 by zero", || x.div_i32(0))?;
    must_panic("div_i32_mut by zero", || { let mut t = x.clone(); t.div_i32_mut(0); t })?;
    must_panic("zero denominator", || Ratio::from_denom_and_numer(BigInt::zero(), bi(&a.n)))?;
    let k = edge_i32(cx);
    must_panic("zero 32-bit denominator", || Ratio::from_denom_and_numer_i32(0, k))?;
    must_panic("reciprocal of zero", || z.reci())?;
    must_panic("in-place reciprocal of zero", || { let mut t = z.clone(); t.reci_mut(); t })?;
    let t = a.n.dec();
    for (d, n) in [("0", t.as_str()), ("-0", t.as_str()), ("0.00", t.as_str()), ("0", "0")] {
        if let Ok(true) = catch(|| Ratio::try_from((d, n)).is_ok()) { return Err(format!("zero denominator accepted: {:?}/{:?}", n, d)); }
    }
    Ok(())
}

fn grid(cx: &mut Cx) -> Result<(), String> {
    let mk = |i: u64| -> Rat { let v = i as i128; Rat::frac([-7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 9][v as usize % 11], [1, 2, 3, 6][v as usize / 11]) };
    let (a, b) = (mk(cx.case / 41), mk(cx.case % 41));
    cx.note(|| format!("a={:?} b={:?}", a, b));
    cx.nt(!a.d.is_one());
    let (x, y) = (ra(&a), ra(&b));
    ck_r("add", &x.add(&y), &a.add(&b))?;
    ck_r("sub", &x.sub(&y), &a.sub(&b))?;
    ck_r("mul", &x.mul(&y), &a.mul(&b))?;
    eqv("comp", x.comp(&y), a.cmp(&b))?;
    if !b.is_zero() { ck_r("div", &x.div(&y), &a.div(&b))?; }
    Ok(())
}

fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

fn history(cx: &mut Cx) -> Result<(), String> {
    let mut m: Vec<Rat> = (0..4).map(|_| rat(cx, 3)).collect();
    let mut v: Vec<Ratio> = m.iter().map(ra).collect();
    let steps = if cx.one_in(40) { cx.usize(30, 300) } else { cx.usize(4, 30) };
    cx.note(|| format!("start {:?}", m));
    let mut ran = 0;
    let mut frac = false;
    for _ in 0..steps {
        let (i, j, o) = (cx.usize(0, 3), cx.usize(0, 3), cx.usize(0, 3));
        let op = cx.draw(36);
        let mut log = String::new();
        // keep values small
        if m[i].n.mag.limbs() > 16 || m[i].d.limbs() > 16 {
            let k = nat_nz(cx, 2);
            let q = Rat::new(m[i].n.mag.rem(&Nat::one().shl(64)).to_u128().map(|t| Int::i(t as i128)).unwrap(), Int::nat(&k));
            m[i] = q;
            v[i] = ra(&m[i]);
        }
        let (a, b) = (m[i].clone(), m[j].clone());
        let k = edge_i32(cx);
        match op {
            0 => { m[o] = a.add(&b); v[o] = v[i].add(&v[j]); log = format!("r{}=r{}+r{}", o, i, j); }
            1 => { m[o] = a.sub(&b); v[o] = v[i].sub(&v[j]); log = format!("r{}=r{}-r{}", o, i, j); }
            2 => { m[o] = a.mul(&b); v[o] = v[i].mul(&v[j]); log = format!("r{}=r{}*r{}", o, i, j); }
            3 => if !b.is_zero() { m[o] = a.div(&b); v[o] = v[i].div(&v[j]); log = format!("r{}=r{}/r{}", o, i, j); }
            4 => { let t = v[j].clone(); m[i] = a.add(&b); v[i].add_mut(&t); log = format!("r{}+=r{}", i, j); }
            5 => { let t = v[j].clone(); m[i] = a.sub(&b); v[i].sub_mut(&t); log = format!("r{}-=r{}", i, j); }
            6 => { let t = v[j].clone(); m[i] = a.mul(&b); v[i].mul_mut(&t); log = format!("r{}*=r{}", i, j); }
            7 => if !b.is_zero() { let t = v[j].clone(); m[i] = a.div(&b); v[i].div_mut(&t); log = format!("r{}/=r{}", i, j); }
            8 => { m[i] = a.neg(); v[i].neg_mut(); log = format!("r{}=-r{}", i, i); }
            9 => { m[i] = a.abs(); v[i].abs_mut(); log = format!("r{}=|r{}|", i, i); }
            10 => if !a.is_zero() { m[i] = a.reci(); v[i].reci_mut(); log = format!("r{}=1/r{}", i, i); }
            11 => { m[i] = Rat::int(a.trunc()); v[i].truncate_mut(); log = format!("r{}=trunc", i); }
            12 => { m[i] = a.sub(&Rat::int(a.trunc())); v[i].frac_mut(); log = format!("r{}=frac", i); }
            13 => { m[o] = Rat::int(a.floor()); v[o] = v[i].floor(); log = format!("r{}=floor r{}", o, i); }
            14 => { m[i] = a.add(&Rat::i(k as i128)); v[i].add_i32_mut(k); log = format!("r{}+={}", i, k); }
            15 => { m[i] = a.sub(&Rat::i(k as i128)); v[i].sub_i32_mut(k); log = format!("r{}-={}", i, k); }
            16 => { m[i] = a.mul(&Rat::i(k as i128)); v[i].mul_i32_mut(k); log = format!("r{}*={}", i, k); }
            17 => if k != 0 { m[i] = a.div(&Rat::i(k as i128)); v[i].div_i32_mut(k); log = format!("r{}/={}", i, k); }
            18 => { let e = cx.range(-3, 3); if !a.is_zero() { m[i] = a.pow(e); v[i].pow_i32_mut(e as i32); log = format!("r{}^={}", i, e); } }
            19 => { let t = int(cx, 3); m[i] = a.add(&Rat::int(t.clone())); v[i].add_bi_mut(&bi(&t)); log = format!("r{}+={:?}", i, t); }
            20 => { let t = int(cx, 3); m[i] = a.sub(&Rat::int(t.clone())); v[i].sub_bi_mut(&bi(&t)); log = format!("r{}-={:?}", i, t); }
            21 => { let t = int(cx, 3); m[i] = a.mul(&Rat::int(t.clone())); v[i].mul_bi_mut(&bi(&t)); log = format!("r{}*={:?}", i, t); }
            22 => { let t = int_nz(cx, 3); m[i] = a.div(&Rat::int(t.clone())); v[i].div_bi_mut(&bi(&t)); log = format!("r{}/={:?}", i, t); }
            23 => { m[i] = rat(cx, 3); v[i] = ra(&m[i]); log = format!("r{}={:?}", i, m[i]); }
            24 => { // through text
                let s = v[i].to_ratio_string();
                let (n, d) = match s.split_once('/') { Some((n, d)) => (n.to_string(), d.to_string()), None => (s.clone(), "1".to_string()) };
                let q = Ratio::from_string(&n).map_err(|e| format!("reparse: {:?}", e))?.div(&Ratio::from_string(&d).map_err(|e| format!("reparse: {:?}", e))?);
                v[i] = q;
                log = format!("r{} through text", i);
            }
            25 => { let (d, dn, n, nn) = v[i].clone().into_raw(); v[i] = Ratio::from_raw(d, dn, n, nn); log = format!("r{} through raw parts", i); }
            26 => { // sum - term = other term
                let t = v[i].add(&v[j]).sub(&v[i]);
                ensure(t == v[j], || format!("(a+b)-a != b: {:?} {:?}", a, b))?;
                log = "telescoping".into();
            }
            27 => { let (t, f) = v[i].truncate_and_frac(); v[i] = f; v[i].add_bi_mut(&t); log = format!("r{} = frac + trunc", i); }
            28 => { let (p, q, d) = common_denom(&v[i], &v[j]); v[i] = Ratio::from_denom_and_numer(d.clone(), p); v[j] = Ratio::from_denom_and_numer(d, q); log = format!("r{},r{} over a common denominator", i, j); }
            29 => { m[o] = Rat::int(round_ref(&a)); v[o] = v[i].round(); log = format!("r{}=round r{}", o, i); }
            30 => { m[o] = a.neg(); v[o] = v[i].neg(); log = format!("r{}=-r{}", o, i); }
            31 => if !a.is_zero() { m[o] = a.reci(); v[o] = v[i].reci(); log = format!("r{}=1/r{}", o, i); }
            32 => { m[o] = a.clone(); v[o] = v[i].clone(); log = format!("r{}=r{}", o, i); }
            33 => { m[o] = a.sub(&Rat::int(a.trunc())); v[o] = v[i].frac(); log = format!("r{}=frac r{}", o, i); }
            34 => match cx.draw(4) { // pure word operations
                0 => { m[o] = a.add(&Rat::i(k as i128)); v[o] = v[i].add_i32(k); log = format!("r{}=r{}+{}", o, i, k); }
                1 => { m[o] = a.sub(&Rat::i(k as i128)); v[o] = v[i].sub_i32(k); log = format!("r{}=r{}-{}", o, i, k); }
                2 => { m[o] = a.mul(&Rat::i(k as i128)); v[o] = v[i].mul_i32(k); log = format!("r{}=r{}*{}", o, i, k); }
                _ => if k != 0 { m[o] = a.div(&Rat::i(k as i128)); v[o] = v[i].div_i32(k); log = format!("r{}=r{}/{}", o, i, k); }
            },
            _ => { m[o] = a.sub(&b).mul(&a.add(&b)); v[o] = v[i].mul(&v[i]).sub(&v[j].mul(&v[j])); log = format!("r{}=r{}^2-r{}^2", o, i, j); }
        }
        if log.is_empty() { continue; }
        ran += 1;
        cx.note(|| log.clone());
        for q in 0..4 {
            ck_r(&format!("register {}", q), &v[q], &m[q])?;
            if !m[q].d.is_one() { frac = true; }
        }
        let (p, q) = (cx.usize(0, 3), cx.usize(0, 3));
        eqv("order", v[p].cmp(&v[q]), m[p].cmp(&m[q]))?;
        eqv("equality", v[p] == v[q], m[p] == m[q])?;
        if m[p] == m[q] { eqv("hash", hash(&v[p]), hash(&v[q]))?; }
    }
    cx.nt(ran >= 4 && frac);
    Ok(())
}

fn cmp_pair(cx: &mut Cx) -> (Rat, Rat) {
    let max = up(cx, 9, 70);
    let a = rat(cx, max);
    let b = match cx.draw(8) {
        0 => a.clone(),
        1 => { let e = cx.range(0, 400); let d = Rat::pow2(Int::one(), -e); if cx.bool() { a.add(&d) } else { a.sub(&d) } }
        2 => Rat::new(a.n.add(&Int::i(cx.range(-2, 2) as i128)), a.den()),
        3 => { let d = a.den().add(&Int::i(cx.range(0, 2) as i128)); Rat::new(a.n.clone(), d) }
        4 => a.neg(),
        5 => { let k = cx.range(-1, 1) as i128; Rat::new(a.n.add(&Int::i(k)), a.den().add(&Int::i(cx.range(0, 1) as i128))) }
        _ => rat(cx, max),
    };
    if cx.bool() { (a, b) } else { (b, a) }
}
fn cmp_pairs(cx: &mut Cx) -> Result<(), String> {
    let (a, b) = cmp_pair(cx);
    cx.note(|| format!("a={:?} b={:?}", a, b));
    cx.nt(a != b && !a.d.is_one() && !b.d.is_one());
    if a == b { cx.label("equal"); }
    let (x, y) = (ra(&a), ra(&b));
    let o = a.cmp(&b);
    eqv("comp", x.comp(&y), o)?;
    eqv("cmp", x.cmp(&y), o)?;
    eqv("partial_cmp", x.partial_cmp(&y), Some(o))?;
    eqv("lt", Ratio::lt(&x, &y), o == Ordering::Less)?;
    eqv("gt", Ratio::gt(&x, &y), o == Ordering::Greater)?;
    eqv("leq", x.leq(&y), o != Ordering::Greater)?;
    eqv("geq", x.geq(&y), o != Ordering::Less)?;
    eqv("eq", Ratio::eq(&x, &y), o == Ordering::Equal)?;
    eqv("neq", x.neq(&y), o != Ordering::Equal)?;
    eqv("== operator", x == y, o == Ordering::Equal)?;
    eqv("< operator", x < y, o == Ordering::Less)?;
    eqv(">= operator", x >= y, o != Ordering::Less)?;
    eqv("> operator", x > y, o == Ordering::Greater)?;
    eqv("<= operator", x <= y, o != Ordering::Greater)?;
    predicates(&x, &a)?;
    if o == Ordering::Equal { eqv("hash", hash(&x), hash(&y))?; }
    Ok(())
}
fn cmp_words(cx: &mut Cx) -> Result<(), String> {
    let k = edge_i32(cx);
    let kr = Rat::i(k as i128);
    let a = match cx.draw(6) {
        0 => kr.clone(),
        1 => { let e = cx.range(0, 200); let d = Rat::pow2(Int::one(), -e); if cx.bool() { kr.add(&d) } else { kr.sub(&d) } }
        2 => { let d = nat_nz(cx, 4); let n = Int::nat(&d).mul(&kr.n).add(&Int::i(cx.range(-1, 1) as i128)); Rat::new(n, Int::nat(&d)) }
        3 => { let r = rat(cx, 3); Rat::new(r.n, Int::i(k.unsigned_abs().max(1) as i128)) }
        4 => { let n = int(cx, 9); Rat::int(n) }
        _ => { let max = up(cx, 9, 70); rat(cx, max) }
    };
    cx.note(|| format!("a={:?} k={}", a, k));
    cx.nt(a.sub(&kr).abs() <= Rat::one() && a != kr);
    let x = ra(&a);
    let o = a.cmp(&kr);
    eqv("comp_i32", x.comp_i32(k), o)?;
    eqv("lt_i32", x.lt_i32(k), o == Ordering::Less)?;
    eqv("gt_i32", x.gt_i32(k), o == Ordering::Greater)?;
    eqv("leq_i32", x.leq_i32(k), o != Ordering::Greater)?;
    eqv("geq_i32", x.geq_i32(k), o != Ordering::Less)?;
    eqv("eq_i32", x.eq_i32(k), o == Ordering::Equal)?;
    eqv("neq_i32", x.neq_i32(k), o != Ordering::Equal)?;
    let o = a.cmp(&Rat::one());
    eqv("lt_one", x.lt_one(), o == Ordering::Less)?;
    eqv("gt_one", x.gt_one(), o == Ordering::Greater)?;
    predicates(&x, &a)
}
fn sort(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(2, 12);
    let mut m: Vec<Rat> = vec![];
    for _ in 0..n {
        let r = if !m.is_empty() && cx.draw(3) == 0 { let r = cx.pick(&m).clone(); if cx.bool() { r } else { r.neg() } } else { rat(cx, 4) };
        m.push(r);
    }
    let mut v: Vec<Ratio> = m.iter().map(ra).collect();
    cx.note(|| format!("{:?}", m));
    cx.nt(n > 2);
    v.sort();
    m.sort();
    for i in 0..n { ck_r("sorted element", &v[i], &m[i])?; }
    ck_r("min", v.iter().min().unwrap(), &m[0])?;
    ck_r("max", v.iter().max().unwrap(), &m[n - 1])
}

fn near_half(cx: &mut Cx) -> Rat {
    match cx.draw(6) {
        0 | 1 | 2 => {
            let n = if cx.bool() { Int::i(cx.range(-6, 6) as i128) } else { int(cx, 4) };
            let base = Rat::new(n, Int::i(2));
            match cx.draw(4) {
                0 => base,
                1 => { let e = cx.range(1, 300); base.add(&Rat::pow2(Int::one(), -e)) }
                2 => { let e = cx.range(1, 300); base.sub(&Rat::pow2(Int::one(), -e)) }
                _ => { let d = nat_nz(cx, 4); let s = if cx.bool() { 1 } else { -1 }; base.add(&Rat::new(Int::i(s), Int::nat(&d))) }
            }
        }
        _ => { let max = up(cx, 12, 80); rat(cx, max) }
    }
}
fn round_ref(a: &Rat) -> Int {
    let t = a.abs().add(&Rat::frac(1, 2)).floor();
    if a.is_neg() { t.neg() } else { t }
}
fn check_rounding(a: &Rat) -> Result<(), String> {
    let x = ra(a);
    let t = a.trunc();
    let f = a.sub(&Rat::int(t.clone()));
    ck_b("truncate_bi", &x.truncate_bi(), &t)?;
    ck_r("truncate", &x.truncate(), &Rat::int(t.clone()))?;
    let mut y = x.clone();
    y.truncate_mut();
    ck_r("truncate_mut", &y, &Rat::int(t.clone()))?;
    ck_r("frac", &x.frac(), &f)?;
    let mut y = x.clone();
    y.frac_mut();
    ck_r("frac_mut", &y, &f)?;
    let (p, q) = x.truncate_and_frac();
    ck_b("truncate_and_frac.0", &p, &t)?;
    ck_r("truncate_and_frac.1", &q, &f)?;
    ck_b("floor_bi", &x.floor_bi(), &a.floor())?;
    ck_r("floor", &x.floor(), &Rat::int(a.floor()))?;
    ck_b("round_bi", &x.round_bi(), &round_ref(a))?;
    ck_r("round", &x.round(), &Rat::int(round_ref(a)))?;
    ck_b("as integer", &BigInt::from(x.clone()), &t)?;
    ck_b("reference as integer", &BigInt::from(&x), &t)
}
fn rounding(cx: &mut Cx) -> Result<(), String> {
    let a = near_half(cx);
    cx.note(|| format!("a={:?}", a));
    cx.nt(!a.d.is_one());
    if a.d == Nat::u(2) { cx.label("half"); }
    check_rounding(&a)
}
fn round_grid(cx: &mut Cx) -> Result<(), String> {
    let a = Rat::frac(cx.case as i128 % 401 - 200, cx.case as i128 / 401 + 1);
    cx.note(|| format!("a={:?}", a));
    cx.nt(!a.d.is_one());
    check_rounding(&a)
}
fn predicates(x: &Ratio, w: &Rat) -> Result<(), String> {
    eqv("is_neg", x.is_neg(), w.is_neg())?;
    eqv("is_zero", x.is_zero(), w.is_zero())?;
    eqv("is_one", x.is_one(), *w == Rat::one())?;
    eqv("is_integer", x.is_integer(), w.d.is_one())
}
fn parts(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 8, 60);
    let (a, b) = pair(cx, max);
    cx.note(|| format!("a={:?} b={:?}", a, b));
    cx.nt(!a.d.is_one() && !b.d.is_one());
    let (x, y) = (ra(&a), ra(&b));
    ck_b("get_denom", &x.get_denom(), &a.den())?;
    ck_b("get_numer", &x.get_numer(), &a.n)?;
    let (dd, nn): (BigInt, BigInt) = (&x).into();
    ck_b("pair denominator", &dd, &a.den())?;
    ck_b("pair numerator", &nn, &a.n)?;
    let (dd, nn): (BigInt, BigInt) = x.clone().into();
    ck_b("owned pair denominator", &dd, &a.den())?;
    ck_b("owned pair numerator", &nn, &a.n)?;
    predicates(&x, &a)?;
    ck_r("neg", &x.neg(), &a.neg())?;
    let mut t = x.clone();
    t.neg_mut();
    ck_r("neg_mut", &t, &a.neg())?;
    ck_r("abs", &x.abs(), &a.abs())?;
    let mut t = x.clone();
    t.abs_mut();
    ck_r("abs_mut", &t, &a.abs())?;
    if !a.is_zero() {
        ck_r("reci", &x.reci(), &a.reci())?;
        let mut t = x.clone();
        t.reci_mut();
        ck_r("reci_mut", &t, &a.reci())?;
    }
    let (p, q, d) = common_denom(&x, &y);
    let l = a.d.mul(&b.d).div(&a.d.gcd(&b.d));
    ck_b("common denominator", &d, &Int::nat(&l))?;
    ck_b("first numerator", &p, &a.mul(&Rat::int(Int::nat(&l))).n)?;
    ck_b("second numerator", &q, &b.mul(&Rat::int(Int::nat(&l))).n)
}
fn to_ints(cx: &mut Cx) -> Result<(), String> {
    let base = edge_i128(cx);
    let m = if cx.draw(4) == 0 { int(cx, 6) } else { Int::i(base) };
    let f = match cx.draw(4) { 0 => Rat::zero(), 1 => Rat::frac(1, 2), 2 => { let e = cx.range(1, 200); Rat::one().sub(&Rat::pow2(Int::one(), -e)) }, _ => { let e = cx.range(1, 200); Rat::pow2(Int::one(), -e) } };
    let a = if cx.bool() { Rat::int(m).add(&f) } else { Rat::int(m).sub(&f) };
    let t = a.trunc();
    cx.note(|| format!("a={:?}", a));
    cx.nt(!a.d.is_one());
    let x = ra(&a);
    macro_rules! one {
        ($($ty:ty),*) => {$({
            let want = t.to_i128().and_then(|v| <$ty>::try_from(v).ok());
            eqv(concat!("to ", stringify!($ty)), <$ty>::try_from(&x).ok(), want)?;
            eqv(concat!("to ", stringify!($ty), " by value"), <$ty>::try_from(x.clone()).ok(), want)?;
        })*};
    }
    one!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, usize);
    let want = if t.neg { None } else { t.mag.to_u128() };
    eqv("to u128", u128::try_from(&x).ok(), want)?;
    match UBigInt::try_from(x.clone()) {
        Ok(u) => { ensure(!t.neg, || format!("negative accepted as natural: {:?}", a))?; ck_u("to natural", &u, &t.mag) }
        Err(_) => ensure(t.neg, || format!("natural refused: {:?}", a)),
    }
}

fn shrink(cx: &mut Cx) -> Result<(), String> {
    let top = if cx.one_in(400) { 200 } else { 40 };
    let nl = cx.usize(1, top);
    let dl = match cx.draw(4) { 0 => nl, 1 => (nl as i64 + cx.range(-6, 6)).clamp(1, top as i64 + 4) as usize, _ => cx.usize(1, top) };
    let n = nat_of(cx, nl);
    let d = nat_of(cx, dl);
    let d = if d.is_zero() { Nat::one() } else { d };
    let s = cx.bool();
    let a = Rat::new(Int::new(s, n), Int::nat(&d));
    let limit = match cx.draw(3) { 0 => cx.usize(0, 8), 1 => cx.usize(3, 40), _ => (a.n.mag.limbs().max(a.d.limbs()) as i64 + cx.range(-5, 2)).max(0) as usize };
    let big = a.n.mag.raw().len().max(a.d.raw().len());
    cx.note(|| format!("a={:?} limit={}", a, limit));
    cx.nt(limit >= 3 && big > limit);
    let x = ra(&a);
    let mut y = x.clone();
    let r = y.shrink(limit);
    let v = r_ra("shrunk", &y)?;
    let vb = v.n.mag.raw().len().max(v.d.raw().len());
    if limit < 3 {
        eqv("tiny limit", r, Err(0))?;
        return ck_r("unchanged", &y, &a);
    }
    if big <= limit {
        eqv("already small", r, Ok(0))?;
        return ck_r("unchanged", &y, &a);
    }
    match r {
        Ok(_) => { cx.label("ok"); ensure(vb <= limit, || format!("[size] Ok but {} limbs > {}", vb, limit))?; }
        Err(_) => { cx.label("err"); }
    }
    // 2^-62 relative
    let err = v.sub(&a).abs();
    let lim = Rat::pow2(Int::one(), -62).mul(&a.abs());
    ensure(err <= lim, || format!("[accuracy] {:?} became {:?}", a, v))?;
    eqv("sign", v.is_neg(), a.is_neg())
}
