//! C29..C34: the 192-bit float.
use super::ratio_text::{any_f32, any_f64, f32_value, f64_value};
use super::{enumd, sub};
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::nat::{Int, Nat, Rat};
use crate::real::R;
use hmath::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C29",
            rule: "machine integers of every width at their bounds, 128-bit significands (edge patterns and random) with binary exponents -400..400 and both signs, f32/f64 drawn by bit pattern, rationals at, next to and half way between representable values; non-trivial = more than 64 significant bits, or a subnormal/extreme float, or a value outside the target range",
            assumptions: &["values are read back exactly through the conversion to a rational, which is itself checked against the construction from 128-bit integers and shifts"],
            subs: vec![
                sub("integers", 400_000, 6_000_000, v_ints),
                sub("to_integers", 400_000, 6_000_000, v_to_ints),
                sub("from_floats", 400_000, 6_000_000, v_from_float),
                sub("to_floats", 250_000, 4_000_000, v_to_float),
                sub("rationals", 60_000, 900_000, v_ratio),
                sub("wide", 60_000, 900_000, v_wide),
                sub("long_rationals", 400, 2_000, v_long),
            ],
        },
        Prop {
            id: "C30",
            rule: "pairs of floats with edge-pattern and random significands, exponent gaps 0..300, equal and opposite signs, nearly cancelling pairs, exact integer pairs of up to 124 bits, exponents up to 2^46 in magnitude, and every 32-bit operand class; non-trivial = both operands non-zero and not both small integers",
            assumptions: &["error bounds: addition and word operations 2^-125, subtraction 2^-126, multiplication 2^-123, division 2^-122 relative"],
            subs: vec![
                sub("add_sub", 120_000, 1_000_000, a_addsub),
                sub("mul", 300_000, 2_500_000, a_mul),
                sub("div", 120_000, 1_000_000, a_div),
                sub("word", 300_000, 3_000_000, a_word),
                sub("exact", 200_000, 1_500_000, a_exact),
                sub("wide", 120_000, 1_000_000, a_wide),
            ],
        },
        Prop {
            id: "C31",
            rule: "pairs equal, adjacent, mirrored, of neighbouring exponents or independent, zero included; values at and next to integers and half-integers of both signs up to 2^130; shifts up to 2^40; the named constants; non-trivial = not an integer (rounding) or same sign and exponent within 2 (ordering)",
            assumptions: &["values are read back exactly through the conversion to a rational"],
            subs: vec![
                sub("order", 1_800_000, 7_200_000, o_order),
                sub("sort", 90_000, 360_000, o_sort),
                sub("rounding", 900_000, 3_600_000, o_round),
                sub("unary", 1_200_000, 4_800_000, o_unary),
                sub("wide", 600_000, 2_400_000, o_wide),
                enumd("constants", 16, o_consts),
            ],
        },
        Prop {
            id: "C32",
            rule: "decimal literals of 1..60 digits with underscores, fractions, leading fractional zeros and exponents -600..600, prefixed integers with either sign, mutated strings; renderings over 10^-300..10^300 and a few at 2^+-2^46; 13-character codes (random codes and random values); non-trivial = more than 9 significant digits, an exponent, a prefix or a mutated string",
            assumptions: &["parsing tolerance 2^-108 relative, rendering 18 significant digits (1.05e-18 relative) or 1e-20 absolute in the plain form below one, code 2^-63 relative"],
            subs: vec![
                sub("parse", 600_000, 2_400_000, s_parse),
                sub("malformed", 1_500_000, 6_000_000, s_bad),
                sub("render", 300_000, 1_200_000, s_render),
                sub("literal_roundtrip", 300_000, 1_200_000, s_round),
                sub("code13", 750_000, 3_000_000, s_code),
                sub("code13_edges", 200_000, 2_000_000, s_code_edge),
                sub("code13_decode", 1_500_000, 6_000_000, s_decode),
            ],
        },
        Prop {
            id: "C33",
            rule: "arguments over 2^-300..2^300 with edge-pattern significands, perfect squares, powers of two and neighbours, values near 1; exponents of both signs; reference at 300..500 bits; non-trivial = not a power of two",
            assumptions: &["error bounds as in the property statement"],
            subs: vec![
                sub("sqrt", 120_000, 800_000, t_sqrt),
                sub("log", 24_000, 150_000, t_log),
                sub("pow2", 40_000, 300_000, t_pow2),
                sub("powi", 24_000, 150_000, t_powi),
                sub("powi_large", 20_000, 120_000, t_powi_large),
                sub("pow", 12_000, 80_000, t_pow),
                sub("wide", 20_000, 120_000, t_wide),
                sub("domain", 8_000, 50_000, t_domain),
            ],
        },
        Prop {
            id: "C34",
            rule: "angles in every octant, near multiples of pi/4, tiny, and up to 2^60; inverse functions over their domain with both signs, near 0, 1/sqrt 2 and 1, and beyond 1 for the arctangent; reference at 400 bits; non-trivial = the angle needs argument reduction, or |x| > 1/10 for the inverse functions",
            assumptions: &["error bounds as in the property statement"],
            subs: vec![
                sub("sin_cos", 30_000, 200_000, g_sincos),
                sub("tan", 16_000, 100_000, g_tan),
                sub("inverse", 12_000, 80_000, g_inv),
                sub("wide", 12_000, 80_000, g_wide),
                sub("domain", 8_000, 50_000, g_domain),
            ],
        },
    ]
}

// ---------------------------------------------------------------- helpers
/// sign, integer significand, binary exponent
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V { neg: bool, d: u128, e: i64 }
impl V {
    fn mk(&self) -> F192 {
        let mut f = F192::from(self.d);
        if self.e >= 0 { f = f.shl(self.e as u64) } else { f = f.shr(self.e.unsigned_abs()) }
        if self.neg { f.neg() } else { f }
    }
    fn val(&self) -> Rat { Rat::pow2(Int::new(self.neg, Nat::u(self.d)), self.e) }
    fn neg(&self) -> V { V { neg: !self.neg, ..*self } }
}
/// the exact value, read through the integer conversion after scaling the significand to an integer
/// (the conversion to a rational is checked against the same values in C29; it is slow for large exponents)
pub fn rd(what: &str, x: &F192) -> Result<Rat, String> {
    if *x == F192::ZERO { return Ok(Rat::zero()); }
    let m = x.abs();
    let l = i64::try_from(m.ilog2()).map_err(|_| format!("{}: unreadable exponent", what))?;
    let k = l - 127;
    let y = if k >= 0 { m.shr(k as u64) } else { m.shl(k.unsigned_abs()) };
    let d = u128::try_from(y).map_err(|_| format!("{}: unreadable significand", what))?;
    ensure(d >> 127 == 1, || format!("{}: not normalised", what))?;
    Ok(Rat::pow2(Int::new(*x < F192::ZERO, Nat::u(d)), k))
}
pub fn rd_ratio(what: &str, x: &F192) -> Result<Rat, String> { r_ra(what, &Ratio::from(*x)) }
fn sig(cx: &mut Cx) -> u128 {
    let d = match cx.draw(10) {
        0 => 1u128 << 127,
        1 => u128::MAX - cx.draw(4) as u128,
        2 => (1u128 << 127) + cx.draw(4) as u128,
        3 => { let k = cx.draw(128); u128::MAX << k }
        4 => (1u128 << 127) | (1u128 << cx.draw(128)) | (1u128 << cx.draw(128)),
        5 => { let k = 1 + cx.draw(1000) as u128; k << k.leading_zeros() }
        6 => { let k = (edge_u64(cx) as u128).max(1); k << k.leading_zeros() }
        7 => (1u128 << 127) | (edge_u64(cx) as u128),
        8 => { let k = edge_u128(cx).max(1); k << k.leading_zeros() }
        _ => (1u128 << 127) | (cx.u64() as u128) | ((cx.u64() as u128) << 64),
    };
    d
}
/// magnitude between 2^lo and 2^hi
fn v_in(cx: &mut Cx, lo: i64, hi: i64) -> V {
    let d = sig(cx);
    let m = match cx.draw(10) { 0 | 1 | 2 => cx.range(lo.max(-8), hi.min(8)), 3 | 4 | 5 => cx.range(lo.max(-70), hi.min(130)), 6 => word_in(cx, lo, hi), _ => cx.range(lo, hi) };
    V { neg: cx.bool(), d, e: m - 127 }
}
fn v_any(cx: &mut Cx) -> V {
    if cx.one_in(15) { return V { neg: false, d: 0, e: 0 }; }
    if cx.draw(5) == 0 { return V { neg: cx.bool(), d: cx.draw(2000) as u128, e: if cx.bool() { 0 } else { cx.range(-12, 12) } }; }
    v_in(cx, -300, 300)
}
/// |got - want| <= |want| * 2^-bits
fn close(what: &str, got: &Rat, want: &Rat, bits: i64) -> Result<(), String> {
    let tol = Rat::pow2(Int::one(), -bits).mul(&want.abs());
    within(what, got, want, &tol)
}
fn within(what: &str, got: &Rat, want: &Rat, tol: &Rat) -> Result<(), String> {
    let d = got.sub(want).abs();
    if tol.sub(&d).is_neg() {
        let l = |r: &Rat| if r.is_zero() { "0".to_string() } else { format!("2^{}", r.ilog2()) };
        return Err(format!("{}[inaccurate]: got {:?}, expected {:?}, error {} allowed {}", what, got, want, l(&d), l(tol)));
    }
    Ok(())
}
fn p2(e: i64) -> Rat { Rat::pow2(Int::one(), e) }
fn cmp_rat(a: &Rat, b: &Rat) -> Ordering { let d = a.sub(b); if d.is_zero() { Ordering::Equal } else if d.is_neg() { Ordering::Less } else { Ordering::Greater } }

// ---------------------------------------------------------------- C29
fn v_ints(cx: &mut Cx) -> Result<(), String> {
    let u = edge_u128(cx);
    let i = edge_i128(cx);
    cx.note(|| format!("u={} i={}", u, i));
    cx.nt(u >> 64 != 0 || i.unsigned_abs() >> 63 != 0);
    let ck = |w: &str, f: F192, v: Int| ck_r(w, &Ratio::from(f), &Rat::int(v));
    ck("from u128", F192::from(u), Int::nat(&Nat::u(u)))?;
    ck("from i128", F192::from(i), Int::i(i))?;
    ck("from u64", F192::from(u as u64), Int::nat(&Nat::u(u as u64 as u128)))?;
    ck("from u32", F192::from(u as u32), Int::nat(&Nat::u(u as u32 as u128)))?;
    ck("from u16", F192::from(u as u16), Int::nat(&Nat::u(u as u16 as u128)))?;
    ck("from u8", F192::from(u as u8), Int::nat(&Nat::u(u as u8 as u128)))?;
    ck("from usize", F192::from(u as usize), Int::nat(&Nat::u(u as usize as u128)))?;
    ck("from i64", F192::from(i as i64), Int::i(i as i64 as i128))?;
    ck("from i32", F192::from(i as i32), Int::i(i as i32 as i128))?;
    ck("from i16", F192::from(i as i16), Int::i(i as i16 as i128))?;
    ck("from i8", F192::from(i as i8), Int::i(i as i8 as i128))?;
    ck("from isize", F192::from(i as isize), Int::i(i as isize as i128))?;
    // there and back
    eqv("u128 round trip", u128::try_from(F192::from(u)), Ok(u))?;
    eqv("i128 round trip", i128::try_from(F192::from(i)), Ok(i))?;
    eqv("u64 round trip", u64::try_from(F192::from(u as u64)), Ok(u as u64))?;
    eqv("i64 round trip", i64::try_from(F192::from(i as i64)), Ok(i as i64))
}
fn v_to_ints(cx: &mut Cx) -> Result<(), String> {
    let v = match cx.draw(4) {
        0 => { // around a type bound, possibly with a fraction
            let b = *cx.pick(&[7i64, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
            let base = Nat::one().shl(b as u64 + 3);
            let d = cx.range(-20, 20);
            let m = if d < 0 { base.sub(&Nat::u((-d) as u128)).unwrap() } else { base.add(&Nat::u(d as u128)) };
            match m.to_u128() { Some(d) => V { neg: cx.bool(), d, e: -3 }, None => V { neg: cx.bool(), d: 1 << 127, e: b - 127 } }
        }
        1 => v_in(cx, -140, 132),
        2 => V { neg: cx.bool(), d: sig(cx), e: -(cx.range(0, 300)) },
        _ => v_any(cx),
    };
    cx.note(|| format!("{:?}", v));
    let x = v.mk();
    let t = v.val().trunc();
    cx.nt(v.d != 0 && (t.to_i128().is_none() || Rat::int(t.clone()) != v.val()));
    let ti = t.to_i128();
    let tu = if t.neg { None } else { t.mag.to_u128() };
    // a negative value above -1 truncates to zero; an unsigned target may refuse it or give zero
    let tiny_neg = v.neg && t.is_zero();
    macro_rules! unsigned { ($($t:ty),*) => { $(
        let w: Result<$t, ()> = tu.and_then(|n| <$t>::try_from(n).ok()).ok_or(());
        let g = <$t>::try_from(x);
        if !(tiny_neg && (g == Ok(0) || g.is_err())) { eqv(concat!("to ", stringify!($t)), g, w)?; }
    )* } }
    macro_rules! signed { ($($t:ty),*) => { $(
        let w: Result<$t, ()> = ti.and_then(|n| <$t>::try_from(n).ok()).ok_or(());
        eqv(concat!("to ", stringify!($t)), <$t>::try_from(x), w)?;
    )* } }
    unsigned!(u8, u16, u32, u64, usize, u128);
    signed!(i8, i16, i32, i64, isize, i128);
    Ok(())
}
fn v_from_float(cx: &mut Cx) -> Result<(), String> {
    let f = any_f32(cx);
    let g = any_f64(cx);
    cx.note(|| format!("{:e} ({:#x}) {:e} ({:#x})", f, f.to_bits(), g, g.to_bits()));
    cx.nt(!f.is_normal() || !g.is_normal() || g.fract() != 0.0);
    match F192::try_from(f) {
        Ok(x) => { ensure(f.is_finite(), || "non-finite f32 accepted".into())?; ck_r("from f32", &Ratio::from(x), &f32_value(f))?; eqv("f32 round trip", f32::from(x), f)?; }
        Err(e) => eqv("from f32 error", Some(e), if f.is_nan() { Some(ConversionError::NotANumber) } else if f == f32::INFINITY { Some(ConversionError::Infinity) } else if f == f32::NEG_INFINITY { Some(ConversionError::NegInfinity) } else { None })?,
    }
    match F192::try_from(g) {
        Ok(x) => { ensure(g.is_finite(), || "non-finite f64 accepted".into())?; ck_r("from f64", &Ratio::from(x), &f64_value(g))?; eqv("f64 round trip", f64::from(x), g)?; }
        Err(e) => eqv("from f64 error", Some(e), if g.is_nan() { Some(ConversionError::NotANumber) } else if g == f64::INFINITY { Some(ConversionError::Infinity) } else if g == f64::NEG_INFINITY { Some(ConversionError::NegInfinity) } else { None })?,
    }
    Ok(())
}
/// is `got` (finite or infinite, `p` bits, minimum exponent) a nearest float to v?
fn nearest(what: &str, v: &Rat, got: Option<Rat>, neg_inf: bool, p: i64, emin: i64, emax: i64) -> Result<(), String> {
    let max = Rat::pow2(Int::new(false, Nat::one().shl(p as u64).sub(&Nat::one()).unwrap()), emax - p + 1);
    let ulp = if v.is_zero() { p2(emin - p + 1) } else { p2(v.abs().ilog2().max(emin) - p + 1) };
    match got {
        None => {
            // infinity: only when rounding to nearest overflows
            let lim = max.add(&p2(emax - p)); // max + half ulp
            ensure(v.is_neg() == neg_inf, || format!("{}: infinity of the wrong sign for {:?}", what, v))?;
            ensure(!v.abs().sub(&lim).is_neg(), || format!("{}: infinity for {:?}", what, v))
        }
        Some(g) => {
            let d = g.sub(v).abs();
            let half = ulp.div(&Rat::i(2));
            ensure(!half.sub(&d).is_neg(), || format!("{}: {:?} is not nearest to {:?}", what, g, v))
        }
    }
}
fn v_to_float(cx: &mut Cx) -> Result<(), String> {
    let v = match cx.draw(6) {
        0 => v_any(cx),
        1 => V { neg: cx.bool(), d: sig(cx), e: cx.range(-152, -120) - 127 }, // f32 subnormal range
        2 => V { neg: cx.bool(), d: sig(cx), e: cx.range(120, 130) - 127 },   // f32 overflow
        3 => V { neg: cx.bool(), d: sig(cx), e: cx.range(-1078, -1015) - 127 },
        4 => V { neg: cx.bool(), d: sig(cx), e: cx.range(1015, 1026) - 127 },
        _ => { // half way points and neighbours
            let p = if cx.bool() { 24 } else { 53 };
            let top = (1u128 << (p - 1)) | if cx.draw(4) == 0 { (1u128 << (p - 1)) - 1 } else { cx.u64() as u128 & ((1u128 << (p - 1)) - 1) };
            let tail = *cx.pick(&[0u128, 1, 1 << 19, (1 << 19) + 1, (1 << 19) - 1, (1 << 20) - 1]);
            V { neg: cx.bool(), d: (top << 20) | tail, e: cx.range(-170, 110) }
        }
    };
    cx.note(|| format!("{:?}", v));
    cx.nt(v.d != 0);
    let (x, r) = (v.mk(), v.val());
    let f = f32::from(x);
    ensure(!f.is_nan(), || "to f32: NaN".into())?;
    nearest("to f32", &r, f.is_finite().then(|| f32_value(f)), f < 0.0, 24, -126, 127)?;
    let g = f64::from(x);
    ensure(!g.is_nan(), || "to f64: NaN".into())?;
    nearest("to f64", &r, g.is_finite().then(|| f64_value(g)), g < 0.0, 53, -1022, 1023)?;
    // the sign survives
    if f != 0.0 { eqv("sign of f32", f < 0.0, v.neg)?; }
    if g != 0.0 { eqv("sign of f64", g < 0.0, v.neg)?; }
    Ok(())
}
fn v_ratio(cx: &mut Cx) -> Result<(), String> {
    // representable values survive exactly
    let v = if cx.thorough { v_in(cx, -400, 400) } else { v_in(cx, -150, 150) };
    cx.note(|| format!("{:?}", v));
    let x = v.mk();
    ck_r("to rational", &Ratio::from(x), &v.val())?;
    ck_r("to rational by reference", &Ratio::from(&x), &v.val())?;
    ensure(F192::from(ra(&v.val())) == x && F192::from(&ra(&v.val())) == x, || "rational round trip changed the value".into())?;
    ck_r("zero", &Ratio::from(F192::from(Ratio::zero())), &Rat::zero())?;
    // general rationals go to a nearest value
    let r = match cx.draw(4) {
        0 => rat(cx, 6),
        1 => { // between two representable values
            let t = *cx.pick(&[1i128, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31]);
            let s = if cx.bool() { 32 } else { 1 << 40 };
            v.val().add(&Rat::pow2(Int::i(if v.neg { -t } else { t }), v.e).div(&Rat::i(s)))
        }
        2 => { // just below a power of two
            let k = cx.range(120, 140);
            let w = p2(cx.range(-50, 50));
            let w = w.sub(&w.mul(&p2(-k)));
            if cx.bool() { w.neg() } else { w }
        }
        _ => small_rat(cx, 1_000_000),
    };
    cx.note(|| format!("r={:?}", r));
    cx.nt(!r.d.is_one());
    let g = rd("from rational", &F192::from(ra(&r)))?;
    if r.is_zero() { return eqv("from zero", g, Rat::zero()); }
    within("from rational", &g, &r, &p2(r.abs().ilog2() - 128))
}

fn up(f: F192, k: i64) -> F192 { if k >= 0 { f.shl(k as u64) } else { f.shr(k.unsigned_abs()) } }
/// a scale far outside the range of machine numbers
fn far(cx: &mut Cx) -> i64 { let b = cx.range(11, 46); let k = (1i64 << b) + cx.draw(1 << b) as i64; if cx.bool() { k } else { -k } }
/// values far outside the range of every machine type: refused or infinite when huge, zero when tiny
fn v_wide(cx: &mut Cx) -> Result<(), String> {
    let k = far(cx);
    let v = V { neg: cx.bool(), d: sig(cx), e: -127 };
    cx.note(|| format!("{:?}*2^{}", v, k));
    cx.nt(true);
    let x = up(v.mk(), k);
    let (f, g) = (f32::from(x), f64::from(x));
    if k > 0 {
        let s = if v.neg { -1.0 } else { 1.0 };
        eqv("huge to f32", f, f32::INFINITY * s as f32)?;
        eqv("huge to f64", g, f64::INFINITY * s)?;
        ensure(i128::try_from(x).is_err() && u128::try_from(x).is_err() && i64::try_from(x).is_err() && u64::try_from(x).is_err() && i32::try_from(x).is_err() && u32::try_from(x).is_err()
            && i16::try_from(x).is_err() && u16::try_from(x).is_err() && i8::try_from(x).is_err() && u8::try_from(x).is_err() && usize::try_from(x).is_err() && isize::try_from(x).is_err(), || "huge value became a machine integer".into())
    } else {
        eqv("tiny to f32", f, 0.0)?;
        eqv("tiny to f64", g, 0.0)?;
        ensure(i128::try_from(x) == Ok(0) && i64::try_from(x) == Ok(0) && i32::try_from(x) == Ok(0) && i16::try_from(x) == Ok(0) && i8::try_from(x) == Ok(0) && isize::try_from(x) == Ok(0), || "tiny value to a signed integer".into())?;
        let z = |o: Option<u128>| o == Some(0) || (v.neg && o.is_none());
        ensure(z(u128::try_from(x).ok()) && z(u64::try_from(x).ok().map(|n| n as u128)) && z(u32::try_from(x).ok().map(|n| n as u128)) && z(u16::try_from(x).ok().map(|n| n as u128)) && z(u8::try_from(x).ok().map(|n| n as u128)) && z(usize::try_from(x).ok().map(|n| n as u128)), || "tiny value to an unsigned integer".into())
    }
}
/// rationals with parts of thousands of bits
fn v_long(cx: &mut Cx) -> Result<(), String> {
    let k = if cx.thorough { cx.range(-6_000, 6_000) } else { cx.range(-2_500, 2_500) };
    let v = V { neg: cx.bool(), d: sig(cx), e: k };
    cx.note(|| format!("{:?}", v));
    cx.nt(k.abs() > 1500);
    ck_r("to rational", &Ratio::from(v.mk()), &v.val())?;
    ensure(F192::from(ra(&v.val())) == v.mk(), || "rational round trip changed the value".into())?;
    // many bits on both sides
    let (n, m) = (nat(cx, 40), nat(cx, 40));
    if n.is_zero() || m.is_zero() { return Ok(()); }
    let r = Rat::new(Int::new(cx.bool(), n), Int::nat(&m));
    cx.note(|| format!("{:?}", r));
    within("from rational", &rd("from rational", &F192::from(ra(&r)))?, &r, &p2(r.abs().ilog2() - 128))
}

// ---------------------------------------------------------------- C30
fn pair(cx: &mut Cx) -> (V, V) {
    let a = v_any(cx);
    let b = match cx.draw(8) {
        0 => a,
        1 => a.neg(),
        2 => V { neg: !a.neg, d: a.d ^ (1u128 << cx.draw(128)) | (1u128 << 127), e: a.e },
        3 => V { neg: cx.bool(), d: sig(cx), e: a.e },
        4 => V { neg: cx.bool(), d: sig(cx), e: a.e + cx.range(-3, 3) },
        5 => V { neg: cx.bool(), d: sig(cx), e: a.e + cx.range(-135, 135) },
        6 => V { neg: !a.neg, d: sig(cx), e: a.e - 1 },
        _ => v_any(cx),
    };
    if cx.bool() { (a, b) } else { (b, a) }
}
fn nontriv(a: &V, b: &V) -> bool { a.d != 0 && b.d != 0 && (a.d >> 64 != 0 || b.d >> 64 != 0) }
fn a_addsub(cx: &mut Cx) -> Result<(), String> {
    let (a, b) = pair(cx);
    cx.note(|| format!("{:?} {:?}", a, b));
    cx.nt(nontriv(&a, &b));
    let (x, y) = (a.mk(), b.mk());
    let (p, q) = (a.val(), b.val());
    let s = rd("add", &x.add(&y))?;
    close("add", &s, &p.add(&q), 125)?;
    close("add swapped", &rd("add", &y.add(&x))?, &p.add(&q), 125)?;
    let d = rd("sub", &x.sub(&y))?;
    close("sub", &d, &p.sub(&q), 125)?;
    // exact when the exact result has at most 127 significant bits
    let fits = |r: &Rat| r.is_zero() || (r.n.mag.bits() - r.n.mag.trailing_zeros() <= 127);
    if fits(&p.add(&q)) { eqv("exact sum", s, p.add(&q))?; }
    if fits(&p.sub(&q)) { eqv("exact difference", d, p.sub(&q))?; }
    ck_r("x - x", &Ratio::from(x.sub(&x)), &Rat::zero())?;
    ensure(x.add(&F192::ZERO) == x && F192::ZERO.add(&x) == x && x.sub(&F192::ZERO) == x, || "zero is not neutral".into())
}
fn a_mul(cx: &mut Cx) -> Result<(), String> {
    let (a, b) = pair(cx);
    cx.note(|| format!("{:?} {:?}", a, b));
    cx.nt(nontriv(&a, &b));
    let (x, y) = (a.mk(), b.mk());
    let w = a.val().mul(&b.val());
    close("mul", &rd("mul", &x.mul(&y))?, &w, 123)?;
    close("mul swapped", &rd("mul", &y.mul(&x))?, &w, 123)?;
    close("one times x", &rd("mul", &x.mul(&F192::ONE))?, &a.val(), 125)
}
fn a_div(cx: &mut Cx) -> Result<(), String> {
    let (a, b) = pair(cx);
    cx.note(|| format!("{:?} {:?}", a, b));
    cx.nt(nontriv(&a, &b));
    let (x, y) = (a.mk(), b.mk());
    if b.d == 0 {
        if a.d != 0 { must_panic("division by zero", || x.div(&y))?; }
        return Ok(());
    }
    close("div", &rd("div", &x.div(&y))?, &a.val().div(&b.val()), 122)?;
    close("x / x", &rd("div", &y.div(&y))?, &Rat::one(), 122)
}
fn a_word(cx: &mut Cx) -> Result<(), String> {
    let a = v_any(cx);
    let k = edge_i32(cx);
    cx.note(|| format!("{:?} {}", a, k));
    cx.nt(a.d >> 64 != 0 && k != 0);
    let x = a.mk();
    let kr = Rat::i(k as i128);
    close("mul_i32", &rd("mul_i32", &x.mul_i32(k))?, &a.val().mul(&kr), 125)?;
    if k == 0 { return must_panic("div_i32 by zero", || x.div_i32(0)); }
    close("div_i32", &rd("div_i32", &x.div_i32(k))?, &a.val().div(&kr), 125)?;
    // the correctly rounded third, scaled back
    let m = k.unsigned_abs().max(1) as i128;
    let f = F192::from(ra(&Rat::frac(cx.range(1, 1000) as i128, m)));
    let fv = rd("fraction", &f)?;
    if m <= i32::MAX as i128 { close("fraction scaled back", &rd("mul_i32", &f.mul_i32(m as i32))?, &fv.mul(&Rat::i(m)), 125)?; }
    Ok(())
}
/// operands and results with few significant bits: results are exact
fn a_exact(cx: &mut Cx) -> Result<(), String> {
    // two integers whose product has at most 124 bits
    let int = |cx: &mut Cx, bits: i64| -> i128 {
        if bits == 0 { return 0; }
        let top = 1u128 << (bits - 1);
        let m = match cx.draw(4) { 0 => top, 1 => top | (top - 1), 2 => top | (1 << cx.draw(bits as u64)), _ => top | (((cx.u64() as u128) << 64 | cx.u64() as u128) & (top - 1)) };
        if cx.bool() { -(m as i128) } else { m as i128 }
    };
    let bn = match cx.draw(4) { 0 => cx.range(0, 6), 1 => cx.range(0, 62), _ => cx.range(0, 123) };
    let bm = match cx.draw(4) { 0 => cx.range(0, 6.min(124 - bn)), 1 => 124 - bn, _ => cx.range(0, 124 - bn) };
    let (n, m) = (int(cx, bn), int(cx, bm));
    let (e, g) = (cx.range(-60, 60), cx.range(-60, 60));
    cx.note(|| format!("{}*2^{} {}*2^{}", n, e, m, g));
    cx.nt(n.abs() > 1 && m.abs() > 1);
    let v = |n: i128, e: i64| V { neg: n < 0, d: n.unsigned_abs(), e };
    let (x, y) = (v(n, e).mk(), v(m, g).mk());
    let (p, q) = (v(n, e).val(), v(m, g).val());
    ck_r("exact mul", &Ratio::from(x.mul(&y)), &p.mul(&q))?;
    if m != 0 {
        let z = v(n * m, e + g);
        ck_r("exact div", &Ratio::from(z.mk().div(&y)), &p)?;
        if let Ok(k) = i32::try_from(m) {
            ck_r("exact mul_i32", &Ratio::from(x.mul_i32(k)), &p.mul(&Rat::i(m)))?;
            ck_r("exact div_i32", &Ratio::from(v(n * m, e).mk().div_i32(k)), &p)?;
        }
    }
    // both aligned to the smaller exponent must fit in 125 bits
    let low = e.min(g);
    if n == 0 || m == 0 || (bn + e - low < 125 && bm + g - low < 125) {
        ck_r("exact add", &Ratio::from(x.add(&y)), &p.add(&q))?;
        ck_r("exact sub", &Ratio::from(x.sub(&y)), &p.sub(&q))?;
    }
    Ok(())
}
/// exponents far outside the range of f64 (up to 2^40): results are compared after scaling back
fn a_wide(cx: &mut Cx) -> Result<(), String> {
    let big = |cx: &mut Cx| -> i64 { let s = cx.range(2, 46); let k = cx.range(0, (1i64 << s) - 1); if cx.bool() { k } else { -k } };
    let (ka, kb) = (big(cx), big(cx));
    let (a, b) = (V { neg: cx.bool(), d: sig(cx), e: -127 }, V { neg: cx.bool(), d: sig(cx), e: cx.range(-140, -110) });
    cx.note(|| format!("{:?}*2^{} {:?}*2^{}", a, ka, b, kb));
    cx.nt(ka.abs() > 2000 || kb.abs() > 2000);
    let (x, y) = (up(a.mk(), ka), up(b.mk(), kb));
    let back = |w: &str, f: F192, k: i64| rd(w, &up(f, -k));
    close("mul", &back("mul", x.mul(&y), ka + kb)?, &a.val().mul(&b.val()), 123)?;
    close("div", &back("div", x.div(&y), ka - kb)?, &a.val().div(&b.val()), 122)?;
    let k = edge_i32(cx);
    close("mul_i32", &back("mul_i32", x.mul_i32(k), ka)?, &a.val().mul(&Rat::i(k as i128)), 125)?;
    if k != 0 { close("div_i32", &back("div_i32", x.div_i32(k), ka)?, &a.val().div(&Rat::i(k as i128)), 125)?; }
    // a sum at a common large scale, and a sum of very different scales
    let z = up(b.mk(), ka);
    close("add", &back("add", x.add(&z), ka)?, &a.val().add(&b.val()), 125)?;
    close("sub", &back("sub", x.sub(&z), ka)?, &a.val().sub(&b.val()), 125)?;
    if (ka - kb).abs() > 300 {
        let hi = if ka > kb { (&x, a, ka) } else { (&y, b, kb) };
        close("add of different scales", &back("add", x.add(&y), hi.2)?, &hi.1.val(), 125)?;
        let w = if ka > kb { a.val() } else { b.val().neg() };
        close("sub of different scales", &back("sub", x.sub(&y), hi.2)?, &w, 125)?;
        // ordering across scales
        let abs_greater = if ka > kb { x.abs() > y.abs() } else { y.abs() > x.abs() };
        ensure(abs_greater, || "ordering across scales".into())?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C31
fn h(x: &F192) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn o_order(cx: &mut Cx) -> Result<(), String> {
    let (a, b) = pair(cx);
    cx.note(|| format!("{:?} {:?}", a, b));
    cx.nt(a.neg == b.neg && (a.e - b.e).abs() <= 2 && a.d != 0 && b.d != 0);
    let (x, y) = (a.mk(), b.mk());
    let w = cmp_rat(&a.val(), &b.val());
    eqv("cmp", x.cmp(&y), w)?;
    eqv("partial_cmp", x.partial_cmp(&y), Some(w))?;
    eqv("cmp swapped", y.cmp(&x), w.reverse())?;
    eqv("==", x == y, w == Ordering::Equal)?;
    eqv("<", x < y, w == Ordering::Less)?;
    eqv("<=", x <= y, w != Ordering::Greater)?;
    eqv(">", x > y, w == Ordering::Greater)?;
    eqv(">=", x >= y, w != Ordering::Less)?;
    if w == Ordering::Equal { ensure(h(&x) == h(&y), || "equal values hash differently".into())?; }
    eqv("max", x.max(y) == x, w != Ordering::Less)?;
    eqv("sign against zero", x.cmp(&F192::ZERO), cmp_rat(&a.val(), &Rat::zero()))
}
fn o_sort(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(2, 12);
    let mut v: Vec<V> = (0..n).map(|_| if cx.draw(3) == 0 { v_any(cx) } else { v_in(cx, -3, 3) }).collect();
    cx.note(|| format!("{:?}", v));
    cx.nt(n > 3);
    let mut f: Vec<F192> = v.iter().map(|x| x.mk()).collect();
    f.sort();
    v.sort_by(|a, b| cmp_rat(&a.val(), &b.val()));
    for (g, w) in f.iter().zip(v.iter()) { ck_r("sorted element", &Ratio::from(*g), &w.val())?; }
    Ok(())
}
fn o_round(cx: &mut Cx) -> Result<(), String> {
    let v = match cx.draw(5) {
        0 => { // k/2, k/4 of moderate size
            V { neg: cx.bool(), d: cx.draw(4000) as u128, e: -cx.range(0, 3) }
        }
        1 => { // next to an integer or half-integer
            let d = (cx.draw(1 << 20) as u128 + 1) << 40;
            let t = *cx.pick(&[0u128, 1, 1 << 39]);
            let d = if cx.bool() { d + t } else { d - t };
            let d = if cx.bool() { d + 1 } else { d - cx.draw(2) as u128 };
            V { neg: cx.bool(), d, e: -40 }
        }
        2 => { // fractions with the last significand bits only
            let m = cx.range(0, 126);
            let d = (1u128 << 127) | (1u128 << (126 - m)) | (cx.draw(4) as u128);
            V { neg: cx.bool(), d, e: m - 127 }
        }
        3 => v_in(cx, -140, 135),
        _ => v_any(cx),
    };
    cx.note(|| format!("{:?}", v));
    let (x, r) = (v.mk(), v.val());
    let t = r.trunc();
    let int = Rat::int(t.clone()) == r;
    cx.nt(!int);
    eqv("is_integer", x.is_integer(), int)?;
    ck_r("truncate", &Ratio::from(x.truncate()), &Rat::int(t.clone()))?;
    ck_r("floor", &Ratio::from(x.floor()), &Rat::int(r.floor()))?;
    let c = if int { t.clone() } else { r.floor().add(&Int::one()) };
    ck_r("ceil", &Ratio::from(x.ceil()), &Rat::int(c))?;
    let half = Rat::frac(1, 2);
    let rn = r.abs().add(&half).floor();
    ck_r("round", &Ratio::from(x.round()), &Rat::int(if r.is_neg() { rn.neg() } else { rn }))?;
    ck_r("frac", &Ratio::from(x.frac()), &r.sub(&Rat::int(t)))?;
    ck_r("operand", &Ratio::from(x), &r)
}
fn o_unary(cx: &mut Cx) -> Result<(), String> {
    let v = v_any(cx);
    let k = cx.draw(200);
    cx.note(|| format!("{:?} {}", v, k));
    cx.nt(v.d >> 64 != 0);
    let (x, r) = (v.mk(), v.val());
    ck_r("value", &Ratio::from(x), &r)?;
    ck_r("abs", &Ratio::from(x.abs()), &r.abs())?;
    ck_r("neg", &Ratio::from(x.neg()), &r.neg())?;
    ensure(x.neg().neg() == x, || "double negation".into())?;
    ck_r("shl", &Ratio::from(x.shl(k)), &r.mul(&p2(k as i64)))?;
    ck_r("shr", &Ratio::from(x.shr(k)), &r.mul(&p2(-(k as i64))))?;
    let big = cx.draw(1 << 40);
    ensure(x.shl(big).shr(big) == x && x.shr(big).shl(big) == x, || "shift there and back".into())?;
    if v.d != 0 {
        // the next representable magnitude
        let m = v.d << v.d.leading_zeros();
        let e = v.e - v.d.leading_zeros() as i64;
        let w = Rat::pow2(Int::new(v.neg, Nat::u(m).add(&Nat::one())), e);
        ck_r("step_epsilon", &Ratio::from(x.step_epsilon()), &w)?;
        let s = x.step_epsilon();
        ensure(if v.neg { s < x } else { s > x }, || "step_epsilon does not grow in magnitude".into())?;
    }
    Ok(())
}
/// order and rounding of values at any scale
fn o_wide(cx: &mut Cx) -> Result<(), String> {
    let ka = far(cx);
    let kb = match cx.draw(4) { 0 => ka, 1 => ka + cx.range(-3, 3), 2 => -ka, _ => far(cx) };
    let a = V { neg: cx.bool(), d: sig(cx), e: -127 };
    let b = match cx.draw(3) { 0 => a, 1 => V { neg: cx.bool(), ..a }, _ => V { neg: cx.bool(), d: sig(cx), e: -127 } };
    cx.note(|| format!("{:?}*2^{} {:?}*2^{}", a, ka, b, kb));
    cx.nt(true);
    let (x, y) = (up(a.mk(), ka), up(b.mk(), kb));
    let m = (ka, a.d).cmp(&(kb, b.d));
    let w = match (a.neg, b.neg) { (false, true) => Ordering::Greater, (true, false) => Ordering::Less, (false, false) => m, (true, true) => m.reverse() };
    eqv("cmp", x.cmp(&y), w)?;
    eqv("partial_cmp", x.partial_cmp(&y), Some(w))?;
    eqv("cmp swapped", y.cmp(&x), w.reverse())?;
    eqv("==", x == y, w == Ordering::Equal)?;
    eqv("sign against zero", x.cmp(&F192::ZERO), if a.neg { Ordering::Less } else { Ordering::Greater })?;
    ensure(w != Ordering::Equal || h(&x) == h(&y), || "equal values hash differently".into())?;
    ensure(x.neg().neg() == x && x.abs() == if a.neg { x.neg() } else { x }, || "sign operations".into())?;
    let (z, one) = (F192::ZERO, F192::ONE);
    if ka > 0 {
        ensure(x.is_integer(), || "huge value is not an integer".into())?;
        ensure(x.floor() == x && x.ceil() == x && x.truncate() == x && x.round() == x && x.frac() == z, || "rounding of a huge value".into())?;
    } else {
        ensure(!x.is_integer(), || "tiny value is an integer".into())?;
        ensure(x.truncate() == z && x.round() == z && x.frac() == x, || "rounding of a tiny value".into())?;
        let (fl, ce) = if a.neg { (one.neg(), z) } else { (z, one) };
        ensure(x.floor() == fl && x.ceil() == ce, || "floor or ceiling of a tiny value".into())?;
    }
    let s = rd("step", &up(x.step_epsilon(), -ka))?;
    ensure(s == Rat::pow2(Int::new(a.neg, Nat::u(a.d).add(&Nat::one())), -127), || "step_epsilon".into())
}
fn o_consts(cx: &mut Cx) -> Result<(), String> {
    let r = R { p: 400 };
    let v = |i: Int| r.val(&i);
    let pi = v(r.pi());
    let q = |n: i128| Rat::i(n);
    let list: Vec<(&str, F192, Rat)> = vec![
        ("PI", F192::PI, pi.clone()),
        ("PI_OVER_2", F192::PI_OVER_2, pi.div(&q(2))),
        ("PI_OVER_3", F192::PI_OVER_3, pi.div(&q(3))),
        ("PI_OVER_4", F192::PI_OVER_4, pi.div(&q(4))),
        ("PI_OVER_6", F192::PI_OVER_6, pi.div(&q(6))),
        ("E", F192::E, v(r.e())),
        ("SQRT_2", F192::SQRT_2, v(r.sqrt(&q(2)))),
        ("SQRT_3", F192::SQRT_3, v(r.sqrt(&q(3)))),
        ("SQRT_10", F192::SQRT_10, v(r.sqrt(&q(10)))),
        ("ONE_OVER_SQRT_2", F192::ONE_OVER_SQRT_2, v(r.sqrt(&Rat::frac(1, 2)))),
        ("LN_2", F192::LN_2, v(r.ln2())),
        ("LN_3", F192::LN_3, v(r.ln(&q(3)))),
        ("LN_10", F192::LN_10, v(r.ln(&q(10)))),
        ("ZERO", F192::ZERO, Rat::zero()),
        ("ONE", F192::ONE, Rat::one()),
        ("default", F192::default(), Rat::zero()),
    ];
    let (name, f, w) = &list[cx.case as usize];
    cx.note(|| name.to_string());
    cx.nt(true);
    close(name, &rd(name, f)?, w, 126)?;
    ensure(F192::MIN < *f && *f < F192::MAX, || "extremes".into())?;
    ensure(F192::MIN_POSITIVE > F192::ZERO && F192::MIN_POSITIVE < F192::ONE.shr(1 << 40), || "smallest positive".into())
}

// ---------------------------------------------------------------- C32
fn digits(cx: &mut Cx, n: usize) -> String {
    let style = cx.draw(4);
    (0..n).map(|_| char::from(b'0' + match style { 0 => 9, 1 => *cx.pick(&[0u64, 0, 0, 1]), _ => cx.draw(10) } as u8)).collect()
}
/// decimal literal and its value
fn literal(cx: &mut Cx, max: usize, emax: i64) -> (String, Rat) {
    let n = cx.usize(1, max);
    let mut ip = digits(cx, n);
    while ip.len() > 1 && ip.starts_with('0') { ip.remove(0); }
    if cx.draw(4) == 0 { ip = "0".into(); }
    let mut fp = String::new();
    if cx.bool() {
        let z = match cx.draw(4) { 0 => cx.usize(0, 60), 1 => cx.usize(0, 8), _ => 0 };
        let k = cx.usize(1, max);
        fp = "0".repeat(z) + &digits(cx, k);
    }
    let e = if cx.draw(3) == 0 { cx.range(-emax, emax) } else { 0 };
    let neg = cx.bool();
    let mag = Nat::parse_radix(&format!("{}{}", ip, fp), 10);
    let v = Rat::int(Int::new(neg, mag)).mul(&Rat::pow10(e - fp.len() as i64));
    let under = |cx: &mut Cx, s: &str, lead: bool| -> String {
        let mut o = String::new();
        for (i, c) in s.chars().enumerate() { if i > 0 && lead && cx.one_in(12) { o.push('_'); } o.push(c); }
        o
    };
    let mut s = if neg { "-".to_string() } else { String::new() };
    let lead = ip != "0";
    s += &under(cx, &ip, lead);
    if !fp.is_empty() { s.push('.'); s += &under(cx, &fp, true); }
    if e != 0 || cx.one_in(10) { s.push(if cx.bool() { 'e' } else { 'E' }); s += &e.to_string(); }
    (s, v)
}
fn s_parse(cx: &mut Cx) -> Result<(), String> {
    if cx.draw(5) == 0 {
        let (p, radix) = *cx.pick(&[("0x", 16u32), ("0X", 16), ("0o", 8), ("0O", 8), ("0b", 2), ("0B", 2)]);
        let n = cx.usize(1, 40);
        let body: String = (0..n).map(|_| { let c = char::from_digit(cx.draw(radix as u64) as u32, radix).unwrap(); if cx.bool() { c.to_ascii_uppercase() } else { c } }).collect();
        let neg = cx.draw(3) == 0;
        let v = Rat::int(Int::new(neg, Nat::parse_radix(&body.to_lowercase(), radix)));
        let mut s = String::from(if neg { "-" } else { "" });
        s += p;
        for (i, c) in body.chars().enumerate() { if i > 0 && cx.one_in(12) { s.push('_'); } s.push(c); }
        cx.note(|| s.clone());
        cx.nt(true);
        let g = s.parse::<F192>().map_err(|e| format!("parse: {:?} refused with {:?}", s, e))?;
        return close("parse prefixed", &rd("parse", &g)?, &v, 115);
    }
    let emax = if cx.draw(4) == 0 { 600 } else { 40 };
    let (s, v) = literal(cx, 60, emax);
    cx.note(|| s.clone());
    cx.nt(s.len() > 10);
    let g = s.parse::<F192>().map_err(|e| format!("parse: {:?} refused with {:?}", s, e))?;
    close("parse", &rd("parse", &g)?, &v, 108)
}
/// strings outside the grammar: never a panic; clearly malformed ones are refused
fn s_bad(cx: &mut Cx) -> Result<(), String> {
    let (mut s, _) = literal(cx, 12, 30);
    let kind = cx.draw(3);
    let bad = ['x', ' ', '+', '-', '.', 'g', '\u{e9}', '\u{0661}', '/', ':', ',', 'E', '_', '\0'];
    match kind {
        0 => { // a character that no literal may contain
            let c = *cx.pick(&[' ', 'g', 'z', '\u{e9}', '\u{0661}', '/', ':', ',', '\0', '*']);
            let i = cx.usize(0, s.len());
            s.insert(i, c);
        }
        1 => { let k = cx.usize(1, 3); for _ in 0..k { let i = cx.usize(0, s.len()); let c = *cx.pick(&bad); if s.is_char_boundary(i) { s.insert(i, c); } } }
        _ => { let n = cx.usize(0, 12); s = (0..n).map(|_| if cx.bool() { *cx.pick(&bad) } else { *cx.pick(&['0', '1', '9', 'e', '-', '.', 'b', 'o', '5']) }).collect(); }
    }
    // keep exponents small: huge ones are out of range, not malformed
    cx.note(|| format!("{:?}", s));
    cx.nt(true);
    let big_exp = s.to_lowercase().rsplit('e').next().map_or(false, |t| t.len() > 4);
    if big_exp && s.to_lowercase().contains('e') { return Ok(()); }
    let r = catch(|| s.parse::<F192>()).map_err(|m| format!("parse panicked on {:?}: {}", s, m))?;
    let low = s.to_lowercase();
    let body = low.strip_prefix('-').unwrap_or(&low);
    let hex = body.starts_with("0x");
    let must_refuse = body.is_empty()
        || body.starts_with('-') || body.starts_with('+') || body.starts_with('.') || body.starts_with('_')
        || s.chars().any(|c| !c.is_ascii_alphanumeric() && !"-+._".contains(c))
        || (!hex && s.chars().any(|c| c.is_ascii_alphabetic() && !"eExXoObB".contains(c)))
        || body.matches('.').count() > 1;
    if must_refuse { ensure(r.is_err(), || format!("malformed {:?} accepted as {:?}", s, r.map(|f| f.to_string())))?; }
    Ok(())
}
/// exact value of a plain or exponent decimal text
fn read_dec(s: &str) -> Result<Rat, String> {
    let bad = || format!("unreadable text {:?}", s);
    let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s) };
    let (m, e) = match t.split_once('e') { Some((m, e)) => (m, e.parse::<i64>().map_err(|_| bad())?), None => (t, 0) };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if i.is_empty() || !i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) || (m.contains('.') && f.is_empty()) { return Err(bad()); }
    if i.len() > 1 && i.starts_with('0') { return Err(format!("superfluous zero in {:?}", s)); }
    if e.abs() > 100_000 { return Err(bad()); }
    Ok(Rat::int(Int::new(neg, Nat::parse_radix(&format!("{}{}", i, f), 10))).mul(&Rat::pow10(e - f.len() as i64)))
}
fn s_render(cx: &mut Cx) -> Result<(), String> {
    if cx.one_in(10) {
        // far outside the range of f64: the exponent must be right
        let k = { let s = cx.range(8, 46); cx.range(1, 1i64 << s) };
        let k = if cx.bool() { k } else { -k };
        let v = V { neg: cx.bool(), d: sig(cx), e: -127 };
        let x = if k >= 0 { v.mk().shl(k as u64) } else { v.mk().shr(k.unsigned_abs()) };
        let s = x.to_string();
        cx.note(|| format!("{:?}*2^{} -> {}", v, k, s));
        cx.nt(true);
        // log10 of the value with error below 1e-18 relative
        let p = R { p: 300 };
        let (ln2, ln10) = (p.val(&p.ln2()), p.val(&p.ln(&Rat::i(10))));
        let lg = ln2.mul(&Rat::i(k as i128)).add(&p.val(&p.ln(&v.val().abs()))).div(&ln10);
        let e10 = lg.floor();
        let t = s.strip_prefix('-').unwrap_or(&s);
        eqv("sign", s.starts_with('-'), v.neg)?;
        let (m, e) = t.split_once('e').unwrap_or((t, "0"));
        let e: i64 = e.parse().map_err(|_| format!("unreadable exponent in {:?}", s))?;
        // ten^(lg - e10) against the shown mantissa, unless the value is tiny enough for a plain form
        if k.abs() > 200 {
            let frac = lg.sub(&Rat::int(e10.clone()));
            let mant = p.exp_rat(&frac.mul(&ln10));
            let shown = read_dec(m)?.mul(&Rat::pow10((Rat::i(e as i128).sub(&Rat::int(e10.clone()))).trunc().to_i128().unwrap_or(99999).clamp(-50, 50) as i64));
            close("render of a huge or tiny value", &shown, &mant, 40)?;
        }
        return Ok(());
    }
    let v = match cx.draw(4) {
        0 => { // near a power of ten
            let k = cx.range(-25, 25);
            let t = if k >= 0 { Nat::pow10(k as u64).shl(40) } else { Nat::one().shl(127).div(&Nat::pow10((-k) as u64)) };
            let t = if cx.bool() { t.add(&Nat::u(cx.draw(3) as u128)) } else { t.sub(&Nat::u(cx.draw(3) as u128)).unwrap_or(Nat::one()) };
            V { neg: cx.bool(), d: t.to_u128().unwrap_or(1), e: if k >= 0 { -40 } else { -127 } }
        }
        1 => v_in(cx, -40, 80),
        2 => v_in(cx, -900, 900),
        _ => v_any(cx),
    };
    let (x, r) = (v.mk(), v.val());
    let s = x.to_string();
    cx.note(|| format!("{:?} -> {}", v, s));
    cx.nt(s.len() > 9);
    eqv("two renderings", x.to_approx_string(), s.clone())?;
    if r.is_zero() { return eqv("zero", s, "0".to_string()); }
    let g = read_dec(&s)?;
    let plain_small = s.trim_start_matches('-').starts_with("0.");
    let mut tol = r.abs().mul(&Rat::new(Int::i(105), Int::nat(&Nat::pow10(20))));
    if plain_small { tol = tol.add(&Rat::pow10(-20)); }
    within("render", &g, &r, &tol)?;
    eqv("sign", s.starts_with('-'), r.is_neg() )?;
    // no superfluous zeros at the end of a fraction
    let m = s.split('e').next().unwrap();
    ensure(!(m.contains('.') && m.ends_with('0')), || format!("superfluous zeros in {:?}", s))?;
    // reading it back lands on (nearly) the same number
    let y = s.parse::<F192>().map_err(|e| format!("own rendering {:?} refused: {:?}", s, e))?;
    within("render then parse", &rd("parse", &y)?, &r, &tol.mul(&Rat::frac(11, 10)))
}
/// literals of at most 13 significant digits are shown as exactly the number they denote
fn s_round(cx: &mut Cx) -> Result<(), String> {
    let (s, v) = { let n = cx.usize(1, 6); let e = if cx.bool() { 250 } else { 12 }; literal_short(cx, n, e) };
    cx.note(|| s.clone());
    cx.nt(s.len() > 5);
    let x = s.parse::<F192>().map_err(|e| format!("parse: {:?} refused with {:?}", s, e))?;
    eqv("literal shown", read_dec(&x.to_string())?, v.clone())?;
    // and the text is stable
    let t = x.to_string();
    let y = t.parse::<F192>().map_err(|e| format!("{:?} refused: {:?}", t, e))?;
    eqv("text of the re-parsed text", y.to_string(), t)
}
fn literal_short(cx: &mut Cx, n: usize, emax: i64) -> (String, Rat) {
    let ip = { let mut d = digits(cx, n); while d.len() > 1 && d.starts_with('0') { d.remove(0); } d };
    let k = cx.usize(0, 7);
    let fp = digits(cx, k);
    let e = if cx.draw(3) == 0 { cx.range(-emax, emax) } else { 0 };
    let neg = cx.bool();
    let v = Rat::int(Int::new(neg, Nat::parse_radix(&format!("{}{}", ip, fp), 10))).mul(&Rat::pow10(e - fp.len() as i64));
    let mut s = format!("{}{}", if neg { "-" } else { "" }, ip);
    if !fp.is_empty() { s += "."; s += &fp; }
    if e != 0 { s += &format!("e{}", e); }
    (s, v)
}
const ALPHA: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
fn s_code(cx: &mut Cx) -> Result<(), String> {
    let v = match cx.draw(3) { 0 => v_any(cx), 1 => v_in(cx, -1800, 1900), _ => v_in(cx, -100, 100) };
    cx.note(|| format!("{:?}", v));
    cx.nt(v.d >> 64 != 0);
    let (x, r) = (v.mk(), v.val());
    let c = x.into_code13().map_err(|e| format!("into_code13: {:?}", e))?;
    ensure((1..=13).contains(&c.len()) && c.iter().all(|b| ALPHA.contains(b)), || format!("code {:?}", c))?;
    let y = F192::from_code13(&c).map_err(|e| format!("from_code13: {:?}", e))?;
    close("code round trip", &rd("decoded", &y)?, &r, 63)?;
    // decoding then encoding is stable
    eqv("code of the decoded value", y.into_code13().map_err(|e| format!("{:?}", e))?, c)?;
    // far too large values are refused
    let big = if v.d != 0 { x.shl(6000).into_code13() } else { Err(ConversionError::NoData) };
    ensure(big.is_err(), || "an out of range value was encoded".into())?;
    let small = x.shr(6000).into_code13().map_err(|e| format!("{:?}", e))?;
    eqv("tiny values are encoded as zero", F192::from_code13(&small).map_err(|e| format!("{:?}", e))?, F192::ZERO)
}
/// values next to the point where a code's significand wraps, and next to the
/// exponents a code can hold
fn s_code_edge(cx: &mut Cx) -> Result<(), String> {
    const BASE: u128 = 26018280341918546944; // a code holds BASE..2*BASE
    let neg = cx.bool();
    let off = cx.draw(1 << 24) as i128 - (1 << 23);
    let d = match cx.draw(3) {
        0 => (BASE * 2) << 62,
        1 => ((BASE * 2 - 1) << 62) + (1 << 61),
        _ => 0,
    };
    let d = if d == 0 { (1u128 << 127) | (cx.u64() as u128) << 63 | cx.u64() as u128 } else {
        // 2*BASE*2^62 has 128 bits; below the offset's size is 2^-104 of it
        let sh = cx.draw(60);
        let o = off.unsigned_abs() << sh.min(40);
        if off < 0 { d - o } else { d + o }
    };
    let e = match cx.draw(4) { 0 => 1858 - 62, 1 => -1985 - 62, 2 => cx.range(-2200, 2000), _ => cx.range(-200, 200) } + cx.range(-3, 3);
    let v = V { neg, d, e };
    cx.note(|| format!("{:?}", v));
    cx.nt(true);
    let (x, r) = (v.mk(), v.val());
    let top = Rat::pow2(Int::new(false, Nat::u(BASE * 2)), 1858);
    let last = Rat::pow2(Int::new(false, Nat::u(BASE * 2 - 1)), 1858);
    // the smallest positive code is the one that stands for zero
    let bottom = Rat::pow2(Int::new(false, Nat::u(BASE + 1)), -1985);
    let below = Rat::pow2(Int::new(false, Nat::u(BASE * 2 - 1)), -1986);
    let c = match x.into_code13() {
        Ok(c) => { ensure(r.abs() < top, || format!("{:?} is beyond every code", v))?; c }
        Err(_) => return ensure(r.abs() > last, || format!("{:?} refused", v)),
    };
    ensure((1..=13).contains(&c.len()) && c.iter().all(|b| ALPHA.contains(b)), || format!("code {:?}", c))?;
    let y = F192::from_code13(&c).map_err(|e| format!("from_code13: {:?}", e))?;
    if y == F192::ZERO { return ensure(r.abs() < bottom, || format!("{:?} encoded as zero", v)); }
    ensure(r.abs() > below, || format!("{:?} is below every code", v))?;
    close("code round trip", &rd("decoded", &y)?, &r, 63)?;
    eqv("code of the decoded value", y.into_code13().map_err(|e| format!("{:?}", e))?, c)
}
fn s_decode(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(0, 14);
    let mut c: Vec<u8> = (0..n).map(|_| if cx.draw(4) == 0 { *cx.pick(b"0zAaZ9y1") } else { *cx.pick(ALPHA) }).collect();
    let broken = n > 0 && cx.draw(3) == 0;
    if broken { let i = cx.usize(0, n - 1); c[i] = *cx.pick(b"/:@[`{_ -.\x00\xff"); }
    cx.note(|| format!("{:?}", String::from_utf8_lossy(&c)));
    cx.nt(n > 1);
    let r = F192::from_code13(&c);
    if n == 0 || n > 13 || broken { return ensure(r.is_err(), || format!("malformed code {:?} accepted", c)); }
    let x = r.map_err(|e| format!("code {:?} refused: {:?}", c, e))?;
    let lead = c.iter().take(n - 1).take_while(|b| **b == b'0').count();
    let canon = c[lead..].to_vec();
    eqv("code of the decoded code", x.into_code13().map_err(|e| format!("{:?}", e))?, canon)
}

// ---------------------------------------------------------------- C33
fn t_sqrt(cx: &mut Cx) -> Result<(), String> {
    let v = match cx.draw(5) {
        0 => { let k = cx.draw(1 << 40) as u128 + 1; V { neg: false, d: k * k, e: 2 * cx.range(-100, 100) } }
        1 => { // just below and above a power of four or two
            let d = if cx.bool() { u128::MAX - cx.draw(1 << 20) as u128 } else { u128::MAX << cx.draw(120) };
            V { neg: false, d, e: cx.range(-200, 200) }
        }
        _ => { let mut v = v_in(cx, -300, 300); v.neg = false; v }
    };
    cx.note(|| format!("{:?}", v));
    cx.nt(!v.d.is_power_of_two());
    let (x, r) = (v.mk(), v.val());
    let y = rd("sqrt", &x.sqrt())?;
    // y^2 against r: relative error of y is half of that
    ensure(!y.is_neg(), || "negative root".into())?;
    close("sqrt squared", &y.mul(&y), &r, 119)?;
    ck_r("sqrt of a negative number", &Ratio::from(x.neg().sqrt()), &Rat::zero())
}
fn near_one(cx: &mut Cx) -> V {
    match cx.draw(4) {
        0 => { let k = cx.range(1, 120); let d = (1u128 << 127) + (1u128 << (127 - k)); V { neg: false, d, e: -127 } }
        1 => { let k = cx.range(1, 120); V { neg: false, d: u128::MAX - (u128::MAX >> k), e: -128 } }
        2 => { let d = cx.draw(1000) as u128 + 1; V { neg: false, d, e: cx.range(-20, 20) } }
        _ => { let mut v = v_in(cx, -300, 300); v.neg = false; v }
    }
}
fn t_log(cx: &mut Cx) -> Result<(), String> {
    let v = near_one(cx);
    cx.note(|| format!("{:?}", v));
    cx.nt(!v.d.is_power_of_two());
    let (x, r) = (v.mk(), v.val());
    ck_r("ilog2", &Ratio::from(x.ilog2()), &Rat::i(r.ilog2() as i128))?;
    let p = R { p: 300 };
    let ln = p.val(&p.ln(&r));
    let l2 = ln.div(&p.val(&p.ln2()));
    within("log2", &rd("log2", &x.log2())?, &l2, &p2(-114).add(&l2.abs().mul(&p2(-120))))?;
    within("ln", &rd("ln", &x.ln())?, &ln, &p2(-114).add(&ln.abs().mul(&p2(-120))))
}
/// 2^y at 400 bits
fn exp2_ref(p: &R, y: &Rat) -> Rat { let i = y.floor(); let f = y.sub(&Rat::int(i.clone())); p.exp_rat(&f.mul(&p.val(&p.ln2()))).mul(&p2(i.to_i128().unwrap() as i64)) }
fn t_pow2(cx: &mut Cx) -> Result<(), String> {
    let n = cx.range(-2000, 2000);
    ck_r("from_pow2", &Ratio::from(F192::from_pow2(n)), &p2(n))?;
    let v = match cx.draw(4) { 0 => V { neg: cx.bool(), d: cx.draw(4000) as u128, e: -cx.range(0, 8) }, 1 => v_in(cx, -120, 0), _ => v_in(cx, -20, 9) };
    cx.note(|| format!("{:?}", v));
    let r = v.val();
    cx.nt(!r.d.is_one());
    let p = R { p: 300 };
    let y = rd("pow2", &v.mk().pow2())?;
    if r.d.is_one() { close("pow2 of an integer", &y, &p2(r.n.to_i128().unwrap() as i64), 120)?; }
    close("pow2", &y, &exp2_ref(&p, &r), 60)?;
    // huge integer exponents
    let k = cx.range(-1 << 40, 1 << 40);
    let z = F192::from(k).pow2();
    let back = if k >= 0 { z.shr(k as u64) } else { z.shl(k.unsigned_abs()) };
    close("pow2 of a huge integer", &rd("pow2", &back)?, &Rat::one(), 120)
}
fn t_powi(cx: &mut Cx) -> Result<(), String> {
    let mut v = v_in(cx, -20, 20);
    if cx.one_in(10) { v.d = 0; }
    let n = match cx.draw(20) { 0..=11 => cx.range(-10, 10), 12..=18 => cx.range(-64, 64), _ => cx.range(-200, 200) };
    cx.note(|| format!("{:?}^{}", v, n));
    cx.nt(v.d != 0 && n.abs() > 1);
    let x = v.mk();
    if v.d == 0 {
        if n < 0 { return must_panic("negative power of zero", || x.powi(n)); }
        return ck_r("power of zero", &Ratio::from(x.powi(n)), &if n == 0 { Rat::one() } else { Rat::zero() });
    }
    let y = rd("powi", &x.powi(n))?;
    let w = v.val().pow(n);
    let tol = w.abs().mul(&p2(-121)).mul(&Rat::i(n.unsigned_abs() as i128 + 2));
    within("powi", &y, &w, &tol)?;
    // units raised to extreme powers
    let k = *cx.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, -1, 0, 1]);
    ck_r("1^k", &Ratio::from(F192::ONE.powi(k)), &Rat::one())?;
    ck_r("(-1)^k", &Ratio::from(F192::ONE.neg().powi(k)), &Rat::i(if k % 2 == 0 { 1 } else { -1 }))
}
/// large exponents: powers of two against a shift, numbers next to one against exp(n ln x)
fn t_powi_large(cx: &mut Cx) -> Result<(), String> {
    let n = { let b = cx.range(3, 45); let m = cx.draw(1 << b) as i64 | (1 << (b - 1)); if cx.bool() { -m } else { m } };
    if cx.bool() {
        let top = 45 - (64 - n.unsigned_abs().leading_zeros() as i64);
        let k = cx.range(1, (1 << top.max(1)).min(1 << 20));
        let (k, neg) = (if cx.bool() { -k } else { k }, cx.bool());
        cx.note(|| format!("({}2^{})^{}", if neg { "-" } else { "" }, k, n));
        cx.nt(true);
        let x = F192::from_pow2(k);
        let z = if neg { x.neg().powi(n) } else { x.powi(n) };
        let e = k * n;
        let back = if e >= 0 { z.shr(e as u64) } else { z.shl(e.unsigned_abs()) };
        let w = Rat::i(if neg && n % 2 != 0 { -1 } else { 1 });
        return close("large power of a power of two", &rd("powi", &back)?, &w, 60);
    }
    // x = 1 + d, |n d| < 2^9
    let j = (64 - n.unsigned_abs().leading_zeros() as i64 - 9).max(1) + cx.range(0, 6);
    let d = Rat::pow2(Int::i(cx.range(-1 << 30, 1 << 30) as i128), -30 - j);
    let x = F192::from(ra(&Rat::one().add(&d)));
    let v = rd("base", &x)?;
    cx.note(|| format!("{:?}^{}", v, n));
    cx.nt(!d.is_zero());
    let p = R { p: 400 };
    let w = p.exp_rat(&p.val(&p.ln(&v)).mul(&Rat::i(n as i128)));
    let (x, w, sg) = if cx.bool() { (x.neg(), if n % 2 != 0 { w.neg() } else { w }, "-") } else { (x, w, "") };
    let tol = w.abs().mul(&p2(-121)).mul(&Rat::i(n.unsigned_abs() as i128 + 2));
    within(&format!("large power ({})", sg), &rd("powi", &x.powi(n))?, &w, &tol)
}
fn t_pow(cx: &mut Cx) -> Result<(), String> {
    let v = { let mut v = if cx.bool() { near_one(cx) } else { v_in(cx, -20, 20) }; v.neg = false; v };
    let y = match cx.draw(3) { 0 => V { neg: cx.bool(), d: cx.draw(40) as u128, e: -cx.range(0, 3) }, _ => v_in(cx, -20, 4) };
    cx.note(|| format!("{:?}^{:?}", v, y));
    cx.nt(v.d != 0 && y.d != 0);
    let p = R { p: 300 };
    let l2 = p.val(&p.ln(&v.val())).div(&p.val(&p.ln2()));
    let ex = l2.mul(&y.val());
    if ex.abs().ilog2_or(-1000) > 12 { return Ok(()); }
    let w = exp2_ref(&p, &ex);
    let g = rd("pow", &v.mk().pow(&y.mk()))?;
    close("pow", &g, &w, 58)
}
/// roots and logarithms at any scale
fn t_wide(cx: &mut Cx) -> Result<(), String> {
    let k = far(cx);
    let v = V { neg: false, d: sig(cx), e: -127 };
    cx.note(|| format!("{:?}*2^{}", v, k));
    cx.nt(!v.d.is_power_of_two());
    let (x, r) = (up(v.mk(), k), v.val());
    let hk = k.div_euclid(2);
    let y = rd("sqrt", &up(x.sqrt(), -hk))?;
    ensure(!y.is_neg(), || "negative root".into())?;
    close("sqrt squared", &y.mul(&y), &r.mul(&p2(k - 2 * hk)), 119)?;
    ensure(x.neg().sqrt() == F192::ZERO, || "sqrt of a negative number".into())?;
    eqv("ilog2", x.ilog2(), F192::from(k))?;
    let p = R { p: 300 };
    let l2 = p.val(&p.ln2());
    let lg = p.val(&p.ln(&r)).div(&l2).add(&Rat::i(k as i128));
    let ln = lg.mul(&l2);
    within("log2", &rd("log2", &x.log2())?, &lg, &p2(-114).add(&lg.abs().mul(&p2(-120))))?;
    within("ln", &rd("ln", &x.ln())?, &ln, &p2(-114).add(&ln.abs().mul(&p2(-120))))
}
trait IlogOr { fn ilog2_or(&self, d: i64) -> i64; }
impl IlogOr for Rat { fn ilog2_or(&self, d: i64) -> i64 { if self.is_zero() { d } else { self.ilog2() } } }
fn t_domain(cx: &mut Cx) -> Result<(), String> {
    let v = { let mut v = v_in(cx, -200, 200); v.neg = true; if cx.one_in(8) { v.d = 0; } v };
    cx.note(|| format!("{:?}", v));
    cx.nt(true);
    let x = v.mk();
    must_panic("log2 of a non-positive number", || x.log2())?;
    must_panic("ln of a non-positive number", || x.ln())?;
    must_panic("ilog2 of a non-positive number", || x.ilog2())?;
    let y = v_in(cx, -20, 4);
    let y = y.mk();
    must_panic("real power of a non-positive number", || x.pow(&y))
}

// ---------------------------------------------------------------- C34
fn angle(cx: &mut Cx) -> Rat {
    let p = R { p: 200 };
    let pi = p.val(&p.pi());
    match cx.draw(6) {
        0 => { // near a multiple of pi/4
            let k = cx.range(-40, 40) as i128;
            let d = Rat::pow2(Int::i(cx.range(-4, 4) as i128), -cx.range(2, 100));
            pi.mul(&Rat::frac(k, 4)).add(&d)
        }
        1 => Rat::pow2(Int::i(cx.range(-1000, 1000) as i128), -cx.range(0, 10)),
        2 => { let v = v_in(cx, -100, 0); v.val() }
        3 => { let v = v_in(cx, -2, 4); v.val() }
        4 => { let v = v_in(cx, 4, 60); v.val() }
        _ => { let k = cx.range(-8, 8) as i128; let f = Rat::frac(cx.range(0, 1000) as i128, 1000); pi.mul(&Rat::i(k).add(&f)).div(&Rat::i(4)) }
    }
}
fn trig_tol(x: &Rat) -> Rat { p2(-70).add(&x.abs().mul(&p2(-118))) }
fn g_sincos(cx: &mut Cx) -> Result<(), String> {
    let x = F192::from(ra(&angle(cx)));
    let r = rd("angle", &x)?;
    cx.note(|| format!("{:?}", r));
    cx.nt(r.abs().sub(&Rat::frac(3, 4)).n.neg == false);
    let p = R { p: 400 };
    let (s, c) = p.sincos(&r);
    let (s, c) = (p.val(&s), p.val(&c));
    let (gs, gc) = (rd("sin", &x.sin())?, rd("cos", &x.cos())?);
    within("sin", &gs, &s, &trig_tol(&r))?;
    within("cos", &gc, &c, &trig_tol(&r))?;
    if r.abs().sub(&Rat::frac(7, 10)).is_neg() { close("sin of a small angle (relative)", &gs, &s, 69)?; }
    // odd and even
    ensure(x.neg().sin() == x.sin().neg() && x.neg().cos() == x.cos(), || "sin is not odd or cos is not even".into())
}
fn g_tan(cx: &mut Cx) -> Result<(), String> {
    let x = F192::from(ra(&angle(cx)));
    let r = rd("angle", &x)?;
    cx.note(|| format!("{:?}", r));
    let p = R { p: 400 };
    let (s, c) = p.sincos(&r);
    let (s, c) = (p.val(&s), p.val(&c));
    let t = trig_tol(&r);
    if c.abs().sub(&t.mul(&Rat::i(1 << 20))).is_neg() { return Ok(()); }
    cx.nt(!r.is_zero());
    let w = s.div(&c);
    // |d(s/c)| <= (1 + |w|)/|c| * 2t
    let tol = Rat::one().add(&w.abs()).div(&c.abs()).mul(&t).mul(&Rat::i(2));
    within("tan", &rd("tan", &x.tan())?, &w, &tol)
}
fn g_inv(cx: &mut Cx) -> Result<(), String> {
    let v = match cx.draw(6) {
        0 => { let d = cx.draw(129) as u128; V { neg: cx.bool(), d, e: -7 } }
        1 => { // next to one
            let k = cx.range(1, 127); V { neg: cx.bool(), d: u128::MAX - (u128::MAX >> k), e: -128 } }
        2 => { // around 1/sqrt 2
            let s = (1u128 << cx.range(2, 124)) * (1 + cx.draw(3) as u128) / 2; let b = 240615969168004511545033772477625056927u128; V { neg: cx.bool(), d: if cx.bool() { b + s / 4 } else { b - s / 4 }, e: -128 } }
        3 => v_in(cx, -100, -1),
        _ => v_in(cx, -3, -1),
    };
    cx.note(|| format!("{:?}", v));
    let r = v.val();
    cx.nt(!r.abs().sub(&Rat::frac(1, 10)).is_neg());
    let x = v.mk();
    let p = R { p: 300 };
    let tol = |w: &Rat| p2(-57).mul(&w.abs());
    let asin = p.val(&p.asin(&r));
    within("asin", &rd("asin", &x.asin())?, &asin, &tol(&asin).add(&p2(-250)))?;
    let acos = p.val(&p.pi()).div(&Rat::i(2)).sub(&asin);
    within("acos", &rd("acos", &x.acos())?, &acos, &p2(-57))?;
    let atan = p.val(&p.atan(&r));
    within("atan", &rd("atan", &x.atan())?, &atan, &tol(&atan).add(&p2(-250)))?;
    // beyond one
    let w = if r.is_zero() { Rat::one() } else { let m = cx.range(0, 100); r.mul(&p2(m)) };
    let y = F192::from(ra(&w));
    let wv = rd("argument", &y)?;
    let atan = p.val(&p.atan(&wv));
    within("atan", &rd("atan", &y.atan())?, &atan, &p2(-57).mul(&atan.abs()).add(&p2(-250)))?;
    ensure(x.neg().atan() == x.atan().neg() && x.neg().asin() == x.asin().neg(), || "asin or atan is not odd".into())
}
/// huge and tiny arguments
fn g_wide(cx: &mut Cx) -> Result<(), String> {
    let p = R { p: 400 };
    // the bound is meaningful up to 2^118
    let v = V { neg: cx.bool(), d: sig(cx), e: cx.range(60, 112) - 127 };
    cx.note(|| format!("{:?}", v));
    cx.nt(true);
    let (x, r) = (v.mk(), v.val());
    let (s, c) = p.sincos(&r);
    let t = trig_tol(&r);
    within("sin", &rd("sin", &x.sin())?, &p.val(&s), &t)?;
    within("cos", &rd("cos", &x.cos())?, &p.val(&c), &t)?;
    ensure(x.neg().sin() == x.sin().neg() && x.neg().cos() == x.cos(), || "sin is not odd or cos is not even".into())?;
    // any scale: the arctangent approaches pi/2, everything but the cosine approaches the identity near zero
    let k = far(cx).abs();
    let w = V { neg: cx.bool(), d: sig(cx), e: -127 };
    cx.note(|| format!("{:?}*2^{}", w, k));
    let big = up(w.mk(), k);
    let h = p.val(&p.pi()).div(&Rat::i(2));
    within("atan of a huge number", &rd("atan", &big.atan())?, &if w.neg { h.neg() } else { h.clone() }, &p2(-57))?;
    let tiny = up(w.mk(), -k);
    let at = |n: &str, f: F192| rd(n, &up(f, k));
    close("atan of a tiny number", &at("atan", tiny.atan())?, &w.val(), 57)?;
    close("asin of a tiny number", &at("asin", tiny.asin())?, &w.val(), 57)?;
    close("sin of a tiny number", &at("sin", tiny.sin())?, &w.val(), 69)?;
    within("acos of a tiny number", &rd("acos", &tiny.acos())?, &h, &p2(-57))?;
    within("cos of a tiny number", &rd("cos", &tiny.cos())?, &Rat::one(), &p2(-70))?;
    // and no angle is refused
    let _ = (big.sin(), big.cos());
    Ok(())
}
fn g_domain(cx: &mut Cx) -> Result<(), String> {
    let v = match cx.draw(3) { 0 => V { neg: cx.bool(), d: (1 << 127) + 1 + cx.draw(1000) as u128, e: -127 }, _ => { let mut v = v_in(cx, 0, 200); v.d |= 1; v } };
    cx.note(|| format!("{:?}", v));
    cx.nt(true);
    let x = v.mk();
    must_panic("asin outside the domain", || x.asin())?;
    must_panic("acos outside the domain", || x.acos())
}
