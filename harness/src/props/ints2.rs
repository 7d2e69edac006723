//! C06..C12: integer text, primitive conversions, roots, gcd, primes, combinatorial functions, logarithms, limb shifts.
use super::{enumd, slow, sub};
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::nat::{Int, Nat};
use hmath::*;
use std::convert::TryFrom;
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "integers rendered in four radices and re-parsed; strings produced from the documented literal grammar (prefixes, case, underscores, leading zeros after a prefix) and strings broken by one edit or made of arbitrary symbols; non-trivial = more than one limb, or a literal with an underscore/prefix, or a string that must be refused",
            assumptions: &["strings whose status the documentation leaves open (prefix split by an underscore, a prefix followed only by underscores) are not judged"],
            subs: vec![
                sub("render_roundtrip", 1_500_000, 12_000_000, s_render),
                sub("parse_literal", 2_500_000, 20_000_000, s_parse),
                sub("parse_arbitrary", 3_000_000, 25_000_000, s_arbitrary),
                sub("scientific", 1_500_000, 10_000_000, s_sci),
            ],
        },
        Prop {
            id: "C07",
            rule: "primitive values at and around every type bound, and big values at and around 2^8..2^128; every From/TryFrom pair is compared with exact inclusion; non-trivial = within 3 of some type bound or outside the target type",
            assumptions: &["usize/isize are 64 bits wide"],
            subs: vec![sub("from_primitive", 4_000_000, 16_000_000, p_from), sub("to_primitive", 6_000_000, 24_000_000, p_to)],
        },
        Prop {
            id: "C08",
            rule: "radicands s^2-1, s^2, s^2+1, s^2+2s and random of up to 40 limbs; gcd operands with a generated common factor, consecutive Fibonacci numbers and zeros; non-trivial = at least two limbs (sqrt) or a common factor above 1 (gcd)",
            assumptions: &[],
            subs: vec![
                sub("sqrt", 1_000_000, 8_000_000, r_sqrt),
                sub("sqrt_word", 3_000_000, 30_000_000, r_sqrt_word),
                sub("sqrt_large", 15_000, 150_000, r_sqrt_large),
                sub("gcd", 400_000, 4_000_000, r_gcd),
                sub("gcd_i32", 3_000_000, 20_000_000, r_gcd_i32),
            ],
        },
        Prop {
            id: "C09",
            rule: "all integers below 20000, primes and prime powers/products up to 2^40, products of many small primes up to 12 limbs, pseudoprimes to small bases, Carmichael numbers, primes and balanced semiprimes of up to 58 bits (62 thorough); oracle: sieve + deterministic Miller-Rabin and multiplication of the known factors; non-trivial = odd and above 100",
            assumptions: &["numbers whose trial division needs divisors above 2^31 are limited to eight listed products and primes around 2^64 (about a minute each, side by side); if those do not finish within 7 minutes they are left unexplored and reported as such"],
            subs: vec![
                enumd("small_all", 20_000, n_small),
                sub("prime_test", 30_000, 120_000, n_isprime),
                sub("factorize", 20_000, 100_000, n_factor),
                sub("pseudoprime", 40_000, 200_000, n_pseudo),
                sub("wide", 64, 1_000, n_wide),
                slow("beyond_words", 8, n_huge),
            ],
        },
        Prop {
            id: "C10",
            rule: "every argument from 0 up, plus sampled large arguments, against a reference product/recurrence; non-trivial = argument above 20",
            assumptions: &[],
            subs: vec![
                enumd("factorial_all", 1_200, f_fact),
                enumd("fibonacci_all", 4_000, f_fib),
                sub("factorial_large", 150, 3_000, f_fact_large),
                sub("fibonacci_large", 300, 6_000, f_fib_large),
            ],
        },
        Prop {
            id: "C11",
            rule: "powers of two +-d, random and 300-limb values; oracle: certified bitwise log2 by interval squaring at 300 bits and exact products of 2^(2^-i); non-trivial = not a power of two",
            assumptions: &["a value whose scaled logarithm is within 2^-200 of an integer accepts both neighbours"],
            subs: vec![sub("log2", 12_000_000, 48_000_000, l_log2), sub("log2_accurate", 720_000, 2_880_000, l_log2a), sub("exp2_accurate", 1_500_000, 6_000_000, l_exp2a)],
        },
        Prop {
            id: "C12",
            rule: "shift counts around 0, the limb count and beyond, slice positions in and out of range, values with zero limbs at the cut; non-trivial = multi-limb value and non-zero count",
            assumptions: &[],
            subs: vec![sub("shift", 15_000_000, 60_000_000, k_shift), sub("vectors", 5_000_000, 20_000_000, k_vec)],
        },
    ]
}

fn underscores(cx: &mut Cx, s: &str, first_ok: bool) -> String {
    if cx.bool() { return s.to_string(); }
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if (i > 0 || first_ok) && cx.draw(5) == 0 { for _ in 0..cx.usize(1, 2) { o.push('_'); } }
        o.push(c);
    }
    if cx.draw(6) == 0 { o.push('_'); }
    o
}
fn mixcase(cx: &mut Cx, s: &str) -> String {
    match cx.draw(3) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if cx.bool() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
/// (text, value) from the documented literal grammar
pub fn literal(cx: &mut Cx, max: usize) -> (String, Nat) {
    let n = nat(cx, max);
    let t = match cx.draw(4) {
        0 => { let d = n.dec(); underscores(cx, &d, false) }
        r => {
            let (p, radix) = [("x", 16), ("o", 8), ("b", 2)][r as usize - 1];
            let mut d = n.radix(radix);
            for _ in 0..(if cx.draw(3) == 0 { cx.usize(0, 12) } else { 0 }) { d.insert(0, '0'); }
            let d = mixcase(cx, &d);
            let p = if cx.draw(3) == 0 { p.to_uppercase() } else { p.to_string() };
            format!("0{}{}", p, underscores(cx, &d, true))
        }
    };
    (t, n)
}
/// None = the documentation leaves it open; Some(None) = not a literal
pub fn judge(s: &str) -> Option<Option<Nat>> {
    let c: Vec<char> = s.chars().collect();
    if c.is_empty() { return Some(None); }
    if c[0] == '0' {
        if c[1..].iter().all(|x| *x == '_') { return Some(Some(Nat::zero())); }
        let k = c[1..].iter().position(|x| *x != '_').unwrap() + 1;
        let radix = match c[k] { 'x' | 'X' => 16, 'o' | 'O' => 8, 'b' | 'B' => 2, _ => return Some(None) };
        if k > 1 { return None; }
        let body: String = c[2..].iter().filter(|x| **x != '_').collect();
        if c.len() == 2 { return Some(None); }
        if body.is_empty() { return None; }
        if body.chars().all(|x| x.is_ascii() && x.is_digit(radix)) { return Some(Some(Nat::parse_radix(&body, radix))); }
        return Some(None);
    }
    if !c[0].is_ascii_digit() { return Some(None); }
    if c.iter().all(|x| x.is_ascii_digit() || *x == '_') {
        let body: String = c.iter().filter(|x| **x != '_').collect();
        return Some(Some(Nat::parse_radix(&body, 10)));
    }
    Some(None)
}
fn s_render(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 14, 300);
    let a = int(cx, max);
    cx.note(|| format!("a={:?}", a));
    cx.nt(a.mag.limbs() > 1);
    let (x, y) = (ub(&a.mag), bi(&a));
    let sg = if a.neg { "-" } else { "" };
    for (p, radix) in [("", 10u32), ("0x", 16), ("0o", 8), ("0b", 2)] {
        if radix != 10 && cx.bool() { continue; }
        let w = if radix == 10 { a.mag.dec() } else { a.mag.radix(radix) };
        let wp = format!("{}{}", p, w);
        let (g, gp, s, sp, f, fp) = match radix {
            10 => (x.to_string_dec(), x.to_string(), y.to_string_dec(), y.to_string(), format!("{}", x), format!("{}", x)),
            16 => (x.to_string_hex(false), x.to_string_hex(true), y.to_string_hex(false), y.to_string_hex(true), format!("{:x}", x), format!("{:#x}", x)),
            8 => (x.to_string_oct(false), x.to_string_oct(true), y.to_string_oct(false), y.to_string_oct(true), format!("{:o}", x), format!("{:#o}", x)),
            _ => (x.to_string_bin(false), x.to_string_bin(true), y.to_string_bin(false), y.to_string_bin(true), format!("{:b}", x), format!("{:#b}", x)),
        };
        eqv("unsigned digits", &g, &w)?;
        eqv("unsigned digits with prefix", &gp, &wp)?;
        eqv("formatted", &f, &w)?;
        eqv("formatted with prefix", &fp, &wp)?;
        eqv("signed digits", s, format!("{}{}", sg, w))?;
        let spw = format!("{}{}{}", sg, p, w);
        eqv("signed digits with prefix", &sp, &spw)?;
        let (fs, fsp) = match radix { 10 => (format!("{}", y), format!("{}", y)), 16 => (format!("{:x}", y), format!("{:#x}", y)), 8 => (format!("{:o}", y), format!("{:#o}", y)), _ => (format!("{:b}", y), format!("{:#b}", y)) };
        eqv("signed formatted", fs, format!("{}{}", sg, w))?;
        eqv("signed formatted with prefix", &fsp, &spw)?;
        match UBigInt::from_string(&wp) { Ok(v) => ck_u("re-parsed", &v, &a.mag)?, Err(e) => return Err(format!("re-parse refused {:?}: {:?}", wp, e)) }
        match BigInt::from_string(&spw) { Ok(v) => ck_b("signed re-parsed", &v, &a)?, Err(e) => return Err(format!("re-parse refused {:?}: {:?}", spw, e)) }
    }
    Ok(())
}
fn parse_all(t: &str) -> Vec<(&'static str, Option<UBigInt>)> {
    vec![
        ("from_string", UBigInt::from_string(t).ok()),
        ("parse", t.parse::<UBigInt>().ok()),
        ("try_from(&str)", UBigInt::try_from(t).ok()),
        ("try_from(String)", UBigInt::try_from(t.to_string()).ok()),
    ]
}
fn parse_all_s(t: &str) -> Vec<(&'static str, Option<BigInt>)> {
    vec![
        ("signed from_string", BigInt::from_string(t).ok()),
        ("signed parse", t.parse::<BigInt>().ok()),
        ("signed try_from(&str)", BigInt::try_from(t).ok()),
        ("signed try_from(String)", BigInt::try_from(t.to_string()).ok()),
    ]
}
fn ck_parse(t: &str) -> Result<(), String> {
    if let Some(w) = judge(t) {
        for (n, g) in parse_all(t) {
            match (&g, &w) {
                (Some(v), Some(w)) => ck_u(n, v, w)?,
                (None, None) => {}
                (Some(v), None) => return Err(format!("{}[accepted]: {:?} as {:?}", n, t, r_ub(v))),
                (None, Some(w)) => return Err(format!("{}[refused]: {:?}, value {:?}", n, t, w)),
            }
        }
    }
    let (neg, body) = match t.strip_prefix('-') { Some(b) => (true, b), None => (false, t) };
    if let Some(w) = judge(body) {
        for (n, g) in parse_all_s(t) {
            match (&g, &w) {
                (Some(v), Some(w)) => ck_b(n, v, &Int::new(neg, w.clone()))?,
                (None, None) => {}
                (Some(v), None) => return Err(format!("{}[accepted]: {:?} as {:?}", n, t, r_bi(v))),
                (None, Some(w)) => return Err(format!("{}[refused]: {:?}, value {:?}", n, t, w)),
            }
        }
    }
    Ok(())
}
fn s_parse(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 10, 200);
    let (t, n) = literal(cx, max);
    let t = if cx.draw(3) == 0 { format!("-{}", t) } else { t };
    cx.note(|| format!("{:?}", t));
    cx.nt(n.limbs() > 1 || t.contains('_') || t.len() > 2);
    ck_parse(&t)
}
fn s_arbitrary(cx: &mut Cx) -> Result<(), String> {
    let alpha: Vec<char> = "0123456789_xXbBoOaAfF-+. eg\u{661}\u{ff11}\u{e9}".chars().collect();
    let t: String = if cx.bool() {
        let (t, _) = literal(cx, 4);
        let mut c: Vec<char> = t.chars().collect();
        let k = cx.usize(1, 2);
        for _ in 0..k {
            let i = cx.usize(0, c.len());
            let ch = *cx.pick(&alpha);
            match cx.draw(3) {
                0 => c.insert(i, ch),
                1 => if i < c.len() { c[i] = ch } else { c.push(ch) },
                _ => if i < c.len() { c.remove(i); },
            }
        }
        c.into_iter().collect()
    } else {
        let n = cx.usize(0, 8);
        (0..n).map(|_| *cx.pick(&alpha)).collect()
    };
    cx.note(|| format!("{:?}", t));
    match judge(&t) { Some(None) => { cx.label("refused"); cx.nt(true) } Some(_) => cx.label("accepted"), None => cx.label("unjudged") }
    ck_parse(&t)
}
/// checks a text "d.ddde<k>" against the leading decimal digits of |n|; at least min(11, max) digits
fn ck_sci(what: &str, got: &str, n: &Nat, max: usize) -> Result<(), String> {
    let dec = n.dec();
    let bad = || format!("{}: {:?} for {} (max {} digits)", what, got, dec, max);
    let (m, e) = got.split_once('e').ok_or_else(bad)?;
    let e: usize = e.parse().map_err(|_| bad())?;
    ensure(e == dec.len() - 1, bad)?;
    let d: String = match m.split_once('.') { Some((a, b)) => { ensure(a.len() == 1 && !b.is_empty() && !b.ends_with('0'), bad)?; format!("{}{}", a, b) } None => { ensure(m.len() == 1, bad)?; m.to_string() } };
    ensure(d.len() <= max, bad)?;
    let full = dec[..dec.len().min(max)].trim_end_matches('0');
    let full = if full.is_empty() { "0" } else { full };
    if max <= 11 || n.limbs() <= 2 { ensure(d == full, bad) } else { let short = dec[..11.min(dec.len())].trim_end_matches('0'); ensure(full.starts_with(&d[..]) && d.len() >= short.len(), bad) }
}
fn s_sci(cx: &mut Cx) -> Result<(), String> {
    let lim = up(cx, 40, 400);
    let a = int(cx, lim);
    let max = match cx.draw(3) { 0 => 5, 1 => cx.usize(1, 11), _ => cx.usize(1, 20) };
    cx.note(|| format!("a={:?} max={}", a, max));
    cx.nt(a.mag.limbs() > 1);
    let x = ub(&a.mag);
    ck_sci("to_scientific_notation", &x.to_scientific_notation(max), &a.mag, max)?;
    eqv("LowerExp", format!("{:e}", x), x.to_scientific_notation(5))?;
    let y = bi(&a);
    let g = y.to_scientific_notation(max);
    eqv("signed scientific", &g, &format!("{}{}", if a.neg { "-" } else { "" }, x.to_scientific_notation(max)))?;
    eqv("signed LowerExp", format!("{:e}", y), y.to_scientific_notation(5))
}

fn p_from(cx: &mut Cx) -> Result<(), String> {
    let v = edge_i128(cx);
    let u = edge_u128(cx);
    cx.note(|| format!("i128={} u128={}", v, u));
    cx.nt(true);
    macro_rules! unsigned { ($($t:ty),*) => {$({
        let k = u as $t;
        let w = Nat::u(k as u128);
        ck_u(concat!("UBigInt::from ", stringify!($t)), &UBigInt::from(k), &w)?;
        ck_u(concat!("UBigInt::from &", stringify!($t)), &UBigInt::from(&k), &w)?;
        ck_b(concat!("BigInt::from ", stringify!($t)), &BigInt::from(k), &Int::nat(&w))?;
        ck_b(concat!("BigInt::from &", stringify!($t)), &BigInt::from(&k), &Int::nat(&w))?;
    })*}; }
    unsigned!(u8, u16, u32, u64, u128, usize);
    macro_rules! signed { ($($t:ty),*) => {$({
        let k = v as $t;
        let w = Int::i(k as i128);
        ck_b(concat!("BigInt::from ", stringify!($t)), &BigInt::from(k), &w)?;
        ck_b(concat!("BigInt::from &", stringify!($t)), &BigInt::from(&k), &w)?;
        for g in [UBigInt::try_from(k), UBigInt::try_from(&k)] {
            match g {
                Ok(g) => { ensure(k >= 0, || format!(concat!("UBigInt::try_from ", stringify!($t), " accepted {}"), k))?; ck_u("UBigInt::try_from signed", &g, &w.mag)? }
                Err(_) => ensure(k < 0, || format!(concat!("UBigInt::try_from ", stringify!($t), " refused {}"), k))?,
            }
        }
    })*}; }
    signed!(i8, i16, i32, i64, i128, isize);
    ck_u("from_u32", &UBigInt::from_u32(u as u32), &Nat::u(u as u32 as u128))?;
    ck_u("from_u64", &UBigInt::from_u64(u as u64), &Nat::u(u as u64 as u128))?;
    ck_u("from_u128", &UBigInt::from_u128(u), &Nat::u(u))?;
    ck_b("from_i32", &BigInt::from_i32(v as i32), &Int::i(v as i32 as i128))?;
    ck_b("from_i64", &BigInt::from_i64(v as i64), &Int::i(v as i64 as i128))?;
    ck_b("from_i128", &BigInt::from_i128(v), &Int::i(v))?;
    let b = v & 1 == 1;
    ck_u("UBigInt::from bool", &UBigInt::from(b), &Nat::u(b as u128))?;
    ck_b("BigInt::from bool", &BigInt::from(b), &Int::i(b as i128))
}
fn p_to(cx: &mut Cx) -> Result<(), String> {
    let a = match cx.draw(4) {
        0 => Int::i(edge_i128(cx)),
        1 => { let k = *cx.pick(&[7u64, 8, 15, 16, 31, 32, 63, 64, 95, 96, 127, 128, 160]); let d = Int::i(cx.range(-3, 3) as i128); let s = cx.bool(); let v = Int::nat(&Nat::one().shl(k)).add(&d); if s { v.neg() } else { v } }
        2 => { let s = cx.bool(); Int::new(s, Nat::u(edge_u128(cx))) }
        _ => int(cx, 6),
    };
    cx.note(|| format!("a={:?}", a));
    cx.nt(a.mag.bits() > 6);
    let (x, y) = (ub(&a.mag), bi(&a));
    fn ck<T: std::fmt::Debug + PartialEq>(n: &str, got: Option<T>, want: Option<T>, a: &Int) -> Result<(), String> {
        if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?} for {:?}", n, got, want, a)) }
    }
    macro_rules! to { ($($t:ty),*) => {$({
        let wu: Option<$t> = a.mag.to_u128().and_then(|v| <$t>::try_from(v).ok());
        ck(concat!("UBigInt -> ", stringify!($t)), <$t>::try_from(&x).ok(), wu, &a)?;
        ck(concat!("owned UBigInt -> ", stringify!($t)), <$t>::try_from(x.clone()).ok(), wu, &a)?;
        let ws: Option<$t> = match (a.to_i128(), a.mag.to_u128()) { (Some(v), _) => <$t>::try_from(v).ok(), (None, Some(v)) if !a.neg => <$t>::try_from(v).ok(), _ => None };
        ck(concat!("BigInt -> ", stringify!($t)), <$t>::try_from(&y).ok(), ws, &a)?;
        ck(concat!("owned BigInt -> ", stringify!($t)), <$t>::try_from(y.clone()).ok(), ws, &a)?;
    })*}; }
    to!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    let n = &a.mag;
    ck("to_u32", x.to_u32().ok(), n.to_u128().and_then(|v| u32::try_from(v).ok()), &a)?;
    ck("to_u64", x.to_u64().ok(), n.to_u128().and_then(|v| u64::try_from(v).ok()), &a)?;
    ck("to_u128", x.to_u128().ok(), n.to_u128(), &a)?;
    ck("to_i32", y.to_i32().ok(), a.to_i128().and_then(|v| i32::try_from(v).ok()), &a)?;
    ck("to_i64", y.to_i64().ok(), a.to_i128().and_then(|v| i64::try_from(v).ok()), &a)?;
    ck("to_i128", y.to_i128().ok(), a.to_i128(), &a)?;
    match UBigInt::try_from(&y) { Ok(v) => { ensure(!a.neg, || format!("UBigInt::try_from accepted {:?}", a))?; ck_u("UBigInt::try_from(BigInt)", &v, &a.mag)? } Err(_) => ensure(a.neg, || format!("UBigInt::try_from refused {:?}", a))? }
    ck_b("BigInt::from(UBigInt)", &BigInt::from(&x), &Int::nat(&a.mag))?;
    ck_r("Ratio::from(BigInt)", &Ratio::from(&y), &crate::nat::Rat::int(a.clone()))?;
    ck_r("Ratio::from(UBigInt)", &Ratio::from(&x), &crate::nat::Rat::int(a.abs()))?;
    eqv("bool from UBigInt", bool::from(&x), !a.is_zero())?;
    eqv("bool from BigInt", bool::from(&y), !a.is_zero())
}

fn ck_sqrt(cx: &mut Cx, n: &Nat) -> Result<(), String> {
    let x = ub(n);
    let g = r_ub(&x.sqrt());
    let ok = g.mul(&g) <= *n && { let h = g.add(&Nat::one()); h.mul(&h) > *n };
    ensure(ok, || format!("sqrt[wrong]: got {:?} for {:?}", g, n))?;
    ck_u("sqrt form", &x.sqrt(), &g)?;
    let neg = cx.bool();
    let b = Int::new(neg, n.clone());
    ck_b("signed sqrt", &bi(&b).sqrt(), &Int::new(b.neg, g))
}
fn around_square(cx: &mut Cx, s: &Nat) -> Nat {
    let q = s.mul(s);
    match cx.draw(6) {
        0 => q,
        1 => q.sub(&Nat::one()).unwrap_or(Nat::zero()),
        2 => q.add(&Nat::one()),
        3 => q.add(s).add(s),
        4 => q.add(s),
        _ => { let d = nat(cx, 2); q.add(&d) }
    }
}
fn r_sqrt(cx: &mut Cx) -> Result<(), String> {
    let n = if cx.bool() { let s = nat(cx, 10); around_square(cx, &s) } else { nat(cx, 20) };
    cx.note(|| format!("n={:?}", n));
    cx.nt(n.limbs() > 1);
    ck_sqrt(cx, &n)
}
fn r_sqrt_word(cx: &mut Cx) -> Result<(), String> {
    let n = match cx.draw(4) {
        0 => { let s = Nat::u(edge_u32(cx) as u128); let n = around_square(cx, &s); Nat::u(n.low_bits(64).to_u128().unwrap()) }
        1 => Nat::u((u64::MAX - cx.draw(1 << 34)) as u128),
        2 => Nat::u(cx.draw(5000) as u128),
        _ => Nat::u(edge_u64(cx) as u128),
    };
    cx.note(|| format!("n={:?}", n));
    cx.nt(n.bits() > 4);
    ck_sqrt(cx, &n)
}
fn r_sqrt_large(cx: &mut Cx) -> Result<(), String> {
    let k = if cx.one_in(100) { cx.usize(60, 250) } else { cx.usize(8, if cx.thorough { 120 } else { 60 }) };
    let s = nat_of(cx, k);
    let n = if cx.bool() { around_square(cx, &s) } else { nat_of(cx, k * 2) };
    cx.note(|| format!("n={:?} ({} limbs)", n, n.limbs()));
    cx.nt(n.limbs() > 2);
    ck_sqrt(cx, &n)
}
fn fibs() -> &'static Vec<Nat> {
    static F: OnceLock<Vec<Nat>> = OnceLock::new();
    F.get_or_init(|| { let mut v = vec![Nat::zero(), Nat::one()]; while v.len() < 4100 { let n = v[v.len() - 1].add(&v[v.len() - 2]); v.push(n); } v })
}
fn r_gcd(cx: &mut Cx) -> Result<(), String> {
    let (a, b) = match cx.draw(4) {
        0 => { let (m, n) = (up(cx, 10, 80), up(cx, 10, 80)); (nat(cx, m), nat(cx, n)) }
        1 => { let i = if cx.one_in(50) { cx.usize(0, 4000) } else { cx.usize(0, 600) }; (fibs()[i].clone(), fibs()[i + 1].clone()) }
        _ => { let g = nat(cx, 6); let p = nat(cx, 5); let q = nat(cx, 5); (g.mul(&p), g.mul(&q)) }
    };
    cx.note(|| format!("a={:?} b={:?}", a, b));
    let w = a.gcd(&b);
    cx.nt(w.bits() > 1);
    let (x, y) = (ub(&a), ub(&b));
    ck_u("gcd", &gcd_ubi(&x, &y), &w)?;
    ck_u("gcd swapped", &gcd_ubi(&y, &x), &w)?;
    let (s, t) = (cx.bool(), cx.bool());
    ck_b("signed gcd", &gcd_bi(&bi(&Int::new(s, a)), &bi(&Int::new(t, b))), &Int::nat(&w))
}
fn r_gcd_i32(cx: &mut Cx) -> Result<(), String> {
    let (a, b) = (edge_i32(cx), edge_i32(cx));
    cx.note(|| format!("{} {}", a, b));
    let w = Nat::u(a.unsigned_abs() as u128).gcd(&Nat::u(b.unsigned_abs() as u128)).to_u128().unwrap();
    cx.nt(w > 1);
    if w > i32::MAX as u128 { cx.label("unrepresentable"); return Ok(()); }
    eqv("gcd_i32", utils::gcd_i32(a, b) as u128, w)
}

fn is_prime_u64(n: u64) -> bool {
    if n < 2 { return false; }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] { if n % p == 0 { return n == p; } }
    let (mut d, mut r) = (n - 1, 0);
    while d % 2 == 0 { d /= 2; r += 1; }
    let mulm = |a: u64, b: u64| (a as u128 * b as u128 % n as u128) as u64;
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let (mut x, mut b, mut e) = (1u64, a % n, d);
        while e > 0 { if e & 1 == 1 { x = mulm(x, b); } b = mulm(b, b); e >>= 1; }
        if x == 1 || x == n - 1 { continue; }
        for _ in 1..r { x = mulm(x, x); if x == n - 1 { continue 'w; } }
        return false;
    }
    true
}
fn next_prime(mut n: u64) -> u64 { while !is_prime_u64(n) { n += 1; } n }
fn prev_prime(mut n: u64) -> u64 { while n > 2 && !is_prime_u64(n) { n -= 1; } n.max(2) }
fn ck_factors(n: &Nat, want: &[u64]) -> Result<(), String> {
    let g: Vec<Nat> = ub(n).prime_factorial().iter().map(r_ub).collect();
    let w: Vec<Nat> = want.iter().map(|p| Nat::u(*p as u128)).collect();
    ensure(g == w, || format!("prime_factorial: got {:?}, expected {:?} for {:?}", g, w, n))?;
    let b: Vec<Int> = bi(&Int::new(true, n.clone())).prime_factorial().iter().map(r_bi).collect();
    ensure(b == g.iter().map(Int::nat).collect::<Vec<_>>(), || format!("signed prime_factorial: got {:?} for -{:?}", b, n))
}
fn n_small(cx: &mut Cx) -> Result<(), String> {
    let n = cx.case;
    cx.nt(n > 100 && n % 2 == 1);
    cx.note(|| format!("{}", n));
    eqv("is_prime", UBigInt::from_u64(n).is_prime(), is_prime_u64(n))?;
    eqv("signed is_prime", BigInt::from_i64(-(n as i64)).is_prime(), is_prime_u64(n))?;
    if n >= 2 {
        let mut f = vec![];
        let mut m = n;
        let mut p = 2;
        while m > 1 { if m % p == 0 { f.push(p); m /= p; } else { p += 1; } }
        ck_factors(&Nat::u(n as u128), &f)?;
    }
    Ok(())
}
fn n_isprime(cx: &mut Cx) -> Result<(), String> {
    let bits = if cx.thorough { 46 } else { 38 };
    let n = match cx.draw(6) {
        0 => { let k = cx.usize(4, bits); next_prime(cx.draw(1 << k)) }
        1 => { let p = next_prime(cx.draw(1 << (bits / 2))); p * p }
        2 => { let k = cx.usize(2, bits / 2); let p = next_prime(cx.draw(1 << k)); let q = next_prime(p + cx.draw(200)); p * q }
        3 => { let k = cx.usize(8, bits); prev_prime(1 << k) }
        4 => { let p = next_prime(cx.draw(1000)); let k = cx.usize(4, 34); p * next_prime(cx.draw(1 << k)) }
        _ => { let k = cx.usize(4, 63); let n = cx.draw(1 << k); if n < 1 << bits { n } else { n | 1 } }
    };
    // keep the library's trial division short: need sqrt(n) or the smallest factor below 2^23
    let w = is_prime_u64(n);
    let small = n < 1 << 46 || (3..2000u64).step_by(2).any(|d| n % d == 0) || n % 2 == 0;
    if !small { cx.label("skipped-slow"); return Ok(()); }
    cx.note(|| format!("{}", n));
    cx.nt(n > 100 && n % 2 == 1);
    if w { cx.label("prime"); }
    eqv("is_prime", UBigInt::from_u64(n).is_prime(), w)?;
    // beyond 64 bits: a multiple of a small prime is composite
    if cx.draw(4) == 0 {
        let p = next_prime(cx.draw(3000) + 2);
        let m = nat_nz(cx, 5).mul_u(p as u32);
        if m != Nat::u(p as u128) { eqv("is_prime of a composite", ub(&m).is_prime(), false)?; }
    }
    Ok(())
}
fn n_factor(cx: &mut Cx) -> Result<(), String> {
    let k = cx.usize(1, 12);
    let mut f: Vec<u64> = vec![];
    for _ in 0..k {
        let b = match cx.draw(4) { 0 => 3, 1 => 8, 2 => 11, _ => 16 };
        let p = next_prime(2 + cx.draw(1 << b));
        f.push(p);
        if cx.draw(4) == 0 { f.push(p); }
    }
    // the largest prime only needs trial division up to its root
    if cx.draw(3) == 0 { f.push(next_prime(2 + cx.draw(1 << (if cx.thorough { 36 } else { 30 })))); }
    f.sort();
    let n = f.iter().fold(Nat::one(), |a, p| a.mul(&Nat::u(*p as u128)));
    cx.note(|| format!("{:?}", f));
    cx.nt(f.len() > 1);
    ck_factors(&n, &f)?;
    if f.len() > 1 { eqv("is_prime of a composite", ub(&n).is_prime(), false)?; }
    Ok(())
}

/// composites that pass probabilistic primality tests
fn n_pseudo(cx: &mut Cx) -> Result<(), String> {
    // factors of composites that are strong pseudoprimes to several bases
    const LISTED: [&[u64]; 8] = [&[23, 89], &[829, 1657], &[2251, 11251], &[151, 751, 28351], &[6763, 10627, 29947], &[1303, 16927, 157543], &[10670053, 32010157], &[149491, 747451, 34233211]];
    let f: Vec<u64> = match cx.draw(8) {
        0 => LISTED[cx.usize(0, if cx.thorough { 7 } else { 5 })].to_vec(),
        1 => { // Carmichael numbers (6k+1)(12k+1)(18k+1)
            let mut k = 1 + cx.draw(2_500);
            while ![6, 12, 18].iter().all(|m| is_prime_u64(m * k + 1)) { k += 1; }
            vec![6 * k + 1, 12 * k + 1, 18 * k + 1]
        }
        _ => { // (k+1)(mk+1) passing the Fermat test to a small base
            let m = cx.range(2, 6) as u64;
            let b = cx.usize(6, if cx.thorough { 22 } else { 20 });
            let a = [2u64, 3, 5, 7][cx.usize(0, 3)];
            let mut k = 2 * (cx.draw(1 << (b - 1)) + 5);
            for _ in 0..40_000 {
                let n = (k + 1) * (m * k + 1);
                if is_prime_u64(k + 1) && is_prime_u64(m * k + 1) && powmod(a, n - 1, n) == 1 { break; }
                k += 2;
            }
            if !(is_prime_u64(k + 1) && is_prime_u64(m * k + 1)) { cx.label("none found"); return Ok(()); }
            vec![k + 1, m * k + 1]
        }
    };
    cx.note(|| format!("{:?}", f));
    cx.nt(true);
    let n = f.iter().fold(Nat::one(), |a, p| a.mul(&Nat::u(*p as u128)));
    eqv("is_prime of a pseudoprime", ub(&n).is_prime(), false)?;
    if cx.one_in(24) && f[0] < 1 << 18 { ck_factors(&n, &f)?; }
    Ok(())
}
fn powmod(a: u64, mut e: u64, n: u64) -> u64 {
    let (mut x, mut b) = (1u128, (a % n) as u128);
    let n = n as u128;
    while e > 0 { if e & 1 == 1 { x = x * b % n; } b = b * b % n; e >>= 1; }
    x as u64
}
/// primes and balanced semiprimes that need divisors of up to 30 bits
fn n_wide(cx: &mut Cx) -> Result<(), String> {
    let b = cx.usize(20, if cx.thorough { 31 } else { 29 });
    let n = match cx.draw(3) {
        0 => { let k = 2 * b; next_prime((1 << (k - 1)) + cx.draw(1 << (k - 1))) }
        1 => { let p = next_prime((1 << (b - 1)) + cx.draw(1 << (b - 1))); p * p }
        _ => { let p = next_prime((1 << (b - 1)) + cx.draw(1 << (b - 1))); let q = next_prime(p + 1 + cx.draw(1 << 12)); p * q }
    };
    cx.note(|| format!("{}", n));
    cx.nt(true);
    eqv("is_prime", UBigInt::from_u64(n).is_prime(), is_prime_u64(n))
}

/// trial division beyond 32-bit divisors: products of two primes around 2^32 and primes above 2^64
fn n_huge(cx: &mut Cx) -> Result<(), String> {
    const B: u64 = 1 << 32;
    cx.nt(true);
    let mul = |v: &[u64]| v.iter().fold(Nat::one(), |a, p| a.mul(&Nat::u(*p as u128)));
    let factors = |v: &[u64]| -> Result<(), String> {
        let g: Vec<Nat> = ub(&mul(v)).prime_factorial().iter().map(r_ub).collect();
        let w: Vec<Nat> = v.iter().map(|p| Nat::u(*p as u128)).collect();
        ensure(g == w, || format!("prime_factorial: got {:?}, expected {:?}", g, w))
    };
    let composite = |v: &[u64]| eqv("is_prime of a composite", ub(&mul(v)).is_prime(), false);
    match cx.case {
        0 => factors(&[3, B + 15, B + 131107]),
        1 => factors(&[7, B + 75, B + 75]),
        2 => factors(&[2, 2, B - 5, B + 61]),
        3 => { // a prime whose root is 2^32 + 2^17
            let p = Nat::u(18447869990796263441);
            let g: Vec<Nat> = ub(&p).prime_factorial().iter().map(r_ub).collect();
            ensure(g == vec![p.clone()], || format!("prime_factorial of a prime: {:?}", g))
        }
        4 => composite(&[B + 81, B + 100011]),
        5 => composite(&[B + 15, B + 15]),
        6 => eqv("is_prime of a prime", ub(&Nat::u(18447869990796263441)).is_prime(), true),
        _ => composite(&[B - 5, B + 131107]),
    }
}

fn facts() -> &'static Vec<Nat> {
    static F: OnceLock<Vec<Nat>> = OnceLock::new();
    F.get_or_init(|| { let mut v = vec![Nat::one()]; while v.len() < 4100 { let n = v[v.len() - 1].mul_u(v.len() as u32); v.push(n); } v })
}
fn ck_fact(n: usize) -> Result<(), String> {
    ck_u(&format!("factorial({})", n), &UBigInt::factorial(n as u32), &facts()[n])?;
    ck_b(&format!("signed factorial({})", n), &BigInt::factorial(n as u32), &Int::nat(&facts()[n]))
}
fn ck_fib(n: usize) -> Result<(), String> {
    ck_u(&format!("fibonacci({})", n), &UBigInt::fibonacci(n as u32), &fibs()[n])?;
    ck_b(&format!("signed fibonacci({})", n), &BigInt::fibonacci(n as u32), &Int::nat(&fibs()[n]))
}
fn f_fact(cx: &mut Cx) -> Result<(), String> { let n = cx.case as usize; cx.nt(n > 20); cx.note(|| format!("n={}", n)); ck_fact(n) }
fn f_fib(cx: &mut Cx) -> Result<(), String> { let n = cx.case as usize; cx.nt(n > 20); cx.note(|| format!("n={}", n)); ck_fib(n) }
fn f_fact_large(cx: &mut Cx) -> Result<(), String> { let n = cx.usize(1200, 4000); cx.nt(true); cx.note(|| format!("n={}", n)); ck_fact(n) }
fn f_fib_large(cx: &mut Cx) -> Result<(), String> {
    // identity F(2n) = F(n) (2F(n+1) - F(n)), F(2n+1) = F(n)^2 + F(n+1)^2 from the reference table
    let n = cx.usize(2000, 4000);
    cx.nt(true);
    cx.note(|| format!("n={}", 2 * n));
    let (a, b) = (&fibs()[n], &fibs()[n + 1]);
    ck_u("fibonacci(2n)", &UBigInt::fibonacci(2 * n as u32), &a.mul(&b.add(b).sub(a).unwrap()))?;
    ck_u("fibonacci(2n+1)", &UBigInt::fibonacci(2 * n as u32 + 1), &a.mul(a).add(&b.mul(b)))
}

fn l_log2(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 30, 1000);
    let n = nat(cx, max);
    cx.note(|| format!("n={:?}", n));
    cx.nt(n.bits() > 1);
    let w = if n.is_zero() { 0 } else { n.bits() - 1 };
    ck_u("log2", &ub(&n).log2(), &Nat::u(w as u128))?;
    let s = Int::new(cx.bool(), n);
    ck_b("signed log2", &bi(&s).log2(), &Int::i(w as i128))?;
    let e = cx.draw(5000);
    let p = Nat::one().shl(e);
    ck_u("exp2", &UBigInt::exp2(e), &p)?;
    ck_b("signed exp2", &BigInt::exp2(e), &Int::nat(&p))
}
/// floor(log2(n) * 2^32): Ok(exact) or Err((lo, hi)) when undecided at this precision
fn log2_ref(n: &Nat) -> Result<Nat, (Nat, Nat)> {
    const P: u64 = 300;
    let k = n.bits() - 1;
    let exact = n.trailing_zeros() == k;
    let mut lo = if k >= P { n.shr(k - P) } else { n.shl(P - k) };
    let mut hi = if k > P && !exact { lo.add(&Nat::one()) } else { lo.clone() };
    let two = Nat::one().shl(P + 1);
    let mut r = Nat::u(k as u128);
    for i in 0..32 {
        lo = lo.mul(&lo).shr(P);
        let h2 = hi.mul(&hi);
        hi = h2.shr(P);
        if hi.shl(P) != h2 { hi = hi.add(&Nat::one()); }
        r = r.shl(1);
        if lo >= two {
            r = r.add(&Nat::one());
            lo = lo.shr(1);
            hi = hi.add(&Nat::one()).shr(1);
        } else if hi > two || (hi == two && !exact) {
            // straddles: upper candidate ends in 1000.., lower in 0111..
            let rest = 31 - i;
            let up = r.add(&Nat::one()).shl(rest);
            return Err((up.sub(&Nat::one()).unwrap(), up));
        }
    }
    Ok(r)
}
fn l_log2a(cx: &mut Cx) -> Result<(), String> {
    let max = match cx.draw(4) { 0 => 2, 1 => 9, 2 => 20, _ => up(cx, 120, 1000) };
    let n = nat(cx, max);
    cx.note(|| format!("n={:?}", n));
    cx.nt(n.bits() > 1 && n.trailing_zeros() + 1 != n.bits());
    let g = r_ub(&ub(&n).log2_accurate());
    if n.is_zero() { return eqv("log2_accurate(0)", g, Nat::zero()); }
    match log2_ref(&n) {
        Ok(w) => ensure(g == w, || format!("log2_accurate: got {:?}, expected {:?} for {:?}", g, w, n))?,
        Err((a, b)) => { cx.label("undecided"); ensure(g == a || g == b, || format!("log2_accurate: got {:?}, expected {:?} or {:?} for {:?}", g, a, b, n))? }
    }
    let s = Int::new(cx.bool(), n);
    ck_b("signed log2_accurate", &bi(&s).log2_accurate(), &Int::nat(&g))
}
const XP: u64 = 200;
fn exp2_tab() -> &'static Vec<Nat> { // 2^(2^-i) * 2^XP, i = 1..32
    static T: OnceLock<Vec<Nat>> = OnceLock::new();
    T.get_or_init(|| { let mut v = vec![Nat::one().shl(XP + 1)]; for _ in 0..32 { let l = v[v.len() - 1].shl(XP).isqrt(); v.push(l); } v })
}
fn l_exp2a(cx: &mut Cx) -> Result<(), String> {
    let t = match cx.draw(5) { 0 => cx.draw(4), 1 => cx.draw(33), 2 => cx.draw(70), _ => cx.draw(400) };
    let f = match cx.draw(6) { 0 => 0, 1 => cx.draw(600) << 23, 2 => limb(cx) as u64, 3 => (cx.draw(1 << 14)) << 18, _ => cx.u32() as u64 } % (1 << 32);
    let n = Nat::u(t as u128).shl(32).add(&Nat::u(f as u128));
    cx.note(|| format!("trunc={} frac={}", t, f));
    cx.nt(f != 0);
    let mut p = Nat::one().shl(XP);
    for i in 1..=32u64 { if f >> (32 - i) & 1 == 1 { p = p.mul(&exp2_tab()[i as usize]).shr(XP); } }
    // want = p * 2^(t - XP)
    let g = r_ub(&UBigInt::exp2_accurate(&ub(&n)));
    let gs = g.shl(XP);
    let ws = p.shl(t);
    let diff = if gs > ws { gs.sub(&ws).unwrap() } else { ws.sub(&gs).unwrap() };
    // within one unit, plus a relative error of 2^-29
    let tol = Nat::one().shl(XP).add(&ws.shr(29));
    ensure(diff <= tol, || format!("exp2_accurate[error]: got {:?}, expected about {:?} for 2^({} + {}/2^32)", g, ws.shr(XP), t, f))?;
    if f == 0 { ensure(g == Nat::one().shl(t), || format!("exp2_accurate[integer exponent]: got {:?} for 2^{}", g, t))?; }
    Ok(())
}

fn k_shift(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 12, 300);
    let a = int(cx, max);
    let len = a.mag.limbs().max(1);
    let n = match cx.draw(4) { 0 => cx.usize(0, 3), 1 => (len + cx.usize(0, 2)).saturating_sub(1), 2 => cx.usize(0, len), _ => if cx.one_in(50) { cx.usize(0, 600) } else { cx.usize(0, 20) } };
    cx.note(|| format!("a={:?} n={}", a, n));
    cx.nt(len > 1 && n > 0);
    let (x, y) = (ub(&a.mag), bi(&a));
    eqv("len", x.len(), len)?;
    eqv("signed len", y.len(), len)?;
    let l = a.mag.shl(32 * n as u64);
    let r = a.mag.shr(32 * n as u64);
    ck_u("shift_left", &x.shift_left(n), &l)?;
    ck_u("shift_right", &x.shift_right(n), &r)?;
    let mut t = x.clone(); t.shift_left_mut(n); ck_u("shift_left_mut", &t, &l)?;
    let mut t = x.clone(); t.shift_right_mut(n); ck_u("shift_right_mut", &t, &r)?;
    let (sl, sr) = (Int::new(a.neg, l), Int::new(a.neg, r));
    ck_b("signed shift_left", &y.shift_left(n), &sl)?;
    ck_b("signed shift_right", &y.shift_right(n), &sr)?;
    let mut t = y.clone(); t.shift_left_mut(n); ck_b("signed shift_left_mut", &t, &sl)?;
    let mut t = y.clone(); t.shift_right_mut(n); ck_b("signed shift_right_mut", &t, &sr)?;
    if n <= len {
        let m = a.mag.low_bits(32 * n as u64);
        ck_u("slice_right", &x.slice_right(n), &m)?;
        let mut t = x.clone(); t.slice_right_mut(n); ck_u("slice_right_mut", &t, &m)?;
        let sm = Int::new(a.neg, m);
        ck_b("signed slice_right", &y.slice_right(n), &sm)?;
        let mut t = y.clone(); t.slice_right_mut(n); ck_b("signed slice_right_mut", &t, &sm)?;
    } else if cx.draw(20) == 0 {
        must_panic("slice_right out of range", || x.slice_right(n))?;
        must_panic("signed slice_right out of range", || y.slice_right(n))?;
    }
    Ok(())
}
fn k_vec(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(1, 8);
    let v: Vec<u64> = (0..n).map(|i| if i == 0 || cx.draw(3) == 0 { edge_u64(cx) } else { edge_u64(cx) >> 1 }).collect();
    // precondition: an element plus the incoming carry must not exceed u64
    let mut carry = 0u64;
    for x in v.iter() { match x.checked_add(carry) { Some(s) => carry = s >> 32, None => { cx.label("skipped-overflow"); return Ok(()); } } }
    cx.note(|| format!("{:?}", v));
    cx.nt(n > 1);
    let mut w = Nat::zero();
    for (i, x) in v.iter().enumerate() { w = w.add(&Nat::u(*x as u128).shl(32 * i as u64)); }
    let mut g = utils::v64_to_v32(v.clone());
    eqv("v64_to_v32 value", val(&g), w.clone())?;
    utils::remove_suffix_0(&mut g);
    eqv("remove_suffix_0", g.clone(), w.raw())?;
    eqv("v32_to_v64", utils::v32_to_v64(&g), g.iter().map(|x| *x as u64).collect::<Vec<_>>())
}
