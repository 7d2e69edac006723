//! C17..C19: rational text and IEEE 754 conversions.
use super::ints2::judge;
use super::sub;
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::nat::{Int, Nat, Rat};
use hmath::*;
use std::str::FromStr;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "literals built from the grammar (sign, digits with underscores, optional fraction, optional exponent -400..400, or a prefixed integer), and strings mutated from them by insertion, deletion, duplication and replacement of characters including non-ASCII; non-trivial = a fraction or exponent is present, or the string was mutated",
            assumptions: &["exponents above 3000, exponents with a radix prefix, and an underscore directly after leading zeros are left unjudged (counted as open)"],
            subs: vec![
                sub("literals", 1_800_000, 7_200_000, literals),
                sub("mutated", 2_700_000, 10_800_000, mutated),
            ],
        },
        Prop {
            id: "C18",
            rule: "rationals spread over magnitudes 10^-400..10^400 (a few beyond 10^+-9990), at and next to powers of ten, with requested lengths 0..40; the text is read back exactly and compared with the value; non-trivial = not an integer below 10^6",
            assumptions: &["accuracy bounds as written in the property statement"],
            subs: vec![
                sub("ratio_string", 1_200_000, 4_800_000, ratio_string),
                sub("approx", 1_500_000, 6_000_000, approx),
                sub("scientific", 1_200_000, 4_800_000, scientific),
                sub("huge", 6_000, 40_000, huge),
            ],
        },
        Prop {
            id: "C19",
            rule: "f32/f64 drawn by bit pattern (all exponents, subnormals, extremes, infinities, NaNs) and rationals at, next to and half way between adjacent floats, at overflow and underflow limits, and of 1..40 limbs; non-trivial = value not an integer below 2^24, or a special float",
            assumptions: &["host floats are IEEE 754; bit patterns decoded by the harness", "an exact tie may go to either neighbour"],
            subs: vec![
                sub("from_f32", 2_000_000, 10_000_000, from_f32),
                sub("from_f64", 1_200_000, 6_000_000, from_f64),
                sub("to_f32", 600_000, 3_000_000, to_f32),
                sub("to_f64", 400_000, 2_000_000, to_f64),
            ],
        },
    ]
}

fn digits(cx: &mut Cx, n: usize) -> String {
    let mut s = String::new();
    let z = cx.draw(4);
    for _ in 0..n {
        let d = match z { 0 => *cx.pick(&[0u64, 0, 0, 1, 9]), 1 => *cx.pick(&[9u64, 9, 9, 0, 5]), _ => cx.draw(10) };
        s.push((b'0' + d as u8) as char);
    }
    s
}
fn uscore(cx: &mut Cx, s: &str, lead: bool) -> String {
    if cx.draw(3) != 0 { return s.to_string(); }
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if (i > 0 || lead) && cx.draw(4) == 3 { o.push('_'); if cx.draw(4) == 3 { o.push('_'); } }
        o.push(c);
    }
    if cx.draw(6) == 5 { o.push('_'); }
    o
}
pub fn rat_literal(cx: &mut Cx) -> String {
    if cx.draw(8) == 0 {
        let (t, _) = super::ints2::literal(cx, 6);
        return if cx.bool() { format!("-{}", t) } else { t };
    }
    let mut s = String::new();
    if cx.bool() { s.push('-'); }
    if cx.draw(4) == 0 {
        s.push('0');
    } else {
        let n = if cx.one_in(60) { cx.usize(30, 700) } else { cx.usize(1, 30) };
        let mut d = digits(cx, n);
        if d.starts_with('0') && d.len() > 1 { d.replace_range(0..1, "1"); }
        if d == "0" { s.push('0'); } else { s.push_str(&uscore(cx, &d, false)); }
    }
    if cx.draw(4) != 0 {
        s.push('.');
        let n = match cx.draw(6) { 0 => 0, 1 => if cx.one_in(30) { cx.usize(80, 600) } else { cx.usize(1, 80) }, _ => cx.usize(1, 20) };
        let d = digits(cx, n);
        s.push_str(&uscore(cx, &d, true));
    }
    if cx.draw(3) != 0 {
        s.push(if cx.bool() { 'e' } else { 'E' });
        if cx.bool() { s.push('-'); }
        let e = match cx.draw(5) { 0 => 0, 1 => if cx.one_in(60) { cx.draw(3001) } else { cx.draw(401) }, _ => cx.draw(30) };
        let t = e.to_string();
        if e > 9 { s.push_str(&uscore(cx, &t, false)); } else { s.push_str(&t); }
    }
    s
}
/// None = open; Some(None) = not a number; Some(Some(v)) = exact value
pub fn judge_rat(s: &str) -> Option<Option<Rat>> {
    if s.is_empty() { return Some(None); }
    let (neg, body) = match s.strip_prefix('-') { Some(b) => (true, b), None => (false, s) };
    let sgn = |r: Rat| if neg { r.neg() } else { r };
    // first character that is neither sign, zero nor dot
    let first = s.chars().find(|c| !matches!(c, '-' | '0' | '.'));
    let low = body.to_ascii_lowercase();
    let hex = low.starts_with("0x");
    let dot = s.contains('.');
    let e = s.contains(|c| c == 'e' || c == 'E');
    if !dot && (!e || hex) {
        return match judge(body) {
            None => None,
            Some(None) => Some(None),
            Some(Some(n)) => Some(Some(sgn(Rat::int(Int::nat(&n))))),
        };
    }
    if hex || low.starts_with("0o") || low.starts_with("0b") { return Some(None); }
    if first == Some('_') { return None; }
    // INT [ . FRAC ] [ e EXP ]
    let (mant, exp) = match body.find(|c| c == 'e' || c == 'E') { Some(i) => (&body[..i], Some(&body[i + 1..])), None => (body, None) };
    let (ip, fp) = match mant.find('.') { Some(i) => (&mant[..i], Some(&mant[i + 1..])), None => (mant, None) };
    if let Some(x) = exp {
        if x.contains('.') { return Some(None); }
    }
    let iv = match judge(ip) { None => return None, Some(None) => return Some(None), Some(Some(n)) => n };
    if ip.chars().any(|c| !(c.is_ascii_digit() || c == '_')) { return Some(None); }
    let mut num = iv;
    let mut scale = 0i64;
    if let Some(f) = fp {
        for c in f.chars() {
            if c == '_' { continue; }
            if !c.is_ascii_digit() { return Some(None); }
            num = num.mul_u(10).add(&Nat::u((c as u8 - b'0') as u128));
            scale += 1;
        }
    }
    let mut ev = 0i64;
    if let Some(x) = exp {
        let (en, xb) = match x.strip_prefix('-') { Some(b) => (true, b), None => (false, x) };
        if xb.chars().any(|c| c.is_ascii_alphabetic()) {
            // prefixed exponents are not described
            let l = xb.to_ascii_lowercase();
            if l.starts_with('0') { return None; }
            return Some(None);
        }
        let v = match judge(xb) { None => return None, Some(None) => return Some(None), Some(Some(n)) => n };
        match v.to_u64() { Some(v) if v <= 3000 => ev = if en { -(v as i64) } else { v as i64 }, _ => return None }
    }
    let r = Rat::int(Int::nat(&num)).mul(&Rat::pow10(ev - scale));
    Some(Some(sgn(r)))
}
fn parse_all(s: &str) -> Result<Option<Ratio>, String> {
    let a = Ratio::from_string(s);
    let b = Ratio::from_str(s);
    let c = Ratio::try_from(s);
    let d = Ratio::try_from(s.to_string());
    if a.is_ok() != b.is_ok() || a.is_ok() != c.is_ok() || a.is_ok() != d.is_ok() { return Err(format!("parsers disagree on {:?}", s)); }
    if let (Ok(a), Ok(b), Ok(c), Ok(d)) = (&a, &b, &c, &d) {
        if a != b || a != c || a != d { return Err(format!("parsers disagree on {:?}", s)); }
    }
    Ok(a.ok())
}
fn literals(cx: &mut Cx) -> Result<(), String> {
    let s = rat_literal(cx);
    cx.note(|| format!("{:?}", s));
    cx.nt(s.contains('.') || s.contains('e') || s.contains('E'));
    match judge_rat(&s) {
        None => { cx.label("open"); Ok(()) }
        Some(None) => Err(format!("harness built a bad literal {:?}", s)),
        Some(Some(w)) => match parse_all(&s)? {
            None => Err(format!("[refused] literal {:?}", s)),
            Some(g) => ck_r(&format!("parse of {:?}", s), &g, &w),
        },
    }
}
fn mutated(cx: &mut Cx) -> Result<(), String> {
    let mut c: Vec<char> = if cx.draw(6) == 0 { vec![] } else { rat_literal(cx).chars().collect() };
    c.truncate(24);
    let k = cx.usize(1, 3);
    const POOL: [char; 30] = ['-', '+', '.', 'e', 'E', 'x', 'X', 'o', 'b', '_', ' ', '0', '1', '9', 'f', 'a', '/', ',', '\u{3}', '\u{0}', '\n', 'é', '٣', '½', '−', 'i', 'n', 'z', '-', '.'];
    for _ in 0..k {
        let p = cx.usize(0, c.len());
        match cx.draw(4) {
            0 | 1 => c.insert(p, *cx.pick(&POOL)),
            2 => if p < c.len() { c.remove(p); },
            _ => if p < c.len() { if cx.bool() { let x = c[p]; c.insert(p, x); } else { c[p] = *cx.pick(&POOL); } },
        }
    }
    let s: String = c.into_iter().collect();
    cx.note(|| format!("{:?}", s));
    cx.nt(true);
    let j = judge_rat(&s);
    if j.is_none() { cx.label("open"); return Ok(()); } // an open exponent may be astronomically large
    let got = parse_all(&s)?;
    match j {
        None => Ok(()),
        Some(None) => { cx.label("refuse"); ensure(got.is_none(), || format!("[accepted] malformed {:?} as {:?}", s, got)) }
        Some(Some(w)) => {
            cx.label("accept");
            match got { None => Err(format!("[refused] literal {:?}", s)), Some(g) => ck_r(&format!("parse of {:?}", s), &g, &w) }
        }
    }
}

/// exact value of `-?d+(.d+)?(e-?d+)?`; returns (value, has exponent, integer-part length, exponent text length incl. 'e')
pub struct Txt { pub v: Rat, pub exp: bool, pub int_len: usize, pub exp_len: usize, pub neg: bool, pub mant_digits: usize, pub lead: char, pub unit: Rat }
pub fn read_back(s: &str) -> Result<Txt, String> {
    let bad = || format!("[malformed output] {:?}", s);
    let (neg, b) = match s.strip_prefix('-') { Some(b) => (true, b), None => (false, s) };
    let (m, e) = match b.split_once('e') { Some((m, e)) => (m, Some(e)), None => (b, None) };
    let (i, f) = match m.split_once('.') { Some((i, f)) => (i, Some(f)), None => (m, None) };
    let dg = |t: &str| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit());
    if !dg(i) || f.map_or(false, |f| !dg(f)) { return Err(bad()); }
    if i.len() > 1 && i.starts_with('0') { return Err(bad()); }
    let ev: i64 = match e {
        None => 0,
        Some(e) => { if !dg(e.strip_prefix('-').unwrap_or(e)) { return Err(bad()); } e.parse().map_err(|_| bad())? }
    };
    let f = f.unwrap_or("");
    let n = Nat::parse_radix(&format!("{}{}", i, f), 10);
    let r = Rat::int(Int::new(neg, n)).mul(&Rat::pow10(ev - f.len() as i64));
    Ok(Txt { v: r, exp: e.is_some(), int_len: i.len(), exp_len: e.map_or(0, |e| e.len() + 1), neg, mant_digits: i.len() + f.len(), lead: i.chars().next().unwrap(), unit: Rat::pow10(ev - f.len() as i64) })
}
pub fn spread(cx: &mut Cx) -> Rat {
    match cx.draw(8) {
        0 => { let max = up(cx, 8, 80); rat(cx, max) }
        1 | 2 => { // near a power of ten
            let k = if cx.draw(4) == 0 { cx.range(-400, 400) } else { cx.range(-25, 25) };
            let p = Rat::pow10(k);
            let e = cx.range(1, 40);
            let d = Rat::pow10(k - e);
            let r = match cx.draw(3) { 0 => p, 1 => p.add(&d), _ => p.sub(&d) };
            if cx.bool() { r.neg() } else { r }
        }
        3 | 4 => { // decimal digits times a power of ten
            let n = cx.usize(1, 25);
            let d = digits(cx, n);
            let k = if cx.draw(4) == 0 { cx.range(-400, 400) } else { cx.range(-30, 25) };
            let s = cx.bool();
            Rat::int(Int::new(s, Nat::parse_radix(&d, 10))).mul(&Rat::pow10(k))
        }
        5 => small_rat(cx, 1000),
        _ => { let k = if cx.draw(4) == 0 { cx.range(-300, 300) } else { cx.range(-24, 24) }; rat(cx, 4).mul(&Rat::pow10(k)) }
    }
}
fn ratio_string(cx: &mut Cx) -> Result<(), String> {
    let max = up(cx, 10, 120);
    let a = rat(cx, max);
    cx.note(|| format!("a={:?}", a));
    cx.nt(!a.d.is_one());
    let x = ra(&a);
    let w = if a.d.is_one() { a.n.dec() } else { format!("{}/{}", a.n.dec(), a.d.dec()) };
    eqv("ratio string", x.to_ratio_string(), w)
}
fn approx(cx: &mut Cx) -> Result<(), String> {
    let a = spread(cx);
    let len = match cx.draw(3) { 0 => cx.usize(0, 12), 1 => 12, _ => if cx.one_in(30) { cx.usize(40, 400) } else { cx.usize(6, 40) } };
    cx.note(|| format!("a={:?} len={}", a, len));
    cx.nt(!a.d.is_one() || a.n.mag.bits() > 20);
    let x = ra(&a);
    let s = x.to_approx_string(len);
    if len == 12 {
        eqv("to_string", Ratio::to_string(&x), s.clone())?;
        eqv("display", format!("{}", x), s.clone())?;
    }
    check_approx(&a, &s, len)
}
fn check_approx(a: &Rat, s: &str, len: usize) -> Result<(), String> {
    let t = read_back(s)?;
    let l = len.max(6).max(t.exp_len + if t.exp { 3 } else { 0 });
    let sg = t.neg as usize;
    ensure(s.len() <= l, || format!("[too long] {:?} is longer than {}", s, l))?;
    if a.is_zero() { return ensure(t.v.is_zero(), || format!("[value] zero printed as {:?}", s)); }
    eqv("sign", t.neg, a.is_neg())?;
    ensure(t.v.abs() <= a.abs(), || format!("[not truncated] {:?} printed as {:?}", a, s))?;
    let err = a.sub(&t.v).abs();
    let lim = if t.exp {
        ensure(t.int_len == 1 && t.lead != '0', || format!("[mantissa] {:?}", s))?;
        let avail = l as i64 - t.exp_len as i64 - sg as i64 - 1;
        let k = avail.min(if a.abs() < Rat::pow10(-8) || a.abs() >= Rat::one() { 8 } else { 3 }).max(1);
        a.abs().mul(&Rat::pow10(1 - k))
    } else {
        let fd = l as i64 - t.int_len as i64 - 1 - sg as i64;
        Rat::pow10(-fd.max(0))
    };
    ensure(err < lim, || format!("[accuracy] {:?} printed as {:?}", a, s))?;
    ensure(err < t.unit, || format!("[last digit] {:?} printed as {:?}", a, s))
}
fn scientific(cx: &mut Cx) -> Result<(), String> {
    let a = if cx.draw(3) == 0 { let max = up(cx, 14, 120); rat(cx, max) } else { spread(cx) };
    let d = cx.usize(1, 24);
    cx.note(|| format!("a={:?} digits={}", a, d));
    cx.nt(!a.d.is_one() || a.n.mag.bits() > 20);
    let s = ra(&a).to_scientific_notation(d);
    let t = read_back(&s)?;
    ensure(t.exp, || format!("[no exponent] {:?}", s))?;
    ensure(t.mant_digits <= d, || format!("[too many digits] {:?} for {}", s, d))?;
    if a.is_zero() { return ensure(t.v.is_zero(), || format!("[value] zero printed as {:?}", s)); }
    eqv("sign", t.neg, a.is_neg())?;
    ensure(t.int_len == 1 && t.lead != '0', || format!("[mantissa] {:?}", s))?;
    let err = a.sub(&t.v).abs();
    // parts of more than four limbs are cut before dividing
    let cut = a.n.mag.limbs().min(a.d.limbs()) > 4;
    let slack = if cut { a.abs().mul(&Rat::pow2(Int::one(), -90)) } else { Rat::zero() };
    ensure(t.v.abs() <= a.abs().add(&slack), || format!("[not truncated] {:?} printed as {:?}", a, s))?;
    ensure(err < t.unit.add(&slack), || format!("[last digit] {:?} printed as {:?}", a, s))?;
    ensure(err < a.abs().mul(&Rat::pow10(1 - (d as i64).min(16))).add(&slack), || format!("[accuracy] {:?} printed as {:?}", a, s))
}
fn huge(cx: &mut Cx) -> Result<(), String> {
    let k = cx.range(9_985, 12_000) * if cx.bool() { 1 } else { -1 };
    let a = match cx.draw(5) {
        0 => { // a power of ten, or a single digit of it
            let d = if cx.bool() { 1 } else { cx.range(2, 9) };
            Rat::int(Int::i((if cx.bool() { -d } else { d }) as i128))
        }
        1 => { // just below or above a power of ten
            let n = cx.range(2, 12) as u32;
            let d = cx.range(1, 40);
            let d = if cx.bool() { d } else { -d };
            let r = Rat::int(Int::i(10i128.pow(n) + d as i128));
            if cx.bool() { r.neg() } else { r }
        }
        _ => small_rat(cx, 1_000_000),
    }.mul(&Rat::pow10(k));
    if a.is_zero() { return Ok(()); }
    let len = cx.usize(6, 20);
    cx.note(|| format!("about 10^{} len={} log2={}", k, len, a.n.mag.bits() as i64 - a.d.bits() as i64));
    cx.nt(true);
    let x = ra(&a);
    let s = x.to_approx_string(len);
    let t = read_back(&s)?;
    eqv("sign", t.neg, a.is_neg())?;
    ensure(t.exp && t.int_len == 1 && t.lead != '0', || format!("[mantissa] {:?}", s))?;
    ensure(s.len() <= len.max(t.exp_len + 6), || format!("[too long] {:?}", s))?;
    let err = a.sub(&t.v).abs();
    let tol = if len >= t.exp_len + 6 { Rat::frac(2, 1000) } else { Rat::frac(1, 1) };
    ensure(err <= a.abs().mul(&tol), || format!("[accuracy] 10^{} printed as {:?}", k, s))?;
    if !cx.one_in(4) { return Ok(()); }
    let d = cx.usize(1, 20);
    let s = x.to_scientific_notation(d);
    let t = read_back(&s)?;
    eqv("sign", t.neg, a.is_neg())?;
    ensure(t.exp && t.int_len == 1 && t.lead != '0', || format!("[mantissa] {:?}", s))?;
    let err = a.sub(&t.v).abs();
    let tol = if d >= 4 { Rat::frac(2, 1000) } else { Rat::frac(1, 1) };
    ensure(err <= a.abs().mul(&tol), || format!("[accuracy] 10^{} printed as {:?}", k, s))
}

/// exact value of a finite float given its mantissa/exponent layout
fn bits_value(neg: bool, e: i64, frac: u64, mbits: u32, bias: i64) -> Rat {
    let (m, e) = if e == 0 { (frac, 1) } else { (frac | (1 << mbits), e) };
    Rat::pow2(Int::new(neg, Nat::u(m as u128)), e - bias - mbits as i64)
}
pub fn f32_value(f: f32) -> Rat { let b = f.to_bits(); bits_value(b >> 31 == 1, ((b >> 23) & 255) as i64, (b & 0x7f_ffff) as u64, 23, 127) }
pub fn f64_value(f: f64) -> Rat { let b = f.to_bits(); bits_value(b >> 63 == 1, ((b >> 52) & 2047) as i64, b & ((1 << 52) - 1), 52, 1023) }
pub fn any_f32(cx: &mut Cx) -> f32 {
    let s = cx.draw(2) as u32;
    let e = match cx.draw(6) { 0 => 0, 1 => 255, 2 => *cx.pick(&[1u32, 2, 253, 254, 126, 127, 128, 149, 150, 151]), 3 => cx.range(100, 180) as u32, _ => cx.draw(256) as u32 };
    let f = match cx.draw(5) { 0 => 0, 1 => 0x7f_ffff, 2 => 1 << cx.draw(23), 3 => cx.draw(4) as u32, _ => cx.draw(1 << 23) as u32 };
    f32::from_bits(s << 31 | e << 23 | f)
}
pub fn any_f64(cx: &mut Cx) -> f64 {
    let s = cx.draw(2);
    let e = match cx.draw(6) { 0 => 0, 1 => 2047, 2 => *cx.pick(&[1u64, 2, 2045, 2046, 1022, 1023, 1024, 1074, 1075, 1076]), 3 => cx.range(960, 1120) as u64, _ => cx.draw(2048) };
    let m = (1u64 << 52) - 1;
    let f = match cx.draw(5) { 0 => 0, 1 => m, 2 => 1 << cx.draw(52), 3 => cx.draw(4), _ => cx.draw(1 << 52) };
    f64::from_bits(s << 63 | e << 52 | f)
}
macro_rules! from_float {
    ($name:ident, $any:ident, $value:ident, $fty:ty, $from:ident, $to:ident, $inspect:ident, $mbits:expr) => {
        fn $name(cx: &mut Cx) -> Result<(), String> {
            let f = $any(cx);
            cx.note(|| format!("{:e} (bits {:#x})", f, f.to_bits()));
            if f.is_nan() || f.is_infinite() {
                cx.label("special");
                cx.nt(true);
                let want = if f.is_nan() { 0 } else if f > 0.0 { 1 } else { 2 };
                let kind = |e: &ConversionError| match e { ConversionError::NotANumber => 0, ConversionError::Infinity => 1, ConversionError::NegInfinity => 2, _ => 3 };
                let r = Ratio::$from(f);
                ensure(r.is_err() && kind(r.as_ref().unwrap_err()) == want, || format!("special float {:?} gave {:?}", f, r))?;
                ensure(Ratio::try_from(f).is_err() && Ratio::try_from(&f).is_err(), || format!("special float {:?} accepted", f))?;
                ensure(BigInt::try_from(f).is_err() && UBigInt::try_from(f).is_err(), || format!("special float {:?} accepted as an integer", f))?;
                let r = $inspect(f);
                return ensure(r.is_err() && kind(r.as_ref().unwrap_err()) == want, || format!("inspect of {:?} gave {:?}", f, r));
            }
            let w = $value(f);
            cx.nt(!w.d.is_one() || w.n.mag.bits() > 24);
            let x = Ratio::$from(f).map_err(|e| format!("[refused] {:e}: {:?}", f, e))?;
            ck_r("from float", &x, &w)?;
            ck_r("try_from float", &Ratio::try_from(f).map_err(|e| format!("[refused] {:?}", e))?, &w)?;
            ck_r("try_from &float", &Ratio::try_from(&f).map_err(|e| format!("[refused] {:?}", e))?, &w)?;
            let (neg, e, frac) = $inspect(f).map_err(|e| format!("inspect refused: {:?}", e))?;
            if w.is_zero() {
                eqv("inspect zero", (neg, e, frac as u64), (false, i32::MIN, 0))?;
            } else {
                ensure((frac as u64) < 1 << $mbits, || format!("inspect fraction {}", frac))?;
                let v = Rat::pow2(Int::new(neg, Nat::u((1u128 << $mbits) + frac as u128)), e as i64 - $mbits);
                ensure(v == w, || format!("inspect of {:e} means {:?}", f, v))?;
            }
            // and back
            let g = x.$to().map_err(|e| format!("[refused back] {:e}: {:?}", f, e))?;
            ensure(g == f, || format!("[round trip] {:e} came back as {:e}", f, g))?;
            let g = <$fty>::try_from(&x).map_err(|e| format!("[refused back] {:e}: {:?}", f, e))?;
            ensure(g == f, || format!("[round trip] {:e} came back as {:e}", f, g))?;
            let t = w.trunc();
            ck_b("integer from float", &BigInt::try_from(f).map_err(|e| format!("[refused] {:e} as integer: {:?}", f, e))?, &t)?;
            match UBigInt::try_from(f) {
                Ok(u) => { ensure(!t.neg, || format!("negative {:e} accepted as natural", f))?; ck_u("natural from float", &u, &t.mag) }
                Err(_) => ensure(w.is_neg(), || format!("natural refused: {:e}", f)),
            }
        }
    };
}
from_float!(from_f32, any_f32, f32_value, f32, from_ieee754_f32, to_ieee754_f32, inspect_ieee754_f32, 23);
from_float!(from_f64, any_f64, f64_value, f64, from_ieee754_f64, to_ieee754_f64, inspect_ieee754_f64, 52);

macro_rules! to_float {
    ($name:ident, $any:ident, $value:ident, $uty:ty, $fty:ident, $to:ident, $mbits:expr, $bias:expr) => {
        fn $name(cx: &mut Cx) -> Result<(), String> {
            // a rational near the grid of floats, or anything
            let a = match cx.draw(6) {
                0 => { let max = up(cx, 12, 100); rat(cx, max) }
                1 => { let k = cx.range(-1200, 1100); Rat::pow2(int_nz(cx, 4), if $bias > 200 { k } else { k / 7 }) }
                _ => {
                    let f = $any(cx);
                    let f = if f.is_finite() { f } else if f > 0.0 { $fty::MAX } else { $fty::MIN };
                    let b = f.to_bits() & !(1 << (<$uty>::BITS - 1));
                    let v = $value($fty::from_bits(b));
                    let e = ((b >> $mbits) as i64).max(1) - $bias - $mbits; // ulp exponent
                    let ulp = Rat::pow2(Int::one(), e);
                    let frac = match cx.draw(5) {
                        0 => Rat::frac(1, 2),
                        1 => Rat::frac(1, 2).add(&Rat::pow2(Int::one(), -cx.range(2, 120))),
                        2 => Rat::frac(1, 2).sub(&Rat::pow2(Int::one(), -cx.range(2, 120))),
                        3 => { let q = cx.range(1, 1000) as i128; let p = cx.range(0, 999) as i128 % q; Rat::frac(p, q) }
                        _ => Rat::one().sub(&Rat::pow2(Int::one(), -cx.range(1, 120))),
                    };
                    let r = v.add(&ulp.mul(&frac));
                    if cx.bool() { r.neg() } else { r }
                }
            };
            let a = if cx.draw(4) == 0 {
                // an integer: whole floats, with something far below the last bit
                let t = a.trunc();
                let t = if cx.bool() { t.add(&Int::i(cx.range(-2, 2) as i128)) } else { t };
                Rat::int(t)
            } else { a };
            cx.note(|| format!("a={:?}", a));
            cx.nt(!a.d.is_one() || a.n.mag.bits() > 24);
            let x = ra(&a);
            let got = x.$to();
            let bits = |r: Result<$fty, ConversionError>| r.ok().map(|f| f.to_bits());
            eqv("owned TryFrom agrees", bits($fty::try_from(x.clone())), bits(x.$to()))?;
            if a.d.is_one() {
                let (b, u) = (bi(&a.n), ub(&a.n.mag));
                eqv("big integer agrees", bits($fty::try_from(&b)), bits(x.$to()))?;
                eqv("owned big integer agrees", bits($fty::try_from(b)), bits(x.$to()))?;
                let w = bits(ra(&a.abs()).$to());
                eqv("natural agrees", bits($fty::try_from(&u)), w)?;
            }
            eqv("TryFrom agrees", $fty::try_from(&x).ok().map(|f| f.to_bits()), got.as_ref().ok().map(|f| f.to_bits()))?;
            let m = a.abs();
            let max = $value($fty::MAX);
            let half_top = max.add(&Rat::pow2(Int::one(), $bias - $mbits - 1)); // max + ulp/2
            match got {
                Err(ConversionError::NotInRange { .. }) => ensure(m >= half_top, || format!("[refused] {:?}", a)),
                Err(e) => Err(format!("[wrong error] {:?} for {:?}", e, a)),
                Ok(f) => {
                    ensure(f.is_finite(), || format!("[not finite] {:?} for {:?}", f, a))?;
                    ensure(m <= half_top, || format!("[overflow accepted] {:?} as {:e}", a, f))?;
                    let v = $value(f);
                    ensure(v.is_zero() || v.is_neg() == a.is_neg(), || format!("[sign] {:?} as {:e}", a, f))?;
                    // nearest: no neighbour is strictly closer
                    let b = f.to_bits() & !(1 << (<$uty>::BITS - 1));
                    let err = m.sub(&v.abs()).abs();
                    let up = if b + 1 < $fty::INFINITY.to_bits() { $value($fty::from_bits(b + 1)) } else { max.add(&Rat::pow2(Int::one(), $bias - $mbits)) };
                    ensure(err <= m.sub(&up).abs(), || format!("[not nearest] {:?} as {:e}, next up is closer", a, f))?;
                    if b > 0 { ensure(err <= m.sub(&$value($fty::from_bits(b - 1))).abs(), || format!("[not nearest] {:?} as {:e}, next down is closer", a, f))?; }
                    Ok(())
                }
            }
        }
    };
}
to_float!(to_f32, any_f32, f32_value, u32, f32, to_ieee754_f32, 23, 127);
to_float!(to_f64, any_f64, f64_value, u64, f64, to_ieee754_f64, 52, 1023);
