//! Generators over the choice tape, biased to limb boundaries, powers of two/ten, and sparse/dense patterns.
use crate::engine::Cx;
use crate::nat::{Int, Nat, Rat};

/// Integer literals of the code under test, as a fuzzing dictionary: inputs only,
/// no verdict depends on it. Tables, comments and tests are left out.
pub fn dict() -> &'static [u128] {
    static D: std::sync::OnceLock<Vec<u128>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut v: std::collections::BTreeSet<u128> = [10, 100, 255, 1000, 65536].into_iter().collect();
        let mut todo = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(p) = todo.pop() {
            if p.is_dir() {
                if let Ok(r) = std::fs::read_dir(&p) { todo.extend(r.flatten().map(|e| e.path())); }
            } else if p.extension().map_or(false, |e| e == "rs") {
                if let Ok(t) = std::fs::read_to_string(&p) { literals(&t, &mut v); }
            }
        }
        v.into_iter().filter(|n| *n > 8).collect()
    })
}
fn literals(text: &str, out: &mut std::collections::BTreeSet<u128>) {
    let text = &text[..text.find("#[cfg(test)]\nmod ").unwrap_or(text.len())];
    for line in text.lines() {
        let line = line.split("//").next().unwrap_or("");
        // a row of a table
        if line.chars().all(|c| c.is_ascii_hexdigit() || " \t,_x[]()u".contains(c)) { continue; }
        let mut found = vec![];
        for w in line.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
            if !w.starts_with(|c: char| c.is_ascii_digit()) { continue; }
            let w = w.replace('_', "");
            let (radix, w) = match w.strip_prefix("0x") { Some(h) => (16, h.to_string()), None => (10, w) };
            let end = w.find(|c: char| !c.is_digit(radix)).unwrap_or(w.len());
            if let Ok(n) = u128::from_str_radix(&w[..end], radix) { found.push(n); }
        }
        if found.len() <= 8 { out.extend(found); }
    }
}
/// a literal of the code under test, or its neighbour
pub fn word(cx: &mut Cx) -> u128 {
    let d = dict();
    let i = cx.draw(1 << 16) as usize * d.len() >> 16;
    let n = d[i];
    match cx.draw(6) { 0 | 1 | 2 => n, 3 => n.wrapping_add(1), 4 => n - 1, _ => if n < 128 { 1 << n } else { n.wrapping_neg() } }
}
/// a literal of the code under test that lies in lo..=hi, or any such number
pub fn word_in(cx: &mut Cx, lo: i64, hi: i64) -> i64 {
    let w = word(cx);
    let w = if w < 1 << 62 { w as i64 } else { return cx.range(lo, hi) };
    let w = if cx.bool() { w } else { -w };
    if (lo..=hi).contains(&w) { w } else if (lo..=hi).contains(&-w) { -w } else { cx.range(lo, hi) }
}

pub fn limb(cx: &mut Cx) -> u32 {
    match cx.draw(13) {
        12 => word(cx) as u32,
        0 => 0,
        1 => 1,
        2 => u32::MAX,
        3 => cx.draw(16) as u32,
        4 => u32::MAX - cx.draw(16) as u32,
        5 => 1 << cx.draw(32),
        6 => (1u32 << cx.draw(32)).wrapping_sub(1),
        7 => 0x8000_0000,
        _ => cx.u32(),
    }
}
pub fn limb_nz(cx: &mut Cx) -> u32 { limb(cx).max(1) }

pub fn edge_u32(cx: &mut Cx) -> u32 {
    match cx.draw(9) {
        8 => word(cx) as u32,
        0 => cx.draw(20) as u32,
        1 => *cx.pick(&[0, 1, 2, 3, 5, 7, 10, 16, 31, 32, 33, 64, 100, 255, 256, 1000, 65535, 65536, 65537, 1_000_000, 999_999_999, 1_000_000_000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff]),
        2 => 1 << cx.draw(32),
        3 => (1u32 << cx.draw(32)).wrapping_sub(1),
        4 => u32::MAX - cx.draw(1000) as u32,
        5 => cx.draw(65536) as u32,
        _ => cx.u32(),
    }
}
pub fn edge_i32(cx: &mut Cx) -> i32 {
    match cx.draw(8) {
        0 => cx.range(-20, 20) as i32,
        1 => *cx.pick(&[0, 1, -1, 2, -2, i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 10, -10, 1 << 30, -(1 << 30), 65536, -65536]),
        2 => (1i64 << cx.draw(31)) as i32,
        3 => -((1i64 << cx.draw(32)) as i64) as i32,
        _ => edge_u32(cx) as i32,
    }
}
pub fn edge_u64(cx: &mut Cx) -> u64 { let a = limb(cx) as u64; let b = limb(cx) as u64; if cx.draw(3) == 0 { a } else { a | (b << 32) } }
pub fn edge_u128(cx: &mut Cx) -> u128 {
    match cx.draw(7) {
        6 => word(cx),
        0 => cx.draw(300) as u128,
        1 => 1u128 << cx.draw(128),
        2 => (1u128 << cx.draw(128)).wrapping_sub(1),
        3 => u128::MAX - cx.draw(300) as u128,
        4 => edge_u64(cx) as u128,
        _ => edge_u64(cx) as u128 | ((edge_u64(cx) as u128) << 64),
    }
}
pub fn edge_i128(cx: &mut Cx) -> i128 {
    match cx.draw(3) {
        0 => *cx.pick(&[0, 1, -1, i128::MIN, i128::MIN + 1, i128::MAX, i64::MAX as i128, i64::MIN as i128, i64::MIN as i128 - 1, i64::MAX as i128 + 1, i32::MIN as i128, i32::MIN as i128 - 1, i32::MAX as i128, i32::MAX as i128 + 1, u32::MAX as i128, u32::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 + 1]),
        1 => { let s = cx.range(-3, 3) as i128; let b = *cx.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 96]); let v = (1i128 << b).wrapping_add(s); if cx.bool() { -v } else { v } }
        _ => edge_u128(cx) as i128,
    }
}

/// size bound: usually `base`, one time in 128 `large`
pub fn up(cx: &mut Cx, base: usize, large: usize) -> usize { if cx.one_in(128) { large } else { base } }

/// limb count: mostly small, sometimes up to `max`
pub fn nlimbs(cx: &mut Cx, max: usize) -> usize {
    if max <= 1 { return max; }
    if max > 40 && cx.bool() { return cx.usize(1, max); }
    match cx.draw(10) {
        0 => 1,
        1 | 2 => cx.usize(1, max.min(2)),
        3 | 4 => cx.usize(1, max.min(5)),
        5 | 6 => cx.usize(1, max.min(9)),
        7 | 8 => cx.usize(1, max.min(20)),
        _ => cx.usize(1, max),
    }
}

pub fn nat_of(cx: &mut Cx, n: usize) -> Nat {
    if n == 0 { return Nat::zero(); }
    let mut v = Vec::with_capacity(n);
    match cx.draw(8) {
        0 => { // all ones / runs
            let fill = *cx.pick(&[u32::MAX, 0, 0x8000_0000, 1, 0x5555_5555]);
            for _ in 0..n { v.push(fill); }
            let k = cx.draw(3);
            for _ in 0..k { let i = cx.usize(0, n - 1); v[i] = limb(cx); }
            if v[n - 1] == 0 { v[n - 1] = limb_nz(cx); }
        }
        1 => { // runs of constant limbs
            let mut i = 0;
            while i < n {
                let r = cx.usize(1, 8);
                let l = limb(cx);
                for _ in 0..r { if i < n { v.push(l); i += 1; } }
            }
            if v[n - 1] == 0 { v[n - 1] = limb_nz(cx); }
        }
        2 => { // 2^k + small delta (either sign)
            let k = cx.draw(n as u64 * 32);
            let d = Nat::u(cx.draw(5) as u128);
            let p = Nat::one().shl(k);
            return if cx.bool() { p.add(&d) } else { p.sub(&d).unwrap_or(p) };
        }
        3 => { // limb-edge heavy
            for _ in 0..n { v.push(limb(cx)); }
            if v[n - 1] == 0 { v[n - 1] = limb_nz(cx); }
        }
        _ => {
            for _ in 0..n { v.push(cx.u32()); }
            if cx.draw(3) == 0 { v[n - 1] = limb_nz(cx); }
            if v[n - 1] == 0 { v[n - 1] = 1; }
        }
    }
    Nat::from_limbs(v)
}
pub fn nat(cx: &mut Cx, max: usize) -> Nat {
    if cx.one_in(24) {
        let w = Nat::u(word(cx));
        if w.limbs() <= max { return w; }
    }
    // rarely far beyond the usual size
    let max = if (4..40).contains(&max) && cx.one_in(64) { max * 6 } else { max };
    match cx.draw(12) {
        0 => Nat::u(cx.draw(40) as u128),
        1 => Nat::u(edge_u32(cx) as u128),
        2 => Nat::u(edge_u64(cx) as u128),
        3 => { // 10^k + delta
            let k = cx.draw((max as u64 * 9).min(120) + 1);
            let d = Nat::u(cx.draw(4) as u128);
            let p = Nat::pow10(k);
            let r = if cx.bool() { p.add(&d) } else { p.sub(&d).unwrap_or(p) };
            if r.limbs() <= max { r } else { Nat::u(edge_u32(cx) as u128) }
        }
        4 => { // product of two
            let a = nlimbs(cx, (max / 2).max(1));
            let b = nlimbs(cx, (max / 2).max(1));
            nat_of(cx, a).mul(&nat_of(cx, b))
        }
        _ => { let n = nlimbs(cx, max); nat_of(cx, n) }
    }
}
pub fn nat_nz(cx: &mut Cx, max: usize) -> Nat {
    let n = nat(cx, max);
    if n.is_zero() { Nat::one() } else { n }
}
pub fn int(cx: &mut Cx, max: usize) -> Int { let m = nat(cx, max); let s = cx.bool(); Int::new(s, m) }
pub fn int_nz(cx: &mut Cx, max: usize) -> Int { let m = nat_nz(cx, max); let s = cx.bool(); Int::new(s, m) }

pub fn rat(cx: &mut Cx, max: usize) -> Rat {
    match cx.draw(8) {
        0 => Rat::i(cx.range(-20, 20) as i128),
        1 => { let d = cx.range(1, 30) as i128; let n = cx.range(-100, 100) as i128; Rat::frac(n, d) }
        2 => Rat::int(int(cx, max)),
        3 => { // dyadic / decimal
            let n = int(cx, max.min(4));
            let k = cx.range(0, 60);
            if cx.bool() { Rat::pow2(n, -k) } else { Rat::new(n, Int::nat(&Nat::pow10(k as u64))) }
        }
        4 => Rat::new(Int::i(edge_i32(cx) as i128), Int::i((edge_u32(cx) as i128).max(1))),
        _ => { let n = int(cx, max); let d = nat_nz(cx, max); Rat::new(n, Int::nat(&d)) }
    }
}
pub fn rat_nz(cx: &mut Cx, max: usize) -> Rat {
    let r = rat(cx, max);
    if r.is_zero() { Rat::one() } else { r }
}
/// modest rationals (numerator and denominator below 2^bits)
pub fn small_rat(cx: &mut Cx, lim: i64) -> Rat {
    let n = if cx.one_in(16) { word_in(cx, -lim, lim) } else { cx.range(-lim, lim) } as i128;
    let d = match cx.draw(3) { 0 => 1, 1 => cx.range(1, 12), _ => cx.range(1, lim) } as i128;
    Rat::frac(n, d)
}
