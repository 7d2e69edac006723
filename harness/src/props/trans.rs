//! C21..C23: constants and elementary functions of rationals.
use super::{enumd, sub};
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::nat::{Int, Nat, Rat};
use crate::real::R;
use hmath::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "every permitted iteration count of pi (0..254) and ln 2 (0..199), e for 0..399, and the three pre-computed constants, against Machin/atanh/factorial series at 3400 bits; non-trivial = at least one iteration",
            assumptions: &["fixed-point reference in harness/src/real.rs (validated against mpmath)"],
            subs: vec![enumd("pi", 255, c_pi), enumd("ln2", 200, c_ln2), enumd("e", 400, c_e), enumd("constants", 3, c_const)],
        },
        Prop {
            id: "C22",
            rule: "arguments over magnitudes 2^-600..2^600 (roots: up to 20 limbs, perfect squares and cubes included), iteration counts 0..20 (roots 0..8); result compared with a 600..900-bit reference under the error bound of the property; non-trivial = argument not an integer or iteration count at least 2",
            assumptions: &["fixed-point reference in harness/src/real.rs (validated against mpmath)", "error bounds as written in the property statement"],
            subs: vec![
                sub("sqrt", 200_000, 2_000_000, t_sqrt),
                sub("cbrt", 12_000, 150_000, t_cbrt),
                sub("exp", 15_000, 150_000, t_exp),
                sub("ln", 15_000, 150_000, t_ln),
                sub("sqrt_many", 2_000, 20_000, t_sqrt_many),
                sub("exp_many", 600, 6_000, t_exp_many),
                sub("ln_many", 200, 6_000, t_ln_many),
                sub("log", 3_000, 30_000, t_log),
                sub("pow", 2_500, 25_000, t_pow),
                sub("domain", 2_000, 20_000, t_domain),
            ],
        },
        Prop {
            id: "C23",
            rule: "angles in every octant up to about 10^18 radians, near multiples of pi/4, tiny and zero; inverse functions over their whole convergence range with both signs and reciprocals; iteration counts 1..8 (inverse: 0..40); non-trivial = the angle needs argument reduction, or |x| > 1/10 for the inverse functions",
            assumptions: &["fixed-point reference in harness/src/real.rs (validated against mpmath)", "error bounds as written in the property statement"],
            subs: vec![
                sub("sin", 5_000, 80_000, t_sin),
                sub("cos", 5_000, 80_000, t_cos),
                sub("tan", 1_500, 25_000, t_tan),
                sub("asin", 8_000, 120_000, t_asin),
                sub("large_angles", 300, 10_000, t_large_angles),
                sub("trig_many", 400, 3_000, t_trig_many),
                sub("atan_many", 120, 4_000, t_atan_many),
                sub("asin_many", 1, 12, t_asin_many),
                sub("atan", 8_000, 120_000, t_atan),
                sub("domain", 2_000, 20_000, a_domain),
            ],
        },
    ]
}
const P21: R = R { p: 3400 };
fn fact(n: u64) -> Nat { let mut r = Nat::one(); for i in 2..=n { r = r.mul_u(i as u32); } r }
/// |got - want| <= tol where want has an error below 2^-(p-8)
fn close(what: &str, r: R, got: &Rat, want: &Int, tol: &Rat) -> Result<(), String> {
    let err = got.sub(&r.val(want)).abs();
    let slack = Rat::pow2(Int::one(), 8 - r.p as i64);
    if err > tol.add(&slack) {
        return Err(format!("{}[accuracy]: error {:e}, allowed {:e}", what, err.to_f64_approx(), tol.to_f64_approx()));
    }
    Ok(())
}
fn c_pi(cx: &mut Cx) -> Result<(), String> {
    let k = cx.case;
    cx.note(|| format!("pi_iter({})", k));
    cx.nt(k > 0);
    let v = r_ra("pi_iter", &pi_iter(k as usize))?;
    close("pi_iter", P21, &v, &P21.pi(), &Rat::pow2(Int::one(), -8 * (k as i64 + 1) - 3))?;
    if k == 7 { ensure(pi_const() == pi_iter(7), || "pi constant".into())?; }
    Ok(())
}
fn c_ln2(cx: &mut Cx) -> Result<(), String> {
    let k = cx.case;
    cx.note(|| format!("ln2_iter({})", k));
    cx.nt(k > 0);
    let v = r_ra("ln2_iter", &ln2_iter(k as usize))?;
    close("ln2_iter", P21, &v, &P21.ln2(), &Rat::pow2(Int::one(), -6 * (k as i64 + 2) - 3))
}
fn c_e(cx: &mut Cx) -> Result<(), String> {
    let k = cx.case;
    cx.note(|| format!("e_iter({})", k));
    cx.nt(k > 0);
    let v = r_ra("e_iter", &e_iter(k as usize))?;
    close("e_iter", P21, &v, &P21.e(), &Rat::new(Int::i(2), Int::nat(&fact(k + 20))))
}
fn c_const(cx: &mut Cx) -> Result<(), String> {
    let i = cx.case;
    cx.note(|| format!("constant {}", i));
    cx.nt(true);
    let (g, w, n) = match i { 0 => (pi_const(), P21.pi(), "pi"), 1 => (e_const(), P21.e(), "e"), _ => (ln2_const(), P21.ln2(), "ln2") };
    let v = r_ra(n, &g)?;
    close(n, P21, &v, &w, &Rat::pow2(Int::one(), -64))
}

fn mag_rat(cx: &mut Cx) -> Rat {
    match cx.draw(8) {
        6 => { // powers: magnitudes up to about 2^600 on a short base
            let (n, d) = (cx.range(1, 12), cx.range(1, 12));
            let k = cx.range(-160, 160);
            Rat::frac(n as i128, d as i128).pow(k)
        }
        7 => { // any two sizes
            let (a, b) = (cx.usize(1, 8), cx.usize(1, 8));
            let n = nat_nz(cx, a);
            let d = nat_nz(cx, b);
            Rat::new(Int::nat(&n), Int::nat(&d))
        }
        0 => Rat::i(cx.range(1, 2000) as i128),
        1 => { let d = cx.range(1, 300) as i128; Rat::frac(cx.range(1, 300) as i128, d) }
        2 => { // near a power of two
            let k = cx.range(-40, 40);
            let e = cx.range(3, 60);
            let b = Rat::pow2(Int::one(), k);
            let d = Rat::pow2(Int::one(), k - e);
            match cx.draw(3) { 0 => b, 1 => b.add(&d), _ => b.sub(&d) }
        }
        3 => { let n = cx.draw(1 << 40) + 1; let d = cx.draw(1 << 40) + 1; Rat::frac(n as i128, d as i128) }
        4 => { let k = cx.range(-12, 12); Rat::frac(cx.range(1, 99999) as i128, 1).mul(&Rat::pow10(k)) }
        _ => { let n = cx.range(1, 1000); let k = cx.range(-60, 60); Rat::pow2(Int::i(n as i128), k) }
    }
}
fn signed(cx: &mut Cx, r: Rat) -> Rat { if cx.bool() { r.neg() } else { r } }

fn t_sqrt(cx: &mut Cx) -> Result<(), String> {
    let mut a = match cx.draw(4) { 0 => { let r = rat(cx, 3).abs(); r.mul(&r) } 1 => mag_rat(cx), _ => rat(cx, 6).abs() };
    if cx.draw(4) == 0 { a = a.neg(); }
    let it = cx.usize(0, 8);
    cx.note(|| format!("sqrt_iter({:?}, {})", a, it));
    cx.nt(!a.d.is_one() || it >= 2);
    ck_sqrt(&a, it)
}
fn ck_sqrt(a: &Rat, it: usize) -> Result<(), String> {
    let v = r_ra("sqrt_iter", &sqrt_iter(&ra(a), it))?;
    ensure(!v.is_neg(), || format!("[sign] sqrt({:?}) = {:?}", a, v))?;
    // |v/sqrt|a| - 1| <= eps  <=>  |a|(1-eps)^2 <= v^2 <= |a|(1+eps)^2
    let eps = Rat::pow2(Int::one(), 2 - 16 * (it as i64 + 1));
    let m = a.abs();
    let (lo, hi) = (Rat::one().sub(&eps), Rat::one().add(&eps));
    let v2 = v.mul(&v);
    ensure(v2 >= m.mul(&lo.mul(&lo)) && v2 <= m.mul(&hi.mul(&hi)), || format!("[accuracy] sqrt({:?}) = {:?}", a, v))
}
fn t_sqrt_many(cx: &mut Cx) -> Result<(), String> {
    let mut a = match cx.draw(3) { 0 => { let r = rat(cx, 3).abs(); r.mul(&r) } 1 => mag_rat(cx), _ => rat(cx, 20).abs() };
    if cx.draw(4) == 0 { a = a.neg(); }
    let it = cx.usize(9, 60);
    cx.note(|| format!("sqrt_iter({:?}, {})", a, it));
    cx.nt(true);
    ck_sqrt(&a, it)
}
fn t_cbrt(cx: &mut Cx) -> Result<(), String> {
    let a = match cx.draw(4) { 0 => { let r = rat(cx, 2).abs(); r.mul(&r).mul(&r) } 1 => mag_rat(cx), _ => { let m = up(cx, 4, 24); rat(cx, m).abs() } };
    let a = signed(cx, a);
    let it = cx.usize(0, 5);
    cx.note(|| format!("cbrt_iter({:?}, {})", a, it));
    cx.nt(!a.d.is_one() || it >= 2);
    let v = r_ra("cbrt_iter", &cbrt_iter(&ra(&a), it))?;
    if a.is_zero() { return ensure(v.is_zero(), || format!("[zero] {:?}", v)); }
    eqv("sign", v.is_neg(), a.is_neg())?;
    let eps = Rat::pow2(Int::one(), -(8 << it));
    let (lo, hi) = (Rat::one().sub(&eps), Rat::one().add(&eps));
    let q = v.pow(3).div(&a);
    ensure(q >= lo.pow(3) && q <= hi.pow(3), || format!("[accuracy] cbrt({:?}) after {}: relative error {:e}", a, it, q.sub(&Rat::one()).abs().to_f64_approx() / 3.0))
}
/// relative error allowed for exp_iter(x, n)
fn exp_bound(x: &Rat, n: u64) -> Rat {
    let f = x.sub(&Rat::int(x.trunc())).abs();
    let f = Rat::new(f.mul(&Rat::pow2(Int::one(), 40)).floor().add(&Int::one()), Int::one().shl(40)); // rounded up to 40 bits
    let t = f.pow(n as i64 + 1).mul(&Rat::new(Int::i(4), Int::nat(&fact(n + 1))));
    let m = x.trunc().abs().add(&Int::i(2));
    t.add(&Rat::new(m.mul(&Int::i(2)), Int::nat(&fact(n + 20))))
}
fn t_exp(cx: &mut Cx) -> Result<(), String> {
    let x = match cx.draw(4) {
        0 => { let d = cx.range(1, 200) as i128; Rat::frac(cx.range(-30 * d as i64, 30 * d as i64) as i128, d) }
        1 => if cx.one_in(40) { Rat::frac(cx.range(-6000, 6000) as i128, 8) } else { Rat::i(cx.range(-60, 60) as i128) },
        2 => { let d = Rat::frac(cx.range(-1000, 1000) as i128, 10_000); Rat::i(cx.range(-20, 20) as i128).add(&d) }
        _ => { let e = cx.range(1, 60); let n = cx.range(-999, 999); Rat::pow2(Int::i(n as i128), -e) }
    };
    let it = cx.usize(0, 20);
    ck_exp(cx, x, it, 600)
}
/// many iterations, short arguments
fn t_exp_many(cx: &mut Cx) -> Result<(), String> {
    let d = cx.range(1, 40) as i128;
    let x = Rat::frac(cx.range(-6 * d as i64, 6 * d as i64) as i128, d);
    let it = cx.usize(21, 160);
    ck_exp(cx, x, it, 1800)
}
fn ck_exp(cx: &mut Cx, x: Rat, it: usize, p: u64) -> Result<(), String> {
    cx.note(|| format!("exp_iter({:?}, {})", x, it));
    cx.nt(!x.d.is_one() && it >= 2);
    let v = r_ra("exp_iter", &exp_iter(&ra(&x), it))?;
    let r = R { p };
    let w = r.exp_rat(&x);
    let err = v.sub(&w).abs();
    let tol = exp_bound(&x, it as u64).add(&Rat::pow2(Int::one(), 40 - p as i64)).mul(&w);
    ensure(err <= tol, || format!("exp_iter[accuracy]: relative error {:e}, allowed {:e}", err.div(&w).to_f64_approx(), tol.div(&w).to_f64_approx()))
}
/// absolute error allowed for ln_iter(x, n): x = 2^k (1+a)
fn ln_bound(x: &Rat, n: u64) -> Rat {
    let mut k = x.ilog2();
    let mut m = x.mul(&Rat::pow2(Int::one(), -k)).sub(&Rat::one()); // [0,1)
    // the binary logarithm is truncated toward zero, so values below one use (1/2, 1]; next to a power of two
    // the approximate logarithm may land on either side, so both are allowed there
    let t = Rat::pow2(Int::one(), -24);
    if x < &Rat::one() && !m.is_zero() || Rat::one().sub(&m) < t { k += 1; m = Rat::one().sub(&m).mul(&Rat::frac(1, 2)); if Rat::one().sub(&m.mul(&Rat::i(2))) < t || m < t { m = Rat::frac(1, 1); } }
    let m = Rat::new(m.mul(&Rat::pow2(Int::one(), 40)).floor().add(&Int::one()), Int::one().shl(40));
    let s = m.pow(2 * n as i64 + 2).mul(&Rat::frac(4, 2 * n as i128 + 2));
    s.add(&Rat::pow2(Int::i(k.abs() as i128), -6 * (n as i64 + 2) - 3))
}
fn t_ln(cx: &mut Cx) -> Result<(), String> {
    let x = mag_rat(cx);
    let it = if x.n.mag.limbs() + x.d.limbs() > 4 { cx.usize(0, 6) } else { cx.usize(0, 14) };
    cx.note(|| format!("ln_iter({:?}, {})", x, it));
    cx.nt(!x.d.is_one() || it >= 2);
    let v = r_ra("ln_iter", &ln_iter(&ra(&x), it))?;
    let r = R { p: 600 };
    close("ln_iter", r, &v, &r.ln(&x), &ln_bound(&x, it as u64))
}
fn t_ln_many(cx: &mut Cx) -> Result<(), String> {
    let x = if cx.bool() { Rat::i(cx.range(1, 3000) as i128) } else { let d = cx.range(1, 60) as i128; Rat::frac(cx.range(1, 300) as i128, d) };
    let it = cx.usize(15, 150);
    cx.note(|| format!("ln_iter({:?}, {})", x, it));
    cx.nt(true);
    let v = r_ra("ln_iter", &ln_iter(&ra(&x), it))?;
    let r = R { p: 1600 };
    close("ln_iter", r, &v, &r.ln(&x), &ln_bound(&x, it as u64))
}
fn t_log(cx: &mut Cx) -> Result<(), String> {
    let b = match cx.draw(3) { 0 => Rat::i(cx.range(2, 60) as i128), 1 => Rat::frac(1, cx.range(2, 60) as i128), _ => { let d = cx.range(1, 30) as i128; Rat::frac(cx.range(1, 90) as i128, d) } };
    let x = match cx.draw(2) { 0 => Rat::i(cx.range(1, 5000) as i128), _ => { let d = cx.range(1, 90) as i128; Rat::frac(cx.range(1, 90) as i128, d) } };
    if b == Rat::one() { return Ok(()); }
    let it = cx.usize(3, 9);
    cx.note(|| format!("log_iter({:?}, {:?}, {})", b, x, it));
    let r = R { p: 600 };
    let (lb, lx) = (r.val(&r.ln(&b)), r.val(&r.ln(&x)));
    let (eb, ex) = (ln_bound(&b, it as u64), ln_bound(&x, it as u64));
    if eb.mul(&Rat::i(2)) >= lb.abs() { cx.label("base too close to one"); return Ok(()); }
    cx.nt(true);
    let v = r_ra("log_iter", &log_iter(&ra(&b), &ra(&x), it))?;
    let w = lx.div(&lb);
    let tol = ex.add(&w.abs().mul(&eb)).div(&lb.abs().sub(&eb)).add(&Rat::pow2(Int::one(), -500));
    let err = v.sub(&w).abs();
    ensure(err <= tol, || format!("log_iter[accuracy]: error {:e}, allowed {:e}", err.to_f64_approx(), tol.to_f64_approx()))
}
fn t_pow(cx: &mut Cx) -> Result<(), String> {
    let a = match cx.draw(2) { 0 => Rat::i(cx.range(0, 200) as i128), _ => { let d = cx.range(1, 40) as i128; Rat::frac(cx.range(1, 90) as i128, d) } };
    let b = match cx.draw(2) { 0 => Rat::i(cx.range(-6, 6) as i128), _ => { let d = cx.range(1, 9) as i128; Rat::frac(cx.range(-20, 20) as i128, d) } };
    let it = cx.usize(2, 6);
    cx.note(|| format!("pow_iter({:?}, {:?}, {})", a, b, it));
    if a.is_zero() { let v = r_ra("pow_iter", &pow_iter(&ra(&a), &ra(&b), it))?; return ensure(v.is_zero(), || format!("0^b = {:?}", v)); }
    let r = R { p: 400 };
    let y = b.mul(&r.val(&r.ln(&a)));
    let eb = b.abs().mul(&ln_bound(&a, it as u64));
    if eb > Rat::frac(1, 4) { cx.label("logarithm too coarse"); return Ok(()); }
    cx.nt(true);
    let v = r_ra("pow_iter", &pow_iter(&ra(&a), &ra(&b), it))?;
    let w = r.exp_rat(&y);
    // exponent off by eb, which can also move it across an integer: the series bound is taken for a full unit
    let unit = Rat::new(Int::i(4), Int::nat(&fact(it as u64 + 1)));
    let m = y.trunc().abs().add(&Int::i(4));
    let tol = eb.mul(&Rat::frac(3, 2)).add(&unit.mul(&Rat::frac(3, 2))).add(&Rat::new(m.mul(&Int::i(2)), Int::nat(&fact(it as u64 + 20)))).mul(&w).add(&Rat::pow2(Int::one(), -300));
    let err = v.sub(&w).abs();
    ensure(err <= tol, || format!("pow_iter[accuracy]: relative error {:e}, allowed {:e}", err.div(&w).to_f64_approx(), tol.div(&w).to_f64_approx()))
}
fn t_domain(cx: &mut Cx) -> Result<(), String> {
    let a = mag_rat(cx).neg();
    let it = cx.usize(1, 4);
    cx.note(|| format!("a={:?}", a));
    cx.nt(true);
    must_panic("ln of a negative number", || ln_iter(&ra(&a), it))?;
    must_panic("ln of zero", || ln_iter(&Ratio::zero(), it))?;
    must_panic("log of a negative number", || log_iter(&Ratio::from_i32(2), &ra(&a), it))?;
    must_panic("log with a negative base", || log_iter(&ra(&a), &Ratio::from_i32(2), it))?;
    must_panic("negative number to a power", || pow_iter(&ra(&a), &Ratio::from_denom_and_numer_i32(2, 1), it))
}

fn iters(cx: &mut Cx, lo: usize, mid: usize, hi: usize) -> usize { if cx.draw(6) == 5 { cx.usize(mid, hi) } else { cx.usize(lo, mid) } }
fn angle(cx: &mut Cx) -> Rat {
    let r = match cx.draw(6) {
        0 => { let d = cx.range(1, 100) as i128; Rat::frac(cx.range(0, 800) as i128, d) }
        1 | 2 => { // near a multiple of pi/4
            let m = if cx.draw(4) == 0 { cx.range(0, 2000) } else { cx.range(0, 16) };
            let p = R { p: 60 };
            let b = p.val(&p.pi()).mul(&Rat::frac(m as i128, 4));
            let e = cx.range(2, 50);
            let n = cx.range(-9, 9);
            // short denominators
            let v = b.add(&Rat::pow2(Int::i(n as i128), -e));
            let den = 1i128 << cx.range(4, 50);
            Rat::new(v.mul(&Rat::i(den)).floor(), Int::i(den))
        }
        3 => Rat::i(cx.range(0, 40) as i128),
        4 => { let e = cx.range(3, 80); let n = cx.range(1, 99); Rat::pow2(Int::i(n as i128), -e) }
        _ => { let d = cx.range(1, 5000) as i128; let k = cx.range(0, 40); Rat::frac(cx.range(0, 4_000_000) as i128, d).mul(&Rat::pow2(Int::one(), (k - 24).max(0))) }
    };
    signed(cx, r)
}
/// absolute error allowed for sin_iter/cos_iter(x, n)
fn trig_bound(x: &Rat, n: u64) -> Rat {
    let half_turns = x.abs().mul(&Rat::frac(2, 3)).floor().add(&Int::one());
    let red = Rat::int(half_turns).mul(&Rat::pow2(Int::one(), -8 * (n as i64 + 1) - 3));
    let red = if x.abs() < Rat::frac(3, 4) { Rat::zero() } else { red };
    let t = x.abs().min(Rat::frac(4, 5));
    let t = Rat::new(t.mul(&Rat::pow2(Int::one(), 90)).floor().add(&Int::one()), Int::one().shl(90));
    red.add(&t.pow(4 * n as i64 + 4).mul(&Rat::new(Int::i(2), Int::nat(&fact(4 * n + 4)))))
}
fn t_sin(cx: &mut Cx) -> Result<(), String> {
    let x = angle(cx);
    let it = iters(cx, 1, 3, 8);
    cx.note(|| format!("sin_iter({:?}, {})", x, it));
    cx.nt(x.abs() > Rat::frac(4, 5));
    let v = r_ra("sin_iter", &sin_iter(&ra(&x), it))?;
    let r = R { p: 900 };
    // small arguments keep their relative accuracy
    let rel = if x.abs() < Rat::frac(3, 4) { x.abs() } else { Rat::one() };
    close("sin_iter", r, &v, &r.sincos(&x).0, &trig_bound(&x, it as u64).mul(&rel))
}
fn t_cos(cx: &mut Cx) -> Result<(), String> {
    let x = angle(cx);
    let it = iters(cx, 1, 3, 8);
    cx.note(|| format!("cos_iter({:?}, {})", x, it));
    cx.nt(x.abs() > Rat::frac(4, 5));
    let v = r_ra("cos_iter", &cos_iter(&ra(&x), it))?;
    let r = R { p: 900 };
    close("cos_iter", r, &v, &r.sincos(&x).1, &trig_bound(&x, it as u64))
}
/// angles of very many turns, with enough iterations for a meaningful bound
fn t_large_angles(cx: &mut Cx) -> Result<(), String> {
    let k = cx.range(12, 60);
    let d = if cx.bool() { 1 } else { cx.range(2, 9) };
    let m = match cx.draw(3) { 0 => word(cx) as i128 & ((1 << k) - 1), 1 => (1i128 << k) + cx.range(-3, 3) as i128, _ => cx.draw(1 << k) as i128 };
    let x = signed(cx, Rat::frac(m, d as i128));
    let it = ((k + 12) / 8).max(2) as usize + cx.usize(0, 1);
    cx.note(|| format!("sin_iter/cos_iter({:?}, {})", x, it));
    cx.nt(m > 1000);
    let r = R { p: 900 };
    let (s, c) = r.sincos(&x);
    let b = trig_bound(&x, it as u64);
    let rel = if x.abs() < Rat::frac(3, 4) { x.abs() } else { Rat::one() };
    if cx.bool() { close("sin_iter", r, &r_ra("sin_iter", &sin_iter(&ra(&x), it))?, &s, &b.mul(&rel)) } else { close("cos_iter", r, &r_ra("cos_iter", &cos_iter(&ra(&x), it))?, &c, &b) }
}
/// many iterations, short arguments
fn t_trig_many(cx: &mut Cx) -> Result<(), String> {
    let d = cx.range(1, 20) as i128;
    // without argument reduction (the reduced argument is a long fraction)
    let x = Rat::frac(cx.range(-d as i64, d as i64) as i128 * 7, d * 10);
    let it = cx.usize(9, 60);
    cx.note(|| format!("sin_iter/cos_iter({:?}, {})", x, it));
    cx.nt(!x.is_zero());
    let r = R { p: 2200 };
    let (s, c) = r.sincos(&x);
    let rel = if x.abs() < Rat::frac(3, 4) { x.abs() } else { Rat::one() };
    let v = r_ra("sin_iter", &sin_iter(&ra(&x), it))?;
    close("sin_iter", r, &v, &s, &trig_bound(&x, it as u64).mul(&rel))?;
    let v = r_ra("cos_iter", &cos_iter(&ra(&x), it))?;
    close("cos_iter", r, &v, &c, &trig_bound(&x, it as u64))
}
fn t_tan(cx: &mut Cx) -> Result<(), String> {
    let x = angle(cx);
    let it = iters(cx, 1, 3, 6);
    cx.note(|| format!("tan_iter({:?}, {})", x, it));
    let r = R { p: 900 };
    let (s, c) = r.sincos(&x);
    let (s, c) = (r.val(&s), r.val(&c));
    let e = trig_bound(&x, it as u64);
    if c.abs() <= e.mul(&Rat::i(4)) { cx.label("pole"); return Ok(()); }
    cx.nt(x.abs() > Rat::frac(4, 5));
    let v = r_ra("tan_iter", &tan_iter(&ra(&x), it))?;
    let w = s.div(&c);
    let tol = e.mul(&Rat::one().add(&w.abs())).div(&c.abs().sub(&e)).add(&Rat::pow2(Int::one(), -800));
    let err = v.sub(&w).abs();
    ensure(err <= tol, || format!("tan_iter[accuracy]: error {:e}, allowed {:e}", err.to_f64_approx(), tol.to_f64_approx()))
}
fn up40(x: &Rat) -> Rat { Rat::new(x.mul(&Rat::pow2(Int::one(), 40)).floor().add(&Int::one()), Int::one().shl(40)) }
fn t_asin(cx: &mut Cx) -> Result<(), String> {
    let q = match cx.draw(3) { 0 => cx.range(1, 20), 1 => 100, _ => cx.range(1, 1 << 20) } as i128;
    let n = (cx.draw(q as u64 + 1) as i128 * 97) / 100;
    let x = signed(cx, Rat::frac(n, q));
    let it = iters(cx, 0, 8, 30);
    cx.note(|| format!("asin_iter({:?}, {})", x, it));
    cx.nt(x.abs() > Rat::frac(1, 10));
    let r = R { p: 900 };
    let w = r.asin(&x);
    let m = x.abs();
    let tail = up40(&m).pow(2 * it as i64 + 5).div(&Rat::one().sub(&m.mul(&m))).div(&Rat::i((2 * it as i128 + 5) * 2));
    let v = r_ra("asin_iter", &asin_iter(&ra(&x), it))?;
    close("asin_iter", r, &v, &w, &tail)?;
    let pe = Rat::pow2(Int::one(), -8 * (it as i64 + 1) - 3);
    let v = r_ra("acos_iter", &acos_iter(&ra(&x), it))?;
    close("acos_iter", r, &v, &r.pi().shr_floor(1).sub(&w), &tail.add(&pe))
}
/// many iterations: the series coefficients leave the 32-bit range
fn t_asin_many(cx: &mut Cx) -> Result<(), String> {
    let it = cx.usize(640, 700);
    let x = Rat::frac(1, 2);
    cx.note(|| format!("asin_iter({:?}, {})", x, it));
    cx.nt(true);
    let r = R { p: 1500 };
    let v = r_ra("asin_iter", &asin_iter(&ra(&x), it))?;
    close("asin_iter", r, &v, &r.asin(&x), &x.pow(2 * it as i64 + 5))
}
fn t_atan(cx: &mut Cx) -> Result<(), String> {
    let x = match cx.draw(4) {
        0 => { let d = cx.range(1, 60) as i128; Rat::frac(cx.range(0, 60) as i128, d) }
        1 => Rat::i(cx.range(0, 3000) as i128),
        2 => { let e = cx.range(1, 40); let n = cx.range(1, 99); Rat::pow2(Int::i(n as i128), -e) }
        _ => { let d = cx.range(1, 1 << 20) as i128; Rat::frac(cx.range(0, 1 << 21) as i128, d) }
    };
    let x = signed(cx, x);
    let it = iters(cx, 0, 8, 30);
    ck_atan(cx, x, it, 900)
}
/// many iterations, short arguments
fn t_atan_many(cx: &mut Cx) -> Result<(), String> {
    let d = cx.range(1, 12) as i128;
    let x = Rat::frac(cx.range(0, 12) as i128, d);
    let x = signed(cx, x);
    let it = cx.usize(31, 250);
    ck_atan(cx, x, it, 2200)
}
fn ck_atan(cx: &mut Cx, x: Rat, it: usize, p: u64) -> Result<(), String> {
    cx.note(|| format!("atan_iter({:?}, {})", x, it));
    cx.nt(x.abs() > Rat::frac(1, 10));
    let r = R { p };
    let big = x.abs() > Rat::one();
    let t = if big { x.abs().reci() } else { x.abs() };
    let mut tol = up40(&t).pow(4 * it as i64 + 5).div(&Rat::i(4 * it as i128 + 5)).mul(&Rat::frac(11, 10));
    if big { tol = tol.add(&Rat::pow2(Int::one(), -8 * (it as i64 + 1) - 3)); }
    let v = r_ra("atan_iter", &atan_iter(&ra(&x), it))?;
    close("atan_iter", r, &v, &r.atan(&x), &tol)
}
fn a_domain(cx: &mut Cx) -> Result<(), String> {
    let e = cx.range(0, 60);
    let x = signed(cx, Rat::one());
    let x = if x.is_neg() { x.sub(&Rat::pow2(Int::one(), -e)) } else { x.add(&Rat::pow2(Int::one(), -e)) };
    cx.note(|| format!("x={:?}", x));
    cx.nt(true);
    let it = cx.usize(0, 5);
    must_panic("asin outside [-1,1]", || asin_iter(&ra(&x), it))?;
    must_panic("acos outside [-1,1]", || acos_iter(&ra(&x), it))
}
