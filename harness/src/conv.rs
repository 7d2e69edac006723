use crate::nat::{Int, Nat, Rat};
use hmath::*;

pub fn ub(n: &Nat) -> UBigInt { UBigInt::from_raw(n.raw()) }
pub fn bi(n: &Int) -> BigInt { BigInt::from_raw(n.mag.raw(), n.neg) }
pub fn ra(r: &Rat) -> Ratio { Ratio::from_raw(r.d.raw(), false, r.n.mag.raw(), r.n.neg) }

/// value of raw limbs (canonical or not)
pub fn val(v: &[u32]) -> Nat { Nat::from_limbs(v.to_vec()) }

/// exact value AND canonical representation of an unsigned integer
pub fn ck_u(what: &str, got: &UBigInt, want: &Nat) -> Result<(), String> {
    let raw = got.clone().into_raw();
    if raw == want.raw() { return Ok(()); }
    if val(&raw) == *want {
        return Err(format!("{}[not canonical]: limbs {:?} for {:?}", what, raw, want));
    }
    Err(format!("{}[wrong value]: got {:?}, expected {:?}", what, val(&raw), want))
}
pub fn ck_b(what: &str, got: &BigInt, want: &Int) -> Result<(), String> {
    let (raw, neg) = got.clone().into_raw();
    if raw == want.mag.raw() && neg == want.neg { return Ok(()); }
    let v = Int::new(neg, val(&raw));
    if v == *want {
        return Err(format!("{}[not canonical]: limbs {:?} neg {} for {:?}", what, raw, neg, want));
    }
    Err(format!("{}[wrong value]: got {:?}, expected {:?}", what, v, want))
}
pub fn ck_r(what: &str, got: &Ratio, want: &Rat) -> Result<(), String> {
    let (d, dn, n, nn) = got.clone().into_raw();
    if d == want.d.raw() && !dn && n == want.n.mag.raw() && nn == want.n.neg { return Ok(()); }
    let (dv, nv) = (Int::new(dn, val(&d)), Int::new(nn, val(&n)));
    if dv.is_zero() { return Err(format!("{}[zero denominator]: {:?}/0, expected {:?}", what, nv, want)); }
    if Rat::new(nv.clone(), dv.clone()) == *want {
        return Err(format!("{}[not canonical]: {:?}/{:?} for {:?}", what, nv, dv, want));
    }
    Err(format!("{}[wrong value]: got {:?}/{:?}, expected {:?}", what, nv, dv, want))
}
pub fn r_ub(x: &UBigInt) -> Nat { val(&x.clone().into_raw()) }
pub fn r_bi(x: &BigInt) -> Int { let (v, n) = x.clone().into_raw(); Int::new(n, val(&v)) }
/// value of a Ratio; Err when the representation is not the canonical one
pub fn r_ra(what: &str, x: &Ratio) -> Result<Rat, String> {
    let (d, dn, n, nn) = x.clone().into_raw();
    let (dv, nv) = (Int::new(dn, val(&d)), Int::new(nn, val(&n)));
    if dv.is_zero() { return Err(format!("{}[zero denominator]: numerator {:?}", what, nv)); }
    let r = Rat::new(nv.clone(), dv.clone());
    if d == r.d.raw() && !dn && n == r.n.mag.raw() && nn == r.n.neg { Ok(r) } else { Err(format!("{}[not canonical]: {:?}/{:?}", what, nv, dv)) }
}
pub fn ensure(ok: bool, f: impl FnOnce() -> String) -> Result<(), String> { if ok { Ok(()) } else { Err(f()) } }
pub fn eqv<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}
/// the call must panic (documented refusal)
pub fn must_panic<T: std::fmt::Debug>(what: &str, f: impl FnOnce() -> T) -> Result<(), String> {
    match crate::engine::catch(f) {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("{}[no panic]: returned {:?}", what, v)),
    }
}
