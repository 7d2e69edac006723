use crate::engine::*;
mod f192;
mod ints;
mod linalg;
mod misc;
mod ints2;
mod ratio;
mod ratio_text;
mod trans;

pub fn sub(name: &'static str, quick: u64, thorough: u64, f: CheckFn) -> Sub { Sub { name, quick, thorough, f, enumerated: false, slow: false } }
pub fn enumd(name: &'static str, n: u64, f: CheckFn) -> Sub { Sub { name, quick: n, thorough: n, f, enumerated: true, slow: false } }
pub fn slow(name: &'static str, n: u64, f: CheckFn) -> Sub { Sub { name, quick: n, thorough: n, f, enumerated: true, slow: true } }

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(ints::props());
    v.extend(ints2::props());
    v.extend(ratio::props());
    v.extend(ratio_text::props());
    v.extend(trans::props());
    v.extend(linalg::props());
    v.extend(f192::props());
    v.extend(misc::props());
    v
}
