//! C24..C28: matrices, determinants and inverses, polynomials, interpolation, complex numbers.
use super::ratio_text::{any_f32, any_f64, f32_value, f64_value, judge_rat, rat_literal, spread};
use super::{enumd, sub};
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::nat::{Int, Nat, Rat};
use hmath::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            rule: "matrices of 0..6 rows and columns with zero, integer, fractional and multi-limb entries; random histories of 3..12 in-place and pure operations over three matrix registers mirrored in a reference model, plus shape-mismatch cases; non-trivial = an operand with at least 4 entries and both dimensions above 1",
            assumptions: &["reference rationals in harness/src/nat.rs are correct"],
            subs: vec![
                sub("algebra", 240_000, 960_000, algebra),
                sub("construct", 240_000, 960_000, construct),
                sub("history", 80_000, 320_000, history),
                enumd("dimensions", 6 * 6 * 6 * 6, dimensions),
            ],
        },
        Prop {
            id: "C25",
            rule: "square matrices of size 0..6 (7 in the thorough tier): dense, sparse, triangular, permuted, singular by construction (repeated, combined or zero rows), nearly singular, with small, fractional and multi-limb entries; all 3^4 2x2 and 2^9 3x3 small matrices; non-trivial = size above 1 and not all entries zero",
            assumptions: &["oracle: exact Gaussian elimination over reference rationals"],
            subs: vec![
                sub("small", 120_000, 800_000, det_small),
                sub("large", 20_000, 100_000, det_large),
                sub("laws", 12_000, 80_000, det_laws),
                enumd("not_square", 49, not_square),
                enumd("grid2", 5 * 5 * 5 * 5, grid2),
                enumd("grid3", 19683, grid3),
            ],
        },
        Prop {
            id: "C26",
            rule: "polynomials of 0..9 coefficients with leading, inner and trailing zeros, unit and negative coefficients, evaluated at rationals; chains of operations; renderings compared with an independent renderer; non-trivial = at least 2 non-zero coefficients",
            assumptions: &["reference rationals in harness/src/nat.rs are correct"],
            subs: vec![
                sub("operations", 150_000, 2_000_000, poly_ops),
                sub("text", 150_000, 2_000_000, poly_text),
                sub("history", 60_000, 800_000, poly_history),
                enumd("small_text", 7 * 7 * 7 * 7, poly_grid),
            ],
        },
        Prop {
            id: "C27",
            rule: "1..6 points with distinct abscissas in random order (values on a lower-degree curve in a third of the cases), duplicated abscissas, Hermite data for two points including equal ones; non-trivial = at least two distinct abscissas",
            assumptions: &["oracle: exact evaluation of the returned coefficients with reference rationals; Lagrange interpolation for uniqueness"],
            subs: vec![
                sub("points", 45_000, 200_000, points),
                sub("hermite", 60_000, 300_000, hermite),
                sub("two_three", 120_000, 600_000, two_three),
                sub("duplicates", 45_000, 200_000, duplicates),
            ],
        },
        Prop {
            id: "C28",
            rule: "pairs of complex numbers with rational parts (zero, integer, fractional, multi-limb), 32-bit summands with both range ends, construction from words, texts and floats; histories of in-place additions; non-trivial = both parts non-zero",
            assumptions: &["reference rationals in harness/src/nat.rs are correct"],
            subs: vec![sub("addition", 1_000_000, 4_000_000, cx_add), sub("construct", 1_000_000, 4_000_000, cx_make)],
        },
    ]
}

// ---------------------------------------------------------------- matrices
#[derive(Clone, PartialEq, Debug)]
pub struct M { r: usize, c: usize, a: Vec<Vec<Rat>> }
impl M {
    fn zero(r: usize, c: usize) -> M { M { r, c, a: vec![vec![Rat::zero(); c]; r] } }
    fn id(n: usize) -> M { let mut m = M::zero(n, n); for i in 0..n { m.a[i][i] = Rat::one(); } m }
    fn add(&self, o: &M) -> Option<M> {
        if (self.r, self.c) != (o.r, o.c) { return None; }
        let mut m = self.clone();
        for i in 0..self.r { for j in 0..self.c { m.a[i][j] = m.a[i][j].add(&o.a[i][j]); } }
        Some(m)
    }
    fn scale(&self, k: &Rat) -> M { let mut m = self.clone(); for row in m.a.iter_mut() { for x in row.iter_mut() { *x = x.mul(k); } } m }
    fn mul(&self, o: &M) -> Option<M> {
        if self.c != o.r { return None; }
        let mut m = M::zero(self.r, o.c);
        for i in 0..self.r { for j in 0..o.c { for k in 0..self.c { m.a[i][j] = m.a[i][j].add(&self.a[i][k].mul(&o.a[k][j])); } } }
        Some(m)
    }
    fn t(&self) -> M { let mut m = M::zero(self.c, self.r); for i in 0..self.r { for j in 0..self.c { m.a[j][i] = self.a[i][j].clone(); } } m }
    /// determinant and inverse by Gaussian elimination
    fn det_inv(&self) -> (Rat, Option<M>) {
        let n = self.r;
        let (mut a, mut b) = (self.clone(), M::id(n));
        let mut det = Rat::one();
        for col in 0..n {
            let Some(p) = (col..n).find(|&i| !a.a[i][col].is_zero()) else { return (Rat::zero(), None) };
            if p != col { a.a.swap(p, col); b.a.swap(p, col); det = det.neg(); }
            let piv = a.a[col][col].clone();
            det = det.mul(&piv);
            let inv = piv.reci();
            for j in 0..n { a.a[col][j] = a.a[col][j].mul(&inv); b.a[col][j] = b.a[col][j].mul(&inv); }
            for i in 0..n {
                if i == col || a.a[i][col].is_zero() { continue; }
                let f = a.a[i][col].clone();
                for j in 0..n {
                    a.a[i][j] = a.a[i][j].sub(&a.a[col][j].mul(&f));
                    b.a[i][j] = b.a[i][j].sub(&b.a[col][j].mul(&f));
                }
            }
        }
        (det, Some(b))
    }
    fn data(&self) -> Vec<Vec<Ratio>> { self.a.iter().map(|r| r.iter().map(ra).collect()).collect() }
    fn mk(&self) -> Matrix { Matrix::from_raw(self.data(), self.c, self.r) }
}
fn ck_m(what: &str, got: &Matrix, want: &M) -> Result<(), String> {
    for i in 0..want.r { for j in 0..want.c { ck_r(&format!("{} entry ({},{})", what, i, j), got.get(i, j), &want.a[i][j])?; } }
    ensure(*got == want.mk(), || format!("{}[shape]: {:?} is not {} rows by {} columns", what, got.to_ratio_string(), want.r, want.c))?;
    eqv(&format!("{} is_square", what), got.is_square(), want.r == want.c)
}
fn entry(cx: &mut Cx) -> Rat {
    match cx.draw(8) {
        0 | 1 => Rat::zero(),
        2 | 3 => Rat::i(cx.range(-5, 5) as i128),
        4 => small_rat(cx, 20),
        5 => Rat::i(edge_i32(cx) as i128),
        6 => small_rat(cx, 1000),
        _ => rat(cx, 3),
    }
}
fn mat(cx: &mut Cx, r: usize, c: usize) -> M {
    let mut m = M::zero(r, c);
    let style = cx.draw(4);
    for i in 0..r { for j in 0..c { m.a[i][j] = match style { 0 => Rat::i(cx.range(-4, 4) as i128), 1 => small_rat(cx, 12), _ => entry(cx) }; } }
    m
}
fn nt_m(m: &M) -> bool { m.r > 1 && m.c > 1 }

fn algebra(cx: &mut Cx) -> Result<(), String> {
    let hi = if cx.one_in(100) { 14 } else { 5 };
    let (r, k, c) = (cx.usize(0, hi), cx.usize(0, hi), cx.usize(0, hi));
    let a = mat(cx, r, k);
    let b = mat(cx, r, k);
    let d = mat(cx, k, c);
    let s = entry(cx);
    cx.note(|| format!("a={:?} b={:?} d={:?} s={:?}", a, b, d, s));
    cx.nt(nt_m(&a));
    let (x, y, z) = (a.mk(), b.mk(), d.mk());
    let w = a.add(&b).unwrap();
    ck_m("add", &x.add(&y).map_err(|e| format!("add: {:?}", e))?, &w)?;
    let mut t = x.clone();
    t.add_mut(&y).map_err(|e| format!("add_mut: {:?}", e))?;
    ck_m("add_mut", &t, &w)?;
    ck_m("mul", &x.mul(&z).map_err(|e| format!("mul: {:?}", e))?, &a.mul(&d).unwrap())?;
    let w = a.scale(&s);
    ck_m("mul_k", &x.mul_k(ra(&s)), &w)?;
    let mut t = x.clone();
    t.mul_k_mut(ra(&s));
    ck_m("mul_k_mut", &t, &w)?;
    let i = edge_i32(cx);
    let w = a.scale(&Rat::i(i as i128));
    ck_m("mul_k word", &x.mul_k(i), &w)?;
    let mut t = x.clone();
    t.mul_k_mut(i);
    ck_m("mul_k_mut word", &t, &w)?;
    ck_m("transpose", &x.transpose(), &a.t())?;
    let mut t = x.clone();
    t.transpose_mut();
    ck_m("transpose_mut", &t, &a.t())?;
    ck_m("operand changed", &x, &a)?;
    ck_m("operand changed", &y, &b)?;
    eqv("equality", x == y, a == b)?;
    // identity is neutral
    ck_m("mul identity right", &x.mul(&Matrix::identity(k)).map_err(|e| format!("{:?}", e))?, &a)?;
    ck_m("mul identity left", &Matrix::identity(r).mul(&x).map_err(|e| format!("{:?}", e))?, &a)
}
fn construct(cx: &mut Cx) -> Result<(), String> {
    let hi = if cx.one_in(100) { 30 } else { 6 };
    let (r, c) = (cx.usize(0, hi), cx.usize(0, hi));
    let m = mat(cx, r, c);
    cx.note(|| format!("{:?}", m));
    cx.nt(nt_m(&m));
    let (mr, mc) = (m.r, if m.r == 0 { 0 } else { m.c });
    let vm = M { r: mr, c: mc, a: m.a.clone() };
    ck_m("from_vec", &Matrix::from_vec(m.data()).map_err(|e| format!("from_vec: {:?}", e))?, &vm)?;
    ck_m("from_vec_generic", &Matrix::from_vec_generic(m.data()).map_err(|e| format!("from_vec_generic: {:?}", e))?, &vm)?;
    let w: Vec<Vec<i32>> = (0..r).map(|_| (0..c).map(|_| edge_i32(cx)).collect()).collect();
    let wm = M { r: mr, c: mc, a: w.iter().map(|v| v.iter().map(|&n| Rat::i(n as i128)).collect()).collect() };
    ck_m("from_vec_generic words", &Matrix::from_vec_generic(w).map_err(|e| format!("{:?}", e))?, &wm)?;
    ck_m("generate", &Matrix::generate(c, r, |i, j| ra(&m.a[i][j])), &m)?;
    ck_m("zeros", &Matrix::zeros(c, r), &M::zero(r, c))?;
    ck_m("identity", &Matrix::identity(r), &M::id(r))?;
    ck_m("empty", &Matrix::empty(), &M::zero(0, 0))?;
    let x = m.mk();
    let want = format!("[{}]", m.a.iter().map(|row| format!("[{}]", row.iter().map(frac_text).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "));
    eqv("to_ratio_string", x.to_ratio_string(), want)?;
    if r > 0 && c > 0 {
        // writing one entry changes that entry only
        let (i, j) = (cx.usize(0, r - 1), cx.usize(0, c - 1));
        let v = entry(cx);
        let mut y = x.clone();
        *y.get_mut(i, j) = ra(&v);
        let mut w = m.clone();
        w.a[i][j] = v;
        ck_m("get_mut", &y, &w)?;
        ck_m("original after get_mut on a copy", &x, &m)?;
    }
    if r > 1 {
        // ragged input is refused
        let mut d = m.data();
        let i = cx.usize(1, r - 1);
        let i = if cx.bool() { i } else { 0 };
        if cx.bool() || c == 0 { d[i].push(Ratio::one()); } else { d[i].pop(); }
        match Matrix::from_vec(d.clone()) {
            Err(MatrixError::InconsistetRow) => {}
            o => return Err(format!("ragged rows: from_vec gave {:?}", o.map(|m| m.to_ratio_string()))),
        }
        match Matrix::from_vec_generic(d) {
            Err(MatrixError::InconsistetRow) => {}
            o => return Err(format!("ragged rows: from_vec_generic gave {:?}", o.map(|m| m.to_ratio_string()))),
        }
    }
    Ok(())
}
pub fn frac_text(r: &Rat) -> String { if r.d.is_one() { r.n.dec() } else { format!("{}/{}", r.n.dec(), r.d.dec()) } }

fn wrong_dim<T>(what: &str, r: Result<T, MatrixError>, expected: (usize, usize), got: (usize, usize)) -> Result<(), String> {
    match r {
        Err(MatrixError::WrongDimension { expected: e, got: g }) => {
            eqv(&format!("{} reported (columns, rows) needed", what), e, expected)?;
            eqv(&format!("{} reported (columns, rows) given", what), g, got)
        }
        Err(e) => Err(format!("{}: error {:?}", what, e)),
        Ok(_) => Err(format!("{}: mismatched dimensions accepted", what)),
    }
}
fn dimensions(cx: &mut Cx) -> Result<(), String> {
    let k = cx.case as usize;
    let (r1, c1, r2, c2) = (k % 6, k / 6 % 6, k / 36 % 6, k / 216);
    let f = |r: usize, c: usize, s: i128| M { r, c, a: (0..r).map(|i| (0..c).map(|j| Rat::i((i * c + j) as i128 + s)).collect()).collect() };
    let (a, b) = (f(r1, c1, 1), f(r2, c2, -7));
    cx.note(|| format!("{}x{} with {}x{}", r1, c1, r2, c2));
    cx.nt(nt_m(&a) && nt_m(&b));
    let (x, y) = (a.mk(), b.mk());
    match a.add(&b) {
        Some(w) => ck_m("add", &x.add(&y).map_err(|e| format!("add: {:?}", e))?, &w)?,
        None => {
            wrong_dim("add", x.add(&y), (c1, r1), (c2, r2))?;
            let mut t = x.clone();
            wrong_dim("add_mut", t.add_mut(&y), (c1, r1), (c2, r2))?;
            ck_m("operand after a refused add_mut", &t, &a)?;
        }
    }
    match a.mul(&b) {
        Some(w) => ck_m("mul", &x.mul(&y).map_err(|e| format!("mul: {:?}", e))?, &w)?,
        None => wrong_dim("mul", x.mul(&y), (c2, c1), (c2, r2))?,
    }
    if r1 != c1 {
        match x.determinant() { Err(MatrixError::NotSquare(c, r)) if (c, r) == (c1, r1) => {} o => return Err(format!("determinant of a non-square matrix: {:?}", o.map(|r| r.to_ratio_string()))) }
        match x.inverse() { Err(MatrixError::NotSquare(c, r)) if (c, r) == (c1, r1) => {} o => return Err(format!("inverse of a non-square matrix: {:?}", o.map(|r| r.to_ratio_string()))) }
    }
    Ok(())
}
fn history(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(1, 3);
    let mut m: Vec<M> = (0..3).map(|_| mat(cx, n, n)).collect();
    if cx.bool() { let c = cx.usize(1, 4); m[2] = mat(cx, n, c); }
    let mut x: Vec<Matrix> = m.iter().map(|a| a.mk()).collect();
    let steps = if cx.one_in(50) { cx.usize(12, 80) } else { cx.usize(3, 12) };
    for _ in 0..steps {
        let (i, j) = (cx.usize(0, 2), cx.usize(0, 2));
        let op = cx.draw(7);
        cx.note(|| format!("op {} on {} {}", op, i, j));
        match op {
            0 => {
                let y = x[j].clone();
                let r = x[i].add_mut(&y);
                match m[i].add(&m[j].clone()) {
                    Some(w) => { r.map_err(|e| format!("add_mut: {:?}", e))?; m[i] = w; }
                    None => ensure(r.is_err(), || "add_mut accepted mismatched dimensions".into())?,
                }
            }
            1 => { let k = small_rat(cx, 9); x[i].mul_k_mut(ra(&k)); m[i] = m[i].scale(&k); }
            2 => { x[i].transpose_mut(); m[i] = m[i].t(); }
            3 => {
                let r = x[i].mul(&x[j]);
                match m[i].mul(&m[j]) {
                    Some(w) => { x[i] = r.map_err(|e| format!("mul: {:?}", e))?; m[i] = w; }
                    None => ensure(r.is_err(), || "mul accepted mismatched dimensions".into())?,
                }
            }
            4 => {
                if m[i].r == 0 || m[i].c == 0 { continue; }
                let (a, b) = (cx.usize(0, m[i].r - 1), cx.usize(0, m[i].c - 1));
                let v = entry(cx);
                *x[i].get_mut(a, b) = ra(&v);
                m[i].a[a][b] = v;
            }
            5 => { x[i] = x[j].clone(); m[i] = m[j].clone(); }
            _ => {
                if m[i].r != m[i].c { continue; }
                let (d, inv) = m[i].det_inv();
                ck_r("determinant", &x[i].determinant().map_err(|e| format!("{:?}", e))?, &d)?;
                match (x[i].inverse(), inv) {
                    (Ok(y), Some(w)) => { x[i] = y; m[i] = w; }
                    (Err(MatrixError::ZeroDeterminant), None) => {}
                    (r, w) => return Err(format!("inverse: {:?}, expected {:?}", r.map(|m| m.to_ratio_string()), w)),
                }
            }
        }
        for k in 0..3 { ck_m("register", &x[k], &m[k])?; eqv("equality of registers", x[i] == x[k], m[i] == m[k])?; }
        // keep the numbers small
        let big = m[i].a.iter().flatten().any(|v| v.n.mag.limbs() > 12 || v.d.limbs() > 12);
        if big { let (r, c) = (m[i].r, m[i].c); m[i] = mat(cx, r, c); x[i] = m[i].mk(); }
    }
    cx.nt(n > 1);
    Ok(())
}

// ---------------------------------------------------------------- determinants
fn square(cx: &mut Cx, n: usize, big: bool) -> M {
    let mut m = M::zero(n, n);
    let style = cx.draw(8);
    for i in 0..n {
        for j in 0..n {
            m.a[i][j] = match style {
                0 | 1 => Rat::i(cx.range(-3, 3) as i128),
                2 => small_rat(cx, 9),
                3 => if i > j { Rat::zero() } else { small_rat(cx, 9) },
                4 => if cx.draw(3) != 0 { Rat::zero() } else { Rat::i(cx.range(-9, 9) as i128) },
                5 => Rat::frac(1, (i + j + 1) as i128),
                6 if big => rat(cx, 4),
                _ => Rat::i(cx.range(-99, 99) as i128),
            };
        }
    }
    if n > 1 && cx.draw(3) == 0 {
        // make it (nearly) singular
        let (i, j) = (cx.usize(0, n - 1), cx.usize(0, n - 1));
        let k = small_rat(cx, 5);
        if i != j {
            let src = m.a[j].clone();
            for c in 0..n { m.a[i][c] = src[c].mul(&k); }
            if n > 2 && cx.bool() {
                let l = (0..n).find(|l| *l != i && *l != j).unwrap();
                let src = m.a[l].clone();
                for c in 0..n { m.a[i][c] = m.a[i][c].add(&src[c]); }
            }
            if cx.draw(3) == 0 { let c = cx.usize(0, n - 1); m.a[i][c] = m.a[i][c].add(&Rat::i(1)); }
        }
    }
    if n > 1 && cx.bool() { let (i, j) = (cx.usize(0, n - 1), cx.usize(0, n - 1)); m.a.swap(i, j); }
    if n > 0 && cx.bool() { m = m.t(); }
    m
}
fn ck_det(m: &M) -> Result<(), String> {
    let x = m.mk();
    if m.r == 0 {
        eqv("determinant of the empty matrix", x.determinant().err(), Some(MatrixError::EmptyMatrix))?;
        return eqv("inverse of the empty matrix", x.inverse().err(), Some(MatrixError::EmptyMatrix));
    }
    let (d, inv) = m.det_inv();
    ck_r("determinant", &x.determinant().map_err(|e| format!("determinant: {:?}", e))?, &d)?;
    match m.r {
        2 => ck_r("determinant_2_by_2", &x.determinant_2_by_2(), &d)?,
        3 => ck_r("determinant_3_by_3", &x.determinant_3_by_3(), &d)?,
        4 => ck_r("determinant_4_by_4", &x.determinant_4_by_4(), &d)?,
        _ => {}
    }
    match (x.inverse(), inv) {
        (Ok(y), Some(w)) => ck_m("inverse", &y, &w)?,
        (Err(MatrixError::ZeroDeterminant), None) => {}
        (r, w) => return Err(format!("inverse: {:?}, expected {:?}", r.map(|m| m.to_ratio_string()), w)),
    }
    ck_m("operand changed", &x, m)
}
fn det_small(cx: &mut Cx) -> Result<(), String> {
    let n = *cx.pick(&[0, 1, 1, 2, 2, 3, 3, 3, 4, 4]);
    let m = square(cx, n, true);
    cx.note(|| format!("{:?}", m));
    cx.nt(n > 1 && m.a.iter().flatten().any(|v| !v.is_zero()));
    ck_det(&m)
}
fn det_large(cx: &mut Cx) -> Result<(), String> {
    let n = if cx.one_in(60) { if cx.one_in(10) { 8 } else { 7 } } else if cx.one_in(6) { 6 } else { 5 };
    let m = square(cx, n, false);
    cx.note(|| format!("{:?}", m));
    cx.nt(true);
    if n >= 8 {
        let (d, _) = m.det_inv();
        return ck_r("determinant", &m.mk().determinant().map_err(|e| format!("{:?}", e))?, &d);
    }
    ck_det(&m)
}
/// determinant laws on the implementation's own products
fn det_laws(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(1, 4);
    let (a, b) = (square(cx, n, false), square(cx, n, false));
    cx.note(|| format!("a={:?} b={:?}", a, b));
    cx.nt(n > 1);
    let e = |e: MatrixError| format!("{:?}", e);
    let (x, y) = (a.mk(), b.mk());
    let (dx, dy) = (x.determinant().map_err(e)?, y.determinant().map_err(e)?);
    ensure(x.mul(&y).map_err(e)?.determinant().map_err(e)? == dx.mul(&dy), || "det(ab) != det(a)det(b)".into())?;
    ensure(x.transpose().determinant().map_err(e)? == dx, || "det of the transpose differs".into())?;
    match x.inverse() {
        Ok(i) => {
            ensure(x.mul(&i).map_err(e)? == Matrix::identity(n), || "a * inverse(a) is not the identity".into())?;
            ensure(i.mul(&x).map_err(e)? == Matrix::identity(n), || "inverse(a) * a is not the identity".into())?;
            ensure(i.inverse().map_err(e)? == x, || "inverse of the inverse differs".into())
        }
        Err(er) => ensure(er == MatrixError::ZeroDeterminant && dx.is_zero(), || format!("inverse refused with {:?} although the determinant is {}", er, dx.to_ratio_string())),
    }
}
fn not_square(cx: &mut Cx) -> Result<(), String> {
    let (r, c) = (cx.case as usize % 7, cx.case as usize / 7);
    cx.note(|| format!("{} rows, {} columns", r, c));
    cx.nt(r != c);
    if r == c { return Ok(()); }
    let x = M { r, c, a: (0..r).map(|i| (0..c).map(|j| Rat::i((i * i + 3 * j) as i128 + 1)).collect()).collect() }.mk();
    match x.determinant() { Err(MatrixError::NotSquare(..)) => {} o => return Err(format!("determinant of a non-square matrix: {:?}", o.map(|r| r.to_ratio_string()))) }
    match x.inverse() { Err(MatrixError::NotSquare(..)) => Ok(()), o => Err(format!("inverse of a non-square matrix: {:?}", o.map(|r| r.to_ratio_string()))) }
}
fn grid2(cx: &mut Cx) -> Result<(), String> {
    let mut k = cx.case as i128;
    let mut m = M::zero(2, 2);
    for i in 0..4 { m.a[i / 2][i % 2] = Rat::frac(k % 5 - 2, 1 + (i as i128) % 2); k /= 5; }
    cx.note(|| format!("{:?}", m));
    cx.nt(m.a.iter().flatten().any(|v| !v.is_zero()));
    ck_det(&m)
}
fn grid3(cx: &mut Cx) -> Result<(), String> {
    let mut k = cx.case as i128;
    let mut m = M::zero(3, 3);
    for i in 0..9 { m.a[i / 3][i % 3] = Rat::i(k % 3 - 1); k /= 3; }
    cx.note(|| format!("{:?}", m));
    cx.nt(m.a.iter().flatten().any(|v| !v.is_zero()));
    ck_det(&m)
}

// ---------------------------------------------------------------- polynomials
/// highest power first, no leading zeros, [0] for zero
fn canon(v: &[Rat]) -> Vec<Rat> {
    let i = v.iter().position(|c| !c.is_zero());
    match i { Some(i) => v[i..].to_vec(), None => vec![Rat::zero()] }
}
fn eval(p: &[Rat], x: &Rat) -> Rat {
    // sum of powers, not Horner
    let mut pow = Rat::one();
    let mut s = Rat::zero();
    for c in p.iter().rev() { s = s.add(&c.mul(&pow)); pow = pow.mul(x); }
    s
}
fn diff(p: &[Rat]) -> Vec<Rat> {
    let n = p.len();
    canon(&(0..n.saturating_sub(1)).map(|i| p[i].mul(&Rat::i((n - 1 - i) as i128))).collect::<Vec<_>>())
}
fn pol(p: &[Rat]) -> Polynomial { Polynomial::from_vec(p.iter().map(ra).collect()) }
fn ck_p(what: &str, got: &Polynomial, want: &[Rat]) -> Result<(), String> {
    let w = canon(want);
    let g = got.to_vec();
    if g.len() != w.len() { return Err(format!("{}: coefficients {:?}, expected {:?}", what, g.iter().map(|r| r.to_ratio_string()).collect::<Vec<_>>(), w)); }
    for (i, (a, b)) in g.iter().zip(w.iter()).enumerate() { ck_r(&format!("{} coefficient {}", what, i), a, b)?; }
    Ok(())
}
fn coeffs(cx: &mut Cx, max: usize) -> Vec<Rat> {
    let n = cx.usize(0, max);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match cx.draw(7) { 0 | 1 => Rat::zero(), 2 => Rat::i(cx.range(-1, 1) as i128), 3 => Rat::i(cx.range(-9, 9) as i128), 4 => small_rat(cx, 30), 5 => Rat::i(edge_i32(cx) as i128), _ => rat(cx, 3) });
    }
    v
}
fn nt_p(v: &[Rat]) -> bool { v.iter().filter(|c| !c.is_zero()).count() >= 2 }
fn poly_ops(cx: &mut Cx) -> Result<(), String> {
    let deg = if cx.one_in(100) { 80 } else { 9 };
    let v = coeffs(cx, deg);
    let x = match cx.draw(3) { 0 => Rat::i(cx.range(-3, 3) as i128), 1 => small_rat(cx, 20), _ => rat(cx, 2) };
    let k = entry(cx);
    cx.note(|| format!("p={:?} x={:?} k={:?}", v, x, k));
    cx.nt(nt_p(&v));
    let p = pol(&v);
    ck_p("from_vec", &p, &v)?;
    let g = Polynomial::from_vec_generic(v.iter().map(ra).collect::<Vec<_>>());
    ck_p("from_vec_generic", &g, &v)?;
    ensure(p == g, || "the two constructors give unequal polynomials".into())?;
    let words: Vec<i32> = (0..cx.usize(0, 5)).map(|_| if cx.bool() { 0 } else { edge_i32(cx) }).collect();
    ck_p("from_vec_generic words", &Polynomial::from_vec_generic(words.clone()), &words.iter().map(|k| Rat::i(*k as i128)).collect::<Vec<_>>())?;
    ck_r("calc", &p.calc(&ra(&x)), &eval(&v, &x))?;
    let w: Vec<Rat> = v.iter().map(|c| c.mul(&k)).collect();
    ck_p("mul_k", &p.mul_k(ra(&k)), &w)?;
    let mut t = p.clone();
    t.mul_k_mut(ra(&k));
    ck_p("mul_k_mut", &t, &w)?;
    let i = cx.range(-3, 3) as i32;
    let w: Vec<Rat> = v.iter().map(|c| c.mul(&Rat::i(i as i128))).collect();
    ck_p("mul_k word", &p.mul_k(i), &w)?;
    let mut t = p.clone();
    t.mul_k_mut(i);
    ck_p("mul_k_mut word", &t, &w)?;
    let d = diff(&canon(&v));
    ck_p("differentiate", &p.differentiate(), &d)?;
    let mut t = p.clone();
    t.differentiate_mut();
    ck_p("differentiate_mut", &t, &d)?;
    ck_p("operand changed", &p, &v)?;
    // x - f(x) / f'(x)
    let fp = eval(&d, &x);
    let prime = Some(pol(&d));
    if fp.is_zero() {
        must_panic("newton_method at a zero of the derivative", || p.newton_method(&ra(&x), &None))?;
    } else {
        let w = x.sub(&eval(&v, &x).div(&fp));
        ck_r("newton_method", &p.newton_method(&ra(&x), &None), &w)?;
        ck_r("newton_method with given derivative", &p.newton_method(&ra(&x), &prime), &w)?;
        // a different "derivative" is taken as given
        let q = coeffs(cx, 3);
        let qx = eval(&q, &x);
        if !qx.is_zero() { ck_r("newton_method with supplied polynomial", &p.newton_method(&ra(&x), &Some(pol(&q))), &x.sub(&eval(&v, &x).div(&qx)))?; }
    }
    Ok(())
}
fn poly_string(v: &[Rat], coef: impl Fn(&Rat) -> String) -> String {
    let v = canon(v);
    let n = v.len();
    let mut s = String::new();
    for (i, c) in v.iter().enumerate() {
        let e = n - 1 - i;
        if c.is_zero() { continue; }
        let sign = match (s.is_empty(), c.is_neg()) { (true, false) => "", (true, true) => "-", (false, false) => " + ", (false, true) => " - " };
        s += sign;
        let a = c.abs();
        let var = match e { 0 => String::new(), 1 => "x".into(), e => format!("x^{}", e) };
        if a == Rat::one() && e > 0 { s += &var; } else { s += &coef(&a); if e > 0 { s += " * "; s += &var; } }
    }
    if s.is_empty() { "0".into() } else { s }
}
fn poly_text(cx: &mut Cx) -> Result<(), String> {
    let deg = if cx.one_in(100) { 120 } else { 12 };
    let mut v = coeffs(cx, deg);
    if cx.one_in(8) { for _ in 0..cx.usize(0, 8) { v.push(Rat::zero()); } v.push(entry(cx)); }
    cx.note(|| format!("{:?}", v));
    cx.nt(nt_p(&v));
    let p = pol(&v);
    eqv("to_ratio_string", p.to_ratio_string(), poly_string(&v, frac_text))?;
    let len = cx.usize(4, 30);
    eqv("to_approx_string", p.to_approx_string(len), poly_string(&v, |r| ra(r).to_approx_string(len)))?;
    // float coefficients: nearest values
    let fs: Vec<f32> = (0..cx.usize(1, 5)).map(|_| any_f32(cx)).filter(|f| f.is_finite()).collect();
    let vals: Vec<Rat> = fs.iter().map(|f| f32_value(*f)).collect();
    let want: Vec<Rat> = canon(&vals);
    let got: Vec<Rat> = pol(&vals).to_vec_f32().into_iter().map(f32_value).collect();
    eqv("to_vec_f32", got, want)?;
    let fs: Vec<f64> = (0..cx.usize(1, 5)).map(|_| any_f64(cx)).filter(|f| f.is_finite()).collect();
    let vals: Vec<Rat> = fs.iter().map(|f| f64_value(*f)).collect();
    let want: Vec<Rat> = canon(&vals);
    let got: Vec<Rat> = pol(&vals).to_vec_f64().into_iter().map(f64_value).collect();
    eqv("to_vec_f64", got, want)?;
    // arbitrary coefficients: no neighbouring float is closer
    let near: Vec<Rat> = canon(&(0..cx.usize(1, 3)).map(|_| match cx.draw(3) { 0 => Rat::zero(), 1 => small_rat(cx, 1000), _ => rat(cx, 2) }).collect::<Vec<_>>());
    cx.note(|| format!("{:?}", near));
    let q = pol(&near);
    let (g, h) = (q.to_vec_f32(), q.to_vec_f64());
    ensure(g.len() == near.len() && h.len() == near.len(), || format!("{} and {} floats for {} coefficients", g.len(), h.len(), near.len()))?;
    for (i, a) in near.iter().enumerate() {
        let m = a.abs();
        let (f, d) = (g[i], h[i]);
        let (bf, bd) = (f.abs().to_bits(), d.abs().to_bits());
        ensure(f.is_finite() && d.is_finite() && (f == 0.0 || (f < 0.0) == a.is_neg()) && (d == 0.0 || (d < 0.0) == a.is_neg()), || format!("float form of {:?}: {:e} {:e}", a, f, d))?;
        let ef = f32_value(f.abs()).sub(&m).abs();
        for b in [bf + 1, bf.saturating_sub(1)] { ensure(ef <= f32_value(f32::from_bits(b)).sub(&m).abs(), || format!("to_vec_f32[not nearest]: {:?} as {:e}", a, f))?; }
        let ed = f64_value(d.abs()).sub(&m).abs();
        for b in [bd + 1, bd.saturating_sub(1)] { ensure(ed <= f64_value(f64::from_bits(b)).sub(&m).abs(), || format!("to_vec_f64[not nearest]: {:?} as {:e}", a, d))?; }
    }
    Ok(())
}
fn poly_grid(cx: &mut Cx) -> Result<(), String> {
    let mut k = cx.case as usize;
    let vals = [Rat::zero(), Rat::one(), Rat::i(-1), Rat::i(2), Rat::i(-3), Rat::frac(1, 2), Rat::frac(-7, 3)];
    let mut v = vec![];
    for _ in 0..4 { v.push(vals[k % 7].clone()); k /= 7; }
    cx.note(|| format!("{:?}", v));
    cx.nt(nt_p(&v));
    let p = pol(&v);
    eqv("to_ratio_string", p.to_ratio_string(), poly_string(&v, frac_text))?;
    ck_p("differentiate", &p.differentiate(), &diff(&canon(&v)))
}
fn poly_history(cx: &mut Cx) -> Result<(), String> {
    let mut m = canon(&coeffs(cx, 8));
    cx.nt(nt_p(&m));
    let mut p = if cx.bool() { pol(&m) } else { Polynomial::from_vec_generic(m.iter().map(ra).collect::<Vec<_>>()) };
    let n = if cx.one_in(50) { cx.usize(10, 100) } else { cx.usize(2, 10) };
    for _ in 0..n {
        let op = cx.draw(5);
        cx.note(|| format!("op {} on {:?}", op, m));
        match op {
            0 => { p.differentiate_mut(); m = diff(&m); }
            1 => { p = p.differentiate(); m = diff(&m); }
            2 => { let k = small_rat(cx, 6); p.mul_k_mut(ra(&k)); m = canon(&m.iter().map(|c| c.mul(&k)).collect::<Vec<_>>()); }
            3 => { let k = small_rat(cx, 6); p = p.mul_k(ra(&k)); m = canon(&m.iter().map(|c| c.mul(&k)).collect::<Vec<_>>()); }
            _ => { let x = small_rat(cx, 9); ck_r("calc", &p.calc(&ra(&x)), &eval(&m, &x))?; }
        }
        ck_p("register", &p, &m)?;
        ensure(p == pol(&m), || "equal polynomials compare unequal".into())?;
        if m.len() == 1 && cx.bool() { m = canon(&coeffs(cx, 8)); p = pol(&m); }
    }
    Ok(())
}

// ---------------------------------------------------------------- interpolation
/// the polynomial of degree below n through n points with distinct abscissas
fn lagrange(pts: &[(Rat, Rat)]) -> Vec<Rat> {
    let n = pts.len();
    let mut sum = vec![Rat::zero(); n]; // lowest first
    for i in 0..n {
        let mut b = vec![Rat::one()];
        let mut den = Rat::one();
        for j in 0..n {
            if i == j { continue; }
            den = den.mul(&pts[i].0.sub(&pts[j].0));
            let mut nb = vec![Rat::zero(); b.len() + 1];
            for (k, c) in b.iter().enumerate() { nb[k + 1] = nb[k + 1].add(c); nb[k] = nb[k].sub(&c.mul(&pts[j].0)); }
            b = nb;
        }
        let f = pts[i].1.div(&den);
        for (k, c) in b.iter().enumerate() { sum[k] = sum[k].add(&c.mul(&f)); }
    }
    sum.reverse();
    canon(&sum)
}
fn abscissa(cx: &mut Cx) -> Rat { match cx.draw(4) { 0 => Rat::i(cx.range(-4, 4) as i128), 1 => small_rat(cx, 12), 2 => Rat::i(cx.range(-2000, 2000) as i128), _ => small_rat(cx, 300) } }
fn distinct_points(cx: &mut Cx, n: usize) -> Vec<(Rat, Rat)> {
    let curve = if cx.draw(3) == 0 { Some(coeffs(cx, 4)) } else { None };
    let mut v: Vec<(Rat, Rat)> = vec![];
    while v.len() < n {
        let mut x = abscissa(cx);
        while v.iter().any(|p| p.0 == x) { x = x.add(&Rat::one()); }
        let y = match &curve { Some(c) => eval(c, &x), None => match cx.draw(3) { 0 => Rat::zero(), 1 => Rat::i(cx.range(-9, 9) as i128), _ => small_rat(cx, 50) } };
        v.push((x, y));
    }
    v
}
fn points(cx: &mut Cx) -> Result<(), String> {
    let n = *cx.pick(&[1, 2, 2, 3, 3, 4, 4, 5]);
    let n = if cx.one_in(60) { if cx.one_in(20) { 7 } else { 6 } } else { n };
    let pts = distinct_points(cx, n);
    cx.note(|| format!("{:?}", pts));
    cx.nt(n >= 2);
    let w = lagrange(&pts);
    let e = |e: MatrixError| format!("refused: {:?}", e);
    let r = from_points(pts.iter().map(|(x, y)| (ra(x), ra(y))).collect()).map_err(e)?;
    ck_p("from_points", &r, &w)?;
    let r = from_points_generic(pts.iter().map(|(x, y)| (ra(x), ra(y))).collect::<Vec<_>>()).map_err(e)?;
    ck_p("from_points_generic", &r, &w)?;
    for (x, y) in pts.iter() { ck_r("value at a given point", &r.calc(&ra(x)), y)?; }
    Ok(())
}
fn hermite(cx: &mut Cx) -> Result<(), String> {
    let a = abscissa(cx);
    let b = if cx.draw(6) == 0 { a.clone() } else { abscissa(cx) };
    let v: Vec<Rat> = if cx.draw(3) == 0 {
        // data of a polynomial of low degree
        let c = coeffs(cx, 4);
        let d = diff(&canon(&c));
        vec![eval(&c, &a), eval(&c, &b), eval(&d, &a), eval(&d, &b)]
    } else { (0..4).map(|_| small_rat(cx, 40)).collect() };
    cx.note(|| format!("a={:?} b={:?} v={:?}", a, b, v));
    cx.nt(a != b);
    let p = cubic_2_points(&ra(&a), &ra(&b), &ra(&v[0]), &ra(&v[1]), &ra(&v[2]), &ra(&v[3]));
    let c: Vec<Rat> = p.to_vec().iter().map(|r| r_ra("coefficient", r)).collect::<Result<_, _>>()?;
    ensure(c.len() <= if a == b { 2 } else { 4 }, || format!("degree {} too high", c.len() - 1))?;
    ck_p("cubic_2_points leading zeros", &p, &c)?;
    let d = diff(&c);
    eqv("f(a)", eval(&c, &a), v[0].clone())?;
    eqv("f'(a)", eval(&d, &a), v[2].clone())?;
    if a != b {
        eqv("f(b)", eval(&c, &b), v[1].clone())?;
        eqv("f'(b)", eval(&d, &b), v[3].clone())?;
    }
    Ok(())
}
fn two_three(cx: &mut Cx) -> Result<(), String> {
    let pts = distinct_points(cx, 3);
    cx.note(|| format!("{:?}", pts));
    cx.nt(true);
    let p: Vec<(Ratio, Ratio)> = pts.iter().map(|(x, y)| (ra(x), ra(y))).collect();
    ck_p("quadratic_3_points", &quadratic_3_points(&p[0].0, &p[1].0, &p[2].0, &p[0].1, &p[1].1, &p[2].1), &lagrange(&pts))?;
    ck_p("linear_2_points", &linear_2_points(&p[0].0, &p[1].0, &p[0].1, &p[1].1), &lagrange(&pts[..2]))?;
    ck_p("linear_2_points with equal abscissas", &linear_2_points(&p[0].0, &p[0].0, &p[0].1, &p[1].1), &[pts[0].1.clone()])
}
fn duplicates(cx: &mut Cx) -> Result<(), String> {
    let n = cx.usize(1, 4);
    let mut pts = distinct_points(cx, n);
    let k = cx.usize(0, n - 1);
    let y = if cx.bool() { pts[k].1.clone() } else { small_rat(cx, 9) };
    let at = cx.usize(0, n);
    let x = pts[k].0.clone();
    pts.insert(at, (x, y));
    cx.note(|| format!("{:?}", pts));
    cx.nt(n >= 2);
    let p: Vec<(Ratio, Ratio)> = pts.iter().map(|(x, y)| (ra(x), ra(y))).collect();
    match from_points(p.clone()) {
        Err(MatrixError::ZeroDeterminant) => {}
        r => return Err(format!("repeated abscissa: {:?}", r.map(|p| p.to_ratio_string()))),
    }
    if n <= 2 {
        // 2 or 3 points with one repeated abscissa: one of the contradicting values is ignored
        while pts.len() < 3 { let q = pts[cx.usize(0, pts.len() - 1)].clone(); pts.push(q); }
        let p: Vec<(Ratio, Ratio)> = pts.iter().map(|(x, y)| (ra(x), ra(y))).collect();
        let q = quadratic_3_points(&p[0].0, &p[1].0, &p[2].0, &p[0].1, &p[1].1, &p[2].1);
        let c: Vec<Rat> = q.to_vec().iter().map(|r| r_ra("coefficient", r)).collect::<Result<_, _>>()?;
        ensure(c.len() <= 2, || "degree too high for at most two distinct abscissas".into())?;
        for (x, _) in pts.iter() {
            let v = eval(&c, x);
            ensure(pts.iter().any(|(a, b)| a == x && *b == v), || format!("value {:?} at {:?} is none of the given ones", v, x))?;
        }
    }
    if n == 1 {
        let empty: Vec<(Ratio, Ratio)> = vec![];
        ensure(from_points(empty).is_err(), || "no points accepted".into())?;
    }
    Ok(())
}

// ---------------------------------------------------------------- complex numbers
fn part(cx: &mut Cx) -> Rat { match cx.draw(4) { 0 => Rat::zero(), 1 => small_rat(cx, 30), 2 => spread(cx), _ => rat(cx, 4) } }
fn ck_c(what: &str, z: &Complex, re: &Rat, im: &Rat) -> Result<(), String> {
    ck_r(&format!("{} real part", what), z.real(), re)?;
    ck_r(&format!("{} imaginary part", what), z.imaginary(), im)
}
fn cx_add(cx: &mut Cx) -> Result<(), String> {
    let (a, b) = (part(cx), part(cx));
    let (mut c, mut d) = (part(cx), part(cx));
    if cx.draw(5) == 0 { c = a.neg(); }
    if cx.draw(5) == 0 { d = b.neg(); }
    cx.note(|| format!("{:?}+{:?}i and {:?}+{:?}i", a, b, c, d));
    cx.nt(!a.is_zero() && !b.is_zero());
    let x = Complex::from_real_and_imag(ra(&a), ra(&b));
    let y = Complex::from_real_and_imag(ra(&c), ra(&d));
    ck_c("from_real_and_imag", &x, &a, &b)?;
    ck_c("add", &x.add(&y), &a.add(&c), &b.add(&d))?;
    ck_c("add swapped", &y.add(&x), &a.add(&c), &b.add(&d))?;
    ck_c("operand", &x, &a, &b)?;
    ck_c("operand", &y, &c, &d)?;
    let mut z = Complex::from_real_and_imag(ra(&a), ra(&b));
    let (mut re, mut im) = (a.clone(), b.clone());
    for _ in 0..cx.usize(1, 6) {
        match cx.draw(3) {
            0 => { z.add_mut(&y); re = re.add(&c); im = im.add(&d); }
            1 => { let k = edge_i32(cx); z.add_i32_mut(k); re = re.add(&Rat::i(k as i128)); }
            _ => { let k = edge_i32(cx); let old = (re.clone(), im.clone()); let n = z.add_i32(k); ck_c("operand of add_i32", &z, &old.0, &old.1)?; z = n; re = re.add(&Rat::i(k as i128)); }
        }
        ck_c("after an addition", &z, &re, &im)?;
    }
    Ok(())
}
fn cx_make(cx: &mut Cx) -> Result<(), String> {
    let (i, j) = (edge_i32(cx), edge_u32(cx));
    let k = edge_i128(cx);
    cx.note(|| format!("{} {} {}", i, j, k));
    cx.nt(i != 0 && j != 0);
    let (ri, rj, rk) = (Rat::i(i as i128), Rat::i(j as i128), Rat::int(Int::i(k)));
    ck_c("from words", &Complex::from_real_and_imag(i, j), &ri, &rj)?;
    ck_c("from words", &Complex::from_real_and_imag(k, i), &rk, &ri)?;
    let n = int(cx, 5);
    ck_c("from integers", &Complex::from_real_and_imag(bi(&n), ub(&Nat::u(j as u128))), &Rat::int(n.clone()), &rj)?;
    // fallible construction: floats and texts
    let (f, g) = (any_f64(cx), any_f32(cx));
    cx.note(|| format!("{:?} {:?}", f, g));
    let z = Complex::try_from_real_and_imag(f, g);
    if f.is_finite() && g.is_finite() {
        ck_c("from floats", &z.map_err(|e| format!("from floats: {:?}", e))?, &f64_value(f), &f32_value(g))?;
    } else if let Ok(_) = z { return Err("a non-finite float was accepted".into()); }
    let s = rat_literal(cx);
    cx.note(|| format!("{:?}", s));
    let z = Complex::try_from_real_and_imag(s.clone(), g);
    match judge_rat(&s) {
        Some(Some(v)) if g.is_finite() => ck_c("from text and float", &z.map_err(|e| format!("from text: {:?}", e))?, &v, &f32_value(g)),
        Some(None) => ensure(z.is_err(), || format!("malformed text {:?} accepted", s)),
        _ => Ok(()),
    }
}
