// Roots of floating-point polynomials of degree at most two.
use crate::api::*;
use rustnomial::*;
use std::collections::BTreeMap;

/// Zero, or a magnitude between 2^-100 and 2^100: the products below neither overflow nor underflow.
fn coef() -> f64 {
    let v = f64::any();
    let m = v.abs();
    assume(v == 0.0 || (m >= 7.888609052210118e-31 && m <= 1.2676506002282294e30));
    v
}
/// A stored zero of either sign stands for the same absent term.
fn plain(v: f64) -> f64 {
    if v == 0.0 {
        0.0
    } else {
        v
    }
}
fn zero() -> f64 {
    let v = f64::any();
    assume(v == 0.0);
    v
}
/// What the roots of c[2] x^2 + c[1] x + c[0] have to be, the larger real root first.
fn expect(r: Roots<f64>, c: [f64; 3]) {
    let [c0, c1, c2] = c;
    let terms = (c0 != 0.0) as u32 + (c1 != 0.0) as u32 + (c2 != 0.0) as u32;
    if terms == 0 {
        check(matches!(r, Roots::InfiniteRoots), 1);
    } else if terms == 1 && c0 != 0.0 {
        check(matches!(r, Roots::NoRoots), 2);
    } else if terms == 1 {
        match r {
            Roots::ManyRealRoots(v) => check((v.len() == 1) && v[0] == 0.0, 3),
            _ => check(false, 4),
        }
    } else if c2 == 0.0 {
        match r {
            Roots::ManyRealRoots(v) => check((v.len() == 1) && same(v[0], -c0 / c1), 5),
            _ => check(false, 6),
        }
        cover(2);
    } else {
        match r {
            Roots::ManyRealRoots(v) => {
                check(v.len() == 2, 7);
                real(c, v[0], v[1]);
                cover(3);
            }
            Roots::ManyComplexRoots(v) => {
                check(v.len() == 2, 8);
                complex(c, v[0].re, v[0].im, v[1].re, v[1].im);
                cover(4);
            }
            _ => check(false, 9),
        }
    }
}
fn same(a: f64, b: f64) -> bool {
    (a.to_bits() == b.to_bits()) | (a == b)
}
/// Three spellings of the same value, so that one of them is the very term the code built.
fn magnitudes(d: f64) -> [f64; 3] {
    [d.abs().sqrt(), if d >= 0.0 { d.sqrt() } else { (-d).sqrt() }, if d >= 0.0 { d.sqrt() } else { (0.0 - d).sqrt() }]
}
fn real(c: [f64; 3], x: f64, y: f64) {
    let [c0, c1, c2] = c;
    let d = c1 * c1 - c2 * c0 * 4.0;
    check(d >= 0.0, 10);
    let a = c2 * 2.0;
    if d == 0.0 {
        let m = -c1 / a;
        check(same(x, m) & same(y, m), 11);
    } else {
        let mut ok = false;
        for s in magnitudes(d) {
            // the pair of the quadratic formula, the larger first
            let (p, m) = ((-c1 + s) / a, (-c1 - s) / a);
            ok |= ((c2 > 0.0) & same(x, p) & same(y, m)) | ((c2 < 0.0) & same(x, m) & same(y, p));
        }
        check(ok, 12);
    }
}
fn complex(c: [f64; 3], xr: f64, xi: f64, yr: f64, yi: f64) {
    let [c0, c1, c2] = c;
    let d = c1 * c1 - c2 * c0 * 4.0;
    check(!(d >= 0.0), 13);
    let a = c2 * 2.0;
    let m = -c1 / a;
    check(same(xr, m) & same(yr, m), 14);
    let mut ok = false;
    for s in magnitudes(d) {
        let s = s / a;
        ok |= (same(xi, s) & same(yi, -s)) | (same(xi, -s) & same(yi, s));
    }
    check(ok, 15);
}

/// param: stored length, stored leading zeros
pub fn dense() {
    let (n, z) = (param(0), param(1));
    let mut c = [0.0; 3];
    let mut v = Vec::new();
    for _ in 0..z {
        v.push(zero());
    }
    for i in (0..n).rev() {
        let x = coef();
        c[i] = plain(x);
        v.push(x);
    }
    expect(Polynomial { terms: v }.roots(), c);
    cover(1);
}
/// param: mask of the stored degrees up to 2; number of zero terms stored at higher degrees
pub fn sparse() {
    let mut c = [0.0; 3];
    let mut m = BTreeMap::new();
    for i in 0..3 {
        if param(0) >> i & 1 == 1 {
            let x = coef();
            c[i] = plain(x);
            m.insert(i, x);
        }
    }
    for i in 0..param(1) {
        let d = usize::any();
        assume(d > 2);
        let _ = i;
        m.insert(d, zero());
    }
    expect(SparsePolynomial::new(m).roots(), c);
    cover(1);
}
/// A lone term of any degree.
pub fn lone() {
    let (c, d) = (f64::any(), usize::any());
    assume(c == c && c != 0.0);
    let mut m = BTreeMap::new();
    m.insert(d, c);
    match SparsePolynomial::new(m).roots() {
        Roots::NoRoots => check(d == 0, 1),
        Roots::ManyRealRoots(v) => check((d > 0) & (v.len() == 1) && v[0] == 0.0, 2),
        _ => check(false, 3),
    }
    cover(1);
}
/// Linear binomials and quadratic trinomials of either float type.
macro_rules! per_float {
    ($m:ident, $t:ty, $lo:expr, $hi:expr) => {
        pub mod $m {
            use crate::api::*;
            use rustnomial::*;
            type F = $t;
            fn coef() -> F {
                let v = F::any();
                let m = v.abs();
                assume(v == 0.0 || (m >= $lo && m <= $hi));
                v
            }
            fn same(a: F, b: F) -> bool {
                (a.to_bits() == b.to_bits()) | (a == b)
            }
            fn magnitudes(d: F) -> [F; 3] {
                [d.abs().sqrt(), if d >= 0.0 { d.sqrt() } else { (-d).sqrt() }, if d >= 0.0 { d.sqrt() } else { (0.0 - d).sqrt() }]
            }
            pub fn tri() {
                let [c0, c1, c2] = [coef(), coef(), coef()];
                assume(c2 != 0.0);
                let t = QuadraticTrinomial::new([c2, c1, c0]);
                let d = c1 * c1 - c2 * c0 * 4.0;
                let (a, m) = (c2 * 2.0, -c1 / (c2 * 2.0));
                check(same(t.discriminant(), d), 20);
                match t.roots() {
                    Roots::TwoRealRoots(x, y) => {
                        check(d >= 0.0, 10);
                        if d == 0.0 {
                            check(same(x, m) & same(y, m), 11);
                        } else {
                            let mut ok = false;
                            for s in magnitudes(d) {
                                // the pair of the quadratic formula, the larger first
                                let (p, m) = ((-c1 + s) / a, (-c1 - s) / a);
                                ok |= ((c2 > 0.0) & same(x, p) & same(y, m)) | ((c2 < 0.0) & same(x, m) & same(y, p));
                            }
                            check(ok, 12);
                        }
                        cover(2);
                    }
                    Roots::TwoComplexRoots(x, y) => {
                        check(!(d >= 0.0), 13);
                        check(same(x.re, m) & same(y.re, m), 14);
                        let mut ok = false;
                        for s in magnitudes(d) {
                            let s = s / a;
                            ok |= (same(x.im, s) & same(y.im, -s)) | (same(x.im, -s) & same(y.im, s));
                        }
                        check(ok, 15);
                        cover(3);
                    }
                    _ => check(false, 21),
                }
                cover(1);
            }
            /// The factors are the leading coefficient and x minus either root.
            pub fn factors() {
                let [c0, c1, c2] = [coef(), coef(), coef()];
                assume(c2 != 0.0);
                let t = QuadraticTrinomial::new([c2, c1, c0]);
                let (rf, (l, f, g)) = (t.real_factors(), t.complex_factors());
                let ([f1, f0], [g1, g0]) = (f.coefficients, g.coefficients);
                check(same(l, c2) & (f1.re == 1.0) & (f1.im == 0.0) & (g1.re == 1.0) & (g1.im == 0.0), 1);
                match t.roots() {
                    Roots::TwoRealRoots(x, y) => {
                        match rf {
                            Some((l, p, q)) => {
                                check(same(l, c2) & (p.coefficients[0] == 1.0) & (q.coefficients[0] == 1.0), 2);
                                let (p, q) = (-p.coefficients[1], -q.coefficients[1]);
                                check((same(p, x) & same(q, y)) | (same(p, y) & same(q, x)), 3);
                            }
                            None => check(false, 4),
                        }
                        check((f0.im == 0.0) & (g0.im == 0.0), 5);
                        check((same(-f0.re, x) & same(-g0.re, y)) | (same(-f0.re, y) & same(-g0.re, x)), 6);
                        cover(2);
                    }
                    Roots::TwoComplexRoots(x, y) => {
                        check(rf.is_none(), 7);
                        check(same(-f0.re, x.re) & same(-g0.re, y.re), 8);
                        check((same(-f0.im, x.im) & same(-g0.im, y.im)) | (same(-f0.im, y.im) & same(-g0.im, x.im)), 9);
                        cover(3);
                    }
                    _ => check(false, 10),
                }
                cover(1);
            }
            pub fn bin() {
                let (a, b) = (coef(), coef());
                match LinearBinomial::new([a, b]).root() {
                    Roots::InfiniteRoots => check((a == 0.0) & (b == 0.0), 30),
                    Roots::NoRoots => check((a == 0.0) & (b != 0.0), 31),
                    Roots::OneRealRoot(x) => check((a != 0.0) && same(x, -b / a), 32),
                    _ => check(false, 33),
                }
                cover(1);
            }
            pub fn mono() {
                let (c, d) = (F::any(), usize::any());
                assume(c == c);
                match Monomial::new(c, d).root() {
                    Roots::InfiniteRoots => check(c == 0.0, 1),
                    Roots::NoRoots => check((c != 0.0) & (d == 0), 2),
                    Roots::OneRealRoot(x) => check((c != 0.0) & (d != 0) & (x == 0.0), 3),
                    _ => check(false, 4),
                }
                cover(1);
            }
        }
    };
}
per_float!(t32, f32, 9.313226e-10, 1073741824.0);
per_float!(t64, f64, 7.888609052210118e-31, 1.2676506002282294e30);
/// a (x - r) (x - r - k) with small integers: the roots are exact.
pub fn exact() {
    let p = |i: u64| param(i) as i32 - 1000;
    let (a, k) = (p(0), p(1));
    let r = p(2) + (i32::any() & param(3) as i32);
    let c = [(a * r * (r + k)) as f64, (-a * (r + r + k)) as f64, a as f64];
    assume(r != 0 || k != 0);
    match (Polynomial { terms: vec![c[2], c[1], c[0]] }).roots() {
        Roots::ManyRealRoots(v) => {
            check(v.len() == 2, 1);
            check((v[0] == (r + k) as f64) & (v[1] == r as f64), 2);
        }
        _ => check(false, 3),
    }
    cover(1);
}

entries! {
    c15_dense => dense();
    c15_sparse => sparse();
    c15_lone => lone();
    c15_tri => t64::tri();
    c15_bin => t64::bin();
    c15_tri_f32 => t32::tri();
    c15_bin_f32 => t32::bin();
    c15_factors => t64::factors();
    c15_factors_f32 => t32::factors();
    c15_mono => t64::mono();
    c15_mono_f32 => t32::mono();
    c15_exact => exact();
}
