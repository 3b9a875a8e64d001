// Roots of floating-point cubics.
use crate::api::*;
use rustnomial::*;
use std::collections::BTreeMap;

/// Zero, or a magnitude between 2^-6 and 2^6.
fn coef() -> f64 {
    let v = f64::any();
    let m = v.abs();
    assume(v == 0.0 || (m >= 0.015625 && m <= 64.0));
    v
}
/// A stored zero of either sign stands for the same absent term.
fn plain(v: f64) -> f64 {
    if v == 0.0 {
        0.0
    } else {
        v
    }
}
fn zero() -> f64 {
    let v = f64::any();
    assume(v == 0.0);
    v
}
/// Equal, or equal up to rounding.
fn near(a: f64, b: f64) -> bool {
    (a.to_bits() == b.to_bits()) | (a == b) | ((a - b).abs() <= 1e-5 * (1.0 + a.abs() + b.abs()))
}
/// The square root of the magnitude, in the ways in which it can be written.
fn magnitudes(d: f64) -> [f64; 3] {
    [d.abs().sqrt(), if d >= 0.0 { d.sqrt() } else { (-d).sqrt() }, if d >= 0.0 { d.sqrt() } else { (0.0 - d).sqrt() }]
}
/// The polynomial is small at re + i im, measured by what it is at the size of its largest root.
fn small(re: f64, im: f64, [d, c, b, a]: [f64; 4]) -> bool {
    let (mut x, mut y) = (a, 0.0);
    for k in [b, c, d] {
        let t = x * re - y * im + k;
        y = x * im + y * re;
        x = t;
    }
    let (u, v, w) = ((b / a).abs(), (c / a).abs(), (d / a).abs());
    x.abs() + y.abs() <= 1e-4 * a.abs() * (u * u * u + v * v.sqrt() + w)
}
/// c[3] x^3 + c[2] x^2 + c[1] x + c[0], c[3] and one of the others not zero
fn expect(roots: Roots<f64>, [d, c, b, a]: [f64; 4]) {
    let p = -b / (3.0 * a);
    let q = p * p * p + (b * c - 3.0 * a * d) / (6.0 * (a * a));
    let r = c / (3.0 * a);
    let e = r - p * p;
    let radicand = q * q + e * e * e;
    // the first root
    let x = if -radicand > 0.0 {
        let m = (p * p - r).abs().sqrt();
        let v = q / (m * m * m);
        2.0 * m * (v.max(-1.0).min(1.0).acos() / 3.0).cos() + p
    } else {
        let k = radicand.abs().sqrt();
        (q + k).cbrt() + (q - k).cbrt() + p
    };
    // what is left when it is divided out: x^2 + f x + g
    let f = b / a + x;
    let g = c / a + f * x;
    let disc = f * f - 1.0 * g * 4.0;
    // rounding alone decides between the cases
    let unsure = (radicand.abs() <= 1e-9 * (q * q + r.abs() * r * r + p * p * p * p * p * p))
        | (disc.abs() <= 1e-7 * (x * x + p * p + r.abs()));
    // and then any roots will do
    let c = [d, c, b, a];
    let unsure = unsure
        & match &roots {
            Roots::ManyRealRoots(v) => v.iter().fold(true, |t, z| t & small(*z, 0.0, c)),
            Roots::ManyComplexRoots(v) => v.iter().fold(true, |t, z| t & small(z.re, z.im, c)),
            _ => false,
        };
    let half = -f / 2.0;
    match roots {
        Roots::ManyRealRoots(v) => {
            check(v.len() == 3, 1);
            check(near(v[0], x) | unsure, 2);
            check((disc >= 0.0) | unsure, 3);
            if disc == 0.0 {
                check((near(v[1], half) & near(v[2], half)) | unsure, 4);
            } else {
                let mut ok = false;
                for s in magnitudes(disc) {
                    ok |= near(v[1], (-f + s) / 2.0) & near(v[2], (-f - s) / 2.0);
                }
                check(ok | unsure, 5);
            }
            cover(2);
        }
        Roots::ManyComplexRoots(v) => {
            check(v.len() == 3, 6);
            check((near(v[0].re, x) & (v[0].im == 0.0)) | unsure, 7);
            check(!(disc >= 0.0) | unsure, 8);
            check((near(v[1].re, half) & near(v[2].re, half)) | unsure, 9);
            let mut ok = false;
            for s in magnitudes(disc) {
                let s = s / 2.0;
                ok |= (near(v[1].im, s) & near(v[2].im, -s)) | (near(v[1].im, -s) & near(v[2].im, s));
            }
            check(ok | unsure, 10);
            cover(3);
        }
        _ => check(false, 12),
    }
    cover(1);
}
/// param: stored leading zeros; mask of the lower terms that may be non-zero
pub fn dense() {
    let mut v = Vec::new();
    for _ in 0..param(0) {
        v.push(zero());
    }
    let mut c = [0.0; 4];
    for i in (0..4).rev() {
        let x = if i == 3 || param(1) >> i & 1 == 1 { coef() } else { zero() };
        assume(i < 3 || x != 0.0);
        c[i] = plain(x);
        v.push(x);
    }
    assume(c[0] != 0.0 || c[1] != 0.0 || c[2] != 0.0);
    expect(Polynomial { terms: v }.roots(), c);
}
/// param: mask of the lower terms that are stored; number of zeros stored above
pub fn sparse() {
    let mut m = BTreeMap::new();
    let mut c = [0.0; 4];
    for i in 0..4 {
        if i == 3 || param(0) >> i & 1 == 1 {
            let x = coef();
            assume(i < 3 || x != 0.0);
            c[i] = plain(x);
            m.insert(i, x);
        }
    }
    for _ in 0..param(1) {
        let d = usize::any();
        assume(d > 3);
        m.insert(d, zero());
    }
    assume(c[0] != 0.0 || c[1] != 0.0 || c[2] != 0.0);
    expect(SparsePolynomial::new(m).roots(), c);
}

entries! {
    c17_dense => dense();
    c17_sparse => sparse();
}
