// Evaluation.
use crate::api::*;
use rustnomial::*;

fn ref_eval<T: Int>(a: &[T], x: T) -> T {
    // sum of c_d * x^d, powers built up by multiplication
    let mut s = T::of(0);
    let mut p = T::of(1);
    for d in 0..a.len() {
        s = s.wadd(a[d].wmul(p));
        p = p.wmul(x);
    }
    s
}
macro_rules! per_type {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            type T = $t;
            pub fn dense() {
                let a: Vec<T> = vec_of(param(0), || coef(2));
                let x: T = coef(2);
                let p = Polynomial { terms: a.clone() };
                check(p.eval(x) == ref_eval(&by_degree(&a), x), 1);
                cover(1);
            }
            pub fn sparse() {
                let p = sparse_mask::<T>(param(0), || coef(2));
                let x: T = coef(2);
                check(p.eval(x) == ref_eval(&sparse_by_degree(&p.terms, 10), x), 1);
                cover(1);
            }
            pub fn mono() {
                let (c, x): (T, T) = (coef(2), coef(2));
                let d = param(0);
                let mut e = c;
                for _ in 0..d {
                    e = e.wmul(x);
                }
                check(Monomial::new(c, d).eval(x) == e, 1);
                cover(1);
            }
            pub fn small() {
                let a: Vec<T> = vec_of(3, || coef(3));
                let x: T = coef(3);
                let l = LinearBinomial::new([a[0], a[1]]);
                check(l.eval(x) == ref_eval(&[a[1], a[0]], x), 1);
                let q = QuadraticTrinomial::new([a[0], a[1], a[2]]);
                check(q.eval(x) == ref_eval(&[a[2], a[1], a[0]], x), 2);
                cover(1);
            }
            /// A very high degree at 0, 1 (and -1): sparse and monomial.
            pub fn high() {
                let d = param(0);
                let (c, k): (T, T) = (coef(30), coef(30));
                let x = match choose(if T::SIGNED { 3 } else { 2 }) {
                    0 => 0 as T,
                    1 => 1 as T,
                    _ => (0 as T).wrapping_sub(1),
                };
                let p = if x == 0 as T {
                    0 as T
                } else if x == 1 as T || d % 2 == 0 {
                    1 as T
                } else {
                    (0 as T).wrapping_sub(1)
                };
                check(Monomial::new(c, d).eval(x) == c.wmul(p), 1);
                let s = SparsePolynomial::from_terms(&[(c, d), (k, 0)]);
                check(s.eval(x) == c.wmul(p).wadd(k), 2);
                cover(1);
            }
            /// Two terms of higher degrees and a constant, at any point.
            pub fn mid() {
                let (d, e) = (param(0), param(1));
                let (a, b, c, x): (T, T, T, T) = (coef(1), coef(1), coef(1), coef(1));
                let pow = |k: usize| {
                    let mut p = 1 as T;
                    for _ in 0..k {
                        p = p.wmul(x);
                    }
                    p
                };
                let s = SparsePolynomial::from_terms(&[(a, d), (b, e), (c, 0)]);
                check(s.eval(x) == a.wmul(pow(d)).wadd(b.wmul(pow(e))).wadd(c), 1);
                check(Monomial::new(a, d).eval(x) == a.wmul(pow(d)), 2);
                cover(1);
            }
            /// Terms that cancelled do not matter, however high their degree: p - p
            /// evaluates to zero everywhere, and monomial zero does too.
            pub fn cancelled() {
                let d = param(0);
                let (c, k, x): (T, T, T) = (coef(30), coef(3), coef(3));
                let mut p = SparsePolynomial::from_terms(&[(c, d), (k, 1)]);
                let _ = p.try_sub_term(c, d);
                check(p.eval(x) == k.wmul(x), 1);
                check(Monomial::new(0 as T, d).eval(x) == 0 as T, 2);
                cover(1);
            }
        }
    };
}
per_type!(ti8, i8);
per_type!(tu8, u8);
per_type!(ti16, i16);
per_type!(tu16, u16);
per_type!(ti32, i32);
per_type!(tu32, u32);
per_type!(ti64, i64);
per_type!(tu64, u64);
per_type!(ti128, i128);
per_type!(tu128, u128);
per_type!(tisize, isize);
per_type!(tusize, usize);

/// Floating point at the points where no rounding is involved: finite
/// coefficients, evaluation at zero.
pub fn float_zero() {
    let n = param(0);
    let a: Vec<f64> = vec_of(n, f64::any);
    for c in &a {
        assume(c.is_finite());
    }
    let e = if n == 0 { 0.0 } else { a[n - 1] };
    let p = Polynomial { terms: a.clone() };
    check(p.eval(0.0) == e, 1);
    cover(1);
}
/// A cancelled float term of high degree contributes nothing, at any finite point.
pub fn float_cancelled() {
    let d = param(0);
    let x = f64::any();
    assume(x.is_finite());
    let mut p = SparsePolynomial::<f64>::from_terms(&[(1.0, d), (0.0, 0)]);
    let _ = p.try_sub_term(1.0, d);
    check(p.eval(x) == 0.0, 1);
    check(Monomial::new(0.0f64, d).eval(x) == 0.0, 2);
    cover(1);
}
/// Very high degrees in floating point at 0, 1 and -1 (no rounding there).
pub fn float_high() {
    let d = param(0);
    let (x, p) = match choose(3) {
        0 => (0.0f64, 0.0f64),
        1 => (1.0, 1.0),
        _ => (-1.0, if d % 2 == 0 { 1.0 } else { -1.0 }),
    };
    check(Monomial::new(1.0f64, d).eval(x) == p, 1);
    check(SparsePolynomial::from_terms(&[(1.0f64, d)]).eval(x) == p, 2);
    check(Monomial::new(1.0f32, d).eval(x as f32) == p as f32, 3);
    cover(1);
}

/// Floating point where every product is exact: a small integer coefficient, a power of two
/// (of either sign) as the point, one or two terms of degree `param(0)` and zero.
macro_rules! float_exact {
    ($f:ident, $t:ty) => {
        pub fn $f() {
            let d = param(0);
            let j = choose(5) as i32 - 2; // the point is +-2^j
            let neg = choose(2) == 1;
            let two = |k: i64| -> $t { if k < 0 { 1.0 / (1u128 << -k) as $t } else { (1u128 << k) as $t } };
            let x = if neg { -two(j as i64) } else { two(j as i64) };
            let w = i8::any();
            let c = w as $t;
            // the value: c * 2^(j*d), with sign
            let mag = two(j as i64 * d as i64);
            let e = if neg && d % 2 == 1 { -(c * mag) } else { c * mag };
            check(Monomial::new(c, d).eval(x) == e, 1);
            check(SparsePolynomial::from_terms(&[(c, d)]).eval(x) == e, 2);
            let mut t = vec![0 as $t; d + 1];
            t[0] = c;
            check(Polynomial { terms: t.clone() }.eval(x) == e, 3);
            if d <= 1 {
                let l = LinearBinomial::new(if d == 1 { [c, 0.0] } else { [0.0, c] });
                check(l.eval(x) == e, 4);
            }
            if d <= 2 {
                let mut a = [0 as $t; 3];
                a[2 - d] = c;
                check(QuadraticTrinomial::new(a).eval(x) == e, 5);
            }
            cover(1);
        }
    };
}
float_exact!(float_exact_f32, f32);
float_exact!(float_exact_f64, f64);
/// Linear in floating point: one product and one sum at any point.
macro_rules! float_linear {
    ($f:ident, $t:ty) => {
        pub fn $f() {
            let (a, b, x): ($t, $t, $t) = (coef(1), coef(1), coef(1));
            let e = a * x + b;
            check(LinearBinomial::new([a, b]).eval(x).eqv(e), 1);
            cover(1);
        }
    };
}
float_linear!(float_linear_f32, f32);
float_linear!(float_linear_f64, f64);
/// Many terms, at a few points.
pub fn long() {
    let (n, s) = (param(0), param(1));
    let x = [0, 1, -1, 2, -3, 10, i32::MIN][choose(7)];
    if choose(2) == 0 {
        let a: Vec<i32> = coefs(n, i32::any);
        check(Polynomial { terms: a.clone() }.eval(x) == ref_eval(&by_degree(&a), x), 1);
    } else {
        let p = sparse_long::<i32>(n, s, i32::any);
        check(p.eval(x) == ref_eval(&sparse_by_degree(&p.terms, n * s), x), 2);
    }
    cover(1);
}

macro_rules! all_types {
    ($($f:ident: $($n:ident $m:ident),*;)*) => { entries! { $($($n => $m::$f();)*)* 
        c09_float_exact_f32 => float_exact_f32();
        c09_float_exact_f64 => float_exact_f64();
        c09_float_linear_f32 => float_linear_f32();
        c09_float_linear_f64 => float_linear_f64();
        c09_long => long();
        c09_float_zero => float_zero();
        c09_float_cancelled => float_cancelled();
        c09_float_high => float_high();
    } };
}
all_types! {
    dense: c09_dense_i32 ti32, c09_dense_u8 tu8, c09_dense_i128 ti128;
    sparse: c09_sparse_i32 ti32, c09_sparse_i8 ti8, c09_sparse_u8 tu8, c09_sparse_i16 ti16, c09_sparse_u16 tu16,
        c09_sparse_u32 tu32, c09_sparse_i64 ti64, c09_sparse_u64 tu64, c09_sparse_i128 ti128, c09_sparse_u128 tu128,
        c09_sparse_isize tisize, c09_sparse_usize tusize;
    mono: c09_mono_i32 ti32, c09_mono_i8 ti8, c09_mono_u8 tu8, c09_mono_i64 ti64, c09_mono_u64 tu64, c09_mono_i128 ti128;
    small: c09_small_i32 ti32, c09_small_i8 ti8, c09_small_u64 tu64;
    high: c09_high_i32 ti32, c09_high_i8 ti8, c09_high_u8 tu8, c09_high_i16 ti16, c09_high_u16 tu16,
        c09_high_u32 tu32, c09_high_i64 ti64, c09_high_u64 tu64, c09_high_i128 ti128, c09_high_u128 tu128,
        c09_high_isize tisize, c09_high_usize tusize;
    mid: c09_mid_i32 ti32, c09_mid_i8 ti8, c09_mid_u64 tu64, c09_mid_i128 ti128;
    cancelled: c09_cancelled_i32 ti32, c09_cancelled_i8 ti8, c09_cancelled_i64 ti64;
}
