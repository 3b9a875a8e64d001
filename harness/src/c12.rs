// Text of polynomials, and reading it back.
use crate::api::*;
use rustnomial::*;
use std::fmt::Display;
use std::str::FromStr;

fn digits(v: u64, out: &mut Vec<u8>) {
    // the digits of a number are the standard library's
    for b in v.to_string().bytes() {
        out.push(b);
    }
}
/// Reference text of (coefficient, degree) pairs in decreasing degree order.
/// `mag` writes the digits of |c|.
fn text<T: Copy>(t: &[(T, usize)], neg: impl Fn(T) -> bool, zero: impl Fn(T) -> bool, one: impl Fn(T) -> bool, mag: impl Fn(T, &mut Vec<u8>)) -> Vec<u8> {
    let mut o: Vec<u8> = Vec::with_capacity(512);
    for &(c, d) in t {
        if zero(c) {
            continue;
        }
        let first = o.is_empty();
        if neg(c) {
            o.extend_from_slice(if first { b"-" } else { b" - " });
        } else if !first {
            o.extend_from_slice(b" + ");
        }
        if d == 0 || !one(c) {
            mag(c, &mut o);
        }
        if d > 0 {
            o.push(b'x');
        }
        if d > 1 {
            o.push(b'^');
            digits(d as u64, &mut o);
        }
    }
    if o.is_empty() {
        o.push(b'0');
    }
    o
}
fn same(a: &str, b: &[u8]) -> bool {
    let a = a.as_bytes();
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
fn pairs<T: Copy>(t: &[T]) -> Vec<(T, usize)> {
    let n = t.len();
    (0..n).map(|i| (t[i], n - 1 - i)).collect()
}
macro_rules! per_type {
    ($m:ident, $t:ty, $wide:expr) => {
        #[allow(unused_comparisons)]
        pub mod $m {
            use super::*;
            type T = $t;
            pub fn of(t: &[(T, usize)]) -> Vec<u8> {
                super::text(
                    t,
                    |c| c < 0 as T,
                    |c| c == 0,
                    |c| c == 1 || (c < 0 as T && c as i128 == -1),
                    |c, o| {
                        if $wide {
                            // the digits of the coefficient are the standard library's
                            for b in c.to_string().bytes() {
                                if b != b'-' {
                                    o.push(b);
                                }
                            }
                        } else {
                            let v = c as i128;
                            digits(if v < 0 { (-v) as u64 } else { v as u64 }, o)
                        }
                    },
                )
            }
            pub fn dense() {
                let a: Vec<T> = vec_of(param(0), T::any);
                let p = Polynomial { terms: a.clone() };
                check(same(&p.to_string(), &of(&pairs(&a))), 1);
                cover(1);
            }
            /// Coefficients between -11 (0 for unsigned types) and 11 or at the ends of the type,
            /// every polynomial type.
            pub fn window() {
                let mut a: Vec<T> = vec_of(3, || within(11));
                let e = choose(10);
                if e < 9 {
                    a[e % 3] = [T::MIN, T::MIN + 1, T::MAX][e / 3];
                }
                match choose(5) {
                    0 => check(same(&Polynomial { terms: a[1..].to_vec() }.to_string(), &of(&pairs(&a[1..]))), 1),
                    1 => check(same(&SparsePolynomial::from(a[1..].to_vec()).to_string(), &of(&pairs(&a[1..]))), 2),
                    2 => check(same(&LinearBinomial::new([a[0], a[1]]).to_string(), &of(&[(a[0], 1), (a[1], 0)])), 3),
                    3 => {
                        let z = 0 as T;
                        let c = if choose(2) == 0 { [a[0], z, a[2]] } else { [z, a[1], a[2]] };
                        check(same(&QuadraticTrinomial::new(c).to_string(), &of(&[(c[0], 2), (c[1], 1), (c[2], 0)])), 4)
                    }
                    _ => {
                        let d = [0, 1, 2, 9, 10, 99, 100, 65536, usize::MAX][choose(9)];
                        check(same(&Monomial::new(a[0], d).to_string(), &of(&[(a[0], d)])), 5)
                    }
                }
                cover(1);
            }
            /// Many terms; long or sparse.
            pub fn long() {
                let n = param(0);
                let a: Vec<T> = coefs(n, || within(1));
                let t = Polynomial { terms: a.clone() }.to_string();
                check(same(&t, &of(&pairs(&a))), 1);
                check(same(&SparsePolynomial::from(a.clone()).to_string(), &of(&pairs(&a))), 2);
                match Polynomial::<T>::from_str(&t) {
                    Ok(q) => check(same_dense(&q.terms, &by_degree(&a)), 3),
                    Err(_) => check(false, 4),
                }
                match SparsePolynomial::<T>::from_str(&t) {
                    Ok(q) => check(same_sparse(&q.terms, &by_degree(&a)), 5),
                    Err(_) => check(false, 6),
                }
                cover(1);
            }
            pub fn sparse() {
                let p = sparse_mask(param(0), T::any);
                let e: Vec<(T, usize)> = p.terms.iter().rev().map(|(&d, &c)| (c, d)).collect();
                check(same(&p.to_string(), &of(&e)), 1);
                cover(1);
            }
            /// Parsing the text gives the polynomial back.
            pub fn round_trip() {
                let a: Vec<T> = vec_of(param(0), T::any);
                if choose(2) == 0 {
                    let p = Polynomial { terms: a.clone() };
                    match Polynomial::<T>::from_str(&p.to_string()) {
                        Ok(q) => check(same_dense(&q.terms, &by_degree(&a)), 1),
                        Err(_) => check(false, 2),
                    }
                } else {
                    let p = SparsePolynomial::from(a.clone());
                    match SparsePolynomial::<T>::from_str(&p.to_string()) {
                        Ok(q) => check(same_sparse(&q.terms, &by_degree(&a)), 3),
                        Err(_) => check(false, 4),
                    }
                }
                cover(1);
            }
            pub fn sparse_round_trip() {
                let p = sparse_mask(param(0), T::any);
                let n = 24;
                match SparsePolynomial::<T>::from_str(&p.to_string()) {
                    Ok(q) => check(same_sparse(&q.terms, &sparse_by_degree(&p.terms, n)), 1),
                    Err(_) => check(false, 2),
                }
                cover(1);
            }
            pub fn small() {
                let a = [T::any(), if param(0) < 2 { T::any() } else { 0 }, if param(0) == 1 { T::any() } else { 0 }];
                match param(0) {
                    0 => check(same(&LinearBinomial::new([a[0], a[1]]).to_string(), &of(&[(a[0], 1), (a[1], 0)])), 1),
                    1 => check(same(&QuadraticTrinomial::new(a).to_string(), &of(&[(a[0], 2), (a[1], 1), (a[2], 0)])), 2),
                    _ => {
                        let d = usize::any();
                        assume(d < 10000);
                        check(same(&Monomial::new(a[0], d).to_string(), &of(&[(a[0], d)])), 3)
                    }
                }
                cover(1);
            }
            pub fn small_round_trip() {
                let a = [T::any(), if param(0) < 2 { T::any() } else { 0 }, if param(0) == 1 { T::any() } else { 0 }];
                match param(0) {
                    0 => match LinearBinomial::<T>::from_str(&LinearBinomial::new([a[0], a[1]]).to_string()) {
                        Ok(q) => check(q.coefficients == [a[0], a[1]], 1),
                        Err(_) => check(false, 2),
                    },
                    1 => match QuadraticTrinomial::<T>::from_str(&QuadraticTrinomial::new(a).to_string()) {
                        Ok(q) => check(q.coefficients == a, 3),
                        Err(_) => check(false, 4),
                    },
                    _ => {
                        let d = usize::any();
                        assume(d < 100);
                        match Monomial::<T>::from_str(&Monomial::new(a[0], d).to_string()) {
                            Ok(q) => check((q.coefficient == a[0]) & ((q.deg == d) | (a[0] == 0)), 5),
                            Err(_) => check(false, 6),
                        }
                    }
                }
                cover(1);
            }
        }
    };
}
macro_rules! integrals {
    ($m:ident, $t:ident, $ty:ty) => {
        pub mod $m {
            use super::$t::of;
            use super::*;
            type T = $ty;
            pub fn integral() {
                let a: Vec<T> = vec_of(param(0), T::any);
                let (t, inner) = if choose(2) == 0 {
                    let i = Polynomial { terms: a }.integral();
                    (i.to_string(), pairs(&i.inner().terms))
                } else {
                    let i = SparsePolynomial::from(a).integral();
                    (i.to_string(), i.inner().terms.iter().rev().map(|(&d, &c)| (c, d)).collect())
                };
                let mut zero = true;
                for &(c, _) in &inner {
                    zero &= c == 0;
                }
                let e = if zero {
                    b"C".to_vec()
                } else {
                    let mut e = of(&inner);
                    e.extend_from_slice(b" + C");
                    e
                };
                check(same(&t, &e), 1);
                cover(1);
            }
        }
    };
}
integrals!(ii8, ti8, i8);
integrals!(iu8, tu8, u8);
per_type!(ti8, i8, true);
per_type!(tu8, u8, true);
per_type!(ti16, i16, true);
per_type!(ti32, i32, true);
per_type!(tu64, u64, true);
per_type!(ti64, i64, true);
per_type!(tu16, u16, true);
per_type!(tu32, u32, true);
per_type!(tu128, u128, true);
per_type!(tusize, usize, true);
per_type!(ti128, i128, true);
per_type!(tisize, isize, true);

/// Floating-point coefficients: a case split over representative values (their own
/// digits are the standard library's).
pub fn float() {
    const V: [f64; 8] = [0.0, -0.0, 1.0, -1.0, 2.5, -0.125, 1e21, -3.0];
    let a: Vec<f64> = vec_of(param(0), || V[choose(8)]);
    let e = text(
        &pairs(&a),
        |c| c < 0.0,
        |c| c == 0.0,
        |c| c == 1.0 || c == -1.0,
        |c, o| o.extend_from_slice(c.abs().to_string().as_bytes()),
    );
    let p = Polynomial { terms: a.clone() };
    let t = p.to_string();
    check(same(&t, &e), 1);
    match Polynomial::<f64>::from_str(&t) {
        Ok(q) => check(same_dense(&q.terms, &by_degree(&a)), 2),
        Err(_) => check(false, 3),
    }
    cover(1);
}
/// The other types, and single precision.
macro_rules! float_small {
    ($f:ident, $t:ty) => {
        pub fn $f() {
            const V: [$t; 7] = [0.0, -0.0, 1.0, -1.0, 2.5, -0.125, -3.0];
            let a: Vec<$t> = vec_of(3, || V[choose(7)]);
            let text = |l: &[($t, usize)]| {
                text(l, |c| c < 0.0, |c| c == 0.0, |c| c == 1.0 || c == -1.0, |c, o| o.extend_from_slice(c.abs().to_string().as_bytes()))
            };
            match choose(4) {
                0 => check(same(&LinearBinomial::new([a[0], a[1]]).to_string(), &text(&[(a[0], 1), (a[1], 0)])), 1),
                1 => check(same(&QuadraticTrinomial::new([a[0], a[1], a[2]]).to_string(), &text(&pairs(&a))), 2),
                2 => check(same(&Monomial::new(a[0], 3).to_string(), &text(&[(a[0], 3)])), 3),
                _ => check(same(&SparsePolynomial::from(a.clone()).to_string(), &text(&pairs(&a))), 4),
            }
            cover(1);
        }
    };
}
float_small!(float_small_f32, f32);
float_small!(float_small_f64, f64);
/// Values close to 1 and -1 and at the ends of the type: text and, when finite, its reading.
macro_rules! float_edge {
    ($f:ident, $t:ty) => {
        pub fn $f() {
            const V: [$t; 14] = [
                1.0 + <$t>::EPSILON, 1.0 - <$t>::EPSILON / 2.0, -1.0 - <$t>::EPSILON, -1.0 + <$t>::EPSILON / 2.0, 0.1, -1e-7, <$t>::MIN_POSITIVE,
                -<$t>::MIN_POSITIVE / 8388608.0, <$t>::MAX, <$t>::MIN, 16777216.0, -123456.125, <$t>::INFINITY, <$t>::NEG_INFINITY,
            ];
            let a = V[param(0)];
            let d = [0, 1, 5][choose(3)];
            let b = [0.0, -0.5][choose(2)];
            let mut l = vec![(a, d + 1)];
            l.push((b, 0));
            let e = text(&l, |c| c < 0.0, |c| c == 0.0, |c| c == 1.0 || c == -1.0, |c, o| o.extend_from_slice(c.abs().to_string().as_bytes()));
            let s = SparsePolynomial::from_terms(&[(a, d + 1), (b, 0)]);
            let t = s.to_string();
            check(same(&t, &e), 1);
            check(same(&Monomial::new(a, d).to_string(), &text(&[(a, d)], |c| c < 0.0, |c| c == 0.0, |c| c == 1.0 || c == -1.0, |c, o| o.extend_from_slice(c.abs().to_string().as_bytes()))), 2);
            if a.is_finite() {
                match SparsePolynomial::<$t>::from_str(&t) {
                    Ok(q) => check((sc(&q.terms, d + 1) == a) & (sc(&q.terms, 0) == b), 3),
                    Err(_) => check(false, 4),
                }
                let mut v = vec![0.0; d + 2];
                v[0] = a;
                v[d + 1] = b;
                match Polynomial::<$t>::from_str(&Polynomial { terms: v.clone() }.to_string()) {
                    Ok(q) => check(same_dense(&q.terms, &by_degree(&v)), 5),
                    Err(_) => check(false, 6),
                }
            }
            cover(1);
        }
    };
}
float_edge!(float_edge_f32, f32);
float_edge!(float_edge_f64, f64);
/// Sparse terms of very high degrees.
pub fn far() {
    const D: [usize; 10] = [2, 9, 10, 99, 1000, 65536, 4294967296, 1 << 63, usize::MAX - 1, usize::MAX];
    let (i, j) = (choose(10), choose(10));
    assume(i < j);
    let (a, b) = (within::<i8>(2), within::<i8>(2));
    let c = within::<i8>(1);
    let p = SparsePolynomial { terms: [(D[i], a), (D[j], b), (1, c)].into_iter().collect() };
    let t = p.to_string();
    check(same(&t, &ti8::of(&[(b, D[j]), (a, D[i]), (c, 1)])), 1);
    match SparsePolynomial::<i8>::from_str(&t) {
        Ok(q) => {
            check((sc(&q.terms, D[i]) == a) & (sc(&q.terms, D[j]) == b) & (sc(&q.terms, 1) == c), 2);
            let mut n = 0;
            for (_, v) in q.terms.iter() {
                n += (*v != 0) as i32;
            }
            check(n == (a != 0) as i32 + (b != 0) as i32 + (c != 0) as i32, 3);
        }
        Err(_) => check(false, 4),
    }
    cover(1);
}
#[allow(unused)]
fn unused<T: Display>() {}

entries! {
    c12_far => far();
    c12_float_edge_f32 => float_edge_f32();
    c12_float_edge_f64 => float_edge_f64();
    c12_dense_i8 => ti8::dense();
    c12_dense_u8 => tu8::dense();
    c12_dense_i32 => ti32::dense();
    c12_dense_u64 => tu64::dense();
    c12_dense_i64 => ti64::dense();
    c12_sparse_i8 => ti8::sparse();
    c12_sparse_i16 => ti16::sparse();
    c12_round_trip_i8 => ti8::round_trip();
    c12_round_trip_u8 => tu8::round_trip();
    c12_round_trip_i16 => ti16::round_trip();
    c12_sparse_round_trip_i8 => ti8::sparse_round_trip();
    c12_small_i8 => ti8::small();
    c12_small_i16 => ti16::small();
    c12_small_round_trip_i8 => ti8::small_round_trip();
    c12_integral_i8 => ii8::integral();
    c12_integral_u8 => iu8::integral();
    c12_window_u16 => tu16::window();
    c12_window_u32 => tu32::window();
    c12_window_u128 => tu128::window();
    c12_window_usize => tusize::window();
    c12_window_i128 => ti128::window();
    c12_window_isize => tisize::window();
    c12_window_i32 => ti32::window();
    c12_window_i64 => ti64::window();
    c12_window_u64 => tu64::window();
    c12_long_i8 => ti8::long();
    c12_float_small_f32 => float_small_f32();
    c12_float_small_f64 => float_small_f64();
    c12_float => float();
}
