// Derivatives.
use crate::api::*;
use rustnomial::*;
use std::ops::*;

fn ref_der<T: Int>(a: &[T]) -> Vec<T> {
    let mut v = Vec::new();
    for d in 1..a.len() {
        v.push(a[d].wmul(T::of(d as i128)));
    }
    v
}
macro_rules! per_type {
    ($m:ident, $t:ty, $max:expr) => {
        pub mod $m {
            use super::*;
            type T = $t;
            /// dense, symbolic coefficients
            pub fn dense() {
                let a: Vec<T> = vec_of(param(0), || coef(3));
                let p = Polynomial { terms: a.clone() };
                check(same_dense(&p.derivative().terms, &ref_der(&by_degree(&a))), 1);
                cover(1);
            }
            /// dense, a degree near the largest one T can represent
            pub fn dense_high() {
                let n = param(0); // number of coefficients
                let mut a: Vec<T> = vec![0 as T; n];
                a[0] = within(1);
                assume(a[0] != 0 as T);
                a[n - 1] = within(1);
                a[n / 2] = within(1);
                let p = Polynomial { terms: a.clone() };
                // fails only if the degree is not representable
                allow_panic((n - 1) as u128 > $max as u128);
                let r = p.derivative();
                check((n - 1) as u128 <= $max as u128, 1);
                let k = n - 1;
                check(dc(&r.terms, k - 1) == a[0].wmul(T::of(k as i128)), 2);
                check(same_dense(&r.terms, &ref_der(&by_degree(&a))), 3);
                cover(1);
            }
            /// sparse and monomial, any degree
            pub fn any_degree() {
                let (c, d): (T, usize) = (coef(1), usize::any());
                let ok = d as u128 <= $max as u128 || c == 0 as T;
                allow_panic(!ok);
                let e = if d == 0 { 0 as T } else { c.wmul(d as T) };
                let k = usize::any();
                let (got, at) = if choose(2) == 0 {
                    let m = Monomial::new(c, d).derivative();
                    (m.coefficient, if m.deg == k { m.coefficient } else { 0 as T })
                } else {
                    let mut t = std::collections::BTreeMap::new();
                    t.insert(d, c);
                    let s = SparsePolynomial { terms: t }.derivative();
                    (if d == 0 { 0 as T } else { sc(&s.terms, d - 1) }, sc(&s.terms, k))
                };
                check(ok, 1);
                allow_panic(false);
                check(got == e, 2);
                check(at == if d != 0 && k == d - 1 { e } else { 0 as T }, 3);
                cover(1);
            }
            pub fn small() {
                let a: Vec<T> = vec_of(3, || coef(30));
                let l = LinearBinomial::new([a[0], a[1]]).derivative();
                check(l.coefficients == [0 as T, a[0]], 1);
                let q = QuadraticTrinomial::new([a[0], a[1], a[2]]).derivative();
                check(q.coefficients == [0 as T, a[0].wmul(2 as T), a[1]], 2);
                cover(1);
            }
        }
    };
}
per_type!(ti8, i8, i8::MAX);
per_type!(tu8, u8, u8::MAX);
per_type!(ti16, i16, i16::MAX);
per_type!(tu16, u16, u16::MAX);
per_type!(tu128, u128, u64::MAX);
per_type!(ti32, i32, i32::MAX);
per_type!(tu32, u32, u32::MAX);
per_type!(ti64, i64, i64::MAX);
per_type!(tu64, u64, u64::MAX);
per_type!(ti128, i128, u64::MAX);

/// A degree in a window of 16 below `param(0)` (0: any degree below 2^16, or with param(1) any), with its exactness as a
/// float of `m` significant bits.
pub fn degree_near(m: u32) -> (usize, bool) {
    let w = usize::any();
    let d = if param(0) == 0 {
        assume(param(1) == 1 || w < 1 << 16);
        w
    } else {
        assume(w < 16);
        param(0) - w
    };
    let odd = if d == 0 { 0 } else { d >> d.trailing_zeros() };
    (d, odd >> m == 0)
}
macro_rules! float_type {
    ($m:ident, $t:ty, $bits:expr) => {
        pub mod $m {
            use super::*;
            type T = $t;
            pub fn any_degree() {
                let c: T = coef(1);
                let (d, exact) = degree_near($bits);
                let ok = exact | (c == 0.0);
                allow_panic(!ok);
                let e = if d == 0 { 0.0 } else { c * d as T };
                let got = if choose(2) == 0 {
                    let m = Monomial::new(c, d).derivative();
                    check((m.coefficient == 0.0) | (m.deg + 1 == d), 4);
                    m.coefficient
                } else {
                    let mut t = std::collections::BTreeMap::new();
                    t.insert(d, c);
                    let s = SparsePolynomial { terms: t }.derivative();
                    check(s.terms.len() <= 1, 5);
                    if d == 0 {
                        sc(&s.terms, 0)
                    } else {
                        sc(&s.terms, d - 1)
                    }
                };
                check(ok, 1);
                allow_panic(false);
                check(got.eqv(e), 2);
                cover(1);
            }
            pub fn dense() {
                let a: Vec<T> = vec_of(param(0), || coef(3));
                let p = Polynomial { terms: a.clone() };
                check(same_dense(&p.derivative().terms, &ref_der(&by_degree(&a))), 1);
                cover(1);
            }
            pub fn small() {
                let a: Vec<T> = vec_of(3, || coef(30));
                let l = LinearBinomial::new([a[0], a[1]]).derivative();
                check(all_eqv(&l.coefficients, &[0 as T, a[0]]), 1);
                let q = QuadraticTrinomial::new([a[0], a[1], a[2]]).derivative();
                check(all_eqv(&q.coefficients, &[0 as T, a[0].wmul(2 as T), a[1]]), 2);
                cover(1);
            }
        }
    };
}
float_type!(tf32, f32, 24);
float_type!(tf64, f64, 53);

pub fn sparse<T: Int + Mul<Output = T>>()
where
    SparsePolynomial<T>: Derivable<T>,
{
    let p = sparse_mask::<T>(param(0), || coef(3));
    let e = ref_der(&sparse_by_degree(&p.terms, 16));
    check(same_sparse(&p.derivative().terms, &e), 1);
    cover(1);
}
/// More terms than one node of the map holds.
pub fn sparse_long() {
    let p = crate::api::sparse_long::<i32>(param(0), param(1), i32::any);
    let e = ref_der(&sparse_by_degree(&p.terms, param(0) * param(1)));
    check(same_sparse(&p.derivative().terms, &e), 1);
    cover(1);
}

entries! {
    c07_sparse_long => sparse_long();
    c07_dense_i8 => ti8::dense();
    c07_dense_i32 => ti32::dense();
    c07_dense_u32 => tu32::dense();
    c07_dense_i64 => ti64::dense();
    c07_dense_i128 => ti128::dense();
    c07_dense_high_i8 => ti8::dense_high();
    c07_dense_high_u8 => tu8::dense_high();
    c07_any_degree_i8 => ti8::any_degree();
    c07_any_degree_u8 => tu8::any_degree();
    c07_any_degree_i16 => ti16::any_degree();
    c07_any_degree_i32 => ti32::any_degree();
    c07_any_degree_u32 => tu32::any_degree();
    c07_any_degree_i64 => ti64::any_degree();
    c07_any_degree_u64 => tu64::any_degree();
    c07_any_degree_i128 => ti128::any_degree();
    c07_any_degree_u16 => tu16::any_degree();
    c07_any_degree_u128 => tu128::any_degree();
    c07_any_degree_f32 => tf32::any_degree();
    c07_any_degree_f64 => tf64::any_degree();
    c07_dense_f32 => tf32::dense();
    c07_dense_f64 => tf64::dense();
    c07_dense_u16 => tu16::dense();
    c07_small_f32 => tf32::small();
    c07_small_f64 => tf64::small();
    c07_sparse_f64 => sparse::<f64>();
    c07_small_i8 => ti8::small();
    c07_small_i32 => ti32::small();
    c07_small_u64 => tu64::small();
    c07_sparse_i32 => sparse::<i32>();
    c07_sparse_u8 => sparse::<u8>();
}
