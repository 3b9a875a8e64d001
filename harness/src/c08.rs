// Integrals: antiderivative coefficients, constant of integration, definite integrals.
use crate::api::*;
use rustnomial::*;

/// Antiderivative with constant 0, by degree.
fn ref_int<T: Int + std::ops::Div<Output = T>>(a: &[T]) -> Vec<T> {
    let mut v = vec![T::of(0)];
    for d in 0..a.len() {
        v.push(a[d] / T::of(d as i128 + 1));
    }
    v
}
fn ref_eval<T: Int>(a: &[T], x: T) -> T {
    let mut s = T::of(0);
    let mut i = a.len();
    while i > 0 {
        i -= 1;
        s = s.wmul(x).wadd(a[i]);
    }
    s
}

macro_rules! per_type {
    ($m:ident, $t:ty, $max:expr) => {
        pub mod $m {
            use super::*;
            type T = $t;
            pub fn dense() {
                let a: Vec<T> = vec_of(param(0), || coef(60));
                let e = ref_int(&by_degree(&a));
                let i = Polynomial { terms: a.clone() }.integral();
                check(same_dense(&i.inner().terms, &e), 1);
                let c: T = coef(60);
                let mut ec = e.clone();
                ec[0] = c;
                check(same_dense(&i.replace_c(c).terms, &ec), 2);
                check(same_dense(&i.inner().terms, &e), 3);
                cover(1);
            }
            pub fn dense_eval() {
                let a: Vec<T> = vec_of(param(0), || coef(3));
                let (x, y): (T, T) = (coef(2), coef(2));
                let e = ref_int(&by_degree(&a));
                let i = Polynomial { terms: a.clone() }.integral();
                check(i.eval(x, y) == ref_eval(&e, y).wsub(ref_eval(&e, x)), 1);
                cover(1);
            }
            pub fn sparse() {
                let p = sparse_mask::<T>(param(0), || coef(60));
                let e = ref_int(&sparse_by_degree(&p.terms, 12));
                let i = p.integral();
                check(same_sparse(&i.inner().terms, &e), 1);
                let c: T = coef(60);
                let mut ec = e.clone();
                ec[0] = c;
                check(same_sparse(&i.replace_c(c).terms, &ec), 2);
                cover(1);
            }
            pub fn sparse_eval() {
                let p = sparse_mask::<T>(param(0), || coef(3));
                let (x, y): (T, T) = (coef(2), coef(2));
                let e = ref_int(&sparse_by_degree(&p.terms, 6));
                check(p.integral().eval(x, y) == ref_eval(&e, y).wsub(ref_eval(&e, x)), 1);
                cover(1);
            }
            /// any degree: fails exactly when degree + 1 is not representable in the
            /// coefficient type (a zero coefficient has no degree)
            pub fn any_degree() {
                let (c, d): (T, usize) = (T::any(), usize::any());
                assume(d < usize::MAX);
                let ok = (d + 1) as u128 <= $max as u128 || c == 0 as T;
                allow_panic(!ok);
                let r = if choose(2) == 0 {
                    Monomial::new(c, d).integral()
                } else {
                    let mut t = std::collections::BTreeMap::new();
                    t.insert(d, c);
                    SparsePolynomial { terms: t }.integral()
                };
                check(ok, 1);
                allow_panic(false);
                let k = usize::any();
                let e = if k == d + 1 && c != 0 as T { c / ((d + 1) as T) } else { 0 as T };
                check(sc(&r.inner().terms, k) == e, 2);
                cover(1);
            }
            /// dense, a degree near the largest one T can represent
            pub fn dense_high() {
                let n = param(0); // number of coefficients
                let mut a: Vec<T> = vec![0 as T; n];
                a[0] = T::any();
                assume(a[0] != 0 as T);
                a[n - 1] = T::any();
                a[n / 2] = T::any();
                allow_panic(n as u128 > $max as u128);
                let r = Polynomial { terms: a.clone() }.integral();
                check(n as u128 <= $max as u128, 1);
                check(same_dense(&r.inner().terms, &ref_int(&by_degree(&a))), 2);
                cover(1);
            }
            /// definite integrals of the types with a fixed number of terms
            pub fn small_eval() {
                let a: Vec<T> = vec_of(3, || coef(3));
                let (x, y): (T, T) = (coef(2), coef(2));
                let (e, g) = match choose(3) {
                    0 => (vec![0 as T, a[1], a[0] / (2 as T)], LinearBinomial::new([a[0], a[1]]).integral().eval(x, y)),
                    1 => (vec![0 as T, a[2], a[1] / (2 as T), a[0] / (3 as T)], QuadraticTrinomial::new([a[0], a[1], a[2]]).integral().eval(x, y)),
                    _ => (vec![0 as T, 0 as T, 0 as T, a[0] / (3 as T)], Monomial::new(a[0], 2).integral().eval(x, y)),
                };
                check(g == ref_eval(&e, y).wsub(ref_eval(&e, x)), 1);
                cover(1);
            }
            pub fn mono() {
                let (c, d): (T, usize) = (T::any(), param(0));
                let r = Monomial::new(c, d).integral();
                let e = c / (d as T + 1);
                let k = usize::any();
                check(sc(&r.inner().terms, k) == if k == d + 1 { e } else { 0 as T }, 1);
                let z: T = coef(60);
                let w = r.replace_c(z);
                check(sc(&w.terms, 0) == z, 2);
                check(sc(&w.terms, d + 1) == e, 3);
                cover(1);
            }
            pub fn small() {
                let a: Vec<T> = vec_of(3, || coef(60));
                let l = LinearBinomial::new([a[0], a[1]]).integral();
                check(same_dense(&l.inner().terms, &[0 as T, a[1], a[0] / (2 as T)]), 1);
                let q = QuadraticTrinomial::new([a[0], a[1], a[2]]).integral();
                check(same_dense(&q.inner().terms, &[0 as T, a[2], a[1] / (2 as T), a[0] / (3 as T)]), 2);
                let c: T = coef(60);
                check(same_dense(&l.replace_c(c).terms, &[c, a[1], a[0] / (2 as T)]), 3);
                check(same_dense(&q.replace_c(c).terms, &[c, a[2], a[1] / (2 as T), a[0] / (3 as T)]), 4);
                cover(1);
            }
        }
    };
}
per_type!(ti8, i8, i8::MAX);
per_type!(tu8, u8, u8::MAX);
per_type!(ti16, i16, i16::MAX);
per_type!(tu16, u16, u16::MAX);
per_type!(tu128, u128, u64::MAX);
per_type!(ti32, i32, i32::MAX);
per_type!(tu32, u32, u32::MAX);
per_type!(ti64, i64, i64::MAX);
per_type!(tu64, u64, u64::MAX);
per_type!(ti128, i128, u64::MAX);

/// A degree d in a window of 16 below `param(0)` (0: any degree below 2^16, or with param(1) any),
/// and whether d + 1 is exact as a float of `m` significant bits.
pub fn degree_near(m: u32) -> (usize, bool) {
    let w = usize::any();
    let d = if param(0) == 0 {
        assume(param(1) == 1 || w < 1 << 16);
        assume(w < usize::MAX);
        w
    } else {
        assume(w < 16);
        param(0) - 1 - w
    };
    (d, ((d + 1) >> (d + 1).trailing_zeros()) >> m == 0)
}
macro_rules! float_type {
    ($m:ident, $t:ty, $bits:expr) => {
        pub mod $m {
            use super::*;
            type T = $t;
            pub fn any_degree() {
                let c: T = coef(1);
                let (d, exact) = degree_near($bits);
                let ok = exact | (c == 0.0);
                allow_panic(!ok);
                let r = if choose(2) == 0 {
                    Monomial::new(c, d).integral()
                } else {
                    let mut t = std::collections::BTreeMap::new();
                    t.insert(d, c);
                    SparsePolynomial { terms: t }.integral()
                };
                check(ok, 1);
                allow_panic(false);
                let e = if c == 0.0 { 0.0 } else { c / (d + 1) as T };
                check(sc(&r.inner().terms, d + 1).eqv(e), 2);
                let k = usize::any();
                assume(k != d + 1);
                check(sc(&r.inner().terms, k) == 0.0, 3);
                let z: T = coef(60);
                let w = r.replace_c(z);
                check(sc(&w.terms, 0).eqv(z), 4);
                check(sc(&w.terms, d + 1).eqv(e), 5);
                cover(1);
            }
            pub fn dense() {
                let a: Vec<T> = vec_of(param(0), || coef(60));
                let e = ref_int(&by_degree(&a));
                let i = Polynomial { terms: a.clone() }.integral();
                check(same_dense(&i.inner().terms, &e), 1);
                let c: T = coef(60);
                let mut ec = e.clone();
                ec[0] = c;
                check(same_dense(&i.replace_c(c).terms, &ec), 2);
                cover(1);
            }
            pub fn small() {
                let a: Vec<T> = vec_of(3, || coef(60));
                let l = LinearBinomial::new([a[0], a[1]]).integral();
                check(same_dense(&l.inner().terms, &[0 as T, a[1], a[0] / (2 as T)]), 1);
                let q = QuadraticTrinomial::new([a[0], a[1], a[2]]).integral();
                check(same_dense(&q.inner().terms, &[0 as T, a[2], a[1] / (2 as T), a[0] / (3 as T)]), 2);
                let c: T = coef(60);
                check(same_dense(&l.replace_c(c).terms, &[c, a[1], a[0] / (2 as T)]), 3);
                check(same_dense(&q.replace_c(c).terms, &[c, a[2], a[1] / (2 as T), a[0] / (3 as T)]), 4);
                cover(1);
            }
        }
    };
}
float_type!(tf32, f32, 24);
float_type!(tf64, f64, 53);

/// The derivative of the integral is the polynomial, when the divisions are exact.
pub fn inverse() {
    // coefficient of x^d is a multiple of d + 1
    let n = param(0);
    let b: Vec<i32> = vec_of(n, || within(20));
    let mut a = b.clone();
    for i in 0..n {
        a[i] = b[i] * (n - i) as i32;
    }
    let p = Polynomial { terms: a.clone() };
    check(same_dense(&p.integral().inner().derivative().terms, &by_degree(&a)), 1);
    let s = SparsePolynomial::from(a.clone());
    check(same_sparse(&s.integral().inner().derivative().terms, &by_degree(&a)), 2);
    cover(1);
}
/// More terms than one node of the map holds.
pub fn sparse_long() {
    let p = crate::api::sparse_long::<i32>(param(0), param(1), i32::any);
    let mut e = ref_int(&sparse_by_degree(&p.terms, param(0) * param(1)));
    let i = p.integral();
    check(same_sparse(&i.inner().terms, &e), 1);
    let c = i32::any();
    e[0] = c;
    check(same_sparse(&i.replace_c(c).terms, &e), 2);
    cover(1);
}

pub fn list() {
    let [a, b, c] = [i32::any(), i32::any(), i32::any()];
    let i = integral!(a, b, c);
    check(same_dense(&i.inner().terms, &ref_int(&[c, b, a])), 1);
    check(same_dense(&integral![b, c].inner().terms, &ref_int(&[c, b])), 2);
    cover(1);
}

entries! {
    c08_list => list();
    c08_sparse_long => sparse_long();
    c08_dense_high_i8 => ti8::dense_high();
    c08_dense_high_u8 => tu8::dense_high();
    c08_small_eval_i8 => ti8::small_eval();
    c08_small_eval_i32 => ti32::small_eval();
    c08_dense_i8 => ti8::dense();
    c08_dense_u8 => tu8::dense();
    c08_dense_i32 => ti32::dense();
    c08_dense_i128 => ti128::dense();
    c08_dense_eval_i32 => ti32::dense_eval();
    c08_sparse_i8 => ti8::sparse();
    c08_sparse_u8 => tu8::sparse();
    c08_sparse_i32 => ti32::sparse();
    c08_sparse_eval_i32 => ti32::sparse_eval();
    c08_any_degree_i8 => ti8::any_degree();
    c08_any_degree_u8 => tu8::any_degree();
    c08_any_degree_i32 => ti32::any_degree();
    c08_any_degree_u32 => tu32::any_degree();
    c08_any_degree_i64 => ti64::any_degree();
    c08_any_degree_u64 => tu64::any_degree();
    c08_any_degree_i128 => ti128::any_degree();
    c08_any_degree_i16 => ti16::any_degree();
    c08_any_degree_u16 => tu16::any_degree();
    c08_any_degree_u128 => tu128::any_degree();
    c08_any_degree_f32 => tf32::any_degree();
    c08_any_degree_f64 => tf64::any_degree();
    c08_dense_f32 => tf32::dense();
    c08_dense_f64 => tf64::dense();
    c08_dense_u16 => tu16::dense();
    c08_small_f32 => tf32::small();
    c08_small_f64 => tf64::small();
    c08_mono_i32 => ti32::mono();
    c08_mono_i8 => ti8::mono();
    c08_small_i8 => ti8::small();
    c08_small_i32 => ti32::small();
    c08_small_u64 => tu64::small();
    c08_inverse => inverse();
}
