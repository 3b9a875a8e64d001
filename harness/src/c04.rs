// Products, powers, scalar multiplication and division.
use crate::api::*;
use rustnomial::*;
use std::ops::*;

pub fn dense_mul<T: Int + Mul<Output = T> + AddAssign>() {
    let (n, m) = (param(0), param(1));
    let a: Vec<T> = coefs(n, || coef(5));
    let b: Vec<T> = coefs(m, || coef(5));
    let e = ref_mul(&by_degree(&a), &by_degree(&b));
    let (p, q) = (Polynomial { terms: a }, Polynomial { terms: b });
    // one operand form per path
    let r = match choose(6) {
        0 => p.clone() * q.clone(),
        1 => p.clone() * &q,
        2 => &p * q.clone(),
        3 => &p * &q,
        4 => {
            let mut r = p.clone();
            r *= q.clone();
            r
        }
        _ => {
            let mut r = p.clone();
            r *= &q;
            r
        }
    };
    check(same_dense(&r.terms, &e), 1);
    cover(1);
}
/// A product whose operands are one and the same value.
pub fn square() {
    let n = param(0);
    let a: Vec<i32> = coefs(n, || coef(5));
    let e = ref_mul(&by_degree(&a), &by_degree(&a));
    match choose(3) {
        0 => {
            let p = Polynomial { terms: a };
            check(same_dense(&(&p * &p).terms, &e), 1);
        }
        1 => {
            let p = SparsePolynomial::from(a);
            check(same_sparse(&p.borrow_mul(&p).terms, &e), 2);
        }
        _ => {
            let mut p = SparsePolynomial::from(a);
            let q = p.clone();
            p *= &q;
            check(same_sparse(&p.terms, &e), 3);
        }
    }
    cover(1);
}
pub fn dense_pow<T: Int + Mul<Output = T> + AddAssign>() {
    let (n, k) = (param(0), param(1));
    let mut a: Vec<T> = vec_of(n, || coef(1));
    if k > 9 {
        // high powers: small coefficients, the leading one 1
        for i in 0..n {
            a[i] = within(1);
        }
        a[0] = T::of(1);
    }
    let mut e = vec![T::of(1)];
    for _ in 0..k {
        e = ref_mul(&e, &by_degree(&a));
    }
    let p = Polynomial { terms: a };
    check(same_dense(&p.pow(k).terms, &e), 1);
    cover(1);
}
/// MIN / -1 has no representable quotient.
fn overflows<T: Int>(a: &[T], k: T) -> bool {
    let mut o = false;
    for &c in a {
        o |= !T::FLOAT & T::SIGNED & (k == T::of(-1)) & (c == T::min_val());
    }
    o
}
/// A divisor for which no quotient is infinite or undefined.
fn divisor<T: Int>(k: T) {
    assume(k != T::of(0));
    if T::FLOAT {
        assume((k >= T::of(1)) | (k <= T::of(-1)));
    }
}
pub fn dense_scalar<T>()
where
    T: Int + Mul<Output = T> + MulAssign + Div<Output = T> + DivAssign,
{
    let a: Vec<T> = coefs(param(0), || coef(11));
    let k: T = coef(11);
    let p = Polynomial { terms: a.clone() };
    let e: Vec<T> = by_degree(&a).iter().map(|c| c.wmul(k)).collect();
    check(same_dense(&(p.clone() * k).terms, &e), 1);
    let mut r = p.clone();
    r *= k;
    check(same_dense(&r.terms, &e), 2);
    // division: coefficients are divided one by one; it fails for k = 0 only (and
    // for MIN / -1, whose quotient is not representable)
    divisor(k);
    assume(!overflows(&a, k));
    let e: Vec<T> = by_degree(&a).iter().map(|&c| c / k).collect();
    check(same_dense(&(p.clone() / k).terms, &e), 3);
    let mut r = p.clone();
    r /= k;
    check(same_dense(&r.terms, &e), 4);
    cover(1);
}
/// Dividing what was multiplied by a non-zero scalar gives the polynomial back.
pub fn scalar_round_trip() {
    let a: Vec<i16> = vec_of(param(0), || within(100));
    let k: i16 = within(100);
    assume(k != 0);
    let p = Polynomial { terms: a.clone() };
    check(same_dense(&((p.clone() * k) / k).terms, &by_degree(&a)), 1);
    let s = SparsePolynomial::from(a.clone());
    check(same_sparse(&((s * k) / k).terms, &by_degree(&a)), 2);
    cover(1);
}
pub fn sparse_mul<T: Int + Mul<Output = T> + AddAssign>() {
    let p = sparse_mask::<T>(param(0), || coef(5));
    let q = sparse_mask::<T>(param(1), || coef(5));
    let e = ref_mul(&sparse_by_degree(&p.terms, 10), &sparse_by_degree(&q.terms, 10));
    let r = match choose(5) {
        0 => p.clone() * q.clone(),
        1 => p.clone() * &q,
        2 => p.borrow_mul(&q),
        3 => {
            let mut r = p.clone();
            r *= q.clone();
            r
        }
        _ => {
            let mut r = p.clone();
            r *= &q;
            r
        }
    };
    check(same_sparse(&r.terms, &e), 1);
    cover(1);
}
/// More terms than one node of the map holds.
pub fn sparse_mul_long<T: Int + Mul<Output = T> + AddAssign>() {
    let (n, m, s) = (param(0), param(1), param(2));
    let p = sparse_long::<T>(n, s, || coef(5));
    let q = sparse_long::<T>(m, 1, || coef(5));
    let e = ref_mul(&sparse_by_degree(&p.terms, n * s), &sparse_by_degree(&q.terms, m));
    let r = match choose(3) {
        0 => p * q,
        1 => q.borrow_mul(&p),
        _ => {
            let mut r = p;
            r *= &q;
            r
        }
    };
    check(same_sparse(&r.terms, &e), 1);
    cover(1);
}
pub fn sparse_pow<T: Int + Mul<Output = T> + AddAssign>() {
    let (mask, k) = (param(0), param(1));
    let p = sparse_mask::<T>(mask, || if k > 9 { within(1) } else { coef(1) });
    let a = sparse_by_degree(&p.terms, 64 - mask.leading_zeros() as usize);
    let mut e = vec![T::of(1)];
    for _ in 0..k {
        e = ref_mul(&e, &a);
    }
    check(same_sparse(&p.pow(k).terms, &e), 1);
    cover(1);
}
pub fn sparse_scalar<T>()
where
    T: Int + Mul<Output = T> + MulAssign + Div<Output = T> + DivAssign,
{
    let p = sparse_mask::<T>(param(0), || coef(11));
    let k: T = coef(11);
    let a = sparse_by_degree(&p.terms, 16);
    let e: Vec<T> = a.iter().map(|c| c.wmul(k)).collect();
    check(same_sparse(&(p.clone() * k).terms, &e), 1);
    let mut r = p.clone();
    r *= k;
    check(same_sparse(&r.terms, &e), 2);
    divisor(k);
    assume(!overflows(&a, k));
    let e: Vec<T> = a.iter().map(|&c| c / k).collect();
    check(same_sparse(&(p.clone() / k).terms, &e), 3);
    let mut r = p.clone();
    r /= k;
    check(same_sparse(&r.terms, &e), 4);
    cover(1);
}
pub fn mono_mul<T: Int + Mul<Output = T> + MulAssign + AddAssign>() {
    let (a, b): (T, T) = (coef(11), coef(11));
    let (d, k) = (usize::any(), usize::any());
    assume(d <= usize::MAX - k);
    let (p, q) = (Monomial::new(a, d), Monomial::new(b, k));
    let r = match choose(4) {
        0 => p.clone() * q.clone(),
        1 => p.clone() * &q,
        2 => {
            let mut r = p.clone();
            r *= q.clone();
            r
        }
        _ => {
            let mut r = p.clone();
            r *= &q;
            r
        }
    };
    let e = a.wmul(b);
    check(r.coefficient.eqv(e) & ((r.deg == d + k) | (e == T::of(0))), 1);
    cover(1);
}
pub fn mono_pow() {
    let k = param(0);
    let a: i32 = coef(3);
    let d = usize::any();
    assume(d < 1 << 40);
    let mut e = 1i32;
    for _ in 0..k {
        e = e.wrapping_mul(a);
    }
    let r = Monomial::new(a, d).pow(k);
    check((r.coefficient == e) & ((r.deg == d * k) | (e == 0)), 1);
    cover(1);
}
/// Exponents beyond 32 bits; the base is 0, 1 or -1 so that the value is known.
pub fn mono_pow_big() {
    let k = param(0);
    let a = choose(3) as i32 - 1;
    let e = if a == -1 && k % 2 == 0 { 1 } else { a };
    let r = Monomial::new(a, 0).pow(k);
    check(r.coefficient == e, 1);
    check(r.deg == 0, 2);
    cover(1);
}
pub fn small_scalar<T>()
where
    T: Int + Mul<Output = T> + MulAssign + Div<Output = T> + DivAssign,
{
    let a: Vec<T> = vec_of(3, || coef(11));
    let k: T = coef(11);
    let d = usize::any();
    let m = || Monomial::new(a[0], d);
    let l = || LinearBinomial::new([a[0], a[1]]);
    let q = || QuadraticTrinomial::new([a[0], a[1], a[2]]);
    let w = |i: usize| a[i].wmul(k);
    let r = m() * k;
    check(r.coefficient.eqv(w(0)) & ((r.deg == d) | (w(0) == T::of(0))), 1);
    let mut r = m();
    r *= k;
    check(r.coefficient.eqv(w(0)) & ((r.deg == d) | (w(0) == T::of(0))), 2);
    check(all_eqv(&(l() * k).coefficients, &[w(0), w(1)]), 3);
    let mut r = l();
    r *= k;
    check(all_eqv(&r.coefficients, &[w(0), w(1)]), 4);
    check(all_eqv(&(q() * k).coefficients, &[w(0), w(1), w(2)]), 5);
    let mut r = q();
    r *= k;
    check(all_eqv(&r.coefficients, &[w(0), w(1), w(2)]), 6);
    divisor(k);
    assume(!overflows(&a, k));
    let v = |i: usize| a[i] / k;
    let r = m() / k;
    check(r.coefficient.eqv(v(0)) & ((r.deg == d) | (v(0) == T::of(0))), 7);
    let mut r = m();
    r /= k;
    check(r.coefficient.eqv(v(0)) & ((r.deg == d) | (v(0) == T::of(0))), 8);
    check(all_eqv(&(l() / k).coefficients, &[v(0), v(1)]), 9);
    let mut r = l();
    r /= k;
    check(all_eqv(&r.coefficients, &[v(0), v(1)]), 10);
    check(all_eqv(&(q() / k).coefficients, &[v(0), v(1), v(2)]), 11);
    let mut r = q();
    r /= k;
    check(all_eqv(&r.coefficients, &[v(0), v(1), v(2)]), 12);
    cover(1);
}

/// A single term of any coefficient to the power k, in both forms; the dense one also with
/// a zero constant below it.
pub fn single_pow() {
    let k = param(0);
    let a: i32 = coef(1);
    let d = param(1);
    let mut e = 1i32;
    for _ in 0..k {
        e = e.wrapping_mul(a);
    }
    let mut want = vec![0; d * k + 1];
    want[d * k] = e;
    let mut t = vec![0; d + 1];
    t[0] = a;
    check(same_dense(&Polynomial { terms: t }.pow(k).terms, &want), 1);
    check(same_sparse(&SparsePolynomial::from_terms(&[(a, d)]).pow(k).terms, &want), 2);
    cover(1);
}

entries! {
    c04_square => square();
    c04_single_pow => single_pow();
    c04_dense_mul_f64 => dense_mul::<f64>();
    c04_dense_mul_i32 => dense_mul::<i32>();
    c04_dense_mul_u8 => dense_mul::<u8>();
    c04_dense_pow_i32 => dense_pow::<i32>();
    c04_dense_pow_i8 => dense_pow::<i8>();
    c04_dense_scalar_f64 => dense_scalar::<f64>();
    c04_dense_scalar_i32 => dense_scalar::<i32>();
    c04_dense_scalar_u8 => dense_scalar::<u8>();
    c04_scalar_round_trip => scalar_round_trip();
    c04_sparse_mul_long_i32 => sparse_mul_long::<i32>();
    c04_small_scalar_f32 => small_scalar::<f32>();
    c04_sparse_mul_f64 => sparse_mul::<f64>();
    c04_sparse_mul_i32 => sparse_mul::<i32>();
    c04_sparse_pow_i32 => sparse_pow::<i32>();
    c04_sparse_pow_i8 => sparse_pow::<i8>();
    c04_sparse_scalar_f64 => sparse_scalar::<f64>();
    c04_sparse_scalar_i32 => sparse_scalar::<i32>();
    c04_mono_mul_f64 => mono_mul::<f64>();
    c04_mono_mul_i32 => mono_mul::<i32>();
    c04_mono_pow_i32 => mono_pow();
    c04_mono_pow_big => mono_pow_big();
    c04_small_scalar_f64 => small_scalar::<f64>();
    c04_small_scalar_i32 => small_scalar::<i32>();
    c04_small_scalar_u8 => small_scalar::<u8>();
}
