// Sums, differences and negation.
use crate::api::*;
use rustnomial::*;
use std::ops::*;

/// Coefficient lists whose sum (and, with `sub`, difference and negation) is
/// representable: in the checked build no overflow panic is excusable then.
fn inputs<T: Int>(n: usize, m: usize) -> (Vec<T>, Vec<T>) {
    (vec_of(n, || coef(63)), vec_of(m, || coef(63)))
}

pub fn dense_add<T: Int + AddAssign>() {
    let (a, b) = inputs::<T>(param(0), param(1));
    let e = ref_add(&by_degree(&a), &by_degree(&b));
    let mk = |t: &Vec<T>| Polynomial { terms: t.clone() };
    check(same_dense(&(mk(&a) + mk(&b)).terms, &e), 1);
    let mut r = mk(&a);
    r += mk(&b);
    check(same_dense(&r.terms, &e), 2);
    cover(1);
}
pub fn dense_sub<T: Int + Sub<Output = T> + SubAssign + Neg<Output = T>>() {
    let (a, b) = inputs::<T>(param(0), param(1));
    let e = ref_sub(&by_degree(&a), &by_degree(&b));
    let mk = |t: &Vec<T>| Polynomial { terms: t.clone() };
    check(same_dense(&(mk(&a) - mk(&b)).terms, &e), 1);
    let pb = mk(&b);
    check(same_dense(&(mk(&a) - &pb).terms, &e), 2);
    check(same_dense(&pb.terms, &by_degree(&b)), 3);
    let mut r = mk(&a);
    r -= mk(&b);
    check(same_dense(&r.terms, &e), 4);
    let mut r = mk(&a);
    r -= &pb;
    check(same_dense(&r.terms, &e), 5);
    check(same_dense(&(-mk(&a)).terms, &ref_sub(&[], &by_degree(&a))), 6);
    cover(1);
}
pub fn sparse_add<T: Int + AddAssign>() {
    let p = sparse_mask::<T>(param(0), || coef(63));
    let q = sparse_mask::<T>(param(1), || coef(63));
    let e = ref_add(&sparse_by_degree(&p.terms, 16), &sparse_by_degree(&q.terms, 16));
    check(same_sparse(&(p.clone() + q.clone()).terms, &e), 1);
    let mut r = p.clone();
    r += q.clone();
    check(same_sparse(&r.terms, &e), 2);
    cover(1);
}
pub fn sparse_sub<T: Int + Sub<Output = T> + SubAssign + Neg<Output = T>>() {
    let p = sparse_mask::<T>(param(0), || coef(63));
    let q = sparse_mask::<T>(param(1), || coef(63));
    let e = ref_sub(&sparse_by_degree(&p.terms, 16), &sparse_by_degree(&q.terms, 16));
    check(same_sparse(&(p.clone() - q.clone()).terms, &e), 1);
    let mut r = p.clone();
    r -= q.clone();
    check(same_sparse(&r.terms, &e), 2);
    check(same_sparse(&(-p.clone()).terms, &ref_sub(&[], &sparse_by_degree(&p.terms, 16))), 3);
    cover(1);
}
/// sparse - dense
pub fn sparse_sub_dense<T: Int + Sub<Output = T> + SubAssign + Neg<Output = T>>() {
    let p = sparse_mask::<T>(param(0), || coef(63));
    let b: Vec<T> = vec_of(param(1), || coef(63));
    let e = ref_sub(&sparse_by_degree(&p.terms, 16), &by_degree(&b));
    check(same_sparse(&(p - Polynomial { terms: b }).terms, &e), 1);
    cover(1);
}
/// Symbolic degrees: one stored term against two.
pub fn sparse_any_degree<T: Int + AddAssign + Sub<Output = T> + SubAssign + Neg<Output = T>>() {
    let (a, b, c): (T, T, T) = (coef(63), coef(63), coef(63));
    let (d, f, g) = (usize::any(), usize::any(), usize::any());
    assume(f < g);
    let mk = |v: &[(T, usize)]| {
        let mut m = std::collections::BTreeMap::new();
        for &(c, d) in v {
            m.insert(d, c);
        }
        SparsePolynomial { terms: m }
    };
    let (p, q) = (mk(&[(a, d)]), mk(&[(b, f), (c, g)]));
    let k = usize::any();
    let pick = |cond: bool, v: T| if cond { v } else { T::of(0) };
    let (x, y) = (pick(k == d, a), pick(k == f, b).wadd(pick(k == g, c)));
    check(sc(&(p.clone() + q.clone()).terms, k).eqv(x.wadd(y)), 1);
    check(sc(&(p.clone() - q.clone()).terms, k).eqv(x.wsub(y)), 2);
    check(sc(&(q.clone() - p.clone()).terms, k).eqv(y.wsub(x)), 3);
    let mut r = q.clone();
    r += p.clone();
    check(sc(&r.terms, k).eqv(x.wadd(y)), 4);
    let mut r = q;
    r -= p;
    check(sc(&r.terms, k).eqv(y.wsub(x)), 5);
    cover(1);
}
/// More terms than one node of the map holds.
pub fn sparse_long<T: Int + AddAssign + Sub<Output = T> + SubAssign + Neg<Output = T>>() {
    let (n, m, s) = (param(0), param(1), param(2));
    let p = crate::api::sparse_long::<T>(n, s, || coef(63));
    let q = crate::api::sparse_long::<T>(m, 3, || coef(63));
    let top = 3 * (if n > m { n } else { m }) * s;
    let (a, b) = (sparse_by_degree(&p.terms, top), sparse_by_degree(&q.terms, top));
    let (e, r) = match choose(6) {
        0 => (ref_add(&a, &b), p + q),
        1 => (ref_sub(&a, &b), p - q),
        2 => (ref_sub(&b, &a), q - p),
        3 => {
            let mut r = p;
            r += q;
            (ref_add(&a, &b), r)
        }
        4 => {
            let mut r = p;
            r -= q;
            (ref_sub(&a, &b), r)
        }
        _ => (ref_sub(&[], &a), -p),
    };
    check(same_sparse(&r.terms, &e), 1);
    cover(1);
}
pub fn small<T>()
where
    T: Int + Add<Output = T> + AddAssign + Sub<Output = T> + SubAssign + Neg<Output = T>,
{
    let a: Vec<T> = vec_of(3, || coef(63));
    let b: Vec<T> = vec_of(3, || coef(63));
    let k = usize::any();
    let m = -Monomial::new(a[0], k);
    check(m.coefficient.eqv(T::of(0).wsub(a[0])) & (m.deg == k || a[0] == T::of(0)), 1);
    let l = |v: &Vec<T>| LinearBinomial::new([v[0], v[1]]);
    let q = |v: &Vec<T>| QuadraticTrinomial::new([v[0], v[1], v[2]]);
    let s = |x: usize| a[x].wadd(b[x]);
    let d = |x: usize| a[x].wsub(b[x]);
    let n = |x: usize| T::of(0).wsub(a[x]);
    check(all_eqv(&(l(&a) + l(&b)).coefficients, &[s(0), s(1)]), 2);
    check(all_eqv(&(l(&a) - l(&b)).coefficients, &[d(0), d(1)]), 3);
    check(all_eqv(&(-l(&a)).coefficients, &[n(0), n(1)]), 4);
    let mut r = l(&a);
    r += l(&b);
    check(all_eqv(&r.coefficients, &[s(0), s(1)]), 5);
    let mut r = l(&a);
    r -= l(&b);
    check(all_eqv(&r.coefficients, &[d(0), d(1)]), 6);
    check(all_eqv(&(q(&a) + q(&b)).coefficients, &[s(0), s(1), s(2)]), 7);
    check(all_eqv(&(q(&a) - q(&b)).coefficients, &[d(0), d(1), d(2)]), 8);
    check(all_eqv(&(-q(&a)).coefficients, &[n(0), n(1), n(2)]), 9);
    let mut r = q(&a);
    r += q(&b);
    check(all_eqv(&r.coefficients, &[s(0), s(1), s(2)]), 10);
    let mut r = q(&a);
    r -= q(&b);
    check(all_eqv(&r.coefficients, &[d(0), d(1), d(2)]), 11);
    cover(1);
}

entries! {
    c03_dense_add_f64 => dense_add::<f64>();
    c03_dense_add_i32 => dense_add::<i32>();
    c03_dense_add_u8 => dense_add::<u8>();
    c03_dense_sub_f64 => dense_sub::<f64>();
    c03_dense_sub_i32 => dense_sub::<i32>();
    c03_dense_sub_i8 => dense_sub::<i8>();
    c03_sparse_add_f64 => sparse_add::<f64>();
    c03_sparse_add_i32 => sparse_add::<i32>();
    c03_sparse_add_u8 => sparse_add::<u8>();
    c03_sparse_sub_f64 => sparse_sub::<f64>();
    c03_sparse_sub_i32 => sparse_sub::<i32>();
    c03_sparse_sub_i8 => sparse_sub::<i8>();
    c03_sparse_sub_dense_f64 => sparse_sub_dense::<f64>();
    c03_sparse_sub_dense_i32 => sparse_sub_dense::<i32>();
    c03_sparse_any_degree_i32 => sparse_any_degree::<i32>();
    c03_small_f64 => small::<f64>();
    c03_sparse_long_i32 => sparse_long::<i32>();
    c03_small_f32 => small::<f32>();
    c03_small_i32 => small::<i32>();
    c03_small_i8 => small::<i8>();
}
