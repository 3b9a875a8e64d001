// Equality is equality of coefficients, whatever the stored representation.
use crate::api::*;
use rustnomial::*;
use std::collections::BTreeMap;

fn at<T: Copy + num::Zero>(v: &[T], d: usize) -> T {
    if d < v.len() {
        v[d]
    } else {
        T::zero()
    }
}
fn eq_ref<T: Copy + num::Zero + PartialEq>(a: &[T], b: &[T]) -> bool {
    let n = if a.len() > b.len() { a.len() } else { b.len() };
    let mut ok = true;
    for d in 0..n {
        ok &= at(a, d) == at(b, d);
    }
    ok
}
pub fn dense<T: Any + num::Zero + num::One + PartialEq>() {
    let a: Vec<T> = coefs(param(0), T::any);
    let b: Vec<T> = coefs(param(1), T::any);
    let (p, q) = (Polynomial { terms: a.clone() }, Polynomial { terms: b.clone() });
    let e = eq_ref(&by_degree(&a), &by_degree(&b));
    check((p == q) == e, 1);
    check((q == p) == e, 2);
    check((p != q) == !e, 3);
    // against itself (not reflexive where the coefficients' equality is not)
    #[allow(clippy::eq_op)]
    let own = p == p;
    check(own == eq_ref(&by_degree(&a), &by_degree(&a)), 4);
    if e {
        cover(1)
    } else {
        cover(2)
    }
}
pub fn sparse<T: Any + num::Zero + PartialEq>() {
    let p = sparse_mask(param(0), T::any);
    let q = sparse_mask(param(1), T::any);
    let n = 16;
    let e = eq_ref(&sparse_by_degree(&p.terms, n), &sparse_by_degree(&q.terms, n));
    check((p == q) == e, 1);
    check((q == p) == e, 2);
    check((p != q) == !e, 3);
    #[allow(clippy::eq_op)]
    let own = p == p;
    let v = sparse_by_degree(&p.terms, n);
    check(own == eq_ref(&v, &v), 4);
    if e {
        cover(1)
    } else {
        cover(2)
    }
}
/// More terms than one node of the map holds.
pub fn sparse_long<T: Any + num::Zero + num::One + PartialEq>() {
    let s = param(2);
    let p = crate::api::sparse_long(param(0), s, T::any);
    let q = crate::api::sparse_long(param(1), s, T::any);
    let n = s * (param(0) + param(1));
    let e = eq_ref(&sparse_by_degree(&p.terms, n), &sparse_by_degree(&q.terms, n));
    check((p == q) == e, 1);
    check((q == p) == e, 2);
    if e {
        cover(1)
    } else {
        cover(2)
    }
}
/// Degrees symbolic too: two terms against two terms.
pub fn sparse_any_degree<T: Any + num::Zero + PartialEq>() {
    let mut mk = |n: usize| {
        let mut v: Vec<(T, usize)> = Vec::new();
        for i in 0..n {
            let d = usize::any();
            if i > 0 {
                assume(d > v[i - 1].1);
            }
            v.push((T::any(), d));
        }
        v
    };
    let (a, b) = (mk(param(0)), mk(param(1)));
    let map = |v: &Vec<(T, usize)>| {
        let mut m = BTreeMap::new();
        for &(c, d) in v {
            m.insert(d, c);
        }
        SparsePolynomial { terms: m }
    };
    let get = |v: &Vec<(T, usize)>, d: usize| {
        let mut r = T::zero();
        for &(c, k) in v {
            if k == d {
                r = c;
            }
        }
        r
    };
    let mut e = true;
    for &(c, d) in &a {
        e &= c == get(&b, d);
    }
    for &(c, d) in &b {
        e &= c == get(&a, d);
    }
    let (p, q) = (map(&a), map(&b));
    check((p == q) == e, 1);
    if e {
        cover(1)
    } else {
        cover(2)
    }
}
pub fn mono<T: Any + num::Zero + PartialEq>() {
    let (a, d, b, k) = (T::any(), usize::any(), T::any(), usize::any());
    let e = if d == k { a == b } else { a.is_zero() & b.is_zero() };
    // zero coefficients denote the zero polynomial whatever their degree
    let (p, q) = (Monomial::new(a, d), Monomial::new(b, k));
    check((p == q) == e, 1);
    check((p != q) == !e, 2);
    if e {
        cover(1)
    } else {
        cover(2)
    }
}
pub fn small<T: Any + num::Zero + PartialEq>() {
    let (a, b) = ([T::any(), T::any(), T::any()], [T::any(), T::any(), T::any()]);
    let e2 = (a[0] == b[0]) & (a[1] == b[1]);
    let e3 = e2 & (a[2] == b[2]);
    check((LinearBinomial::new([a[0], a[1]]) == LinearBinomial::new([b[0], b[1]])) == e2, 1);
    check((QuadraticTrinomial::new(a) == QuadraticTrinomial::new(b)) == e3, 2);
    check((QuadraticTrinomial::new(a) != QuadraticTrinomial::new(b)) == !e3, 3);
    if e3 {
        cover(1)
    } else {
        cover(2)
    }
}

entries! {
    c02_dense_i32 => dense::<i32>();
    c02_dense_f64 => dense::<f64>();
    c02_sparse_i32 => sparse::<i32>();
    c02_sparse_f64 => sparse::<f64>();
    c02_sparse_long_i32 => sparse_long::<i32>();
    c02_sparse_any_degree_i32 => sparse_any_degree::<i32>();
    c02_mono_i32 => mono::<i32>();
    c02_mono_f64 => mono::<f64>();
    c02_small_i32 => small::<i32>();
    c02_small_f64 => small::<f64>();
}
