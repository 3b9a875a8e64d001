// Observers: degree, is_zero, coefficient lookup, term lists, trim, zero, set_to_zero.
use crate::api::*;
use rustnomial::*;
use std::collections::BTreeMap;

fn term_is<T: Same + num::Zero>(t: &Term<T>, c: T, d: usize) -> bool {
    match t {
        Term::ZeroTerm => c.is_zero(),
        Term::Term(x, k) => !c.is_zero() && x.same(c) & (*k == d),
    }
}
/// `l` lists exactly the non-zero (coefficient, degree) pairs of `e` (indexed by
/// position: pairs in decreasing degree order).
fn list_is<T: Same + num::Zero>(l: &[(T, usize)], e: &[(T, usize)]) -> bool {
    let mut k = 0;
    let mut ok = true;
    for &(c, d) in e {
        if c.is_zero() {
            continue;
        }
        if k >= l.len() {
            return false;
        }
        ok &= l[k].0.same(c) & (l[k].1 == d);
        k += 1;
    }
    ok & (k == l.len())
}
fn degree_is<T: Same + num::Zero>(g: &Degree, e: &[(T, usize)]) -> bool {
    for &(c, d) in e {
        if !c.is_zero() {
            return match g {
                Degree::Num(k) => *k == d,
                Degree::NegInf => false,
            };
        }
    }
    *g == Degree::NegInf
}
/// The observers of `p` agree with the (coefficient, degree) pairs `e`, given in
/// decreasing degree order; every degree not listed has coefficient zero.
fn observe<T, P>(p: &P, it: Vec<(T, usize)>, e: &[(T, usize)])
where
    T: Same + num::Zero,
    P: SizedPolynomial<T>,
{
    check(degree_is(&p.degree(), e), 1);
    let zero = e.iter().all(|x| x.0.is_zero());
    check(p.is_zero() == zero, 2);
    check(list_is(&p.terms_as_vec(), e), 3);
    check(list_is(&it, e), 4);
    for &(c, d) in e {
        check(term_is(&p.term_with_degree(d), c, d), 5);
    }
    // any degree at all
    let d = usize::any();
    let mut inside = false;
    for &(_, k) in e {
        inside |= k == d;
    }
    if !inside {
        check(matches!(p.term_with_degree(d), Term::ZeroTerm), 6);
        cover(2);
    }
    cover(1);
}
fn pairs<T: Copy>(t: &[T]) -> Vec<(T, usize)> {
    let n = t.len();
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push((t[i], n - 1 - i));
    }
    v
}

pub fn dense<T: Any + Same + num::Zero + num::One>() {
    let t: Vec<T> = coefs(param(0), T::any);
    let p = Polynomial { terms: t.clone() };
    observe(&p, p.ordered_term_iter().collect(), &pairs(&t));
}
pub fn dense_build<T: Any + Same + num::Zero>() {
    let n = param(0);
    let t: Vec<T> = vec_of(n, T::any);
    let mut lead = 0;
    while lead < n && t[lead].is_zero() {
        lead += 1;
    }
    let trimmed = |r: &Vec<T>| {
        let mut ok = r.len() == n - lead;
        if ok {
            for i in 0..r.len() {
                ok &= r[i].same(t[lead + i]);
            }
        }
        ok
    };
    check(trimmed(&Polynomial::new(t.clone()).terms), 10);
    check(trimmed(&Polynomial::from(t.clone()).terms), 11);
    let mut p = Polynomial { terms: t.clone() };
    p.trim();
    check(trimmed(&p.terms), 12);
    p.set_to_zero();
    check(p.is_zero() & p.terms_as_vec().is_empty(), 13);
    let z: Polynomial<T> = SizedPolynomial::zero();
    check(z.is_zero() & (z.degree() == Degree::NegInf), 14);
    cover(1);
}
pub fn sparse<T: Any + Same + num::Zero>() {
    let mut p = sparse_mask(param(0), T::any);
    let e: Vec<(T, usize)> = p.terms.iter().rev().map(|(&d, &c)| (c, d)).collect();
    observe(&p, p.ordered_term_iter().collect(), &e);
    p.set_to_zero();
    check(p.is_zero() & p.terms_as_vec().is_empty(), 13);
    let z: SparsePolynomial<T> = SizedPolynomial::zero();
    check(z.is_zero() & (z.degree() == Degree::NegInf), 14);
}
/// Trimming (feature sparse_poly_trim) drops exactly the stored zeros.
pub fn sparse_trim<T: Any + Same + num::Zero>() {
    let mut p = sparse_mask(param(0), T::any);
    let e: Vec<(T, usize)> = p.terms.iter().rev().map(|(&d, &c)| (c, d)).collect();
    p.trim();
    let mut left = 0;
    for (_, c) in p.terms.iter() {
        check(!c.is_zero(), 20);
        left += 1;
    }
    let mut n = 0;
    for (c, _) in e.iter() {
        n += !c.is_zero() as usize;
    }
    check(left == n, 21);
    observe(&p, p.ordered_term_iter().collect(), &e);
}
/// More terms than one node of the map holds.
pub fn sparse_long<T: Any + Same + num::Zero + num::One>() {
    let p = crate::api::sparse_long(param(0), param(1), T::any);
    let e: Vec<(T, usize)> = p.terms.iter().rev().map(|(&d, &c)| (c, d)).collect();
    observe(&p, p.ordered_term_iter().collect(), &e);
}
pub fn sparse_from_vec<T: Any + Same + num::Zero + num::One>() {
    let t: Vec<T> = coefs(param(0), T::any);
    let p = SparsePolynomial::from(t.clone());
    observe(&p, p.ordered_term_iter().collect(), &pairs(&t));
}
/// Stored degrees are themselves symbolic, over the whole range of usize.
pub fn sparse_any_degree<T: Any + Same + num::Zero>() {
    let n = param(0);
    let mut m = BTreeMap::new();
    let mut e: Vec<(T, usize)> = Vec::new();
    let mut last = 0usize;
    for i in 0..n {
        let d = usize::any();
        if i > 0 {
            assume(d > last);
        }
        last = d;
        let c = T::any();
        m.insert(d, c);
        e.insert(0, (c, d));
    }
    let p = SparsePolynomial { terms: m };
    observe(&p, p.ordered_term_iter().collect(), &e);
}
pub fn mono<T: Any + Same + num::Zero>() {
    let (c, d) = (T::any(), usize::any());
    let mut p = Monomial::new(c, d);
    observe(&p, p.ordered_term_iter().collect(), &[(c, d)]);
    p.set_to_zero();
    check(p.is_zero() & p.terms_as_vec().is_empty(), 13);
    let z: Monomial<T> = SizedPolynomial::zero();
    check(z.is_zero(), 14);
    check(term_is(&Term::new(c, d), c, d), 15);
    let k = Monomial::from(c);
    check(term_is(&k.term_with_degree(0), c, 0), 16);
}
pub fn bin<T: Any + Same + num::Zero>() {
    let t = [T::any(), T::any()];
    let mut p = LinearBinomial::new(t);
    observe(&p, p.ordered_term_iter().collect(), &[(t[0], 1), (t[1], 0)]);
    p.set_to_zero();
    check(p.is_zero() & p.terms_as_vec().is_empty(), 13);
    let z: LinearBinomial<T> = SizedPolynomial::zero();
    check(z.is_zero(), 14);
}
pub fn tri<T: Any + Same + num::Zero>() {
    let t = [T::any(), T::any(), T::any()];
    let mut p = QuadraticTrinomial::new(t);
    observe(&p, p.ordered_term_iter().collect(), &[(t[0], 2), (t[1], 1), (t[2], 0)]);
    p.set_to_zero();
    check(p.is_zero() & p.terms_as_vec().is_empty(), 13);
    let z: QuadraticTrinomial<T> = SizedPolynomial::zero();
    check(z.is_zero(), 14);
}

/// The list macro is the constructor.
pub fn list() {
    let [a, b, c, d] = [i32::any(), i32::any(), i32::any(), i32::any()];
    let e = [d, c, b, a];
    let p = polynomial!(a, b, c, d);
    check(same_dense(&p.terms, &e), 1);
    let p = polynomial![c, d];
    check(same_dense(&p.terms, &e[..2]), 2);
    cover(1);
}

entries! {
    c01_list => list();
    c01_dense_i32 => dense::<i32>();
    c01_dense_u8 => dense::<u8>();
    c01_dense_f64 => dense::<f64>();
    c01_dense_build_i32 => dense_build::<i32>();
    c01_dense_build_f64 => dense_build::<f64>();
    c01_sparse_i32 => sparse::<i32>();
    c01_sparse_f64 => sparse::<f64>();
    c01_sparse_trim_i32 => sparse_trim::<i32>();
    c01_sparse_trim_f64 => sparse_trim::<f64>();
    c01_sparse_long_i32 => sparse_long::<i32>();
    c01_sparse_from_vec_i32 => sparse_from_vec::<i32>();
    c01_sparse_any_degree_i32 => sparse_any_degree::<i32>();
    c01_mono_i32 => mono::<i32>();
    c01_mono_f64 => mono::<f64>();
    c01_bin_i32 => bin::<i32>();
    c01_bin_f64 => bin::<f64>();
    c01_tri_i32 => tri::<i32>();
    c01_tri_f64 => tri::<f64>();
}
