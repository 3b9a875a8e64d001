// Term-by-term construction and editing, and the generic sums and products that
// are built from it.
use crate::api::*;
use rustnomial::poly_math::{add_poly, mul_poly_vec, sub_poly};
use rustnomial::*;
use std::collections::BTreeMap;
use std::ops::*;

const TOP: usize = 8;

/// Reference: coefficients by degree, as the polynomial function defines them.
fn agrees_dense<T: Int>(p: &Polynomial<T>, e: &[T]) -> bool {
    same_dense(&p.terms, e)
}

/// `k` edits of a dense polynomial, each of any kind, at any degree below 6.
pub fn dense_edits<T>()
where
    T: Int + AddAssign + SubAssign,
    Polynomial<T>: MutablePolynomial<T>,
{
    let (n, k) = (param(0), param(1));
    let a: Vec<T> = vec_of(n, || coef(20));
    let mut e = by_degree(&a);
    while e.len() < TOP {
        e.push(T::of(0));
    }
    let mut p = Polynomial { terms: a };
    for _ in 0..k {
        let d = choose(6);
        let c: T = coef(20);
        match choose(3) {
            0 => {
                p.add_term(c, d);
                e[d] = e[d].wadd(c);
            }
            1 => {
                check(p.try_add_term(c, d).is_ok(), 1);
                e[d] = e[d].wadd(c);
            }
            _ => {
                if T::SIGNED || c <= e[d] {
                    let r = p.try_sub_term(c, d);
                    check(r.is_ok() | (c == T::of(0)), 2);
                    e[d] = e[d].wsub(c);
                } else {
                    // a difference with no unsigned representation
                    assume(d >= p.terms.len());
                    check(p.try_sub_term(c, d) == Err(TryAddError::CanNotNegate), 3);
                }
            }
        }
        check(agrees_dense(&p, &e), 4);
    }
    cover(1);
    p.set_to_zero();
    check(p.is_zero(), 5);
    p.add_term(T::of(1), 2);
    check((p.degree() == Degree::Num(2)) & (p.term_with_degree(2) == Term::Term(T::of(1), 2)), 6);
}
pub fn sparse_edits<T>()
where
    T: Int + AddAssign + SubAssign,
    SparsePolynomial<T>: MutablePolynomial<T>,
{
    let k = param(1);
    let mut p = sparse_mask::<T>(param(0), || coef(20));
    let mut e = sparse_by_degree(&p.terms, TOP);
    for _ in 0..k {
        let d = choose(5);
        let c: T = coef(20);
        match choose(3) {
            0 => {
                p.add_term(c, d);
                e[d] = e[d].wadd(c);
            }
            1 => {
                check(p.try_add_term(c, d).is_ok(), 1);
                e[d] = e[d].wadd(c);
            }
            _ => {
                if T::SIGNED || c <= e[d] {
                    let r = p.try_sub_term(c, d);
                    check(r.is_ok() | (c == T::of(0)), 2);
                    e[d] = e[d].wsub(c);
                } else {
                    assume(!p.terms.contains_key(&d));
                    check(p.try_sub_term(c, d) == Err(TryAddError::CanNotNegate), 3);
                }
            }
        }
        check(same_sparse(&p.terms, &e), 4);
    }
    cover(1);
    p.set_to_zero();
    check(p.is_zero(), 5);
    p.add_term(T::of(1), 2);
    check((p.degree() == Degree::Num(2)) & (p.term_with_degree(2) == Term::Term(T::of(1), 2)), 6);
}
/// An edit of a sparse polynomial with more terms than one node of the map holds.
pub fn sparse_edit_long() {
    let n = param(0);
    let mut p = sparse_long::<i32>(n, 2, || coef(20));
    let mut e = sparse_by_degree(&p.terms, 2 * n + 4);
    let d = [0, 1, 2, n - 1, n, n + 1, 2 * n - 3, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1][choose(11)];
    let c: i32 = coef(20);
    if choose(2) == 0 {
        p.add_term(c, d);
        e[d] = e[d].wrapping_add(c);
    } else {
        check(p.try_sub_term(c, d).is_ok(), 1);
        e[d] = e[d].wrapping_sub(c);
    }
    check(same_sparse(&p.terms, &e), 2);
    cover(1);
}
/// Many terms, in a scrambled order, each degree twice.
pub fn from_terms_long() {
    let n = param(0);
    let c: Vec<i32> = coefs(n, || coef(20));
    let mut l = Vec::new();
    let mut e = vec![0i32; n];
    for i in 0..2 * n {
        // scrambled (7 does not divide n)
        let d = i * 7 % n;
        l.push((c[i % n], d));
        e[d] = e[d].wrapping_add(c[i % n]);
    }
    if choose(2) == 0 {
        check(same_dense(&Polynomial::from_terms(&l).terms, &e), 1);
    } else {
        check(same_sparse(&SparsePolynomial::from_terms(&l).terms, &e), 2);
    }
    cover(1);
}
/// A long history of edits, both representations kept in step: which operation at which
/// degree comes from the seed, three of the coefficients are symbolic, the others small
/// and cancelling now and then.
pub fn history() {
    let (seed, k) = (param(0) as u64, param(1));
    let mut e = vec![0i32; 80];
    let mut p = Polynomial::<i32>::zero();
    let mut s = SparsePolynomial::<i32>::zero();
    let mut h = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(12345);
    for i in 0..k {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = h >> 33;
        let d = if r & 64 == 0 { r % 6 } else { r % 77 } as usize;
        let c: i32 = if i % (k / 3) == 1 {
            coef(20)
        } else if r & 0x300 == 0 {
            e[d].wrapping_neg()
        } else {
            (r >> 12 & 7) as i32 - 3
        };
        match r >> 20 & 3 {
            0 => {
                check(p.try_sub_term(c, d).is_ok() & s.try_sub_term(c, d).is_ok(), 1);
                e[d] = e[d].wrapping_sub(c);
            }
            1 => {
                check(p.try_add_term(c, d).is_ok() & s.try_add_term(c, d).is_ok(), 2);
                e[d] = e[d].wrapping_add(c);
            }
            _ => {
                p.add_term(c, d);
                s.add_term(c, d);
                e[d] = e[d].wrapping_add(c);
            }
        }
        check(same_dense(&p.terms, &e), 3);
        check(same_sparse(&s.terms, &e), 4);
    }
    cover(1);
}
/// Sums, differences and products of long operands.
pub fn sums_long() {
    let (n, m) = (param(0), param(1));
    let a: Vec<i32> = coefs(n, || coef(5));
    let p = Polynomial { terms: a.clone() };
    let x = coef(5);
    let q = sparse_long::<i32>(m, 2, || x);
    let (da, dq) = (by_degree(&a), sparse_by_degree(&q.terms, 2 * m));
    let mut dense = Polynomial { terms: vec![1, 0, 3] };
    let mut sparse = SparsePolynomial::from(vec![1, 0, 3]);
    let z = [3, 0, 1];
    let e = match choose(3) {
        0 => {
            check(add_poly(p.ordered_term_iter(), &mut dense).is_ok() & add_poly(q.ordered_term_iter(), &mut dense).is_ok(), 1);
            check(add_poly(p.ordered_term_iter(), &mut sparse).is_ok() & add_poly(q.ordered_term_iter(), &mut sparse).is_ok(), 2);
            ref_add(&ref_add(&z, &da), &dq)
        }
        1 => {
            check(sub_poly(p.ordered_term_iter(), &mut dense).is_ok() & sub_poly(q.ordered_term_iter(), &mut dense).is_ok(), 3);
            check(sub_poly(p.ordered_term_iter(), &mut sparse).is_ok() & sub_poly(q.ordered_term_iter(), &mut sparse).is_ok(), 4);
            ref_sub(&ref_sub(&z, &da), &dq)
        }
        _ => {
            let l: Vec<(i32, usize)> = vec![(-3, 40), (2, 1)];
            let mut dl = vec![0; 41];
            dl[40] = l[0].0;
            dl[1] = 2;
            check(mul_poly_vec(p.ordered_term_iter(), &l, &mut dense).is_ok(), 5);
            check(mul_poly_vec(p.ordered_term_iter(), &l, &mut sparse).is_ok(), 6);
            ref_add(&z, &ref_mul(&da, &dl))
        }
    };
    check(same_dense(&dense.terms, &e), 7);
    check(same_sparse(&sparse.terms, &e), 8);
    cover(1);
}
/// Sparse edits at arbitrary 64-bit degrees.
pub fn sparse_any_degree() {
    let (d0, d1, d2) = (usize::any(), usize::any(), usize::any());
    let (a, b, c): (i32, i32, i32) = (coef(9), coef(9), coef(9));
    let mut p = SparsePolynomial::<i32>::from_terms(&[(a, d0), (b, d1)]);
    if choose(2) == 0 {
        p.add_term(c, d2);
    } else {
        check(p.try_sub_term(c.wrapping_neg(), d2).is_ok(), 1);
    }
    let at = |d: usize| {
        let mut s = 0i32;
        for (x, k) in [(a, d0), (b, d1), (c, d2)] {
            if k == d {
                s = s.wrapping_add(x);
            }
        }
        s
    };
    let q = usize::any();
    check(p.term_with_degree(q) == Term::new(at(q), q), 2);
    for d in [d0, d1, d2] {
        check(sc(&p.terms, d) == at(d), 3);
    }
    cover(1);
}
/// Any list of terms, in any order, degrees repeated or not.
pub fn from_terms<T>()
where
    T: Int + AddAssign,
    Polynomial<T>: FreeSizePolynomial<T>,
    SparsePolynomial<T>: FreeSizePolynomial<T>,
{
    let n = param(0);
    let t: Vec<(T, usize)> = vec_of(n, || (coef(9), choose(5)));
    let mut e = vec![T::of(0); TOP];
    for &(c, d) in &t {
        e[d] = e[d].wadd(c);
    }
    check(agrees_dense(&Polynomial::from_terms(&t), &e), 1);
    check(same_sparse(&SparsePolynomial::from_terms(&t).terms, &e), 2);
    cover(1);
}
pub fn mono_edit<T>()
where
    T: Int + AddAssign + SubAssign + Neg<Output = T>,
{
    let (c, x): (T, T) = (coef(20), coef(20));
    let (d, k) = (usize::any(), usize::any());
    let mut m = Monomial::new(c, d);
    let sub = choose(2) == 1;
    let r = if sub { m.try_sub_term(x, k) } else { m.try_add_term(x, k) };
    let y = if sub { T::of(0).wsub(x) } else { x };
    let is = |m: &Monomial<T>, c: T, d: usize| m.coefficient.eqv(c) & ((m.deg == d) | (c == T::of(0)));
    if c == T::of(0) {
        check(r.is_ok(), 1);
        check(is(&m, y, k), 2);
        cover(1);
    } else if d == k {
        check(r.is_ok(), 3);
        check(is(&m, c.wadd(y), d), 4);
        cover(2);
    } else {
        check((r == Err(TryAddError::TooManyTerms)) | (x == T::of(0)), 5);
        check(is(&m, c, d), 6);
        cover(3);
    }
    m.set_to_zero();
    check(m.is_zero(), 7);
    check(m.try_add_term(T::of(1), k).is_ok(), 8);
    check(is(&m, T::of(1), k), 9);
}
macro_rules! fixed {
    ($f:ident, $t:ident, $n:expr) => {
        pub fn $f<T>()
        where
            T: Int + AddAssign + SubAssign,
        {
            const N: usize = $n;
            let a: [T; N] = [(); N].map(|_| coef(20));
            let x: T = coef(20);
            let k = usize::any();
            let mut p = $t::new(a);
            let sub = choose(2) == 1;
            if sub && !T::SIGNED && k < N {
                assume(x <= a[N - 1 - k]);
            }
            let r = if sub { p.try_sub_term(x, k) } else { p.try_add_term(x, k) };
            if k < N {
                let mut e = a;
                let i = N - 1 - k;
                e[i] = if sub { a[i].wsub(x) } else { a[i].wadd(x) };
                check(r.is_ok() & all_eqv(&p.coefficients, &e), 1);
                cover(1);
            } else {
                check(r == Err(TryAddError::DegreeOutOfBounds) || (x == T::of(0) && r.is_ok()), 2);
                check(all_eqv(&p.coefficients, &a), 3);
                cover(2);
            }
            p.set_to_zero();
            check(p.is_zero(), 4);
            check(p.try_add_term(T::of(1), N - 1).is_ok() && p.degree() == Degree::Num(N - 1), 5);
        }
    };
}
fixed!(bin_edit, LinearBinomial, 2);
fixed!(tri_edit, QuadraticTrinomial, 3);

/// A term below or above what is stored is subtracted from nothing: possible exactly when the
/// coefficient type has negative values; otherwise the polynomial stays as it was.
pub fn negate<T>()
where
    T: Int + AddAssign + SubAssign,
    Polynomial<T>: MutablePolynomial<T>,
    SparsePolynomial<T>: MutablePolynomial<T>,
{
    let (a, c): (T, T) = (coef(20), coef(20));
    let d = choose(4) + 1;
    assume(c != T::of(0) && c != T::min_val());
    let e = if T::SIGNED { T::of(0).wsub(c) } else { T::of(0) };
    let ok = |r: Result<(), TryAddError>| if T::SIGNED { r.is_ok() } else { r == Err(TryAddError::CanNotNegate) };
    let mut want = vec![T::of(0); TOP];
    want[0] = a;
    want[d] = e;
    let mut p = Polynomial { terms: vec![a] };
    check(ok(p.try_sub_term(c, d)), 1);
    check(same_dense(&p.terms, &want), 2);
    let mut t = BTreeMap::new();
    t.insert(0, a);
    let mut s = SparsePolynomial { terms: t };
    check(ok(s.try_sub_term(c, d)), 3);
    check(same_sparse(&s.terms, &want), 4);
    cover(1);
}
/// One edit far above, at or below the top of a long dense polynomial.
pub fn dense_far<T>()
where
    T: Int + AddAssign + SubAssign,
    Polynomial<T>: MutablePolynomial<T>,
{
    let n = param(0);
    let a: Vec<T> = vec_of(n, || coef(20));
    let d = [0, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300][choose(18)];
    let mut e = by_degree(&a);
    while e.len() <= d {
        e.push(T::of(0));
    }
    let mut p = Polynomial { terms: a };
    let c: T = coef(20);
    if choose(2) == 0 {
        p.add_term(c, d);
        e[d] = e[d].wadd(c);
    } else {
        check(p.try_sub_term(c, d).is_ok(), 1);
        e[d] = e[d].wsub(c);
    }
    check(agrees_dense(&p, &e), 2);
    cover(1);
}
/// Generic sum, difference and product into a dense and a sparse sink.
macro_rules! sums {
    ($f:ident, $t:ty) => {
        pub fn $f() {
            type T = $t;
            let (n, mask, s) = (param(0), param(1), param(2));
            let a: Vec<T> = vec_of(n, || coef(5));
            let p = Polynomial { terms: a.clone() };
            let q = sparse_mask::<T>(mask, || coef(5));
            let z: Vec<T> = vec_of(s, || coef(5));
            let (da, dq, dz) = (by_degree(&a), sparse_by_degree(&q.terms, TOP), by_degree(&z));
            let (e, sub) = match choose(3) {
                0 => (ref_add(&ref_add(&dz, &da), &dq), 0),
                1 => (ref_sub(&ref_sub(&dz, &da), &dq), 1),
                _ => (ref_add(&dz, &ref_mul(&da, &dq)), 2),
            };
            let mut dense = Polynomial { terms: z.clone() };
            let mut sparse = SparsePolynomial::from(z);
            if sub == 0 {
                check(add_poly(p.ordered_term_iter(), &mut dense).is_ok(), 1);
                check(add_poly(q.ordered_term_iter(), &mut dense).is_ok(), 2);
                check(add_poly(p.ordered_term_iter(), &mut sparse).is_ok(), 3);
                check(add_poly(q.ordered_term_iter(), &mut sparse).is_ok(), 4);
            } else if sub == 1 {
                check(sub_poly(p.ordered_term_iter(), &mut dense).is_ok(), 5);
                check(sub_poly(q.ordered_term_iter(), &mut dense).is_ok(), 6);
                check(sub_poly(p.ordered_term_iter(), &mut sparse).is_ok(), 7);
                check(sub_poly(q.ordered_term_iter(), &mut sparse).is_ok(), 8);
            } else {
                let l: Vec<(T, usize)> = q.ordered_term_iter().collect();
                check(mul_poly_vec(p.ordered_term_iter(), &l, &mut dense).is_ok(), 9);
                check(mul_poly_vec(p.ordered_term_iter(), &l, &mut sparse).is_ok(), 10);
            }
            check(same_dense(&dense.terms, &e), 11);
            check(same_sparse(&sparse.terms, &e), 12);
            cover(1);
        }
    };
}
sums!(sums_i32, i32);
sums!(sums_i8, i8);

/// The sum and difference macros, with and without a sink.
pub fn macros() {
    let (n, m) = (param(0), param(1));
    let a: Vec<i32> = vec_of(n, || coef(9));
    let b: Vec<i32> = vec_of(m, || coef(9));
    let z: Vec<i32> = vec_of(2, || coef(9));
    let (da, db, dz) = (by_degree(&a), by_degree(&b), by_degree(&z));
    let (p, q) = (Polynomial { terms: a }, SparsePolynomial::from(b));
    let mut sink = Polynomial { terms: z };
    match choose(4) {
        0 => {
            let r: Polynomial<i32> = poly_add!(p, q);
            check(same_dense(&r.terms, &ref_add(&da, &db)), 1);
        }
        1 => {
            let r: Polynomial<i32> = poly_sub!(p, q, p);
            check(same_dense(&r.terms, &ref_sub(&ref_sub(&da, &db), &da)), 2);
        }
        2 => {
            check(poly_add!(sink; p, q).is_ok(), 3);
            check(same_dense(&sink.terms, &ref_add(&ref_add(&dz, &da), &db)), 4);
        }
        _ => {
            check(poly_sub!(sink; p, q).is_ok(), 5);
            check(same_dense(&sink.terms, &ref_sub(&ref_sub(&dz, &da), &db)), 6);
        }
    }
    cover(1);
}
/// Sinks of fixed size: the sum succeeds exactly when every term fits, and then it
/// is the sum.
pub fn small_sinks() {
    let mask = param(0);
    let q = sparse_mask::<i32>(mask, || coef(9));
    let z: [i32; 3] = [coef(9), coef(9), coef(9)];
    let mut fits = [true, true];
    for (&d, &c) in q.terms.iter() {
        if c != 0 {
            fits[0] &= d <= 1;
            fits[1] &= d <= 2;
        }
    }
    let sub = choose(2) == 1;
    let at = |d: usize| if sub { sc(&q.terms, d).wrapping_neg() } else { sc(&q.terms, d) };
    let mut l = LinearBinomial::new([z[0], z[1]]);
    let r = if sub { sub_poly(q.ordered_term_iter(), &mut l) } else { add_poly(q.ordered_term_iter(), &mut l) };
    check(r.is_ok() == fits[0], 1);
    if fits[0] {
        check(l.coefficients == [z[0].wrapping_add(at(1)), z[1].wrapping_add(at(0))], 2);
    } else {
        check(r == Err(TryAddError::DegreeOutOfBounds), 3);
    }
    let mut t = QuadraticTrinomial::new(z);
    let r = if sub { sub_poly(q.ordered_term_iter(), &mut t) } else { add_poly(q.ordered_term_iter(), &mut t) };
    check(r.is_ok() == fits[1], 4);
    if fits[1] {
        check(t.coefficients == [z[0].wrapping_add(at(2)), z[1].wrapping_add(at(1)), z[2].wrapping_add(at(0))], 5);
    } else {
        check(r == Err(TryAddError::DegreeOutOfBounds), 6);
    }
    // a monomial takes at most one degree
    let mut m = Monomial::new(z[0], 1);
    let mut n = 0;
    for (&d, &c) in q.terms.iter() {
        if c != 0 && d != 1 {
            n += 1;
        }
    }
    let r = if sub { sub_poly(q.ordered_term_iter(), &mut m) } else { add_poly(q.ordered_term_iter(), &mut m) };
    if n == 0 {
        check(r.is_ok() & (m.coefficient == z[0].wrapping_add(at(1))), 7);
    } else if z[0] != 0 && at(1) == 0 {
        check(r == Err(TryAddError::TooManyTerms), 8);
    }
    cover(1);
}
/// Products and sums of terms of any degree into the fixed-size types, a monomial and a
/// sparse polynomial: an error exactly when a non-zero term does not fit.
pub fn product_sinks() {
    let (a, b, c): (i32, i32, i32) = (within(99), within(99), within(99));
    let z: [i32; 3] = [within(99), within(99), within(99)];
    let (d1, d2, e) = (usize::any(), usize::any(), usize::any());
    assume((a != 0) & (b != 0) & (c != 0));
    assume((d1 < 1 << 62) & (d2 < d1) & (e < 1 << 62));
    let (hi, lo) = (d1 + e, d2 + e);
    let product = choose(2) == 1;
    // a*c x^hi + b*c x^lo, as a product or term by term
    fn run<S: MutablePolynomial<i32>>(product: bool, c: (i32, usize), t: &[(i32, usize)], s: &mut S) -> Result<(), TryAddError> {
        if product {
            mul_poly_vec([c].into_iter(), t, s)
        } else {
            add_poly(t.iter().map(|&(x, d)| (x * c.0, d + c.1)), s)
        }
    }
    let t = [(a, d1), (b, d2)];
    let at = |d: usize| (if hi == d { a * c } else { 0 }) + (if lo == d { b * c } else { 0 });
    match choose(4) {
        0 => {
            let mut l = LinearBinomial::new([z[0], z[1]]);
            let r = run(product, (c, e), &t, &mut l);
            if hi <= 1 {
                check(r.is_ok() & (l.coefficients == [z[0] + at(1), z[1] + at(0)]), 1);
            } else {
                check(r == Err(TryAddError::DegreeOutOfBounds), 2);
            }
        }
        1 => {
            let mut q = QuadraticTrinomial::new(z);
            let r = run(product, (c, e), &t, &mut q);
            if hi <= 2 {
                check(r.is_ok() & (q.coefficients == [z[0] + at(2), z[1] + at(1), z[2] + at(0)]), 3);
            } else {
                check(r == Err(TryAddError::DegreeOutOfBounds), 4);
            }
        }
        2 => {
            // two different degrees never fit a monomial
            let mut m = Monomial::new(0i32, 0);
            check(run(product, (c, e), &t, &mut m) == Err(TryAddError::TooManyTerms), 5);
            let mut m = Monomial::new(0i32, 0);
            check(run(product, (c, e), &t[..1], &mut m).is_ok(), 6);
            check((m.coefficient == a * c) & (m.deg == hi), 7);
        }
        _ => {
            let mut s = SparsePolynomial::from_terms(&[(z[0], lo)]);
            check(run(product, (c, e), &t, &mut s).is_ok(), 8);
            check((sc(&s.terms, hi) == a * c) & (sc(&s.terms, lo) == z[0] + b * c), 9);
            let mut other = 0;
            for (&d, &v) in s.terms.iter() {
                other += ((d != hi) & (d != lo) & (v != 0)) as i32;
            }
            check(other == 0, 10);
        }
    }
    cover(1);
}
#[allow(unused)]
type Map = BTreeMap<usize, i32>;

entries! {
    c10_history => history();
    c10_sums_long => sums_long();
    c10_sparse_edit_long => sparse_edit_long();
    c10_from_terms_long => from_terms_long();
    c10_product_sinks => product_sinks();
    c10_dense_edits_i32 => dense_edits::<i32>();
    c10_dense_edits_u8 => dense_edits::<u8>();
    c10_sparse_edits_i32 => sparse_edits::<i32>();
    c10_sparse_edits_u8 => sparse_edits::<u8>();
    c10_sparse_any_degree => sparse_any_degree();
    c10_from_terms_i32 => from_terms::<i32>();
    c10_from_terms_u8 => from_terms::<u8>();
    c10_mono_edit_i32 => mono_edit::<i32>();
    c10_mono_edit_i8 => mono_edit::<i8>();
    c10_bin_edit_i32 => bin_edit::<i32>();
    c10_bin_edit_u8 => bin_edit::<u8>();
    c10_tri_edit_i32 => tri_edit::<i32>();
    c10_tri_edit_u8 => tri_edit::<u8>();
    c10_negate_u8 => negate::<u8>();
    c10_negate_u16 => negate::<u16>();
    c10_negate_u32 => negate::<u32>();
    c10_negate_u64 => negate::<u64>();
    c10_negate_u128 => negate::<u128>();
    c10_negate_usize => negate::<usize>();
    c10_negate_i8 => negate::<i8>();
    c10_negate_i16 => negate::<i16>();
    c10_negate_i32 => negate::<i32>();
    c10_negate_i64 => negate::<i64>();
    c10_negate_i128 => negate::<i128>();
    c10_negate_isize => negate::<isize>();
    c10_negate_f32 => negate::<f32>();
    c10_negate_f64 => negate::<f64>();
    c10_dense_far_i32 => dense_far::<i32>();
    c10_dense_edits_f64 => dense_edits::<f64>();
    c10_sparse_edits_f64 => sparse_edits::<f64>();
    c10_from_terms_f64 => from_terms::<f64>();
    c10_mono_edit_f64 => mono_edit::<f64>();
    c10_bin_edit_f64 => bin_edit::<f64>();
    c10_tri_edit_f64 => tri_edit::<f64>();
    c10_sums_i32 => sums_i32();
    c10_sums_i8 => sums_i8();
    c10_macros => macros();
    c10_small_sinks => small_sinks();
}
