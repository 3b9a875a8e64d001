// Shifts: multiplication by x^s, and division by x^s dropping the low terms.
use crate::api::*;
use rustnomial::*;

fn shifted<T: Copy + num::Zero>(a: &[T], s: i64) -> Vec<T> {
    // by degree
    let mut v = Vec::new();
    if s >= 0 {
        for _ in 0..s {
            v.push(T::zero());
        }
        v.extend_from_slice(a);
    } else {
        let k = (-s) as usize;
        if k < a.len() {
            v.extend_from_slice(&a[k..]);
        }
    }
    v
}
/// Shift amounts -7..=7, all four operators.
pub fn dense() {
    let a: Vec<i32> = vec_of(param(0), i32::any);
    let s = choose(15) as i32 - 7;
    let p = Polynomial { terms: a.clone() };
    let da = by_degree(&a);
    check(same_dense(&(p.clone() << s).terms, &shifted(&da, s as i64)), 1);
    check(same_dense(&(p.clone() >> s).terms, &shifted(&da, -(s as i64))), 2);
    let mut r = p.clone();
    r <<= s;
    check(same_dense(&r.terms, &shifted(&da, s as i64)), 3);
    let mut r = p.clone();
    r >>= s;
    check(same_dense(&r.terms, &shifted(&da, -(s as i64))), 4);
    cover(1);
}
/// Longer shifts.
pub fn dense_far() {
    let a: Vec<i32> = vec_of(param(0), i32::any);
    let s = [8, 16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 300][choose(12)];
    let p = Polynomial { terms: a.clone() };
    let da = by_degree(&a);
    check(same_dense(&(p.clone() << s).terms, &shifted(&da, s as i64)), 1);
    check(same_dense(&(p.clone() >> -s).terms, &shifted(&da, s as i64)), 2);
    let mut r = p.clone();
    r <<= s;
    check(same_dense(&r.terms, &shifted(&da, s as i64)), 3);
    r >>= s;
    check(same_dense(&r.terms, &da), 4);
    let mut r = p.clone();
    r >>= -s;
    check(same_dense(&r.terms, &shifted(&da, s as i64)), 5);
    r <<= -s;
    check(same_dense(&r.terms, &da), 6);
    cover(1);
}
/// Any amount that shifts everything out, right or (negative) left.
pub fn dense_out() {
    let a: Vec<i32> = vec_of(param(0), i32::any);
    let s = i32::any();
    let p = Polynomial { terms: a.clone() };
    if choose(2) == 0 {
        assume(s >= a.len() as i32);
        check(same_dense(&(p.clone() >> s).terms, &[]), 1);
        let mut r = p;
        r >>= s;
        check(same_dense(&r.terms, &[]), 2);
    } else {
        assume(s < 0 && s <= -(a.len() as i32));
        check(same_dense(&(p.clone() << s).terms, &[]), 3);
        let mut r = p;
        r <<= s;
        check(same_dense(&r.terms, &[]), 4);
    }
    cover(1);
}
/// Any amount at all, sparse storage: one symbolic coefficient of the result.
pub fn sparse() {
    let p = sparse_mask(param(0), i32::any);
    let s = i32::any();
    let up = |k: usize, s: i64| -> i32 {
        // coefficient of x^k in p * x^s (s may be negative)
        let mut r = 0;
        for (&d, &c) in p.terms.iter() {
            if d as i64 + s >= 0 && (d as i64 + s) as usize == k {
                r = c;
            }
        }
        r
    };
    let k = usize::any();
    let r = match choose(4) {
        0 => (p.clone() << s, 1),
        1 => (p.clone() >> s, -1),
        2 => {
            let mut r = p.clone();
            r <<= s;
            (r, 1)
        }
        _ => {
            let mut r = p.clone();
            r >>= s;
            (r, -1)
        }
    };
    check(sc(&r.0.terms, k) == up(k, s as i64 * r.1), 1);
    cover(1);
}
/// More terms than one node of the map holds.
pub fn sparse_long() {
    let (n, g) = (param(0), param(1));
    let p = crate::api::sparse_long(n, g, i32::any);
    let a = sparse_by_degree(&p.terms, n * g);
    let s = [0, 1, 2, 7, 33, 150, i32::MAX][choose(7)] * if choose(2) == 0 { 1 } else { -1 };
    let (r, t) = match choose(4) {
        0 => (p << s, s),
        1 => (p >> s, -s),
        2 => {
            let mut r = p;
            r <<= s;
            (r, s)
        }
        _ => {
            let mut r = p;
            r >>= s;
            (r, -s)
        }
    };
    if t < 0 || s.abs() < 1000 {
        check(same_sparse(&r.terms, &shifted(&a, t as i64)), 1);
    } else {
        let mut ok = true;
        for d in 0..a.len() {
            ok &= sc(&r.terms, d + t as usize) == a[d];
        }
        check(ok & (r.terms.keys().next().map_or(true, |d| *d >= t as usize)), 2);
    }
    cover(1);
}
/// Terms at any degrees (no overflow), any amount.
pub fn sparse_any_degree() {
    let n = param(0);
    let (c, d): (Vec<i32>, Vec<usize>) = (vec_of(n, i32::any), vec_of(n, usize::any));
    let mut p = SparsePolynomial::new(Default::default());
    for i in 0..n {
        assume(i == 0 || d[i - 1] < d[i]);
        assume(d[i] < 1 << 62);
        p.terms.insert(d[i], c[i]);
    }
    let s = i32::any();
    let (r, t) = match choose(4) {
        0 => (p << s, s as i64),
        1 => (p >> s, -(s as i64)),
        2 => {
            p <<= s;
            (p, s as i64)
        }
        _ => {
            p >>= s;
            (p, -(s as i64))
        }
    };
    let mut left = 0;
    for i in 0..n {
        if d[i] as i64 + t >= 0 {
            check(sc(&r.terms, (d[i] as i64 + t) as usize) == c[i], 1);
            left += 1;
        }
    }
    check(r.terms.values().filter(|v| **v != 0).count() <= left, 2);
    cover(1);
}
/// Any degree, any amount.
pub fn mono() {
    let (c, d, s) = (i32::any(), usize::any(), i32::any());
    let p = Monomial::new(c, d);
    let (r, t) = match choose(4) {
        0 => {
            assume(s < 0 || d <= usize::MAX - s as usize);
            (p << s, s as i64)
        }
        1 => {
            assume(s >= 0 || d <= usize::MAX - s.unsigned_abs() as usize);
            (p >> s, -(s as i64))
        }
        2 => {
            assume(s < 0 || d <= usize::MAX - s as usize);
            let mut p = p;
            p <<= s;
            (p, s as i64)
        }
        _ => {
            assume(s >= 0 || d <= usize::MAX - s.unsigned_abs() as usize);
            let mut p = p;
            p >>= s;
            (p, -(s as i64))
        }
    };
    if t >= 0 {
        check((r.coefficient == c) & ((r.deg == d + t as usize) | (c == 0)), 1);
        cover(1);
    } else {
        let k = t.unsigned_abs() as usize;
        if k > d {
            check(r.coefficient == 0, 2);
            cover(2);
        } else {
            check((r.coefficient == c) & ((r.deg == d - k) | (c == 0)), 3);
            cover(3);
        }
    }
}
pub fn small() {
    let (a, s) = ([i32::any(), i32::any(), i32::any()], u32::any());
    let l = LinearBinomial::new([a[0], a[1]]);
    let q = QuadraticTrinomial::new(a);
    // coefficient at array slot i of the shifted polynomial
    let e = |n: usize, i: usize| -> i32 {
        let s = s as usize;
        if s > i || s > n {
            0
        } else {
            a[i - s]
        }
    };
    check((l.clone() >> s).coefficients == [e(2, 0), e(2, 1)], 1);
    let mut r = l;
    r >>= s;
    check(r.coefficients == [e(2, 0), e(2, 1)], 2);
    check((q.clone() >> s).coefficients == [e(3, 0), e(3, 1), e(3, 2)], 3);
    let mut r = q;
    r >>= s;
    check(r.coefficients == [e(3, 0), e(3, 1), e(3, 2)], 4);
    cover(1);
}

entries! {
    c06_sparse_long => sparse_long();
    c06_dense => dense();
    c06_dense_far => dense_far();
    c06_dense_out => dense_out();
    c06_sparse => sparse();
    c06_sparse_any_degree => sparse_any_degree();
    c06_mono => mono();
    c06_small => small();
}
