// Division with remainder.
use crate::api::*;
use rustnomial::*;
use std::ops::*;

fn deg<T: Copy + num::Zero>(v: &[T]) -> usize {
    // number of coefficients up to the leading one (0 for the zero polynomial)
    let mut n = v.len();
    while n > 0 && v[n - 1].is_zero() {
        n -= 1;
    }
    n
}

/// a = q*b + r, coefficient by coefficient (all vectors indexed by degree).
fn identity<T: Int>(a: &[T], b: &[T], q: &[T], r: &[T]) -> bool {
    let s = ref_add(&ref_mul(q, b), r);
    let n = if a.len() > s.len() { a.len() } else { s.len() };
    let mut ok = true;
    for d in 0..n {
        let x = if d < a.len() { a[d] } else { T::of(0) };
        let y = if d < s.len() { s[d] } else { T::of(0) };
        ok &= x == y;
    }
    ok
}

fn zeros_first<T: Int>(n: usize, z: usize, f: impl FnMut() -> T) -> Vec<T> {
    let mut v = vec![T::of(0); z];
    v.extend(coefs(n - z, f));
    v
}
// What kind of coefficients the task uses:
// 0: divisor's stored leading coefficient is 1, all others arbitrary
// 1: divisor's stored leading coefficient is -1, all coefficients bounded
// 2: everything arbitrary (truncating integer division), -1 leading excluded
// 3: everything arbitrary and bounded by 3
// 4: a fixed monic divisor, for long dividends
fn inputs<T: Int>(n: usize, m: usize, kind: usize) -> (Vec<T>, Vec<T>) {
    let c = |kind: usize| -> T {
        match kind {
            1 | 3 | 4 => within(3),
            _ => coef(3),
        }
    };
    // leading zeros in storage: the low and the high byte of param(3)
    let (z, za) = (param(3) & 255, param(3) >> 8);
    let a: Vec<T> = zeros_first(n, za, || c(kind));
    let mut b: Vec<T> = zeros_first(m, z, || c(kind));
    if m > 0 {
        match kind {
            0 => b[z] = T::of(1),
            1 => b[z] = T::of(-1),
            2 => assume(b[z] != T::of(-1) && b[z] != T::of(0)),
            4 => {
                for i in 0..m {
                    b[i] = if i == 0 { T::of(1) } else { T::of(i as i128 * 5 % 3 - 1) };
                }
            }
            _ => {}
        }
    }
    (a, b)
}

pub fn dense<T>()
where
    T: Int + Sub<Output = T> + SubAssign + Mul<Output = T> + Div<Output = T>,
{
    let (n, m, kind) = (param(0), param(1), param(2));
    let (a, b) = inputs::<T>(n, m, kind);
    let (da, db) = (by_degree(&a), by_degree(&b));
    let lb = deg(&db);
    let (p, d) = (Polynomial { terms: a }, Polynomial { terms: b });
    allow_panic(lb == 0);
    let (q, r) = p.div_mod(&d);
    check(lb != 0, 1); // dividing by zero must not return
    allow_panic(false);
    let (vq, vr) = (by_degree(&q.terms), by_degree(&r.terms));
    check(identity(&da, &db, &vq, &vr), 2);
    if kind < 2 || kind == 4 {
        // exact division of coefficients: the remainder is smaller than the divisor
        check(deg(&vr) < lb, 3);
    }
    check(same_dense(&p.floor_div(&d).terms, &vq), 4);
    check(same_dense(&(p.clone() % d.clone()).terms, &vr), 5);
    let mut x = p.clone();
    x %= d.clone();
    check(same_dense(&x.terms, &vr), 6);
    cover(1);
}
/// Divided by itself: quotient 1, remainder 0.
pub fn by_itself() {
    let n = param(0);
    let mut a: Vec<i32> = coefs(n, || coef(9));
    let l = [1, -1, 2, -7, i32::MAX][choose(5)];
    a[0] = l;
    let (q, r) = if choose(2) == 0 {
        let p = Polynomial { terms: a };
        let (q, r) = p.div_mod(&p);
        check(same_dense(&p.floor_div(&p).terms, &[1]), 1);
        (by_degree(&q.terms), by_degree(&r.terms))
    } else {
        let p = SparsePolynomial::from(a);
        let (q, r) = p.div_mod(&p);
        (sparse_by_degree(&q.terms, n + 1), sparse_by_degree(&r.terms, n + 1))
    };
    check((deg(&q) == 1) && (q[0] == 1), 2);
    check(deg(&r) == 0, 3);
    cover(1);
}
/// Every way to divide by the zero polynomial panics, whatever its storage.
pub fn dense_by_zero() {
    let (n, m) = (param(0), param(1));
    let p = Polynomial { terms: vec_of(n, i32::any) };
    let z = Polynomial { terms: vec![0i32; m] };
    allow_panic(true);
    match choose(4) {
        0 => drop(p.div_mod(&z)),
        1 => drop(p.floor_div(&z)),
        2 => drop(p % z),
        _ => {
            let mut p = p;
            p %= z;
        }
    }
    check(false, 1);
}
pub fn sparse_by_zero() {
    let p = sparse_mask(param(0), i32::any);
    let z = sparse_mask(param(1), || 0i32);
    allow_panic(true);
    match choose(3) {
        0 => drop(p.div_mod(&z)),
        1 => drop(p % z),
        _ => {
            let mut p = p;
            p %= z;
        }
    }
    check(false, 1);
}
pub fn sparse<T>()
where
    T: Int + Neg<Output = T> + Sub<Output = T> + SubAssign + Mul<Output = T> + Div<Output = T> + AddAssign,
{
    // n, m: number of low degrees; params 4, 5: masks of the degrees stored
    let (n, m, kind) = (param(0), param(1), param(2));
    let (a, b) = inputs::<T>(n, m, kind);
    let (ma, mb) = (param(4), param(5));
    let mk = |v: &Vec<T>, mask: usize| {
        let mut t = std::collections::BTreeMap::new();
        for d in 0..v.len() {
            if mask >> d & 1 == 1 {
                t.insert(d, v[v.len() - 1 - d]);
            }
        }
        SparsePolynomial { terms: t }
    };
    let (p, d) = (mk(&a, ma), mk(&b, mb));
    let (da, db) = (sparse_by_degree(&p.terms, n), sparse_by_degree(&d.terms, m));
    let lb = deg(&db);
    allow_panic(lb == 0);
    let (q, r) = p.div_mod(&d);
    check(lb != 0, 1);
    allow_panic(false);
    let mut top = n + m;
    for (&k, _) in q.terms.iter().chain(r.terms.iter()) {
        if k + 1 > top {
            top = k + 1;
        }
    }
    let (vq, vr) = (sparse_by_degree(&q.terms, top), sparse_by_degree(&r.terms, top));
    check(identity(&da, &db, &vq, &vr), 2);
    if kind < 2 || kind == 4 {
        check(deg(&vr) < lb, 3);
    }
    check(same_sparse(&(p.clone() % d.clone()).terms, &vr), 4);
    let mut x = p.clone();
    x %= d.clone();
    check(same_sparse(&x.terms, &vr), 5);
    cover(1);
}
/// Terms of any degree divided by a monic (or negated) power of x of any degree.
pub fn sparse_any_degree() {
    // MIN / -1 is not representable
    let u = if param(0) == 1 { -1 } else { 1 };
    let mut c = || if u == -1 { within(1 << 30) } else { coef(9) };
    let (a, b): (i32, i32) = (c(), c());
    let (d, e, k) = (usize::any(), usize::any(), usize::any());
    assume(e < d);
    let mk = |v: &[(i32, usize)]| {
        let mut t = std::collections::BTreeMap::new();
        for &(c, d) in v {
            t.insert(d, c);
        }
        SparsePolynomial { terms: t }
    };
    let (p, v) = (mk(&[(a, d), (b, e)]), mk(&[(u, k)]));
    let (q, r) = p.div_mod(&v);
    let rem = if choose(2) == 0 {
        p % v
    } else {
        let mut p = p;
        p %= v;
        p
    };
    // one coefficient of each, chosen freely
    let j = usize::any();
    let at = |j: usize| if j == d { a } else if j == e { b } else { 0 };
    let low = if j < k { at(j) } else { 0 };
    check(sc(&r.terms, j) == low, 1);
    check(sc(&rem.terms, j) == low, 2);
    let high = if j <= usize::MAX - k { at(j + k).wrapping_mul(u) } else { 0 };
    check(sc(&q.terms, j) == high, 3);
    cover(1);
}

/// The field with seven elements: every non-zero leading coefficient divides.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct F7(u8);
fn m7(x: u16) -> F7 {
    F7((x % 7) as u8)
}
impl Add for F7 {
    type Output = F7;
    fn add(self, o: F7) -> F7 {
        m7(self.0 as u16 + o.0 as u16)
    }
}
impl Sub for F7 {
    type Output = F7;
    fn sub(self, o: F7) -> F7 {
        m7(self.0 as u16 + 7 - o.0 as u16)
    }
}
impl Neg for F7 {
    type Output = F7;
    fn neg(self) -> F7 {
        m7(7 - self.0 as u16)
    }
}
impl Mul for F7 {
    type Output = F7;
    fn mul(self, o: F7) -> F7 {
        m7(self.0 as u16 * o.0 as u16)
    }
}
impl Div for F7 {
    type Output = F7;
    fn div(self, o: F7) -> F7 {
        // o^5 is the inverse of o
        let o2 = o * o;
        self * (o2 * o2 * o)
    }
}
impl AddAssign for F7 {
    fn add_assign(&mut self, o: F7) {
        *self = *self + o;
    }
}
impl SubAssign for F7 {
    fn sub_assign(&mut self, o: F7) {
        *self = *self - o;
    }
}
impl num::Zero for F7 {
    fn zero() -> F7 {
        F7(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl Eqv for F7 {
    fn eqv(self, o: F7) -> bool {
        self == o
    }
}
fn f7() -> F7 {
    let v = u8::any();
    assume(v < 7);
    F7(v)
}
fn id7(a: &[F7], b: &[F7], q: &[F7], r: &[F7]) -> bool {
    let mut s = vec![0u16; a.len() + b.len() + q.len() + r.len() + 1];
    for i in 0..q.len() {
        for j in 0..b.len() {
            s[i + j] += q[i].0 as u16 * b[j].0 as u16;
        }
    }
    for i in 0..r.len() {
        s[i] += r[i].0 as u16;
    }
    let mut ok = true;
    for d in 0..s.len() {
        let x = if d < a.len() { a[d].0 } else { 0 };
        ok &= (s[d] % 7) as u8 == x;
    }
    ok
}
pub fn dense_f7() {
    let a = vec_of(param(0), f7);
    let b = vec_of(param(1), f7);
    let (da, db) = (by_degree(&a), by_degree(&b));
    let lb = deg(&db);
    assume(lb != 0);
    let (p, d) = (Polynomial { terms: a }, Polynomial { terms: b });
    let (q, r) = p.div_mod(&d);
    let (vq, vr) = (by_degree(&q.terms), by_degree(&r.terms));
    check(id7(&da, &db, &vq, &vr), 2);
    check(deg(&vr) < lb, 3);
    check(same_dense(&(p.clone() % d.clone()).terms, &vr), 5);
    let mut x = p.clone();
    x %= d.clone();
    check(same_dense(&x.terms, &vr), 6);
    cover(1);
}
pub fn sparse_f7() {
    let p = sparse_mask(param(0), f7);
    let d = sparse_mask(param(1), f7);
    let (da, db) = (sparse_by_degree(&p.terms, 6), sparse_by_degree(&d.terms, 6));
    let lb = deg(&db);
    assume(lb != 0);
    let (q, r) = p.div_mod(&d);
    let (vq, vr) = (sparse_by_degree(&q.terms, 8), sparse_by_degree(&r.terms, 8));
    check(id7(&da, &db, &vq, &vr), 2);
    check(deg(&vr) < lb, 3);
    check(same_sparse(&(p.clone() % d.clone()).terms, &vr), 5);
    let mut x = p.clone();
    x %= d.clone();
    check(same_sparse(&x.terms, &vr), 6);
    cover(1);
}
/// Floating point: whatever the coefficients (rounding, infinities, NaN), the
/// division terminates; a non-zero divisor never panics.
pub fn float_terminates() {
    float_division(f64::any)
}
/// The same on coefficients whose quotients are inexact, infinite or undefined.
pub fn float_special() {
    float_division(|| [1.0, 10.0, 0.1, 3.0, -7.0, f64::INFINITY, f64::NAN, 1e-320, 0.0][choose(9)])
}
fn float_division(mut c: impl FnMut() -> f64) {
    let a = vec_of(param(0), &mut c);
    let b = vec_of(param(1), &mut c);
    assume(b.len() > 0 && b[0] != 0.0);
    match param(2) {
        0 => {
            let (p, d) = (Polynomial { terms: a }, Polynomial { terms: b });
            match choose(3) {
                0 => drop(p.div_mod(&d)),
                1 => drop(p % d),
                _ => {
                    let mut p = p;
                    p %= d;
                }
            }
        }
        _ => {
            let (p, d) = (SparsePolynomial::from(a), SparsePolynomial::from(b));
            match choose(3) {
                0 => drop(p.div_mod(&d)),
                1 => drop(p % d),
                _ => {
                    let mut p = p;
                    p %= d;
                }
            }
        }
    }
    cover(1);
}

/// Small whole coefficients in floating point: the quotients are rounded, but what is left
/// has a lower degree than the divisor, and the first quotient coefficient is the rounded one.
macro_rules! float_small {
    ($f:ident, $t:ty) => {
        pub fn $f() {
            let c = || {
                let v = i8::any();
                assume((v <= 15) & (v >= -15));
                v as $t
            };
            let (a, mut b) = (vec_of(param(0), c), vec_of(param(1), c));
            b[0] = param(3) as $t;
            assume(a[0] != 0.0);
            let (n, m) = (a.len(), b.len());
            let want = a[0] / b[0];
            let (vq, vr) = if param(2) == 0 {
                let (p, d) = (Polynomial { terms: a }, Polynomial { terms: b });
                let (q, r) = match choose(3) {
                    0 => p.div_mod(&d),
                    1 => (p.div_mod(&d).0, p % d),
                    _ => {
                        let q = p.div_mod(&d).0;
                        let mut r = p;
                        r %= d;
                        (q, r)
                    }
                };
                (by_degree(&q.terms), by_degree(&r.terms))
            } else {
                let (p, d) = (SparsePolynomial::from(a), SparsePolynomial::from(b));
                let (q, r) = match choose(3) {
                    0 => p.div_mod(&d),
                    1 => (p.div_mod(&d).0, p % d),
                    _ => {
                        let q = p.div_mod(&d).0;
                        let mut r = p;
                        r %= d;
                        (q, r)
                    }
                };
                (sparse_by_degree(&q.terms, 8), sparse_by_degree(&r.terms, 8))
            };
            for d in m - 1..vr.len() {
                check(vr[d] == 0.0, 1);
            }
            check(vq[n - m] == want, 2);
            for d in n - m + 1..vq.len() {
                check(vq[d] == 0.0, 3);
            }
            cover(1);
        }
    };
}
float_small!(float_small_f32, f32);
float_small!(float_small_f64, f64);

entries! {
    c05_by_itself => by_itself();
    c05_float_small_f32 => float_small_f32();
    c05_float_small_f64 => float_small_f64();
    c05_dense_i32 => dense::<i32>();
    c05_dense_i8 => dense::<i8>();
    c05_dense_by_zero => dense_by_zero();
    c05_sparse_i32 => sparse::<i32>();
    c05_sparse_i8 => sparse::<i8>();
    c05_sparse_any_degree => sparse_any_degree();
    c05_sparse_by_zero => sparse_by_zero();
    c05_dense_f7 => dense_f7();
    c05_sparse_f7 => sparse_f7();
    c05_float_terminates => float_terminates();
    c05_float_special => float_special();
}
