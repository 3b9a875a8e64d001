// Conversions to a wider coefficient type.
use crate::api::*;
use rustnomial::*;
use std::collections::BTreeMap;

/// Equal as numbers (NaN counts as equal to NaN).
#[allow(clippy::eq_op)]
fn num_eq<T: PartialEq + Copy>(a: T, b: T) -> bool {
    (a == b) | ((a != a) & (b != b))
}
/// The same number in another type, by a route of its own: integers through i128, or u128.
trait To<B>: Any + num::Zero + PartialEq {
    fn to(self) -> B;
}
macro_rules! to {
    ($(($a:ty, $b:ty, $m:ty)),* $(,)?) => { $(impl To<$b> for $a { fn to(self) -> $b { self as $m as $b } })* };
}

macro_rules! pairs {
    ($(($i:expr, $a:ty, $b:ty, $m:ty)),* $(,)?) => {
        to!($(($a, $b, $m)),*);
        pub fn mono() { match param(0) { $($i => mono_of::<$a, $b>(),)* _ => unreachable!() } }
        pub fn bin() { match param(0) { $($i => bin_of::<$a, $b>(),)* _ => unreachable!() } }
        pub fn tri() { match param(0) { $($i => tri_of::<$a, $b>(),)* _ => unreachable!() } }
        pub fn dense() { match param(0) { $($i => dense_of::<$a, $b>(),)* _ => unreachable!() } }
        pub fn sparse() { match param(0) { $($i => sparse_of::<$a, $b>(),)* _ => unreachable!() } }
    };
}
pairs!(
    (0, u8, u16, u128), (1, u8, u32, u128), (2, u8, u64, u128), (3, u8, u128, u128), (4, u16, u32, u128), (5, u16, u64, u128),
    (6, u16, u128, u128), (7, u32, u64, u128), (8, u32, u128, u128), (9, u64, u128, u128), (10, u8, i16, i128), (11, u8, i32, i128),
    (12, u8, i64, i128), (13, u8, i128, i128), (14, u16, i32, i128), (15, u16, i64, i128), (16, u16, i128, i128), (17, u32, i64, i128),
    (18, u32, i128, i128), (19, u64, i128, i128), (20, i8, i16, i128), (21, i8, i32, i128), (22, i8, i64, i128), (23, i8, i128, i128),
    (24, i16, i32, i128), (25, i16, i64, i128), (26, i16, i128, i128), (27, i32, i64, i128), (28, i32, i128, i128), (29, i64, i128, i128),
    (30, u8, f32, u32), (31, u16, f32, u32), (32, i8, f32, i32), (33, i16, f32, i32), (34, u8, f64, u32), (35, u16, f64, u32),
    (36, u32, f64, u32), (37, i8, f64, i32), (38, i16, f64, i32), (39, i32, f64, i32), (40, f32, f64, f64),
);

fn mono_of<A: To<B>, B: Copy + PartialEq + num::Zero>()
where
    Monomial<B>: From<Monomial<A>>,
{
    let (c, d) = (A::any(), usize::any());
    let r = Monomial::<B>::from(Monomial::new(c, d));
    check(num_eq(r.coefficient, c.to()), 1);
    check((r.deg == d) | c.is_zero(), 2);
    cover(1);
}
fn bin_of<A: To<B>, B: Copy + PartialEq + num::Zero>()
where
    LinearBinomial<B>: From<LinearBinomial<A>>,
{
    let a = [A::any(), A::any()];
    let r = LinearBinomial::<B>::from(LinearBinomial::new(a)).coefficients;
    check(num_eq(r[0], a[0].to()), 1);
    check(num_eq(r[1], a[1].to()), 2);
    cover(1);
}
fn tri_of<A: To<B>, B: Copy + PartialEq + num::Zero>()
where
    QuadraticTrinomial<B>: From<QuadraticTrinomial<A>>,
{
    let a = [A::any(), A::any(), A::any()];
    let r = QuadraticTrinomial::<B>::from(QuadraticTrinomial::new(a)).coefficients;
    check(num_eq(r[0], a[0].to()), 1);
    check(num_eq(r[1], a[1].to()), 2);
    check(num_eq(r[2], a[2].to()), 3);
    cover(1);
}
fn dense_of<A: To<B>, B: Copy + PartialEq + num::Zero>()
where
    Polynomial<B>: From<Polynomial<A>>,
{
    let a: Vec<A> = vec_of(param(1), A::any);
    let r = Polynomial::<B>::from(Polynomial { terms: a.clone() });
    let n = a.len().max(r.terms.len());
    for d in 0..n {
        let x = if d < r.terms.len() { r.terms[r.terms.len() - 1 - d] } else { B::zero() };
        let y = if d < a.len() { a[a.len() - 1 - d].to() } else { B::zero() };
        check(num_eq(x, y), 1);
    }
    cover(1);
}
fn sparse_of<A: To<B>, B: Copy + PartialEq + num::Zero>()
where
    SparsePolynomial<B>: From<SparsePolynomial<A>>,
{
    let n = param(1);
    let (a, d): (Vec<A>, Vec<usize>) = (vec_of(n, A::any), vec_of(n, usize::any));
    let mut m = BTreeMap::new();
    for i in 0..n {
        assume(i == 0 || d[i - 1] < d[i]);
        m.insert(d[i], a[i]);
    }
    let r = SparsePolynomial::<B>::from(SparsePolynomial::new(m));
    for i in 0..n {
        check(num_eq(r.terms.get(&d[i]).copied().unwrap_or(B::zero()), a[i].to()), 1);
    }
    check(r.terms.values().filter(|v| !v.is_zero()).count() <= n, 2);
    let k = usize::any();
    assume(d.iter().all(|x| *x != k));
    check(r.terms.get(&k).map_or(true, |v| v.is_zero()), 3);
    cover(1);
}
/// More terms than one node of the map holds.
pub fn sparse_long() {
    let (n, s) = (param(0), param(1));
    let p = crate::api::sparse_long::<i16>(n, s, i16::any);
    let a = sparse_by_degree(&p.terms, n * s);
    if choose(2) == 0 {
        let r = SparsePolynomial::<i64>::from(p);
        check(same_sparse(&r.terms, &a.iter().map(|&c| c as i64).collect::<Vec<_>>()), 1);
    } else {
        let r = SparsePolynomial::<f64>::from(p);
        check(same_sparse(&r.terms, &a.iter().map(|&c| c as f64).collect::<Vec<_>>()), 2);
    }
    cover(1);
}

entries! {
    c14_sparse_long => sparse_long();
    c14_mono => mono();
    c14_bin => bin();
    c14_tri => tri();
    c14_dense => dense();
    c14_sparse => sparse();
}
