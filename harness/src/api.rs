use rustnomial::*;
use std::collections::BTreeMap;

extern "C" {
    fn v_any_u8() -> u8;
    fn v_any_u16() -> u16;
    fn v_any_u32() -> u32;
    fn v_any_u64() -> u64;
    fn v_any_u128() -> u128;
    fn v_param(i: u64) -> u64;
    fn v_choose(n: u64) -> u64;
    fn v_assume(c: bool);
    fn v_assert(c: bool, id: u64);
    fn v_cover(id: u64);
    fn v_allow_panic(c: bool);
    fn v_end();
}

/// True in the build whose arithmetic overflow panics.
pub const DBG: bool = cfg!(feature = "dbg");

/// i-th concrete parameter of the task (sizes, shapes).
pub fn param(i: u64) -> usize {
    unsafe { v_param(i) as usize }
}
/// A case split over 0..n: every value is explored on its own path.
pub fn choose(n: usize) -> usize {
    unsafe { v_choose(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { v_assume(c) }
}
#[track_caller]
pub fn check(c: bool, id: u64) {
    unsafe { v_assert(c, id) }
}
/// Vacuity witness: the check fails to be credited if no path reaches it.
pub fn cover(id: u64) {
    unsafe { v_cover(id) }
}
/// From here to the next call, a panic is acceptable exactly when `c` holds.
pub fn allow_panic(c: bool) {
    unsafe { v_allow_panic(c) }
}
pub fn end() {
    unsafe { v_end() }
}

pub trait Any: Copy {
    fn any() -> Self;
}
macro_rules! any_as {
    ($($t:ty => $f:ident),*) => { $(impl Any for $t { fn any() -> $t { unsafe { $f() as $t } } })* };
}
any_as!(u8 => v_any_u8, i8 => v_any_u8, u16 => v_any_u16, i16 => v_any_u16, u32 => v_any_u32,
        i32 => v_any_u32, u64 => v_any_u64, i64 => v_any_u64, usize => v_any_u64,
        isize => v_any_u64, u128 => v_any_u128, i128 => v_any_u128);
impl Any for f32 {
    fn any() -> f32 {
        f32::from_bits(unsafe { v_any_u32() })
    }
}
impl Any for f64 {
    fn any() -> f64 {
        f64::from_bits(unsafe { v_any_u64() })
    }
}

/// Integer coefficients, with the reference arithmetic used by the oracles:
/// wrapping, i.e. the ring Z/2^w in the unchecked build; in the overflow-checked
/// build the harnesses bound the values so that nothing wraps.
pub trait Int:
    Any + PartialEq + PartialOrd + num::Zero + num::One + std::fmt::Debug + Eqv + 'static
{
    const SIGNED: bool;
    const FLOAT: bool = false;
    fn wadd(self, o: Self) -> Self;
    fn wsub(self, o: Self) -> Self;
    fn wmul(self, o: Self) -> Self;
    fn of(v: i128) -> Self;
    fn wide(self) -> i128;
    fn min_val() -> Self;
    fn max_val() -> Self;
}
macro_rules! ints {
    ($($t:ty, $s:expr);*) => { $(impl Int for $t {
        const SIGNED: bool = $s;
        fn wadd(self, o: Self) -> Self { self.wrapping_add(o) }
        fn wsub(self, o: Self) -> Self { self.wrapping_sub(o) }
        fn wmul(self, o: Self) -> Self { self.wrapping_mul(o) }
        fn of(v: i128) -> Self { v as $t }
        fn wide(self) -> i128 { self as i128 }
        fn min_val() -> Self { <$t>::MIN }
        fn max_val() -> Self { <$t>::MAX }
    })* };
}
ints!(u8, false; u16, false; u32, false; u64, false; u128, false; usize, false;
      i8, true; i16, true; i32, true; i64, true; i128, true; isize, true);

/// Floats: the reference is the same IEEE operation, once per coefficient.
macro_rules! floats {
    ($($t:ty),*) => { $(impl Int for $t {
        const SIGNED: bool = true;
        const FLOAT: bool = true;
        fn wadd(self, o: Self) -> Self { self + o }
        fn wsub(self, o: Self) -> Self { self - o }
        fn wmul(self, o: Self) -> Self { self * o }
        fn of(v: i128) -> Self { v as $t }
        fn wide(self) -> i128 { self as i128 }
        fn min_val() -> Self { <$t>::MIN }
        fn max_val() -> Self { <$t>::MAX }
    })* };
}
floats!(f32, f64);

/// The same coefficient: equal, or (floats) the same bits.
pub trait Eqv: Copy {
    fn eqv(self, o: Self) -> bool;
}
macro_rules! eqv_int { ($($t:ty),*) => { $(impl Eqv for $t { fn eqv(self, o: $t) -> bool { self == o } })* }; }
eqv_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Eqv for f32 {
    fn eqv(self, o: f32) -> bool {
        (self.to_bits() == o.to_bits()) | (self == o)
    }
}
impl Eqv for f64 {
    fn eqv(self, o: f64) -> bool {
        (self.to_bits() == o.to_bits()) | (self == o)
    }
}
pub fn all_eqv<T: Eqv>(a: &[T], b: &[T]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok &= a[i].eqv(b[i]);
        }
    }
    ok
}

/// A value with |v| <= b (0 <= v <= b for unsigned types).
pub fn within<T: Int>(b: i128) -> T {
    let v = T::any();
    assume(v <= T::of(b));
    if T::SIGNED {
        assume(v >= T::of(-b));
    }
    v
}
/// Any value in the unchecked build, a value bounded by `b` in the checked build;
/// floats: magnitude at most 2^100.
pub fn coef<T: Int>(b: i128) -> T {
    if T::FLOAT {
        within(1 << 100)
    } else if DBG {
        within(b)
    } else {
        T::any()
    }
}
pub fn vec_of<T>(n: usize, mut f: impl FnMut() -> T) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(f());
    }
    v
}

/// Above this many coefficients only some are symbolic (see `coefs`).
pub const LARGE: usize = 14;
/// `n` coefficients, first the stored leading one. Up to LARGE of them all come from
/// `f`; of longer lists the first, the second, those at n/4, n/2 and the last do, and the
/// others are fixed: a mixture of 0, 1 and 2, and when n is even, zeros in the first half.
pub fn coefs<T: num::Zero + num::One>(n: usize, mut f: impl FnMut() -> T) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(if n <= LARGE || i < 2 || i == n / 4 || i == n / 2 || i == n - 1 {
            f()
        } else if n % 2 == 0 && i < n / 2 {
            T::zero()
        } else {
            match i % 4 {
                0 => T::zero(),
                1 | 2 => T::one(),
                _ => T::one() + T::one(),
            }
        });
    }
    v
}
/// Coefficient of x^d in a dense term list (highest degree first).
pub fn dc<T: Copy + num::Zero>(t: &[T], d: usize) -> T {
    if d < t.len() {
        t[t.len() - 1 - d]
    } else {
        T::zero()
    }
}
/// Coefficient of x^d in a sparse map.
pub fn sc<T: Copy + num::Zero>(t: &BTreeMap<usize, T>, d: usize) -> T {
    match t.get(&d) {
        Some(&c) => c,
        None => T::zero(),
    }
}
/// A sparse polynomial whose stored degrees are the set bits of `mask`
/// (stored coefficients may be zero, as after a cancellation).
pub fn sparse_mask<T>(mask: usize, mut f: impl FnMut() -> T) -> SparsePolynomial<T> {
    let mut m = BTreeMap::new();
    for d in 0..64 {
        if mask >> d & 1 == 1 {
            m.insert(d, f());
        }
    }
    SparsePolynomial { terms: m }
}
/// `n` stored terms, at degrees 0, s, 2s, ...; coefficients as in `coefs`.
pub fn sparse_long<T: num::Zero + num::One>(n: usize, s: usize, f: impl FnMut() -> T) -> SparsePolynomial<T> {
    let mut m = BTreeMap::new();
    let mut i = n;
    for c in coefs(n, f) {
        i -= 1;
        m.insert(i * s, c);
    }
    SparsePolynomial { terms: m }
}

/// Both sides agree on every coefficient: dense result against a reference
/// vector indexed by degree.
pub fn same_dense<T: Eqv + num::Zero>(r: &[T], e: &[T]) -> bool {
    let n = if r.len() > e.len() { r.len() } else { e.len() };
    let mut ok = true;
    for d in 0..n {
        let x = if d < e.len() { e[d] } else { T::zero() };
        ok &= dc(r, d).eqv(x);
    }
    ok
}
/// Sparse result against a reference vector indexed by degree.
pub fn same_sparse<T: Eqv + num::Zero>(r: &BTreeMap<usize, T>, e: &[T]) -> bool {
    let mut ok = true;
    for (&d, &c) in r.iter() {
        let x = if d < e.len() { e[d] } else { T::zero() };
        ok &= c.eqv(x);
    }
    for d in 0..e.len() {
        if !r.contains_key(&d) {
            ok &= e[d].eqv(T::zero());
        }
    }
    ok
}
/// Reference vectors indexed by degree.
pub fn by_degree<T: Copy>(t: &[T]) -> Vec<T> {
    let mut v = Vec::with_capacity(t.len());
    for i in 0..t.len() {
        v.push(t[t.len() - 1 - i]);
    }
    v
}
pub fn sparse_by_degree<T: Copy + num::Zero>(t: &BTreeMap<usize, T>, n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for d in 0..n {
        v.push(sc(t, d));
    }
    v
}
pub fn ref_add<T: Int>(a: &[T], b: &[T]) -> Vec<T> {
    let n = if a.len() > b.len() { a.len() } else { b.len() };
    let mut v = Vec::with_capacity(n);
    for d in 0..n {
        let x = if d < a.len() { a[d] } else { T::of(0) };
        let y = if d < b.len() { b[d] } else { T::of(0) };
        v.push(x.wadd(y));
    }
    v
}
pub fn ref_sub<T: Int>(a: &[T], b: &[T]) -> Vec<T> {
    let n = if a.len() > b.len() { a.len() } else { b.len() };
    let mut v = Vec::with_capacity(n);
    for d in 0..n {
        let x = if d < a.len() { a[d] } else { T::of(0) };
        let y = if d < b.len() { b[d] } else { T::of(0) };
        v.push(x.wsub(y));
    }
    v
}
pub fn ref_mul<T: Int>(a: &[T], b: &[T]) -> Vec<T> {
    if a.is_empty() || b.is_empty() {
        return Vec::new();
    }
    let mut v = vec![T::of(0); a.len() + b.len() - 1];
    for i in 0..a.len() {
        for j in 0..b.len() {
            v[i + j] = v[i + j].wadd(a[i].wmul(b[j]));
        }
    }
    v
}

/// `entries! { name => expr; }` defines `extern "C"` entry points and the table
/// the replay binary looks names up in.
#[macro_export]
macro_rules! entries {
    ($($name:ident => $e:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $e; crate::api::end(); })*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}

/// Bit-for-bit identity (so that NaN and signed zeros can be used as coefficients).
pub trait Same: Copy {
    fn same(self, o: Self) -> bool;
}
macro_rules! same_int { ($($t:ty),*) => { $(impl Same for $t { fn same(self, o: $t) -> bool { self == o } })* }; }
same_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Same for f32 {
    fn same(self, o: f32) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Same for f64 {
    fn same(self, o: f64) -> bool {
        self.to_bits() == o.to_bits()
    }
}
