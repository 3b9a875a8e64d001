// Roots, discriminant and factors of the small integer types.
use crate::api::*;
use rustnomial::*;

macro_rules! small {
    () => {
        pub fn linear() {
            let (a, b) = (T::any(), T::any());
            assume(a == 0 || b != T::MIN || DBG == false);
            assume(b != T::MIN || a != -1);
            match LinearBinomial::new([a, b]).root() {
                Roots::InfiniteRoots => check((a == 0) & (b == 0), 1),
                Roots::NoRoots => check((a == 0) & (b != 0), 2),
                Roots::OneRealRoot(x) => {
                    check(a != 0, 3);
                    if a != 0 {
                        check((x == b.wrapping_neg() / a) | (x == (b / a).wrapping_neg()), 4);
                    }
                }
                _ => check(false, 5),
            }
            cover(1);
        }
        /// The root of a (x - r) is r.
        pub fn linear_exact() {
            let (a, r): (T, T) = (within(100), within(100));
            assume(a != 0);
            match LinearBinomial::new([a, -(a * r)]).root() {
                Roots::OneRealRoot(x) => check(x == r, 1),
                _ => check(false, 2),
            }
            cover(1);
        }
        pub fn mono() {
            let (c, d) = (T::any(), usize::any());
            match Monomial::new(c, d).root() {
                Roots::InfiniteRoots => check(c == 0, 1),
                Roots::NoRoots => check((c != 0) & (d == 0), 2),
                Roots::OneRealRoot(x) => check((c != 0) & (d != 0) & (x == 0), 3),
                _ => check(false, 4),
            }
            cover(1);
        }
    };
}
macro_rules! per_type {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            type T = $t;
            /// param: value + 1000
            fn p(i: u64) -> T {
                (param(i) as i64 - 1000) as T
            }
            /// Two integer roots r and r + k: a (x - r) (x - r - k), k >= 0.
            pub fn exact() {
                let (a, k) = (p(0), p(1));
                let r: T = within(param(2) as i128);
                let (b, c) = (-(a * (r + r + k)), a * (r * (r + k)));
                let t = QuadraticTrinomial::new([a, b, c]);
                check(t.discriminant() == a * a * k * k, 1);
                match t.roots() {
                    Roots::TwoRealRoots(x, y) => check((x == r + k) & (y == r), 2),
                    _ => check(false, 3),
                }
                match t.real_factors() {
                    Some((l, f, g)) => {
                        // l * f * g is the trinomial
                        let ([f1, f0], [g1, g0]) = (f.coefficients, g.coefficients);
                        check((l * f1 * g1 == a) & (l * (f1 * g0 + f0 * g1) == b) & (l * f0 * g0 == c), 4);
                        check((f.eval(r) == 0) | (f.eval(r + k) == 0), 5);
                    }
                    None => check(false, 6),
                }
                let (l, f, g) = t.complex_factors();
                let ([f1, f0], [g1, g0]) = (f.coefficients, g.coefficients);
                check((l == a) & (f1.im == 0) & (f0.im == 0) & (g1.im == 0) & (g0.im == 0), 7);
                check((l * f1.re * g1.re == a) & (l * (f1.re * g0.re + f0.re * g1.re) == b) & (l * f0.re * g0.re == c), 8);
                cover(1);
            }
            /// x (x - k): the discriminant is the square k^2, k symbolic in a window.
            pub fn square() {
                let k: T = param(0) as T + (T::any() & (param(1) as T));
                let t = QuadraticTrinomial::new([1, -k, 0]);
                check(t.discriminant() == k * k, 1);
                match t.roots() {
                    Roots::TwoRealRoots(x, y) => check((x == k) & (y == 0), 2),
                    _ => check(false, 3),
                }
                // -x^2 - k^2: purely imaginary
                if param(2) != 0 {
                    match QuadraticTrinomial::new([-1, 0, -k]).roots() {
                        Roots::TwoComplexRoots(x, y) => check((x.re == 0) & (y.re == 0) & (x.im == -y.im), 4),
                        Roots::TwoRealRoots(x, y) => check((k == 0) & (x == 0) & (y == 0), 5),
                        _ => check(false, 6),
                    }
                }
                cover(1);
            }
            /// Two complex roots u + vi and u - vi, v > 0.
            pub fn complex() {
                let (a, v) = (p(0), p(1));
                let u: T = within(param(2) as i128);
                let (b, c) = (-(a * (u + u)), a * (u * u + v * v));
                let t = QuadraticTrinomial::new([a, b, c]);
                check(t.discriminant() == -(4 * a * a * v * v), 1);
                match t.roots() {
                    Roots::TwoComplexRoots(x, y) => {
                        check((x.re == u) & (y.re == u), 2);
                        check((x.im == -y.im) & ((x.im == v) | (x.im == -v)), 3);
                    }
                    _ => check(false, 4),
                }
                check(t.real_factors().is_none(), 5);
                let (l, f, g) = t.complex_factors();
                let ([f1, f0], [g1, g0]) = (f.coefficients, g.coefficients);
                check((l == a) & (f1.re == 1) & (f1.im == 0) & (g1.re == 1) & (g1.im == 0), 6);
                // (x + f0) (x + g0) = x^2 - 2ux + u^2 + v^2
                check((f0.re + g0.re == -(u + u)) & (f0.im + g0.im == 0), 7);
                check((f0.re * g0.re - f0.im * g0.im == u * u + v * v) & (f0.re * g0.im + f0.im * g0.re == 0), 8);
                cover(1);
            }
            /// Whatever the coefficients: the kind of roots follows the discriminant,
            /// the larger real root comes first, complex roots are conjugates.
            pub fn general() {
                let (a, b) = (p(0), p(1));
                let c: T = p(2) + (T::any() & (param(3) as T));
                let t = QuadraticTrinomial::new([a, b, c]);
                let d = b * b - 4 * a * c;
                check(t.discriminant() == d, 1);
                match t.roots() {
                    Roots::TwoRealRoots(x, y) => {
                        check(d >= 0, 2);
                        check(x >= y, 3);
                        check((d != 0) | ((x == y) & (x == -b / (2 * a))), 4);
                        // the sum of the roots is -b / a, up to the truncation
                        let s = (x + y) * a + b;
                        let m = if a < 0 { -a } else { a };
                        check((s <= 2 * m) & (s >= -2 * m), 5);
                    }
                    Roots::TwoComplexRoots(x, y) => {
                        check(d < 0, 6);
                        check((x.re == -b / (2 * a)) & (y.re == x.re) & (x.im == -y.im), 7);
                    }
                    _ => check(false, 8),
                }
                check(t.real_factors().is_some() == (d >= 0), 9);
                cover(1);
            }
            small!();
        }
    };
}
per_type!(ti16, i16);
per_type!(ti32, i32);
per_type!(ti64, i64);
per_type!(ti128, i128);
per_type!(tisize, isize);
/// No quadratic roots over i8 (they need u8 to convert); linear and monomial ones exist.
mod ti8 {
    use super::*;
    type T = i8;
    small!();
}

/// Floats in the classification that needs no arithmetic.
pub fn float_linear() {
    let (a, b) = (f64::any(), f64::any());
    assume(a.is_finite() && b.is_finite());
    match LinearBinomial::new([a, b]).root() {
        Roots::InfiniteRoots => check((a == 0.0) & (b == 0.0), 1),
        Roots::NoRoots => check((a == 0.0) & (b != 0.0), 2),
        Roots::OneRealRoot(x) => check((a != 0.0) & (x.to_bits() == (-b / a).to_bits()), 3),
        _ => check(false, 5),
    }
    cover(1);
}

entries! {
    c13_exact_i16 => ti16::exact();
    c13_exact_i32 => ti32::exact();
    c13_exact_i64 => ti64::exact();
    c13_square_i16 => ti16::square();
    c13_square_i32 => ti32::square();
    c13_square_i64 => ti64::square();
    c13_complex_i16 => ti16::complex();
    c13_complex_i32 => ti32::complex();
    c13_complex_i64 => ti64::complex();
    c13_general_i16 => ti16::general();
    c13_general_i32 => ti32::general();
    c13_linear_i16 => ti16::linear();
    c13_linear_i32 => ti32::linear();
    c13_linear_i64 => ti64::linear();
    c13_linear_exact_i16 => ti16::linear_exact();
    c13_linear_exact_i32 => ti32::linear_exact();
    c13_mono_i32 => ti32::mono();
    c13_mono_i16 => ti16::mono();
    c13_exact_i128 => ti128::exact();
    c13_square_i128 => ti128::square();
    c13_complex_i128 => ti128::complex();
    c13_general_i128 => ti128::general();
    c13_linear_i128 => ti128::linear();
    c13_mono_i128 => ti128::mono();
    c13_exact_isize => tisize::exact();
    c13_square_isize => tisize::square();
    c13_complex_isize => tisize::complex();
    c13_linear_i8 => ti8::linear();
    c13_mono_i8 => ti8::mono();
    c13_float_linear => float_linear();
}
