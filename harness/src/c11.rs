// Parsing: every ASCII string up to the length bound (a case split over character
// classes, digits and odd characters symbolic), and strings of fixed layout with
// symbolic digits, against a reference reading of the documented notation.
use crate::api::*;
use rustnomial::err::{PolynomialFromStringError as PE, TermFromStringError as TE};
use rustnomial::*;
use std::ops::*;
use std::str::FromStr;

#[derive(Clone, Copy, PartialEq)]
enum S {
    Space,
    Sep,
    Plus,
    Minus,
    Dot,
    Dig(u8),
    X,
    Caret,
    Bad(char),
}
const CLASSES: usize = 9;

/// One character of class `k`: its bytes and its meaning.
fn symbol(k: usize, out: &mut Vec<u8>) -> S {
    match k {
        0 => {
            out.push(b' ');
            S::Space
        }
        1 => {
            let b = u8::any();
            assume(b == b',' || b == b'_');
            out.push(b);
            S::Sep
        }
        2 => {
            out.push(b'+');
            S::Plus
        }
        3 => {
            out.push(b'-');
            S::Minus
        }
        4 => {
            out.push(b'.');
            S::Dot
        }
        5 => {
            let b = u8::any();
            assume(b < 10);
            out.push(b'0' + b);
            S::Dig(b)
        }
        6 => {
            out.push(b'x');
            S::X
        }
        7 => {
            out.push(b'^');
            S::Caret
        }
        8 => {
            let b = u8::any();
            assume(b < 128);
            assume(!(b >= b'0' && b <= b'9'));
            for o in [b' ', b',', b'_', b'+', b'-', b'.', b'x', b'^'] {
                assume(b != o);
            }
            out.push(b);
            S::Bad(b as char)
        }
        9 => {
            // two bytes of UTF-8
            let (a, b) = (u8::any(), u8::any());
            assume(a >= 0xc2 && a <= 0xdf && b >= 0x80 && b <= 0xbf);
            out.push(a);
            out.push(b);
            S::Bad(char::from_u32((a as u32 & 31) << 6 | (b as u32 & 63)).unwrap_or('?'))
        }
        11..=14 => {
            // a known digit
            let d = [0, 1, 7, 9][k - 11];
            out.push(b'0' + d);
            S::Dig(d)
        }
        _ => {
            // three bytes of UTF-8, among them wide spaces and wide digits
            let b = u8::any();
            assume(b >= 0x80 && b <= 0xbf);
            out.push(0xe2);
            out.push(0x80);
            out.push(b);
            S::Bad(char::from_u32(0x2000 | (b as u32 & 63)).unwrap_or('?'))
        }
    }
}

/// What one term's text means.
#[derive(Clone)]
enum Means {
    /// coefficient and degree
    Is(i128, u128),
    /// not laid down by the documentation (only: no panic)
    Open,
    /// none of the readings: the faults present, and the first unknown character
    Faulty(Faults),
}
#[derive(Clone, Copy)]
struct Faults {
    bad: Option<char>,
    twox: bool,
    twocaret: bool,
    caretx: bool,
    nodegree: bool,
    coeff: bool,
    degree: bool,
}
impl Faults {
    fn any(&self) -> bool {
        self.bad.is_some() || self.twox || self.twocaret || self.caretx || self.nodegree || self.coeff || self.degree
    }
    fn explains(&self, e: &TE) -> bool {
        match e {
            TE::MoreThanOneX => self.twox,
            TE::CoeffCouldNotBeParsed => self.coeff,
            TE::UnexpectedChar(c) => match self.bad {
                Some(b) => b == *c,
                None => false,
            },
            TE::CaretWithoutXInFront => self.caretx,
            TE::CaretWithoutDegree => self.nodegree,
            TE::MultipleCarets => self.twocaret,
            TE::DegreeCouldNotBeParsed => self.degree,
        }
    }
}
/// sign and digits; None if it is not a number of that kind. Small enough not to
/// overflow i128.
fn number(t: &[S], signed: bool) -> Option<i128> {
    let mut i = 0;
    let mut neg = false;
    if i < t.len() && (t[i] == S::Plus || t[i] == S::Minus) {
        neg = t[i] == S::Minus;
        i += 1;
    }
    if i == t.len() || (neg && !signed) {
        return None;
    }
    let mut v = 0i128;
    while i < t.len() {
        match t[i] {
            S::Dig(d) => v = v * 10 + d as i128,
            _ => return None,
        }
        i += 1;
    }
    Some(if neg { -v } else { v })
}
fn meaning<T: Int>(s: &[S]) -> Means {
    let mut f = Faults { bad: None, twox: false, twocaret: false, caretx: false, nodegree: false, coeff: false, degree: false };
    let mut open = false;
    let (mut x, mut caret) = (false, false);
    let (mut before, mut after): (Vec<S>, Vec<S>) = (Vec::new(), Vec::new());
    for &c in s {
        match c {
            S::Space | S::Sep => {}
            S::X => {
                f.twox |= x;
                x = true;
            }
            S::Caret => {
                f.twocaret |= caret;
                f.caretx |= !x;
                caret = true;
                open |= !after.is_empty();
            }
            S::Bad(b) => {
                if f.bad.is_none() {
                    f.bad = Some(b);
                }
            }
            _ => {
                if x {
                    after.push(c);
                    open |= !caret || c == S::Plus || c == S::Minus;
                } else {
                    before.push(c);
                }
            }
        }
    }
    let mut coeff = 1;
    if x && before.is_empty() {
    } else if x && before.len() == 1 && before[0] == S::Plus {
    } else if x && before.len() == 1 && before[0] == S::Minus {
        coeff = -1;
        f.coeff |= !T::SIGNED;
    } else {
        match number(&before, T::SIGNED) {
            Some(v) if v >= T::min_val().wide() && v <= T::max_val().wide() => coeff = v,
            _ => f.coeff = true,
        }
    }
    let mut degree = if x { 1 } else { 0 };
    if caret {
        f.nodegree |= after.is_empty();
    }
    if !after.is_empty() {
        match number(&after, false) {
            Some(v) if v <= u64::MAX as i128 => degree = v as u128,
            _ => f.degree = true,
        }
    }
    if open {
        Means::Open
    } else if f.any() {
        Means::Faulty(f)
    } else {
        Means::Is(coeff, degree)
    }
}
fn text(v: Vec<u8>) -> String {
    // the bytes were put together from whole characters
    unsafe { String::from_utf8_unchecked(v) }
}
/// The string of a task: params are the number of characters and the classes of the
/// first ones; the rest are of any class.
fn symbols(classes: usize) -> (Vec<S>, String) {
    let n = param(0);
    let given = param(1);
    let mut b = Vec::with_capacity(4 * n);
    let mut s = Vec::with_capacity(n);
    for i in 0..n {
        let k = if i < given { param(2 + i as u64) } else { choose(classes) };
        s.push(symbol(k, &mut b));
    }
    (s, text(b))
}
fn term_of<T: Int + FromStr>(s: &[S], t: &str) {
    let r = Term::<T>::from_str(t);
    match meaning::<T>(s) {
        Means::Is(c, d) => match r {
            Ok(Term::ZeroTerm) => check(c == 0, 1),
            Ok(Term::Term(v, k)) => check((c != 0) & (v.wide() == c) & (k as u128 == d), 2),
            Err(_) => check(false, 3),
        },
        Means::Open => {}
        Means::Faulty(f) => match r {
            Ok(_) => check(false, 4),
            Err(e) => check(f.explains(&e), 5),
        },
    }
    cover(1);
}
pub fn term<T: Int + FromStr>() {
    let (s, t) = symbols(CLASSES);
    term_of::<T>(&s, &t);
}
/// Layouts of fixed character classes (base 16 in a parameter), digits symbolic.
fn layout() -> (Vec<S>, String) {
    let n = param(0);
    let mut b = Vec::with_capacity(n);
    let mut s = Vec::with_capacity(n);
    for i in 0..n {
        let k = param(1 + i as u64 / 16) >> (4 * (i % 16)) & 15;
        s.push(symbol(k, &mut b));
    }
    (s, text(b))
}
pub fn term_layout<T: Int + FromStr>() {
    let (s, t) = layout();
    term_of::<T>(&s, &t);
}

/// Numbers around the limits of the coefficient and degree types: known leading
/// digits, the last ones symbolic ('d').
pub fn term_limit<T: Int + FromStr>() {
    const L: [&str; 12] = [
        "12d", "-12d", "25dx", "3276dx", "-214748364d", "214748364d", "21474836ddx^2", "922337203685477580dx",
        "-922337203685477580dx^3", "x^1844674407370955161d", "3x^18446744073709551dd5", "-1x^999999999999999999999d",
    ];
    let (mut s, mut b) = (Vec::new(), Vec::new());
    for c in L[param(0)].bytes() {
        s.push(match c {
            b'd' => symbol(5, &mut b),
            b'0'..=b'9' => {
                b.push(c);
                S::Dig(c - b'0')
            }
            b'x' => symbol(6, &mut b),
            b'^' => symbol(7, &mut b),
            _ => symbol(3, &mut b),
        });
    }
    term_of::<T>(&s, &text(b));
}

/// The terms of a sum: a new one starts at every sign but the first.
fn split(s: &[S]) -> Option<Vec<Vec<S>>> {
    let mut v: Vec<Vec<S>> = Vec::new();
    let mut cur: Vec<S> = Vec::new();
    let mut started = false;
    for (i, &c) in s.iter().enumerate() {
        if c == S::Plus || c == S::Minus {
            if started {
                v.push(std::mem::take(&mut cur));
            } else {
                for &b in &s[..i] {
                    if b != S::Space {
                        // separators, or unknown characters (which may be blank), in
                        // front of the first sign
                        return None;
                    }
                }
            }
            started = true;
        } else if c != S::Space && c != S::Sep && !matches!(c, S::Bad(_)) {
            started = true;
        }
        cur.push(c);
    }
    v.push(cur);
    Some(v)
}
enum Sum {
    /// coefficient, degree of each non-zero term
    Is(Vec<(i128, u128)>),
    Open,
    Empty,
    Faulty(Vec<Faults>),
}
fn sum_of<T: Int>(s: &[S]) -> Sum {
    let mut all_space = true;
    for &c in s {
        all_space &= c == S::Space;
    }
    if all_space {
        return Sum::Empty;
    }
    let parts = match split(s) {
        None => return Sum::Open,
        Some(p) => p,
    };
    let (mut v, mut f) = (Vec::new(), Vec::new());
    for p in &parts {
        match meaning::<T>(p) {
            Means::Open => return Sum::Open,
            Means::Faulty(x) => f.push(x),
            Means::Is(c, d) => {
                if c != 0 {
                    v.push((c, d))
                }
            }
        }
    }
    if f.is_empty() {
        Sum::Is(v)
    } else {
        Sum::Faulty(f)
    }
}
fn faults(e: &PE, f: &[Faults]) -> bool {
    match e {
        PE::TermFromString(e) => f.iter().any(|f| f.explains(e)),
        _ => false,
    }
}
/// Bound on the degrees the dense form is asked for (it stores every one of them).
const DENSE: u128 = 24;
macro_rules! per_type {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            type T = $t;
            /// Every type parses the same text: which one is a case split.
            pub fn sum_into(s: &[S], t: &str, which: usize) {
                let e = match sum_of::<T>(s) {
                    Sum::Open => {
                        match which {
                            0 => drop(SparsePolynomial::<T>::from_str(t)),
                            1 => {}
                            2 => drop(Monomial::<T>::from_str(t)),
                            3 => drop(LinearBinomial::<T>::from_str(t)),
                            _ => drop(QuadraticTrinomial::<T>::from_str(t)),
                        }
                        return;
                    }
                    Sum::Empty => {
                        check(SparsePolynomial::<T>::from_str(t).is_err(), 1);
                        check(Polynomial::<T>::from_str(t).is_err(), 2);
                        check(LinearBinomial::<T>::from_str(t).is_err(), 3);
                        return;
                    }
                    Sum::Faulty(f) => {
                        let e = match which {
                            0 => SparsePolynomial::<T>::from_str(t).err(),
                            1 => {
                                for &c in s {
                                    // the well-formed part may ask for any degree
                                    assume(c != S::Caret);
                                }
                                Polynomial::<T>::from_str(t).err()
                            }
                            2 => Monomial::<T>::from_str(t).err(),
                            3 => LinearBinomial::<T>::from_str(t).err(),
                            _ => QuadraticTrinomial::<T>::from_str(t).err(),
                        };
                        // a type that can not hold an earlier term may say so first
                        match e {
                            None => check(false, 4),
                            Some(PE::AddingTerm(_)) => check(which >= 2, 5),
                            Some(e) => check(faults(&e, &f), 6),
                        }
                        return;
                    }
                    Sum::Is(v) => v,
                };
                let at = |d: u128| {
                    let mut c = 0i128;
                    for &(x, k) in &e {
                        if k == d {
                            c += x;
                        }
                    }
                    c
                };
                // sums that leave the coefficient type are its arithmetic's business
                for &(_, d) in &e {
                    let c = at(d);
                    assume(c >= T::MIN as i128 && c <= T::MAX as i128);
                }
                match which {
                    0 => match SparsePolynomial::<T>::from_str(t) {
                        Err(_) => check(false, 10),
                        Ok(p) => {
                            for &(_, d) in &e {
                                check(sc(&p.terms, d as usize) as i128 == at(d), 11);
                            }
                            for (&d, &c) in p.terms.iter() {
                                check(c as i128 == at(d as u128), 12);
                            }
                        }
                    },
                    1 => {
                        for &(_, d) in &e {
                            assume(d < DENSE);
                        }
                        match Polynomial::<T>::from_str(t) {
                            Err(_) => check(false, 20),
                            Ok(p) => {
                                check(p.terms.len() as u128 <= DENSE, 21);
                                for d in 0..DENSE {
                                    check(dc(&p.terms, d as usize) as i128 == at(d), 22);
                                }
                            }
                        }
                    }
                    2 => {
                        // one degree only
                        let mut one = true;
                        for &(_, d) in &e {
                            one &= d == e[0].1;
                        }
                        match Monomial::<T>::from_str(t) {
                            Ok(m) if one => {
                                if e.is_empty() {
                                    check(m.coefficient == 0, 30);
                                } else {
                                    let c = at(e[0].1);
                                    check((m.coefficient as i128 == c) & ((m.deg as u128 == e[0].1) | (c == 0)), 31);
                                }
                            }
                            Err(_) if one => check(false, 32),
                            Err(x) => check(x == PE::AddingTerm(TryAddError::TooManyTerms), 33),
                            // terms may have cancelled on the way
                            Ok(m) => {
                                for &(_, d) in &e {
                                    let c = if d == m.deg as u128 { m.coefficient as i128 } else { 0 };
                                    check(at(d) == c, 34);
                                }
                            }
                        }
                    }
                    3 => {
                        let mut fits = true;
                        for &(_, d) in &e {
                            fits &= d <= 1;
                        }
                        match LinearBinomial::<T>::from_str(t) {
                            Ok(m) => check(fits & (m.coefficients[0] as i128 == at(1)) & (m.coefficients[1] as i128 == at(0)), 40),
                            Err(x) => check(!fits & (x == PE::AddingTerm(TryAddError::DegreeOutOfBounds)), 41),
                        }
                    }
                    _ => {
                        let mut fits = true;
                        for &(_, d) in &e {
                            fits &= d <= 2;
                        }
                        match QuadraticTrinomial::<T>::from_str(t) {
                            Ok(m) => check(
                                fits & (m.coefficients[0] as i128 == at(2))
                                    & (m.coefficients[1] as i128 == at(1))
                                    & (m.coefficients[2] as i128 == at(0)),
                                50,
                            ),
                            Err(x) => check(!fits & (x == PE::AddingTerm(TryAddError::DegreeOutOfBounds)), 51),
                        }
                    }
                }
            }
            pub fn sum() {
                let (s, t) = symbols(CLASSES);
                sum_into(&s, &t, choose(5));
                cover(1);
            }
            pub fn sum_layout() {
                let (s, t) = layout();
                sum_into(&s, &t, choose(5));
                cover(1);
            }
        }
    };
}
per_type!(ti32, i32);
per_type!(ti8, i8);
per_type!(tu8, u8);

pub fn empty() {
    check(SparsePolynomial::<i32>::from_str("") == Err(PE::NoTermsFound), 1);
    check(Polynomial::<i32>::from_str("") == Err(PE::NoTermsFound), 2);
    check(Term::<i32>::from_str("").is_err(), 3);
    cover(1);
}
/// Decimal coefficients of floating-point polynomials: d.d x^d - d.
pub fn float() {
    let (a, b, k, c) = (u8::any(), u8::any(), u8::any(), u8::any());
    assume(a < 10 && b < 10 && k < 10 && c < 10);
    let t = text(vec![b'0' + a, b'.', b'0' + b, b'x', b'^', b'0' + k, b' ', b'-', b' ', b'0' + c]);
    let p = SparsePolynomial::<f64>::from_str(&t);
    let e = (a as f64 * 10.0 + b as f64) / 10.0;
    assume(k > 0);
    match p {
        Ok(p) => {
            check(sc(&p.terms, k as usize) == e, 1);
            check(sc(&p.terms, 0) == -(c as f64), 2);
        }
        Err(_) => check(false, 3),
    }
    cover(1);
}
#[allow(unused)]
fn bounds<T: AddAssign>() {}

entries! {
    c11_term_i32 => term::<i32>();
    c11_term_i8 => term::<i8>();
    c11_term_u8 => term::<u8>();
    c11_term_layout_i8 => term_layout::<i8>();
    c11_term_layout_u8 => term_layout::<u8>();
    c11_term_layout_i32 => term_layout::<i32>();
    c11_term_layout_i64 => term_layout::<i64>();
    c11_term_limit_i8 => term_limit::<i8>();
    c11_term_limit_u8 => term_limit::<u8>();
    c11_term_limit_i16 => term_limit::<i16>();
    c11_term_limit_i32 => term_limit::<i32>();
    c11_term_limit_i64 => term_limit::<i64>();
    c11_sum_i32 => ti32::sum();
    c11_sum_u8 => tu8::sum();
    c11_sum_layout_i32 => ti32::sum_layout();
    c11_sum_layout_i8 => ti8::sum_layout();
    c11_empty => empty();
    c11_float => float();
}
