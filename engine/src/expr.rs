//! Hash-consed bit-vector / floating-point expressions with simplifying constructors.
//! Every expression is bit-vector sorted (width 1..=128); width-1 expressions double as booleans.
//! Floating point operations work on the IEEE bit patterns.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Not, And, Or, Xor,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
    // "no signed/unsigned overflow" style predicates: true when the operation overflows
    SAddO, SSubO, SMulO, UAddO, USubO, UMulO,
    // floating point on bit patterns
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FEq, FLt, FLe, FIsNan,
    SiToF, UiToF, FToSiSat, FToUiSat, FExt, FTrunc,
    // opaque function of up to two arguments, evaluated natively for models (v = id)
    Uf,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub v: u128 }

pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<Node, E>,
    pub nvars: u32,
    // model evaluation memo
    memo: Vec<(u32, u128)>,
    gen: u32,
    memo_key: usize,
    pub vars_memo: HashMap<E, std::rc::Rc<Vec<u32>>>,
    poly_memo: HashMap<E, std::rc::Rc<Poly>>,
    /// float comparisons become free booleans (an over-approximation)
    pub abs_float: bool,
    abs_memo: HashMap<(Op, E, E), E>,
    pub all_vars: Vec<E>,
    range_memo: HashMap<E, (u128, u128)>,
    simp_memo: HashMap<E, E>,
    pub taint: Vec<bool>, // contains floating point / Uf
}

pub type Poly = std::collections::BTreeMap<Vec<E>, u128>;

pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
/// Smallest and largest signed value of a width.
fn smm(w: u16) -> (i128, i128) {
    if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub const UF_CBRT: u128 = 1;
pub const UF_POW: u128 = 2;
pub const UF_COS: u128 = 3;
pub const UF_ACOS: u128 = 4;
pub const UF_SIN: u128 = 5;
pub const UF_FLOOR: u128 = 6;
pub const UF_CEIL: u128 = 7;
pub const UF_TRUNC: u128 = 8;
pub const UF_ROUND: u128 = 9;
pub const UF_EXP: u128 = 10;
pub const UF_LN: u128 = 11;
pub const UF_ATAN2: u128 = 12;
pub const UF_HYPOT: u128 = 13;

pub fn uf_eval(id: u128, w: u16, a: u128, b: u128) -> u128 {
    if w == 64 {
        let x = f64::from_bits(a as u64);
        let y = f64::from_bits(b as u64);
        let r = match id {
            UF_CBRT => x.cbrt(), UF_POW => x.powf(y), UF_COS => x.cos(), UF_ACOS => x.acos(),
            UF_SIN => x.sin(), UF_FLOOR => x.floor(), UF_CEIL => x.ceil(), UF_TRUNC => x.trunc(),
            UF_ROUND => x.round(), UF_EXP => x.exp(), UF_LN => x.ln(), UF_ATAN2 => x.atan2(y),
            UF_HYPOT => x.hypot(y), _ => panic!("uf"),
        };
        r.to_bits() as u128
    } else {
        let x = f32::from_bits(a as u32);
        let y = f32::from_bits(b as u32);
        let r = match id {
            UF_CBRT => x.cbrt(), UF_POW => x.powf(y), UF_COS => x.cos(), UF_ACOS => x.acos(),
            UF_SIN => x.sin(), UF_FLOOR => x.floor(), UF_CEIL => x.ceil(), UF_TRUNC => x.trunc(),
            UF_ROUND => x.round(), UF_EXP => x.exp(), UF_LN => x.ln(), UF_ATAN2 => x.atan2(y),
            UF_HYPOT => x.hypot(y), _ => panic!("uf"),
        };
        r.to_bits() as u128
    }
}

/// Concrete semantics of every operator.
pub fn fold(op: Op, w: u16, aw: u16, a: u128, b: u128, c: u128, v: u128) -> u128 {
    let m = mask(w);
    let f2 = |f32f: &dyn Fn(f32, f32) -> f32, f64f: &dyn Fn(f64, f64) -> f64| -> u128 {
        if w == 32 { f32f(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128 }
        else { f64f(f64::from_bits(a as u64), f64::from_bits(b as u64)).to_bits() as u128 }
    };
    let tof = |x: u128| -> f64 {
        if aw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) }
    };
    match op {
        Op::Const | Op::Var => unreachable!(),
        Op::Not => !a & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        Op::Ite => if a != 0 { b } else { c },
        Op::Concat => ((a << v as u32) | b) & m, // v = width of b
        Op::Extract => (a >> (v as u32)) & m,
        Op::ZExt => a,
        Op::SExt => (sext(a, aw) as u128) & m,
        Op::SAddO => {
            let r = sext(a, aw).wrapping_add(sext(b, aw));
            if aw == 128 { sext(a, aw).checked_add(sext(b, aw)).is_none() as u128 }
            else { (r != sext((r as u128) & mask(aw), aw)) as u128 }
        }
        Op::SSubO => {
            let r = sext(a, aw).wrapping_sub(sext(b, aw));
            if aw == 128 { sext(a, aw).checked_sub(sext(b, aw)).is_none() as u128 }
            else { (r != sext((r as u128) & mask(aw), aw)) as u128 }
        }
        Op::SMulO => match sext(a, aw).checked_mul(sext(b, aw)) {
            None => 1,
            Some(r) => (aw < 128 && r != sext((r as u128) & mask(aw), aw)) as u128,
        },
        Op::UAddO => match a.checked_add(b) { None => 1, Some(r) => (r > mask(aw)) as u128 },
        Op::USubO => (a < b) as u128,
        Op::UMulO => match a.checked_mul(b) { None => 1, Some(r) => (r > mask(aw)) as u128 },
        Op::FAdd => f2(&|x, y| x + y, &|x, y| x + y),
        Op::FSub => f2(&|x, y| x - y, &|x, y| x - y),
        Op::FMul => f2(&|x, y| x * y, &|x, y| x * y),
        Op::FDiv => f2(&|x, y| x / y, &|x, y| x / y),
        Op::FRem => f2(&|x, y| x % y, &|x, y| x % y),
        Op::FSqrt => f2(&|x, _| x.sqrt(), &|x, _| x.sqrt()),
        Op::FEq => (tof(a) == tof(b)) as u128,
        Op::FLt => (tof(a) < tof(b)) as u128,
        Op::FLe => (tof(a) <= tof(b)) as u128,
        Op::FIsNan => tof(a).is_nan() as u128,
        Op::SiToF => {
            let x = sext(a, aw);
            if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 }
        }
        Op::UiToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::FToSiSat => {
            let x = tof(a);
            if x.is_nan() { 0 } else {
                let lo = -((1i128 << (w.min(127) - 1)) as f64);
                let hi = (1i128 << (w.min(127) - 1)) as f64;
                let t = x.trunc();
                let r = if w == 128 { x as i128 }
                    else if t < lo { -(1i128 << (w - 1)) }
                    else if t >= hi { (1i128 << (w - 1)) - 1 }
                    else { t as i128 };
                (r as u128) & m
            }
        }
        Op::FToUiSat => {
            let x = tof(a);
            if x.is_nan() { 0 } else {
                let t = x as u128;
                t.min(m)
            }
        }
        Op::FExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Op::Uf => uf_eval(v, w, a, b),
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: vec![], map: HashMap::new(), nvars: 0, memo: vec![], gen: 0, memo_key: 0,
            vars_memo: HashMap::new(), poly_memo: HashMap::new(), abs_float: false, abs_memo: HashMap::new(), all_vars: vec![], range_memo: HashMap::new(),
            simp_memo: HashMap::new(), taint: vec![],
        };
        // index 0 reserved as "no expression"
        a.mk(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, v: 0 });
        a
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.n.len() as E;
        let t = match n.op {
            Op::Const | Op::Var => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FEq | Op::FLt
            | Op::FLe | Op::FIsNan | Op::SiToF | Op::UiToF | Op::FToSiSat | Op::FToUiSat | Op::FExt
            | Op::FTrunc | Op::Uf => true,
            _ => self.taint[n.a as usize] || self.taint[n.b as usize] || self.taint[n.c as usize],
        };
        self.n.push(n);
        self.taint.push(t);
        self.map.insert(n, e);
        e
    }
    pub fn w(&self, e: E) -> u16 { self.n[e as usize].w }
    pub fn cst(&mut self, v: u128, w: u16) -> E {
        // value distinguished from the reserved slot by always carrying a=1 for constants
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, v: v & mask(w) })
    }
    pub fn is_c(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const { Some(n.v) } else { None }
    }
    pub fn var(&mut self, w: u16) -> E {
        let id = self.nvars;
        self.nvars += 1;
        let e = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, v: id as u128 });
        self.all_vars.push(e);
        e
    }
    pub fn var_width(&self, v: u32) -> u16 { self.n[self.all_vars[v as usize] as usize].w }
    pub fn tru(&mut self) -> E { self.cst(1, 1) }
    pub fn fls(&mut self) -> E { self.cst(0, 1) }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n[a as usize];
        match n.op {
            Op::Const => self.cst(!n.v, n.w),
            Op::Not => n.a,
            Op::Ult if n.w == 1 => self.mk(Node { op: Op::Ule, a: n.b, b: n.a, ..n }),
            Op::Ule if n.w == 1 => self.mk(Node { op: Op::Ult, a: n.b, b: n.a, ..n }),
            Op::Slt if n.w == 1 => self.mk(Node { op: Op::Sle, a: n.b, b: n.a, ..n }),
            Op::Sle if n.w == 1 => self.mk(Node { op: Op::Slt, a: n.b, b: n.a, ..n }),
            _ => self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, v: 0 }),
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Op::Eq, a, b) }
    pub fn ne(&mut self, a: E, b: E) -> E { let x = self.eq(a, b); self.not(x) }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }
    pub fn add(&mut self, a: E, b: E) -> E { self.bin(Op::Add, a, b) }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let aw = na.w;
        debug_assert!(aw == nb.w, "width mismatch {:?} {} {}", op, aw, nb.w);
        let w = match op {
            Eq | Ult | Ule | Slt | Sle | SAddO | SSubO | SMulO | UAddO | USubO | UMulO | FEq | FLt | FLe => 1,
            _ => aw,
        };
        let m = mask(aw);
        if na.op == Const && nb.op == Const {
            let v = fold(op, w, aw, na.v, nb.v, 0, 0);
            return self.cst(v, w);
        }
        // commutative: constants to the right, otherwise by id
        match op {
            And | Or | Xor | Add | Mul | Eq | SAddO | SMulO | UAddO | UMulO | FAdd | FMul | FEq => {
                if na.op == Const || (nb.op != Const && a > b) { std::mem::swap(&mut a, &mut b); }
            }
            _ => {}
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let bc = if nb.op == Const { Some(nb.v) } else { None };
        let ac = if na.op == Const { Some(na.v) } else { None };
        match op {
            And => {
                if a == b { return a; }
                if bc == Some(0) { return b; }
                if bc == Some(m) { return a; }
                if let Some(k) = bc {
                    // low mask -> zext(extract)
                    if k & k.wrapping_add(1) == 0 && k != 0 {
                        let bits = (128 - k.leading_zeros()) as u16;
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, aw);
                    }
                    if na.op == And && self.is_c(na.b).is_some() {
                        let k2 = self.is_c(na.b).unwrap();
                        let kk = self.cst(k & k2, aw);
                        return self.and(na.a, kk);
                    }
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        if k & mask(iw) == 0 { return self.cst(0, aw); }
                        let kk = self.cst(k, iw);
                        let x = self.and(na.a, kk);
                        return self.zext(x, aw);
                    }
                }
                if aw == 1 {
                    let nb_ = self.not(b);
                    if nb_ == a { return self.fls(); }
                    // absorption: a & (a & x)
                    if na.op == And && (na.a == b || na.b == b) { return a; }
                    if nb.op == And && (nb.a == a || nb.b == a) { return b; }
                }
            }
            Or => {
                if a == b { return a; }
                if bc == Some(0) { return a; }
                if bc == Some(m) { return b; }
                if aw == 1 {
                    let nb_ = self.not(b);
                    if nb_ == a { return self.tru(); }
                    if na.op == Or && (na.a == b || na.b == b) { return a; }
                    if nb.op == Or && (nb.a == a || nb.b == a) { return b; }
                } else {
                    // (x << k) | zext(y) with y narrower than k  -> concat
                    if let Some(r) = self.or_as_concat(a, b) { return r; }
                    if let Some(r) = self.or_as_concat(b, a) { return r; }
                }
            }
            Xor => {
                if a == b { return self.cst(0, aw); }
                if bc == Some(0) { return a; }
                if bc == Some(m) { return self.not(a); }
            }
            Add => {
                if aw == 1 { return self.bin(Xor, a, b); }
                if bc == Some(0) { return a; }
                if let Some(k) = bc {
                    if na.op == Add {
                        if let Some(k2) = self.is_c(na.b) {
                            let kk = self.cst(k.wrapping_add(k2), aw);
                            return self.add(na.a, kk);
                        }
                    }
                    if na.op == Sub {
                        if let Some(k2) = self.is_c(na.a) {
                            let kk = self.cst(k.wrapping_add(k2), aw);
                            return self.bin(Sub, kk, na.b);
                        }
                    }
                    if na.op == Ite && self.is_c(na.b).is_some() && self.is_c(na.c).is_some() {
                        let x = self.add(na.b, b);
                        let y = self.add(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                } else {
                    // (x + c) + y -> (x + y) + c
                    if na.op == Add && self.is_c(na.b).is_some() {
                        let t = self.add(na.a, b);
                        return self.add(t, na.b);
                    }
                    if nb.op == Add && self.is_c(nb.b).is_some() {
                        let t = self.add(a, nb.a);
                        return self.add(t, nb.b);
                    }
                    // (x - y) + y -> x
                    if na.op == Sub && na.b == b { return na.a; }
                    if nb.op == Sub && nb.b == a { return nb.a; }
                }
            }
            Sub => {
                if aw == 1 { return self.bin(Xor, a, b); }
                if a == b { return self.cst(0, aw); }
                if let Some(k) = bc {
                    let kk = self.cst(k.wrapping_neg(), aw);
                    return self.add(a, kk);
                }
                if nb.op == Add && self.is_c(nb.b).is_some() {
                    let t = self.bin(Sub, a, nb.a);
                    return self.bin(Sub, t, nb.b);
                }
                if na.op == Add && self.is_c(na.b).is_some() {
                    let t = self.bin(Sub, na.a, b);
                    return self.add(t, na.b);
                }
                if na.op == Add && na.a == b { return na.b; }
                if na.op == Add && na.b == b { return na.a; }
                // x - (x / y) * y  is the remainder
                if nb.op == Mul {
                    for (q, y) in [(nb.a, nb.b), (nb.b, nb.a)] {
                        let nq = self.n[q as usize];
                        if nq.op == SDiv && nq.a == a && nq.b == y { return self.bin(SRem, a, y); }
                        if nq.op == UDiv && nq.a == a && nq.b == y { return self.bin(URem, a, y); }
                    }
                }
                // 0 - (0 - x)
                if ac == Some(0) && nb.op == Sub && self.is_c(nb.a) == Some(0) { return nb.b; }
            }
            Mul => {
                if aw == 1 { return self.and(a, b); }
                if bc == Some(0) { return b; }
                if bc == Some(1) { return a; }
                if let Some(k) = bc {
                    if na.op == Mul {
                        if let Some(k2) = self.is_c(na.b) {
                            let kk = self.cst(k.wrapping_mul(k2), aw);
                            return self.bin(Mul, na.a, kk);
                        }
                    }
                    if na.op == Ite && self.is_c(na.b).is_some() && self.is_c(na.c).is_some() {
                        let x = self.bin(Mul, na.b, b);
                        let y = self.bin(Mul, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    if k == m { let z = self.cst(0, aw); return self.bin(Sub, z, a); }
                }
            }
            UDiv | SDiv => {
                // (x % y) / y; the divisor is not zero (division by zero ends the path)
                if na.b == b && ((op == SDiv && na.op == SRem) || (op == UDiv && na.op == URem)) { return self.cst(0, aw); }
                if bc == Some(1) && !(aw == 1) { return a; }
                if op == UDiv { if let Some(k) = bc { if k != 0 && k & (k - 1) == 0 {
                    let s = self.cst(k.trailing_zeros() as u128, aw);
                    return self.bin(LShr, a, s);
                }}}
                if op == UDiv && na.op == ZExt {
                    if let Some(k) = bc {
                        let iw = self.w(na.a);
                        if k <= mask(iw) && k != 0 {
                            let kk = self.cst(k, iw);
                            let x = self.bin(UDiv, na.a, kk);
                            return self.zext(x, aw);
                        }
                    }
                }
            }
            URem => {
                if bc == Some(1) { return self.cst(0, aw); }
                if let Some(k) = bc { if k != 0 && k & (k - 1) == 0 {
                    let kk = self.cst(k - 1, aw);
                    return self.and(a, kk);
                }}
                if na.op == ZExt {
                    if let Some(k) = bc {
                        let iw = self.w(na.a);
                        if k <= mask(iw) && k != 0 {
                            let kk = self.cst(k, iw);
                            let x = self.bin(URem, na.a, kk);
                            return self.zext(x, aw);
                        }
                    }
                }
            }
            SRem => { if bc == Some(1) { return self.cst(0, aw); } }
            Shl => {
                if let Some(k) = bc {
                    if k == 0 { return a; }
                    if k >= aw as u128 { return self.cst(0, aw); }
                    let lo = self.extract(a, 0, aw - k as u16);
                    let z = self.cst(0, k as u16);
                    return self.concat(lo, z);
                }
                if ac == Some(0) { return a; }
            }
            LShr => {
                if let Some(k) = bc {
                    if k == 0 { return a; }
                    if k >= aw as u128 { return self.cst(0, aw); }
                    let hi = self.extract(a, k as u16, aw - k as u16);
                    return self.zext(hi, aw);
                }
                if ac == Some(0) { return a; }
            }
            AShr => {
                if let Some(k) = bc {
                    if k == 0 { return a; }
                    let k = k.min(aw as u128 - 1);
                    let hi = self.extract(a, k as u16, aw - k as u16);
                    return self.sext(hi, aw);
                }
            }
            Eq => {
                // x == (x / y) * y  iff the remainder is zero
                for (x, p) in [(a, nb), (b, na)] {
                    if p.op == Mul {
                        for (q, y) in [(p.a, p.b), (p.b, p.a)] {
                            let nq = self.n[q as usize];
                            if (nq.op == SDiv || nq.op == UDiv) && nq.a == x && nq.b == y {
                                let r = self.bin(if nq.op == SDiv { SRem } else { URem }, x, y);
                                let z = self.cst(0, aw);
                                return self.eq(r, z);
                            }
                        }
                    }
                }
                if a == b { return self.tru(); }
                if aw == 1 {
                    if bc == Some(1) { return a; }
                    if bc == Some(0) { return self.not(a); }
                }
                if let Some(k) = bc {
                    match na.op {
                        ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) { return self.fls(); }
                            let kk = self.cst(k, iw);
                            return self.eq(na.a, kk);
                        }
                        SExt => {
                            let iw = self.w(na.a);
                            if (sext(k & mask(iw), iw) as u128) & m != k { return self.fls(); }
                            let kk = self.cst(k, iw);
                            return self.eq(na.a, kk);
                        }
                        Ite => {
                            let (x, y) = (self.is_c(na.b), self.is_c(na.c));
                            match (x, y) {
                                (Some(x), Some(y)) => {
                                    return match (x == k, y == k) {
                                        (true, true) => self.tru(),
                                        (true, false) => na.a,
                                        (false, true) => self.not(na.a),
                                        (false, false) => self.fls(),
                                    };
                                }
                                (Some(x), None) => {
                                    let r = self.eq(na.c, b);
                                    return if x == k { self.or(na.a, r) } else { let nc = self.not(na.a); self.and(nc, r) };
                                }
                                (None, Some(y)) => {
                                    let r = self.eq(na.b, b);
                                    return if y == k { let nc = self.not(na.a); self.or(nc, r) } else { self.and(na.a, r) };
                                }
                                _ => {}
                            }
                        }
                        Add => if let Some(k2) = self.is_c(na.b) {
                            let kk = self.cst(k.wrapping_sub(k2), aw);
                            return self.eq(na.a, kk);
                        },
                        Sub => if k == 0 { return self.eq(na.a, na.b); }
                            else if let Some(k2) = self.is_c(na.a) {
                                let kk = self.cst(k2.wrapping_sub(k), aw);
                                return self.eq(na.b, kk);
                            },
                        Xor => if let Some(k2) = self.is_c(na.b) {
                            let kk = self.cst(k ^ k2, aw);
                            return self.eq(na.a, kk);
                        } else if k == 0 { return self.eq(na.a, na.b); },
                        Or => if k == 0 {
                            let z = self.cst(0, aw);
                            let x = self.eq(na.a, z);
                            let y = self.eq(na.b, z);
                            return self.and(x, y);
                        },
                        Not => { let kk = self.cst(!k, aw); return self.eq(na.a, kk); }
                        Concat => {
                            let lw = self.w(na.b);
                            let kl = self.cst(k, lw);
                            let kh = self.cst(k >> lw, aw - lw);
                            let x = self.eq(na.a, kh);
                            let y = self.eq(na.b, kl);
                            return self.and(x, y);
                        }
                        Mul => if let Some(k2) = self.is_c(na.b) {
                            // odd multiplier is invertible mod 2^w
                            if k2 & 1 == 1 {
                                let mut inv: u128 = 1;
                                for _ in 0..7 { inv = inv.wrapping_mul(2u128.wrapping_sub(k2.wrapping_mul(inv))); }
                                let kk = self.cst(k.wrapping_mul(inv), aw);
                                return self.eq(na.a, kk);
                            }
                        },
                        _ => {}
                    }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
                if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
                if na.op == Add && nb.op == Add {
                    if na.a == nb.a { return self.eq(na.b, nb.b); }
                    if na.b == nb.b { return self.eq(na.a, nb.a); }
                }
                if na.op == Concat && nb.op == Concat && self.w(na.a) == self.w(nb.a) {
                    let x = self.eq(na.a, nb.a);
                    let y = self.eq(na.b, nb.b);
                    return self.and(x, y);
                }
            }
            Ult => {
                if a == b { return self.fls(); }
                if bc == Some(0) { return self.fls(); }
                if ac == Some(m) { return self.fls(); }
                if bc == Some(1) { let z = self.cst(0, aw); return self.eq(a, z); }
                if ac == Some(0) { let x = self.eq(a, b); return self.not(x); }
                if bc == Some(m) { let x = self.eq(a, b); return self.not(x); }
                if let Some(r) = self.cmp_narrow(Ult, a, b) { return r; }
            }
            Ule => {
                if a == b { return self.tru(); }
                if ac == Some(0) { return self.tru(); }
                if bc == Some(m) { return self.tru(); }
                if bc == Some(0) { return self.eq(a, b); }
                if ac == Some(m) { return self.eq(a, b); }
                if ac == Some(1) { let z = self.cst(0, aw); let x = self.eq(b, z); return self.not(x); }
                if let Some(r) = self.cmp_narrow(Ule, a, b) { return r; }
            }
            Slt => {
                if a == b { return self.fls(); }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Ult, na.a, nb.a); }
                if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) { return self.bin(Slt, na.a, nb.a); }
                if na.op == ZExt && bc.is_some() {
                    if sext(bc.unwrap(), aw) < 0 { return self.fls(); }
                    return self.bin(Ult, a, b);
                }
                if nb.op == ZExt && ac.is_some() {
                    if sext(ac.unwrap(), aw) < 0 { return self.tru(); }
                    return self.bin(Ult, a, b);
                }
                if na.op == SExt && bc.is_some() {
                    let iw = self.w(na.a);
                    let k = sext(bc.unwrap(), aw);
                    let (lo, hi) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
                    if k > hi { return self.tru(); }
                    if k <= lo { return self.fls(); }
                    let kk = self.cst(k as u128, iw);
                    return self.bin(Slt, na.a, kk);
                }
            }
            Sle => {
                if a == b { return self.tru(); }
                // a <= b  ==  !(b < a)
                let x = self.bin(Slt, b, a);
                let nx = self.n[x as usize];
                if nx.op != Slt || nx.a != b || nx.b != a { return self.not(x); }
            }
            SAddO | UAddO | SMulO | UMulO => {
                if bc == Some(0) { return self.fls(); }
                if (op == SMulO && aw > 1 || op == UMulO) && bc == Some(1) { return self.fls(); }
                let ext = if op == SAddO || op == SMulO { SExt } else { ZExt };
                // operands that are extensions of much narrower values cannot overflow
                let eff = |s: &Arena, n: &Node| -> u16 {
                    if n.op == ext { s.w(n.a) } else if n.op == ZExt { s.w(n.a) + (ext == SExt) as u16 }
                    else if n.op == Const {
                        if ext == SExt { let x = sext(n.v, aw); (128 - (if x < 0 { !x } else { x }).leading_zeros() as u16) + 1 }
                        else { 128 - n.v.leading_zeros() as u16 }
                    } else { aw }
                };
                let (ea, eb) = (eff(self, &na), eff(self, &nb));
                let need = if op == SAddO || op == UAddO { ea.max(eb) + 1 } else { ea + eb };
                if need <= aw { return self.fls(); }
                if op == UAddO {
                    if let Some(k) = bc {
                        // a + k overflows iff a > max - k
                        let kk = self.cst(m - k, aw);
                        return self.bin(Ult, kk, a);
                    }
                }
            }
            USubO => return self.bin(Ult, a, b),
            SSubO => {
                if bc == Some(0) { return self.fls(); }
                let eff = |s: &Arena, n: &Node| -> u16 {
                    if n.op == SExt { s.w(n.a) } else if n.op == ZExt { s.w(n.a) + 1 }
                    else if n.op == Const { let x = sext(n.v, aw); (128 - (if x < 0 { !x } else { x }).leading_zeros() as u16) + 1 }
                    else { aw }
                };
                if eff(self, &na).max(eff(self, &nb)) + 1 <= aw { return self.fls(); }
            }
            _ => {}
        }
        self.mk(Node { op, w, a, b, c: 0, v: 0 })
    }

    fn cmp_narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return Some(self.bin(op, na.a, nb.a));
        }
        if na.op == Op::ZExt && nb.op == Op::Const {
            let iw = self.w(na.a);
            if nb.v > mask(iw) { return Some(self.tru()); }
            let k = self.cst(nb.v, iw);
            return Some(self.bin(op, na.a, k));
        }
        if nb.op == Op::ZExt && na.op == Op::Const {
            let iw = self.w(nb.a);
            if na.v > mask(iw) { return Some(self.fls()); }
            let k = self.cst(na.v, iw);
            return Some(self.bin(op, k, nb.a));
        }
        if na.op == Op::Ite && nb.op == Op::Const && self.is_c(na.b).is_some() && self.is_c(na.c).is_some() {
            let x = self.bin(op, na.b, b);
            let y = self.bin(op, na.c, b);
            return Some(self.ite(na.a, x, y));
        }
        // range based decision
        let (la, ha) = self.range(a);
        let (lb, hb) = self.range(b);
        match op {
            Op::Ult => {
                if ha < lb { return Some(self.tru()); }
                if la >= hb { return Some(self.fls()); }
            }
            _ => {
                if ha <= lb { return Some(self.tru()); }
                if la > hb { return Some(self.fls()); }
            }
        }
        None
    }

    fn or_as_concat(&mut self, a: E, b: E) -> Option<E> {
        // a = concat(hi, 0_k), b = zext(lo) with width(lo) <= k
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Concat && self.is_c(na.b) == Some(0) && nb.op == Op::ZExt {
            let k = self.w(na.b);
            if self.w(nb.a) <= k {
                let lo = self.zext(nb.a, k);
                return Some(self.concat(na.a, lo));
            }
        }
        None
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_c(c) { return if k != 0 { a } else { b }; }
        if a == b { return a; }
        let nc = self.n[c as usize];
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        if w == 1 {
            match (self.is_c(a), self.is_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let x = self.not(c); return self.and(x, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let x = self.not(c); return self.or(x, a); }
                _ => {}
            }
        }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if nb.op == Op::Ite && nb.b == a { let cc = self.or(c, nb.a); return self.ite(cc, a, nb.c); }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, v: 0 })
    }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n[a as usize];
        if lo == 0 && w == n.w { return a; }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => self.cst(n.v >> lo, w),
            Op::Extract => self.extract(n.a, lo + n.v as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { self.extract(n.b, lo, w) }
                else if lo >= lw { self.extract(n.a, lo - lw, w) }
                else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { self.extract(n.a, lo, w) }
                else if lo >= iw { self.cst(0, w) }
                else { let x = self.extract(n.a, lo, iw - lo); self.zext(x, w) }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { self.extract(n.a, lo, w) }
                else if lo < iw { let x = self.extract(n.a, lo, iw - lo); self.sext(x, w) }
                else { let s = self.extract(n.a, iw - 1, 1); self.sext(s, w) }
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            Op::Not => { let x = self.extract(n.a, lo, w); self.not(x) }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            _ => self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, v: lo as u128 }),
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (h, l) = (self.n[hi as usize], self.n[lo as usize]);
        let w = h.w + l.w;
        assert!(w <= 128);
        if h.op == Op::Const && l.op == Op::Const { return self.cst((h.v << l.w) | l.v, w); }
        if h.op == Op::Const && h.v == 0 { return self.zext(lo, w); }
        if h.op == Op::Extract {
            if l.op == Op::Extract && h.a == l.a && h.v == l.v + l.w as u128 {
                return self.extract(h.a, l.v as u16, w);
            }
            if h.a == lo && h.v == l.w as u128 { return self.extract(lo, 0, w); }
            // the low part of a sum is the sum of the low parts
            let x = self.n[h.a as usize];
            if h.v == l.w as u128 && matches!(x.op, Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Not | Op::Ite)
                && x.op == l.op && self.extract(h.a, 0, l.w) == lo {
                return self.extract(h.a, 0, w);
            }
        }
        if l.op == Op::Concat {
            // concat(h, concat(x, y)) with mergeable h,x
            let x = self.n[l.a as usize];
            if h.op == Op::Extract && x.op == Op::Extract && h.a == x.a && h.v == x.v + x.w as u128 {
                let hx = self.extract(h.a, x.v as u16, h.w + x.w);
                return self.concat(hx, l.b);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, v: l.w as u128 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n[a as usize];
        if n.w == w { return a; }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const => self.cst(n.v, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, v: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n[a as usize];
        if n.w == w { return a; }
        match n.op {
            Op::Const => self.cst(sext(n.v, n.w) as u128, w),
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            _ => self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, v: 0 }),
        }
    }
    /// x when e is x times a finite power of two that is at least one
    fn scaled_up(&self, e: E) -> Option<E> {
        let n = self.n[e as usize];
        if n.op != Op::FMul { return None; }
        let ok = |e: E| {
            let k = self.n[e as usize];
            k.op == Op::Const && match k.w {
                64 => { let (x, m) = ((k.v >> 52) as u64, k.v as u64 & ((1 << 52) - 1)); m == 0 && (1023..2047).contains(&x) }
                32 => { let (x, m) = ((k.v >> 23) as u64, k.v as u64 & ((1 << 23) - 1)); m == 0 && (127..255).contains(&x) }
                _ => false,
            }
        };
        if ok(n.a) { Some(n.b) } else if ok(n.b) { Some(n.a) } else { None }
    }
    /// floating-point (and conversion) operators; `w` is the result width
    pub fn fop(&mut self, op: Op, w: u16, a: E, b: E, v: u128) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let unary = matches!(op, Op::FSqrt | Op::FIsNan | Op::SiToF | Op::UiToF | Op::FToSiSat | Op::FToUiSat | Op::FExt | Op::FTrunc)
            || (op == Op::Uf && b == 0);
        if na.op == Op::Const && (unary || nb.op == Op::Const) {
            let r = fold(op, w, na.w, na.v, if unary { 0 } else { nb.v }, 0, v);
            return self.cst(r, w);
        }
        if op == Op::FSub && (w == 32 || w == 64) {
            // a - b is a + (-b)
            let m = self.cst(1u128 << (w - 1), w);
            let nb = self.bin(Op::Xor, b, m);
            return self.fop(Op::FAdd, w, a, nb, v);
        }
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::FAdd | Op::FMul | Op::FEq) && a > b { std::mem::swap(&mut a, &mut b); }
        if matches!(op, Op::FEq | Op::FLt | Op::FLe) {
            // doubling (or any larger power of two) changes neither the sign nor whether a value is zero or a NaN
            let wf = self.w(a);
            let zero = |s: &Self, e: E| s.n[e as usize].op == Op::Const && s.n[e as usize].v & (mask(wf) >> 1) == 0;
            let (za, zb) = (zero(self, a), zero(self, b));
            if za && !zb { while let Some(x) = self.scaled_up(b) { b = x; } }
            if zb && !za { while let Some(x) = self.scaled_up(a) { a = x; } }
            a = self.no_zero_sign(a, 12);
            b = self.no_zero_sign(b, 12);
            if op == Op::FEq && a > b { std::mem::swap(&mut a, &mut b); }
        }
        if let Some(x) = self.float_identity(op, w, a, b) { return x; }
        if self.abs_float && matches!(op, Op::FEq | Op::FLt | Op::FLe | Op::FIsNan) {
            if let Some(&x) = self.abs_memo.get(&(op, a, b)) { return x; }
            let x = self.var(1);
            self.abs_memo.insert((op, a, b), x);
            return x;
        }
        self.mk(Node { op, w, a, b: if unary { 0 } else { b }, c: 0, v })
    }

    /// A value that compares like `e`: what only sets the sign of a zero is left out.
    fn no_zero_sign(&mut self, e: E, depth: u32) -> E {
        let n = self.n[e as usize];
        if depth == 0 || !(n.w == 32 || n.w == 64) { return e; }
        let minus = 1u128 << (n.w - 1);
        match n.op {
            // x + 0: (x == -0) ? 0 : x, or for x = -y: (y == 0) ? 0 : -y
            Op::Ite if self.is_c(n.b) == Some(0) => {
                let (c, x) = (self.n[n.a as usize], self.n[n.c as usize]);
                if c.op == Op::Eq && ((c.a == n.c && self.is_c(c.b) == Some(minus))
                    || (x.op == Op::Xor && c.a == x.a && self.is_c(x.b) == Some(minus) && self.is_c(c.b) == Some(0))) {
                    return self.no_zero_sign(n.c, depth - 1);
                }
                e
            }
            Op::FAdd | Op::FMul => {
                let (a, b) = (self.no_zero_sign(n.a, depth - 1), self.no_zero_sign(n.b, depth - 1));
                if (a, b) == (n.a, n.b) { e } else { self.fop(n.op, n.w, a, b, n.v) }
            }
            Op::Xor if self.is_c(n.b) == Some(minus) => {
                let a = self.no_zero_sign(n.a, depth - 1);
                if a == n.a { e } else { self.bin(Op::Xor, a, n.b) }
            }
            _ => e,
        }
    }
    /// Identities of IEEE arithmetic, exact up to the payload of a NaN (which Rust leaves open).
    fn float_identity(&mut self, op: Op, w: u16, a: E, b: E) -> Option<E> {
        if !(w == 32 || w == 64 || op == Op::FEq) { return None; }
        if op == Op::FEq {
            if a != b { return None; }
            let x = self.fop(Op::FIsNan, 1, a, 0, 0);
            return Some(self.not(x));
        }
        let k = |s: &Self, e: E| s.is_c(e);
        let (plus, minus) = (0u128, 1u128 << (w - 1));
        let one: u128 = if w == 64 { 0x3ff0_0000_0000_0000 } else { 0x3f80_0000 };
        let neg = |s: &mut Self, x: E| { let m = s.cst(minus, w); s.bin(Op::Xor, x, m) };
        // x + 0: the sum of -0 and +0 is +0
        let plus_zero = |s: &mut Self, x: E| { let m = s.cst(minus, w); let z = s.cst(plus, w); let c = s.eq(x, m); s.ite(c, z, x) };
        match op {
            Op::FAdd => for (x, y) in [(a, b), (b, a)] {
                if k(self, y) == Some(minus) { return Some(x); }
                if k(self, y) == Some(plus) { return Some(plus_zero(self, x)); }
            },
            Op::FMul => for (x, y) in [(a, b), (b, a)] {
                // the sign of a product: (-x) * y is -(x * y)
                let n = self.n[x as usize];
                if n.op == Op::Xor && self.is_c(n.b) == Some(minus) { let p = self.fop(Op::FMul, w, n.a, y, 0); return Some(neg(self, p)); }
                if k(self, y) == Some(one) { return Some(x); }
                if k(self, y) == Some(one | minus) { return Some(neg(self, x)); }
            },
            Op::FDiv => {
                if k(self, b) == Some(one) { return Some(a); }
                if k(self, b) == Some(one | minus) { return Some(neg(self, a)); }
            }
            _ => {}
        }
        None
    }

    // ---------------------------------------------------------------- evaluation
    pub fn eval(&mut self, e: E, model: &std::rc::Rc<Vec<u128>>) -> u128 {
        let key = std::rc::Rc::as_ptr(model) as usize;
        if key != self.memo_key {
            self.memo_key = key;
            self.gen += 1;
        }
        if self.memo.len() < self.n.len() { let l = self.n.len(); self.memo.resize(l + 1024, (0, 0)); }
        self.ev(e, model)
    }
    /// must be called whenever a model is dropped/created so that pointer reuse cannot alias
    pub fn bump_model(&mut self) { self.memo_key = 0; }
    fn ev(&mut self, e: E, model: &Vec<u128>) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return n.v,
            Op::Var => return model.get(n.v as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if self.memo[e as usize].0 == self.gen { return self.memo[e as usize].1; }
        let r = if n.op == Op::Ite {
            let c = self.ev(n.a, model);
            if c != 0 { self.ev(n.b, model) } else { self.ev(n.c, model) }
        } else {
            let a = self.ev(n.a, model);
            let b = if n.b != 0 { self.ev(n.b, model) } else { 0 };
            fold(n.op, n.w, self.w(n.a), a, b, 0, n.v)
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }

    // ---------------------------------------------------------------- variables
    pub fn vars(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&e) { return v.clone(); }
        let n = self.n[e as usize];
        let mut out: Vec<u32> = vec![];
        match n.op {
            Op::Const => {}
            Op::Var => out.push(n.v as u32),
            _ => {
                for x in [n.a, n.b, n.c] {
                    if x != 0 { out.extend(self.vars(x).iter()); }
                }
                out.sort_unstable();
                out.dedup();
            }
        }
        let r = std::rc::Rc::new(out);
        self.vars_memo.insert(e, r.clone());
        r
    }

    // ---------------------------------------------------------------- unsigned interval
    pub fn range(&mut self, e: E) -> (u128, u128) {
        let n = self.n[e as usize];
        let m = mask(n.w);
        match n.op {
            Op::Const => return (n.v, n.v),
            Op::Var => return (0, m),
            _ => {}
        }
        if let Some(&r) = self.range_memo.get(&e) { return r; }
        let full = (0, m);
        let r = match n.op {
            Op::ZExt => self.range(n.a),
            Op::Concat => {
                let (ah, al) = (self.range(n.a), self.range(n.b));
                let lw = self.w(n.b) as u32;
                ((ah.0 << lw) | al.0, (ah.1 << lw) | al.1)
            }
            Op::Ite => { let (x, y) = (self.range(n.b), self.range(n.c)); (x.0.min(y.0), x.1.max(y.1)) }
            Op::Add => {
                let (x, y) = (self.range(n.a), self.range(n.b));
                match (x.0.checked_add(y.0), x.1.checked_add(y.1)) {
                    (Some(l), Some(h)) if h <= m => (l, h),
                    (Some(l), Some(h)) if n.w < 127 && l > m && (h >> n.w) == (l >> n.w) => (l & m, h & m),
                    _ => full,
                }
            }
            Op::Sub => {
                let (x, y) = (self.range(n.a), self.range(n.b));
                if x.0 >= y.1 { (x.0 - y.1, x.1 - y.0) } else { full }
            }
            Op::Mul => {
                let (x, y) = (self.range(n.a), self.range(n.b));
                match x.1.checked_mul(y.1) { Some(h) if h <= m => (x.0 * y.0, h), _ => full }
            }
            Op::UDiv => {
                let (x, y) = (self.range(n.a), self.range(n.b));
                if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { full }
            }
            Op::URem => {
                let (x, y) = (self.range(n.a), self.range(n.b));
                if y.0 > 0 { if x.1 < y.0 { x } else { (0, (y.1 - 1).min(x.1)) } } else { (0, x.1) }
            }
            Op::And => { let (x, y) = (self.range(n.a), self.range(n.b)); (0, x.1.min(y.1)) }
            Op::Or => {
                let (x, y) = (self.range(n.a), self.range(n.b));
                let hb = 128 - (x.1 | y.1).leading_zeros();
                (x.0.max(y.0), if hb >= 128 { m } else { (1u128 << hb) - 1 })
            }
            Op::Extract if n.v == 0 => { let x = self.range(n.a); if x.1 <= m { x } else { full } }
            Op::Extract => { let x = self.range(n.a); let s = n.v as u32; let h = x.1 >> s; if h <= m { (x.0 >> s, h) } else { full } }
            Op::LShr => { let x = self.range(n.a); (0, x.1) }
            _ => full,
        };
        self.range_memo.insert(e, r);
        r
    }
    /// number of guaranteed trailing zero bits
    /// Interval of `e` read as a signed number, given intervals of some sub-terms.
    pub fn irange(&mut self, e: E, b: &HashMap<E, (i128, i128)>, memo: &mut HashMap<E, (i128, i128)>) -> (i128, i128) {
        if let Some(&r) = memo.get(&e) { return r; }
        let n = self.n[e as usize];
        let w = n.w;
        let full = smm(w);
        let fit = |r: Option<(i128, i128)>| match r { Some((l, h)) if l >= full.0 && h <= full.1 => (l, h), _ => full };
        let mut r = match n.op {
            Op::Const => { let k = sext(self.is_c(e).unwrap(), w); (k, k) }
            Op::Add | Op::Sub | Op::Mul if w > 1 => {
                let (x, y) = (self.irange(n.a, b, memo), self.irange(n.b, b, memo));
                fit(match n.op {
                    Op::Add => x.0.checked_add(y.0).zip(x.1.checked_add(y.1)),
                    Op::Sub => x.0.checked_sub(y.1).zip(x.1.checked_sub(y.0)),
                    _ => imul(x, y),
                })
            }
            Op::SExt => self.irange(n.a, b, memo),
            Op::Concat if self.is_c(n.b) == Some(0) && self.w(n.a) > 1 => {
                let k = self.w(n.b);
                let x = self.irange(n.a, b, memo);
                fit(if k < 100 { imul(x, (1i128 << k, 1i128 << k)) } else { None })
            }
            Op::ZExt => {
                let aw = self.w(n.a);
                let x = self.irange(n.a, b, memo);
                if aw == 1 { (0, 1) } else if x.0 >= 0 { x } else if aw < 127 { (0, (1i128 << aw) - 1) } else { full }
            }
            Op::Ite => { let (x, y) = (self.irange(n.b, b, memo), self.irange(n.c, b, memo)); (x.0.min(y.0), x.1.max(y.1)) }
            Op::Extract if n.v == 0 => { let x = self.irange(n.a, b, memo); fit(Some(x)) }
            Op::SDiv => {
                // |a / b| <= |a|, except MIN / -1
                let x = self.irange(n.a, b, memo);
                if x.0 > full.0 { let m = x.0.unsigned_abs().max(x.1.unsigned_abs()) as i128; (-m, m) } else { full }
            }
            Op::SRem => {
                let (x, y) = (self.irange(n.a, b, memo), self.irange(n.b, b, memo));
                if x.0 > full.0 && y.0 > full.0 {
                    let m = (x.0.unsigned_abs().max(x.1.unsigned_abs())).min(y.0.unsigned_abs().max(y.1.unsigned_abs())) as i128;
                    (if x.0 >= 0 { 0 } else { -m }, if x.1 <= 0 { 0 } else { m })
                } else { full }
            }
            _ => full,
        };
        if r == full && w > 1 && w < 128 {
            let u = self.range(e);
            if u.1 <= full.1 as u128 { r = (u.0 as i128, u.1 as i128); }
        }
        if let Some(&(l, h)) = b.get(&e) { r = (r.0.max(l), r.1.min(h)); }
        if r.0 > r.1 { r = full; }
        memo.insert(e, r);
        r
    }
    /// `a / y` when the ring normal form of `a` is a multiple of `y`, and the intervals of the
    /// path condition show that multiplying the quotient back does not overflow.
    pub fn exact_div(&mut self, cs: &[E], a: E, y: E) -> Option<E> {
        let w = self.w(a);
        if w > 64 || w < 8 { return None; }
        let (p, d) = (self.poly(a), self.poly(y));
        if d.len() != 1 || p.len() > 12 || p.is_empty() { return None; }
        let (dk, dv) = d.iter().next().map(|(k, v)| (k.clone(), sext(*v, w))).unwrap();
        if dv == 0 { return None; }
        let mut q: Vec<(Vec<E>, i128)> = vec![];
        for (k, v) in p.iter() {
            let v = sext(*v, w);
            if v % dv != 0 { return None; }
            let mut rest = k.clone();
            for x in &dk {
                let i = rest.iter().position(|e| e == x)?;
                rest.remove(i);
            }
            q.push((rest, v / dv));
        }
        let mut b: HashMap<E, (i128, i128)> = HashMap::new();
        for &c in cs { self.bound(c, true, &mut b); }
        let mut memo = HashMap::new();
        let mut tot = (0i128, 0i128);
        for (k, v) in &q {
            let mut r = (*v, *v);
            for &x in k { let i = self.irange(x, &b, &mut memo); r = imul(r, i)?; }
            tot = (tot.0.checked_add(r.0)?, tot.1.checked_add(r.1)?);
        }
        let mut dr = (dv, dv);
        for &x in &dk { let i = self.irange(x, &b, &mut memo); dr = imul(dr, i)?; }
        let full = smm(w);
        // the divisor itself is the product of its factors only if that does not overflow
        if dr.0 < full.0 || dr.1 > full.1 || tot.0 < full.0 || tot.1 > full.1 { return None; }
        let back = imul(tot, dr)?;
        if back.0 < full.0 || back.1 > full.1 { return None; }
        let mut r = self.cst(0, w);
        for (k, v) in q {
            let mut t = self.cst(v as u128 & mask(w), w);
            for x in k { t = self.bin(Op::Mul, x, t); }
            r = self.bin(Op::Add, r, t);
        }
        Some(r)
    }
    /// True when the intervals already exclude `cond`.
    pub fn excluded(&mut self, cs: &[E], cond: E) -> bool {
        let mut b: HashMap<E, (i128, i128)> = HashMap::new();
        for &c in cs { self.bound(c, true, &mut b); }
        let mut memo = HashMap::new();
        self.never(cond, &b, &mut memo)
    }
    fn never(&mut self, cond: E, b: &HashMap<E, (i128, i128)>, memo: &mut HashMap<E, (i128, i128)>) -> bool {
        let n = self.n[cond as usize];
        if n.w != 1 { return false; }
        match n.op {
            Op::Or => return self.never(n.a, b, memo) && self.never(n.b, b, memo),
            Op::And => return self.never(n.a, b, memo) || self.never(n.b, b, memo),
            Op::Ult | Op::Ule => {
                return match (self.uint(n.a, b, memo), self.uint(n.b, b, memo)) {
                    (Some(x), Some(y)) => if n.op == Op::Ult { x.0 >= y.1 } else { x.0 > y.1 },
                    _ => false,
                };
            }
            Op::Not if matches!(self.n[n.a as usize].op, Op::Ult | Op::Ule) => {
                let n = self.n[n.a as usize];
                return match (self.uint(n.a, b, memo), self.uint(n.b, b, memo)) {
                    (Some(x), Some(y)) => if n.op == Op::Ult { x.1 < y.0 } else { x.1 <= y.0 },
                    _ => false,
                };
            }
            Op::Eq | Op::Slt | Op::Sle | Op::SAddO | Op::SSubO | Op::SMulO | Op::UAddO | Op::UMulO | Op::USubO => {}
            _ => return false,
        }
        let w = self.w(n.a);
        if w > 128 || w == 1 { return false; }
        let full = smm(w);
        let (x, y) = (self.irange(n.a, b, memo), self.irange(n.b, b, memo));
        let inside = |r: Option<(i128, i128)>| matches!(r, Some((l, h)) if l >= full.0 && h <= full.1);
        let uinside = |r: Option<(i128, i128)>| matches!(r, Some((l, h)) if l >= 0 && (w >= 127 || h < (1i128 << w))) && x.0 >= 0 && y.0 >= 0;
        match n.op {
            Op::Eq => x.1 < y.0 || y.1 < x.0,
            Op::Slt => x.0 >= y.1,
            Op::Sle => x.0 > y.1,
            Op::SAddO => inside(x.0.checked_add(y.0).zip(x.1.checked_add(y.1))),
            Op::SSubO => inside(x.0.checked_sub(y.1).zip(x.1.checked_sub(y.0))),
            Op::SMulO => inside(imul(x, y)),
            Op::UAddO => uinside(x.0.checked_add(y.0).zip(x.1.checked_add(y.1))),
            Op::UMulO => uinside(imul(x, y)),
            _ => uinside(x.0.checked_sub(y.1).zip(x.1.checked_sub(y.0))),
        }
    }
    /// Interval of `e` read as an unsigned number.
    fn uint(&mut self, e: E, b: &HashMap<E, (i128, i128)>, memo: &mut HashMap<E, (i128, i128)>) -> Option<(i128, i128)> {
        let n = self.n[e as usize];
        let w = n.w;
        if w > 64 || w == 1 { return None; }
        if let Some(k) = self.is_c(e) { return Some((k as i128, k as i128)); }
        let (x, d) = if n.op == Op::Add && self.is_c(n.b).is_some() { (n.a, sext(self.is_c(n.b).unwrap(), w)) } else { (e, 0) };
        let r = self.irange(x, b, memo);
        let (l, h, p) = (r.0 + d, r.1 + d, 1i128 << w);
        if l.div_euclid(p) != h.div_euclid(p) { return None; }
        Some((l.rem_euclid(p), h.rem_euclid(p)))
    }
    /// Intervals a path condition gives directly.
    fn bound(&mut self, c: E, pos: bool, b: &mut HashMap<E, (i128, i128)>) {
        let n = self.n[c as usize];
        match n.op {
            Op::Not if n.w == 1 => return self.bound(n.a, !pos, b),
            Op::And if pos && n.w == 1 => { self.bound(n.a, pos, b); return self.bound(n.b, pos, b); }
            Op::Or if !pos && n.w == 1 => { self.bound(n.a, pos, b); return self.bound(n.b, pos, b); }
            _ => {}
        }
        if !matches!(n.op, Op::Slt | Op::Sle | Op::Ult | Op::Ule) { return; }
        let w = self.w(n.a);
        if w > 128 || w == 1 { return; }
        let (min, max) = smm(w);
        let (ka, kb) = (self.is_c(n.a), self.is_c(n.b));
        let mut put = |e: E, l: i128, h: i128| { let r = b.entry(e).or_insert((min, max)); r.0 = r.0.max(l); r.1 = r.1.min(h); };
        match (n.op, ka, kb) {
            (Op::Slt, None, Some(k)) => { let k = sext(k, w); if pos { put(n.a, min, k.saturating_sub(1)) } else { put(n.a, k, max) } }
            (Op::Sle, None, Some(k)) => { let k = sext(k, w); if pos { put(n.a, min, k) } else { put(n.a, k.saturating_add(1), max) } }
            (Op::Slt, Some(k), None) => { let k = sext(k, w); if pos { put(n.b, k.saturating_add(1), max) } else { put(n.b, min, k) } }
            (Op::Sle, Some(k), None) => { let k = sext(k, w); if pos { put(n.b, k, max) } else { put(n.b, min, k.saturating_sub(1)) } }
            (Op::Ult, None, Some(k)) if pos && k > 0 && k - 1 <= max as u128 => {
                let h = k as i128 - 1;
                put(n.a, 0, h);
                // 0 <= x + d <= h as unsigned numbers
                let m = self.n[n.a as usize];
                if m.op == Op::Add {
                    let (x, d) = if let Some(d) = self.is_c(m.b) { (m.a, sext(d, w)) } else if let Some(d) = self.is_c(m.a) { (m.b, sext(d, w)) } else { return };
                    if d != i128::MIN && -d >= min && h.checked_sub(d).map_or(false, |x| x <= max) { let r = b.entry(x).or_insert((min, max)); r.0 = r.0.max(-d); r.1 = r.1.min(h - d); }
                }
            }
            (Op::Ule, None, Some(k)) if pos && k <= max as u128 => put(n.a, 0, k as i128),
            (Op::Ult, Some(k), None) if !pos && k <= max as u128 => put(n.b, 0, k as i128),
            (Op::Ule, Some(k), None) if !pos && k > 0 && k - 1 <= max as u128 => put(n.b, 0, k as i128 - 1),
            _ => {}
        }
    }
    pub fn tz(&mut self, e: E) -> u32 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => if n.v == 0 { 127 } else { n.v.trailing_zeros() },
            Op::Concat => {
                let lw = self.w(n.b) as u32;
                let t = self.tz(n.b);
                if t >= lw { lw + self.tz(n.a) } else { t }
            }
            Op::Add | Op::Sub | Op::Or => self.tz(n.a).min(self.tz(n.b)),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(127),
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }

    // ---------------------------------------------------------------- substitution of known values
    pub fn rebuild(&mut self, n: &Node, a: E, b: E, c: E) -> E {
        use Op::*;
        match n.op {
            Const | Var => unreachable!(),
            Not => self.not(a),
            Ite => self.ite(a, b, c),
            Concat => self.concat(a, b),
            Extract => self.extract(a, n.v as u16, n.w),
            ZExt => self.zext(a, n.w),
            SExt => self.sext(a, n.w),
            FAdd | FSub | FMul | FDiv | FRem | FSqrt | FIsNan | SiToF | UiToF | FToSiSat | FToUiSat | FExt | FTrunc | Uf | FEq | FLt | FLe =>
                self.fop(n.op, n.w, a, b, n.v),
            _ => self.bin(n.op, a, b),
        }
    }
    pub fn subst(&mut self, e: E, eqs: &HashMap<E, E>, memo: &mut HashMap<E, E>) -> E {
        if eqs.is_empty() { return e; }
        let n = self.n[e as usize];
        if n.op == Op::Const { return e; }
        if let Some(&r) = memo.get(&e) { return r; }
        let r = if let Some(&x) = eqs.get(&e) { x } else if n.op == Op::Var { e } else {
            let a = self.subst(n.a, eqs, memo);
            let b = if n.b != 0 { self.subst(n.b, eqs, memo) } else { 0 };
            let c = if n.c != 0 { self.subst(n.c, eqs, memo) } else { 0 };
            if a == n.a && b == n.b && c == n.c { e } else { 
                let r = self.rebuild(&n, a, b, c);
                if let Some(&x) = eqs.get(&r) { x } else { r }
            }
        };
        memo.insert(e, r);
        r
    }

    // ---------------------------------------------------------------- ring normal form
    /// polynomial over Z/2^w in opaque atoms; None when it grows too large
    pub fn poly(&mut self, e: E) -> std::rc::Rc<Poly> {
        if let Some(p) = self.poly_memo.get(&e) { return p.clone(); }
        let n = self.n[e as usize];
        let m = mask(n.w);
        let mut p: Poly = Poly::new();
        let atom = |p: &mut Poly| { p.insert(vec![e], 1); };
        const LIM: usize = 4000;
        match n.op {
            Op::Const => { if n.v != 0 { p.insert(vec![], n.v); } }
            Op::Add | Op::Sub => {
                let (x, y) = (self.poly(n.a), self.poly(n.b));
                p = (*x).clone();
                for (k, v) in y.iter() {
                    let ent = p.entry(k.clone()).or_insert(0);
                    *ent = if n.op == Op::Add { ent.wrapping_add(*v) } else { ent.wrapping_sub(*v) } & m;
                    if *ent == 0 { p.remove(k); }
                }
            }
            Op::Mul => {
                let (x, y) = (self.poly(n.a), self.poly(n.b));
                let deg = |p: &Poly| p.keys().map(|k| k.len()).max().unwrap_or(0);
                if x.len() * y.len() > LIM || deg(&x) + deg(&y) > 48 { atom(&mut p); } else {
                    for (k1, v1) in x.iter() {
                        for (k2, v2) in y.iter() {
                            let mut k = k1.clone();
                            k.extend(k2.iter());
                            k.sort_unstable();
                            let ent = p.entry(k.clone()).or_insert(0);
                            *ent = ent.wrapping_add(v1.wrapping_mul(*v2)) & m;
                            if *ent == 0 { p.remove(&k); }
                        }
                    }
                }
            }
            Op::SRem | Op::URem if n.w > 1 => {
                // x - (x / y) * y
                let q = self.bin(if n.op == Op::SRem { Op::SDiv } else { Op::UDiv }, n.a, n.b);
                let t = self.bin(Op::Mul, q, n.b);
                let (x, y) = (self.poly(n.a), self.poly(t));
                p = (*x).clone();
                for (k, v) in y.iter() {
                    let ent = p.entry(k.clone()).or_insert(0);
                    *ent = ent.wrapping_sub(*v) & m;
                    if *ent == 0 { p.remove(k); }
                }
            }
            Op::Not if n.w > 1 => {
                let x = self.poly(n.a);
                for (k, v) in x.iter() { p.insert(k.clone(), v.wrapping_neg() & m); }
                let ent = p.entry(vec![]).or_insert(0);
                *ent = ent.wrapping_sub(1) & m;
                if *ent == 0 { p.remove(&vec![]); }
            }
            Op::Concat if self.is_c(n.b) == Some(0) => {
                // x << k; lift the high part to the full width when it is a plain truncation
                let k = self.w(n.b);
                let h = self.n[n.a as usize];
                if h.op == Op::Extract && h.v == 0 && self.w(h.a) == n.w {
                    let x = self.poly(h.a);
                    for (kk, v) in x.iter() {
                        let vv = (v << k) & m;
                        if vv != 0 { p.insert(kk.clone(), vv); }
                    }
                } else {
                    // 2^k x depends on x mod 2^(w-k) only: any full-width values with the right
                    // low bits may stand for the atoms of the narrow polynomial
                    let x = self.poly(n.a);
                    for (kk, v) in x.iter() {
                        let vv = (v << k) & m;
                        if vv == 0 { continue; }
                        let mut key = vec![];
                        for &t in kk {
                            let nt = self.n[t as usize];
                            let full = if nt.op == Op::Extract && nt.v == 0 && self.w(nt.a) == n.w { nt.a } else { self.zext(t, n.w) };
                            key.push(full);
                        }
                        key.sort_unstable();
                        let ent = p.entry(key.clone()).or_insert(0);
                        *ent = ent.wrapping_add(vv) & m;
                        if *ent == 0 { p.remove(&key); }
                    }
                }
            }
            Op::SExt | Op::ZExt | _ => atom(&mut p),
        }
        let r = std::rc::Rc::new(p);
        self.poly_memo.insert(e, r.clone());
        r
    }
    pub fn fold_const(&mut self, e: E) -> Option<u128> {
        let n = self.n[e as usize];
        if n.w < 8 || !matches!(n.op, Op::Add | Op::Sub) { return None; }
        let nl = |x: E, s: &Self| { let m = s.n[x as usize]; m.op == Op::Mul || (m.op == Op::Concat && s.is_c(m.b) == Some(0)) };
        if !nl(n.a, self) && !nl(n.b, self) { return None; }
        let (x, y) = (self.poly(n.a), self.poly(n.b));
        if x.len() > 40 || x.len().abs_diff(y.len()) > 1 { return None; }
        let p = self.poly(e);
        match p.len() { 0 => Some(0), 1 => p.get(&vec![]).copied(), _ => None }
    }
    /// Tries to decide boolean expression by ring normalisation of its equalities.
    pub fn ring_simplify(&mut self, e: E) -> E {
        if let Some(&r) = self.simp_memo.get(&e) { return r; }
        let n = self.n[e as usize];
        let r = match n.op {
            Op::And | Op::Or | Op::Xor if n.w == 1 => {
                let a = self.ring_simplify(n.a);
                let b = self.ring_simplify(n.b);
                self.bin(n.op, a, b)
            }
            Op::Not if n.w == 1 => { let a = self.ring_simplify(n.a); self.not(a) }
            Op::Ite if n.w == 1 => {
                let a = self.ring_simplify(n.a);
                let b = self.ring_simplify(n.b);
                let c = self.ring_simplify(n.c);
                self.ite(a, b, c)
            }
            Op::Eq if self.w(n.a) > 1 => {
                let (x, y) = (self.poly(n.a), self.poly(n.b));
                if x == y { self.tru() } else {
                    // difference a nonzero constant?
                    let d = self.bin(Op::Sub, n.a, n.b);
                    let p = self.poly(d);
                    if p.len() == 1 && p.contains_key(&vec![]) { self.fls() } else { e }
                }
            }
            _ => e,
        };
        self.simp_memo.insert(e, r);
        r
    }

    pub fn show(&self, e: E, depth: usize) -> String {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => format!("{}", n.v),
            Op::Var => format!("v{}", n.v),
            _ if depth == 0 => "..".into(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.v, n.w),
            _ => {
                let mut s = format!("({:?}", n.op);
                for x in [n.a, n.b, n.c] { if x != 0 { s += " "; s += &self.show(x, depth - 1); } }
                s + ")"
            }
        }
    }
}

fn imul(x: (i128, i128), y: (i128, i128)) -> Option<(i128, i128)> {
    let p = [x.0.checked_mul(y.0)?, x.0.checked_mul(y.1)?, x.1.checked_mul(y.0)?, x.1.checked_mul(y.1)?];
    Some((*p.iter().min().unwrap(), *p.iter().max().unwrap()))
}
