//! Minimal libz3 binding (dlopen) and translation of `expr` terms to SMT terms.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString, CStr};

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}

type P = *mut c_void;

macro_rules! api {
    ($($name:ident ( $($arg:ident : $t:ty),* ) $(-> $ret:ty)? ;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $( pub $name: unsafe extern "C" fn($($t),*) $(-> $ret)?, )* }
        impl Api {
            pub fn load(path: &str) -> Option<Api> {
                unsafe {
                    let p = CString::new(path).unwrap();
                    let h = dlopen(p.as_ptr(), 2);
                    if h.is_null() { return None; }
                    Some(Api { $( $name: {
                        let s = CString::new(stringify!($name)).unwrap();
                        let f = dlsym(h, s.as_ptr());
                        if f.is_null() { return None; }
                        std::mem::transmute(f)
                    }, )* })
                }
            }
        }
    };
}

api! {
    Z3_mk_config() -> P;
    Z3_del_config(c: P);
    Z3_mk_context(c: P) -> P;
    Z3_del_context(c: P);
    Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    Z3_mk_bool_sort(c: P) -> P;
    Z3_mk_const(c: P, s: P, ty: P) -> P;
    Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    Z3_mk_true(c: P) -> P;
    Z3_mk_false(c: P) -> P;
    Z3_mk_not(c: P, a: P) -> P;
    Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    Z3_mk_xor(c: P, a: P, b: P) -> P;
    Z3_mk_eq(c: P, a: P, b: P) -> P;
    Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    Z3_mk_bvnot(c: P, a: P) -> P;
    Z3_mk_bvand(c: P, a: P, b: P) -> P;
    Z3_mk_bvor(c: P, a: P, b: P) -> P;
    Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    Z3_mk_bvult(c: P, a: P, b: P) -> P;
    Z3_mk_bvule(c: P, a: P, b: P) -> P;
    Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    Z3_mk_concat(c: P, a: P, b: P) -> P;
    Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    Z3_mk_bvadd_no_overflow(c: P, a: P, b: P, s: bool) -> P;
    Z3_mk_bvadd_no_underflow(c: P, a: P, b: P) -> P;
    Z3_mk_bvsub_no_overflow(c: P, a: P, b: P) -> P;
    Z3_mk_bvsub_no_underflow(c: P, a: P, b: P, s: bool) -> P;
    Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, s: bool) -> P;
    Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
    Z3_mk_fpa_sort_single(c: P) -> P;
    Z3_mk_fpa_sort_double(c: P) -> P;
    Z3_mk_fpa_rne(c: P) -> P;
    Z3_mk_fpa_rtz(c: P) -> P;
    Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, n: c_uint) -> P;
    Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, n: c_uint) -> P;
    Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, ran: P) -> P;
    Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    Z3_mk_simple_solver(c: P) -> P;
    Z3_mk_solver_for_logic(c: P, s: P) -> P;
    Z3_mk_solver(c: P) -> P;
    Z3_solver_inc_ref(c: P, s: P);
    Z3_solver_dec_ref(c: P, s: P);
    Z3_solver_push(c: P, s: P);
    Z3_solver_pop(c: P, s: P, n: c_uint);
    Z3_solver_reset(c: P, s: P);
    Z3_solver_assert(c: P, s: P, a: P);
    Z3_solver_check(c: P, s: P) -> c_int;
    Z3_solver_get_model(c: P, s: P) -> P;
    Z3_solver_set_params(c: P, s: P, p: P);
    Z3_solver_to_string(c: P, s: P) -> *const c_char;
    Z3_mk_params(c: P) -> P;
    Z3_params_inc_ref(c: P, p: P);
    Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    Z3_model_inc_ref(c: P, m: P);
    Z3_model_dec_ref(c: P, m: P);
    Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    Z3_get_full_version() -> *const c_char;
    Z3_get_error_code(c: P) -> c_int;
    Z3_global_param_set(k: *const c_char, v: *const c_char);
}

extern "C" fn noop(_c: P, _e: c_int) {}

pub enum Res { Unsat, Sat(Vec<u128>), Unknown }

pub struct Z {
    pub api: std::rc::Rc<Api>,
    pub ctx: P,
    bv: HashMap<(E, bool), P>,
    bl: HashMap<(E, bool), P>,
    fp: HashMap<(E, bool), P>,
    sorts: HashMap<u16, P>,
    ufs: HashMap<(u32, u128, u16, u16, bool), P>,
    inc: P,
    stack: Vec<(E, bool)>,
    cur_timeout: u32,
    pub abs: bool,
    pub dump: bool,
}

pub const LIBS: [&str; 3] = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so.4",
];

pub fn load_api() -> Api {
    if let Ok(p) = std::env::var("SYMIR_LIBZ3") {
        return Api::load(&p).expect("SYMIR_LIBZ3 not loadable");
    }
    for p in LIBS {
        if let Some(a) = Api::load(p) { return a; }
    }
    panic!("no libz3");
}

pub fn version(api: &Api) -> String {
    unsafe { CStr::from_ptr((api.Z3_get_full_version)()).to_string_lossy().into_owned() }
}

impl Drop for Z {
    fn drop(&mut self) {
        unsafe {
            (self.api.Z3_solver_dec_ref)(self.ctx, self.inc);
            (self.api.Z3_del_context)(self.ctx);
        }
    }
}

impl Z {
    pub fn new(api: std::rc::Rc<Api>) -> Z {
        unsafe {
            let (k, v) = (CString::new("memory_high_watermark_mb").unwrap(), CString::new("14000").unwrap());
            (api.Z3_global_param_set)(k.as_ptr(), v.as_ptr());
            let cfg = (api.Z3_mk_config)();
            let ctx = (api.Z3_mk_context)(cfg);
            (api.Z3_del_config)(cfg);
            (api.Z3_set_error_handler)(ctx, Some(noop));
            let inc = (api.Z3_mk_simple_solver)(ctx);
            (api.Z3_solver_inc_ref)(ctx, inc);
            Z { api, ctx, bv: HashMap::new(), bl: HashMap::new(), fp: HashMap::new(), sorts: HashMap::new(),
                ufs: HashMap::new(), inc, stack: vec![], cur_timeout: 0, abs: false, dump: std::env::var("SYMIR_DUMP").is_ok() }
        }
    }
    fn sort(&mut self, w: u16) -> P {
        if let Some(&s) = self.sorts.get(&w) { return s; }
        let s = unsafe { (self.api.Z3_mk_bv_sort)(self.ctx, w as c_uint) };
        self.sorts.insert(w, s);
        s
    }
    fn num(&mut self, v: u128, w: u16) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 { return (self.api.Z3_mk_unsigned_int64)(self.ctx, v as u64, s); }
            let t = CString::new(format!("{}", v)).unwrap();
            (self.api.Z3_mk_numeral)(self.ctx, t.as_ptr(), s)
        }
    }
    fn uf(&mut self, op: u32, v: u128, w: u16, aw: u16, two: bool) -> P {
        let k = (op, v, w, aw, two);
        if let Some(&d) = self.ufs.get(&k) { return d; }
        let (sw, sa) = (self.sort(w), self.sort(aw));
        let d = unsafe {
            let name = CString::new(format!("uf_{}_{}_{}_{}_{}", op, v, w, aw, two)).unwrap();
            let s = (self.api.Z3_mk_string_symbol)(self.ctx, name.as_ptr());
            let dom = [sa, sa];
            (self.api.Z3_mk_func_decl)(self.ctx, s, if two { 2 } else { 1 }, dom.as_ptr(), sw)
        };
        self.ufs.insert(k, d);
        d
    }
    pub fn boolean(&mut self, ar: &Arena, e: E) -> P {
        let key = (e, self.abs && ar.taint[e as usize]);
        if let Some(&p) = self.bl.get(&key) { return p; }
        let n = ar.n[e as usize];
        debug_assert!(n.w == 1);
        let c = self.ctx;
        let api = self.api.clone();
        let r = unsafe {
            match n.op {
                Op::Const => if n.v != 0 { (api.Z3_mk_true)(c) } else { (api.Z3_mk_false)(c) },
                Op::Not => { let a = self.boolean(ar, n.a); (api.Z3_mk_not)(c, a) }
                Op::And => { let x = [self.boolean(ar, n.a), self.boolean(ar, n.b)]; (api.Z3_mk_and)(c, 2, x.as_ptr()) }
                Op::Or => { let x = [self.boolean(ar, n.a), self.boolean(ar, n.b)]; (api.Z3_mk_or)(c, 2, x.as_ptr()) }
                Op::Xor => { let (a, b) = (self.boolean(ar, n.a), self.boolean(ar, n.b)); (api.Z3_mk_xor)(c, a, b) }
                Op::Ite => { let (a, b, d) = (self.boolean(ar, n.a), self.boolean(ar, n.b), self.boolean(ar, n.c)); (api.Z3_mk_ite)(c, a, b, d) }
                Op::Eq => {
                    if ar.w(n.a) == 1 {
                        let (a, b) = (self.boolean(ar, n.a), self.boolean(ar, n.b));
                        (api.Z3_mk_eq)(c, a, b)
                    } else {
                        let (a, b) = (self.bvt(ar, n.a), self.bvt(ar, n.b));
                        (api.Z3_mk_eq)(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.bvt(ar, n.a), self.bvt(ar, n.b));
                    match n.op {
                        Op::Ult => (api.Z3_mk_bvult)(c, a, b), Op::Ule => (api.Z3_mk_bvule)(c, a, b),
                        Op::Slt => (api.Z3_mk_bvslt)(c, a, b), _ => (api.Z3_mk_bvsle)(c, a, b),
                    }
                }
                Op::SAddO | Op::SSubO | Op::SMulO | Op::UAddO | Op::USubO | Op::UMulO => {
                    let (a, b) = (self.bvt(ar, n.a), self.bvt(ar, n.b));
                    let x = match n.op {
                        Op::SAddO => [(api.Z3_mk_bvadd_no_overflow)(c, a, b, true), (api.Z3_mk_bvadd_no_underflow)(c, a, b)],
                        Op::SSubO => [(api.Z3_mk_bvsub_no_overflow)(c, a, b), (api.Z3_mk_bvsub_no_underflow)(c, a, b, true)],
                        Op::SMulO => [(api.Z3_mk_bvmul_no_overflow)(c, a, b, true), (api.Z3_mk_bvmul_no_underflow)(c, a, b)],
                        Op::UAddO => [(api.Z3_mk_bvadd_no_overflow)(c, a, b, false), (api.Z3_mk_true)(c)],
                        Op::USubO => [(api.Z3_mk_bvsub_no_underflow)(c, a, b, false), (api.Z3_mk_true)(c)],
                        _ => [(api.Z3_mk_bvmul_no_overflow)(c, a, b, false), (api.Z3_mk_true)(c)],
                    };
                    let both = (api.Z3_mk_and)(c, 2, x.as_ptr());
                    (api.Z3_mk_not)(c, both)
                }
                Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => {
                    if self.abs {
                        // comparisons stay exact on the (abstract) bit patterns
                        let w = ar.w(n.a);
                        let (magm, inf) = (mask(w) >> 1, match w { 64 => 0x7ff0_0000_0000_0000u128, 32 => 0x7f80_0000, _ => 0x7c00 });
                        let (zero, infv, mm) = (self.num(0, w), self.num(inf, w), self.num(magm, w));
                        let a = self.bvt(ar, n.a);
                        let ma = (api.Z3_mk_bvand)(c, a, mm);
                        let na = (api.Z3_mk_bvult)(c, infv, ma);
                        if n.op == Op::FIsNan { na } else {
                            let b = self.bvt(ar, n.b);
                            let mb = (api.Z3_mk_bvand)(c, b, mm);
                            let nb = (api.Z3_mk_bvult)(c, infv, mb);
                            let nans = (api.Z3_mk_or)(c, 2, [na, nb].as_ptr());
                            let ok = (api.Z3_mk_not)(c, nans);
                            let mags = (api.Z3_mk_bvor)(c, ma, mb);
                            let zeros = (api.Z3_mk_eq)(c, mags, zero);
                            let same = (api.Z3_mk_eq)(c, a, b);
                            let eq = (api.Z3_mk_or)(c, 2, [zeros, same].as_ptr());
                            let sa = (api.Z3_mk_bvslt)(c, a, zero);
                            let sb = (api.Z3_mk_bvslt)(c, b, zero);
                            let (ab, ba) = ((api.Z3_mk_bvult)(c, a, b), (api.Z3_mk_bvult)(c, b, a));
                            let nsb = (api.Z3_mk_not)(c, sb);
                            let neg = (api.Z3_mk_or)(c, 2, [nsb, ba].as_ptr());
                            let pos = (api.Z3_mk_and)(c, 2, [nsb, ab].as_ptr());
                            let lt0 = (api.Z3_mk_ite)(c, sa, neg, pos);
                            let nz = (api.Z3_mk_not)(c, zeros);
                            let lt = (api.Z3_mk_and)(c, 2, [nz, lt0].as_ptr());
                            let r = match n.op {
                                Op::FEq => eq,
                                Op::FLt => lt,
                                _ => (api.Z3_mk_or)(c, 2, [eq, lt].as_ptr()),
                            };
                            (api.Z3_mk_and)(c, 2, [ok, r].as_ptr())
                        }
                    } else {
                        let a = self.fpt(ar, n.a);
                        if n.op == Op::FIsNan { (api.Z3_mk_fpa_is_nan)(c, a) } else {
                            let b = self.fpt(ar, n.b);
                            match n.op {
                                Op::FEq => (api.Z3_mk_fpa_eq)(c, a, b),
                                Op::FLt => (api.Z3_mk_fpa_lt)(c, a, b),
                                _ => (api.Z3_mk_fpa_leq)(c, a, b),
                            }
                        }
                    }
                }
                _ => {
                    let t = self.bvt(ar, e);
                    let one = self.num(1, 1);
                    (api.Z3_mk_eq)(c, t, one)
                }
            }
        };
        self.bl.insert(key, r);
        r
    }
    fn fsort(&mut self, w: u16) -> P {
        unsafe { if w == 32 { (self.api.Z3_mk_fpa_sort_single)(self.ctx) } else { (self.api.Z3_mk_fpa_sort_double)(self.ctx) } }
    }
    /// floating point sorted translation of a bit pattern (precise mode only)
    fn fpt(&mut self, ar: &Arena, e: E) -> P {
        let key = (e, false);
        if let Some(&p) = self.fp.get(&key) { return p; }
        let n = ar.n[e as usize];
        let c = self.ctx;
        let api = self.api.clone();
        let s = self.fsort(n.w);
        let r = unsafe {
            let rne = (api.Z3_mk_fpa_rne)(c);
            match n.op {
                Op::FAdd => { let (a, b) = (self.fpt(ar, n.a), self.fpt(ar, n.b)); (api.Z3_mk_fpa_add)(c, rne, a, b) }
                Op::FSub => { let (a, b) = (self.fpt(ar, n.a), self.fpt(ar, n.b)); (api.Z3_mk_fpa_sub)(c, rne, a, b) }
                Op::FMul => { let (a, b) = (self.fpt(ar, n.a), self.fpt(ar, n.b)); (api.Z3_mk_fpa_mul)(c, rne, a, b) }
                Op::FDiv => { let (a, b) = (self.fpt(ar, n.a), self.fpt(ar, n.b)); (api.Z3_mk_fpa_div)(c, rne, a, b) }
                Op::FSqrt => { let a = self.fpt(ar, n.a); (api.Z3_mk_fpa_sqrt)(c, rne, a) }
                Op::SiToF => { let a = self.bvt(ar, n.a); (api.Z3_mk_fpa_to_fp_signed)(c, rne, a, s) }
                Op::UiToF => { let a = self.bvt(ar, n.a); (api.Z3_mk_fpa_to_fp_unsigned)(c, rne, a, s) }
                Op::FExt | Op::FTrunc => { let a = self.fpt(ar, n.a); (api.Z3_mk_fpa_to_fp_float)(c, rne, a, s) }
                Op::Ite => {
                    let i = self.boolean(ar, n.a);
                    let (a, b) = (self.fpt(ar, n.b), self.fpt(ar, n.c));
                    (api.Z3_mk_ite)(c, i, a, b)
                }
                _ => { let a = self.bvt(ar, e); (api.Z3_mk_fpa_to_fp_bv)(c, a, s) }
            }
        };
        self.fp.insert(key, r);
        r
    }
    pub fn bvt(&mut self, ar: &Arena, e: E) -> P {
        let key = (e, self.abs && ar.taint[e as usize]);
        if let Some(&p) = self.bv.get(&key) { return p; }
        let n = ar.n[e as usize];
        let c = self.ctx;
        let api = self.api.clone();
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.v, n.w),
                Op::Var => {
                    let s = self.sort(n.w);
                    let name = CString::new(format!("v{}", n.v)).unwrap();
                    let sy = (api.Z3_mk_string_symbol)(c, name.as_ptr());
                    (api.Z3_mk_const)(c, sy, s)
                }
                Op::Not if n.w > 1 => { let a = self.bvt(ar, n.a); (api.Z3_mk_bvnot)(c, a) }
                Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv
                | Op::SRem | Op::Shl | Op::LShr | Op::AShr if n.w > 1 => {
                    let (a, b) = (self.bvt(ar, n.a), self.bvt(ar, n.b));
                    let f = match n.op {
                        Op::And => api.Z3_mk_bvand, Op::Or => api.Z3_mk_bvor, Op::Xor => api.Z3_mk_bvxor,
                        Op::Add => api.Z3_mk_bvadd, Op::Sub => api.Z3_mk_bvsub, Op::Mul => api.Z3_mk_bvmul,
                        Op::UDiv => api.Z3_mk_bvudiv, Op::URem => api.Z3_mk_bvurem, Op::SDiv => api.Z3_mk_bvsdiv,
                        Op::SRem => api.Z3_mk_bvsrem, Op::Shl => api.Z3_mk_bvshl, Op::LShr => api.Z3_mk_bvlshr,
                        _ => api.Z3_mk_bvashr,
                    };
                    f(c, a, b)
                }
                Op::Ite if n.w > 1 => {
                    let i = self.boolean(ar, n.a);
                    let (a, b) = (self.bvt(ar, n.b), self.bvt(ar, n.c));
                    (api.Z3_mk_ite)(c, i, a, b)
                }
                Op::Concat => { let (a, b) = (self.bvt(ar, n.a), self.bvt(ar, n.b)); (api.Z3_mk_concat)(c, a, b) }
                Op::Extract => { let a = self.bvt(ar, n.a); (api.Z3_mk_extract)(c, (n.v as u16 + n.w - 1) as c_uint, n.v as c_uint, a) }
                Op::ZExt => { let w = ar.w(n.a); let a = self.bvt(ar, n.a); (api.Z3_mk_zero_ext)(c, (n.w - w) as c_uint, a) }
                Op::SExt => { let w = ar.w(n.a); let a = self.bvt(ar, n.a); (api.Z3_mk_sign_ext)(c, (n.w - w) as c_uint, a) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::SiToF | Op::UiToF | Op::FExt | Op::FTrunc if !self.abs => {
                    let a = self.fpt(ar, e);
                    (api.Z3_mk_fpa_to_ieee_bv)(c, a)
                }
                Op::FToSiSat | Op::FToUiSat if !self.abs => {
                    // saturating conversion expressed through comparisons
                    let aw = ar.w(n.a);
                    let a = self.fpt(ar, n.a);
                    let fs = self.fsort(aw);
                    let rne = (api.Z3_mk_fpa_rne)(c);
                    let rtz = (api.Z3_mk_fpa_rtz)(c);
                    let signed = n.op == Op::FToSiSat;
                    let (lo, hi) = if signed { (1u128 << (n.w - 1), mask(n.w) >> 1) } else { (0, mask(n.w)) };
                    let (tl, th) = (self.num(lo, n.w), self.num(hi, n.w));
                    // hi bound as float: 2^k which is the first value out of range
                    let k = if signed { n.w - 1 } else { n.w };
                    let wide = self.num(1u128 << k.min(126), 128);
                    let fhi = (api.Z3_mk_fpa_to_fp_unsigned)(c, rne, wide, fs);
                    let flo = if signed { (api.Z3_mk_fpa_to_fp_signed)(c, rne, tl, fs) } else { let z = self.num(0, 8); (api.Z3_mk_fpa_to_fp_unsigned)(c, rne, z, fs) };
                    let nan = (api.Z3_mk_fpa_is_nan)(c, a);
                    let ge = (api.Z3_mk_fpa_leq)(c, fhi, a);
                    let le = (api.Z3_mk_fpa_leq)(c, a, flo);
                    let conv = if signed { (api.Z3_mk_fpa_to_sbv)(c, rtz, a, n.w as c_uint) } else { (api.Z3_mk_fpa_to_ubv)(c, rtz, a, n.w as c_uint) };
                    let x = (api.Z3_mk_ite)(c, le, tl, conv);
                    let y = (api.Z3_mk_ite)(c, ge, th, x);
                    let zero = self.num(0, n.w);
                    (api.Z3_mk_ite)(c, nan, zero, y)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::SiToF | Op::UiToF | Op::FExt
                | Op::FTrunc | Op::FToSiSat | Op::FToUiSat | Op::Uf => {
                    let d = self.uf(n.op as u32, n.v, n.w, ar.w(n.a), n.b != 0);
                    let x = [self.bvt(ar, n.a), if n.b != 0 { self.bvt(ar, n.b) } else { std::ptr::null_mut() }];
                    (api.Z3_mk_app)(c, d, if n.b != 0 { 2 } else { 1 }, x.as_ptr())
                }
                _ => {
                    // width-1 results of boolean operators
                    let b = self.boolean(ar, e);
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    (api.Z3_mk_ite)(c, b, one, zero)
                }
            }
        };
        self.bv.insert(key, r);
        r
    }
    fn set_timeout(&mut self, s: P, ms: u32) {
        unsafe {
            let p = (self.api.Z3_mk_params)(self.ctx);
            (self.api.Z3_params_inc_ref)(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            let sy = (self.api.Z3_mk_string_symbol)(self.ctx, k.as_ptr());
            (self.api.Z3_params_set_uint)(self.ctx, p, sy, ms);
            (self.api.Z3_solver_set_params)(self.ctx, s, p);
        }
    }
    fn model(&mut self, ar: &Arena, s: P, vars: &[u32]) -> Vec<u128> {
        let mut out = vec![];
        unsafe {
            let m = (self.api.Z3_solver_get_model)(self.ctx, s);
            (self.api.Z3_model_inc_ref)(self.ctx, m);
            for &v in vars {
                let t = self.bvt(ar, ar.all_vars[v as usize]);
                let mut r: P = std::ptr::null_mut();
                let ok = (self.api.Z3_model_eval)(self.ctx, m, t, true, &mut r);
                let mut val = 0u128;
                if ok {
                    let mut x = 0u64;
                    if (self.api.Z3_get_numeral_uint64)(self.ctx, r, &mut x) { val = x as u128; }
                    else {
                        let st = (self.api.Z3_get_numeral_string)(self.ctx, r);
                        if !st.is_null() { val = CStr::from_ptr(st).to_string_lossy().parse().unwrap_or(0); }
                    }
                }
                out.push(val);
            }
            (self.api.Z3_model_dec_ref)(self.ctx, m);
        }
        out
    }
    /// incremental check of the conjunction; `vars` are the variables wanted from the model
    pub fn check_inc(&mut self, ar: &Arena, cs: &[E], vars: &[u32], ms: u32) -> Res {
        unsafe {
            if self.cur_timeout != ms { let s = self.inc; self.set_timeout(s, ms); self.cur_timeout = ms; }
            let abs = self.abs;
            let mut k = 0;
            while k < self.stack.len() && k < cs.len() && self.stack[k] == (cs[k], abs && ar.taint[cs[k] as usize]) { k += 1; }
            if k < self.stack.len() {
                (self.api.Z3_solver_pop)(self.ctx, self.inc, (self.stack.len() - k) as c_uint);
                self.stack.truncate(k);
            }
            for &c in &cs[k..] {
                let t = self.boolean(ar, c);
                (self.api.Z3_solver_push)(self.ctx, self.inc);
                (self.api.Z3_solver_assert)(self.ctx, self.inc, t);
                self.stack.push((c, abs && ar.taint[c as usize]));
            }
            let s = self.inc;
            self.fin(ar, s, vars)
        }
    }
    unsafe fn fin(&mut self, ar: &Arena, s: P, vars: &[u32]) -> Res {
        if self.dump {
            let st = (self.api.Z3_solver_to_string)(self.ctx, s);
            eprintln!("--- query\n{}", CStr::from_ptr(st).to_string_lossy());
        }
        let r = (self.api.Z3_solver_check)(self.ctx, s);
        if (self.api.Z3_get_error_code)(self.ctx) != 0 { return Res::Unknown; }
        match r {
            -1 => Res::Unsat,
            1 => Res::Sat(self.model(ar, s, vars)),
            _ => Res::Unknown,
        }
    }
    pub fn smt2(&mut self, ar: &Arena, cs: &[E]) -> String {
        unsafe {
            let s = (self.api.Z3_mk_simple_solver)(self.ctx);
            (self.api.Z3_solver_inc_ref)(self.ctx, s);
            for &c in cs { let t = self.boolean(ar, c); (self.api.Z3_solver_assert)(self.ctx, s, t); }
            let st = CStr::from_ptr((self.api.Z3_solver_to_string)(self.ctx, s)).to_string_lossy().into_owned();
            (self.api.Z3_solver_dec_ref)(self.ctx, s);
            st
        }
    }
    /// fresh tactic-based solver with a longer budget
    pub fn check_fresh(&mut self, ar: &Arena, cs: &[E], vars: &[u32], ms: u32, fp: bool) -> Res {
        unsafe {
            let logic = CString::new(if self.abs { "QF_UFBV" } else if fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
            let sy = (self.api.Z3_mk_string_symbol)(self.ctx, logic.as_ptr());
            let s = (self.api.Z3_mk_solver_for_logic)(self.ctx, sy);
            (self.api.Z3_solver_inc_ref)(self.ctx, s);
            self.set_timeout(s, ms);
            for &c in cs { let t = self.boolean(ar, c); (self.api.Z3_solver_assert)(self.ctx, s, t); }
            let r = self.fin(ar, s, vars);
            (self.api.Z3_solver_dec_ref)(self.ctx, s);
            r
        }
    }
}
