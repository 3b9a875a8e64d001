//! Parser for textual LLVM IR (opaque pointers). Function bodies are parsed lazily.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Void, I(u16), Ptr, F32, F64,
    Arr(u64, Rc<T>), Vec(u64, Rc<T>), St(Rc<Vec<T>>, bool),
    Other,
}

impl T {
    pub fn size(&self) -> u64 {
        match self {
            T::Void | T::Other => 0,
            T::I(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => ((*w as u64) + 127) / 128 * 16 },
            T::Ptr | T::F64 => 8,
            T::F32 => 4,
            T::Arr(n, t) => n * t.size(),
            T::Vec(n, t) => if **t == T::I(1) { (n + 7) / 8 } else { n * t.size() },
            T::St(v, p) => {
                let mut o = 0;
                for t in v.iter() { if !p { o = up(o, t.align()); } o += t.size(); }
                if !p { up(o, self.align()) } else { o }
            }
        }
    }
    /// Bytes a load or store touches (the allocation size may be larger).
    pub fn store_size(&self) -> u64 { match self { T::I(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn align(&self) -> u64 {
        match self {
            T::I(w) => if *w > 64 { 16 } else { self.size() },
            T::Ptr | T::F64 => 8,
            T::F32 => 4,
            T::Arr(_, t) => t.align(),
            T::Vec(..) => self.size().next_power_of_two().max(1),
            T::St(v, p) => if *p { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            T::Arr(_, t) | T::Vec(_, t) => t.size() * i as u64,
            T::St(v, p) => {
                let mut o = 0;
                for (j, t) in v.iter().enumerate() {
                    if !p { o = up(o, t.align()); }
                    if j == i { return o; }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> T {
        match self {
            T::Arr(_, t) | T::Vec(_, t) => (**t).clone(),
            T::St(v, _) => v[i].clone(),
            _ => T::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self { T::Arr(n, _) | T::Vec(n, _) => *n as usize, T::St(v, _) => v.len(), _ => 0 }
    }
    /// bit width of a scalar
    pub fn bits(&self) -> u16 {
        match self { T::I(w) => *w, T::Ptr | T::F64 => 64, T::F32 => 32, _ => 0 }
    }
    pub fn is_agg(&self) -> bool { matches!(self, T::Arr(..) | T::Vec(..) | T::St(..)) }
}
pub fn up(x: u64, a: u64) -> u64 { if a <= 1 { x } else { (x + a - 1) / a * a } }

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Loc(&'a str), Glo(&'a str), Int(&'a str), Hex(&'a str), Flt(&'a str), Id(&'a str), Str(&'a str), CStr(&'a str),
    P(char), Md, Dots,
}

pub struct Lex<'a> { pub s: &'a [u8], pub i: usize, pub src: &'a str }

fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    pub fn new(src: &'a str) -> Self { Lex { s: src.as_bytes(), i: 0, src } }
    pub fn all(src: &'a str) -> Vec<Tok<'a>> {
        let mut l = Lex::new(src);
        let mut v = vec![];
        while let Some(t) = l.next() { v.push(t); }
        v
    }
    fn name(&mut self) -> &'a str {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = &self.src[st..self.i];
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1; }
            &self.src[st..self.i]
        }
    }
    pub fn next(&mut self) -> Option<Tok<'a>> {
        loop {
            if self.i >= self.s.len() { return None; }
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.i += 1; continue; }
            if c == b'/' && self.s.get(self.i + 1) == Some(&b'*') {
                while self.i < self.s.len() && !self.src[self.i..].starts_with("*/") { self.i += 1; }
                self.i += 2;
                continue;
            }
            if c == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } continue; }
            break;
        }
        let c = self.s[self.i];
        match c {
            b'%' => { self.i += 1; Some(Tok::Loc(self.name())) }
            b'@' => { self.i += 1; Some(Tok::Glo(self.name())) }
            b'!' => {
                self.i += 1;
                self.name();
                Some(Tok::Md)
            }
            b'#' => { self.i += 1; self.name(); self.next() }
            b'"' => { let n = self.name(); Some(Tok::Str(n)) }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Some(Tok::CStr(self.name()))
            }
            b'+' | b'-' if self.i + 1 < self.s.len() && self.s[self.i + 1].is_ascii_alphabetic() => {
                // +inf, -inf, +qnan, +nan(0x..), +snan(0x..)
                let st = self.i;
                self.i += 1;
                self.name();
                if self.i < self.s.len() && self.s[self.i] == b'(' { while self.s[self.i] != b')' { self.i += 1; } self.i += 1; }
                Some(Tok::Flt(&self.src[st..self.i]))
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.'
                    || ((self.s[self.i] == b'+' || self.s[self.i] == b'-') && (self.s[self.i - 1] == b'e'))) { self.i += 1; }
                let t = &self.src[st..self.i];
                if t.starts_with("0x") { Some(Tok::Hex(t)) }
                else if t.contains('.') || t.contains('e') { Some(Tok::Flt(t)) }
                else { Some(Tok::Int(t)) }
            }
            b'.' if self.src[self.i..].starts_with("...") => { self.i += 3; Some(Tok::Dots) }
            _ if idc(c) => { let n = self.name(); Some(Tok::Id(n)) }
            _ => { self.i += 1; Some(Tok::P(c as char)) }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(u128),
    Agg(Rc<Vec<Opd>>),
    Zero,      // zeroinitializer of any type
    Undef,
    Glo(Rc<str>),
    /// constant expression: pointer + offset etc.
    Ce(Rc<Ce>),
}
#[derive(Clone, Debug)]
pub enum Ce {
    Off(Opd, i64),               // base + byte offset
    Cast(Opd, u16),              // int<->ptr, truncation to width
    Bin(&'static str, Opd, Opd, u16),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pr { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cs { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc }

#[derive(Debug)]
pub enum Ins {
    Bin(B, T, u32, Opd, Opd),
    Icmp(Pr, T, u32, Opd, Opd),
    Fcmp(Rc<str>, T, u32, Opd, Opd),
    Fneg(T, u32, Opd),
    Cast(Cs, T, T, u32, Opd),
    Load(T, u32, Opd),
    Store(T, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u16, u64)>),
    Alloca(u32, u64, Option<(Opd, u64)>),
    Call(Option<u32>, T, Opd, Vec<(Opd, T)>, Option<usize>), // last: normal destination of an invoke
    Br(usize),
    CBr(Opd, usize, usize),
    Switch(Opd, u16, usize, Vec<(u128, usize)>),
    Ret(Option<Opd>, T),
    Select(T, bool, u32, Opd, Opd, Opd),
    ExtractValue(T, u32, Opd, Vec<usize>),
    InsertValue(T, T, u32, Opd, Opd, Vec<usize>),
    ExtractElem(T, u32, Opd, Opd),
    InsertElem(T, u32, Opd, Opd, Opd),
    Shuffle(T, u32, Opd, Opd, Vec<u32>),
    Rmw(Rc<str>, T, u32, Opd, Opd),
    CmpXchg(T, u32, Opd, Opd, Opd),
    Freeze(T, u32, Opd),
    Nop,
    Unreachable,
    Unsup(String),
}

#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, T, Vec<(usize, Opd)>)>, pub ins: Vec<Ins>, pub name: String }
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(u32, T)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Module {
    pub src: String,
    pub funcs: HashMap<String, (usize, usize)>,  // define line start .. end of body
    pub pretty: HashMap<String, String>,
    pub decls: std::collections::HashSet<String>,
    pub globals: HashMap<String, (usize, usize)>,
    pub types: HashMap<String, (usize, usize)>,
}

fn global_name(line: &str) -> Option<(String, usize)> {
    // line starts with '@'
    let b = line.as_bytes();
    if b.len() > 1 && b[1] == b'"' {
        let e = line[2..].find('"')? + 2;
        Some((line[2..e].to_string(), e + 1))
    } else {
        let mut i = 1;
        while i < b.len() && idc(b[i]) { i += 1; }
        Some((line[1..i].to_string(), i))
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let mut m = Module { src: String::new(), funcs: HashMap::new(), pretty: HashMap::new(), decls: Default::default(), globals: HashMap::new(), types: HashMap::new() };
        let mut pos = 0;
        let mut in_fn: Option<(String, usize)> = None;
        let mut last_comment: Option<&str> = None;
        for line in src.split_inclusive('\n') {
            let start = pos;
            pos += line.len();
            if let Some((name, st)) = &in_fn {
                if line.starts_with('}') {
                    m.funcs.insert(name.clone(), (*st, start));
                    in_fn = None;
                }
                continue;
            }
            if line.starts_with("; ") {
                if !line.starts_with("; Function Attrs") { last_comment = Some(line[2..].trim()); }
                continue;
            }
            if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let (name, _) = global_name(&line[at..]).unwrap();
                if let Some(c) = last_comment.take() { m.pretty.insert(name.clone(), c.to_string()); }
                in_fn = Some((name, start));
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let (name, _) = global_name(&line[at..]).unwrap();
                m.decls.insert(name);
            } else if line.starts_with('@') {
                let (name, _) = global_name(line).unwrap();
                m.globals.insert(name, (start, pos));
            } else if line.starts_with('%') && line.contains(" = type ") {
                let l = Lex::all(line);
                if let Tok::Loc(n) = &l[0] { m.types.insert(n.to_string(), (start, pos)); }
            }
            if !line.trim().is_empty() { last_comment = None; }
        }
        m.src = src;
        m
    }
}

pub struct Par<'a> {
    pub m: &'a Module,
    pub t: Vec<Tok<'a>>,
    pub i: usize,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, usize>,
}

type R<X> = Result<X, String>;

impl<'a> Par<'a> {
    pub fn new(m: &'a Module) -> Par<'a> {
        Par { m, t: vec![], i: 0, regs: HashMap::new(), blocks: HashMap::new() }
    }
    fn peek(&self) -> Option<&Tok<'a>> { self.t.get(self.i) }
    fn is_p(&self, c: char) -> bool { self.t.get(self.i) == Some(&Tok::P(c)) }
    fn is_id(&self, s: &str) -> bool { matches!(self.t.get(self.i), Some(Tok::Id(x)) if *x == s) }
    fn eat_p(&mut self, c: char) -> R<()> {
        if self.is_p(c) { self.i += 1; Ok(()) } else { Err(format!("expected {} got {:?} at {}", c, self.peek(), self.i)) }
    }
    fn eat_id(&mut self, s: &str) -> bool { if self.is_id(s) { self.i += 1; true } else { false } }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.t.len() {
            if self.is_p('(') { d += 1; }
            if self.is_p(')') { d -= 1; if d == 0 { self.i += 1; return; } }
            self.i += 1;
        }
    }
    pub fn ty(&mut self) -> R<T> {
        let t = self.peek().cloned().ok_or("eof in type")?;
        self.i += 1;
        let r = match t {
            Tok::Id(s) => match s {
                "void" => T::Void, "ptr" => T::Ptr, "float" => T::F32, "double" => T::F64,
                "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "half" | "bfloat" => T::Other,
                _ if s.starts_with('i') && s[1..].parse::<u16>().is_ok() => T::I(s[1..].parse().unwrap()),
                _ => return Err(format!("type {}", s)),
            },
            Tok::P('[') => {
                let n = self.int()?;
                if !self.eat_id("x") { return Err("arr x".into()); }
                let e = self.ty()?;
                self.eat_p(']')?;
                T::Arr(n as u64, Rc::new(e))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let v = self.tylist('}')?;
                    self.eat_p('>')?;
                    T::St(Rc::new(v), true)
                } else {
                    let n = self.int()?;
                    if !self.eat_id("x") { return Err("vec x".into()); }
                    let e = self.ty()?;
                    self.eat_p('>')?;
                    T::Vec(n as u64, Rc::new(e))
                }
            }
            Tok::P('{') => { let v = self.tylist('}')?; T::St(Rc::new(v), false) }
            Tok::Loc(n) => {
                let &(a, b) = self.m.types.get(n).ok_or(format!("named type {}", n))?;
                let mut p = Par::new(self.m);
                p.t = Lex::all(&self.m.src[a..b]);
                p.i = 3;
                p.ty()?
            }
            _ => return Err(format!("type token {:?}", t)),
        };
        if self.eat_id("addrspace") { self.skip_balanced(); }
        Ok(r)
    }
    fn tylist(&mut self, end: char) -> R<Vec<T>> {
        let mut v = vec![];
        while !self.is_p(end) {
            v.push(self.ty()?);
            if self.is_p(',') { self.i += 1; }
        }
        self.i += 1;
        Ok(v)
    }
    fn int(&mut self) -> R<i128> {
        match self.peek() {
            Some(Tok::Int(s)) => { let r = s.parse::<i128>().map_err(|e| format!("{}", e)); self.i += 1; r }
            x => Err(format!("int expected {:?}", x)),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> usize {
        if let Some(&r) = self.blocks.get(n) { return r; }
        let r = self.blocks.len();
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    if is_value_kw(s) || s.starts_with("f0x") { return; }
                    let al = *s == "align";
                    self.i += 1;
                    if self.is_p('(') { self.skip_balanced(); }
                    else if al { self.i += 1; }
                }
                Some(Tok::Str(_)) => { self.i += 1; if self.is_p('=') { self.i += 2; } }
                _ => return,
            }
        }
    }
    /// skip return attributes/calling convention up to a type
    fn skip_to_type(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    if is_type_kw(s) { return; }
                    let al = *s == "align" || *s == "cc";
                    self.i += 1;
                    if self.is_p('(') { self.skip_balanced(); }
                    else if al { self.i += 1; }
                }
                _ => return,
            }
        }
    }
    /// value of known type
    pub fn val(&mut self, ty: &T) -> R<Opd> {
        let t = self.peek().cloned().ok_or("eof in value")?;
        self.i += 1;
        Ok(match t {
            Tok::Loc(n) => Opd::Reg(self.reg(n)),
            Tok::Glo(n) => Opd::Glo(n.into()),
            Tok::Int(s) => {
                let v: u128 = if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg() } else { s.parse::<u128>().map_err(|e| format!("{} {}", s, e))? };
                let w = ty.bits();
                if w > 128 && s.starts_with('-') { return Err("negative wide integer".into()); }
                Opd::C(if w == 0 { v } else { v & crate::expr::mask(w) })
            }
            Tok::Hex(s) => {
                let v = u64::from_str_radix(&s[2..], 16).map_err(|e| format!("{} {}", s, e))?;
                match ty { T::F32 => Opd::C((f64::from_bits(v) as f32).to_bits() as u128), _ => Opd::C(v as u128) }
            }
            Tok::Flt(s) if s.ends_with("inf") || s.contains("nan") => {
                let neg = s.starts_with('-');
                let (mb, w) = match ty { T::F32 => (23, 32), _ => (52, 64) };
                let ex: u128 = if w == 32 { 0xff } else { 0x7ff };
                let pay = match s.split_once("(0x") { Some((_, r)) => u128::from_str_radix(r.trim_end_matches(')'), 16).map_err(|e| format!("{} {}", s, e))?, None => 0 };
                let quiet = s.contains("nan") && !s.contains("snan");
                Opd::C((ex << mb) | pay | if quiet { 1u128 << (mb - 1) } else { 0 } | if neg { 1u128 << (w - 1) } else { 0 })
            }
            Tok::Id(s) if s.starts_with("f0x") => Opd::C(u128::from_str_radix(&s[3..], 16).map_err(|e| format!("{} {}", s, e))?),
            Tok::Flt(s) => {
                let v: f64 = s.parse().map_err(|_| format!("float {}", s))?;
                match ty { T::F32 => Opd::C((v as f32).to_bits() as u128), _ => Opd::C(v.to_bits() as u128) }
            }
            Tok::CStr(s) => Opd::Agg(Rc::new(cbytes(s).into_iter().map(|b| Opd::C(b as u128)).collect())),
            Tok::P('[') | Tok::P('{') | Tok::P('<') => {
                let mut end = match t { Tok::P('[') => ']', Tok::P('{') => '}', _ => '>' };
                let mut packed = false;
                if end == '>' && self.is_p('{') { self.i += 1; end = '}'; packed = true; }
                let mut v = vec![];
                while !self.is_p(end) {
                    let et = self.ty()?;
                    v.push(self.val(&et)?);
                    if self.is_p(',') { self.i += 1; }
                }
                self.i += 1;
                if packed { self.eat_p('>')?; }
                Opd::Agg(Rc::new(v))
            }
            Tok::Id(s) => match s {
                "true" => Opd::C(1), "false" => Opd::C(0), "null" => Opd::C(0),
                "undef" | "poison" => Opd::Undef,
                "zeroinitializer" | "none" => Opd::Zero,
                "splat" => {
                    self.eat_p('(')?;
                    let et = self.ty()?;
                    let v = self.val(&et)?;
                    self.eat_p(')')?;
                    Opd::Agg(Rc::new(vec![v; ty.count()]))
                }
                "getelementptr" => {
                    while !self.is_p('(') { if self.is_id("inrange") { self.i += 1; self.skip_balanced(); } else { self.i += 1; } }
                    self.i += 1;
                    let et = self.ty()?;
                    self.eat_p(',')?;
                    let pt = self.ty()?;
                    let base = self.val(&pt)?;
                    let mut off: i64 = 0;
                    let mut cur = et;
                    let mut first = true;
                    while self.is_p(',') {
                        self.i += 1;
                        let it = self.ty()?;
                        let iv = self.val(&it)?;
                        let k = match iv { Opd::C(k) => crate::expr::sext(k, it.bits()) as i64, Opd::Zero => 0, _ => return Err("ce gep index".into()) };
                        if first { off += k * cur.size() as i64; first = false; }
                        else { off += cur.field_off(k as usize) as i64; cur = cur.elem(k as usize); }
                    }
                    self.eat_p(')')?;
                    Opd::Ce(Rc::new(Ce::Off(base, off)))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    self.eat_p('(')?;
                    let ft = self.ty()?;
                    let v = self.val(&ft)?;
                    if !self.eat_id("to") { return Err("ce cast".into()); }
                    let tt = self.ty()?;
                    self.eat_p(')')?;
                    Opd::Ce(Rc::new(Ce::Cast(v, tt.bits())))
                }
                "add" | "sub" | "xor" | "and" | "or" => {
                    while !self.is_p('(') { self.i += 1; }
                    self.i += 1;
                    let at = self.ty()?;
                    let a = self.val(&at)?;
                    self.eat_p(',')?;
                    let bt = self.ty()?;
                    let b = self.val(&bt)?;
                    self.eat_p(')')?;
                    let op = match s { "add" => "add", "sub" => "sub", "xor" => "xor", "and" => "and", _ => "or" };
                    Opd::Ce(Rc::new(Ce::Bin(op, a, b, at.bits())))
                }
                _ => return Err(format!("value {}", s)),
            },
            _ => return Err(format!("value token {:?}", t)),
        })
    }
    fn tyval(&mut self) -> R<(T, Opd)> {
        let t = self.ty()?;
        self.skip_attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<usize> {
        if !self.eat_id("label") { return Err("label".into()); }
        match self.peek().cloned() { Some(Tok::Loc(n)) => { self.i += 1; Ok(self.block(n)) } x => Err(format!("label {:?}", x)) }
    }

    pub fn func(m: &'a Module, name: &str) -> R<Func> {
        let &(st, en) = m.funcs.get(name).ok_or(format!("no function {}", name))?;
        let text = &m.src[st..en];
        let nl = text.find('\n').unwrap();
        let head = &text[..nl];
        let mut p = Par::new(m);
        // parameters
        p.t = Lex::all(head);
        while !matches!(p.peek(), Some(Tok::Glo(_))) { p.i += 1; if p.i >= p.t.len() { return Err("no name".into()); } }
        p.i += 1;
        p.eat_p('(')?;
        let mut params = vec![];
        let mut anon = 0;
        while !p.is_p(')') {
            if p.peek() == Some(&Tok::Dots) { p.i += 1; continue; }
            let t = p.ty()?;
            p.skip_attrs();
            let n = match p.peek().cloned() { Some(Tok::Loc(n)) => { p.i += 1; if n.bytes().all(|c| c.is_ascii_digit()) { anon += 1; } n.to_string() } _ => { anon += 1; (anon - 1).to_string() } };
            let r = p.reg(&n);
            params.push((r, t));
            if p.is_p(',') { p.i += 1; }
        }
        // split body into instructions
        let mut blocks: Vec<Block> = vec![];
        let mut order: Vec<usize> = vec![];
        let mut cur: Option<Block> = None;
        let mut cur_id = 0;
        let mut lines = text[nl + 1..].lines().peekable();
        let mut unnamed_entry = true;
        while let Some(line) = lines.next() {
            if line.trim().is_empty() || line.starts_with(';') { continue; }
            if !line.starts_with(' ') {
                // label
                let lab = if line.starts_with('"') { let e = line[1..].find('"').unwrap() + 1; &line[1..e] }
                    else { let e = line.find(':').ok_or("label?")?; &line[..e] };
                if let Some(b) = cur.take() { blocks.push(b); order.push(cur_id); }
                cur_id = p.block(lab);
                cur = Some(Block { phis: vec![], ins: vec![], name: lab.to_string() });
                unnamed_entry = false;
                continue;
            }
            if cur.is_none() && unnamed_entry {
                let nm = anon.to_string();
                cur_id = p.block(&nm);
                cur = Some(Block { phis: vec![], ins: vec![], name: nm });
                unnamed_entry = false;
            }
            let mut text = String::from(line);
            let tl = line.trim_start();
            if tl.starts_with("switch ") && !line.contains(']') {
                for l in lines.by_ref() { text.push(' '); text.push_str(l); if l.trim_start().starts_with(']') { break; } }
            } else {
                while let Some(n) = lines.peek() {
                    let nt = n.trim_start();
                    if n.starts_with("          ") && (nt.starts_with("to label") || nt.starts_with("cleanup") || nt.starts_with("catch ") || nt.starts_with("filter ")) {
                        text.push(' ');
                        text.push_str(nt);
                        lines.next();
                    } else { break; }
                }
            }
            let b = cur.as_mut().unwrap();
            let mut q = Par { m, t: Lex::all(unsafe { std::mem::transmute::<&str, &'a str>(text.as_str()) }), i: 0, regs: std::mem::take(&mut p.regs), blocks: std::mem::take(&mut p.blocks) };
            let r = q.ins(b);
            p.regs = std::mem::take(&mut q.regs);
            p.blocks = std::mem::take(&mut q.blocks);
            drop(q);
            match r { Ok(()) => {}, Err(e) => b.ins.push(Ins::Unsup(format!("{}: {}", e, text.trim()))) }
        }
        if let Some(b) = cur.take() { blocks.push(b); order.push(cur_id); }
        // entry block must be index 0 of `sorted`; ids assigned by first mention
        let n = p.blocks.len();
        let mut sorted: Vec<Option<Block>> = (0..n).map(|_| None).collect();
        let entry = order[0];
        for (b, id) in blocks.into_iter().zip(order.iter()) { sorted[*id] = Some(b); }
        let mut blocks: Vec<Block> = sorted.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![Ins::Unsup("missing block".into())], name: String::new() })).collect();
        if entry != 0 {
            // swap ids: keep simple by adding an indirection block at 0 when needed
            let moved = blocks.len();
            let remap = |x: usize| if x == 0 { moved } else if x == entry { 0 } else { x };
            let b0 = std::mem::replace(&mut blocks[0], Block { phis: vec![], ins: vec![], name: String::new() });
            let be = std::mem::replace(&mut blocks[entry], Block { phis: vec![], ins: vec![Ins::Unreachable], name: String::new() });
            blocks[0] = be;
            blocks.push(b0);
            for b in blocks.iter_mut() {
                for ph in b.phis.iter_mut() { for x in ph.2.iter_mut() { x.0 = remap(x.0); } }
                for i in b.ins.iter_mut() {
                    match i {
                        Ins::Br(a) => *a = remap(*a),
                        Ins::CBr(_, a, c) => { *a = remap(*a); *c = remap(*c); }
                        Ins::Switch(_, _, d, v) => { *d = remap(*d); for x in v.iter_mut() { x.1 = remap(x.1); } }
                        Ins::Call(_, _, _, _, Some(n)) => *n = remap(*n),
                        _ => {}
                    }
                }
            }
        }
        Ok(Func { name: name.into(), params, nregs: p.regs.len() as u32, blocks })
    }

    fn ins(&mut self, b: &mut Block) -> R<()> {
        let mut d: Option<u32> = None;
        if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (self.t.get(0).cloned(), self.t.get(1)) {
            d = Some(self.reg(n));
            self.i = 2;
        }
        let op = match self.peek().cloned() { Some(Tok::Id(s)) => s, x => return Err(format!("op {:?}", x)) };
        self.i += 1;
        let dd = d.unwrap_or(0);
        macro_rules! skip_flags { ($($f:literal),*) => { loop { match self.peek() { Some(Tok::Id(s)) if [$($f),*].contains(s) => { self.i += 1; } _ => break } } } }
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr"
            | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip_flags!("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
                let t = self.ty()?;
                let x = self.val(&t)?;
                self.eat_p(',')?;
                let y = self.val(&t)?;
                let k = match op {
                    "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem,
                    "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr,
                    "fadd" => B::FAdd, "fsub" => B::FSub, "fmul" => B::FMul, "fdiv" => B::FDiv, _ => B::FRem,
                };
                Ins::Bin(k, t, dd, x, y)
            }
            "icmp" => {
                skip_flags!("samesign");
                let p = match self.peek().cloned() { Some(Tok::Id(s)) => s, _ => return Err("pred".into()) };
                self.i += 1;
                let t = self.ty()?;
                let x = self.val(&t)?;
                self.eat_p(',')?;
                let y = self.val(&t)?;
                let k = match p { "eq" => Pr::Eq, "ne" => Pr::Ne, "ult" => Pr::Ult, "ule" => Pr::Ule, "ugt" => Pr::Ugt, "uge" => Pr::Uge,
                    "slt" => Pr::Slt, "sle" => Pr::Sle, "sgt" => Pr::Sgt, "sge" => Pr::Sge, _ => return Err("pred".into()) };
                Ins::Icmp(k, t, dd, x, y)
            }
            "fcmp" => {
                skip_flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
                let p = match self.peek().cloned() { Some(Tok::Id(s)) => s, _ => return Err("pred".into()) };
                self.i += 1;
                let t = self.ty()?;
                let x = self.val(&t)?;
                self.eat_p(',')?;
                let y = self.val(&t)?;
                Ins::Fcmp(p.into(), t, dd, x, y)
            }
            "fneg" => {
                skip_flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
                let (t, v) = self.tyval()?;
                Ins::Fneg(t, dd, v)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                skip_flags!("nuw", "nsw", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
                let (f, v) = self.tyval()?;
                if !self.eat_id("to") { return Err("to".into()); }
                let t = self.ty()?;
                let k = match op { "trunc" => Cs::Trunc, "zext" => Cs::ZExt, "sext" => Cs::SExt, "ptrtoint" | "ptrtoaddr" => Cs::PtrToInt, "inttoptr" => Cs::IntToPtr,
                    "bitcast" => Cs::Bitcast, "sitofp" => Cs::SiToFp, "uitofp" => Cs::UiToFp, "fptosi" => Cs::FpToSi, "fptoui" => Cs::FpToUi,
                    "fpext" => Cs::FpExt, _ => Cs::FpTrunc };
                Ins::Cast(k, f, t, dd, v)
            }
            "load" => {
                skip_flags!("atomic", "volatile");
                let t = self.ty()?;
                self.eat_p(',')?;
                let (_, p) = self.tyval()?;
                Ins::Load(t, dd, p)
            }
            "store" => {
                skip_flags!("atomic", "volatile");
                let (t, v) = self.tyval()?;
                self.eat_p(',')?;
                let (_, p) = self.tyval()?;
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                loop {
                    if self.is_id("inrange") { self.i += 1; self.skip_balanced(); continue; }
                    match self.peek() { Some(Tok::Id(s)) if ["inbounds", "nuw", "nusw"].contains(s) => self.i += 1, _ => break }
                }
                let et = self.ty()?;
                self.eat_p(',')?;
                let (pt, base) = self.tyval()?;
                if pt != T::Ptr { return Err("vector gep".into()); }
                let mut off: i64 = 0;
                let mut terms = vec![];
                let mut cur = et;
                let mut first = true;
                while self.is_p(',') {
                    if matches!(self.t.get(self.i + 1), Some(Tok::Md)) { break; }
                    self.i += 1;
                    let it = self.ty()?;
                    let iv = self.val(&it)?;
                    let scale = if first { cur.size() } else { match &cur { T::St(..) => 0, T::Arr(_, e) | T::Vec(_, e) => e.size(), _ => return Err("gep".into()) } };
                    match iv {
                        Opd::C(k) => {
                            let k = crate::expr::sext(k, it.bits()) as i64;
                            if first { off += k * scale as i64; } else { off += cur.field_off(k as usize) as i64 * 1; if !matches!(cur, T::St(..)) { /* arrays handled by field_off */ } }
                            if !first { cur = cur.elem(if matches!(cur, T::St(..)) { k as usize } else { 0 }); }
                        }
                        _ => {
                            terms.push((iv, it.bits(), scale));
                            if !first { cur = cur.elem(0); }
                        }
                    }
                    first = false;
                }
                Ins::Gep(dd, base, off, terms)
            }
            "alloca" => {
                skip_flags!("inalloca");
                let t = self.ty()?;
                let mut cnt = None;
                if self.is_p(',') && !matches!(self.t.get(self.i + 1), Some(Tok::Id("align")) | Some(Tok::Md)) {
                    self.i += 1;
                    let (_, v) = self.tyval()?;
                    match v { Opd::C(1) => {}, v => cnt = Some((v, t.size())) }
                }
                Ins::Alloca(dd, t.size(), cnt)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { if !self.eat_id("call") { return Err("call".into()); } }
                self.skip_to_type();
                let rt = self.ty()?;
                if self.is_p('(') { self.skip_balanced(); }
                if self.is_id("asm") {
                    // empty asm used as an optimisation barrier
                    return Err("asm".into());
                }
                let callee = self.val(&T::Ptr)?;
                self.eat_p('(')?;
                let mut args = vec![];
                while !self.is_p(')') {
                    if self.is_id("metadata") {
                        // skip metadata argument
                        while !self.is_p(',') && !self.is_p(')') { self.i += 1; }
                    } else {
                        let (t, v) = self.tyval()?;
                        args.push((v, t));
                    }
                    if self.is_p(',') { self.i += 1; }
                }
                self.i += 1;
                let mut norm = None;
                if op == "invoke" {
                    while !self.is_id("to") { self.i += 1; if self.i >= self.t.len() { return Err("invoke".into()); } }
                    self.i += 1;
                    norm = Some(self.label()?);
                }
                if let Opd::Glo(n) = &callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg") || n.starts_with("llvm.donothing") || n.starts_with("llvm.invariant.end") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.sideeffect") {
                        if let Some(x) = norm { b.ins.push(Ins::Br(x)); } else { b.ins.push(Ins::Nop); }
                        return Ok(());
                    }
                }
                Ins::Call(if rt == T::Void { None } else { d }, rt, callee, args, norm)
            }
            "br" => {
                if self.is_id("label") { Ins::Br(self.label()?) } else {
                    let (_, c) = self.tyval()?;
                    self.eat_p(',')?;
                    let x = self.label()?;
                    self.eat_p(',')?;
                    let y = self.label()?;
                    Ins::CBr(c, x, y)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.eat_p(',')?;
                let def = self.label()?;
                self.eat_p('[')?;
                let mut cs = vec![];
                while !self.is_p(']') {
                    let ct = self.ty()?;
                    let c = match self.val(&ct)? { Opd::C(k) => k, _ => return Err("switch case".into()) };
                    self.eat_p(',')?;
                    cs.push((c, self.label()?));
                }
                Ins::Switch(v, t.bits(), def, cs)
            }
            "ret" => {
                let t = self.ty()?;
                if t == T::Void { Ins::Ret(None, t) } else { let v = self.val(&t)?; Ins::Ret(Some(v), t) }
            }
            "select" => {
                skip_flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
                let (ct, c) = self.tyval()?;
                self.eat_p(',')?;
                let (t, x) = self.tyval()?;
                self.eat_p(',')?;
                let (_, y) = self.tyval()?;
                Ins::Select(t, ct.is_agg(), dd, c, x, y)
            }
            "phi" => {
                skip_flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
                let t = self.ty()?;
                let mut v = vec![];
                while self.is_p('[') {
                    self.i += 1;
                    let x = self.val(&t)?;
                    self.eat_p(',')?;
                    let bl = match self.peek().cloned() { Some(Tok::Loc(n)) => { self.i += 1; self.block(n) } _ => return Err("phi".into()) };
                    self.eat_p(']')?;
                    v.push((bl, x));
                    if self.is_p(',') { self.i += 1; }
                }
                b.phis.push((dd, t, v));
                return Ok(());
            }
            "extractvalue" => {
                let (t, v) = self.tyval()?;
                let mut ix = vec![];
                while self.is_p(',') { if matches!(self.t.get(self.i + 1), Some(Tok::Md)) { break; } self.i += 1; ix.push(self.int()? as usize); }
                Ins::ExtractValue(t, dd, v, ix)
            }
            "insertvalue" => {
                let (t, v) = self.tyval()?;
                self.eat_p(',')?;
                let (et, x) = self.tyval()?;
                let mut ix = vec![];
                while self.is_p(',') { if matches!(self.t.get(self.i + 1), Some(Tok::Md)) { break; } self.i += 1; ix.push(self.int()? as usize); }
                Ins::InsertValue(t, et, dd, v, x, ix)
            }
            "extractelement" => {
                let (t, v) = self.tyval()?;
                self.eat_p(',')?;
                let (_, x) = self.tyval()?;
                Ins::ExtractElem(t, dd, v, x)
            }
            "insertelement" => {
                let (t, v) = self.tyval()?;
                self.eat_p(',')?;
                let (_, x) = self.tyval()?;
                self.eat_p(',')?;
                let (_, ix) = self.tyval()?;
                Ins::InsertElem(t, dd, v, x, ix)
            }
            "shufflevector" => {
                let (t, v) = self.tyval()?;
                self.eat_p(',')?;
                let (_, x) = self.tyval()?;
                self.eat_p(',')?;
                let mt = self.ty()?;
                let mv = self.val(&mt)?;
                let ix = match mv {
                    Opd::Agg(a) => a.iter().map(|o| match o { Opd::C(k) => *k as u32, _ => 0 }).collect(),
                    _ => vec![0; mt.count()],
                };
                Ins::Shuffle(t, dd, v, x, ix)
            }
            "atomicrmw" => {
                skip_flags!("volatile");
                let k = match self.peek().cloned() { Some(Tok::Id(s)) => s, _ => return Err("rmw".into()) };
                self.i += 1;
                let (_, p) = self.tyval()?;
                self.eat_p(',')?;
                let (t, v) = self.tyval()?;
                Ins::Rmw(k.into(), t, dd, p, v)
            }
            "cmpxchg" => {
                skip_flags!("weak", "volatile");
                let (_, p) = self.tyval()?;
                self.eat_p(',')?;
                let (t, x) = self.tyval()?;
                self.eat_p(',')?;
                let (_, y) = self.tyval()?;
                Ins::CmpXchg(t, dd, p, x, y)
            }
            "freeze" => { let (t, v) = self.tyval()?; Ins::Freeze(t, dd, v) }
            "fence" => Ins::Nop,
            "unreachable" => Ins::Unreachable,
            _ => return Err(format!("opcode {}", op)),
        };
        b.ins.push(i);
        Ok(())
    }
    /// (type, initialiser, is_constant) of a global
    pub fn global(m: &'a Module, name: &str) -> R<(T, Option<Opd>)> {
        let &(a, b) = m.globals.get(name).ok_or(format!("no global {}", name))?;
        let mut p = Par::new(m);
        p.t = Lex::all(&m.src[a..b]);
        p.i = 2;
        let mut external = false;
        loop {
            match p.peek().cloned() {
                Some(Tok::Id("global")) | Some(Tok::Id("constant")) => { p.i += 1; break; }
                Some(Tok::Id("alias")) => {
                    p.i += 1;
                    p.ty()?;
                    p.eat_p(',')?;
                    let (_, v) = p.tyval()?;
                    return Ok((T::Other, Some(v)));
                }
                Some(Tok::Id(s)) => {
                    if s == "external" || s == "extern_weak" { external = true; }
                    p.i += 1;
                    if p.is_p('(') { p.skip_balanced(); }
                }
                x => return Err(format!("global {:?}", x)),
            }
        }
        let t = p.ty()?;
        if external { return Ok((t, None)); }
        let v = p.val(&t)?;
        Ok((t, Some(v)))
    }
}

fn is_type_kw(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat")
        || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_value_kw(s: &str) -> bool {
    matches!(s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint"
        | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" | "add" | "sub" | "xor" | "and" | "or" | "asm" | "blockaddress")
}
fn cbytes(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; }
            else { v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; }
        } else { v.push(b[i]); i += 1; }
    }
    v
}
