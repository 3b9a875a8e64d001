//! Path-forking symbolic executor for the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { C(u128), S(E), A(Rc<Vec<V>>) }

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: Vec<(E, u8)> }

/// Set by the monitor thread when the process holds too much memory.
pub static MEM_HIGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

const BASE: u64 = 0x1000;
const GBIT: u64 = 1 << 29;
const FBIT: u64 = 1 << 28;
const MAX_ALLOC: u64 = 1 << 20;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>, pub block: usize, pub ip: usize, pub regs: Vec<V>, pub allocas: Vec<u32>,
    pub ret: Option<u32>, pub norm: Option<usize>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub freelist: Vec<u32>,
    pub gmod: BTreeMap<u32, Rc<Obj>>,
    pub pc: Vec<E>,
    pub eqs: Rc<HashMap<E, E>>,
    pub ver: u64,
    pub model: Rc<Vec<u128>>,
    pub inputs: Vec<(E, u16)>,
    pub allow_panic: Option<E>,
    pub fuel: u64,
    pub depth: u32,
    pub covers: BTreeSet<u64>,
}

#[derive(Debug, Clone)]
pub struct Violation { pub kind: String, pub id: u64, pub inputs: Vec<(u128, u16)>, pub detail: String }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub pruned: u64, pub instrs: u64, pub queries: u64, pub cached: u64, pub unsat: u64, pub sat: u64,
    pub asserts: u64, pub asserts_solver: u64, pub asserts_ring: u64, pub asserts_const: u64, pub solver_s: f64, pub max_q: f64, pub forks: u64, pub interval: u64,
}

pub struct Limits { pub fuel: u64, pub time: Duration, pub paths: u64, pub q_ms: u32, pub q2_ms: u32, pub max_viol: usize }

enum End { Done, Killed, Abort(String) }
/// result of one instruction
enum St { Next, Jumped, End(End) }

type Rs<X> = Result<X, End>;

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub z: Z,
    funcs: HashMap<String, Rc<Func>>,
    fidx: HashMap<String, u64>,
    fnames: Vec<String>,
    globals: Vec<Rc<Obj>>,
    gnames: HashMap<String, u64>,
    work: Vec<State>,
    pub st: Stats,
    pub entered: BTreeSet<String>,
    pub violations: Vec<Violation>,
    pub incomplete: Vec<String>,
    pub covers: BTreeSet<u64>,
    cache: HashMap<(Vec<E>, E), Option<Vec<(u32, u128)>>>,
    var_e: Vec<E>,
    recent: Vec<Rc<Vec<u128>>>,
    pub params: Vec<u64>,
    pub lim: Limits,
    start: Instant,
    ver: u64,
    memo_ver: u64,
    smemo: HashMap<E, E>,
    pub trace: bool,
    pub queries_dump: Vec<(Vec<E>, bool)>,
    pub loose: bool,
    dives: u32,
    open: HashMap<(String, u64), u32>,
    extra: Option<E>,
    open_n: usize,
    pub keep_queries: usize,
    pub samples: Vec<Vec<(u128, u16)>>,
    pub stuck: Vec<Vec<(u128, u16)>>,
    pub viol_ids: BTreeSet<(String, u64)>,
    pub hot: HashMap<String, u64>,
}

fn short(s: &str, n: usize) -> String { s.chars().take(n).collect() }

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, z: Z, params: Vec<u64>, lim: Limits) -> Exec<'m> {
        Exec {
            m, ar: Arena::new(), z, funcs: HashMap::new(), fidx: HashMap::new(), fnames: vec![], globals: vec![], gnames: HashMap::new(),
            work: vec![], st: Stats::default(), entered: BTreeSet::new(), violations: vec![], incomplete: vec![], covers: BTreeSet::new(),
            cache: HashMap::new(), var_e: vec![], recent: vec![], params, lim, start: Instant::now(), ver: 1, memo_ver: 0, smemo: HashMap::new(),
            trace: std::env::var("SYMIR_TRACE").is_ok(), queries_dump: vec![], loose: false, dives: 300_000, open: HashMap::new(), extra: None, open_n: 0, keep_queries: 0, samples: vec![], stuck: vec![], viol_ids: BTreeSet::new(), hot: HashMap::new(),
        }
    }

    // ------------------------------------------------------------------ values
    fn v(&mut self, e: E) -> V { match self.ar.is_c(e) { Some(k) => V::C(k), None => V::S(e) } }
    fn e(&mut self, v: &V, w: u16) -> E { match v { V::C(k) => self.ar.cst(*k, w), V::S(e) => *e, V::A(_) => panic!("aggregate as scalar") } }

    fn func(&mut self, name: &str) -> Rs<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) { return Ok(f.clone()); }
        let f = Par::func(self.m, name).map_err(|e| End::Abort(format!("parse {}: {}", name, e)))?;
        let f = Rc::new(f);
        self.funcs.insert(name.to_string(), f.clone());
        Ok(f)
    }
    fn faddr(&mut self, name: &str) -> u64 {
        let i = if let Some(&i) = self.fidx.get(name) { i } else {
            let i = self.fnames.len() as u64;
            self.fnames.push(name.to_string());
            self.fidx.insert(name.to_string(), i);
            i
        };
        (FBIT << 32) + BASE + i * 16
    }
    fn gaddr(&mut self, name: &str) -> Rs<u64> {
        if let Some(&a) = self.gnames.get(name) { return Ok(a); }
        if self.m.funcs.contains_key(name) || self.m.decls.contains(name) { return Ok(self.faddr(name)); }
        let (t, init) = Par::global(self.m, name).map_err(|e| End::Abort(format!("global {}: {}", name, e)))?;
        if t == T::Other {
            let o = init.unwrap();
            let v = self.cval(&o, &T::Ptr)?;
            if let V::C(k) = v { self.gnames.insert(name.to_string(), k as u64); return Ok(k as u64); }
            return Err(End::Abort("alias".into()));
        }
        let sz = t.size();
        let id = self.globals.len() as u64;
        let addr = ((GBIT | id) << 32) + BASE;
        self.gnames.insert(name.to_string(), addr);
        self.globals.push(Rc::new(Obj { size: sz, data: vec![0; sz as usize], sym: vec![] }));
        if let Some(o) = init {
            let mut data = vec![0u8; sz as usize];
            self.init(&mut data, 0, &t, &o)?;
            self.globals[id as usize] = Rc::new(Obj { size: sz, data, sym: vec![] });
        }
        Ok(addr)
    }
    fn init(&mut self, data: &mut Vec<u8>, off: u64, t: &T, o: &Opd) -> Rs<()> {
        match o {
            Opd::Zero | Opd::Undef => Ok(()),
            Opd::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let et = t.elem(i);
                    self.init(data, off + t.field_off(i), &et, x)?;
                }
                Ok(())
            }
            _ => {
                let v = self.cval(o, t)?;
                if let V::C(k) = v {
                    for i in 0..t.size() { data[(off + i) as usize] = (k >> (8 * i)) as u8; }
                    Ok(())
                } else { Err(End::Abort("global init".into())) }
            }
        }
    }
    fn zero(&self, t: &T) -> V {
        if t.is_agg() { V::A(Rc::new((0..t.count()).map(|i| self.zero(&t.elem(i))).collect())) } else { V::C(0) }
    }
    /// constant operand
    fn cval(&mut self, o: &Opd, t: &T) -> Rs<V> {
        Ok(match o {
            Opd::C(k) => V::C(*k),
            Opd::Zero | Opd::Undef => self.zero(t),
            Opd::Glo(n) => V::C(self.gaddr(n)? as u128),
            Opd::Agg(v) => {
                let mut r = vec![];
                for (i, x) in v.iter().enumerate() { let et = t.elem(i); r.push(self.cval(x, &et)?); }
                V::A(Rc::new(r))
            }
            Opd::Ce(c) => match &**c {
                Ce::Off(b, off) => match self.cval(b, &T::Ptr)? { V::C(k) => V::C((k as u64).wrapping_add(*off as u64) as u128), _ => return Err(End::Abort("ce".into())) },
                Ce::Cast(b, w) => match self.cval(b, &T::I(64))? { V::C(k) => V::C(k & mask(*w)), _ => return Err(End::Abort("ce".into())) },
                Ce::Bin(op, a, b, w) => match (self.cval(a, &T::I(*w))?, self.cval(b, &T::I(*w))?) {
                    (V::C(x), V::C(y)) => V::C(mask(*w) & match *op { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "xor" => x ^ y, "and" => x & y, _ => x | y }),
                    _ => return Err(End::Abort("ce".into())),
                },
            },
            Opd::Reg(_) => return Err(End::Abort("reg in const".into())),
        })
    }
    fn get(&mut self, s: &State, o: &Opd, t: &T) -> Rs<V> {
        match o {
            Opd::Reg(r) => Ok(s.frames.last().unwrap().regs[*r as usize].clone()),
            Opd::C(k) => Ok(V::C(*k)),
            Opd::Agg(v) if v.iter().any(|x| matches!(x, Opd::Reg(_))) => Err(End::Abort("reg in aggregate".into())),
            _ => self.cval(o, t),
        }
    }
    fn set(&mut self, s: &mut State, d: u32, v: V) {
        let f = Rc::make_mut(s.frames.last_mut().unwrap());
        f.regs[d as usize] = v;
    }

    // ------------------------------------------------------------------ solver
    fn simp(&mut self, s: &State, e: E) -> E {
        if s.eqs.is_empty() { return e; }
        if self.memo_ver != s.ver { self.smemo.clear(); self.memo_ver = s.ver; }
        let mut memo = std::mem::take(&mut self.smemo);
        let r = self.ar.subst(e, &s.eqs, &mut memo);
        self.smemo = memo;
        r
    }
    fn add_pc(&mut self, s: &mut State, c: E) {
        if self.ar.is_c(c).is_some() { return; }
        let n = self.ar.n[c as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_pc(s, n.a);
            self.add_pc(s, n.b);
            return;
        }
        if s.pc.contains(&c) { return; }
        s.pc.push(c);
        let t = self.ar.tru();
        let f = self.ar.fls();
        let eqs = Rc::make_mut(&mut s.eqs);
        match n.op {
            Op::Eq if self.ar.is_c(n.b).is_some() => { eqs.insert(n.a, n.b); eqs.insert(c, t); }
            Op::Eq if self.ar.n[n.a as usize].op == Op::Var && n.a > n.b => { eqs.insert(c, t); }
            Op::Not => { eqs.insert(n.a, f); }
            _ => {
                eqs.insert(c, t);
                let nn = self.ar.not(c);
                Rc::make_mut(&mut s.eqs).insert(nn, f);
            }
        }
        self.ver += 1;
        s.ver = self.ver;
    }
    /// Is pc ∧ cond satisfiable?  Some(model) / None; Err on unknown.
    fn sat(&mut self, s: &State, cond: E) -> Rs<Option<Rc<Vec<u128>>>> {
        if let Some(k) = self.ar.is_c(cond) {
            return Ok(if k != 0 { Some(s.model.clone()) } else { None });
        }
        // slice
        let mut want: BTreeSet<u32> = self.ar.vars(cond).iter().copied().collect();
        let vs: Vec<Rc<Vec<u32>>> = s.pc.iter().map(|&c| self.ar.vars(c)).collect();
        let mut used = vec![false; s.pc.len()];
        loop {
            let mut ch = false;
            for i in 0..used.len() {
                if !used[i] && vs[i].iter().any(|v| want.contains(v)) {
                    used[i] = true;
                    ch = true;
                    want.extend(vs[i].iter());
                }
            }
            if !ch { break; }
        }
        let mut cs: Vec<E> = vec![];
        for i in 0..used.len() { if used[i] { cs.push(s.pc[i]); } }
        let vars: Vec<u32> = want.into_iter().collect();
        let key = (cs.clone(), cond);
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            self.ar.bump_model();
            return Ok(r.as_ref().map(|m| { let mut nm = (*s.model).clone(); merge(&mut nm, m); Rc::new(nm) }));
        }
        if self.ar.excluded(&cs, cond) {
            self.st.interval += 1;
            self.cache.insert(key, None);
            return Ok(None);
        }
        // try recent models
        cs.push(cond);
        let mut found: Option<Vec<(u32, u128)>> = None;
        let rec = self.recent.clone();
        for m in rec.iter().rev().take(6) {
            if cs.iter().rev().all(|&c| self.ar.eval(c, m) != 0) {
                found = Some(vars.iter().map(|&v| (v, m.get(v as usize).copied().unwrap_or(0))).collect());
                self.st.cached += 1;
                break;
            }
        }
        let res: Option<Vec<(u32, u128)>> = if found.is_some() { found } else {
            let t0 = Instant::now();
            let r = self.solve(&cs, &vars);
            let dt = t0.elapsed().as_secs_f64();
            self.st.queries += 1;
            self.st.solver_s += dt;
            if dt > self.st.max_q { self.st.max_q = dt; }
            match r {
                Res::Unsat => {
                    self.st.unsat += 1;
                    if self.queries_dump.len() < self.keep_queries { self.queries_dump.push((cs.clone(), false)); }
                    None
                }
                Res::Sat(vals) => {
                    self.st.sat += 1;
                    if self.queries_dump.len() < self.keep_queries { self.queries_dump.push((cs.clone(), true)); }
                    Some(vars.iter().copied().zip(vals).collect())
                }
                Res::Unknown => {
                    let sh = self.ar.show(cond, 9);
                    if std::env::var("SYMIR_UNK").is_ok() { let t = self.z.smt2(&self.ar, &cs); let _ = std::fs::write("/tmp/unk.smt2", t); for &c in &cs { eprintln!("  {}", self.ar.show(c, 30)); } eprintln!("--"); }
                    return Err(End::Abort(format!("solver unknown after {:.1}s ({} constraints): {}", dt, cs.len(), short(&sh, 1200))));
                }
            }
        };
        let out = res.as_ref().map(|m| { let mut nm = (*s.model).clone(); merge(&mut nm, m); Rc::new(nm) });
        if let Some(m) = &out {
            self.ar.bump_model();
            self.recent.push(m.clone());
            if self.recent.len() > 64 { self.recent.drain(0..32); }
        }
        self.cache.insert(key, res);
        Ok(out)
    }
    fn solve(&mut self, cs: &[E], vars: &[u32]) -> Res {
        let taint = cs.iter().any(|&c| self.ar.taint[c as usize]);
        if taint {
            self.z.abs = true;
            let mut r = self.z.check_inc(&self.ar, cs, vars, self.lim.q_ms);
            if let Res::Unknown = r { r = self.z.check_fresh(&self.ar, cs, vars, self.lim.q2_ms, true); }
            self.z.abs = false;
            let mut approx = None;
            match r {
                Res::Unsat => return Res::Unsat,
                Res::Sat(vals) => {
                    let mut m = vec![0u128; self.ar.nvars as usize];
                    for (&v, &x) in vars.iter().zip(vals.iter()) { m[v as usize] = x; }
                    let m = Rc::new(m);
                    self.ar.bump_model();
                    let ok = cs.iter().all(|&c| self.ar.eval(c, &m) != 0);
                    self.ar.bump_model();
                    if ok { return Res::Sat(vals); }
                    approx = Some(vals);
                }
                Res::Unknown => {}
            }
            // a witness among simple values spares a search over IEEE bit patterns
            if let Some(v) = self.probe(cs, vars) { return Res::Sat(v); }
            // precise IEEE semantics
            if self.loose {
                // explored all the same: a superset of what can happen, whose violations are replayed
                return match approx { Some(v) => Res::Sat(v), None => Res::Unknown };
            }
            if cs.iter().any(|&c| self.opaque(c)) { return Res::Unknown; }
            let r = self.z.check_fresh(&self.ar, cs, vars, self.lim.q2_ms, true);
            if let Res::Sat(vals) = &r {
                let mut m = vec![0u128; self.ar.nvars as usize];
                for (&v, &x) in vars.iter().zip(vals.iter()) { m[v as usize] = x; }
                let m = Rc::new(m);
                self.ar.bump_model();
                let ok = cs.iter().all(|&c| self.ar.eval(c, &m) != 0);
                self.ar.bump_model();
                if !ok { return Res::Unknown; }
            }
            return r;
        }
        match self.z.check_inc(&self.ar, cs, vars, self.lim.q_ms) {
            Res::Unknown => self.z.check_fresh(&self.ar, cs, vars, self.lim.q2_ms, false),
            r => r,
        }
    }
    /// Looks for a satisfying assignment of the 32/64-bit variables among simple floating-point values;
    /// finding none says nothing.
    fn probe(&mut self, cs: &[E], vars: &[u32]) -> Option<Vec<u128>> {
        let ws: Vec<u16> = vars.iter().map(|&v| self.ar.var_width(v)).collect();
        let k = ws.iter().filter(|&&w| w >= 32).count();
        if k == 0 || k > 4 { return None; }
        const C: [f64; 12] = [1.0, -1.0, 0.0, 2.0, -2.0, 3.0, -3.0, 0.5, -0.5, 1e3, -7.0, 1e-3];
        let base = if k <= 3 { 12usize } else { 7 };
        let total = base.pow(k as u32);
        for t in 0..total {
            let mut m = vec![0u128; self.ar.nvars as usize];
            let mut r = t;
            let mut vals = vec![];
            for (&v, &w) in vars.iter().zip(ws.iter()) {
                let x = match w {
                    64 => { let c = C[r % base]; r /= base; c.to_bits() as u128 }
                    32 => { let c = C[r % base]; r /= base; (c as f32).to_bits() as u128 }
                    w if w > 32 => { r /= base; 0 }
                    _ => 0,
                };
                m[v as usize] = x;
                vals.push(x);
            }
            let m = Rc::new(m);
            self.ar.bump_model();
            let ok = cs.iter().all(|&c| self.ar.eval(c, &m) != 0);
            self.ar.bump_model();
            if ok { return Some(vals); }
        }
        None
    }
    fn opaque(&self, e: E) -> bool {
        let n = self.ar.n[e as usize];
        match n.op {
            Op::Const | Op::Var => false,
            Op::Uf | Op::FRem => true,
            _ => self.ar.taint[e as usize] && [n.a, n.b, n.c].iter().any(|&x| x != 0 && self.opaque(x)),
        }
    }
    /// Decide a branch condition: returns the side to follow, forking the other when feasible.
    /// The fork re-executes the current instruction with the constraint added.
    fn decide(&mut self, s: &mut State, cond: E) -> Rs<bool> {
        let c = self.simp(s, cond);
        if let Some(k) = self.ar.is_c(c) { return Ok(k != 0); }
        let model = s.model.clone();
        let mut side = self.ar.eval(c, &model) != 0;
        let nc = self.ar.not(c);
        if self.loose && self.ar.taint[c as usize] {
            // the model need not satisfy the float part of the path
            match self.sat(s, if side { c } else { nc })? {
                Some(m) => s.model = m,
                None => {
                    side = !side;
                    match self.sat(s, if side { c } else { nc })? { Some(m) => s.model = m, None => return Err(End::Killed) }
                }
            }
        }
        let (taken, other) = if side { (c, nc) } else { (nc, c) };
        if let Some(m) = self.sat(s, other)? {
            let mut o = s.clone();
            o.model = m;
            self.add_pc(&mut o, other);
            o.depth += 1;
            self.st.forks += 1;
            if self.trace || !self.hot.is_empty() {
                *self.hot.entry(s.frames.last().unwrap().f.name.to_string()).or_insert(0) += 1;
            }
            self.work.push(o);
        }
        self.add_pc(s, taken);
        Ok(side)
    }
    fn concretize(&mut self, s: &mut State, v: &V, w: u16) -> Rs<u128> {
        let e = match v { V::C(k) => return Ok(*k), V::S(e) => *e, V::A(_) => return Err(End::Abort("concretize aggregate".into())) };
        let e = self.simp(s, e);
        if let Some(k) = self.ar.is_c(e) { return Ok(k); }
        let model = s.model.clone();
        let k = self.ar.eval(e, &model);
        let kc = self.ar.cst(k, w);
        let c = self.ar.eq(e, kc);
        if !self.decide(s, c)? { return Err(End::Abort("concretize".into())); }
        Ok(k)
    }
    fn truth(&mut self, s: &mut State, v: &V) -> Rs<bool> {
        match v { V::C(k) => Ok(*k & 1 != 0), V::S(e) => self.decide(s, *e), _ => Err(End::Abort("agg cond".into())) }
    }

    // ------------------------------------------------------------------ memory
    fn alloc(&mut self, s: &mut State, size: u64, stack: bool) -> u64 {
        let o = Rc::new(Obj { size, data: vec![0; size as usize], sym: vec![] });
        let id = if stack { s.freelist.pop() } else { None };
        let id = match id { Some(i) => { s.mem[i as usize] = Some(o); i } None => { s.mem.push(Some(o)); (s.mem.len() - 1) as u32 } };
        ((id as u64 + 1) << 32) + BASE
    }
    fn obj<'a>(&'a self, s: &'a State, addr: u64) -> Option<(&'a Rc<Obj>, i64, u64)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as i64 - BASE as i64;
        if id & GBIT != 0 && id < 2 * GBIT {
            let g = (id & (GBIT - 1)) as u32;
            if let Some(o) = s.gmod.get(&g) { return Some((o, off, id)); }
            return self.globals.get(g as usize).map(|o| (o, off, id));
        }
        if id == 0 || id > s.mem.len() as u64 { return None; }
        s.mem[(id - 1) as usize].as_ref().map(|o| (o, off, id))
    }
    fn obj_mut<'a>(&'a self, s: &'a mut State, addr: u64) -> Option<(&'a mut Obj, i64)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as i64 - BASE as i64;
        if id & GBIT != 0 && id < 2 * GBIT {
            let g = (id & (GBIT - 1)) as u32;
            if !s.gmod.contains_key(&g) { let o = self.globals.get(g as usize)?.clone(); s.gmod.insert(g, o); }
            return Some((Rc::make_mut(s.gmod.get_mut(&g).unwrap()), off));
        }
        if id == 0 || id > s.mem.len() as u64 { return None; }
        s.mem[(id - 1) as usize].as_mut().map(|o| (Rc::make_mut(o), off))
    }
    fn ub(&mut self, s: &State, what: &str) -> End {
        let fr = s.frames.last().unwrap();
        let d = format!("{} in {} block {} ip {}", what, self.pretty(&fr.f.name), fr.f.blocks[fr.block].name, fr.ip);
        self.report(s, "ub", 0, s.model.clone(), d);
        End::Killed
    }
    fn read_obj(&mut self, o: &Obj, off: u64, n: u64, bits: u16) -> V {
        let off = off as usize;
        let n = n as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| x.0 == 0) {
            let mut k = 0u128;
            for i in (0..n).rev() { k = (k << 8) | o.data[off + i] as u128; }
            return V::C(k & mask(bits));
        }
        let (e0, i0) = o.sym[off];
        if e0 != 0 && i0 == 0 && self.ar.w(e0) as usize == 8 * n && (1..n).all(|i| o.sym[off + i] == (e0, i as u8)) {
            let e = self.ar.extract(e0, 0, bits);
            return self.v(e);
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let (e, ix) = o.sym[off + i];
            let b = if e == 0 { self.ar.cst(o.data[off + i] as u128, 8) } else { self.ar.extract(e, ix as u16 * 8, 8) };
            acc = Some(match acc { None => b, Some(a) => self.ar.concat(b, a) });
        }
        let e = self.ar.extract(acc.unwrap(), 0, bits);
        self.v(e)
    }
    fn write_obj(&mut self, o: &mut Obj, off: u64, n: u64, v: &V, bits: u16) {
        let off = off as usize;
        let n = n as usize;
        match v {
            V::C(k) => {
                for i in 0..n { o.data[off + i] = (k >> (8 * i)) as u8; }
                if !o.sym.is_empty() { for i in 0..n { o.sym[off + i] = (0, 0); } }
            }
            V::S(e) => {
                if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; }
                let _ = bits;
                let e = self.ar.zext(*e, (8 * n) as u16);
                for i in 0..n { o.sym[off + i] = (e, i as u8); }
            }
            V::A(_) => panic!("write aggregate"),
        }
    }
    /// Load a scalar of `n` bytes through a (possibly symbolic) pointer.
    fn load_scalar(&mut self, s: &mut State, p: &V, n: u64, bits: u16) -> Rs<V> {
        let addr = match p {
            V::C(k) => *k as u64,
            V::S(e) => {
                let e = self.simp(s, *e);
                if let Some(k) = self.ar.is_c(e) { k as u64 } else { return self.load_sym(s, e, n, bits); }
            }
            _ => return Err(End::Abort("ptr".into())),
        };
        if n == 0 { return Ok(V::C(0)); }
        match self.obj(s, addr) {
            Some((o, off, _)) if off >= 0 && off as u64 + n <= o.size => { let o = o.clone(); Ok(self.read_obj(&o, off as u64, n, bits)) }
            _ => { let d = format!("load of {} bytes at {:#x}", n, addr); Err(self.ub(s, &d)) }
        }
    }
    fn load_sym(&mut self, s: &mut State, p: E, n: u64, bits: u16) -> Rs<V> {
        let model = s.model.clone();
        let a = self.ar.eval(p, &model) as u64;
        let (o, off, id) = match self.obj(s, a) { Some((o, off, id)) => (o.clone(), off, id), None => return Err(self.ub(s, "symbolic load")) };
        if off < 0 || off as u64 + n > o.size { return Err(self.ub(s, "symbolic load")); }
        let base = (id << 32) + BASE;
        let b = self.ar.cst(base as u128, 64);
        let offe = self.ar.bin(Op::Sub, p, b);
        let lim = self.ar.cst((o.size - n) as u128, 64);
        let inb = self.ar.bin(Op::Ule, offe, lim);
        if !self.decide(s, inb)? { return Err(End::Abort("resolve".into())); }
        let offe = self.simp(s, offe);
        let (lo, hi) = self.ar.range(offe);
        let hi = hi.min((o.size - n) as u128);
        let tz = self.ar.tz(offe).min(20);
        let stride = 1u128 << tz;
        let lo = (lo + stride - 1) / stride * stride;
        if lo <= hi && (hi - lo) / stride <= 1100 {
            let mut k = lo;
            let mut acc: Option<E> = None;
            let mut items = vec![];
            while k <= hi {
                let v = self.read_obj(&o, k as u64, n, bits);
                items.push((k, self.e(&v, bits)));
                k += stride;
            }
            for &(k, v) in items.iter().rev() {
                acc = Some(match acc { None => v, Some(a) => {
                    let kc = self.ar.cst(k, 64);
                    let c = self.ar.eq(offe, kc);
                    self.ar.ite(c, v, a)
                }});
            }
            let e = acc.unwrap();
            return Ok(self.v(e));
        }
        let k = self.concretize(s, &V::S(p), 64)?;
        self.load_scalar(s, &V::C(k), n, bits)
    }
    fn padd(&mut self, p: &V, off: u64) -> V {
        match p {
            V::C(k) => V::C((*k as u64).wrapping_add(off) as u128),
            V::S(e) => { let k = self.ar.cst(off as u128, 64); let x = self.ar.add(*e, k); self.v(x) }
            V::A(_) => panic!(),
        }
    }
    fn load(&mut self, s: &mut State, p: &V, t: &T) -> Rs<V> {
        match t {
            T::Vec(n, e) if **e == T::I(1) => {
                let v = self.load_scalar(s, p, (n + 7) / 8, *n as u16)?;
                let x = self.e(&v, *n as u16);
                let mut r = vec![];
                for i in 0..*n { let b = self.ar.extract(x, i as u16, 1); r.push(self.v(b)); }
                Ok(V::A(Rc::new(r)))
            }
            _ if t.is_agg() => {
                let mut r = vec![];
                for i in 0..t.count() {
                    let q = self.padd(p, t.field_off(i));
                    r.push(self.load(s, &q, &t.elem(i))?);
                }
                Ok(V::A(Rc::new(r)))
            }
            T::Other | T::Void => Err(End::Abort("load type".into())),
            _ => self.load_scalar(s, p, t.store_size(), t.bits()),
        }
    }
    fn store(&mut self, s: &mut State, p: &V, t: &T, v: &V) -> Rs<()> {
        let a = self.concretize(s, p, 64)? as u64;
        self.store_at(s, a, t, v)
    }
    fn store_at(&mut self, s: &mut State, a: u64, t: &T, v: &V) -> Rs<()> {
        if t.is_agg() {
            if let T::Vec(_, e) = t { if **e == T::I(1) { return Err(End::Abort("store <n x i1>".into())); } }
            let items = match v { V::A(x) => x.clone(), _ => return Err(End::Abort("store agg".into())) };
            for (i, x) in items.iter().enumerate() { self.store_at(s, a.wrapping_add(t.field_off(i)), &t.elem(i), x)?; }
            return Ok(());
        }
        let n = t.store_size();
        if n == 0 { return Ok(()); }
        let ok = match self.obj(s, a) { Some((o, off, _)) => off >= 0 && off as u64 + n <= o.size, None => false };
        if !ok { let d = format!("store of {} bytes at {:#x}", n, a); return Err(self.ub(s, &d)); }
        let selfp: *mut Exec = self;
        let (o, off) = self.obj_mut(s, a).unwrap();
        // SAFETY: the object lives in the state, not in the executor
        unsafe { (*selfp).write_obj(o, off as u64, n, v, t.bits()); }
        Ok(())
    }
    fn copy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> Rs<()> {
        if n == 0 { return Ok(()); }
        let (bytes, syms) = match self.obj(s, src) {
            Some((o, off, _)) if off >= 0 && off as u64 + n <= o.size => {
                let r = off as usize..(off as u64 + n) as usize;
                (o.data[r.clone()].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym[r].to_vec() })
            }
            _ => return Err(self.ub(s, &format!("memcpy source {:#x}+{}", src, n))),
        };
        let ok = match self.obj(s, d) { Some((o, off, _)) => off >= 0 && off as u64 + n <= o.size, None => false };
        if !ok { return Err(self.ub(s, &format!("memcpy destination {:#x}+{}", d, n))); }
        let (o, off) = self.obj_mut(s, d).unwrap();
        let off = off as usize;
        o.data[off..off + n as usize].copy_from_slice(&bytes);
        if !syms.is_empty() {
            if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; }
            o.sym[off..off + n as usize].copy_from_slice(&syms);
        } else if !o.sym.is_empty() {
            for x in o.sym[off..off + n as usize].iter_mut() { *x = (0, 0); }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ reporting
    pub fn pretty(&self, n: &str) -> String { self.m.pretty.get(n).cloned().unwrap_or_else(|| n.to_string()) }
    fn report(&mut self, s: &State, kind: &str, id: u64, mut model: Rc<Vec<u128>>, detail: String) {
        let extra = self.extra.take();
        if self.loose {
            let cs: Vec<E> = extra.iter().chain(s.pc.iter()).copied().collect();
            match self.witness(&cs, &model) {
                Some(m) => model = m,
                None => {
                    // a candidate only: other paths may still hold a real witness
                    let k = self.open.entry((kind.to_string(), id)).or_insert(0);
                    *k += 1;
                    if *k > 2 { return; }
                    self.open_n += 1;
                    self.ar.bump_model();
                    let ins: Vec<(u128, u16)> = s.inputs.iter().map(|&(e, w)| (self.ar.eval(e, &model), w)).collect();
                    self.violations.push(Violation { kind: kind.into(), id, inputs: ins, detail });
                    return;
                }
            }
        }
        self.viol_ids.insert((kind.to_string(), id));
        self.ar.bump_model();
        let ins: Vec<(u128, u16)> = s.inputs.iter().map(|&(e, w)| (self.ar.eval(e, &model), w)).collect();
        self.violations.push(Violation { kind: kind.into(), id, inputs: ins, detail });
    }
    /// An assignment that satisfies all constraints with the real float arithmetic: the given one, or one near it.
    fn witness(&mut self, cs: &[E], model: &Rc<Vec<u128>>) -> Option<Rc<Vec<u128>>> {
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for &c in cs { if self.ar.taint[c as usize] { vars.extend(self.ar.vars(c).iter()); } }
        let mut base = (**model).clone();
        base.resize(self.ar.nvars as usize, 0);
        let mut h: u64 = 0x9e3779b97f4a7c15;
        for t in 0..1000.min(self.dives) {
            let mut m = base.clone();
            for &v in vars.iter() {
                if t == 0 { break; }
                h ^= h << 13; h ^= h >> 7; h ^= h << 17;
                // a zero is most often one that has to be
                if h >> 36 & 7 == 0 || (base[v as usize] << 1 & 0xffff_ffff_ffff_ffff == 0 && h >> 36 & 7 != 1) { continue; }
                // every magnitude from 2^-8 to 2^8, half of them with few significant bits
                let mut f = f64::from_bits((1023 - 8 + (h >> 52) % 17) << 52 | (h & ((1 << 52) - 1)));
                if h >> 51 & 1 == 1 { f = f64::from_bits(f.to_bits() & !((1 << 49) - 1)); }
                if h >> 48 & 1 == 1 { f = -f; }
                match self.ar.var_width(v) { 64 => m[v as usize] = f.to_bits() as u128, 32 => m[v as usize] = (f as f32).to_bits() as u128, _ => {} }
            }
            if t > 0 { self.dives -= 1; }
            let m = Rc::new(m);
            self.ar.bump_model();
            let ok = cs.iter().all(|&c| self.ar.eval(c, &m) != 0);
            self.ar.bump_model();
            if ok { return Some(m); }
        }
        None
    }
    fn panic_loc(&mut self, s: &State, args: &[V]) -> String {
        for a in args.iter().rev() {
            if let V::C(k) = a {
                if let Some((o, 0, _)) = self.obj(s, *k as u64) {
                    if o.size == 24 && o.sym.is_empty() {
                        let p = u64::from_le_bytes(o.data[0..8].try_into().unwrap());
                        let n = u64::from_le_bytes(o.data[8..16].try_into().unwrap()) as usize;
                        let line = u32::from_le_bytes(o.data[16..20].try_into().unwrap());
                        if let Some((so, off, _)) = self.obj(s, p) {
                            if off >= 0 && off as usize + n <= so.data.len() && n < 300 {
                                return format!("{}:{}", String::from_utf8_lossy(&so.data[off as usize..off as usize + n]), line);
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }

    // ------------------------------------------------------------------ main loop
    pub fn run(&mut self, entry: &str) {
        let f = match self.func(entry) { Ok(f) => f, Err(_) => { self.incomplete.push(format!("no entry {}", entry)); return; } };
        self.entered.insert(entry.to_string());
        let s = State {
            frames: vec![Rc::new(Frame { regs: vec![V::C(0); f.nregs as usize], f, block: 0, ip: 0, allocas: vec![], ret: None, norm: None })],
            mem: vec![], freelist: vec![], gmod: BTreeMap::new(), pc: vec![], eqs: Rc::new(HashMap::new()), ver: 0, model: Rc::new(vec![]), inputs: vec![],
            allow_panic: None, fuel: self.lim.fuel, depth: 0, covers: BTreeSet::new(),
        };
        self.work.push(s);
        while let Some(mut s) = self.work.pop() {
            if self.start.elapsed() > self.lim.time { self.incomplete.push(format!("time limit, {} states left", self.work.len() + 1)); return; }
            if MEM_HIGH.load(std::sync::atomic::Ordering::Relaxed) { self.incomplete.push("memory limit".into()); return; }
            if self.st.paths >= self.lim.paths { self.incomplete.push(format!("path limit, {} states left", self.work.len() + 1)); return; }
            self.ar.bump_model();
            match self.path(&mut s) {
                End::Done => {
                    if self.samples.len() < 3 || (self.st.paths.is_power_of_two() && self.samples.len() < 12) {
                        let model = s.model.clone();
                        self.ar.bump_model();
                        let ins: Vec<(u128, u16)> = s.inputs.iter().map(|&(e, w)| (self.ar.eval(e, &model), w)).collect();
                        self.samples.push(ins);
                    }
                    self.st.paths += 1; let c = std::mem::take(&mut s.covers); self.covers.extend(c); }
                End::Killed => { self.st.paths += 1; self.st.pruned += 1; let c = std::mem::take(&mut s.covers); self.covers.extend(c); }
                End::Abort(e) => {
                    self.st.paths += 1;
                    // the native build can still say what happens on this path for one input
                    if self.stuck.len() < 4 {
                        let model = s.model.clone();
                        self.ar.bump_model();
                        let ins: Vec<(u128, u16)> = s.inputs.iter().map(|&(e, w)| (self.ar.eval(e, &model), w)).collect();
                        self.stuck.push(ins);
                    }
                    if self.incomplete.len() < 20 {
                        let fr = s.frames.last().unwrap();
                        let w = format!("{} [in {}]", e, self.pretty(&fr.f.name));
                        self.incomplete.push(w);
                    }
                }
            }
            if self.violations.len() >= self.lim.max_viol + self.open_n { return; }
            if self.viol_ids.contains(&("hang".to_string(), 0)) { return; }
        }
    }
    fn path(&mut self, s: &mut State) -> End {
        let mut n = 0u64;
        let mut asked = self.st.queries;
        loop {
            n += 1;
            if n & 0xfff == 0 || self.st.queries != asked {
                asked = self.st.queries;
                if self.start.elapsed() > self.lim.time {
                    // possibly a loop that never ends: let the native build decide
                    self.report(s, "hang", 0, s.model.clone(), format!("no termination within the time limit, in {}", self.pretty(&s.frames.last().unwrap().f.name.clone())));
                    return End::Abort("time limit".into());
                }
                if MEM_HIGH.load(std::sync::atomic::Ordering::Relaxed) { return End::Abort("memory limit".into()); }
            }
            if s.fuel == 0 {
                let d = format!("no termination within {} instructions, in {}", self.lim.fuel, self.pretty(&s.frames.last().unwrap().f.name.clone()));
                self.report(s, "hang", 0, s.model.clone(), d);
                return End::Abort("instruction bound".into());
            }
            s.fuel -= 1;
            self.st.instrs += 1;
            match self.step(s) {
                Ok(St::Next) => { Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1; }
                Ok(St::Jumped) => {}
                Ok(St::End(e)) => return e,
                Err(e) => return e,
            }
        }
    }
    fn jump(&mut self, s: &mut State, to: usize) -> Rs<()> {
        let (f, from) = { let fr = s.frames.last().unwrap(); (fr.f.clone(), fr.block) };
        let b = &f.blocks[to];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, t, inc) in b.phis.iter() {
                let o = inc.iter().find(|x| x.0 == from).ok_or_else(|| End::Abort("phi edge".into()))?;
                vals.push((*d, self.get(s, &o.1, t)?));
            }
            let fr = Rc::make_mut(s.frames.last_mut().unwrap());
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        fr.block = to;
        fr.ip = 0;
        Ok(())
    }
    fn lanes(v: &V, i: usize) -> V { match v { V::A(x) => x[i].clone(), v => v.clone() } }

    fn binop(&mut self, op: B, w: u16, a: &V, b: &V) -> Rs<V> {
        let o = match op {
            B::Add => Op::Add, B::Sub => Op::Sub, B::Mul => Op::Mul, B::UDiv => Op::UDiv, B::SDiv => Op::SDiv, B::URem => Op::URem, B::SRem => Op::SRem,
            B::And => Op::And, B::Or => Op::Or, B::Xor => Op::Xor, B::Shl => Op::Shl, B::LShr => Op::LShr, B::AShr => Op::AShr,
            B::FAdd => Op::FAdd, B::FSub => Op::FSub, B::FMul => Op::FMul, B::FDiv => Op::FDiv, B::FRem => Op::FRem,
        };
        if w > 128 { return Self::wide_op(op, w, a, b); }
        self.op2(o, w, w, a, b)
    }
    /// Integers of 129 to 256 bits (products of two u128 in core's formatting): a pair of 128-bit halves, concrete only.
    fn wide(v: &V) -> Rs<(u128, u128)> {
        match v {
            V::C(k) => Ok((*k, 0)),
            V::A(x) if x.len() == 2 => if let (V::C(l), V::C(h)) = (&x[0], &x[1]) { Ok((*l, *h)) } else { Err(End::Abort("symbolic wide integer".into())) },
            _ => Err(End::Abort("symbolic wide integer".into())),
        }
    }
    fn wide_op(op: B, w: u16, a: &V, b: &V) -> Rs<V> {
        if w != 256 { return Err(End::Abort("wide integer".into())); }
        let ((al, ah), (bl, bh)) = (Self::wide(a)?, Self::wide(b)?);
        let (l, h) = match op {
            B::Mul => {
                let m = u64::MAX as u128;
                let (a0, a1, b0, b1) = (al & m, al >> 64, bl & m, bl >> 64);
                let (p00, p01, p10, p11) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
                let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
                let l = (p00 & m) | (mid << 64);
                let h = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
                (l, h.wrapping_add(al.wrapping_mul(bh)).wrapping_add(ah.wrapping_mul(bl)))
            }
            B::LShr if bh == 0 && bl < 256 => match bl as u32 {
                0 => (al, ah),
                k if k < 128 => ((al >> k) | (ah << (128 - k)), ah >> k),
                k => (ah >> (k - 128), 0),
            },
            _ => return Err(End::Abort("wide integer operation".into())),
        };
        Ok(V::A(Rc::new(vec![V::C(l), V::C(h)])))
    }
    fn op2(&mut self, o: Op, rw: u16, w: u16, a: &V, b: &V) -> Rs<V> {
        if w > 128 || rw > 128 { return Err(End::Abort("wide integer".into())); }
        if let (V::C(x), V::C(y)) = (a, b) { return Ok(V::C(fold(o, rw, w, *x, *y, 0, 0))); }
        if matches!(a, V::A(_)) || matches!(b, V::A(_)) { return Err(End::Abort("op2 agg".into())); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match o {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe => self.ar.fop(o, rw, x, y, 0),
            _ => self.ar.bin(o, x, y),
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pr, w: u16, a: &V, b: &V) -> Rs<V> {
        let (o, sw, ng) = match p {
            Pr::Eq => (Op::Eq, false, false), Pr::Ne => (Op::Eq, false, true),
            Pr::Ult => (Op::Ult, false, false), Pr::Ule => (Op::Ule, false, false), Pr::Ugt => (Op::Ult, true, false), Pr::Uge => (Op::Ule, true, false),
            Pr::Slt => (Op::Slt, false, false), Pr::Sle => (Op::Sle, false, false), Pr::Sgt => (Op::Slt, true, false), Pr::Sge => (Op::Sle, true, false),
        };
        let r = if sw { self.op2(o, 1, w, b, a)? } else { self.op2(o, 1, w, a, b)? };
        if ng { self.vnot(&r) } else { Ok(r) }
    }
    fn vnot(&mut self, v: &V) -> Rs<V> {
        Ok(match v { V::C(k) => V::C((*k & 1) ^ 1), V::S(e) => { let x = self.ar.not(*e); self.v(x) } V::A(_) => return Err(End::Abort("not agg".into())) })
    }
    fn vor(&mut self, a: &V, b: &V) -> Rs<V> { self.op2(Op::Or, 1, 1, a, b) }
    fn fcmp(&mut self, p: &str, w: u16, a: &V, b: &V) -> Rs<V> {
        let nan = |s: &mut Self| -> Rs<V> {
            let x = s.isnan(w, a)?;
            let y = s.isnan(w, b)?;
            s.vor(&x, &y)
        };
        match p {
            "oeq" => self.op2(Op::FEq, 1, w, a, b),
            "olt" => self.op2(Op::FLt, 1, w, a, b),
            "ole" => self.op2(Op::FLe, 1, w, a, b),
            "ogt" => self.op2(Op::FLt, 1, w, b, a),
            "oge" => self.op2(Op::FLe, 1, w, b, a),
            "une" => { let x = self.op2(Op::FEq, 1, w, a, b)?; self.vnot(&x) }
            "uge" => { let x = self.op2(Op::FLt, 1, w, a, b)?; self.vnot(&x) }
            "ugt" => { let x = self.op2(Op::FLe, 1, w, a, b)?; self.vnot(&x) }
            "ule" => { let x = self.op2(Op::FLt, 1, w, b, a)?; self.vnot(&x) }
            "ult" => { let x = self.op2(Op::FLe, 1, w, b, a)?; self.vnot(&x) }
            "uno" => nan(self),
            "ord" => { let x = nan(self)?; self.vnot(&x) }
            "ueq" => { let n = nan(self)?; let x = self.op2(Op::FEq, 1, w, a, b)?; self.vor(&x, &n) }
            "one" => { let n = nan(self)?; let x = self.op2(Op::FEq, 1, w, a, b)?; let y = self.vor(&x, &n)?; self.vnot(&y) }
            _ => Err(End::Abort(format!("fcmp {}", p))),
        }
    }
    fn isnan(&mut self, w: u16, a: &V) -> Rs<V> {
        let e = self.e(a, w);
        let r = self.ar.fop(Op::FIsNan, 1, e, 0, 0);
        Ok(self.v(r))
    }
    fn cast(&mut self, k: Cs, f: &T, t: &T, v: &V) -> Rs<V> {
        let (fw, tw) = (f.bits(), t.bits());
        match k {
            Cs::Bitcast => return self.bitcast(f, t, v),
            Cs::PtrToInt | Cs::IntToPtr => {
                let e = self.e(v, fw);
                let r = if tw < fw { self.ar.extract(e, 0, tw) } else { self.ar.zext(e, tw) };
                return Ok(self.v(r));
            }
            _ => {}
        }
        if fw > 128 {
            if k != Cs::Trunc || tw > 128 { return Err(End::Abort("wide integer cast".into())); }
            let (l, _) = Self::wide(v)?;
            return Ok(V::C(l & mask(tw)));
        }
        if tw > 128 {
            return match (k, v) { (Cs::ZExt, V::C(x)) => Ok(V::A(Rc::new(vec![V::C(*x), V::C(0)]))), _ => Err(End::Abort("symbolic wide integer".into())) };
        }
        let e = match v { V::A(_) => return Err(End::Abort("cast agg".into())), _ => self.e(v, fw) };
        let r = match k {
            Cs::Trunc => self.ar.extract(e, 0, tw),
            Cs::ZExt => self.ar.zext(e, tw),
            Cs::SExt => self.ar.sext(e, tw),
            Cs::SiToFp => self.ar.fop(Op::SiToF, tw, e, 0, 0),
            Cs::UiToFp => self.ar.fop(Op::UiToF, tw, e, 0, 0),
            Cs::FpToSi => self.ar.fop(Op::FToSiSat, tw, e, 0, 0),
            Cs::FpToUi => self.ar.fop(Op::FToUiSat, tw, e, 0, 0),
            Cs::FpExt => self.ar.fop(Op::FExt, tw, e, 0, 0),
            Cs::FpTrunc => self.ar.fop(Op::FTrunc, tw, e, 0, 0),
            _ => unreachable!(),
        };
        Ok(self.v(r))
    }
    fn bitcast(&mut self, f: &T, t: &T, v: &V) -> Rs<V> {
        if !f.is_agg() && !t.is_agg() { return Ok(v.clone()); }
        // flatten to bits (<= 128)
        let bits = match f {
            T::Vec(n, e) => {
                let ew = e.bits();
                if *n * ew as u64 > 128 { return Err(End::Abort("wide bitcast".into())); }
                let xs = match v { V::A(x) => x.clone(), _ => return Err(End::Abort("bitcast".into())) };
                let mut acc: Option<E> = None;
                for x in xs.iter() {
                    let b = self.e(x, ew);
                    acc = Some(match acc { None => b, Some(a) => self.ar.concat(b, a) });
                }
                acc.unwrap()
            }
            _ => self.e(v, f.bits()),
        };
        match t {
            T::Vec(n, e) => {
                let ew = e.bits();
                let mut r = vec![];
                for i in 0..*n { let b = self.ar.extract(bits, i as u16 * ew, ew); r.push(self.v(b)); }
                Ok(V::A(Rc::new(r)))
            }
            _ => Ok(self.v(bits)),
        }
    }
    fn vite(&mut self, c: E, t: &T, a: &V, b: &V) -> Rs<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for i in 0..x.len() { r.push(self.vite(c, &t.elem(i), &x[i], &y[i])?); }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let w = t.bits();
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.ar.ite(c, x, y);
                Ok(self.v(r))
            }
        }
    }

    /// A sum or difference involving products that is a constant as a polynomial.
    fn fold(&mut self, v: V) -> V {
        if let V::S(e) = v { if let Some(k) = self.ar.fold_const(e) { return V::C(k); } }
        v
    }
    fn step(&mut self, s: &mut State) -> Rs<St> {
        let (f, bi, ip) = { let fr = s.frames.last().unwrap(); (fr.f.clone(), fr.block, fr.ip) };
        let ins = &f.blocks[bi].ins[ip];
        match ins {
            Ins::Nop => {}
            Ins::Bin(op, t, d, a, b) => {
                let (x, y) = (self.get(s, a, t)?, self.get(s, b, t)?);
                let r = if let T::Vec(n, e) = t {
                    let mut r = vec![];
                    for i in 0..*n as usize { r.push(self.binop(*op, e.bits(), &Self::lanes(&x, i), &Self::lanes(&y, i))?); }
                    V::A(Rc::new(r))
                } else {
                    let mut exact = None;
                    if matches!(op, B::SDiv) && matches!(x, V::S(_)) {
                        let (xe, ye) = (self.e(&x, t.bits()), self.e(&y, t.bits()));
                        let cs: Vec<E> = s.pc.iter().copied().collect();
                        exact = self.ar.exact_div(&cs, xe, ye).map(|e| self.v(e));
                    }
                    match exact { Some(v) => v, None => { let r = self.binop(*op, t.bits(), &x, &y)?; self.fold(r) } }
                };
                self.set(s, *d, r);
            }
            Ins::Icmp(p, t, d, a, b) => {
                let (x, y) = (self.get(s, a, t)?, self.get(s, b, t)?);
                let r = if let T::Vec(n, e) = t {
                    let mut r = vec![];
                    for i in 0..*n as usize { r.push(self.icmp(*p, e.bits(), &Self::lanes(&x, i), &Self::lanes(&y, i))?); }
                    V::A(Rc::new(r))
                } else { self.icmp(*p, t.bits(), &x, &y)? };
                self.set(s, *d, r);
            }
            Ins::Fcmp(p, t, d, a, b) => {
                let (x, y) = (self.get(s, a, t)?, self.get(s, b, t)?);
                let r = match &**p { "true" => V::C(1), "false" => V::C(0), _ => if t.is_agg() {
                    let w = t.elem(0).bits();
                    let mut r = vec![];
                    for i in 0..t.count() { r.push(self.fcmp(p, w, &Self::lanes(&x, i), &Self::lanes(&y, i))?); }
                    V::A(Rc::new(r))
                } else { self.fcmp(p, t.bits(), &x, &y)? } };
                self.set(s, *d, r);
            }
            Ins::Fneg(t, d, a) => {
                let x = self.get(s, a, t)?;
                let et = if t.is_agg() { t.elem(0) } else { t.clone() };
                let w = et.bits();
                let k = V::C(1u128 << (w - 1));
                let r = if t.is_agg() {
                    let mut r = vec![];
                    for i in 0..t.count() { r.push(self.op2(Op::Xor, w, w, &Self::lanes(&x, i), &k)?); }
                    V::A(Rc::new(r))
                } else { self.op2(Op::Xor, w, w, &x, &k)? };
                self.set(s, *d, r);
            }
            Ins::Cast(k, ft, tt, d, a) => {
                let x = self.get(s, a, ft)?;
                let r = match (ft, tt, *k) {
                    (_, _, Cs::Bitcast) => self.cast(*k, ft, tt, &x)?,
                    (T::Vec(n, fe), T::Vec(_, te), _) => {
                        let mut r = vec![];
                        for i in 0..*n as usize { r.push(self.cast(*k, fe, te, &Self::lanes(&x, i))?); }
                        V::A(Rc::new(r))
                    }
                    _ => self.cast(*k, ft, tt, &x)?,
                };
                self.set(s, *d, r);
            }
            Ins::Load(t, d, p) => {
                if t.bits() > 128 { return Err(End::Abort("wide integer load".into())); }
                let a = self.get(s, p, &T::Ptr)?;
                let r = self.load(s, &a, t)?;
                self.set(s, *d, r);
            }
            Ins::Store(t, v, p) => {
                if t.bits() > 128 { return Err(End::Abort("wide integer store".into())); }
                let x = self.get(s, v, t)?;
                let a = self.get(s, p, &T::Ptr)?;
                self.store(s, &a, t, &x)?;
            }
            Ins::Gep(d, base, off, terms) => {
                let mut p = self.get(s, base, &T::Ptr)?;
                if *off != 0 { p = self.padd(&p, *off as u64); }
                for (o, w, scale) in terms {
                    let ix = self.get(s, o, &T::I(*w))?;
                    match (&ix, &p) {
                        (V::C(k), _) => { let k = sext(*k, *w) as i64 as u64; p = self.padd(&p, k.wrapping_mul(*scale)); }
                        _ => {
                            let mut e = self.e(&ix, *w);
                            e = if *w < 64 { self.ar.sext(e, 64) } else if *w > 64 { self.ar.extract(e, 0, 64) } else { e };
                            let e = self.simp(s, e);
                            let sc = self.ar.cst(*scale as u128, 64);
                            // scale by shifting when possible keeps alignment visible
                            let m = if scale.is_power_of_two() && *scale > 1 { let k = self.ar.cst(scale.trailing_zeros() as u128, 64); self.ar.bin(Op::Shl, e, k) } else { self.ar.bin(Op::Mul, e, sc) };
                            let pe = self.e(&p, 64);
                            let r = self.ar.add(pe, m);
                            p = self.v(r);
                        }
                    }
                }
                self.set(s, *d, p);
            }
            Ins::Alloca(d, sz, cnt) => {
                let mut size = *sz;
                if let Some((o, es)) = cnt {
                    let c = self.get(s, o, &T::I(64))?;
                    let k = self.concretize(s, &c, 64)? as u64;
                    size = k.saturating_mul(*es);
                    if size > MAX_ALLOC { return Err(End::Abort("alloca too large".into())); }
                }
                let a = self.alloc(s, size, true);
                let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                fr.allocas.push(((a >> 32) - 1) as u32);
                fr.regs[*d as usize] = V::C(a as u128);
            }
            Ins::Br(b) => { self.jump(s, *b)?; return Ok(St::Jumped); }
            Ins::CBr(c, a, b) => {
                let v = self.get(s, c, &T::I(1))?;
                let t = self.truth(s, &v)?;
                self.jump(s, if t { *a } else { *b })?;
                return Ok(St::Jumped);
            }
            Ins::Switch(o, w, def, cases) => {
                let v = self.get(s, o, &T::I(*w))?;
                let e = match v { V::C(k) => self.ar.cst(k, *w), V::S(e) => self.simp(s, e), _ => return Err(End::Abort("switch".into())) };
                if let Some(k) = self.ar.is_c(e) {
                    let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                    self.jump(s, t)?;
                    return Ok(St::Jumped);
                }
                let model = s.model.clone();
                let k = self.ar.eval(e, &model);
                if let Some(c) = cases.iter().find(|c| c.0 == k) {
                    let kc = self.ar.cst(k, *w);
                    let q = self.ar.eq(e, kc);
                    if !self.decide(s, q)? { return Err(End::Abort("switch".into())); }
                    self.jump(s, c.1)?;
                } else {
                    let mut q = self.ar.tru();
                    for c in cases { let kc = self.ar.cst(c.0, *w); let x = self.ar.ne(e, kc); q = self.ar.and(q, x); }
                    if !self.decide(s, q)? { return Err(End::Abort("switch".into())); }
                    self.jump(s, *def)?;
                }
                return Ok(St::Jumped);
            }
            Ins::Ret(o, t) => {
                let v = match o { Some(o) => Some(self.get(s, o, t)?), None => None };
                let fr = s.frames.pop().unwrap();
                for &a in fr.allocas.iter().rev() { s.mem[a as usize] = None; s.freelist.push(a); }
                if s.frames.is_empty() { return Ok(St::End(End::Done)); }
                if let (Some(d), Some(v)) = (fr.ret, v) { self.set(s, d, v); }
                if let Some(n) = fr.norm { self.jump(s, n)?; return Ok(St::Jumped); }
                // resume caller after the call
            }
            Ins::Select(t, vc, d, c, a, b) => {
                let ct = if *vc { T::Vec(t.count() as u64, Rc::new(T::I(1))) } else { T::I(1) };
                let cv = self.get(s, c, &ct)?;
                let (x, y) = (self.get(s, a, t)?, self.get(s, b, t)?);
                let r = match &cv {
                    V::C(k) => if k & 1 != 0 { x } else { y },
                    V::S(e) => {
                        let e = self.simp(s, *e);
                        match self.ar.is_c(e) { Some(k) => if k != 0 { x } else { y }, None => self.vite(e, t, &x, &y)? }
                    }
                    V::A(cs) => {
                        let mut r = vec![];
                        for i in 0..cs.len() {
                            let ce = self.e(&cs[i], 1);
                            r.push(self.vite(ce, &t.elem(i), &Self::lanes(&x, i), &Self::lanes(&y, i))?);
                        }
                        V::A(Rc::new(r))
                    }
                };
                self.set(s, *d, r);
            }
            Ins::ExtractValue(t, d, o, ix) => {
                let mut v = self.get(s, o, t)?;
                for &i in ix { v = match &v { V::A(x) => x[i].clone(), _ => return Err(End::Abort("extractvalue".into())) }; }
                self.set(s, *d, v);
            }
            Ins::InsertValue(t, et, d, o, x, ix) => {
                let v = self.get(s, o, t)?;
                let x = self.get(s, x, et)?;
                fn ins(v: &V, ix: &[usize], x: V) -> V {
                    if ix.is_empty() { return x; }
                    match v { V::A(a) => { let mut n = (**a).clone(); n[ix[0]] = ins(&a[ix[0]], &ix[1..], x); V::A(Rc::new(n)) } _ => V::C(0) }
                }
                let r = ins(&v, ix, x);
                self.set(s, *d, r);
            }
            Ins::ExtractElem(t, d, o, i) => {
                let v = self.get(s, o, t)?;
                let iv = self.get(s, i, &T::I(64))?;
                let k = self.concretize(s, &iv, 64)? as usize;
                let r = match &v { V::A(x) if k < x.len() => x[k].clone(), _ => V::C(0) };
                self.set(s, *d, r);
            }
            Ins::InsertElem(t, d, o, x, i) => {
                let v = self.get(s, o, t)?;
                let et = t.elem(0);
                let x = self.get(s, x, &et)?;
                let iv = self.get(s, i, &T::I(64))?;
                let k = self.concretize(s, &iv, 64)? as usize;
                let r = match &v { V::A(a) if k < a.len() => { let mut n = (**a).clone(); n[k] = x; V::A(Rc::new(n)) } _ => v.clone() };
                self.set(s, *d, r);
            }
            Ins::Shuffle(t, d, a, b, ix) => {
                let (x, y) = (self.get(s, a, t)?, self.get(s, b, t)?);
                let n = t.count();
                let r = ix.iter().map(|&i| { let i = i as usize; if i < n { Self::lanes(&x, i) } else { Self::lanes(&y, i - n) } }).collect();
                self.set(s, *d, V::A(Rc::new(r)));
            }
            Ins::Rmw(k, t, d, p, o) => {
                let a = self.get(s, p, &T::Ptr)?;
                let x = self.get(s, o, t)?;
                let old = self.load(s, &a, t)?;
                let w = t.bits();
                let nv = match &**k {
                    "xchg" => x,
                    "add" => self.op2(Op::Add, w, w, &old, &x)?,
                    "sub" => self.op2(Op::Sub, w, w, &old, &x)?,
                    "and" => self.op2(Op::And, w, w, &old, &x)?,
                    "or" => self.op2(Op::Or, w, w, &old, &x)?,
                    "xor" => self.op2(Op::Xor, w, w, &old, &x)?,
                    _ => return Err(End::Abort(format!("rmw {}", k))),
                };
                self.store(s, &a, t, &nv)?;
                self.set(s, *d, old);
            }
            Ins::CmpXchg(t, d, p, c, n) => {
                let a = self.get(s, p, &T::Ptr)?;
                let cv = self.get(s, c, t)?;
                let nv = self.get(s, n, t)?;
                let old = self.load(s, &a, t)?;
                let eq = self.op2(Op::Eq, 1, t.bits(), &old, &cv)?;
                let b = self.truth(s, &eq)?;
                if b { self.store(s, &a, t, &nv)?; }
                self.set(s, *d, V::A(Rc::new(vec![old, V::C(b as u128)])));
            }
            Ins::Freeze(t, d, o) => { let v = self.get(s, o, t)?; self.set(s, *d, v); }
            Ins::Unreachable => return Err(self.ub(s, "unreachable executed")),
            Ins::Unsup(t) => return Err(End::Abort(format!("unsupported: {}", short(t, 160)))),
            Ins::Call(d, rt, callee, args, norm) => return self.call(s, *d, rt, callee, args, *norm),
        }
        Ok(St::Next)
    }

    fn finish(&mut self, s: &mut State, d: Option<u32>, v: V, norm: Option<usize>) -> Rs<St> {
        if let Some(d) = d { self.set(s, d, v); }
        if let Some(n) = norm { self.jump(s, n)?; return Ok(St::Jumped); }
        Ok(St::Next)
    }

    fn call(&mut self, s: &mut State, d: Option<u32>, rt: &T, callee: &Opd, args: &[(Opd, T)], norm: Option<usize>) -> Rs<St> {
        let name: String = match callee {
            Opd::Glo(n) => n.to_string(),
            o => {
                let v = self.get(s, o, &T::Ptr)?;
                let a = self.concretize(s, &v, 64)? as u64;
                let id = a >> 32;
                let off = (a & 0xffff_ffff).wrapping_sub(BASE);
                if id != FBIT || off % 16 != 0 || (off / 16) as usize >= self.fnames.len() { return Err(self.ub(s, "call of a bad function pointer")); }
                self.fnames[(off / 16) as usize].clone()
            }
        };
        let mut av = Vec::with_capacity(args.len());
        for (o, t) in args { av.push(self.get(s, o, t)?); }
        // alias resolution for functions happens through gaddr for indirect calls only
        if is_panic(&name) {
            let loc = self.panic_loc(s, &av);
            return self.do_panic(s, format!("{} {}", self.pretty(&name), loc));
        }
        if let Some(r) = self.special(s, &name, rt, args, &av)? { return match r { Ok(v) => self.finish(s, d, v, norm), Err(e) => Ok(St::End(e)) }; }
        if !self.m.funcs.contains_key(&name) { return Err(End::Abort(format!("external function {}", name))); }
        let f = self.func(&name)?;
        if !self.entered.contains(&name) { self.entered.insert(name.clone()); }
        if s.frames.len() > 400 {
            let d = format!("recursion deeper than 400 calls, in {}", self.pretty(&name));
            self.report(s, "hang", 0, s.model.clone(), d);
            return Err(End::Abort("call depth".into()));
        }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, (r, _)) in f.params.iter().enumerate() { if i < av.len() { regs[*r as usize] = av[i].clone(); } }
        // advance the caller past the call now
        Rc::make_mut(s.frames.last_mut().unwrap()).ip += 0;
        s.frames.push(Rc::new(Frame { f, block: 0, ip: 0, regs, allocas: vec![], ret: d, norm }));
        Ok(St::Jumped)
    }
    fn do_panic(&mut self, s: &mut State, what: String) -> Rs<St> {
        let bad = match s.allow_panic {
            None => Some(s.model.clone()),
            Some(c) => {
                let c = self.simp(s, c);
                let c = self.ar.ring_simplify(c);
                let n = self.ar.not(c);
                self.sat(s, n)?
            }
        };
        self.st.asserts += 1;
        if let Some(m) = bad {
            if !self.viol_ids.contains(&("panic".to_string(), 0)) { self.report(s, "panic", 0, m, what); }
        }
        Ok(St::End(End::Done))
    }

    /// intrinsics, libc and the harness interface; Ok(None) = ordinary function
    fn special(&mut self, s: &mut State, name: &str, rt: &T, args: &[(Opd, T)], av: &[V]) -> Rs<Option<Result<V, End>>> {
        let ok = |v: V| -> Rs<Option<Result<V, End>>> { Ok(Some(Ok(v))) };
        if let Some(h) = name.strip_prefix("v_") {
            match h {
                "any_u8" | "any_u16" | "any_u32" | "any_u64" | "any_u128" => {
                    let w: u16 = h[5..].parse().unwrap();
                    let k = s.inputs.iter().filter(|x| self.ar.n[x.0 as usize].op == Op::Var).count();
                    // variables are shared between paths by position and width
                    let mut seen = 0;
                    let mut found = None;
                    for &e in &self.var_e { if self.ar.w(e) == w {
                        if !s.inputs.iter().any(|x| x.0 == e) { found = Some(e); break; }
                        seen += 1;
                    }}
                    let _ = (k, seen);
                    let e = match found { Some(e) => e, None => { let e = self.ar.var(w); self.var_e.push(e); e } };
                    s.inputs.push((e, w));
                    return ok(V::S(e));
                }
                "choose" => {
                    let n = self.concretize(s, &av[0], 64)?;
                    if n == 0 { return Ok(Some(Err(End::Killed))); }
                    // fork explicitly: each sibling resumes after the call with its own value
                    let fr = s.frames.last().unwrap();
                    let (f, b, ip) = (fr.f.clone(), fr.block, fr.ip);
                    let d = if let Ins::Call(d, ..) = &f.blocks[b].ins[ip] { *d } else { None };
                    for k in (1..n).rev() {
                        let mut o = s.clone();
                        let e = self.ar.cst(k, 64);
                        o.inputs.push((e, 64));
                        if let Some(d) = d { self.set(&mut o, d, V::C(k)); }
                        Rc::make_mut(o.frames.last_mut().unwrap()).ip += 1;
                        self.work.push(o);
                    }
                    let e = self.ar.cst(0, 64);
                    s.inputs.push((e, 64));
                    return ok(V::C(0));
                }
                "param" => {
                    let k = self.concretize(s, &av[0], 64)? as usize;
                    let v = self.params.get(k).copied();
                    return match v { Some(v) => ok(V::C(v as u128)), None => Err(End::Abort(format!("missing parameter {}", k))) };
                }
                "assume" => {
                    match &av[0] {
                        V::C(k) => if *k & 1 == 0 { return Ok(Some(Err(End::Killed))); },
                        V::S(e) => {
                            let c = self.simp(s, *e);
                            let c = if self.ar.w(c) != 1 { let z = self.ar.cst(0, self.ar.w(c)); self.ar.ne(c, z) } else { c };
                            if let Some(k) = self.ar.is_c(c) { if k == 0 { return Ok(Some(Err(End::Killed))); } return ok(V::C(0)); }
                            let model = s.model.clone();
                            if self.ar.eval(c, &model) == 0 || (self.loose && self.ar.taint[c as usize]) {
                                match self.sat(s, c)? { Some(m) => s.model = m, None => return Ok(Some(Err(End::Killed))) }
                            }
                            self.add_pc(s, c);
                        }
                        _ => {}
                    }
                    return ok(V::C(0));
                }
                "assert" => {
                    let id = match &av[1] { V::C(k) => *k as u64, _ => 0 };
                    self.st.asserts += 1;
                    match &av[0] {
                        V::C(k) => {
                            self.st.asserts_const += 1;
                            if *k & 1 == 0 {
                                if !self.viol_ids.contains(&("assert".to_string(), id)) { self.report(s, "assert", id, s.model.clone(), "assertion".into()); }
                                return Ok(Some(Err(End::Killed)));
                            }
                        }
                        V::S(e) => {
                            let c0 = self.simp(s, *e);
                            let c0 = if self.ar.w(c0) != 1 { let z = self.ar.cst(0, self.ar.w(c0)); self.ar.ne(c0, z) } else { c0 };
                            let c = self.ar.ring_simplify(c0);
                            if self.ar.is_c(c) == Some(1) { if self.ar.is_c(c0).is_some() { self.st.asserts_const += 1; } else { self.st.asserts_ring += 1; } return ok(V::C(0)); }
                            if self.viol_ids.contains(&("assert".to_string(), id)) {
                                // already refuted once: keep exploring only where it holds
                                let n = self.ar.not(c);
                                let _ = n;
                                match self.sat(s, c)? { Some(m) => { s.model = m; self.add_pc(s, c); return ok(V::C(0)); } None => return Ok(Some(Err(End::Killed))) }
                            }
                            self.st.asserts_solver += 1;
                            let n = self.ar.not(c);
                            let model = s.model.clone();
                            let bad = if self.ar.eval(n, &model) != 0 && !(self.loose && self.ar.taint[n as usize]) { Some(model) } else { self.sat(s, n)? };
                            if let Some(m) = bad {
                                self.extra = Some(n);
                                let seen = self.viol_ids.len();
                                self.report(s, "assert", id, m, "assertion".into());
                                // a candidate that is no witness: what follows on this path says no more
                                if self.loose && self.viol_ids.len() == seen { return Ok(Some(Err(End::Killed))); }
                                match self.sat(s, c)? { Some(m) => { s.model = m; self.add_pc(s, c); } None => return Ok(Some(Err(End::Killed))) }
                            } else { self.add_pc(s, c); }
                        }
                        _ => {}
                    }
                    return ok(V::C(0));
                }
                "cover" => { if let V::C(k) = &av[0] { s.covers.insert(*k as u64); } return ok(V::C(0)); }
                "allow_panic" => {
                    s.allow_panic = Some(match &av[0] { V::C(k) => self.ar.cst(*k & 1, 1), V::S(e) => { let e = *e; if self.ar.w(e) != 1 { let z = self.ar.cst(0, self.ar.w(e)); self.ar.ne(e, z) } else { e } } _ => return Err(End::Abort("allow".into())) });
                    return ok(V::C(0));
                }
                "end" => return Ok(Some(Err(End::Done))),
                "concrete" => { let k = self.concretize(s, &av[0], 64)?; return ok(V::C(k)); }
                "is_symbolic" => return ok(V::C(1)),
                _ => {}
            }
        }
        if let Some(i) = name.strip_prefix("llvm.") { return self.intrinsic(s, i, rt, args, av).map(|v| Some(Ok(v))); }
        match name {
            "malloc" | "calloc" | "aligned_alloc" | "posix_memalign" => {
                let (size, st) = match name {
                    "malloc" => (self.concretize(s, &av[0], 64)? as u64, None),
                    "calloc" => { let a = self.concretize(s, &av[0], 64)? as u64; let b = self.concretize(s, &av[1], 64)? as u64; (a.saturating_mul(b), None) }
                    "aligned_alloc" => (self.concretize(s, &av[1], 64)? as u64, None),
                    _ => (self.concretize(s, &av[2], 64)? as u64, Some(av[0].clone())),
                };
                if size > MAX_ALLOC { return Err(End::Abort(format!("allocation of {} bytes", size))); }
                let a = self.alloc(s, size, false);
                if let Some(p) = st { self.store(s, &p, &T::Ptr, &V::C(a as u128))?; return ok(V::C(0)); }
                ok(V::C(a as u128))
            }
            "free" => {
                let a = self.concretize(s, &av[0], 64)? as u64;
                if a != 0 {
                    let id = a >> 32;
                    if id == 0 || id > s.mem.len() as u64 || s.mem[(id - 1) as usize].is_none() || (a & 0xffff_ffff) != BASE { return Err(self.ub(s, "bad free")); }
                    s.mem[(id - 1) as usize] = None;
                }
                ok(V::C(0))
            }
            "realloc" => {
                let a = self.concretize(s, &av[0], 64)? as u64;
                let n = self.concretize(s, &av[1], 64)? as u64;
                if n > MAX_ALLOC { return Err(End::Abort(format!("allocation of {} bytes", n))); }
                let old = match self.obj(s, a) { Some((o, 0, _)) => o.size, _ => if a == 0 { 0 } else { return Err(self.ub(s, "bad realloc")) } };
                let b = self.alloc(s, n, false);
                self.copy(s, b, a, old.min(n))?;
                if a != 0 { s.mem[((a >> 32) - 1) as usize] = None; }
                ok(V::C(b as u128))
            }
            "bcmp" | "memcmp" => {
                let n = self.concretize(s, &av[2], 64)? as u64;
                let mut acc = self.ar.cst(0, 32);
                for i in (0..n).rev() {
                    let (p, q) = (self.padd(&av[0], i), self.padd(&av[1], i));
                    let x = self.load_scalar(s, &p, 1, 8)?;
                    let y = self.load_scalar(s, &q, 1, 8)?;
                    let (x, y) = (self.e(&x, 8), self.e(&y, 8));
                    let eq = self.ar.eq(x, y);
                    if name == "bcmp" {
                        let one = self.ar.cst(1, 32);
                        acc = self.ar.ite(eq, acc, one);
                    } else {
                        let lt = self.ar.bin(Op::Ult, x, y);
                        let (m1, p1) = (self.ar.cst(!0, 32), self.ar.cst(1, 32));
                        let df = self.ar.ite(lt, m1, p1);
                        acc = self.ar.ite(eq, acc, df);
                    }
                }
                let r = self.v(acc);
                ok(r)
            }
            "memcpy" | "memmove" => {
                let n = self.concretize(s, &av[2], 64)? as u64;
                let d = self.concretize(s, &av[0], 64)? as u64;
                let sr = self.concretize(s, &av[1], 64)? as u64;
                self.copy(s, d, sr, n)?;
                ok(av[0].clone())
            }
            "memset" => {
                let n = self.concretize(s, &av[2], 64)? as u64;
                let d = self.concretize(s, &av[0], 64)? as u64;
                let b = match &av[1] { V::C(k) => V::C(k & 255), V::S(e) => { let x = self.ar.extract(*e, 0, 8); self.v(x) } v => v.clone() };
                for i in 0..n { self.store_at(s, d + i, &T::I(8), &b)?; }
                ok(av[0].clone())
            }
            "strlen" => {
                let mut n = 0;
                loop {
                    let p = self.padd(&av[0], n);
                    let b = self.load_scalar(s, &p, 1, 8)?;
                    if self.concretize(s, &b, 8)? == 0 { break; }
                    n += 1;
                }
                ok(V::C(n as u128))
            }
            "cbrt" | "pow" | "cos" | "acos" | "sin" | "exp" | "log" | "atan2" | "hypot" | "cbrtf" | "powf" | "cosf" | "acosf" | "sinf" | "fmod" | "fmodf" | "floor" | "ceil" => {
                let w = if name.ends_with('f') && name != "floorf" || matches!(args[0].1, T::F32) { 32 } else { 64 };
                let x = self.e(&av[0], w);
                let y = if av.len() > 1 { self.e(&av[1], w) } else { 0 };
                let r = if name.starts_with("fmod") { self.ar.fop(Op::FRem, w, x, y, 0) } else {
                    let id = match name.trim_end_matches('f') { "cbrt" => UF_CBRT, "pow" => UF_POW, "cos" => UF_COS, "acos" => UF_ACOS, "sin" => UF_SIN, "exp" => UF_EXP, "log" => UF_LN, "atan2" => UF_ATAN2, "hypot" => UF_HYPOT, "floor" => UF_FLOOR, _ => UF_CEIL };
                    self.ar.fop(Op::Uf, w, x, y, id)
                };
                let r = self.v(r);
                ok(r)
            }
            "abort" => { let r = self.do_panic(s, "abort".into())?; match r { St::End(e) => Ok(Some(Err(e))), _ => unreachable!() } }
            _ => Ok(None),
        }
    }

    fn intrinsic(&mut self, s: &mut State, i: &str, rt: &T, args: &[(Opd, T)], av: &[V]) -> Rs<V> {
        let w = args.get(0).map(|a| a.1.bits()).unwrap_or(0);
        if i.starts_with("memcpy") || i.starts_with("memmove") {
            let n = self.concretize(s, &av[2], 64)? as u64;
            if n == 0 { return Ok(V::C(0)); }
            let d = self.concretize(s, &av[0], 64)? as u64;
            let sr = self.concretize(s, &av[1], 64)? as u64;
            self.copy(s, d, sr, n)?;
            return Ok(V::C(0));
        }
        if i.starts_with("memset") {
            let n = self.concretize(s, &av[2], 64)? as u64;
            if n == 0 { return Ok(V::C(0)); }
            let d = self.concretize(s, &av[0], 64)? as u64;
            for k in 0..n { self.store_at(s, d + k, &T::I(8), &av[1])?; }
            return Ok(V::C(0));
        }
        if i == "trap" || i.starts_with("ubsantrap") { return Err(self.ub(s, "trap")); }
        if i.starts_with("is.constant") { return Ok(V::C(0)); }
        if i.starts_with("expect") || i.starts_with("threadlocal.address") || i.starts_with("ssa.copy") || i.starts_with("launder") || i.starts_with("strip.invariant") { return Ok(av[0].clone()); }
        if i.starts_with("objectsize") { return Ok(V::C(if matches!(av[1], V::C(0)) { mask(rt.bits()) } else { 0 })); }
        if i.starts_with("vector.reduce.") {
            let k = i["vector.reduce.".len()..].split('.').next().unwrap();
            let vt = &args[0].1;
            let ew = vt.elem(0).bits();
            let xs = match &av[0] { V::A(x) => x.clone(), _ => return Err(End::Abort("reduce".into())) };
            let mut acc = xs[0].clone();
            for x in xs.iter().skip(1) {
                acc = match k {
                    "add" => self.op2(Op::Add, ew, ew, &acc, x)?, "mul" => self.op2(Op::Mul, ew, ew, &acc, x)?,
                    "or" => self.op2(Op::Or, ew, ew, &acc, x)?, "and" => self.op2(Op::And, ew, ew, &acc, x)?, "xor" => self.op2(Op::Xor, ew, ew, &acc, x)?,
                    "umax" | "umin" | "smax" | "smin" => self.minmax(k, ew, &acc, x)?,
                    _ => return Err(End::Abort(format!("intrinsic {}", i))),
                };
            }
            return Ok(acc);
        }
        if rt.is_agg() && matches!(rt, T::Vec(..)) {
            // lane-wise application of a scalar intrinsic
            let mut r = vec![];
            let et = rt.elem(0);
            for l in 0..rt.count() {
                let la: Vec<V> = av.iter().map(|v| Self::lanes(v, l)).collect();
                let at: Vec<(Opd, T)> = args.iter().map(|a| (Opd::Undef, if a.1.is_agg() { a.1.elem(0) } else { a.1.clone() })).collect();
                r.push(self.intrinsic(s, i, &et, &at, &la)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let base = i.split('.').next().unwrap();
        if i.contains(".with.overflow") {
            let (o, ov) = match base { "sadd" => (Op::Add, Op::SAddO), "ssub" => (Op::Sub, Op::SSubO), "smul" => (Op::Mul, Op::SMulO), "uadd" => (Op::Add, Op::UAddO), "usub" => (Op::Sub, Op::USubO), _ => (Op::Mul, Op::UMulO) };
            let r = self.op2(o, w, w, &av[0], &av[1])?;
            let f = self.op2(ov, 1, w, &av[0], &av[1])?;
            let r = self.fold(r);
            return Ok(V::A(Rc::new(vec![r, f])));
        }
        match base {
            "umax" | "umin" | "smax" | "smin" => self.minmax(base, w, &av[0], &av[1]),
            "uadd" | "usub" | "sadd" | "ssub" if i.contains(".sat") => {
                let (o, ov) = match base { "sadd" => (Op::Add, Op::SAddO), "ssub" => (Op::Sub, Op::SSubO), "uadd" => (Op::Add, Op::UAddO), _ => (Op::Sub, Op::USubO) };
                let r = self.op2(o, w, w, &av[0], &av[1])?;
                let f = self.op2(ov, 1, w, &av[0], &av[1])?;
                let lim = match base {
                    "uadd" => V::C(mask(w)), "usub" => V::C(0),
                    _ => {
                        let neg = self.op2(Op::Slt, 1, w, &av[0], &V::C(0))?;
                        let ne = self.e(&neg, 1);
                        self.vite(ne, &T::I(w), &V::C(1u128 << (w - 1)), &V::C(mask(w) >> 1))?
                    }
                };
                let fe = self.e(&f, 1);
                self.vite(fe, &T::I(w), &lim, &r)
            }
            "ucmp" | "scmp" => {
                let o = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = self.op2(o, 1, w, &av[0], &av[1])?;
                let eq = self.op2(Op::Eq, 1, w, &av[0], &av[1])?;
                let (l, q) = (self.e(&lt, 1), self.e(&eq, 1));
                let x = self.vite(q, rt, &V::C(0), &V::C(1))?;
                self.vite(l, rt, &V::C(mask(rt.bits())), &x)
            }
            "abs" => {
                let n = self.op2(Op::Slt, 1, w, &av[0], &V::C(0))?;
                let m = self.op2(Op::Sub, w, w, &V::C(0), &av[0])?;
                let ne = self.e(&n, 1);
                self.vite(ne, &T::I(w), &m, &av[0])
            }
            "ctpop" | "ctlz" | "cttz" => {
                let x = self.e(&av[0], w);
                if let Some(k) = self.ar.is_c(x) {
                    return Ok(V::C(match base { "ctpop" => k.count_ones() as u128, "ctlz" => (k.leading_zeros() as u128) - (128 - w as u128), _ => if k == 0 { w as u128 } else { k.trailing_zeros() as u128 } }));
                }
                let mut r = self.ar.cst(if base == "ctpop" { 0 } else { w as u128 }, w);
                for j in 0..w {
                    let bit = if base == "cttz" { w - 1 - j } else { j };
                    let b = self.ar.extract(x, bit, 1);
                    if base == "ctpop" { let z = self.ar.zext(b, w); r = self.ar.add(r, z); }
                    else {
                        let k = self.ar.cst(if base == "ctlz" { (w - 1 - bit) as u128 } else { bit as u128 }, w);
                        r = self.ar.ite(b, k, r);
                    }
                }
                Ok(self.v(r))
            }
            "bswap" | "bitreverse" => {
                let x = self.e(&av[0], w);
                let u = if base == "bswap" { 8 } else { 1 };
                let mut acc: Option<E> = None;
                for j in 0..w / u {
                    let b = self.ar.extract(x, j * u, u);
                    acc = Some(match acc { None => b, Some(a) => self.ar.concat(a, b) });
                }
                let r = acc.unwrap();
                Ok(self.v(r))
            }
            "fshl" | "fshr" => {
                let k = self.concretize(s, &av[2], w)? as u16 % w;
                if k == 0 { return Ok(if base == "fshl" { av[0].clone() } else { av[1].clone() }); }
                let (a, b) = (self.e(&av[0], w), self.e(&av[1], w));
                let k = if base == "fshl" { k } else { w - k };
                // (a:b) << k, high word
                let h = self.ar.extract(a, 0, w - k);
                let l = self.ar.extract(b, w - k, k);
                let r = self.ar.concat(h, l);
                Ok(self.v(r))
            }
            "fabs" => self.op2(Op::And, w, w, &av[0], &V::C(mask(w) >> 1)),
            "copysign" => {
                let a = self.op2(Op::And, w, w, &av[0], &V::C(mask(w) >> 1))?;
                let b = self.op2(Op::And, w, w, &av[1], &V::C(1u128 << (w - 1)))?;
                self.op2(Op::Or, w, w, &a, &b)
            }
            "sqrt" => { let x = self.e(&av[0], w); let r = self.ar.fop(Op::FSqrt, w, x, 0, 0); Ok(self.v(r)) }
            "floor" | "ceil" | "trunc" | "round" | "cos" | "sin" | "exp" | "log" | "pow" => {
                let id = match base { "floor" => UF_FLOOR, "ceil" => UF_CEIL, "trunc" => UF_TRUNC, "round" => UF_ROUND, "cos" => UF_COS, "sin" => UF_SIN, "exp" => UF_EXP, "log" => UF_LN, _ => UF_POW };
                let x = self.e(&av[0], w);
                let y = if av.len() > 1 { self.e(&av[1], w) } else { 0 };
                let r = self.ar.fop(Op::Uf, w, x, y, id);
                Ok(self.v(r))
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let (a, b) = if base.starts_with("min") { (&av[0], &av[1]) } else { (&av[1], &av[0]) };
                let lt = self.op2(Op::FLt, 1, w, a, b)?;
                let n0 = self.isnan(w, &av[0])?;
                let (le, ne) = (self.e(&lt, 1), self.e(&n0, 1));
                let n1 = self.isnan(w, &av[1])?;
                let ne1 = self.e(&n1, 1);
                let x = self.vite(le, &T::I(w), &av[0], &av[1])?;
                let x = self.vite(ne1, &T::I(w), &av[0], &x)?;
                self.vite(ne, &T::I(w), &av[1], &x)
            }
            "fptosi" | "fptoui" => {
                let x = self.e(&av[0], w);
                let r = self.ar.fop(if base == "fptosi" { Op::FToSiSat } else { Op::FToUiSat }, rt.bits(), x, 0, 0);
                Ok(self.v(r))
            }
            "powi" => {
                // compiler-rt's __powi?f2
                let n = self.concretize(s, &av[1], args[1].1.bits())?;
                let n = sext(n, args[1].1.bits()) as i64;
                let one = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
                let mut b = n;
                let mut a = av[0].clone();
                let mut r = V::C(one);
                loop {
                    if b & 1 != 0 { r = self.op2(Op::FMul, w, w, &r, &a)?; }
                    b /= 2;
                    if b == 0 { break; }
                    a = self.op2(Op::FMul, w, w, &a, &a)?;
                }
                if n < 0 { r = self.op2(Op::FDiv, w, w, &V::C(one), &r)?; }
                Ok(r)
            }
            "is" if i.starts_with("is.fpclass") => {
                let m = match &av[1] { V::C(k) => *k as u32, _ => return Err(End::Abort("fpclass".into())) };
                let (mb, eb) = if w == 32 { (23u16, 8u16) } else { (52, 11) };
                let x = self.e(&av[0], w);
                let man = self.ar.extract(x, 0, mb);
                let ex = self.ar.extract(x, mb, eb);
                let sg = self.ar.extract(x, w - 1, 1);
                let z = self.ar.cst(0, mb);
                let q = self.ar.cst(mask(eb), eb);
                let ez = self.ar.cst(0, eb);
                let man0 = self.ar.eq(man, z);
                let manq = self.ar.extract(man, mb - 1, 1);
                let exf = self.ar.eq(ex, q);
                let exz = self.ar.eq(ex, ez);
                let nm = self.ar.not(man0);
                let nsg = self.ar.not(sg);
                let nexf = self.ar.not(exf);
                let nexz = self.ar.not(exz);
                let nan = self.ar.and(exf, nm);
                let inf = self.ar.and(exf, man0);
                let zer = self.ar.and(exz, man0);
                let sub = self.ar.and(exz, nm);
                let nor = self.ar.and(nexf, nexz);
                let nmq = self.ar.not(manq);
                let snan = self.ar.and(nan, nmq);
                let qnan = self.ar.and(nan, manq);
                let mut r = self.ar.fls();
                let items = [(0, snan, 2), (1, qnan, 2), (2, inf, 1), (3, nor, 1), (4, sub, 1), (5, zer, 1), (6, zer, 0), (7, sub, 0), (8, nor, 0), (9, inf, 0)];
                for (b, e, sgn) in items {
                    if m & (1 << b) != 0 {
                        let t = match sgn { 2 => e, 1 => self.ar.and(e, sg), _ => self.ar.and(e, nsg) };
                        r = self.ar.or(r, t);
                    }
                }
                Ok(self.v(r))
            }
            _ => Err(End::Abort(format!("intrinsic llvm.{}", i))),
        }
    }
    fn minmax(&mut self, k: &str, w: u16, a: &V, b: &V) -> Rs<V> {
        let o = if k.starts_with('u') { Op::Ult } else { Op::Slt };
        let lt = self.op2(o, 1, w, a, b)?;
        let e = self.e(&lt, 1);
        if k.ends_with("min") { self.vite(e, &T::I(w), a, b) } else { self.vite(e, &T::I(w), b, a) }
    }
}

fn merge(m: &mut Vec<u128>, up: &[(u32, u128)]) {
    for &(v, x) in up {
        if m.len() <= v as usize { m.resize(v as usize + 1, 0); }
        m[v as usize] = x;
    }
}

pub fn is_panic(n: &str) -> bool {
    n.contains("core9panicking") || n.contains("rust_begin_unwind") || n.contains("17handle_alloc_error") || n.contains("rust_panic")
        || n.contains("3std9panicking") || n.contains("___rust_abort") || n.contains("8rust_oom") || n.contains("_7___rustc12___rust_abort")
}
