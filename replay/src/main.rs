// Native replay of one harness on recorded inputs.
//   replay ENTRY 'p0 p1 ..' 'v0 v1 ..'
// exit 0: ran to the end; 10: an assertion failed; 11: the code panicked where it
// must not; 12: an assumption does not hold (the inputs are not admissible);
// 13: the inputs ran out.
#[path = "../../harness/src/all.rs"]
mod all;
#[macro_use]
pub mod api {
    pub use crate::all::api::*;
}
use std::sync::Mutex;

struct S {
    params: Vec<u64>,
    inputs: Vec<u128>,
    pos: usize,
    panic_ok: bool,
}
static ST: Mutex<S> = Mutex::new(S { params: vec![], inputs: vec![], pos: 0, panic_ok: false });

fn next() -> u128 {
    let mut s = ST.lock().unwrap();
    if s.pos >= s.inputs.len() {
        println!("INPUTS-EXHAUSTED");
        std::process::exit(13);
    }
    s.pos += 1;
    s.inputs[s.pos - 1]
}
macro_rules! anys {
    ($($n:ident $t:ty),*) => { $(#[no_mangle] pub extern "C" fn $n() -> $t { next() as $t })* };
}
anys!(v_any_u8 u8, v_any_u16 u16, v_any_u32 u32, v_any_u64 u64, v_any_u128 u128);
#[no_mangle]
pub extern "C" fn v_choose(n: u64) -> u64 {
    let v = next() as u64;
    v_assume(v < n);
    v
}
#[no_mangle]
pub extern "C" fn v_param(i: u64) -> u64 {
    ST.lock().unwrap().params[i as usize]
}
#[no_mangle]
pub extern "C" fn v_assume(c: bool) {
    if !c {
        println!("ASSUME");
        std::process::exit(12);
    }
}
#[no_mangle]
pub extern "C" fn v_assert(c: bool, id: u64) {
    if !c {
        println!("ASSERT {}", id);
        std::process::exit(10);
    }
}
#[no_mangle]
pub extern "C" fn v_cover(_id: u64) {}
#[no_mangle]
pub extern "C" fn v_allow_panic(c: bool) {
    ST.lock().unwrap().panic_ok = c;
}
#[no_mangle]
pub extern "C" fn v_end() {
    println!("OK");
    std::process::exit(0);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    {
        let mut s = ST.lock().unwrap();
        s.params = a[2].split_whitespace().map(|x| x.parse().unwrap()).collect();
        s.inputs = a[3].split_whitespace().map(|x| x.parse().unwrap()).collect();
    }
    std::panic::set_hook(Box::new(|i| {
        let ok = ST.lock().unwrap().panic_ok;
        println!("PANIC{} {}", if ok { "-OK" } else { "" }, i);
        std::process::exit(if ok { 0 } else { 11 });
    }));
    for t in all::tables() {
        for (n, f) in t.iter() {
            if *n == a[1] {
                f();
                println!("OK");
                return;
            }
        }
    }
    println!("NO-ENTRY");
    std::process::exit(14);
}
