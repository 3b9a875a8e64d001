mod exec;
mod expr;
mod ir;
mod z3;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

struct Task { ir: String, entry: String, params: Vec<u64>, opts: HashMap<String, u64> }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut irs: Vec<(String, String)> = vec![];
    let (mut tasks_f, mut out_f) = (String::new(), String::new());
    let mut threads = 8usize;
    let mut time = 120u64;
    let mut fuel = 3_000_000u64;
    let mut paths = 10_000_000u64;
    let mut q1 = 3000u32;
    let mut q2 = 30000u32;
    let mut deadline = 100000u64;
    let mut keep = 0usize;
    let mut dumpdir = String::new();
    let mut worker = false;
    let mut i = 1;
    while i < args.len() {
        if args[i] == "--worker" { worker = true; i += 1; continue; }
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--ir" => { let (a, b) = args[i + 1].split_once('=').unwrap(); irs.push((a.into(), b.into())); }
            "--tasks" => tasks_f = v(),
            "--out" => out_f = v(),
            "--threads" => threads = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--fuel" => fuel = v().parse().unwrap(),
            "--paths" => paths = v().parse().unwrap(),
            "--q1" => q1 = v().parse().unwrap(),
            "--q2" => q2 = v().parse().unwrap(),
            "--deadline" => deadline = v().parse().unwrap(),
            "--keep-queries" => keep = v().parse().unwrap(),
            "--dump-dir" => dumpdir = v(),
            x => panic!("argument {}", x),
        }
        i += 2;
    }
    let mut tasks = vec![];
    for l in std::fs::read_to_string(&tasks_f).unwrap().lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.is_empty() || f[0].starts_with('#') { continue; }
        let mut params = vec![];
        let mut opts = HashMap::new();
        for x in &f[2..] {
            if let Some((k, v)) = x.split_once('=') { opts.insert(k.to_string(), v.parse().unwrap()); } else { params.push(x.parse::<u64>().unwrap()); }
        }
        tasks.push(Task { ir: f[0].into(), entry: f[1].into(), params, opts });
    }
    if worker {
        std::thread::spawn(|| loop {
            // a task running while memory is short gives up as incomplete
            let page = |f: &str| std::fs::read_to_string(f).unwrap_or_default();
            let rss = page("/proc/self/statm").split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096;
            let avail = page("/proc/meminfo").lines().find(|l| l.starts_with("MemAvailable"))
                .and_then(|l| l.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(1 << 30) * 1024;
            exec::MEM_HIGH.store(rss > 6 << 30 || (avail < 4 << 30 && rss > 3 << 29), Ordering::Relaxed);
            std::thread::sleep(Duration::from_millis(200));
        });
    let mods: HashMap<String, ir::Module> = irs.iter().map(|(n, p)| (n.clone(), ir::Module::load(p))).collect();
        let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
            let api = std::rc::Rc::new(z3::load_api());
            let mut inp = String::new();
            loop {
                inp.clear();
                if std::io::stdin().read_line(&mut inp).unwrap_or(0) == 0 { break; }
                let (k, tl) = inp.trim().split_once(' ').unwrap();
                let (k, tl): (usize, u64) = (k.parse().unwrap(), tl.parse().unwrap());
                let t = &tasks[k];
                let st = Instant::now();
                let m = match mods.get(&t.ir) { Some(m) => m, None => panic!("no ir {}", t.ir) };
                let lim = exec::Limits {
                    fuel: t.opts.get("fuel").copied().unwrap_or(fuel), time: Duration::from_secs(tl), paths, q_ms: q1, q2_ms: q2, max_viol: t.opts.get("maxviol").copied().unwrap_or(3) as usize,
                };
                let mut ex = exec::Exec::new(m, z3::Z::new(api.clone()), t.params.clone(), lim);
                ex.keep_queries = keep;
                ex.ar.abs_float = t.opts.get("abs").copied().unwrap_or(0) != 0;
                ex.loose = t.opts.get("loose").copied().unwrap_or(0) != 0;
                if ex.trace { ex.hot.insert("_".into(), 0); }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run(&t.entry)));
                if let Err(e) = r {
                    let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    ex.incomplete.push(format!("engine panic: {}", msg));
                }
                if !dumpdir.is_empty() {
                    let qs = std::mem::take(&mut ex.queries_dump);
                    for (j, (cs, sat)) in qs.iter().enumerate() {
                        let mut txt = format!("; expected {}\n", if *sat { "sat" } else { "unsat" });
                        txt += &ex.z.smt2(&ex.ar, cs);
                        txt += "(check-sat)\n";
                        let _ = std::fs::write(format!("{}/t{}_{}.smt2", dumpdir, k, j), txt);
                    }
                }
                if ex.trace {
                    let mut h: Vec<_> = ex.hot.iter().map(|(k, v)| (*v, ex.pretty(k))).collect();
                    h.sort();
                    for (c, n) in h.iter().rev().take(8) { eprintln!("hot {} {}", c, n); }
                }
                let s = &ex.st;
                let viols: Vec<String> = ex.violations.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"detail\":{},\"inputs\":[{}]}}", js(&v.kind), v.id, js(&v.detail),
                    v.inputs.iter().map(|(x, w)| format!("[\"{}\",{}]", x, w)).collect::<Vec<_>>().join(","))).collect();
                let funcs: Vec<String> = ex.entered.iter().map(|f| js(&ex.pretty(f))).collect();
                let line = format!("{{\"ir\":{},\"entry\":{},\"params\":{:?},\"wall_s\":{:.3},\"paths\":{},\"killed\":{},\"instrs\":{},\"forks\":{},\"queries\":{},\"cached\":{},\"interval\":{},\"unsat\":{},\"sat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"asserts\":{},\"asserts_solver\":{},\"asserts_ring\":{},\"asserts_const\":{},\"covers\":{:?},\"incomplete\":[{}],\"violations\":[{}],\"samples\":[{}],\"stuck\":[{}],\"functions\":[{}]}}",
                    js(&t.ir), js(&t.entry), t.params, st.elapsed().as_secs_f64(), s.paths, s.pruned, s.instrs, s.forks, s.queries, s.cached, s.interval, s.unsat, s.sat, s.solver_s, s.max_q,
                    s.asserts, s.asserts_solver, s.asserts_ring, s.asserts_const, ex.covers.iter().collect::<Vec<_>>(),
                    ex.incomplete.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), viols.join(","),
                    ex.samples.iter().map(|v| format!("[{}]", v.iter().map(|(x, w)| format!("[\"{}\",{}]", x, w)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","),
                    ex.stuck.iter().map(|v| format!("[{}]", v.iter().map(|(x, w)| format!("[\"{}\",{}]", x, w)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","), funcs.join(","));
                println!("{}", line);
            }
        }).unwrap();
        std::process::exit(if h.join().is_err() { 3 } else { 0 });
    }
    // Every worker is a process: a solver that crashes or ignores its time limit costs one task at most.
    let tasks = Arc::new(tasks);
    let next = Arc::new(AtomicUsize::new(0));
    let out: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(vec![]));
    // entries on which tasks already ran out of steps: later tasks get less time
    let hung: Arc<Mutex<HashMap<String, usize>>> = Arc::new(Mutex::new(HashMap::new()));
    let t0 = Instant::now();
    let mut hs = vec![];
    for _ in 0..threads.min(tasks.len().max(1)) {
        let (tasks, next, out, hung, args) = (tasks.clone(), next.clone(), out.clone(), hung.clone(), args.clone());
        hs.push(std::thread::spawn(move || {
            let start = || {
                let mut c = std::process::Command::new(std::env::current_exe().unwrap()).args(&args[1..]).arg("--worker")
                    .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().unwrap();
                let (tx, rx) = std::sync::mpsc::channel::<String>();
                let o = c.stdout.take().unwrap();
                std::thread::spawn(move || {
                    for l in std::io::BufReader::new(o).lines() { match l { Ok(l) => if tx.send(l).is_err() { break }, Err(_) => break } }
                });
                let i = c.stdin.take().unwrap();
                (c, i, rx)
            };
            let mut w = start();
            loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= tasks.len() { break; }
                let t = &tasks[k];
                let key = format!("{} {}", t.ir, t.entry);
                let mut why = String::new();
                let mut done = false;
                for _ in 0..2 {
                    let left = deadline.saturating_sub(t0.elapsed().as_secs());
                    let tl = t.opts.get("time").copied().unwrap_or(time).min(left);
                    let tl = if hung.lock().unwrap().get(&key).copied().unwrap_or(0) >= 2 { tl.min(4) } else { tl };
                    let r = if writeln!(w.1, "{} {}", k, tl).is_ok() { w.2.recv_timeout(Duration::from_secs(tl + 100)).map_err(|e| e.to_string()) } else { Err("worker gone".into()) };
                    match r {
                        Ok(l) => {
                            if l.contains("\"kind\":\"hang\"") { *hung.lock().unwrap().entry(key.clone()).or_insert(0) += 1; }
                            out.lock().unwrap().push((k, l));
                            done = true;
                            break;
                        }
                        Err(e) => {
                            let _ = w.0.kill();
                            let st = w.0.wait();
                            why = format!("worker lost ({}, {:?})", e, st);
                            eprintln!("{} on task {} {} {:?}", why, t.ir, t.entry, t.params);
                            w = start();
                            if e.contains("timed out") { break; }
                        }
                    }
                }
                if !done {
                    out.lock().unwrap().push((k, format!("{{\"ir\":{},\"entry\":{},\"params\":{:?},\"wall_s\":0,\"paths\":0,\"killed\":0,\"instrs\":0,\"forks\":0,\"queries\":0,\"cached\":0,\"interval\":0,\"unsat\":0,\"sat\":0,\"solver_s\":0,\"max_query_s\":0,\"asserts\":0,\"asserts_solver\":0,\"asserts_ring\":0,\"asserts_const\":0,\"covers\":[],\"incomplete\":[{}],\"violations\":[],\"samples\":[],\"stuck\":[],\"functions\":[]}}", js(&t.ir), js(&t.entry), t.params, js(&why))));
                }
            }
            drop(w.1);
            let _ = w.0.kill();
            let _ = w.0.wait();
        }));
    }
    for h in hs { if h.join().is_err() { eprintln!("worker died"); std::process::exit(3); } }
    let mut o = out.lock().unwrap();
    o.sort();
    let api = z3::load_api();
    let mut txt = format!("{{\"z3\":{},\"wall_s\":{:.3},\"tasks\":[\n", js(&z3::version(&api)), t0.elapsed().as_secs_f64());
    txt += &o.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",\n");
    txt += "\n]}\n";
    if out_f.is_empty() { println!("{}", txt); } else { std::fs::File::create(&out_f).unwrap().write_all(txt.as_bytes()).unwrap(); }
}
