mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::Instant;

pub fn demangle(n: &str) -> String {
    // crude v0 demangling: keep the identifiers
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' && (b[i - 1].is_ascii_alphabetic() || b[i - 1] == b'_' || b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut k = j;
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if k + l <= b.len() && l > 0 {
                parts.push(n[k..k + l].to_string());
                i = k + l;
                continue;
            }
            i = j;
        } else if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    parts.join("::")
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
}

#[derive(Default)]
struct Res {
    status: String, // ok | violation | error
    nums: Vec<(String, f64)>,
    covers: BTreeSet<u64>,
    funcs: BTreeSet<u32>,
    viol: Option<String>, // json
    samples: Vec<String>,
}

fn evs(ev: &[exec::Ev]) -> String {
    let v: Vec<String> = ev.iter().map(|e| format!("[{},{},\"{}\",{}]", e.t, e.n, e.k, e.to)).collect();
    format!("[{}]", v.join(","))
}
fn ins(v: &[u128]) -> String {
    let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

fn result(e: &exec::Eng, viol: Option<exec::Viol>, timeout: bool) -> Res {
    let mut r = Res::default();
    r.status = "ok".into();
    if timeout {
        r.status = "error".into();
        r.viol = Some(format!("{{\"kind\":\"timeout\",\"msg\":\"time limit reached with {} states pending\"}}", e.work.len()));
    }
    if let Some(v) = viol {
        r.status = if v.kind == "engine-error" { "error".into() } else { "violation".into() };
        let st: Vec<String> = v.stack.iter().map(|s| js(s)).collect();
        r.viol = Some(format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"sched\":{},\"stack\":[{}]}}", js(&v.kind), js(&v.msg), ins(&v.inputs), evs(&v.ev), st.join(",")));
    }
    let s = &e.solver;
    for (k, v) in [
        ("paths", e.paths as f64),
        ("infeasible", e.dead as f64),
        ("deduped", e.deduped as f64),
        ("forks", e.forks as f64),
        ("switches", e.switches as f64),
        ("instructions", e.insts as f64),
        ("assertions", e.checks as f64),
        ("assertions_symbolic", e.checks_sym as f64),
        ("queries", s.queries as f64),
        ("queries_sat", s.sat as f64),
        ("queries_unsat", s.unsat as f64),
        ("queries_cached", s.cache_hits as f64),
        ("solver_s", s.secs),
    ] {
        r.nums.push((k.into(), v));
    }
    for (k, v) in [("max:vars", e.max_vars as f64), ("max:threads", e.max_threads as f64), ("max:query_s", s.max_secs)] {
        r.nums.push((k.into(), v));
    }
    r.covers = e.covers.clone();
    for (i, x) in e.executed.iter().enumerate() {
        if *x {
            r.funcs.insert(i as u32);
        }
    }
    for s in &e.samples {
        r.samples.push(format!("{{\"inputs\":{},\"sched\":{},\"log\":{}}}", ins(&s.inputs), evs(&s.ev), ins(&s.log)));
    }
    r
}
fn write_res(p: &str, r: &Res) {
    let mut o = String::new();
    let _ = writeln!(o, "status {}", r.status);
    for (k, v) in &r.nums {
        let _ = writeln!(o, "num {} {}", k, v);
    }
    for c in &r.covers {
        let _ = writeln!(o, "cover {}", c);
    }
    for f in &r.funcs {
        let _ = writeln!(o, "fn {}", f);
    }
    if let Some(v) = &r.viol {
        let _ = writeln!(o, "viol {}", v);
    }
    for s in &r.samples {
        let _ = writeln!(o, "sample {}", s);
    }
    let _ = writeln!(o, "end");
    std::fs::write(p, o).unwrap();
}
fn read_res(p: &str) -> Option<Res> {
    let t = std::fs::read_to_string(p).ok()?;
    if !t.ends_with("end\n") {
        return None;
    }
    let mut r = Res::default();
    for l in t.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "status" => r.status = v.into(),
            "num" => {
                let (a, b) = v.split_once(' ').unwrap();
                r.nums.push((a.into(), b.parse().unwrap()));
            }
            "cover" => {
                r.covers.insert(v.parse().unwrap());
            }
            "fn" => {
                r.funcs.insert(v.parse().unwrap());
            }
            "viol" => r.viol = Some(v.into()),
            "sample" => r.samples.push(v.into()),
            _ => {}
        }
    }
    Some(r)
}
fn merge(a: &mut Res, b: Res) {
    let rank = |s: &str| match s {
        "ok" => 0,
        "error" => 1,
        _ => 2,
    };
    if rank(&b.status) > rank(&a.status) {
        a.status = b.status;
        a.viol = b.viol;
    }
    for (k, v) in b.nums {
        match a.nums.iter_mut().find(|x| x.0 == k) {
            Some(x) => {
                if k.starts_with("max:") {
                    x.1 = x.1.max(v)
                } else {
                    x.1 += v
                }
            }
            None => a.nums.push((k, v)),
        }
    }
    a.covers.extend(b.covers);
    a.funcs.extend(b.funcs);
    a.samples.extend(b.samples);
}

fn rename(l: &str, ren: &[(&str, &str)]) -> String {
    let b = l.as_bytes();
    let mut o = String::with_capacity(l.len() + 16);
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'@' {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.' || b[j] == b'$') {
                j += 1;
            }
            match ren.iter().find(|r| r.0 == &l[i..j]) {
                Some(r) => o.push_str(r.1),
                None => o.push_str(&l[i..j]),
            }
            i = j;
        } else {
            let s = i;
            while i < b.len() && b[i] != b'@' {
                i += 1;
            }
            o.push_str(&l[s..i]);
        }
    }
    o
}

fn instrument(inp: &str, out: &str) {
    let t = std::fs::read_to_string(inp).unwrap();
    let mut o = String::with_capacity(t.len() + t.len() / 10);
    let ren = [
        ("@syscall", "@vp_n_syscall"),
        ("@sched_yield", "@vp_n_yield"),
        ("@llvm.x86.sse2.pause", "@vp_n_pause"),
        ("@pthread_create", "@vp_n_pthread_create"),
        ("@pthread_join", "@vp_n_pthread_join"),
        ("@pthread_detach", "@vp_n_pthread_detach"),
        ("@malloc", "@vp_n_malloc"),
        ("@calloc", "@vp_n_calloc"),
        ("@realloc", "@vp_n_realloc"),
        ("@free", "@vp_n_free"),
        ("@posix_memalign", "@vp_n_posix_memalign"),
        ("@nanosleep", "@vp_n_nanosleep"),
        ("@clock_nanosleep", "@vp_n_nanosleep"),
        ("@open64", "@vp_n_enoent"),
        ("@open", "@vp_n_enoent"),
        ("@statx", "@vp_n_enoent"),
        ("@stat64", "@vp_n_enoent"),
        ("@fstat64", "@vp_n_enoent"),
        ("@readlink", "@vp_n_enoent"),
        ("@sched_getaffinity", "@vp_n_enoent"),
        ("@getrandom", "@vp_n_getrandom"),
        ("@getenv", "@vp_n_null"),
        ("@dlsym", "@vp_n_null"),
        ("@getauxval", "@vp_n_null"),
        ("@pthread_self", "@vp_n_self"),
        ("@gettid", "@vp_n_self"),
        ("@pthread_key_create", "@vp_n_key_create"),
        ("@pthread_getspecific", "@vp_n_getspecific"),
        ("@pthread_setspecific", "@vp_n_setspecific"),
        ("@pthread_attr_init", "@vp_n_zero"),
        ("@pthread_attr_setstacksize", "@vp_n_zero"),
        ("@pthread_attr_destroy", "@vp_n_zero"),
        ("@pthread_setname_np", "@vp_n_zero"),
        ("@prctl", "@vp_n_zero"),
        ("@sysconf", "@vp_n_sysconf"),
        ("@clock_gettime", "@vp_n_clock_gettime"),
        ("@write", "@vp_n_write"),
    ];
    // symbols by suffix -> replacement callee
    let mut panic_syms: Vec<(String, &str)> = vec![];
    for l in t.lines() {
        if l.starts_with("define ") {
            if let Some(i) = l.find('@') {
                let e = l[i..].find('(').unwrap() + i;
                let n = &l[i + 1..e];
                let n = n.trim_matches('"');
                if n.ends_with("17rust_begin_unwind") {
                    panic_syms.push((n.into(), "vp_n_panic"));
                } else if n.contains("12futures_util") && n.ends_with("9gen_index") {
                    panic_syms.push((n.into(), "vp_choose"));
                } else if n.ends_with("7___rustc12___rust_alloc") || n.ends_with("7___rustc19___rust_alloc_zeroed") {
                    panic_syms.push((n.into(), "vp_n_ralloc"));
                } else if n.ends_with("7___rustc14___rust_realloc") {
                    panic_syms.push((n.into(), "vp_n_rrealloc"));
                } else if n.ends_with("4core9panicking14panic_nounwind") || n.ends_with("4core9panicking18panic_nounwind_fmt") || n.ends_with("4core9panicking30panic_nounwind_nobacktrace") || n.ends_with("4core9panicking19panic_cannot_unwind") || n.ends_with("4core9panicking16panic_in_cleanup") {
                    panic_syms.push((n.into(), "vp_n_abort"));
                }
            }
        }
    }
    let mut have_choose = false;
    let mut declared: BTreeSet<String> = BTreeSet::new();
    for l in t.lines() {
        let tr = l.trim_start();
        let body = l.starts_with("  ");
        if body {
            let opc = match tr.split_once(" = ") {
                Some((d, r)) if d.starts_with('%') => r,
                _ => tr,
            };
            let vis = opc.starts_with("atomicrmw ") || opc.starts_with("cmpxchg ") || opc.starts_with("load atomic ") || opc.starts_with("store atomic ") || (opc.starts_with("fence ") && !opc.contains("singlethread"));
            if vis {
                o.push_str("  call void @vp_n_sp()\n");
            }
        }
        let mut line = l.replace("@__cxa_thread_atexit_impl", "@vp_n_atexit");
        if l.contains('@') {
            line = rename(&line, &ren);
            if !l.starts_with("define ") {
                for (n, r) in &panic_syms {
                    if line.contains(n.as_str()) {
                        for pat in [format!("@{}(", n), format!("@\"{}\"(", n)] {
                            line = line.replace(&pat, &format!("@{}(", r));
                        }
                    }
                }
            }
        }
        if line.starts_with("declare ") {
            if line.contains("@vp_choose(") {
                have_choose = true;
            }
            if let Some(i) = line.find("@vp_n_") {
                let e = line[i..].find('(').unwrap() + i;
                if !declared.insert(line[i..e].to_string()) {
                    continue;
                }
            }
            line = line.replace("declare extern_weak", "declare");
        }
        o.push_str(&line);
        o.push('\n');
    }
    o.push_str("declare void @vp_n_sp()\n");
    let mut done = BTreeSet::new();
    for (_, r) in &panic_syms {
        if done.insert(*r) {
            match *r {
                "vp_choose" => {
                    if !have_choose {
                        o.push_str("declare i64 @vp_choose(i64)\n")
                    }
                }
                "vp_n_ralloc" => o.push_str("declare ptr @vp_n_ralloc(i64, i64)\n"),
                "vp_n_rrealloc" => o.push_str("declare ptr @vp_n_rrealloc(ptr, i64, i64, i64)\n"),
                r => {
                    let _ = writeln!(o, "declare void @{}(...)", r);
                }
            }
        }
    }
    std::fs::write(out, o).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--instrument") {
        instrument(&args[2], &args[3]);
        return;
    }
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::from("/dev/stdout");
    let mut jobs = 1usize;
    let mut max_time = 600.0f64;
    let mut o = exec::Opts { preempt: 2, fair: 300, race: false, dedupe: true, max_steps: 3_000_000, params: vec![], samples: 3, trace: false };
    let mut i = 1;
    while i < args.len() {
        let nx = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--time" => max_time = nx().parse().unwrap(),
            "--fair" => o.fair = nx().parse().unwrap(),
            "--preempt" => o.preempt = nx().parse().unwrap(),
            "--steps" => o.max_steps = nx().parse().unwrap(),
            "--samples" => o.samples = nx().parse().unwrap(),
            "--param" => o.params.push(nx().parse().unwrap()),
            "--race" => {
                o.race = true;
                i += 1;
                continue;
            }
            "--no-dedupe" => {
                o.dedupe = false;
                i += 1;
                continue;
            }
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("ll file");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::parse(text).expect("parse")));
    let mut e = exec::Eng::new(m, o);
    let init = match e.initial(&entry) {
        Ok(s) => s,
        Err(x) => {
            eprintln!("{}", x);
            std::process::exit(2);
        }
    };
    e.work.push_back(init);
    let mut viol = None;
    let mut timeout = false;
    // breadth first until there is enough to distribute
    let target = if jobs > 1 { jobs * 8 } else { 1 };
    let mut n0 = 0;
    while let Some(s) = e.work.pop_front() {
        if jobs > 1 && e.work.len() + 1 >= target && n0 > 4 {
            e.work.push_front(s);
            break;
        }
        n0 += 1;
        if let Err(v) = e.run(s) {
            viol = Some(v);
            break;
        }
        if jobs == 1 && e.work.len() > 1 {
            break;
        }
        if t0.elapsed().as_secs_f64() > max_time {
            timeout = true;
            break;
        }
    }
    let dfs = |e: &mut exec::Eng| -> (Option<exec::Viol>, bool) {
        while let Some(s) = e.work.pop_back() {
            if let Err(v) = e.run(s) {
                return (Some(v), false);
            }
            if t0.elapsed().as_secs_f64() > max_time {
                return (None, true);
            }
        }
        (None, false)
    };
    let mut res;
    if viol.is_some() || timeout || e.work.is_empty() {
        res = result(&e, viol, timeout);
    } else if jobs <= 1 {
        let (v, t) = dfs(&mut e);
        res = result(&e, v, t);
    } else {
        let all: Vec<exec::State> = e.work.drain(..).collect();
        res = result(&e, None, false);
        let mut kids = vec![];
        std::io::stdout().flush().ok();
        for j in 0..jobs {
            let p = format!("{}.{}.part", out, j);
            let _ = std::fs::remove_file(&p);
            let pid = unsafe { fork() };
            if pid == 0 {
                e.samples.clear();
                e.paths = 0;
                e.dead = 0;
                e.deduped = 0;
                e.forks = 0;
                e.switches = 0;
                e.insts = 0;
                e.checks = 0;
                e.checks_sym = 0;
                let s = &mut e.solver;
                s.queries = 0;
                s.sat = 0;
                s.unsat = 0;
                s.cache_hits = 0;
                s.secs = 0.0;
                for (k, s) in all.into_iter().enumerate() {
                    if k % jobs == j {
                        e.work.push_back(s);
                    }
                }
                let (v, t) = dfs(&mut e);
                let r = result(&e, v, t);
                write_res(&p, &r);
                unsafe { _exit(0) }
            }
            kids.push((pid, p));
        }
        for (pid, p) in kids {
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            match read_res(&p) {
                Some(r) => merge(&mut res, r),
                None => {
                    if res.status == "ok" {
                        res.status = "error".into();
                        res.viol = Some(format!("{{\"kind\":\"crash\",\"msg\":\"worker ended with status {}\"}}", st));
                    }
                }
            }
            let _ = std::fs::remove_file(&p);
        }
    }
    let mut j = String::new();
    let _ = write!(j, "{{\"entry\":{},\"status\":{},\"wall_s\":{:.3},\"solver\":{}", js(&entry), js(&res.status), t0.elapsed().as_secs_f64(), js(&solver::Solver::version()));
    for (k, v) in &res.nums {
        let _ = write!(j, ",{}:{}", js(k.trim_start_matches("max:")), v);
    }
    let c: Vec<String> = res.covers.iter().map(|x| x.to_string()).collect();
    let _ = write!(j, ",\"covers\":[{}]", c.join(","));
    let f: Vec<String> = res.funcs.iter().map(|x| js(&m.fnames[*x as usize])).collect();
    let _ = write!(j, ",\"functions\":[{}]", f.join(","));
    let _ = write!(j, ",\"samples\":[{}]", res.samples.join(","));
    if let Some(v) = &res.viol {
        let _ = write!(j, ",\"violation\":{}", v);
    }
    j.push_str("}\n");
    std::fs::write(&out, j).unwrap();
    // leave without running destructors of the large structures
    std::io::stdout().flush().ok();
    unsafe { _exit(0) }
}
