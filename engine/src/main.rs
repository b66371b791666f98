//! symex: bounded symbolic execution of LLVM IR compiled from the real code.
mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod order;
mod z3;
use exec::*;
use std::sync::atomic::Ordering::*;
use std::sync::atomic::AtomicU32;
use std::time::{Duration, Instant};
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, opt: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn _exit(c: i32) -> !;
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    h.join().ok();
}
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) };
    let file = get("--ir").expect("--ir FILE");
    let entries: Vec<String> = get("--entry").expect("--entry NAME[,NAME]").split(',').map(|s| s.to_string()).collect();
    let outdir = get("--out").expect("--out DIR");
    let timeout: u64 = get("--timeout").map(|s| s.parse().unwrap()).unwrap_or(600);
    let jobs: i64 = get("--jobs").map(|s| s.parse().unwrap()).unwrap_or(8);
    let maxi: u64 = get("--max-instrs").map(|s| s.parse().unwrap()).unwrap_or(400_000_000);
    let rlimit: u32 = get("--rlimit").map(|s| s.parse().unwrap()).unwrap_or(400_000_000);
    let fp = a.iter().any(|x| x == "--fp");
    let verbose = a.iter().any(|x| x == "-v");
    std::fs::create_dir_all(&outdir).unwrap();
    let t0 = Instant::now();
    let prog = match ir::Tr::load(&file, mem::GLOBALS) { Ok(p) => p, Err(e) => { eprintln!("symex: {e}"); std::process::exit(3); } };
    if prog.globals_end >= mem::STACK { eprintln!("globals too large"); std::process::exit(3); }
    let load_s = t0.elapsed().as_secs_f64();
    if verbose { eprintln!("loaded {} functions, {} instructions in {:.1}s", prog.funcs.len(), prog.code.len(), load_s); }
    let nf = prog.funcs.len();
    let mut rc = 0;
    for entry in entries {
        let out = format!("{outdir}/{entry}");
        std::fs::create_dir_all(&out).unwrap();
        if let Ok(rd) = std::fs::read_dir(&out) { for e in rd.flatten() { if e.file_name().to_string_lossy().starts_with("sample-") { let _ = std::fs::remove_file(e.path()); } } }
        for f in ["values.txt", "violation.txt", "inconclusive.txt", "error.txt", "error-values.txt"] { let _ = std::fs::remove_file(format!("{out}/{f}")); }
        let Some(fi) = prog.funcs.iter().position(|f| f.name == entry && f.defined) else { eprintln!("symex: entry {entry} not found"); std::process::exit(3); };
        let ctl: &'static Ctl = unsafe { &*(mem::map(0, std::mem::size_of::<Ctl>(), true) as *const Ctl) };
        let fexec = mem::map(0, nf, true);
        let ff = mem::map(0, nf * 4, true) as *const AtomicU32;
        let fforks: &'static [AtomicU32] = unsafe { std::slice::from_raw_parts(ff, nf) };
        ctl.active.store(1, SeqCst);
        ctl.started.store(1, SeqCst);
        let t1 = Instant::now();
        unsafe {
            prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
            let pid = fork();
            if pid == 0 {
                setpgid(0, 0);
                let mut e = Exec::new(&prog, ctl, fexec, fforks, jobs, maxi, rlimit, fp, out.clone());
                e.verbose = verbose;
                let end = e.run(fi as u32);
                e.finish(end);
            }
            setpgid(pid, pid);
            let mut timed_out = false;
            let mut killed = false;
            let mut stop_at: Option<Instant> = None;
            loop {
                let mut st = 0;
                let r = waitpid(-1, &mut st, 1);
                if r < 0 { break; }
                if r > 0 { if st != 0 && !killed { ctl.abnormal.fetch_add(1, SeqCst); } continue; }
                std::thread::sleep(Duration::from_millis(2));
                if !timed_out && t1.elapsed().as_secs() >= timeout { timed_out = true; ctl.stop.store(2, SeqCst); }
                if ctl.stop.load(SeqCst) != 0 && stop_at.is_none() { stop_at = Some(Instant::now()); }
                if let Some(s) = stop_at { if s.elapsed().as_millis() > 1500 && !killed { killed = true; kill(-pid, 9); } }
            }
            let l = |x: &std::sync::atomic::AtomicU64| x.load(SeqCst);
            let status = if l(&ctl.violations) > 0 { "violation" } else if l(&ctl.errors) > 0 { "error" } else if timed_out { "timeout" }
                else if l(&ctl.abnormal) > 0 || l(&ctl.started) != l(&ctl.finished) { "crash" } else if l(&ctl.inconclusive) > 0 { "inconclusive" } else { "held" };
            let funcs: Vec<&str> = (0..nf).filter(|&i| *fexec.add(i) != 0).map(|i| prog.funcs[i].name.as_str()).collect();
            let mut hot: Vec<(u32, &str)> = (0..nf).map(|i| (fforks[i].load(SeqCst), prog.funcs[i].name.as_str())).filter(|x| x.0 > 0).collect();
            hot.sort_by(|a, b| b.0.cmp(&a.0));
            hot.truncate(25);
            let cov: Vec<String> = (0..NCOVER).filter(|&i| l(&ctl.cover[i]) > 0).map(|i| i.to_string()).collect();
            let s = format!(
                "{{\"entry\":{},\"status\":{},\"wall_s\":{:.2},\"load_s\":{:.2},\"paths_completed\":{},\"paths_infeasible\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"integer_queries\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"instructions\":{},\"symbolic_inputs_max\":{},\"inconclusive\":{},\"abnormal\":{},\"cover\":[{}],\"solver\":{},\"fork_sites\":[{}],\"functions\":[{}]}}",
                json_str(&entry), json_str(status), t1.elapsed().as_secs_f64(), load_s, l(&ctl.completed), l(&ctl.infeasible), l(&ctl.forks), l(&ctl.queries), l(&ctl.sat), l(&ctl.unsat), l(&ctl.order),
                l(&ctl.solver_us) as f64 / 1e6, l(&ctl.max_query_us) as f64 / 1e6, l(&ctl.instrs), l(&ctl.max_syms), l(&ctl.inconclusive), l(&ctl.abnormal), cov.join(","),
                json_str(&z3::version()),
                hot.iter().map(|(n, f)| format!("[{n},{}]", json_str(f))).collect::<Vec<_>>().join(","),
                funcs.iter().map(|f| json_str(f)).collect::<Vec<_>>().join(","));
            std::fs::write(format!("{out}/summary.json"), &s).unwrap();
            if verbose {
                eprintln!("{}", &s[..s.find(",\"functions\"").unwrap()]);
                for f in ["violation.txt", "error.txt", "inconclusive.txt"] { if let Ok(t) = std::fs::read_to_string(format!("{out}/{f}")) { eprintln!("--- {f}\n{t}"); } }
            }
            println!("{entry}: {status}");
            if status != "held" { rc = if status == "violation" { 1 } else { 2 }; }
        }
    }
    let _ = _exit as usize;
    std::process::exit(rc);
}
