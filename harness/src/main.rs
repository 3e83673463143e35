//! `harness run ID` decides one property; see DESIGN.md.

mod dict;
mod emit;
mod gens;
mod large;
mod model;
mod props;
mod runner;
mod urlmodel;
mod vlq;

use runner::*;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// Refuses single allocations that no case of these sizes can need, so that a
/// runaway allocation ends this process instead of the machine's memory.
struct Capped;
const CAP: usize = 512 << 20;

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > CAP {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Capped = Capped;

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map_or(1, |v| v as u64)
}

fn context(p: &Property, tier: &str, trace: Option<PathBuf>) -> Ctx {
    Ctx {
        id: p.id,
        seed: seed(),
        thorough: tier == "thorough",
        threads: std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize).clamp(1, 64),
        scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
            * if tier == "thorough" { 8.0 } else { 5.0 },
        trace,
    }
}

/// Runs this program again; its output goes straight through.
fn again(args: &[&str], quiet: bool) -> std::io::Result<std::process::ExitStatus> {
    let mut c = Command::new(std::env::current_exe()?);
    c.args(args);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    c.status()
}

fn died(s: &std::process::ExitStatus) -> bool {
    s.signal().map_or(false, |n| n != libc_sigkill())
}

const fn libc_sigkill() -> i32 {
    9
}

/// Whether one case does not end within so many seconds.
fn hangs(id: &str, suite: &str, case: &Value, dir: &Path, seconds: u64) -> bool {
    let f = dir.join("one.json");
    let v = json!({"property": id, "suite": suite, "case": case});
    if std::fs::write(&f, v.to_string()).is_err() {
        return false;
    }
    let Ok(exe) = std::env::current_exe() else { return false };
    let Ok(mut c) = Command::new(exe).arg("one").arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).spawn() else {
        return false;
    };
    for _ in 0..seconds * 20 {
        if !matches!(c.try_wait(), Ok(None)) {
            return false;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    let _ = c.kill();
    let _ = c.wait();
    true
}

/// A case did not end: try it again alone, make it smaller, report it.
fn hung(p: &Property, tier: &str, dir: &Path, note: &Path) -> i32 {
    let n = match load(&note.display().to_string()) {
        Ok(n) => n,
        Err(e) => {
            eprintln!("ERROR: a case did not end, but left no note: {}", e);
            return 2;
        }
    };
    let name = n["suite"].as_str().unwrap_or("");
    let Some(s) = p.suites.iter().find(|s| s.name() == name) else {
        eprintln!("ERROR: no suite {}", name);
        return 2;
    };
    let original = n["case"].clone();
    if !hangs(p.id, name, &original, dir, 60) {
        eprintln!("ERROR: inconclusive, a case of {} did not end once: {}", name, original);
        return 2;
    }
    let ctx = context(p, tier, None);
    let idx = n["idx"].as_u64().unwrap_or(u64::MAX);
    let until = t0().elapsed().as_secs() + 100;
    let mut best = original.clone();
    if idx != u64::MAX {
        let b = s.shrink_external(&ctx, idx, &mut |c| {
            t0().elapsed().as_secs() < until && hangs(p.id, name, c, dir, 5)
        });
        if let Some(b) = b.filter(|b| hangs(p.id, name, b, dir, 30)) {
            best = b;
        }
    }
    report(p, tier, Failure {
        suite: s.name(),
        idx,
        case: best,
        original,
        message: "a request does not end (one such case takes milliseconds)".into(),
        shrinks: 0,
    })
}

fn report(p: &Property, tier: &str, f: Failure) -> i32 {
    let ctx = context(p, tier, None);
    let path = write_replay(p.id, &f, ctx.seed);
    println!("{}: {} [{}]", p.id, f.message, f.suite);
    println!("  case: {}", f.case);
    println!("VIOLATION property={} replay={}", p.id, path.display());
    write_evidence(p, &ctx, &[], 0, t0().elapsed().as_secs_f64(), 1);
    1
}

/// Whether one case brings the process down.
fn crashes(id: &str, suite: &str, case: &Value, dir: &Path) -> bool {
    let f = dir.join("one.json");
    let v = json!({"property": id, "suite": suite, "case": case});
    if std::fs::write(&f, v.to_string()).is_err() {
        return false;
    }
    match again(&["one", &f.display().to_string()], true) {
        Ok(s) => died(&s),
        Err(_) => false,
    }
}

fn run(p: &Property, tier: &str) -> i32 {
    let dir = std::env::temp_dir().join(format!("verif-run-{}-{}", p.id, std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("ERROR: {}: {}", dir.display(), e);
        return 2;
    }
    let note = dir.join("note.json");
    std::env::set_var("VERIF_NOTE", &note);
    let code = match again(&["worker", p.id, tier], false) {
        Err(e) => {
            eprintln!("ERROR: cannot start the worker: {}", e);
            2
        }
        Ok(s) if s.code() == Some(HUNG) => hung(p, tier, &dir, &note),
        Ok(s) if s.code().is_some() => s.code().unwrap_or(2),
        Ok(s) if died(&s) => {
            // Aborted (allocation beyond the cap, stack overflow): find the case.
            eprintln!("{}: the worker died ({:?}); running again with a trace", p.id, s);
            locate(p, tier, &dir)
        }
        Ok(s) => {
            eprintln!("ERROR: the worker was ended: {:?}", s);
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn locate(p: &Property, tier: &str, dir: &Path) -> i32 {
    match again(&["worker", p.id, tier, &dir.display().to_string()], true) {
        Ok(s) if died(&s) => {}
        o => {
            eprintln!("ERROR: the death did not recur: {:?}", o);
            return 2;
        }
    }
    let mut notes: Vec<Value> = std::fs::read_dir(dir)
        .map(|d| {
            d.filter_map(|e| std::fs::read(e.ok()?.path()).ok())
                .filter_map(|b| serde_json::from_slice(&b).ok())
                .collect()
        })
        .unwrap_or_default();
    notes.sort_by_key(|n| n["idx"].as_u64().unwrap_or(0));
    for n in notes {
        let name = n["suite"].as_str().unwrap_or("");
        if !crashes(p.id, name, &n["case"], dir) {
            continue;
        }
        let Some(s) = p.suites.iter().find(|s| s.name() == name) else { continue };
        let ctx = context(p, tier, None);
        let original = n["case"].clone();
        let best = match n["idx"].as_u64() {
            Some(i) => s
                .shrink_external(&ctx, i, &mut |c| crashes(p.id, name, c, dir))
                .filter(|c| crashes(p.id, name, c, dir))
                .unwrap_or_else(|| original.clone()),
            None => original.clone(),
        };
        let f = Failure {
            suite: s.name(),
            idx: n["idx"].as_u64().unwrap_or(u64::MAX),
            case: best,
            original,
            message: "the process is brought down (abort or stack overflow)".into(),
            shrinks: 0,
        };
        return report(p, tier, f);
    }
    eprintln!("ERROR: the worker died, but no single case brings the process down");
    2
}

fn load(file: &str) -> Result<Value, String> {
    let b = std::fs::read(file).map_err(|e| e.to_string())?;
    serde_json::from_slice(&b).map_err(|e| e.to_string())
}

fn replay(ps: &[Property], file: &str) -> i32 {
    let v = match load(file) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("ERROR: {}: {}", file, e);
            return 2;
        }
    };
    let (id, suite) = (v["property"].as_str().unwrap_or(""), v["suite"].as_str().unwrap_or(""));
    let Some(s) = ps.iter().find(|p| p.id == id).and_then(|p| p.suites.iter().find(|s| s.name() == suite)) else {
        eprintln!("ERROR: {} names no suite {} {}", file, id, suite);
        return 2;
    };
    match s.replay(&v["case"]) {
        Ok(Outcome::Ok) => {
            println!("{}: the case passes", id);
            0
        }
        Ok(Outcome::Fail(m)) => {
            println!("{}: {}", id, m);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        Ok(Outcome::Broken(m)) | Err(m) => {
            eprintln!("ERROR: {}", m);
            2
        }
    }
}

fn main() {
    t0();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let ps = props::all();
    let find = |id: &str| {
        ps.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("ERROR: no property {}", id);
            std::process::exit(2)
        })
    };
    let tier_env = std::env::var("VERIF_TIER").unwrap_or_default();
    let tier = a.get(2).copied().unwrap_or(if tier_env == "thorough" { "thorough" } else { "quick" });
    let code = match a.first().copied() {
        Some("list") => {
            ps.iter().for_each(|p| println!("{}", p.id));
            0
        }
        Some("emit") if a.len() > 2 => {
            emit::emit(a[1].parse().unwrap_or(100), a[2].parse().unwrap_or(1));
            0
        }
        Some("run") if a.len() > 1 => run(find(a[1]), tier),
        Some("worker") if a.len() > 1 => {
            install_panic_hook();
            start_watchdog(std::env::var_os("VERIF_NOTE").map(PathBuf::from));
            let p = find(a[1]);
            run_property(p, &context(p, tier, a.get(3).map(PathBuf::from)))
        }
        Some("one" | "replay") if a.len() > 1 => {
            install_panic_hook();
            if a[0] == "replay" {
                // In a process of its own: the case may bring it down.
                let v = load(a[1]).unwrap_or(Value::Null);
                let (id, suite) = (v["property"].as_str().unwrap_or(""), v["suite"].as_str().unwrap_or(""));
                let dir = std::env::temp_dir().join(format!("verif-replay-{}", std::process::id()));
                let _ = std::fs::create_dir_all(&dir);
                let h = hangs(id, suite, &v["case"], &dir, 60);
                let _ = std::fs::remove_dir_all(&dir);
                if h {
                    println!("{}: a request does not end", id);
                    println!("VIOLATION property={} replay={}", id, a[1]);
                    std::process::exit(1);
                }
                match again(&["one", a[1]], false) {
                    Ok(s) if died(&s) => {
                        let v = load(a[1]).unwrap_or(Value::Null);
                        println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap_or(""), a[1]);
                        1
                    }
                    Ok(s) => s.code().unwrap_or(2),
                    Err(_) => 2,
                }
            } else {
                replay(&ps, a[1])
            }
        }
        _ => {
            eprintln!("usage: harness list | run ID [quick|thorough] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
