//! Deterministic simulation of jubako with fault injection.
//!
//! jbksim run <ID> [--tier quick|thorough] [--seed N] [--workers N] [--runs N] [--only INDEX]
//! jbksim replay <file>
//! jbksim selftest [<ID>..]

mod cli;
mod create;
mod ctx;
mod damage;
mod decode;
mod encode;
mod facts;
mod minimize;
mod model;
mod props;
mod rng;
mod rt;

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

use ctx::{Agg, Ctx, Fail, Over, Tier};
use props::Check;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

static VERIF: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// Where the machinery lives.
pub fn verif_dir() -> String {
    VERIF.get().cloned().unwrap_or_else(|| "/verif".into())
}

pub struct Opts {
    pub verif: String,
    pub tier: Tier,
    pub seed: u64,
    pub workers: u64,
    pub runs: Option<u64>,
    pub only: Option<u64>,
    pub tag: String,
    pub wall: u64,
}

fn no_aslr() {
    unsafe {
        let cur = libc::personality(0xffffffff);
        if cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("JBKSIM_REEXEC").is_none() {
            libc::personality(cur as u64 | libc::ADDR_NO_RANDOMIZE as u64);
            let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
            let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let mut p: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
            p.push(std::ptr::null());
            // a fixed environment: its size must not move the stack
            let mut env: Vec<std::ffi::CString> = vec![c"JBKSIM_REEXEC=1".into()];
            for v in ["JBKSIM_STDERR", "JBKSIM_TRACE", "JBKSIM_TRACE_PHASE", "JBKSIM_KEEP_GOING", "RUST_BACKTRACE"] {
                if let Some(x) = std::env::var_os(v) {
                    env.push(std::ffi::CString::new(format!("{v}={}", x.to_string_lossy())).unwrap());
                }
            }
            let mut e: Vec<*const libc::c_char> = env.iter().map(|a| a.as_ptr()).collect();
            e.push(std::ptr::null());
            libc::execve(exe.as_ptr(), p.as_ptr(), e.as_ptr());
        }
    }
}

pub fn scratch_base() -> String {
    let shm = format!("/dev/shm/jbksim-{:08}", std::process::id());
    if std::fs::create_dir_all(&shm).is_ok() {
        return shm;
    }
    // same length: the path is part of what a run sees
    let p = format!("/var/tmp/jbksim-{:07}", std::process::id());
    std::fs::create_dir_all(&p).expect("no scratch directory");
    p
}

/// Executes one run, harness panics turned into errors.
pub fn one_run(c: &Check, ctx: &mut Ctx) -> Result<Option<Fail>, String> {
    match catch_unwind(AssertUnwindSafe(|| (c.run)(ctx))) {
        Ok(Ok(())) => Ok(None),
        Ok(Err(f)) => Ok(Some(f)),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(m)
        }
    }
}

fn known_sigs(o: &Opts, id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", o.verif)) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix(&format!("finding: property={id} sig=")) {
                let (sig, what) = rest.split_once(' ').unwrap_or((rest, ""));
                m.insert(sig.to_string(), what.to_string());
            }
        }
    }
    m
}

fn run_seed(o: &Opts, id: &str, index: u64) -> u64 {
    rng::sub_seed(o.seed, id, index)
}

fn worker(o: &Opts, c: &Check, base: &str, w: u64, shared: *mut u64, runs: u64, t0: Instant) -> i32 {
    rt::init_worker();
    let root = format!("{base}/w{w:02}");
    let known = known_sigs(o, c.id);
    let mut agg = Agg::default();
    let mut code = 0;
    let (mut i, step) = match o.only {
        Some(k) => (k, runs.max(1)),
        None => (w, o.workers),
    };
    let end = o.only.map(|k| k + 1).unwrap_or(runs);
    let stop = || unsafe { std::ptr::read_volatile(shared) != 0 };
    while i < end && !stop() {
        if t0.elapsed().as_secs() >= o.wall {
            *agg.counts.entry("runs.not_reached_in_time".into()).or_default() += 1;
            break;
        }
        let mut ctx = Ctx::new(run_seed(o, c.id, i), i, o.tier, &root);
        std::mem::swap(&mut ctx.agg, &mut agg);
        let r = one_run(c, &mut ctx);
        std::mem::swap(&mut ctx.agg, &mut agg);
        if std::env::var_os("JBKSIM_TRACE").is_some() {
            eprintln!("run {i} seed {:x} -> {:?}", ctx.seed, r);
            for s in &ctx.story {
                eprintln!("      {s}");
            }
        }
        match r {
            Ok(None) => *agg.counts.entry("runs".into()).or_default() += 1,
            Ok(Some(_)) if ctx.lost => {
                *agg.counts.entry("runs.lost".into()).or_default() += 1;
            }
            Ok(Some(f)) if known.contains_key(&f.sig) => {
                *agg.counts.entry("runs".into()).or_default() += 1;
                *agg.counts.entry(format!("known.{}", f.sig)).or_default() += 1;
            }
            Ok(Some(f)) => {
                let j = json!({"index": i, "seed": format!("{:#x}", ctx.seed), "sig": f.sig, "msg": f.msg});
                std::fs::write(format!("{base}/fail_{w:02}.json"), j.to_string()).unwrap();
                if std::env::var_os("JBKSIM_KEEP_GOING").is_none() {
                    unsafe { std::ptr::write_volatile(shared, 1) };
                }
                code = 1;
                break;
            }
            Err(e) => {
                eprintln!("jbksim: harness error in {} run {i}: {e}", c.id);
                unsafe { std::ptr::write_volatile(shared, 2) };
                code = 2;
                break;
            }
        }
        i += step;
    }
    let mut f = Vec::new();
    let j = json!({"counts": agg.counts, "samples": agg.samples}).to_string();
    f.extend_from_slice(&(j.len() as u64).to_le_bytes());
    f.extend_from_slice(j.as_bytes());
    for s in [&agg.scheds, &agg.ios, &agg.states] {
        f.extend_from_slice(&(s.len() as u64).to_le_bytes());
        for v in s {
            f.extend_from_slice(&v.to_le_bytes());
        }
    }
    std::fs::write(format!("{base}/agg_{w:02}"), f).unwrap();
    let _ = std::fs::remove_dir_all(&root);
    code
}

fn read_agg(p: &str, agg: &mut Agg) -> bool {
    let Ok(b) = std::fs::read(p) else { return false };
    let mut d = facts::Dec(&b);
    let j: J = serde_json::from_slice(d.b()).unwrap();
    for (k, v) in j["counts"].as_object().unwrap() {
        let e = agg.counts.entry(k.clone()).or_default();
        let v = v.as_u64().unwrap();
        *e = if k.starts_with("max.") { (*e).max(v) } else { *e + v };
    }
    for s in j["samples"].as_array().unwrap() {
        if agg.samples.len() < 6 {
            agg.samples.push(s.as_str().unwrap().into());
        }
    }
    for s in [&mut agg.scheds, &mut agg.ios, &mut agg.states] {
        for _ in 0..d.u() {
            s.insert(d.u());
        }
    }
    true
}

pub fn fork_and(f: impl FnOnce() -> i32) -> libc::pid_t {
    let _ = std::io::stdout().flush();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let c = catch_unwind(AssertUnwindSafe(f)).unwrap_or(2);
            let _ = std::io::stdout().flush();
            libc::_exit(c);
        }
        pid
    }
}
pub fn wait(pid: libc::pid_t) -> i32 {
    let mut st = 0;
    unsafe {
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    if libc::WIFEXITED(st) {
        libc::WEXITSTATUS(st)
    } else {
        2
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn cmd_run(o: &Opts, id: &str) -> i32 {
    let Some(c) = props::all().into_iter().find(|c| c.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let base = scratch_base();
    let shared = rt::map_shared(4096) as *mut u64;
    let runs = o.runs.unwrap_or(c.runs(o.tier));
    let workers = if o.only.is_some() { 1 } else { o.workers.min(runs.max(1)) };
    let pids: Vec<_> = (0..workers).map(|w| fork_and(|| worker(o, &c, &base, w, shared, runs, t0))).collect();
    let codes: Vec<i32> = pids.into_iter().map(wait).collect();
    let mut agg = Agg::default();
    let mut complete = true;
    for w in 0..workers {
        complete &= read_agg(&format!("{base}/agg_{w:02}"), &mut agg);
    }
    let mut fails: Vec<J> = (0..workers)
        .filter_map(|w| std::fs::read_to_string(format!("{base}/fail_{w:02}.json")).ok())
        .map(|s| serde_json::from_str(&s).unwrap())
        .collect();
    fails.sort_by_key(|f| f["index"].as_u64());
    let mut violations = 0;
    let mut rc = 0;
    if !complete || codes.iter().any(|c| *c > 1) {
        eprintln!("jbksim: a worker ended abnormally: {codes:?}");
        rc = 2;
    }
    if let Some(f) = fails.first() {
        let index = f["index"].as_u64().unwrap();
        for g in &fails {
            println!("failing run {} ({}): {}", g["index"], g["sig"].as_str().unwrap(), g["msg"].as_str().unwrap());
        }
        let dir = format!("{}/replay", o.verif);
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{dir}/{id}-{}-s{}-r{index}{}.json", tier_name(o.tier), o.seed, o.tag);
        let budget = if o.tier == Tier::Quick { 45 } else { 300 };
        let pid = fork_and(|| {
            minimize::minimize(&c, o.tier, run_seed(o, id, index), index, &format!("{base}/w99"), f["sig"].as_str().unwrap(), &file, budget)
        });
        match wait(pid) {
            1 => {
                violations = fails.len();
                println!("VIOLATION property={id} replay={file}");
                rc = 1;
            }
            x => {
                eprintln!("jbksim: run {index} of {id} failed but its replay did not ({x}): {}", f["msg"]);
                rc = 2;
            }
        }
    }
    for (sig, what) in known_sigs(o, id) {
        println!("KNOWN-FINDING: property={id} {what} [{sig}]");
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(o, &c, &agg, wall, violations);
    let g = |k: &str| agg.counts.get(k).copied().unwrap_or(0);
    println!(
        "{id} {}: {} runs ({} phases, {} multi-threaded), {} distinct schedules, {} distinct non-trivial cases, {} steps, {:.1} s{}",
        tier_name(o.tier),
        g("runs"),
        g("phases"),
        g("phases.multithreaded"),
        agg.scheds.len(),
        agg.states.len(),
        g("sim.steps"),
        wall,
        if g("runs.lost") > 0 { format!(", {} lost", g("runs.lost")) } else { String::new() }
    );
    if g("runs") == 0 && rc == 0 {
        eprintln!("jbksim: nothing was explored");
        rc = 2;
    }
    let _ = std::fs::remove_dir_all(&base);
    rc
}

fn write_evidence(o: &Opts, c: &Check, agg: &Agg, wall: f64, violations: usize) {
    let g = |k: &str| agg.counts.get(k).copied().unwrap_or(0);
    let runs = g("runs");
    let faults: BTreeMap<&String, u64> =
        agg.counts.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k, *v)).collect();
    let others: BTreeMap<&String, u64> =
        agg.counts.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k, *v)).collect();
    let j = json!({
        "property": c.id,
        "tier": tier_name(o.tier),
        "seed": o.seed,
        "level": c.level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": agg.states.len(),
            "rule": c.rule,
            "samples": agg.samples,
            "simulated_runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "simulated_phases": g("phases"),
            "simulated_seconds": g("sim.time_ns") as f64 / 1e9,
            "distinct_schedules_of_multithreaded_phases": agg.scheds.len(),
            "distinct_io_histories": agg.ios.len(),
            "faults_injected": faults,
            "counters": others,
            "components_real": c.real,
            "components_stubbed": c.stub,
        },
        "assumptions": c.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.verif));
    std::fs::write(format!("{}/evidence/{}{}.json", o.verif, c.id, o.tag), serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
}

fn cmd_replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let j: J = serde_json::from_str(&s).expect("replay file");
    let id = j["property"].as_str().unwrap();
    let c = props::all().into_iter().find(|c| c.id == id).expect("property");
    let (mut ctx, sig) = minimize::from_replay(&j);
    let base = scratch_base();
    ctx.root = format!("{base}/w99");
    let pid = fork_and(|| {
        rt::init_worker();
        let r = one_run(&c, &mut ctx);
        for s in &ctx.story {
            println!("  {s}");
        }
        match r {
            Ok(Some(f)) => {
                println!("{}: {}", f.sig, f.msg);
                println!("run hash {:016x} (recorded {})", ctx.run_hash, j["run_hash"].as_str().unwrap_or("?"));
                if f.sig == sig {
                    println!("VIOLATION property={id} replay={file}");
                    1
                } else {
                    2
                }
            }
            Ok(None) => {
                println!("the run passes");
                0
            }
            Err(e) => {
                println!("harness error: {e}");
                2
            }
        }
    });
    let rc = wait(pid);
    let _ = std::fs::remove_dir_all(&base);
    rc
}

/// Each run twice, from the seed and from its recorded schedule: everything must agree.
fn cmd_selftest(o: &Opts, ids: &[String]) -> i32 {
    let base = scratch_base();
    let mut bad = 0;
    for c in props::all() {
        if !ids.is_empty() && !ids.iter().any(|i| i == c.id) {
            continue;
        }
        let pids: Vec<_> = (0..o.workers)
            .map(|w| {
                fork_and(|| {
                    rt::init_worker();
                    let root = format!("{base}/w{w:02}");
                    let mut i = w;
                    let mut bad = 0;
                    while i < o.runs.unwrap_or(40) {
                        if o.only.is_some_and(|x| x != i) {
                            i += o.workers;
                            continue;
                        }
                        let seed = run_seed(o, c.id, i);
                        let exec = |over: Over| {
                            let mut ctx = Ctx::new(seed, i, o.tier, &root);
                            ctx.over = over;
                            let r = one_run(&c, &mut ctx);
                            (format!("{:?}", r.map(|f| f.map(|f| f.sig))), ctx.run_hash, ctx.recorded)
                        };
                        let a = exec(Over::default());
                        if a.0 != "Ok(None)" {
                            println!("{} run {i} gives {}", c.id, a.0);
                            bad = 1;
                        }
                        let b = exec(Over::default());
                        // (a phase that switches more often than its log can tell stays with its seed)
                        let scheds = a.2.iter().filter(|s| s.1.len() < 2 * 60_000).map(|(k, s)| (*k, s.clone())).collect();
                        let d = exec(Over { scheds, ..Default::default() });
                        if a.0 != b.0 || a.1 != b.1 || a.0 != d.0 || a.1 != d.1 {
                            println!("{} run {i}: {} {:x} / {} {:x} / {} {:x}", c.id, a.0, a.1, b.0, b.1, d.0, d.1);
                            bad = 1;
                        }
                        i += o.workers;
                    }
                    bad
                })
            })
            .collect();
        let b = pids.into_iter().map(wait).max().unwrap();
        println!("{} {}", c.id, if b == 0 { "deterministic" } else { "NOT deterministic, or not quiet" });
        bad |= b;
    }
    let _ = std::fs::remove_dir_all(&base);
    bad
}

fn main() {
    no_aslr();
    // a backtrace reads /proc/self/maps: what is there is not ours to decide
    std::env::set_var("RUST_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().collect();
    let mut o = Opts {
        verif: "/verif".into(),
        tier: Tier::Quick,
        seed: 1,
        workers: 8,
        runs: None,
        only: None,
        tag: String::new(),
        wall: 150,
    };
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        let arg = args[i].clone();
        let mut val = || {
            i += 1;
            args[i].clone()
        };
        match arg.as_str() {
            "--verif" => o.verif = val(),
            "--tier" => {
                o.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick };
                if o.tier == Tier::Thorough {
                    o.wall = 780;
                }
            }
            "--seed" => o.seed = val().parse().expect("seed"),
            "--workers" => o.workers = val().parse().expect("workers"),
            "--runs" => o.runs = Some(val().parse().expect("runs")),
            "--only" => o.only = Some(val().parse().expect("only")),
            "--wall" => o.wall = val().parse().expect("wall"),
            "--tag" => o.tag = val(),
            x => pos.push(x.to_string()),
        }
        i += 1;
    }
    let _ = VERIF.set(o.verif.clone());
    let rc = match pos.first().map(|s| s.as_str()) {
        Some("run") => cmd_run(&o, &pos[1]),
        Some("replay") => cmd_replay(&pos[1]),
        Some("corpus") => {
            rt::init_worker();
            props::c14::write_corpus(&pos[1], pos[2].parse().expect("count"));
            0
        }
        Some("selftest") => cmd_selftest(&o, &pos[1..]),
        _ => {
            eprintln!("usage: jbksim run ID | replay FILE | selftest");
            2
        }
    };
    std::process::exit(rc);
}
