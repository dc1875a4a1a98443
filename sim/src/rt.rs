//! Interface to the simulation runtime (rt/simrt.c) and the phase runner: one
//! phase = one forked process living entirely under the simulator.

use std::alloc::{GlobalAlloc, Layout};
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicPtr, Ordering};

#[repr(C)]
#[derive(Clone)]
pub struct SimCfg {
    pub sched_seed: u64,
    pub env_seed: u64,
    pub io_seed: u64,
    pub max_steps: u64,
    pub pct_len: u64,
    pub ncpu: u32,
    pub policy: u32,
    pub quantum: u32,
    pub pct_depth: u32,
    pub p_spurious: u32,
    pub p_short_read: u32,
    pub p_short_write: u32,
    pub p_eintr: u32,
    pub fault_kind: u32,
    pub fault_errno: u32,
    pub fault_mask: u32,
    pub fault_sticky: u32,
    pub fault_at: u64,
    pub fault_byte: u64,
    pub fault_partial: u32,
    pub fault_then: u32,
    pub cfr_mode: u32,
    pub n_sched: u32,
    pub stall_thread: u32,
    pub sched: *const u64,
    pub root: [u8; 192],
    pub trace: u32,
    pub first_gap: u32,
}

pub const POL_RANDOM: u32 = 0;
pub const POL_PCT: u32 = 1;
pub const POL_NONE: u32 = 9;
pub const F_ERRNO: u32 = 1;
pub const F_CRASH: u32 = 2;
pub const C_READ: u32 = 1;
pub const C_WRITE: u32 = 2;
pub const C_META: u32 = 4;
pub const C_OPEN: u32 = 8;
pub const C_MMAP: u32 = 16;
pub const C_SRC: u32 = 256;
pub const C_OUT: u32 = 512;
pub const C_STORE: u32 = 1024;

impl Default for SimCfg {
    fn default() -> Self {
        SimCfg {
            sched_seed: 1,
            env_seed: 2,
            io_seed: 3,
            max_steps: 200_000_000,
            pct_len: 5000,
            ncpu: 2,
            policy: POL_NONE,
            quantum: 50,
            pct_depth: 3,
            p_spurious: 0,
            p_short_read: 0,
            p_short_write: 0,
            p_eintr: 0,
            fault_kind: 0,
            fault_errno: 5,
            fault_mask: 0,
            fault_sticky: 0,
            fault_at: u64::MAX,
            fault_byte: 0,
            fault_partial: 0,
            fault_then: 0,
            cfr_mode: 0,
            n_sched: 0,
            stall_thread: 0,
            sched: std::ptr::null(),
            root: [0; 192],
            trace: 0,
            first_gap: 0,
        }
    }
}

impl SimCfg {
    pub fn set_root(&mut self, p: &str) {
        assert!(p.len() < 191);
        self.root = [0; 192];
        self.root[..p.len()].copy_from_slice(p.as_bytes());
    }
}

macro_rules! stats {
    ($($n:ident),* ; $($m:ident),* ; $($l:ident),*) => {
        #[repr(C)]
        #[derive(Clone, Default, Debug)]
        pub struct SimStats {
            $(pub $n: u64,)*
            $(pub $m: u32,)*
            $(pub $l: u64,)*
        }
    };
}
stats!(steps, switches, preempts, blocks, spurious, threads, wakes, atomics, allocs,
    n_read, n_write, n_meta, n_open, n_mmap, n_cfr,
    f_short_read, f_short_write, f_eintr, f_errno, f_crash, f_cfr, f_spurious, f_mmap,
    eligible, sched_hash, io_hash, sim_ns ; outcome, panics ;
    max_runnable, n_preempt_log, bytes_read, bytes_written);

pub const PREEMPT_LOG: usize = 65536;
const MSG_MAX: usize = 65536;
const OUT_MAX: usize = 64 << 20;

#[repr(C)]
struct SimShared {
    st: SimStats,
    msg: [u8; MSG_MAX],
    panic_msg: [u8; 4096],
    preempt_log: [u64; 2 * PREEMPT_LOG],
}

extern "C" {
    fn sim_begin(cfg: *const SimCfg, sh: *mut SimShared);
    fn sim_exit(code: c_int) -> !;
    fn sim_pause() -> c_int;
    fn sim_resume(o: c_int);
    fn sim_yield();
    fn sim_steps() -> u64;
    fn sim_thread_id() -> c_int;
    fn sim_active() -> c_int;
    fn sim_alloc_entry(n: usize, al: usize, zero: c_int) -> *mut c_void;
    fn sim_free(p: *mut c_void, n: usize, al: usize);
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sim_alloc_entry(l.size(), l.align(), 0) as *mut u8
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sim_alloc_entry(l.size(), l.align(), 1) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sim_free(p as *mut c_void, l.size(), l.align())
    }
}

pub fn yield_point() {
    unsafe { sim_yield() }
}
pub fn steps() -> u64 {
    unsafe { sim_steps() }
}
/// Runs harness-only work without scheduling points or faults.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let o = sim_pause();
        let r = f();
        sim_resume(o);
        r
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    /// the closure returned
    Done,
    Panic(String),
    Deadlock(String),
    StepCap,
    Crash,
    Signal(i32),
    Exit(i32),
    /// used up its CPU allowance inside code without scheduling points
    CpuHang,
    /// the harness lost patience (wall clock); never a verdict
    Lost,
}

impl Outcome {
    pub fn describe(&self) -> String {
        match self {
            Outcome::Done => "done".into(),
            Outcome::Panic(m) => format!("panic: {m}"),
            Outcome::Deadlock(m) => m.clone(),
            Outcome::StepCap => "no progress: step cap reached".into(),
            Outcome::Crash => "injected crash".into(),
            Outcome::Signal(s) => format!("killed by signal {s} ({})", signame(*s)),
            Outcome::Exit(c) => format!("exit status {c}"),
            Outcome::CpuHang => "no progress: CPU time limit reached".into(),
            Outcome::Lost => "harness wall-clock limit".into(),
        }
    }
}
fn signame(s: i32) -> &'static str {
    match s {
        4 => "SIGILL",
        6 => "SIGABRT",
        7 => "SIGBUS",
        8 => "SIGFPE",
        11 => "SIGSEGV",
        _ => "?",
    }
}

pub struct Ph {
    pub outcome: Outcome,
    pub out: Vec<u8>,
    pub stats: SimStats,
    pub sched: Vec<u64>,
    pub panic: String,
}

struct Shared {
    sh: *mut SimShared,
    out: *mut u8,
}
static SHARED_SH: AtomicPtr<SimShared> = AtomicPtr::new(std::ptr::null_mut());
static SHARED_OUT: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

pub fn map_shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        p as *mut u8
    }
}

/// Once per worker process.
pub fn init_worker() {
    SHARED_SH.store(
        map_shared(std::mem::size_of::<SimShared>()) as *mut SimShared,
        Ordering::SeqCst,
    );
    SHARED_OUT.store(map_shared(OUT_MAX + 8), Ordering::SeqCst);
    // what libraries initialise once per process must not depend on whether
    // the parent of a phase already used them
    std::hint::black_box(blake3::hash(&vec![1u8; 300_000]));
}
fn shared() -> Shared {
    Shared {
        sh: SHARED_SH.load(Ordering::SeqCst),
        out: SHARED_OUT.load(Ordering::SeqCst),
    }
}

fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

pub fn in_sim() -> bool {
    unsafe { sim_active() != 0 }
}
pub fn thread_id() -> i32 {
    unsafe { sim_thread_id() }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        unsafe {
            let o = sim_pause();
            let s = shared();
            let st = &mut (*s.sh).st;
            if st.panics == 0 {
                let m = format!("{info}");
                let m: String = m.chars().filter(|c| *c != '\0').take(1200).collect();
                let b = m.as_bytes();
                let n = b.len().min(4000);
                (&mut (*s.sh).panic_msg)[..n].copy_from_slice(&b[..n]);
            }
            st.panics += 1;
            sim_resume(o);
        };
    }));
}

static mut CPU_LIMIT: u64 = 25;
pub fn set_cpu_limit(s: u64) {
    unsafe { CPU_LIMIT = s }
}

/// Runs `f` in a forked child under the simulator.
pub fn phase(cfg: &SimCfg, sched: Option<&[u64]>, f: impl FnOnce() -> Vec<u8>) -> Ph {
    let s = shared();
    assert!(!s.sh.is_null());
    unsafe {
        std::ptr::write_bytes(&mut (*s.sh).st as *mut SimStats, 0, 1);
        (*s.sh).msg[0] = 0;
        std::ptr::write_bytes((*s.sh).panic_msg.as_mut_ptr(), 0, 4096);
        (s.out as *mut u64).write(0);
        let mut cfg = cfg.clone();
        if let Some(v) = sched {
            cfg.n_sched = (v.len() / 2) as u32;
            cfg.sched = v.as_ptr();
            if cfg.n_sched == 0 {
                cfg.policy = POL_NONE;
            }
        }
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(240);
            if std::env::var_os("JBKSIM_STDERR").is_none() {
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
            }
            install_hook();
            sim_begin(&cfg, s.sh);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            sim_pause();
            match r {
                Ok(v) => {
                    let n = v.len().min(OUT_MAX);
                    std::ptr::copy_nonoverlapping(v.as_ptr(), s.out.add(8), n);
                    (s.out as *mut u64).write(n as u64);
                    sim_exit(if n == v.len() { 0 } else { 98 })
                }
                Err(_) => sim_exit(101),
            }
        }
        let mut status = 0;
        loop {
            let r = libc::waitpid(pid, &mut status, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                panic!("waitpid");
            }
        }
        let st = (*s.sh).st.clone();
        let msg = cstr(&(*s.sh).msg);
        let panic = cstr(&(*s.sh).panic_msg);
        let outcome = if libc::WIFSIGNALED(status) {
            match libc::WTERMSIG(status) {
                libc::SIGXCPU => Outcome::CpuHang,
                libc::SIGALRM | libc::SIGKILL | libc::SIGTERM => Outcome::Lost,
                n => Outcome::Signal(n),
            }
        } else {
            match libc::WEXITSTATUS(status) {
                0 => Outcome::Done,
                101 => Outcome::Panic(panic.clone()),
                70 => Outcome::Crash,
                71 => Outcome::Deadlock(msg),
                72 => Outcome::StepCap,
                n => Outcome::Exit(n),
            }
        };
        let out = if outcome == Outcome::Done {
            let n = (s.out as *const u64).read() as usize;
            std::slice::from_raw_parts(s.out.add(8), n).to_vec()
        } else {
            Vec::new()
        };
        let n = (st.n_preempt_log as usize).min(PREEMPT_LOG);
        let sched = (&(*s.sh).preempt_log)[..2 * n].to_vec();
        Ph { outcome, out, stats: st, sched, panic }
    }
}
