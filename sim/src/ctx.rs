//! One simulated run: scenario choices, phases, statistics, replay overrides.

use crate::rng::{mix64, sub_seed, Rng};
use crate::rt::{self, Outcome, Ph, SimCfg, SimStats};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// stable class of the failure: the minimiser keeps it, known findings name it
    pub sig: String,
    pub msg: String,
}
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
pub type R = Result<(), Fail>;

/// What the minimiser and replays may change about a run.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Over {
    pub drops: BTreeSet<u32>,
    pub knobs: BTreeMap<String, u64>,
    /// explicit schedule per phase
    pub scheds: BTreeMap<usize, Vec<u64>>,
}

#[derive(Clone, Default)]
pub struct Agg {
    pub counts: BTreeMap<String, u64>,
    pub scheds: BTreeSet<u64>,
    pub ios: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub seed: u64,
    pub index: u64,
    pub tier: Tier,
    pub root: String,
    pub over: Over,
    pub agg: Agg,
    /// elements offered to the minimiser
    pub n_keep: u32,
    /// knobs used: value, quiet value
    pub knobs_used: BTreeMap<String, (u64, u64)>,
    pub phases: usize,
    pub recorded: BTreeMap<usize, Vec<u64>>,
    pub lost: bool,
    /// human-readable story of the run, for the replay file
    pub story: Vec<String>,
    /// hash over every phase: two executions of one run must agree on it
    pub run_hash: u64,
}

impl Ctx {
    pub fn new(seed: u64, index: u64, tier: Tier, root: &str) -> Ctx {
        Ctx {
            seed,
            index,
            tier,
            root: root.into(),
            over: Over::default(),
            agg: Agg::default(),
            n_keep: 0,
            knobs_used: BTreeMap::new(),
            phases: 0,
            recorded: BTreeMap::new(),
            lost: false,
            story: vec![],
            run_hash: 0,
        }
    }
    pub fn rng(&self, what: &str) -> Rng {
        Rng::new(sub_seed(self.seed, what, 0))
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// True unless the minimiser dropped this element of the scenario.
    pub fn keep(&mut self) -> bool {
        let i = self.n_keep;
        self.n_keep += 1;
        !self.over.drops.contains(&i)
    }
    /// A choice the minimiser may replace by its quiet value.
    pub fn knob(&mut self, name: &str, v: u64, quiet: u64) -> u64 {
        let v = *self.over.knobs.get(name).unwrap_or(&v);
        self.knobs_used.insert(name.into(), (v, quiet));
        v
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.agg.counts.entry(what.into()).or_default() += n;
    }
    pub fn state(&mut self, h: u64) {
        self.agg.states.insert(h);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.agg.samples.len() < 4 {
            let t = s();
            self.agg.samples.push(t);
        }
    }
    pub fn tell(&mut self, s: impl Into<String>) {
        self.story.push(s.into());
    }
    pub fn path(&self, name: &str) -> String {
        format!("{}/{}", self.root, name)
    }
    /// Empties the run's scratch directory.
    pub fn clean(&self) {
        assert!(self.root.contains("/jbksim-"));
        let _ = std::fs::remove_dir_all(&self.root);
        std::fs::create_dir_all(&self.root).expect("scratch");
    }

    /// Schedule and environment of a phase, drawn from the run's seed.
    /// `level` 0: one deterministic schedule; 1: varied; 2: aggressive.
    pub fn noise(&mut self, label: &str, level: u32) -> SimCfg {
        let mut c = SimCfg::default();
        c.set_root(&self.root);
        let mut r = self.rng(&format!("noise/{label}"));
        c.sched_seed = r.u64();
        c.env_seed = r.u64();
        c.io_seed = r.u64();
        let pick = |n: &str, v: u64, q: u64, me: &mut Ctx| me.knob(&format!("{label}.{n}"), v, q);
        let ncpu = if level == 0 { 2 } else { *r.pick(&[1, 2, 2, 3, 4, 4, 6, 8]) };
        c.ncpu = pick("ncpu", ncpu, 2, self) as u32;
        let policy = match level {
            0 => rt::POL_NONE,
            _ => *r.pick(&[rt::POL_RANDOM, rt::POL_RANDOM, rt::POL_PCT]),
        };
        c.policy = pick("policy", policy as u64, rt::POL_NONE as u64, self) as u32;
        let q = match r.below(5) {
            0 => r.range(1, 8),
            1 | 2 => r.range(8, 80),
            _ => r.range(60, 1000),
        };
        let q = if level >= 2 && r.chance(1, 2) { r.range(2, 30) } else { q };
        c.quantum = q as u32;
        c.first_gap = r.below(200) as u32;
        c.pct_depth = r.range(1, 8) as u32;
        c.pct_len = *r.pick(&[500, 2000, 10_000, 60_000]);
        if level > 0 {
            let sp = if r.chance(1, 3) { r.range(100, 6000) } else { 0 };
            c.p_spurious = pick("spurious", sp, 0, self) as u32;
            let sr = if r.chance(1, 2) { r.range(500, 40_000) } else { 0 };
            c.p_short_read = pick("short_read", sr, 0, self) as u32;
            let sw = if r.chance(1, 2) { r.range(500, 40_000) } else { 0 };
            c.p_short_write = pick("short_write", sw, 0, self) as u32;
            let cfr = if r.chance(1, 4) { r.range(1, 2) } else { 0 };
            c.cfr_mode = pick("cfr", cfr, 0, self) as u32;
            let stall = if r.chance(1, 6) { r.range(1, 8) } else { 0 };
            c.stall_thread = pick("stall", stall, 0, self) as u32;
        }
        c
    }

    pub fn phase(&mut self, cfg: &SimCfg, f: impl FnOnce() -> Vec<u8>) -> Ph {
        let n = self.phases;
        self.phases += 1;
        let mut cfg = cfg.clone();
        if std::env::var("JBKSIM_TRACE_PHASE").is_ok_and(|p| p == n.to_string()) {
            cfg.trace = 1;
        }
        let cfg = &cfg;
        let ph = match self.over.scheds.get(&n) {
            Some(s) => rt::phase(cfg, Some(s), f),
            None => rt::phase(cfg, None, f),
        };
        self.recorded.insert(n, ph.sched.clone());
        let s = &ph.stats;
        if std::env::var_os("JBKSIM_TRACE").is_some() {
            eprintln!("    phase {n}: {} steps {} switches {} threads {} faults {} elig {} sched {:x} io {:x} out {:x}", ph.outcome.describe(), s.steps, s.switches, s.threads, s.f_errno + s.f_crash, s.eligible, s.sched_hash, s.io_hash, mix64(ph.out.len() as u64));
        }
        self.add_stats(s);
        for w in [s.sched_hash, s.io_hash, s.steps, ph.out.len() as u64, outcome_code(&ph.outcome)] {
            self.run_hash = mix64(self.run_hash ^ w);
        }
        if ph.outcome == Outcome::Lost {
            self.lost = true;
        }
        ph
    }

    fn add_stats(&mut self, s: &SimStats) {
        self.count("phases", 1);
        for (k, v) in [
            ("sim.steps", s.steps),
            ("sim.switches", s.switches),
            ("sim.preemptions", s.preempts),
            ("sim.blocks", s.blocks),
            ("sim.threads", s.threads),
            ("sim.time_ns", s.sim_ns),
            ("sim.atomics", s.atomics),
            ("sim.allocs", s.allocs),
            ("io.read", s.n_read),
            ("io.write", s.n_write),
            ("io.meta", s.n_meta),
            ("io.open", s.n_open),
            ("io.mmap", s.n_mmap),
            ("fault.short_read", s.f_short_read),
            ("fault.short_write", s.f_short_write),
            ("fault.eintr", s.f_eintr),
            ("fault.errno", s.f_errno),
            ("fault.process_death", s.f_crash),
            ("fault.copy_file_range_unavailable", s.f_cfr),
            ("fault.spurious_wakeup", s.f_spurious),
            ("fault.mmap_failure", s.f_mmap),
        ] {
            if v > 0 {
                self.count(k, v);
            }
        }
        if s.threads > 1 {
            self.agg.scheds.insert(s.sched_hash);
            self.count("phases.multithreaded", 1);
        }
        self.agg.ios.insert(s.io_hash);
        let m = self.agg.counts.entry("max.runnable".into()).or_default();
        *m = (*m).max(s.max_runnable as u64);
    }

    /// The phase must have run to its end: anything else is `sig`.
    pub fn must(&self, ph: Ph, sig: &str, what: &str) -> Result<Vec<u8>, Fail> {
        match ph.outcome {
            Outcome::Done => Ok(ph.out),
            o => fail(sig, format!("{what}: {}", o.describe())),
        }
    }
}

pub fn outcome_code(o: &Outcome) -> u64 {
    match o {
        Outcome::Done => 0,
        Outcome::Panic(_) => 1,
        Outcome::Deadlock(_) => 2,
        Outcome::StepCap => 3,
        Outcome::Crash => 4,
        Outcome::Signal(s) => 100 + *s as u64,
        Outcome::Exit(c) => 200 + *c as u64,
        Outcome::CpuHang => 5,
        Outcome::Lost => 6,
    }
}
