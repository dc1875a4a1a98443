//! C09: creation is all-or-nothing at the destination path.

use super::c14::{files_of, gen_spec_with};
use super::common::*;
use super::Check;
use crate::create;
use crate::ctx::*;
use crate::decode;
use crate::facts::*;
use crate::model::*;
use crate::rng::Rng;
use crate::rt::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const CHECK: Check = Check {
    id: "C09",
    run,
    quick: 600,
    thorough: 60_000,
    level: "exploration",
    rule: "seeded creations through the high-level creator (three packagings, 0 to 3 extra packs, four compressions, file and memory sources, with nothing, a previous container of any packaging, or other bytes at the destination and beside it), each first run whole, then again and again with one fault at one of the file operations of that run \
           (every operation in turn for one run in eight; 40 successive bytes written, of one of eight small creations, for another one in eight; seeded operations for the others): process death before, inside (after any share of the bytes) or after a write, a rename, a file creation, a read; EIO, ENOSPC (also after part of the bytes), EDQUOT, EMFILE, EACCES, EXDEV returned once or from then on, also followed by death; on outputs and sources; under seeded schedules, short reads and writes, and unavailable copy_file_range. \
           After each, the destination must be as before, or hold exactly the new container: it is opened, verified and read whole by jubako and by the independent decoder, every pack it refers to included. A creation which returns success must have left the new one. After a third of the faults another container is created there, over what was left behind, and judged the same way. One run in twelve makes two creations at once in one directory (also at the same destination), without and with a fault. A case counts per faulted creation; distinct by packaging, what was there before, kind of fault and operation it hit",
    real: "jubako high-level creator, pack creators, compression workers and writer, AtomicOutFile, tempfile, std; reader for what is found",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results; process death (the process ends inside the chosen operation, its other threads with it)",
    assumptions: &["completed writes survive the death of the process; power loss is not simulated", "the caller may be left waiting or panic when a worker failed: only the destination is judged"],
};

fn put_back(root: &str, before: &BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(root).expect("dir").flatten() {
        let n = e.file_name().into_string().unwrap_or_default();
        if !n.starts_with("src") && !before.contains_key(&n) {
            std::fs::remove_file(e.path()).expect("remove");
        }
    }
    for (n, b) in before {
        // (never the same inode: what was there may be open nowhere, but be renamed over)
        let p = format!("{root}/{n}");
        let _ = std::fs::remove_file(&p);
        std::fs::write(p, b).expect("write");
    }
}

struct Made {
    outcome: Outcome,
    /// what creation returned, when it did
    returned: Option<Result<Built, String>>,
    stats: SimStats,
}

fn make(ctx: &mut Ctx, cfg: &SimCfg, out: &str, spec: &Spec) -> Made {
    let root = ctx.root.clone();
    let ph = ctx.phase(cfg, || {
        let mut e = Enc::default();
        match create::create(&root, out, spec, Arc::new(())) {
            Ok(b) => {
                e.u(1);
                e.b(&b.encode());
            }
            Err(m) => {
                e.u(0);
                e.b(m.as_bytes());
            }
        }
        e.0
    });
    let returned = (ph.outcome == Outcome::Done).then(|| {
        let mut d = Dec(&ph.out);
        match d.u() {
            1 => Ok(Built::decode(d.b())),
            _ => Err(d.s()),
        }
    });
    Made { outcome: ph.outcome, returned, stats: ph.stats }
}

/// Two creations at once in the same directory.
fn make_two(ctx: &mut Ctx, cfg: &SimCfg, a: (&str, &Spec), b: (&str, &Spec)) -> (Outcome, [Option<bool>; 2], SimStats) {
    let root = ctx.root.clone();
    let root_b = format!("{root}/src_b");
    let ph = ctx.phase(cfg, || {
        // (the sources of the second are in a directory of their own)
        let (x, y) = std::thread::scope(|t| {
            let other = t.spawn(|| create::create(&root_b, b.0, b.1, Arc::new(())).is_ok());
            let x = create::create(&root, a.0, a.1, Arc::new(())).is_ok();
            (x, other.join().expect("the other creation"))
        });
        let mut e = Enc::default();
        e.u(x as u64);
        e.u(y as u64);
        e.0
    });
    let mut returned = [None, None];
    if ph.outcome == Outcome::Done {
        let mut d = Dec(&ph.out);
        returned = [Some(d.u() == 1), Some(d.u() == 1)];
    }
    (ph.outcome, returned, ph.stats)
}

/// Two creations at the same time: each is all or nothing for itself.
fn both(ctx: &mut Ctx, r: &mut Rng) -> R {
    let root = ctx.root.clone();
    let root_b = format!("{root}/src_b");
    std::fs::create_dir_all(&root_b).expect("mkdir");
    let (mut a, _) = gen_spec_with(ctx, r, true, (1, 4, 2));
    let (mut b, _) = gen_spec_with(ctx, r, true, (1, 4, 2));
    let (n, m) = (r.u64(), r.u64());
    let same = r.chance(1, 3) && ctx.keep();
    if same {
        (a.mode, b.mode) = (Mode::OneFile, Mode::OneFile);
    }
    for (i, e) in b.extras.iter_mut().enumerate() {
        e.name = format!("more{i}.jbkc");
    }
    let pool = ["out.jbk", "a.jbk", "b.jbk", "b", "out2.jbk", "out.b.jbk"];
    let name_a = pool[n as usize % pool.len()];
    let name_b = if same { name_a } else { pool[(n as usize + 1 + m as usize % (pool.len() - 1)) % pool.len()] };
    if !same && (name_a.trim_end_matches(".jbk") == name_b.trim_end_matches(".jbk")) {
        // (their content packs would be the same file: the caller's mistake)
        return Ok(());
    }
    create::write_sources(&root, &a);
    create::write_sources(&root_b, &b);
    let (out_a, out_b) = (ctx.path(name_a), ctx.path(name_b));
    let none = BTreeMap::new();
    // what each one makes when alone
    let mut wants = vec![];
    for (sources, out, spec) in [(&root, &out_a, &a), (&root_b, &out_b, &b)] {
        put_back(&root, &none);
        let cfg = ctx.noise("alone", 0);
        let ph = ctx.phase(&cfg, || match create::create(sources, out, spec, Arc::new(())) {
            Ok(b) => b.encode(),
            Err(m) => panic!("creation fails: {m}"),
        });
        if ph.outcome != Outcome::Done {
            return fail("create", format!("creation: {}", ph.outcome.describe()));
        }
        wants.push(spec.facts(&Built::decode(&ph.out)));
    }
    let mut cfg = ctx.noise("two", 1);
    cfg.fault_kind = F_CRASH;
    cfg.fault_at = u64::MAX;
    cfg.fault_mask = C_READ | C_WRITE | C_META | C_OPEN | C_OUT | C_SRC;
    ctx.tell(format!("{name_a} and {name_b}: {} | {}", describe(&a), describe(&b)));
    let mut points = 0;
    for i in 0..8 {
        let s = r.u64();
        if !ctx.keep() {
            continue;
        }
        let mut q = Rng::new(s);
        let mut c = cfg.clone();
        (c.sched_seed, c.env_seed, c.io_seed) = (q.u64(), q.u64(), q.u64());
        let (what, errno, share, sticky) = *q.pick(&FAULTS);
        let at = q.below(points + 1);
        if i > 0 && points > 0 {
            c.fault_at = at;
            c.fault_kind = if errno == 0 { F_CRASH } else { F_ERRNO };
            c.fault_errno = errno;
            c.fault_sticky = sticky;
            c.fault_partial = match share {
                1 | 3 => q.below(65536) as u32,
                2 => q.below(600) as u32,
                x => x,
            };
        }
        put_back(&root, &none);
        let (outcome, returned, stats) = make_two(ctx, &c, (&out_a, &a), (&out_b, &b));
        if outcome == Outcome::Lost {
            continue;
        }
        if points == 0 {
            points = stats.eligible;
        }
        let hit = stats.f_errno + stats.f_crash > 0;
        ctx.count("two_at_once.creations", 2);
        ctx.count("two_at_once.faulted", hit as u64);
        let tell = format!("{name_a} ({:?}) and {name_b} ({:?}) created at the same time, {}: {}, returned {returned:?}", a.mode, b.mode, if i > 0 { format!("{what} at operation {at} of {points}") } else { "no fault".into() }, outcome.describe());
        let mut states = String::new();
        for (k, (name, spec)) in [(name_a, &a), (name_b, &b)].into_iter().enumerate() {
            let there = std::fs::symlink_metadata(ctx.path(name)).is_ok();
            if there {
                let mut e = complete(ctx, name, spec, &wants[k]);
                if same && e.is_err() {
                    let o = 1 - k;
                    e = complete(ctx, name, [&a, &b][o], &wants[o]).map_err(|m| format!("not the one ({}), nor the other ({m})", e.unwrap_err()));
                }
                if let Err(e) = e {
                    return fail("together", format!("{tell}, and {name} holds something which is not the new container: {e}"));
                }
            } else if returned[k] == Some(true) {
                return fail("together", format!("{tell}, and {name} is absent"));
            }
            states += if there { "+" } else { "-" };
        }
        ctx.state(hs(h(at, points), &format!("two{:?}{:?}{what}{states}", a.mode, b.mode)));
    }
    ctx.sample(|| format!("two at once, {points} operations, {} | {}", describe(&a), describe(&b)));
    Ok(())
}

/// The container at `name` must be exactly this one.
fn complete(ctx: &mut Ctx, name: &str, spec: &Spec, want: &Facts) -> Result<(), String> {
    let out = ctx.path(name);
    let names: Vec<String> = spec.dir.indexes.iter().map(|i| i.name.clone()).collect();
    let packs: Vec<u16> = spec.slots().iter().map(|s| s.0).collect();
    let w = Want { names, packs, bytes: true, check: true, ..Default::default() };
    let cfg = ctx.noise("look", 0);
    let ph = ctx.phase(&cfg, || enc(&read_all(&out, &w)));
    if ph.outcome != Outcome::Done {
        return Err(format!("reading it: {}", ph.outcome.describe()));
    }
    let got = dec(&ph.out);
    match got.get(&K::Top("check")) {
        Some(F::U(1)) => {}
        Some(o) => return Err(format!("its check gives {o:?}")),
        None => return Err(format!("it cannot be opened: {:?}", got.iter().find(|x| x.1.is_err()))),
    }
    if let Some(d) = first_diff(want, &got) {
        return Err(d);
    }
    let files = decode::reached(files_of(&ctx.root), name);
    match decode::logical(&files, name, false) {
        Err(m) => Err(format!("decoding it: {m}")),
        Ok((_, p)) if !p.is_empty() => Err(format!("decoding it: {}", p[0])),
        Ok((got, _)) => first_diff(want, &got).map_or(Ok(()), |d| Err(format!("decoding it: {d}"))),
    }
}

const FAULTS: [(&str, u32, u32, u32); 15] = [
    // name, errno (0: death), share of the bytes (1: any, 2: few, 3: any, with death some operations later), sticky
    ("death before", 0, 0, 0),
    ("death inside", 0, 1, 0),
    ("death after", 0, 65536, 0),
    ("EIO", 5, 0, 0),
    ("EIO from then on", 5, 0, 1),
    ("ENOSPC", 28, 0, 0),
    ("ENOSPC after a part", 28, 1, 0),
    ("ENOSPC after a part, from then on", 28, 1, 1),
    ("EDQUOT from then on", 122, 0, 1),
    ("EMFILE", 24, 0, 0),
    ("EACCES", 13, 0, 0),
    ("death inside, early", 0, 2, 0),
    ("EIO, then death", 5, 3, 0),
    ("EXDEV, then death", 18, 3, 0),
    ("EXDEV", 18, 0, 0),
];

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let mut r = ctx.rng("scenario");
    let root = ctx.root.clone();
    if ctx.index % 12 == 7 {
        return both(ctx, &mut r);
    }
    // a few small creations are cut at every byte, a stretch of bytes at a time
    let window = r.u64();
    let bytewise = r.chance(1, 8);
    if bytewise {
        r = Rng::new(0x9b17_e5ee ^ r.below(8));
    }
    let name = match r.below(12) {
        0 => "out",
        1 => "out.tar.jbk",
        2 => "out.jbkm",
        3 => "no ext.",
        4 => "out.jbkc",
        _ => "out.jbk",
    };
    let out = ctx.path(name);
    // what was there before
    let prev = r.below(5);
    let mut before: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let (old, _) = gen_spec_with(ctx, &mut r, true, (1, 4, 2));
    let junk = { let n = r.idx(3000); r.bytes(n) };
    let tiny = r.chance(3, 4) || bytewise;
    let (mut spec, _) = gen_spec_with(ctx, &mut r, tiny, (1, 2, 3));
    spec.extras.truncate(3);
    let mut small = spec.clone();
    if total(&spec.contents) > 60_000 {
        // (a boundary of 2^16 or thousands of contents, one time in a while)
        small.contents.truncate(40);
        spec = small;
    }
    match prev {
        0 | 1 => {}
        2 => {
            before.insert(name.into(), junk);
        }
        _ => {
            create::write_sources(&root, &old);
            let mut cfg = ctx.noise("before", 0);
            cfg.ncpu = 2;
            let m = make(ctx, &cfg, &out, &old);
            if !matches!(m.returned, Some(Ok(_))) {
                return fail("create", format!("creation fails: {} {:?}", m.outcome.describe(), m.returned.map(|x| x.err())));
            }
            before = files_of(&root);
        }
    }
    let was = before.get(name).cloned();
    create::write_sources(&root, &spec);
    let mut cfg = ctx.noise("create", 1);
    if total(&spec.contents) > 20_000 {
        cfg.p_short_read = cfg.p_short_read.min(2000);
        cfg.p_short_write = cfg.p_short_write.min(2000);
    }
    cfg.fault_kind = F_CRASH;
    cfg.fault_at = u64::MAX;
    cfg.fault_mask = C_READ | C_WRITE | C_META | C_OPEN | C_OUT | C_SRC;
    ctx.tell(format!("{name} before {prev} {}", describe(&spec)));
    // ------------------------------------------------ whole
    put_back(&root, &before);
    let m = make(ctx, &cfg, &out, &spec);
    let m_stats = m.stats.clone();
    let points = m_stats.eligible;
    let built = match (m.outcome, m.returned) {
        (_, Some(Ok(b))) => b,
        (_, Some(Err(e))) => return fail("create", format!("creation fails: {e}")),
        (o, None) => return fail("create", format!("creation: {}", o.describe())),
    };
    let want = spec.facts(&built);
    if let Err(e) = complete(ctx, name, &spec, &want) {
        return fail("incomplete", format!("no fault, {:?} at {name}: {e}", spec.mode));
    }
    // ------------------------------------------------ with a fault
    let bytes = m_stats.bytes_written.max(1);
    let sweep = r.chance(1, 8) && points < 400;
    let kind = r.idx(FAULTS.len());
    let plan: Vec<(u64, usize, u64)> = if bytewise {
        let first = window % bytes;
        ctx.count("stretches.of_bytes", 1);
        (0..40).map(|j| ((first + j) % bytes, [1, 1, 3, 7][(window >> 48) as usize % 4], 0)).collect()
    } else if sweep {
        (0..points).map(|k| (k, kind, r.u64())).collect()
    } else {
        (0..10)
            .map(|_| {
                // the last operations are where files get their names
                let k = if r.chance(1, 3) { points - 1 - r.below(points.min(12)) } else { r.below(points) };
                (k, r.idx(FAULTS.len()), r.u64())
            })
            .collect()
    };
    ctx.count("sweeps.of_every_operation", sweep as u64);
    for (k, f, s) in plan {
        if !ctx.keep() {
            continue;
        }
        let mut q = Rng::new(s);
        let (what, errno, share, sticky) = FAULTS[f];
        let mut c = cfg.clone();
        if bytewise {
            c.fault_byte = k + 1;
        } else {
            c.fault_at = k;
        }
        c.fault_kind = if errno == 0 { F_CRASH } else { F_ERRNO };
        c.fault_errno = errno;
        c.fault_sticky = sticky;
        c.fault_partial = match share {
            1 => q.below(65536) as u32,
            2 => q.below(600) as u32,
            3 => {
                c.fault_then = q.range(1, 8) as u32;
                q.below(65536) as u32
            }
            x => x,
        };
        put_back(&root, &before);
        let m = make(ctx, &c, &out, &spec);
        let hit = m.stats.f_errno + m.stats.f_crash > 0;
        ctx.count(&format!("faulted.{what}"), hit as u64);
        let how = match (&m.outcome, &m.returned) {
            (_, Some(Ok(_))) => "returns success",
            (_, Some(Err(_))) => "returns an error",
            (Outcome::Crash, _) => "dies",
            (Outcome::Panic(_), _) => "panics",
            (Outcome::Deadlock(_), _) => "waits for ever",
            (Outcome::Lost, _) => continue,
            _ => "ends otherwise",
        };
        ctx.count(&format!("creation.{how}"), 1);
        let now = std::fs::read(&out).ok();
        let tell = format!("{:?} at {name} (before: {}): {what} at {}: creation {how}", spec.mode, ["nothing", "nothing", "other bytes", "a container", "a container"][prev as usize], if bytewise { format!("byte {k} of {bytes} written") } else { format!("operation {k} of {points}") });
        let state = match &now {
            None if was.is_none() => "absent",
            None => return fail("lost", format!("{tell}, and the previous file is gone")),
            Some(b) if Some(b) == was.as_ref() => "as before",
            Some(_) => {
                if let Err(e) = complete(ctx, name, &spec, &want) {
                    return fail("destination", format!("{tell}, and the destination holds something which is not the new container: {e}"));
                }
                "new"
            }
        };
        if how == "returns success" && state != "new" {
            return fail("success", format!("{tell}, and the destination is {state}"));
        }
        ctx.count(&format!("destination.{state}"), 1);
        // and once more, over what was left behind
        if hit && q.chance(1, 3) && ctx.keep() {
            create::write_sources(&root, &old);
            let mut c = cfg.clone();
            (c.sched_seed, c.env_seed, c.io_seed) = (q.u64(), q.u64(), q.u64());
            let m = make(ctx, &c, &out, &old);
            let later = std::fs::read(&out).ok();
            ctx.count("again_after_a_fault.creations", 1);
            let done = match m.returned {
                Some(Ok(b)) => {
                    ctx.count("again_after_a_fault.successes", 1);
                    if let Err(e) = complete(ctx, name, &old, &old.facts(&b)) {
                        return fail("again", format!("{tell}; another creation ({:?}) then succeeds, and the destination is not the new container: {e}", old.mode));
                    }
                    true
                }
                _ => false,
            };
            if !done && later != now {
                return fail("again", format!("{tell}; another creation ({:?}) then fails ({}), and the destination has changed", old.mode, m.outcome.describe()));
            }
            create::write_sources(&root, &spec);
        }
        if hit {
            ctx.state(hs(h(k, points), &format!("{:?}{prev}{what}{}", spec.mode, spec.extras.len())));
        }
    }
    ctx.sample(|| format!("{points} operations, {}", describe(&spec)));
    Ok(())
}
