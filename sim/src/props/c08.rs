//! C08: the created container does not depend on how compression workers are scheduled.

use super::common::*;
use super::Check;
use crate::create::{self, es, input, pair};
use crate::ctx::*;
use crate::decode::Decoder;
use crate::facts::*;
use crate::model::*;
use crate::rng::{mix64, Rng};
use crate::rt::*;
use jubako::creator::{ContentPackCreator, Progress};
use jubako::reader::{ByteRegion, Container, ContentPack};
use jubako::{FileSource, Offset, Pack, Reader, Size, VendorId};
use std::io::Read;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C08",
    run,
    quick: 1200,
    thorough: 60_000,
    level: "exploration",
    rule: "seeded insertion sequences of four sizes: two clusters (one raw, one compressed); 2 to 14 clusters; 30 to 70 clusters (more than twice 15 workers); 1 to 4 times 4095 tiny contents, raw and compressed mixed. Each is created under several schedules: 1 to 15 compression workers, seeded preemption (random and priority-based) at every atomic, lock, allocation and file operation, stalled worker or writer threads, spurious wake-ups, short reads and writes, and seeded pauses (simulated time) of workers, writer and caller at every progress callback. \
           Each file is then decoded by the harness (every content), read by jubako (sizes, both ends of each content, some whole) and checked; creation must return. A case counts per creation of two clusters or more; distinct by the order clusters reach the file in and the number of workers",
    real: "jubako content pack creation (insertion, compression workers, queue limit, cluster writer), BasicCreator, reader, codecs, spmc and mpsc channels, std",
    stub: "kernel scheduling, futexes, clock, sleeping, randomness, CPU count; file system results (short reads and writes injected)",
    assumptions: &["sequentially consistent memory", "threads preempted only at atomic operations, allocations, futex and file operations and progress callbacks"],
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Family {
    Small,
    Some_,
    Long,
    Tiny,
}

/// Pauses where the creator calls back, as a seed decides.
struct Pause {
    seed: u64,
    /// of 8, how many calls are paused: by caller, workers, writer before and after
    rate: [u64; 4],
    written: Mutex<Vec<u32>>,
}
impl Pause {
    fn at(&self, what: usize, n: u64) {
        let mut r = Rng::new(mix64(self.seed ^ mix64(n * 4 + what as u64)));
        if r.below(8) >= self.rate[what] {
            return;
        }
        match r.below(4) {
            0 => (0..r.below(40)).for_each(|_| yield_point()),
            1 => std::thread::sleep(std::time::Duration::from_micros(r.below(100))),
            2 => std::thread::sleep(std::time::Duration::from_millis(r.below(20))),
            _ => std::thread::sleep(std::time::Duration::from_millis(r.below(2000))),
        }
    }
}
impl Progress for Pause {
    fn new_cluster(&self, i: u32, _c: bool) {
        self.at(0, i as u64);
    }
    fn handle_cluster(&self, i: u32, c: bool) {
        self.at(if c { 1 } else { 2 }, i as u64);
    }
    fn handle_cluster_written(&self, i: u32) {
        self.written.lock().unwrap().push(i);
        self.at(3, i as u64);
    }
}

fn marks(r: &mut Rng) -> Content {
    const M: u64 = 1 << 20;
    let len = match r.below(6) {
        0 => 4 * M + r.below(3) - 1,
        1 => r.range(2 * M + 1, 4 * M),
        _ => 2 * M + 1 + r.below(9000),
    };
    Content { seed: r.u64(), len: len as usize, pat: Pat::Marks, hint: if r.chance(1, 6) { Hint::Detect } else { Hint::Yes }, src: Src::Mem }
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let mut r = ctx.rng("scenario");
    let root = ctx.root.clone();
    let family = match r.below(100) {
        0..=54 => Family::Small,
        55..=84 => Family::Some_,
        85..=94 => Family::Long,
        _ => Family::Tiny,
    };
    let mut cs: Vec<Content> = vec![];
    match family {
        Family::Small => {
            cs = gen_contents(ctx, &mut r, Plan::Mixed(14, 6000));
        }
        Family::Some_ | Family::Long => {
            let n = if family == Family::Long { r.range(30, 70) } else { r.range(2, 14) };
            let small = *r.pick(&[0, 1, 1, 3]);
            for _ in 0..n {
                let c = marks(&mut r);
                if ctx.keep() {
                    cs.push(c);
                }
                for _ in 0..r.below(small + 1) {
                    let mut c = Content::gen(&mut r, 3000);
                    // (a few of them raw)
                    if r.chance(1, 2) {
                        c.hint = Hint::No;
                    }
                    if ctx.keep() {
                        cs.push(c);
                    }
                }
            }
            if r.chance(1, 10) {
                // a big raw one
                let c = Content { hint: Hint::No, ..marks(&mut r) };
                if ctx.keep() {
                    let at = r.idx(cs.len() + 1);
                    cs.insert(at, c);
                }
            }
        }
        Family::Tiny => {
            let k = r.range(1, 4);
            cs = gen_contents(ctx, &mut r, Plan::Many(k));
        }
    }
    if cs.is_empty() {
        return Ok(());
    }
    let bytes = total(&cs);
    let comp = match r.below(if family == Family::Small { 6 } else { 9 }) {
        0 if family != Family::Long => Comp::Lzma(0),
        1 => Comp::Lz4(r.below(3) as u32),
        2 | 6 => Comp::Lz4(1),
        _ if bytes > 1 << 20 => Comp::Zstd(1 - r.below(6) as i32),
        3 => Comp::Zstd(3),
        _ => Comp::gen(&mut r),
    };
    let mut spec = Spec::empty();
    spec.mode = *r.pick(&Mode::ALL);
    spec.contents = cs;
    spec.comp = comp;
    let high = r.chance(1, 2);
    spec.cached = high && family == Family::Small && r.chance(1, 4);
    create::write_sources(&root, &spec);
    ctx.tell(format!("{family:?} high {high} {}", describe(&spec)));
    let out = format!("{root}/out.jbk");
    let loose = format!("{root}/loose.jbkc");
    let rounds = if family == Family::Small { 3 } else { 2 };
    for k in 0..rounds {
        let mut q = Rng::new(r.u64());
        if !ctx.keep() {
            continue;
        }
        for e in std::fs::read_dir(&root).expect("dir").flatten() {
            if !e.file_name().to_string_lossy().starts_with("src") {
                std::fs::remove_file(e.path()).expect("remove");
            }
        }
        let mut cfg = ctx.noise(&format!("create{k}"), if q.chance(1, 3) { 2 } else { 1 });
        cfg.ncpu = ctx.knob(&format!("workers{k}"), *q.pick(&[1, 2, 2, 3, 3, 4, 5, 7, 9, 12, 16]), 2) as u32;
        if q.chance(1, 3) {
            cfg.stall_thread = ctx.knob(&format!("stall{k}"), q.range(1, cfg.ncpu.max(2) as u64 + 1), 0) as u32;
        }
        if bytes > 200_000 {
            cfg.p_short_read = cfg.p_short_read.min(2000);
            cfg.p_short_write = cfg.p_short_write.min(2000);
        }
        if family == Family::Tiny {
            // many callbacks, few of interest
            cfg.p_spurious = cfg.p_spurious.min(500);
        }
        let slow = ctx.knob(&format!("pauses{k}"), 1, 0);
        let rate = std::array::from_fn(|_| *q.pick(&[0, 0, 1, 4, 8]) * slow);
        let seed = q.u64();
        ctx.tell(format!("creation {k}: {} workers, pauses {rate:?}", cfg.ncpu.max(2) - 1));
        let ph = ctx.phase(&cfg, || {
            let mut e = Enc::default();
            let pause = Arc::new(Pause { seed, rate, written: Mutex::new(vec![]) });
            let made: create::Es<Vec<(u16, u32)>> = if high {
                create::create(&root, &out, &spec, pause.clone()).map(|b| b.addrs[0].clone())
            } else {
                (|| {
                    let mut cp = ContentPackCreator::new_with_progress(
                        &loose,
                        1.into(),
                        VendorId::from(spec.vendor),
                        Default::default(),
                        create::compression(spec.comp),
                        pause.clone(),
                    )
                    .map_err(es)?;
                    let mut v = vec![];
                    for (j, c) in spec.contents.iter().enumerate() {
                        v.push(pair(cp.add_content(input(&root, 0, j, c)?, create::hint(c.hint)).map_err(es)?));
                    }
                    cp.finalize().map_err(es)?;
                    Ok(v)
                })()
            };
            match made {
                Ok(a) => {
                    e.u(1);
                    let w = pause.written.lock().unwrap();
                    e.u(w.len() as u64);
                    w.iter().for_each(|i| e.u(*i as u64));
                    e.u(a.len() as u64);
                    for (p, i) in a {
                        e.u(p as u64);
                        e.u(i as u64);
                    }
                }
                Err(m) => {
                    e.u(0);
                    e.b(m.as_bytes());
                }
            }
            e.0
        });
        let sig = match ph.outcome {
            Outcome::Deadlock(_) | Outcome::StepCap | Outcome::CpuHang => "no-progress",
            _ => "create",
        };
        let blocks = ph.stats.blocks;
        let b = ctx.must(ph, sig, &format!("creation with {} workers", cfg.ncpu.max(2) - 1))?;
        let mut d = Dec(&b);
        if d.u() != 1 {
            return fail("create", format!("creation fails: {}", d.s()));
        }
        let order: Vec<u64> = (0..d.u()).map(|_| d.u()).collect();
        let addrs: Vec<(u16, u32)> = (0..d.u()).map(|_| (d.u() as u16, d.u() as u32)).collect();
        // ------------------------------------------------ as decoded
        let file = if !high {
            loose.clone()
        } else if spec.mode == Mode::OneFile {
            out.clone()
        } else {
            format!("{root}/out.jbkc")
        };
        let img = std::fs::read(&file).expect("read");
        let mut dec_ = Decoder::new(&img);
        let packs = match dec_.all() {
            Ok(v) => v,
            Err(m) => return fail("layout", format!("the file is not a pack: {m}")),
        };
        if let Some(p) = dec_.problems.first() {
            return fail("layout", p.clone());
        }
        let Some(body) = packs.iter().find_map(|p| p.content()) else { return fail("layout", "no content pack") };
        let mut data: Vec<Option<Vec<u8>>> = vec![None; body.clusters.len()];
        // (decompressed one after the other, not all at once)
        let mut by: Vec<usize> = (0..addrs.len()).collect();
        by.sort_by_key(|i| body.infos.get(addrs[*i].1 as usize));
        let mut last = usize::MAX;
        for i in by {
            let (pk, id) = addrs[i];
            let w = spec.contents[i].bytes();
            let Some((cl, bl)) = body.infos.get(id as usize).copied() else {
                return fail("content", format!("insertion {i} got address {pk}/{id}, of {} contents", body.infos.len()));
            };
            let cl = cl as usize;
            if cl != last {
                if let Some(x) = data.get_mut(last) {
                    *x = None;
                }
                data[cl] = Some(match dec_.cluster_data(&body.clusters[cl]) {
                    Ok(v) => v,
                    Err(m) => return fail("content", format!("cluster {cl}: {m}")),
                });
                last = cl;
            }
            let (a, b) = body.clusters[cl].blobs[bl as usize];
            let got = data[cl].as_ref().unwrap().get(a..b);
            if got != Some(&w[..]) {
                return fail("content", format!("insertion {i} ({} bytes) is not at its address {pk}/{id} (cluster {cl} of {}, order in the file {order:?})", w.len(), body.clusters.len()));
            }
        }
        let n_contents = body.infos.len();
        let n_clusters = body.clusters.len();
        let mut distinct = addrs.clone();
        distinct.sort();
        distinct.dedup();
        if n_contents != distinct.len() {
            return fail("content", format!("{} contents at {} addresses", n_contents, distinct.len()));
        }
        // ------------------------------------------------ as read
        let mut cfg = ctx.noise(&format!("read{k}"), if family == Family::Small { 1 } else { 0 });
        cfg.p_short_read = cfg.p_short_read.min(2000);
        let few: Vec<usize> = if addrs.len() > 400 { (0..300).map(|_| q.idx(addrs.len())).collect() } else { (0..addrs.len()).collect() };
        let whole: Vec<bool> = few.iter().map(|_| bytes < 100_000 || q.chance(1, 12)).collect();
        let end = bytes < 100_000 || family == Family::Some_ && q.chance(1, 3);
        let ph = ctx.phase(&cfg, || {
            let mut e = Enc::default();
            let res = (|| -> Result<bool, String> {
                let c = if high { Some(Container::new(&out).map_err(es)?) } else { None };
                let p = if high { None } else { Some(ContentPack::new(Reader::from(FileSource::open(&loose).map_err(es)?)).map_err(es)?) };
                let get = |a: (u16, u32)| -> Result<Option<ByteRegion>, String> {
                    match (&c, &p) {
                        (Some(c), _) => Ok(c.get_bytes(addr(a.0, a.1)).map_err(es)?.and_then(|m| m.get()).flatten()),
                        (_, Some(p)) => p.get_content(a.1.into()).map_err(es),
                        _ => Ok(None),
                    }
                };
                for (i, all) in few.iter().zip(&whole) {
                    let w = quiet(|| spec.contents[*i].bytes());
                    let a = addrs[*i];
                    let Some(g) = get(a)? else { return Err(format!("nothing at address {a:?} of insertion {i}")) };
                    if g.size() != Size::from(w.len()) {
                        return Err(format!("insertion {i} of {} bytes has size {} at {a:?}", w.len(), g.size()));
                    }
                    let mut look = vec![(0, w.len().min(100))];
                    if end {
                        look.push((w.len() - w.len().min(100), w.len().min(100)));
                    }
                    for (o, n) in look {
                        if *g.get_slice(Offset::from(o), n).map_err(es)? != w[o..o + n] {
                            return Err(format!("insertion {i}: {n} bytes at {o} of {} are not the stored ones at {a:?}", w.len()));
                        }
                    }
                    if *all {
                        let mut v = vec![];
                        g.stream().read_to_end(&mut v).map_err(es)?;
                        if v != w {
                            return Err(format!("insertion {i} of {} bytes reads back otherwise at {a:?}", w.len()));
                        }
                    }
                }
                match (&c, &p) {
                    (Some(c), _) => c.check().map_err(es),
                    (_, Some(p)) => p.check().map_err(es),
                    _ => Ok(false),
                }
            })();
            match res {
                Ok(ok) => e.u(ok as u64),
                Err(m) => {
                    e.u(2);
                    e.b(m.as_bytes());
                }
            }
            e.0
        });
        let b = ctx.must(ph, "read", "reading")?;
        let mut d = Dec(&b);
        match d.u() {
            1 => {}
            0 => return fail("check", "the pack does not verify"),
            _ => return fail("content", d.s()),
        }
        ctx.count(&format!("family.{family:?}"), 1);
        ctx.count("clusters.written", n_clusters as u64);
        ctx.count("contents.verified", addrs.len() as u64);
        if n_clusters >= 2 {
            let late = order.windows(2).filter(|w| w[0] > w[1]).count() as u64;
            ctx.count("clusters.out_of_order", late);
            ctx.count("creations.with_clusters_out_of_order", (late > 0) as u64);
            ctx.count("creations.of_more_clusters_than_the_queue", (n_clusters as u32 > 2 * (cfg_workers(ctx, k))) as u64);
            ctx.state(h(order.iter().fold(3, |a, x| h(a, *x)), h(cfg_workers(ctx, k) as u64, (blocks > 40) as u64)));
        }
    }
    ctx.sample(|| format!("{family:?} {}", describe(&spec)));
    Ok(())
}

fn cfg_workers(ctx: &Ctx, k: i32) -> u32 {
    ctx.knobs_used.get(&format!("workers{k}")).map(|v| v.0.max(2) as u32 - 1).unwrap_or(1)
}
