//! C07: concurrent readers of one container always get exactly the stored bytes.

use super::common::*;
use super::Check;
use crate::create::{self, es, fill_directory};
use crate::ctx::*;
use crate::encode::*;
use crate::facts::*;
use crate::model::*;
use crate::rng::Rng;
use crate::rt::*;
use jubako::creator::{AtomicOutFile, ContainerPackCreator, ContentPackCreator, DirectoryPackCreator, ManifestPackCreator, PackRecipient};
use jubako::reader::{ByteRegion, Container, MayMissPack};
use jubako::{Offset, Size, VendorId};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::io::Read;
use std::sync::Arc;

pub const CHECK: Check = Check {
    id: "C07",
    run,
    quick: 6000,
    thorough: 300_000,
    level: "exploration",
    rule: "seeded reader programs of 2..12 threads on one opened container, under seeded schedules (random and priority-based preemption at every atomic, lock, allocation and file operation, stalled threads, spurious wake-ups), short reads, EINTR and read errors. \
           Four families: one cluster of up to 3 decoding chunks and 2 or 3 readers asking for ranges around the chunk limits; 9 to 24 clusters decoding at once (the pool has 8 threads); 41 to 120 clusters (40 are cached); packs written by jubako itself, up to clusters of 4 MiB. \
           The packs of the first three are written by the harness from the documented layout (clusters of a few kB: jubako would need hundreds of MB to make as many), raw or under each codec, in one to three packs, alone or together in a container file. \
           Threads read equal and different contents, whole or partial ranges (slices, exact reads, streams in seeded steps), keep regions and borrowed slices across other reads and look at them again, read entries and check the container meanwhile. \
           Every byte, size and count is compared with what is stored; deadlock, panic, faults and lack of progress are failures. A case counts per phase with two readers or more; distinct by family, codec, packaging, threads and amount of blocking",
    real: "jubako container and content pack readers, cluster cache, SeekableDecoder and its rayon pool, caches of stores, FileSource, codecs, std",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (short reads, EINTR, EIO injected); allocator (freed memory poisoned or unmapped, fresh memory filled)",
    assumptions: &["sequentially consistent memory", "threads preempted only at atomic operations, allocations, futex and file operations", "an error is only accepted when a read error was injected"],
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Family {
    Micro,
    Pool,
    Cache,
    Real,
}

struct Pk {
    id: u16,
    uuid: [u8; 16],
    clusters: Vec<EncCluster>,
    order: Vec<usize>,
    infos: Vec<(u32, u16)>,
}

/// Bytes no other content has at the same place, that compress or not.
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    if r.chance(1, 4) {
        return r.bytes(n);
    }
    let words: Vec<[u8; 6]> = (0..40).map(|_| r.bytes(6).try_into().unwrap()).collect();
    let mut v = Vec::with_capacity(n + 6);
    while v.len() < n {
        v.extend_from_slice(&words[r.idx(40)]);
    }
    v.truncate(n);
    v
}

fn gen_cluster(r: &mut Rng, comp: u8, chunks: u64, blobs: u64) -> EncCluster {
    let total = match r.below(4) {
        0 => (r.range(1, chunks) * 4096 + r.below(5)).saturating_sub(2),
        _ => r.below(chunks * 4096 + 1),
    } as usize;
    let total = total.max(1);
    let n = r.range(1, blobs) as usize;
    let mut cuts: Vec<usize> = (1..n)
        .map(|_| match r.below(4) {
            0 => (r.below(chunks + 1) * 4096 + r.below(3)).saturating_sub(1) as usize,
            1 => 0,
            _ => r.idx(total + 1),
        })
        .map(|c| c.min(total))
        .chain([0, total])
        .collect();
    cuts.sort();
    EncCluster { comp, blobs: cuts.windows(2).map(|w| bytes(r, w[1] - w[0])).collect() }
}

fn gen_pack(ctx: &mut Ctx, r: &mut Rng, id: u16, clusters: u64, chunks: u64, blobs: u64, comps: &[u8]) -> Pk {
    let mut cs = vec![];
    let mut infos = vec![];
    let mut rest = vec![];
    for _ in 0..clusters {
        let c = { let c = *r.pick(comps); gen_cluster(r, c, chunks, blobs) };
        if ctx.keep() || cs.is_empty() {
            for b in 0..c.blobs.len() {
                // contents are mostly numbered cluster after cluster
                if r.chance(1, 8) {
                    rest.push((cs.len() as u32, b as u16));
                } else {
                    infos.push((cs.len() as u32, b as u16));
                }
            }
            cs.push(c);
        }
    }
    infos.extend(rest);
    let mut order: Vec<usize> = (0..cs.len()).collect();
    for i in 0..order.len() {
        let j = i + r.idx(order.len() - i);
        order.swap(i, j);
    }
    Pk { id, uuid: r.bytes(16).try_into().unwrap(), clusters: cs, order, infos }
}

/// Directory and manifest by jubako, for packs already on disk.
fn assemble(root: &str, out: &str, dir: &Dir, packs: &[(u16, [u8; 16], usize, u32)], together: bool) -> create::Es<Built> {
    let vendor = || VendorId::from([1, 2, 3, 4]);
    let handles: create::Handles = Default::default();
    let addrs: Vec<Vec<(u16, u32)>> = packs.iter().map(|(id, _, _, n)| (0..*n).map(|i| (*id, i)).collect()).collect();
    let mut dp = DirectoryPackCreator::new(0.into(), vendor(), dir.free.into());
    fill_directory(dir, &addrs, &mut dp, &handles);
    let mut f = AtomicOutFile::new(format!("{root}/dir.jbkd")).map_err(es)?;
    let ddata = dp.finalize().map_err(es)?.write(&mut *f).map_err(es)?;
    f.close_file().map_err(es)?;
    let mut mc = ManifestPackCreator::new(vendor(), Default::default());
    let mut parts = vec![(format!("{root}/dir.jbkd"), ddata.uuid)];
    mc.add_pack(ddata, if together { "" } else { "dir.jbkd" });
    for (id, uuid, size, _) in packs {
        // (what describes a pack can only be had from a creator)
        let cp = ContentPackCreator::new(format!("{root}/dummy"), (*id).into(), vendor(), Default::default(), jubako::creator::Compression::None).map_err(es)?;
        let (_, mut d) = cp.finalize().map_err(es)?;
        d.uuid = uuid::Uuid::from_bytes(*uuid);
        d.pack_size = Size::from(*size);
        parts.push((format!("{root}/c{id}.jbkc"), d.uuid));
        mc.add_pack(d, if together { String::new() } else { format!("c{id}.jbkc") });
    }
    let mpath = if together { format!("{root}/man.jbkm") } else { out.to_string() };
    let mut f = AtomicOutFile::new(&mpath).map_err(es)?;
    let muuid = mc.finalize(&mut *f).map_err(es)?;
    f.close_file().map_err(es)?;
    if together {
        let mut c = ContainerPackCreator::new(out, Default::default()).map_err(es)?;
        parts.push((mpath, muuid));
        for (p, u) in &parts {
            let mut f = std::fs::File::open(p).map_err(es)?;
            c.add_pack(*u, &mut f).map_err(es)?;
        }
        c.finalize().map_err(es)?;
        quiet(|| parts.iter().for_each(|(p, _)| drop(std::fs::remove_file(p))));
    }
    Ok(Built { addrs: vec![], handles: create::final_handles(&handles) })
}

type Want = BTreeMap<(u16, u32), Vec<u8>>;

/// What one reader does.
#[derive(Clone, Copy, Debug)]
struct Prog {
    seed: u64,
    ops: u64,
    /// 0 anything, 1 the same few contents, 2 one after the other, 3 ask for many before reading any
    style: u64,
    entries: bool,
}

struct Rd<'a> {
    r: Rng,
    c: &'a Container,
    want: &'a Want,
    keys: &'a [(u16, u32)],
    facts: &'a Facts,
    names: &'a [String],
    p: Prog,
    eio: bool,
    at: usize,
    held: Vec<(ByteRegion, (u16, u32))>,
    n: [u64; 4],
}
const READS: usize = 0;
const BYTES: usize = 1;
const ERRS: usize = 2;
const ENTRIES: usize = 3;

type W<T = ()> = Result<T, String>;

impl<'a> Rd<'a> {
    fn err<T>(&mut self, what: String, e: impl std::fmt::Display) -> W<Option<T>> {
        if self.eio {
            self.n[ERRS] += 1;
            return Ok(None);
        }
        Err(format!("{what}: {e}"))
    }
    fn same(&mut self, what: &str, k: (u16, u32), from: usize, got: &[u8], n: usize) -> W {
        self.n[BYTES] += got.len() as u64;
        let w = &self.want[&k][from..from + n];
        if got.len() != n {
            return Err(format!("{what}: content {k:?}: {} bytes at {from}, not {n}", got.len()));
        }
        if let Some(i) = (0..n).find(|i| got[*i] != w[*i]) {
            let whose = self.want.iter().find(|(_, v)| n - i >= 8 && v.windows(8).any(|x| x == &got[i..i + 8]));
            let whose = match whose {
                Some((o, _)) => format!("; they are in {o:?}"),
                None => String::new(),
            };
            return Err(format!(
                "{what}: content {k:?} of {} bytes, {n} bytes at {from}: byte {} is {:02x}, not {:02x} ({} bytes differ{whose})",
                self.want[&k].len(),
                from + i,
                got[i],
                w[i],
                (0..n).filter(|i| got[*i] != w[*i]).count()
            ));
        }
        Ok(())
    }
    fn choose(&mut self) -> (u16, u32) {
        let n = self.keys.len();
        let i = match self.p.style {
            1 => self.r.idx(n.min(3)),
            2 => {
                self.at = (self.at + 1 + (self.r.below(6) == 0) as usize) % n;
                self.at
            }
            _ => self.r.idx(n),
        };
        self.keys[i]
    }
    fn get(&mut self, k: (u16, u32)) -> W<Option<ByteRegion>> {
        let got = if self.r.chance(1, 3) {
            match self.c.get_pack(k.0.into()) {
                Ok(Some(MayMissPack::FOUND(p))) => p.get_content(k.1.into()),
                Ok(_) => return Err(format!("pack {} is not there", k.0)),
                Err(e) => Err(e),
            }
        } else {
            match self.c.get_bytes(addr(k.0, k.1)) {
                Ok(Some(MayMissPack::FOUND(g))) => Ok(g),
                Ok(_) => return Err(format!("pack {} is not there", k.0)),
                Err(e) => Err(e),
            }
        };
        match got {
            Ok(Some(g)) => {
                let n = self.want[&k].len();
                if g.size() != Size::from(n) {
                    return Err(format!("content {k:?} of {n} bytes has size {}", g.size()));
                }
                Ok(Some(g))
            }
            Ok(None) => Err(format!("content {k:?} is not there")),
            Err(e) => self.err(format!("content {k:?}"), e),
        }
    }
    /// A range, mostly around where decoding chunks end.
    fn range(&mut self, len: usize) -> (usize, usize) {
        let end = match self.r.below(5) {
            0 => len,
            1 => (self.r.idx(len / 4096 + 1) * 4096 + self.r.idx(3)).saturating_sub(1).min(len),
            _ => self.r.idx(len + 1),
        };
        let from = match self.r.below(4) {
            0 => 0,
            1 => end.saturating_sub(1 + self.r.idx(3)),
            _ => self.r.idx(end + 1),
        };
        (from, end - from)
    }
    /// Reads through a region, in one of many ways.
    fn read(&mut self, g: &ByteRegion, k: (u16, u32), depth: u32) -> W {
        self.n[READS] += 1;
        let len = self.want[&k].len();
        match self.r.below(6) {
            0 => {
                // a borrowed slice, looked at again after other things
                let (o, n) = self.range(len);
                match g.get_slice(Offset::from(o), n) {
                    Ok(b) => {
                        self.same("slice", k, o, &b, n)?;
                        if depth > 0 {
                            self.step(depth - 1)?;
                        }
                        let kept = matches!(b, Cow::Borrowed(_));
                        self.same(if kept { "the same slice later" } else { "the same copy later" }, k, o, &b, n)?;
                    }
                    Err(e) => drop(self.err::<()>(format!("slice of {k:?}"), e)?),
                }
            }
            1 => {
                let mut s = g.stream();
                let mut v = vec![];
                match s.read_to_end(&mut v) {
                    Ok(_) => self.same("stream", k, 0, &v, len)?,
                    Err(e) => drop(self.err::<()>(format!("stream of {k:?}"), e)?),
                }
            }
            2 => {
                // a stream in steps
                let mut s = g.stream();
                let mut at = 0;
                for _ in 0..6 {
                    let n = match self.r.below(4) {
                        0 => 1,
                        1 => 4096,
                        _ => self.r.idx(6000) + 1,
                    };
                    let mut b = vec![0xee; n];
                    match s.read(&mut b) {
                        Ok(0) if at == len => break,
                        Ok(0) => return Err(format!("stream of {k:?}: nothing at {at} of {len}")),
                        Ok(x) if x > n || at + x > len => return Err(format!("stream of {k:?}: {x} bytes at {at} of {len}")),
                        Ok(x) => {
                            self.same("stream step", k, at, &b[..x], x)?;
                            at += x;
                        }
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(e) => {
                            self.err::<()>(format!("stream of {k:?}"), e)?;
                            break;
                        }
                    }
                    if depth > 0 && self.r.chance(1, 6) {
                        self.step(depth - 1)?;
                    }
                }
            }
            3 => {
                let (o, n) = self.range(len);
                let cut = g.cut(Offset::from(o), Size::from(n));
                let mut b = vec![0xee; n];
                match cut.stream().read_exact(&mut b) {
                    Ok(()) => self.same("exact read", k, o, &b, n)?,
                    Err(e) => drop(self.err::<()>(format!("exact read of {k:?}"), e)?),
                }
            }
            _ => {
                let (o, n) = self.range(len);
                match g.get_slice(Offset::from(o), n) {
                    Ok(b) => self.same("slice", k, o, &b, n)?,
                    Err(e) => drop(self.err::<()>(format!("slice of {k:?}"), e)?),
                }
            }
        }
        Ok(())
    }
    fn step(&mut self, depth: u32) -> W {
        if self.p.entries && self.r.chance(1, 6) {
            let name = self.r.pick(self.names).clone();
            let mut f = Facts::new();
            match self.c.get_index_for_name(&name) {
                Ok(Some(ix)) => read_index(self.c, &name, &ix, &crate::facts::Want { max_entries: 12, ..Default::default() }, &mut f),
                Ok(None) => return Err(format!("no index {name}")),
                Err(e) => drop(self.err::<()>(format!("index {name}"), e)?),
            }
            for (k, v) in f {
                self.n[ENTRIES] += 1;
                match self.facts.get(&k) {
                    Some(w) if *w == v => {}
                    Some(_) if self.eio && v.is_err() => self.n[ERRS] += 1,
                    Some(w) => return Err(format!("{k:?} is {v:?}, not {w:?}")),
                    None if self.eio && v.is_err() => {}
                    None => return Err(format!("{k:?} is {v:?}, and was not stored")),
                }
            }
            return Ok(());
        }
        if self.r.chance(1, 40) {
            // (whether it passes is another property; the packs are not what the manifest says)
            let _ = self.c.check();
            return Ok(());
        }
        match self.r.below(8) {
            0 | 1 if !self.held.is_empty() => {
                let i = self.r.idx(self.held.len());
                let (g, k) = if self.r.chance(1, 2) { self.held.swap_remove(i) } else { self.held[i].clone() };
                self.read(&g, k, depth)
            }
            2 => {
                let k = self.choose();
                if let Some(g) = self.get(k)? {
                    self.held.push((g, k));
                }
                Ok(())
            }
            _ => {
                let k = self.choose();
                match self.get(k)? {
                    Some(g) => {
                        self.read(&g, k, depth)?;
                        if self.r.chance(1, 6) {
                            self.held.push((g, k));
                        }
                        Ok(())
                    }
                    None => Ok(()),
                }
            }
        }
    }
    fn go(&mut self) -> W {
        self.at = self.r.idx(self.keys.len());
        if self.p.style == 3 {
            for _ in 0..self.p.ops.min(20) {
                let k = self.choose();
                if let Some(g) = self.get(k)? {
                    self.held.push((g, k));
                }
            }
        }
        for _ in 0..self.p.ops {
            self.step(1)?;
            if self.held.len() > 60 {
                let i = self.r.idx(self.held.len());
                self.held.swap_remove(i);
            }
        }
        while let Some((g, k)) = self.held.pop() {
            if self.r.chance(1, 2) {
                self.read(&g, k, 0)?;
            }
        }
        Ok(())
    }
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let mut r = ctx.rng("scenario");
    let root = ctx.root.clone();
    let out = format!("{root}/out.jbk");
    let family = match r.below(100) {
        0..=44 => Family::Micro,
        45..=69 => Family::Pool,
        70..=89 => Family::Cache,
        _ => Family::Real,
    };
    let mut want = Want::new();
    let mut facts = Facts::new();
    let mut names: Vec<String> = vec![];
    let mut shape_ = hs(7, &format!("{family:?}"));
    if family == Family::Real {
        let plan = match r.below(12) {
            0 => Plan::Large,
            _ => Plan::Mixed(30, 20_000),
        };
        let mut spec = Spec::empty();
        spec.mode = *r.pick(&Mode::ALL);
        spec.contents = gen_contents(ctx, &mut r, plan);
        if spec.contents.is_empty() {
            return Ok(());
        }
        spec.comp = gen_comp(ctx, &mut r, total(&spec.contents));
        if total(&spec.contents) > 1 << 20 {
            spec.comp = Comp::Zstd(1);
        }
        spec.extras = gen_extras(ctx, &mut r, 2);
        let cfg = ctx.noise("create", 0);
        let built = create_ok(ctx, &cfg, &spec, Route::High, &Default::default())?;
        for (s, (_, cs)) in spec.slots().iter().enumerate() {
            for (c, a) in cs.iter().zip(&built.addrs[s]) {
                want.insert(*a, c.bytes());
            }
        }
        ctx.tell(describe(&spec));
        shape_ = h(shape_, shape(&spec));
    } else {
        let comps: Vec<u8> = match r.below(6) {
            0 => vec![0, 1, 2, 3],
            1 => vec![1],
            2 => vec![2],
            3 => vec![0, 3],
            _ => vec![3],
        };
        let np = if family == Family::Micro { 1 } else { *r.pick(&[1, 1, 2, 3]) };
        let mut packs = vec![];
        for i in 0..np {
            let (n, chunks, blobs) = match family {
                Family::Micro => (1, r.range(1, 3), r.range(1, 4)),
                Family::Pool => (r.range(9, 24), r.range(1, 6), 3),
                _ => (r.range(41, 120), 2, 3),
            };
            let n = if i == 0 { n } else { n / 4 + 1 };
            packs.push(gen_pack(ctx, &mut r, 1 + i as u16 * 3, n, chunks, blobs, &comps));
        }
        let level = r.below(9) as u32;
        let mut list = vec![];
        for p in &packs {
            let b = content_pack([1, 2, 3, 4], p.uuid, &p.clusters, &p.order, &p.infos, level);
            list.push((p.id, p.uuid, b.len(), p.infos.len() as u32));
            std::fs::write(format!("{root}/c{}.jbkc", p.id), &b).expect("write");
            for (i, (c, b)) in p.infos.iter().enumerate() {
                want.insert((p.id, i as u32), p.clusters[*c as usize].blobs[*b as usize].clone());
            }
        }
        let together = r.chance(1, 2);
        let mut spec = Spec::empty();
        if r.chance(1, 3) {
            let o = DirOpts { sort: false, refs: false, max_arr: 300, max_entries: 15, ..Default::default() };
            let slots: Vec<usize> = list.iter().map(|l| l.3 as usize).collect();
            spec.dir = gen_dir(&mut r, &o, &slots, || ctx.keep());
        }
        ctx.tell(format!(
            "{family:?} comps {comps:?} together {together} clusters {:?} contents {:?}",
            packs.iter().map(|p| p.clusters.len()).collect::<Vec<_>>(),
            want.iter().take(40).map(|(k, v)| (k, v.len())).collect::<Vec<_>>()
        ));
        let cfg = ctx.noise("create", 0);
        let ph = ctx.phase(&cfg, || {
            let mut e = Enc::default();
            match assemble(&root, &out, &spec.dir, &list, together) {
                Ok(b) => e.b(&b.encode()),
                Err(m) => {
                    e.b(b"");
                    e.b(m.as_bytes());
                }
            }
            e.0
        });
        let b = ctx.must(ph, "create", "creation")?;
        let mut d = Dec(&b);
        let b = d.b();
        if b.is_empty() {
            return fail("create", format!("creation fails: {}", d.s()));
        }
        let mut built = Built::decode(b);
        built.addrs = list.iter().map(|(id, _, _, n)| (0..*n).map(|i| (*id, i)).collect()).collect();
        spec.entry_facts(&built, &mut facts);
        names = spec.dir.indexes.iter().map(|i| i.name.clone()).collect();
        shape_ = h(hs(shape_, &format!("{comps:?}{together}")), packs.iter().map(|p| p.clusters.len() as u64).sum());
    }
    let mut keys: Vec<(u16, u32)> = want.keys().copied().collect();
    for i in 0..keys.len().min(5) {
        let j = i + r.idx(keys.len() - i);
        keys.swap(i, j);
    }
    let big = want.values().map(|v| v.len()).sum::<usize>() > 1 << 20;
    // ------------------------------------------------ readers
    let rounds = match family {
        Family::Micro => 4,
        Family::Real if big => 1,
        _ => 2,
    };
    for k in 0..rounds {
        let mut q = Rng::new(r.u64());
        let n = match family {
            Family::Micro => q.range(2, 3),
            Family::Pool => q.range(3, 12),
            _ => q.range(2, 7),
        };
        let mut progs = vec![];
        for i in 0..n {
            let p = Prog {
                seed: q.u64(),
                ops: match family {
                    Family::Micro => q.range(1, 4),
                    Family::Pool => q.range(2, 10),
                    Family::Cache => q.range(10, 60),
                    Family::Real => q.range(2, 12),
                },
                style: if family == Family::Micro { 0 } else { q.below(4) },
                entries: !names.is_empty() && q.chance(1, 2),
            };
            if ctx.keep() {
                progs.push(p);
            }
            let _ = i;
        }
        if progs.is_empty() {
            continue;
        }
        let mut cfg = ctx.noise(&format!("read{k}"), if q.chance(1, 3) { 2 } else { 1 });
        if q.chance(1, 3) {
            // the decoding threads of the pool are the first ones created, the readers come next
            cfg.stall_thread = ctx.knob(&format!("stall{k}"), q.range(1, 16), 0) as u32;
        }
        if big {
            cfg.p_short_read = cfg.p_short_read.min(2000);
        }
        if q.chance(1, 4) {
            cfg.p_eintr = ctx.knob(&format!("eintr{k}"), q.range(500, 8000), 0) as u32;
        }
        let eio = q.chance(1, 10);
        if eio {
            cfg.fault_kind = F_ERRNO;
            cfg.fault_errno = 5;
            cfg.fault_mask = C_READ | C_OUT | if q.chance(1, 3) { C_MMAP } else { 0 };
            cfg.fault_at = ctx.knob(&format!("eio{k}"), q.range(1, 60), 0);
            cfg.fault_sticky = q.chance(1, 3) as u32;
            if cfg.fault_at == 0 {
                cfg.fault_kind = 0;
            }
        }
        ctx.tell(format!("readers {progs:?} eio {eio}"));
        let (want, keys, facts, names, progs_) = (&want, &keys, &facts, &names, &progs);
        let ph = ctx.phase(&cfg, || {
            let mut e = Enc::default();
            let c = match Container::new(&out) {
                Ok(c) => c,
                Err(m) => {
                    e.u(!eio as u64);
                    e.b(format!("opening: {m}").as_bytes());
                    (0..4).for_each(|_| e.u(0));
                    return e.0;
                }
            };
            let c = Arc::new(c);
            let got: Vec<(W, [u64; 4])> = std::thread::scope(|sc| {
                let hs: Vec<_> = progs_
                    .iter()
                    .enumerate()
                    .map(|(i, p)| {
                        let c = c.clone();
                        let p = *p;
                        sc.spawn(move || {
                            let mut rd = Rd { r: Rng::new(p.seed), c: &c, want, keys, facts, names, p, eio, at: 0, held: vec![], n: [0; 4] };
                            let w = rd.go().map_err(|m| format!("reader {i}: {m}"));
                            (w, rd.n)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or((Err("a reader panicked".into()), [0; 4]))).collect()
            });
            let bad = got.iter().find_map(|x| x.0.as_ref().err());
            e.u(bad.is_some() as u64);
            e.b(bad.map(|s| s.as_bytes()).unwrap_or(b""));
            for i in 0..4 {
                e.u(got.iter().map(|x| x.1[i]).sum());
            }
            e.0
        });
        let st = ph.stats.clone();
        let sig = match ph.outcome {
            Outcome::Deadlock(_) | Outcome::StepCap | Outcome::CpuHang => "no-progress",
            Outcome::Signal(_) => "memory",
            _ => "panic",
        };
        let why = ph.panic.clone();
        let o = ctx.must(ph, sig, &format!("{} readers", progs.len()))?;
        let mut d = Dec(&o);
        let (bad, m) = (d.u(), d.s());
        if bad == 1 {
            let sig = if m.contains("a reader panicked") { "panic" } else { "differs" };
            return fail(sig, if why.is_empty() { m } else { format!("{m}: {why}") });
        }
        for c in ["read.operations", "read.bytes.compared", "read.errors.met", "read.entry_values"] {
            let v = d.u();
            ctx.count(c, v);
        }
        ctx.count(&format!("family.{family:?}"), 1);
        if progs.len() > 1 {
            ctx.count("phases.concurrent_readers", 1);
            ctx.state(h(shape_, h(progs.len() as u64, 64 - st.blocks.leading_zeros() as u64)));
        }
    }
    ctx.sample(|| format!("{family:?}, {} contents", want.len()));
    Ok(())
}
