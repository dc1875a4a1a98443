//! C04: created packs verify; any later change to checksummed bytes makes the check fail.

use super::c14::{files_of, gen_spec};
use super::common::*;
use super::Check;
use crate::ctx::*;
use crate::damage::*;
use crate::decode::Body;
use crate::facts::{Dec, Enc};
use crate::rng::Rng;
use crate::rt::{self, quiet, Outcome};
use jubako::reader::{Container, ContainerPack, ContentPack, DirectoryPack, ManifestPack};
use jubako::{FileSource, Pack, Reader};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const CHECK: Check = Check {
    id: "C04",
    run,
    quick: 6000,
    thorough: 60_000,
    level: "exploration",
    rule: "seeded containers (all packagings, compressions, extra packs, free data, all store kinds, contents up to several clusters, packs of up to 20 MB), created under seeded schedules and short I/O. Pristine: the check of every pack (from file, from memory, through its container), of every container pack and of the container must succeed, also under short reads and interrupted reads. \
           Then alterations of covered bytes, one at a time: bit flips and byte changes anywhere (weighted to boundaries: first and last byte, around the masked manifest bytes, check block), ranges overwritten, equal-xor pairs, swapped ranges, several packs at once, and alterations of a checksummed block with its CRC fixed (so only the pack's checksum can tell); \
           in part of the runs every covered byte of a small container in turn. After each, the check of every altered pack and of the container must not succeed, with and without read errors injected. A case counts when an alteration was judged; distinct by pack kind, region, kind of alteration and packaging",
    real: "jubako creator, reader (open, locators, pack checks), std, blake3",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (real files on tmpfs; short, interrupted and failing reads injected); the alterations",
    assumptions: &[
        "sequentially consistent memory",
        "an alteration does not forge a blake3 checksum (content altered together with a recomputed checksum)",
        "a separate pack file whose header got another uuid with a valid CRC is another pack to the container: it is reported missing (C11), and only the pack's own check is judged",
    ],
};

const F: u8 = 0;
const T: u8 = 1;
const E: u8 = 2;
const P: u8 = 3;

fn code(f: impl FnOnce() -> jubako::Result<bool>) -> u8 {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(true)) => T,
        Ok(Ok(false)) => F,
        Ok(Err(e)) => {
            quiet(|| eprintln!("check: {e}"));
            E
        }
        Err(_) => P,
    }
}
fn say(c: u8) -> &'static str {
    ["failure", "success", "an error", "a panic"][c as usize]
}

fn check_kind(kind: u8, r: Reader) -> jubako::Result<bool> {
    match kind {
        b'm' => ManifestPack::new(r)?.check(),
        b'd' => DirectoryPack::new(r)?.check(),
        _ => ContentPack::new(r)?.check(),
    }
}

#[derive(Clone)]
struct Target {
    path: String,
    kind: u8,
    uuid: [u8; 16],
    inner: bool,
    at: usize,
    size: usize,
}
impl Target {
    fn check(&self, memory: bool) -> u8 {
        code(|| {
            if memory {
                let b = quiet(|| std::fs::read(&self.path).unwrap());
                let b = b[self.at..self.at + self.size].to_vec();
                return check_kind(self.kind, Reader::from(b));
            }
            let r = Reader::from(FileSource::open(&self.path)?);
            if !self.inner {
                return check_kind(self.kind, r);
            }
            let c = ContainerPack::new(r)?;
            match c.get_pack_reader(&uuid::Uuid::from_bytes(self.uuid)) {
                Some(r) => check_kind(self.kind, r),
                None => Ok(false),
            }
        })
    }
}

fn targets(ctx: &Ctx, img: &Img) -> Vec<Target> {
    img.leaves
        .iter()
        .map(|l| Target {
            path: ctx.path(&img.names[l.file]),
            kind: l.pack.kind,
            uuid: l.pack.uuid,
            inner: l.inner,
            at: l.pack.at,
            size: l.pack.size,
        })
        .collect()
}

/// A covered position of a leaf, often a remarkable one.
fn position(r: &mut Rng, img: &Img, leaf: usize) -> (usize, &'static str) {
    let l = &img.leaves[leaf];
    let p = &l.pack;
    let ranges = img.covered(leaf);
    let check_end = p.at + p.size - 64;
    match r.below(10) {
        0 => (p.at + r.idx(64), "header"),
        1 => (p.at + 64 + r.idx(64), "pack header"),
        2 => (p.check_at + r.idx(check_end - p.check_at), "check block"),
        3 => (*r.pick(&[p.at, p.check_at - 1, p.check_at, check_end - 1, check_end - 5, p.check_at + 1]), "boundary"),
        4 | 5 => {
            let b = r.pick(&p.blocks);
            let at = b.at + r.idx(b.len + 4);
            match img.who(l.file, at) {
                Some(x) if x == leaf => (at, "block"),
                _ => (p.at + r.idx(64), "header"),
            }
        }
        6 => match &p.body {
            Body::Manifest(m) => {
                let i = r.pick(&m.infos).at;
                let at = *r.pick(&[i, i + 37, i + 36, i + 16, i + 33, i + 34]);
                (at, "pack info")
            }
            Body::Content(c) if !c.clusters.is_empty() => {
                let c = r.pick(&c.clusters);
                (c.raw_at + if c.raw_len > 0 { r.idx(c.raw_len) } else { 0 }, "cluster data")
            }
            _ => (p.check_at - 1 - r.idx(40), "tail of the data"),
        },
        _ => {
            let n: usize = ranges.iter().map(|x| x.1 - x.0).sum();
            let mut k = r.idx(n);
            for (a, b) in ranges {
                if k < b - a {
                    return (a + k, "anywhere");
                }
                k -= b - a;
            }
            unreachable!()
        }
    }
}

fn resealable(img: &Img, leaf: usize) -> Vec<crate::decode::Block> {
    let p = &img.leaves[leaf].pack;
    p.blocks.iter().filter(|b| b.len > 0 && b.at < p.check_at).cloned().collect()
}

pub fn alteration(r: &mut Rng, img: &Img) -> Damage {
    let leaf = r.idx(img.leaves.len());
    let file = img.leaves[leaf].file;
    let kind = img.leaves[leaf].pack.kind as char;
    let bytes = &img.files[file];
    let mut d = Damage::default();
    let one = |r: &mut Rng, at: usize| Patch { file, at, bytes: vec![other(r, bytes[at])] };
    match r.below(16) {
        0..=4 => {
            let (at, wh) = position(r, img, leaf);
            d.patches.push(one(r, at));
            d.what = format!("{kind} byte {wh}");
        }
        5 => {
            for _ in 0..r.range(2, 6) {
                let l = r.idx(img.leaves.len());
                let (at, _) = position(r, img, l);
                let f = img.leaves[l].file;
                let b = other(r, img.files[f][at]);
                d.patches.push(Patch { file: f, at, bytes: vec![b] });
            }
            d.what = format!("{kind} several bytes");
        }
        6 | 7 => {
            let (at, wh) = position(r, img, leaf);
            let n = (r.range(2, 200) as usize).min(bytes.len() - at);
            let v = match r.below(4) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                2 => r.bytes(n),
                _ => bytes[at..at + n].iter().map(|b| !b).collect(),
            };
            d.patches.push(Patch { file, at, bytes: v });
            d.what = format!("{kind} range {wh}");
        }
        8 => {
            // what an order-blind or xor checksum would miss
            let (a, wh) = position(r, img, leaf);
            let (b, _) = position(r, img, leaf);
            if a != b {
                let m = r.range(1, 255) as u8;
                if r.chance(1, 2) {
                    d.patches.push(Patch { file, at: a, bytes: vec![bytes[a] ^ m] });
                    d.patches.push(Patch { file, at: b, bytes: vec![bytes[b] ^ m] });
                } else {
                    d.patches.push(Patch { file, at: a, bytes: vec![bytes[b]] });
                    d.patches.push(Patch { file, at: b, bytes: vec![bytes[a]] });
                }
            }
            d.what = format!("{kind} pair {wh}");
        }
        9..=14 => {
            // only the checksum of the pack can tell
            let n = r.range(1, 2);
            for _ in 0..n {
                let bs = resealable(img, leaf);
                let b = r.pick(&bs).clone();
                if d.patches.iter().any(|p| p.at == b.at) {
                    continue;
                }
                let k = r.range(1, 3);
                let mut p = img.reseal(file, &b, |x| {
                    for _ in 0..k {
                        let i = if b.what == "pack info" { r.idx(38) } else { r.idx(x.len()) };
                        x[i] = other(r, x[i]);
                    }
                });
                // a manifest's pack info: its CRC is not covered, its first 38 bytes are
                if p.bytes == bytes[p.at..p.at + p.bytes.len()] {
                    p.bytes.clear();
                }
                d.what = format!("{kind} resealed {}", b.what);
                d.patches.push(p);
            }
        }
        _ => {
            // the check block itself
            let p = &img.leaves[leaf].pack;
            let b = p.blocks.iter().find(|b| b.at == p.check_at).unwrap().clone();
            let off = r.chance(1, 2);
            let q = img.reseal(file, &b, |x| {
                if off {
                    // "no check"
                    x[0] = 0;
                    if r.chance(1, 3) {
                        x[1..].fill(0);
                    }
                } else {
                    let i = 1 + r.idx(32);
                    x[i] = other(r, x[i]);
                }
            });
            d.patches.push(q);
            d.what = format!("{kind} resealed check block{}", if off { ": no check" } else { "" });
        }
    }
    d
}

/// The container sees another pack (or none) where the altered one is.
fn renamed(img: &Img, d: &Damage, leaf: usize) -> bool {
    let l = &img.leaves[leaf];
    if l.inner {
        return false;
    }
    let a = l.pack.at;
    let now: Vec<u8> = (a..a + 64).map(|i| img.byte(l.file, i, d)).collect();
    let crc_ok = crate::decode::crc(&now[..60]).to_be_bytes() == now[60..];
    crc_ok && (now[10..26] != img.files[l.file][a + 10..a + 26] || now[..4] != img.files[l.file][a..a + 4])
}

fn apply(root: &str, img: &Img, d: &Damage) {
    quiet(|| {
        for p in &d.patches {
            let f = std::fs::OpenOptions::new().write(true).open(format!("{root}/{}", img.names[p.file])).unwrap();
            f.write_all_at(&p.bytes, p.at as u64).unwrap();
        }
    })
}
fn restore(root: &str, img: &Img, d: &Damage) {
    quiet(|| {
        for p in &d.patches {
            let f = std::fs::OpenOptions::new().write(true).open(format!("{root}/{}", img.names[p.file])).unwrap();
            f.write_all_at(&img.files[p.file][p.at..p.at + p.bytes.len()], p.at as u64).unwrap();
        }
    })
}

/// Packs longer than the pieces a checksum may be computed by.
fn big_contents(ctx: &mut Ctx, r: &mut Rng, spec: &mut crate::model::Spec) {
    use crate::model::*;
    const M: u64 = 1 << 20;
    let total = match r.below(6) {
        0 => r.range(M, 2 * M),
        1 | 2 => r.range(2 * M, 5 * M),
        3 | 4 => r.range(5 * M, 12 * M),
        _ => r.range(16 * M, 20 * M),
    };
    let n = r.range(1, 5);
    for _ in 0..n {
        let c = Content { seed: r.u64(), len: (total / n) as usize, pat: Pat::Rand, hint: *r.pick(&[Hint::No, Hint::Detect, Hint::Yes]), src: *r.pick(&[Src::Mem, Src::File]) };
        if ctx.keep() {
            spec.contents.push(c);
        }
    }
    if r.chance(1, 3) && ctx.keep() {
        // a directory pack as long: two arrays that are not the same
        let mut st = Store::default();
        let vs = spec.dir.vstores.len();
        spec.dir.vstores.push(Vs::Plain);
        st.common.push(Prop { name: "long", kind: Kind::A { fixed: 3, vs } });
        for _ in 0..2 {
            let k = r.range(M / 2, 3 * M) as usize;
            st.entries.push(Entry { variant: 0, vals: vec![V::A(r.bytes(k))] });
        }
        spec.dir.stores.push(st);
    }
    if !matches!(spec.comp, Comp::None) {
        spec.comp = Comp::Lz4(1);
    }
}

/// One bit, anywhere in the longest packs, often just around a power of two.
fn far_byte(r: &mut Rng, img: &Img) -> Damage {
    let mut leaves: Vec<usize> = (0..img.leaves.len()).collect();
    leaves.sort_by_key(|l| std::cmp::Reverse(img.leaves[*l].pack.size));
    let leaf = leaves[if r.chance(3, 4) { 0 } else { r.idx(leaves.len().min(3)) }];
    let l = &img.leaves[leaf];
    let p = &l.pack;
    let end = p.at + p.size - 64;
    let at = match r.below(4) {
        0 => p.at + (1usize << r.range(9, 24)) * r.range(1, 3) as usize,
        1 => end - 1 - r.idx(p.size / 3),
        _ => p.at + r.idx(p.size - 64),
    };
    let at = (at + r.idx(5)).saturating_sub(2).clamp(p.at, end - 1);
    let b = img.files[l.file][at] ^ (1 << r.below(8));
    Damage { what: format!("{} byte far into it", p.kind as char), patches: vec![Patch { file: l.file, at, bytes: vec![b] }], len: None }
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let mut r = ctx.rng("scenario");
    // packs of megabytes
    let big = ctx.index % 96 == 77;
    let sweep = r.chance(1, 12) && !big;
    let small = sweep || big || r.chance(2, 3);
    let (mut spec, frees) = gen_spec(ctx, &mut r, small);
    if big {
        big_contents(ctx, &mut r, &mut spec);
    }
    if !sweep && r.chance(1, 30) {
        spec.contents.extend(gen_contents(ctx, &mut r, Plan::Mixed(3, 2_000_000)));
    }
    let route = if spec.cached { Route::High } else { gen_route(&mut r) };
    ctx.tell(format!("{route:?} {}", describe(&spec)));
    let mut cfg = ctx.noise("create", 1);
    if total(&spec.contents) > 200_000 {
        cfg.p_short_read = cfg.p_short_read.min(2000);
        cfg.p_short_write = cfg.p_short_write.min(2000);
    }
    create_ok(ctx, &cfg, &spec, route, &frees)?;
    let files = files_of(&ctx.root);
    let img = match Img::read(&files) {
        Ok(i) => i,
        // the layout itself is C14's business: without it nothing is judged here but the checks
        Err(_) => {
            ctx.count("layout_not_followed", 1);
            Img { names: vec![], files: vec![], leaves: vec![], outers: vec![] }
        }
    };
    let ts = targets(ctx, &img);
    let outers: Vec<String> = img.outers.iter().map(|(f, _)| ctx.path(&img.names[*f])).collect();
    let out = ctx.path("out.jbk");

    // pristine
    let mut cfg = ctx.noise("pristine", 1);
    if r.chance(1, 4) {
        // an interrupted read is no failure
        cfg.p_eintr = ctx.knob("eintr", r.range(500, 20_000), 0) as u32;
    }
    let memory = r.chance(1, 3);
    let ph = ctx.phase(&cfg, || {
        let mut v: Vec<u8> = ts.iter().map(|t| t.check(memory)).collect();
        for o in &outers {
            v.push(code(|| ContainerPack::new(Reader::from(FileSource::open(o)?))?.check()));
        }
        v.push(code(|| Container::new(&out)?.check()));
        v
    });
    let v = ctx.must(ph, "pristine", "checking what was just created")?;
    for (i, c) in v.iter().enumerate() {
        if *c != T {
            let what = match ts.get(i) {
                Some(t) => format!("the pack of kind {} in {}", t.kind as char, t.path),
                None if i < v.len() - 1 => "a container pack".into(),
                None => "the container".into(),
            };
            return fail("pristine", format!("the check of {what}, just created, gives {}", say(*c)));
        }
    }
    ctx.count("pristine.checks", v.len() as u64);
    if img.leaves.is_empty() {
        return Ok(());
    }

    let mut list: Vec<Damage> = vec![];
    if sweep {
        let all: Vec<(usize, usize)> = (0..img.leaves.len())
            .flat_map(|l| img.covered(l).into_iter().flat_map(|(a, b)| a..b).map(|p| (img.leaves[l].file, p)).collect::<Vec<_>>())
            .collect();
        let max = if ctx.thorough() { 12_000 } else { 2500 };
        let step = all.len().div_ceil(max).max(1);
        let first = r.idx(step);
        for (f, at) in all.into_iter().skip(first).step_by(step) {
            let b = other(&mut r, img.files[f][at]);
            list.push(Damage { what: "sweep".into(), patches: vec![Patch { file: f, at, bytes: vec![b] }], len: None });
        }
        list.retain(|_| ctx.keep());
        ctx.count("sweeps", 1);
    } else {
        for i in 0..if big { 14 } else { 24 } {
            let d = match i % 2 {
                0 if big => far_byte(&mut r, &img),
                _ => alteration(&mut r, &img),
            };
            if ctx.keep() {
                list.push(d);
            }
        }
    }
    list.retain(|d| !img.altered(d).is_empty());
    let errors = r.chance(1, 6);
    let mut at = 0;
    for (n, chunk) in list.chunks(if sweep { 500 } else { 24 }).enumerate() {
        let root = ctx.root.clone();
        let mut cfg = ctx.noise(&format!("alter{n}"), 1);
        cfg.p_short_read = cfg.p_short_read.min(2000);
        if errors {
            cfg.fault_at = ctx.knob(&format!("eio{n}"), r.range(1, 400), 0) as _;
            cfg.fault_kind = rt::F_ERRNO;
            cfg.fault_errno = libc::EIO as u32;
            cfg.fault_mask = rt::C_READ | rt::C_OUT;
        }
        let one = |d: &Damage| {
            apply(&root, &img, d);
            let v = img.altered(d);
            let mut o: Vec<u8> = v.iter().map(|l| ts[*l].check(memory)).collect();
            o.push(code(|| Container::new(&out)?.check()));
            restore(&root, &img, d);
            o
        };
        let run_phase = |ctx: &mut Ctx, ds: &[Damage]| {
            ctx.phase(&cfg, || {
                let mut e = Enc::default();
                for d in ds {
                    e.b(&one(d));
                }
                e.0
            })
        };
        let ph = run_phase(ctx, chunk);
        let mut answers: Vec<Vec<u8>> = vec![];
        if ph.outcome == Outcome::Done {
            let mut d = Dec(&ph.out);
            for _ in chunk {
                answers.push(d.b().to_vec());
            }
        } else {
            // one of them ends the process: one process each
            for d in chunk {
                for (f, b) in img.files.iter().enumerate() {
                    std::fs::write(format!("{root}/{}", img.names[f]), b).expect("scratch");
                }
                let ph = run_phase(ctx, std::slice::from_ref(d));
                if ph.outcome == Outcome::Done {
                    answers.push(Dec(&ph.out).b().to_vec());
                } else {
                    ctx.count("alteration_ends_the_process", 1);
                    answers.push(vec![]);
                }
            }
            for (f, b) in img.files.iter().enumerate() {
                std::fs::write(format!("{root}/{}", img.names[f]), b).expect("scratch");
            }
        }
        for (d, a) in chunk.iter().zip(answers) {
            if a.is_empty() {
                continue;
            }
            let v = img.altered(d);
            for (l, c) in v.iter().zip(&a) {
                ctx.count(&format!("answer.{}", say(*c)), 1);
                if *c == T {
                    return fail("undetected", format!("{}: the check of the altered pack (kind {}) succeeds: {}", d.what, ts[*l].kind as char, show(&img, d)));
                }
            }
            let c = *a.last().unwrap();
            if c == T && !v.iter().all(|l| renamed(&img, d, *l)) {
                return fail("container", format!("{}: the check of the container succeeds: {}", d.what, show(&img, d)));
            }
            ctx.count("alterations", 1);
            if !sweep {
                ctx.count(&format!("alteration.{}", d.what.split_once(' ').map(|x| x.1).unwrap_or("?")), 1);
                ctx.state(hs(spec.mode as u64 * 7 + matches!(route, Route::High) as u64, &d.what));
            } else {
                at += 1;
            }
        }
    }
    if at > 0 {
        ctx.count("sweep.bytes", at);
        ctx.state(h(shape(&spec), 5));
    }
    ctx.sample(|| format!("{} / {}", describe(&spec), list.first().map(|d| d.what.clone()).unwrap_or_default()));
    Ok(())
}

fn show(img: &Img, d: &Damage) -> String {
    d.patches
        .iter()
        .map(|p| {
            let diff: Vec<String> = (0..p.bytes.len())
                .filter(|k| img.files[p.file][p.at + k] != p.bytes[*k])
                .take(6)
                .map(|k| format!("{}:{:02x}->{:02x}", p.at + k, img.files[p.file][p.at + k], p.bytes[k]))
                .collect();
            format!("{} {}", img.names[p.file], diff.join(" "))
        })
        .collect::<Vec<_>>()
        .join("; ")
}
