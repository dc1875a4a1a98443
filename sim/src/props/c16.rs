//! C16: the compression hint decides how a content is stored; the deduplicating adder stores once.

use super::c14::files_of;
use super::common::*;
use super::Check;
use crate::create::{self, compression, es, hint, input, pair};
use crate::ctx::*;
use crate::decode::{decompress, Decoder};
use crate::facts::{Dec, Enc};
use crate::model::*;
use crate::rng::Rng;
use crate::rt::quiet;
use jubako::creator::{
    AtomicOutFile, BasicCreator, CachedContentAdder, ContentAdder, ContentPackCreator,
};
use jubako::VendorId;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

pub const CHECK: Check = Check {
    id: "C16",
    run,
    quick: 7000,
    thorough: 500_000,
    level: "exploration",
    rule: "seeded insertion sequences (hints yes/no/detect, all algorithms and levels, empty to 9 MiB contents, duplicates under other hints and from other sources, incompressible and constant bytes) into the high-level creator (all packagings), pack creators of named and atomic files and extra packs, the deduplicating adder wrapped around all, none or several pieces of the sequence; seeded worker schedules, short I/O. \
           The files are decoded without jubako code: hint no or no compression: cluster byte `none` and the very bytes at the place of the blob; hint yes: cluster byte and stream of the pack's algorithm. Deduplicated: equal contents one address, different ones different addresses, as many contents stored as there are different ones (one stored copy, which the first insertion's hint decides). A case counts with two contents or more; distinct by compression, hints, sizes, sharing and packaging",
    real: "jubako creator (BasicCreator, ContentPackCreator, CachedContentAdder, ClusterWriter, compressors), std",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (short transfers, copy_file_range refused); the decoder is the harness's own",
    assumptions: &[
        "sequentially consistent memory",
        "equal contents added under different hints share the storage the first one got",
    ],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Basic,
    Named,
    Atomic,
}

/// Pieces of the sequence: how many insertions, through the adder or not.
fn pieces(r: &mut Rng, n: usize) -> Vec<(usize, bool)> {
    match r.below(5) {
        0 | 1 => vec![(n, true)],
        2 => vec![(n, false)],
        _ => {
            let mut v = vec![];
            let mut left = n;
            while left > 0 {
                let k = 1 + r.idx(left);
                v.push((k, r.chance(2, 3)));
                left -= k;
            }
            v
        }
    }
}

type Adds = Vec<(u16, u32)>;

fn add_pieces<A: ContentAdder + 'static>(mut a: A, root: &str, slot: usize, cs: &[Content], pieces: &[(usize, bool)]) -> create::Es<(A, Adds)> {
    let mut v = vec![];
    let mut at = 0;
    for (n, c) in pieces {
        let part = at..at + n;
        at += n;
        if *c {
            let mut w = CachedContentAdder::new(a, Rc::new(()));
            for i in part {
                v.push(pair(ContentAdder::add_content(&mut w, input(root, slot, i, &cs[i])?, hint(cs[i].hint)).map_err(es)?));
            }
            a = w.into_inner();
        } else {
            for i in part {
                v.push(pair(a.add_content(input(root, slot, i, &cs[i])?, hint(cs[i].hint)).map_err(es)?));
            }
        }
    }
    Ok((a, v))
}

fn make(root: &str, spec: &Spec, way: Way, pieces: &[Vec<(usize, bool)>]) -> create::Es<Vec<Adds>> {
    let vendor = || VendorId::from(spec.vendor);
    let mut all = vec![];
    let comp = compression(spec.comp);
    match way {
        Way::Basic => {
            let out = format!("{root}/out.jbk");
            let bc = BasicCreator::new(&out, create::concat_mode(spec.mode), vendor(), comp, Arc::new(())).map_err(es)?;
            let (bc, a) = add_pieces(bc, root, 0, &spec.contents, &pieces[0])?;
            all.push(a);
            let mut extras: Vec<ContentPackCreator<dyn jubako::creator::PackRecipient>> = vec![];
            for (i, e) in spec.extras.iter().enumerate() {
                let f: Box<dyn jubako::creator::PackRecipient> = AtomicOutFile::new(format!("{root}/{}", e.name)).map_err(es)?;
                let cp = ContentPackCreator::new_from_output(f, e.id.into(), vendor(), Default::default(), compression(e.comp)).map_err(es)?;
                let (cp, a) = add_pieces(cp, root, i + 1, &e.contents, &pieces[i + 1])?;
                all.push(a);
                extras.push(cp);
            }
            let ds = create::DirStore { dir: Dir::default(), addrs: all.clone(), handles: Default::default() };
            bc.finalize(Box::new(ds), extras).map_err(es)?;
        }
        Way::Named => {
            let cp = ContentPackCreator::new_with_progress(format!("{root}/p.jbkc"), 1.into(), vendor(), Default::default(), comp, Arc::new(())).map_err(es)?;
            let (cp, a) = add_pieces(cp, root, 0, &spec.contents, &pieces[0])?;
            all.push(a);
            cp.finalize().map_err(es)?;
        }
        Way::Atomic => {
            let f = AtomicOutFile::new(format!("{root}/p.jbkc")).map_err(es)?;
            let cp = ContentPackCreator::new_from_output_with_progress(f, 1.into(), vendor(), Default::default(), comp, Arc::new(())).map_err(es)?;
            let (cp, a) = add_pieces(cp, root, 0, &spec.contents, &pieces[0])?;
            all.push(a);
            let (f, _) = cp.finalize().map_err(es)?;
            jubako::creator::PackRecipient::close_file(f).map_err(es)?;
        }
    }
    Ok(all)
}

fn name(c: u8) -> &'static str {
    ["none", "lz4", "lzma", "zstd"].get(c as usize).copied().unwrap_or("unknown")
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let mut r = ctx.rng("scenario");
    let mut spec = Spec::empty();
    let plan = match r.below(500) {
        0 => Plan::Many(1),
        1..=4 => Plan::Large,
        5..=60 => Plan::Boundary,
        61..=400 => Plan::Mixed(16, 3000),
        _ => Plan::Mixed(30, 20_000),
    };
    spec.contents = gen_contents(ctx, &mut r, plan);
    // the same bytes again, near the end and under any hint
    if !matches!(plan, Plan::Many(_)) {
        for _ in 0..r.below(4) {
            if spec.contents.is_empty() {
                break;
            }
            let i = r.idx(spec.contents.len());
            let mut c = spec.contents[i].clone();
            c.hint = *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]);
            c.src = *r.pick(&[Src::Mem, Src::File, Src::Range(17, 3), Src::Tail(700)]);
            match r.below(6) {
                // nearly the same: one byte less, or another byte
                0 => c.len = c.len.saturating_sub(1),
                1 => c.seed ^= 1,
                _ => {}
            }
            if ctx.keep() {
                spec.contents.push(c);
            }
        }
    }
    // two contents of one size which differ in a single byte
    if r.chance(1, 3) {
        let big = matches!(plan, Plan::Large) || r.chance(1, 60);
        let len = if big { r.range(3 << 20, 6 << 20) } else { r.range(1, 9000) } as usize;
        let seed = r.u64();
        for k in 0..2 {
            let c = Content {
                seed: seed ^ k,
                len,
                pat: Pat::Twin,
                hint: *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]),
                src: *r.pick(&[Src::Mem, Src::File, Src::Range(5, 9), Src::Tail(31)]),
            };
            let at = r.idx(spec.contents.len() + 1);
            if ctx.keep() {
                spec.contents.insert(at, c);
            }
        }
    }
    spec.comp = gen_comp(ctx, &mut r, total(&spec.contents));
    let way = *r.pick(&[Way::Basic, Way::Basic, Way::Named, Way::Atomic]);
    spec.mode = *r.pick(&Mode::ALL);
    if way == Way::Basic && r.chance(1, 2) {
        spec.extras = gen_extras(ctx, &mut r, 2);
    }
    let slots: Vec<(u16, Vec<Content>, Comp)> = spec
        .slots()
        .iter()
        .enumerate()
        .map(|(s, (id, cs))| (*id, (*cs).clone(), if s == 0 { spec.comp } else { spec.extras[s - 1].comp }))
        .collect();
    let pieces: Vec<Vec<(usize, bool)>> = slots.iter().map(|s| pieces(&mut r, s.1.len())).collect();
    ctx.tell(format!("{way:?} pieces {pieces:?} {}", describe(&spec)));
    let mut cfg = ctx.noise("create", 1);
    if total(&spec.contents) > 200_000 || spec.contents.len() > 500 {
        cfg.p_short_read = cfg.p_short_read.min(2000);
        cfg.p_short_write = cfg.p_short_write.min(2000);
    }
    create::write_sources(&ctx.root, &spec);
    let root = ctx.root.clone();
    let ph = ctx.phase(&cfg, || {
        let res = make(&root, &spec, way, &pieces);
        quiet(|| {
            let mut e = Enc::default();
            match res {
                Err(m) => {
                    e.u(1);
                    e.b(m.as_bytes());
                }
                Ok(all) => {
                    e.u(0);
                    e.b(&Built { addrs: all, handles: vec![] }.encode());
                }
            }
            e.0
        })
    });
    let out = ctx.must(ph, "create", "creation")?;
    let mut d = Dec(&out);
    if d.u() == 1 {
        return fail("create", format!("creation: {}", String::from_utf8_lossy(d.b())));
    }
    let built = Built::decode(d.b());
    // every content pack there is
    let files = files_of(&ctx.root);
    let mut packs = vec![];
    let mut ids: BTreeMap<[u8; 16], u16> = BTreeMap::new();
    for (n, b) in &files {
        let v = match Decoder::new(b).all() {
            Ok(v) => v,
            Err(e) => return fail("layout", format!("{n}: {e}")),
        };
        for p in v {
            if let Some(m) = p.man() {
                ids.extend(m.infos.iter().map(|i| (i.uuid, i.id)));
            }
            if p.content().is_some() {
                packs.push((n.clone(), p));
            }
        }
    }
    let mut shared = 0;
    for (slot, (id, cs, comp)) in slots.iter().enumerate() {
        let found = match way {
            Way::Basic => packs.iter().find(|p| ids.get(&p.1.uuid) == Some(id)),
            _ => packs.first(),
        };
        let Some((file, pack)) = found else { return fail("layout", format!("pack {id} not found")) };
        let file = &files[file];
        let body = pack.content().unwrap();
        let addrs = &built.addrs[slot];
        let data: Vec<Vec<u8>> = cs.iter().map(|c| c.bytes()).collect();
        // who shares with whom
        let mut seen: BTreeMap<(usize, &[u8]), usize> = BTreeMap::new();
        let mut first: Vec<usize> = vec![];
        let mut at = 0;
        for (k, (n, cached)) in pieces[slot].iter().enumerate() {
            for i in at..at + n {
                let f = if *cached { *seen.entry((k, &data[i])).or_insert(i) } else { i };
                first.push(f);
            }
            at += n;
        }
        let mut next = 0u32;
        for i in 0..cs.len() {
            let want = if first[i] == i {
                next += 1;
                None
            } else {
                shared += 1;
                Some(addrs[first[i]])
            };
            match want {
                Some(w) if w != addrs[i] => {
                    return fail("dedup", format!("pack {id}: contents {} and {i} ({} bytes) are equal and have addresses {:?} and {:?}", first[i], cs[i].len, w, addrs[i]));
                }
                None if addrs[..i].contains(&addrs[i]) => {
                    return fail("dedup", format!("pack {id}: content {i} has the address {:?} of another one", addrs[i]));
                }
                _ => {}
            }
        }
        if body.infos.len() != next as usize {
            return fail("dedup", format!("pack {id} stores {} contents where {next} different ones were added", body.infos.len()));
        }
        // how each is stored
        let mut plain: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
        for i in 0..cs.len() {
            if first[i] != i {
                continue;
            }
            let c = &cs[i];
            let Some((cl, bl)) = body.infos.get(addrs[i].1 as usize) else {
                return fail("layout", format!("pack {id}: no content at {:?}", addrs[i]));
            };
            let Some(cluster) = body.clusters.get(*cl as usize) else {
                return fail("layout", format!("pack {id}: no cluster {cl}"));
            };
            let Some((a, e)) = cluster.blobs.get(*bl as usize).copied() else {
                return fail("layout", format!("pack {id}: no blob {bl} in cluster {cl}"));
            };
            let algo = comp.code();
            let must = match c.hint {
                _ if algo == 0 => Some(0),
                Hint::No => Some(0),
                Hint::Yes => Some(algo),
                Hint::Detect => None,
            };
            let what = || format!("pack {id} ({}), content {i} ({:?}, {:?}, {} bytes)", name(algo), c.hint, c.src, c.len);
            if must.is_some_and(|m| m != cluster.comp) || (cluster.comp != 0 && cluster.comp != algo) {
                return fail("compression", format!("{} is in a cluster of compression `{}`", what(), name(cluster.comp)));
            }
            if cluster.comp == 0 {
                let got = file.get(cluster.raw_at + a..cluster.raw_at + e);
                if e > cluster.raw_len || got != Some(&data[i][..]) {
                    return fail("verbatim", format!("{} is not verbatim in its uncompressed cluster", what()));
                }
            } else {
                if !plain.contains_key(cl) {
                    let raw = &file[cluster.raw_at..cluster.raw_at + cluster.raw_len];
                    match decompress(algo, raw, cluster.data_size) {
                        Ok(v) => plain.insert(*cl, v),
                        Err(m) => return fail("algorithm", format!("{}: its cluster is not a {} stream: {m}", what(), name(algo))),
                    };
                }
                if plain[cl].get(a..e) != Some(&data[i][..]) {
                    return fail("algorithm", format!("{}: its compressed cluster holds other bytes", what()));
                }
            }
            ctx.count(&format!("stored.{}.{:?}.in.{}", name(algo), c.hint, name(cluster.comp)), 1);
        }
    }
    ctx.count("contents", slots.iter().map(|s| s.1.len() as u64).sum());
    ctx.count("contents.shared", shared);
    ctx.count(&format!("way.{way:?}"), 1);
    if slots.iter().map(|s| s.1.len()).sum::<usize>() >= 2 {
        ctx.state(hs(shape(&spec), &format!("{way:?}{:?}", pieces.iter().map(|p| p.iter().map(|x| x.1).collect::<Vec<_>>()).collect::<Vec<_>>())));
        ctx.sample(|| format!("{way:?} {}", describe(&spec)));
    }
    Ok(())
}
