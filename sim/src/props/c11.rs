//! C11: an unavailable pack is reported as missing, and everything else still reads.

use super::c14::gen_spec_with;
use super::common::*;
use super::packaged::{self, concat, put, First};
use super::Check;
use crate::create;
use crate::ctx::*;
use crate::decode::{crc, Decoder};
use crate::facts::*;
use crate::model::*;
use crate::rng::Rng;
use crate::rt::quiet;
use jubako::reader::{Container, MayMissPack};
use std::collections::BTreeSet;
use std::sync::Arc;

pub const CHECK: Check = Check {
    id: "C11",
    run,
    quick: 4000,
    thorough: 160_000,
    level: "exploration",
    rule: "seeded containers of 1..7 content packs (any ids), packaged in every way (one, two, three files, loose packs beside the manifest or below it, grouped in containers, assembled wholly or partly); then, 1..4 times, a subset of the content packs is made unavailable: \
           its file removed, made a dangling link or a directory, or replaced by another pack of the container, a pack or a container of somewhere else, or the same pack under another uuid; a pack inside a container file is left out of it, with something else at its recorded location; before the container is opened, or after some packs were read. \
           Everything is read: contents of unavailable packs are missing with the description the manifest has, everything else reads as before, the check passes; then a byte of an available pack is altered, and the check must not pass. \
           A case counts per subset made unavailable; distinct by subset, the ways it was done, and container shape",
    real: "jubako creator, concat tool and reader (container, manifest, locators), std",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (short reads and writes injected); removing and replacing files is done by the harness",
    assumptions: &["sequentially consistent memory"],
};

/// The bytes of a content, by the combinators of `MayMissPack`.
fn combined(c: &Container, p: u16, i: u32) -> F {
    let pack = match c.get_pack(p.into()) {
        Err(e) => return F::Err(format!("{e}")),
        Ok(x) => x,
    };
    let there = pack.as_ref().map(|m| m.as_ref().map(|_| ()).get().is_some());
    let sized = pack.map(|m| m.map(|p| Ok::<_, String>(p.get_content_count())).transpose());
    match c.get_bytes(addr(p, i)).map(|m| m.and_then(|m| m.transpose())) {
        Err(e) => F::Err(format!("{e}")),
        Ok(None) => F::None,
        Ok(Some(MayMissPack::MISSING(d))) => match (there, sized) {
            (Some(false), Some(Ok(MayMissPack::MISSING(e)))) => F::Missing(describe_pack(if i % 2 == 0 { &d } else { &e })),
            _ => F::T("missing, and not missing".into()),
        },
        Ok(Some(MayMissPack::FOUND(r))) => match (there, sized, region_bytes(&r)) {
            (Some(true), Some(Ok(MayMissPack::FOUND(_))), Ok(b)) => quiet(|| F::hash(&b)),
            (Some(true), Some(Ok(MayMissPack::FOUND(_))), Err(e)) => F::Err(e),
            _ => F::T("found, and missing".into()),
        },
    }
}

/// The pack under another uuid.
fn renamed(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v[13] ^= 0x5a;
    let c = crc(&v[..60]).to_be_bytes();
    v[60..64].copy_from_slice(&c);
    let n = v.len();
    let mut tail: Vec<u8> = v[..64].to_vec();
    tail.reverse();
    v[n - 64..].copy_from_slice(&tail);
    v
}

enum Repl {
    Nothing,
    Link,
    Dir,
    File(Vec<u8>),
    /// a container of these packs
    Packs(Vec<Vec<u8>>),
}

/// What stands at `at`, where `uuid` is to be found no more.
fn replacement(r: &mut Rng, first: &First, uuid: &[u8; 16], at: &str, foreign: &[(Vec<u8>, Vec<u8>)], told: &mut String) -> Repl {
    let others: Vec<&Vec<u8>> = first.packs.iter().filter(|(u, _)| *u != uuid && !first.locs.iter().any(|(x, l, _)| x == *u && l == at)).map(|(_, b)| b).filter(|b| &b[..4] != b"jbkC").collect();
    let (whole, pack) = r.pick(foreign).clone();
    let other = others.get(r.idx(others.len().max(1))).map(|b| b.to_vec()).unwrap_or(pack.clone());
    let me = renamed(&first.packs[uuid]);
    let (t, v) = match r.below(11) {
        0 | 1 => ("removed", Repl::Nothing),
        2 => ("a dangling link", Repl::Link),
        3 => ("a directory", Repl::Dir),
        4 | 5 => ("another pack of the container", Repl::File(other)),
        6 => ("a foreign container", Repl::File(whole)),
        7 => ("a foreign pack", Repl::File(pack)),
        8 => ("the same under another uuid", Repl::File(me)),
        9 => ("a container of other packs", Repl::Packs(vec![pack, other])),
        _ => ("a container of it under another uuid", Repl::Packs(vec![me])),
    };
    told.push_str(&format!(" {at}: {t};"));
    v
}

fn apply(ctx: &mut Ctx, label: &str, dir: &str, at: &str, v: Repl) -> R {
    let p = format!("{dir}/{at}");
    std::fs::create_dir_all(&p[..p.rfind('/').unwrap()]).expect("mkdir");
    match v {
        Repl::Nothing => {}
        Repl::Link => std::os::unix::fs::symlink("/nonexistent/pack", &p).expect("symlink"),
        Repl::Dir => std::fs::create_dir_all(format!("{p}/x")).expect("mkdir"),
        Repl::File(b) => std::fs::write(&p, b).expect("write"),
        Repl::Packs(v) => return assemble(ctx, label, &v, &p),
    }
    Ok(())
}

/// A container file of these packs.
fn assemble(ctx: &mut Ctx, label: &str, packs: &[Vec<u8>], out: &str) -> R {
    let mut inputs = vec![];
    for (i, b) in packs.iter().enumerate() {
        let p = format!("{}/part_{label}_{i}", ctx.root);
        std::fs::write(&p, b).expect("write");
        inputs.push(p);
    }
    let res = concat(ctx, label, &inputs, out);
    inputs.iter().for_each(|p| drop(std::fs::remove_file(p)));
    res
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let mut r = ctx.rng("scenario");
    let (mut spec, mut frees) = gen_spec_with(ctx, &mut r, false, (7, 8, 6));
    if r.chance(1, 40) {
        packaged::many(ctx, &mut r, &mut spec, &mut frees);
    }
    packaged::spread_out(&mut r, &mut spec);
    if spec.mode == Mode::ALL[0] && r.chance(2, 3) {
        spec.mode = Mode::ALL[1 + r.idx(Mode::ALL.len() - 1)];
    }
    let root = ctx.root.clone();
    let high = spec.cached || r.chance(1, 3);
    let first = packaged::first(ctx, &mut r, &spec, &frees, high)?;
    let names: Vec<String> = spec.dir.indexes.iter().map(|i| i.name.clone()).collect();
    let want = Want { names, packs: first.ids[1..].to_vec(), bytes: true, manifest: true, check: true, max_contents: 200, max_entries: 300, ..Default::default() };
    // ------------------------------------------------ as created
    let mut cfg = ctx.noise("read", 1);
    cfg.p_short_read = cfg.p_short_read.min(8000);
    let path = format!("{}/out.jbk", first.dir);
    let ph = ctx.phase(&cfg, || enc(&read_all(&path, &want)));
    let base = dec(&ctx.must(ph, "read", "reading the container")?);
    if let Some(e) = base.get(&K::Top("open")) {
        return fail("first", format!("as created: {e:?}"));
    }
    for id in &first.ids {
        if matches!(base.get(&K::Pack(*id, "count")), Some(F::Missing(_) | F::Err(_) | F::None)) || base.get(&K::Top("check")) != Some(&F::U(1)) {
            return fail("first", format!("as created: pack {id}: {:?}, check {:?}", base.get(&K::Pack(*id, "count")), base.get(&K::Top("check"))));
        }
    }
    // ------------------------------------------------ something from elsewhere
    let mut foreign = vec![];
    {
        let mut f = Spec::empty();
        f.contents = vec![Content { seed: 1, len: 300, pat: Pat::Text, hint: Hint::Yes, src: Src::Mem }, Content { seed: 2, len: 30, pat: Pat::Text, hint: Hint::No, src: Src::Mem }];
        f.vendor = spec.vendor;
        let dir = format!("{root}/foreign");
        std::fs::create_dir_all(&dir).expect("mkdir");
        let p = format!("{dir}/f.jbk");
        let cfg = ctx.noise("foreign", 0);
        let ph = ctx.phase(&cfg, || create::create(&root, &p, &f, Arc::new(())).err().unwrap_or_default().into_bytes());
        let m = ctx.must(ph, "create", "creation")?;
        if !m.is_empty() {
            return fail("create", String::from_utf8_lossy(&m).into_owned());
        }
        let b = std::fs::read(&p).expect("read");
        match Decoder::new(&b).all() {
            Ok(v) => {
                let c = v.iter().find(|x| x.content().is_some()).unwrap();
                foreign.push((b.clone(), b[c.at..c.at + c.size].to_vec()));
            }
            Err(e) => return fail("layout", e),
        }
    }
    let id_of = |u: &[u8; 16]| first.locs.iter().find(|x| x.0 == *u).map(|x| x.2);
    let mut sample = describe(&spec);
    // ------------------------------------------------ packs made unavailable
    for k in 0..r.range(1, 4) as usize {
        let mut q = Rng::new(r.u64());
        if !ctx.keep() {
            continue;
        }
        let contents = &first.ids[1..];
        let all = q.below(6);
        let gone: BTreeSet<u16> = match all {
            0 => contents.iter().copied().collect(),
            1 => [*q.pick(contents)].into(),
            _ => contents.iter().copied().filter(|_| q.chance(1, 2)).collect(),
        };
        let mut told = format!("unavailable: {gone:?};");
        let dir = format!("{root}/k{k}");
        let mut entry_changed = false;
        std::fs::create_dir_all(&dir).expect("mkdir");
        for (n, (name, b)) in first.files.iter().enumerate() {
            let inside: Vec<_> = match Decoder::new(b).all() {
                Ok(v) => v.into_iter().filter(|p| &b[p.at..p.at + 4] != b"jbkC").collect(),
                Err(e) => return fail("layout", format!("{name}: {e}")),
            };
            let (out, left): (Vec<_>, Vec<_>) = inside.iter().partition(|p| id_of(&p.uuid).is_some_and(|i| i > 0 && gone.contains(&i)));
            if out.is_empty() {
                put(&dir, &[(name.clone(), b.clone())].into());
                continue;
            }
            if left.is_empty() {
                let v = replacement(&mut q, &first, &out[0].uuid, name, &foreign, &mut told);
                // (a file of several packs, one of which stands for another)
                apply(ctx, &format!("repl{k}_{n}"), &dir, name, v)?;
                continue;
            }
            let mut parts: Vec<Vec<u8>> = left.iter().map(|p| b[p.at..p.at + p.size].to_vec()).collect();
            if q.chance(1, 3) {
                parts.push(foreign[0].1.clone());
            }
            if q.chance(1, 3) {
                parts.push(renamed(&first.packs[&out[0].uuid]));
            }
            let p = format!("{dir}/{name}");
            std::fs::create_dir_all(&p[..p.rfind('/').unwrap()]).expect("mkdir");
            if parts.len() == 1 && q.chance(1, 2) {
                std::fs::write(&p, &parts[0]).expect("write");
            } else {
                assemble(ctx, &format!("left{k}_{n}"), &parts, &p)?;
            }
            entry_changed |= name == "out.jbk";
            told.push_str(&format!(" {name}: {} of {} packs left;", left.len(), inside.len()));
        }
        // something at the places of packs which were inside a file
        for (n, (u, l, id)) in first.locs.iter().enumerate() {
            let p = format!("{dir}/{l}");
            if *id > 0 && gone.contains(id) && !l.is_empty() && !first.files.contains_key(l) && q.chance(2, 3) && std::fs::symlink_metadata(&p).is_err() {
                let v = replacement(&mut q, &first, u, l, &foreign, &mut told);
                apply(ctx, &format!("place{k}_{n}"), &dir, l, v)?;
            }
        }
        let lazy = !entry_changed && q.chance(1, 3);
        let touched: Vec<u16> = contents.iter().copied().filter(|_| lazy && q.chance(1, 3)).collect();
        told.push_str(if lazy { " after opening" } else { "" });
        ctx.tell(told.clone());
        let mut cfg = ctx.noise(&format!("gone{k}"), 1);
        cfg.p_short_read = cfg.p_short_read.min(8000);
        let probes = [0, 1, 2, q.below(5000) as u32];
        let live = format!("{root}/live{k}");
        if lazy {
            put(&live, &first.files);
        }
        let ph = ctx.phase(&cfg, || {
            let mut f = Facts::new();
            let path = format!("{}/out.jbk", if lazy { &live } else { &dir });
            match Container::new(&path) {
                Err(e) => {
                    f.insert(K::Top("open"), F::Err(format!("{e}")));
                }
                Ok(c) => {
                    for p in &touched {
                        let _ = content_fact(&c, *p, 0);
                    }
                    if lazy {
                        quiet(|| {
                            std::fs::rename(&live, format!("{live}.old")).expect("rename");
                            std::fs::rename(&dir, &live).expect("rename");
                        });
                    }
                    read_container(&c, &want, &mut f);
                    for p in contents {
                        for i in probes {
                            if gone.contains(p) {
                                f.insert(K::Content(*p, i, "probe"), content_fact(&c, *p, i).0);
                            }
                            f.insert(K::Content(*p, i, "combined"), combined(&c, *p, i));
                        }
                    }
                }
            }
            read_manifest(&path, &mut f);
            enc(&f)
        });
        let got = dec(&ctx.must(ph, "panic", &format!("reading ({told})"))?);
        let here = if lazy { live.clone() } else { dir.clone() };
        // ---------------- the oracle
        let mut expect = base.clone();
        let text = |id: u16, s: &'static str| match &base[&K::Pack(id, s)] {
            F::T(t) => t.clone(),
            F::U(n) => n.to_string(),
            x => format!("{x:?}"),
        };
        let mut missing = 0;
        for id in &gone {
            let d = format!("uuid {} size {} id {id} kind {} location {:?}", text(*id, "uuid"), text(*id, "size"), text(*id, "kind"), text(*id, "location"));
            // what was at hand before may be kept at hand
            if lazy && !matches!(got.get(&K::Pack(*id, "count")), Some(F::Missing(_))) {
                continue;
            }
            missing += 1;
            expect.retain(|k, _| !matches!(k, K::Content(p, ..) if p == id));
            expect.remove(&K::Pack(*id, "pack.free"));
            expect.insert(K::Pack(*id, "count"), F::Missing(d.clone()));
            for i in probes {
                // asking for a content which never existed is another matter
                if matches!(base.get(&K::Pack(*id, "count")), Some(F::U(n)) if *n > i as u64) {
                    expect.insert(K::Content(*id, i, "probe"), F::Missing(d.clone()));
                    expect.insert(K::Content(*id, i, "combined"), F::Missing(d.clone()));
                }
            }
        }
        for p in contents {
            for i in probes {
                if let Some(v) = expect.get(&K::Content(*p, i, "bytes")).cloned() {
                    expect.insert(K::Content(*p, i, "combined"), v);
                }
            }
        }
        if let Some(d) = first_diff(&expect, &got) {
            return fail("differs", format!("{told} {d}"));
        }
        if let Some((x, v)) = got.iter().find(|(x, _)| !expect.contains_key(*x) && !matches!(x, K::Content(_, _, "probe" | "combined"))) {
            return fail("differs", format!("{told} {x:?}: {v:?} was not there before"));
        }
        ctx.count("packs.missing", missing);
        ctx.count("subsets.compared", 1);
        ctx.state(h(shape(&spec), hs(lazy as u64, &told)));
        sample.push_str(&format!(" | {told}"));
        // ---------------- the check covers the packs which are there
        if !q.chance(2, 3) {
            continue;
        }
        let there: Vec<u16> = first.ids.iter().copied().filter(|i| !gone.contains(i)).collect();
        let id = *q.pick(&there);
        let uuid = first.locs.iter().find(|x| x.2 == id).unwrap().0;
        let mut files = packaged::Files::new();
        packaged::tree(&here, "", &mut files);
        // (in every file it is in)
        let mut done = None;
        let (way, bit, any) = (q.below(3), q.below(8), q.u64());
        for (name, b) in &files {
            let Ok(v) = Decoder::new(b).all() else { continue };
            if let Some(p) = v.iter().find(|p| p.uuid == uuid && &b[p.at..p.at + 4] != b"jbkC") {
                let at = match way {
                    0 => p.check_at - 1,
                    1 => 64 + p.at,
                    _ => p.at + 64 + (any % (p.check_at - p.at - 64) as u64) as usize,
                };
                let mut b = b.clone();
                b[at] ^= 1 << bit;
                std::fs::write(format!("{here}/{name}"), &b).expect("write");
                done = Some(format!("{told} byte {} of pack {id} altered (in {name})", at - p.at));
            }
        }
        let Some(story) = done else { return fail("layout", format!("{told} pack {id} is nowhere")) };
        ctx.tell(story.clone());
        let cfg = ctx.noise(&format!("check{k}"), 0);
        let path = format!("{here}/out.jbk");
        let ph = ctx.phase(&cfg, || {
            let r = Container::new(&path).and_then(|c| c.check());
            vec![matches!(r, Ok(true)) as u8]
        });
        // (a panic over damaged bytes is C06's to report)
        if let Ok(v) = ctx.must(ph, "check", &story) {
            if v == [1] {
                return fail("check", format!("{story}: the check still passes"));
            }
            ctx.count("checks.of.altered.packs", 1);
        }
    }
    ctx.sample(|| sample);
    Ok(())
}
