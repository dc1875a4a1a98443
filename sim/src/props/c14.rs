//! C14: written bytes follow the documented layout; old files keep reading the same.

use super::common::*;
use super::Check;
use crate::create::Frees;
use crate::ctx::*;
use crate::decode;
use crate::facts::*;
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const CHECK: Check = Check {
    id: "C14",
    run,
    quick: 14000,
    thorough: 120_000,
    level: "exploration",
    rule: "seeded containers (all packagings, compressions, levels and hints, extra packs, one file per pack or assembled, several clusters, all property, store and index kinds, references, free data, vendor ids), created under seeded schedules and short I/O, then decoded by a decoder of its own (no jubako code): \
           every block checksum, header/tail mirror, checksum and its masks, table, offset, size, reserved byte and the manifest's description of its packs, and the recovered contents, entries and indexes are compared with what was written. \
           Every file of the committed corpus (written by the pinned version) is decoded and read by the current reader and compared with its recorded content. Distinct by shape of the container; a case counts when at least one content or entry was decoded",
    real: "jubako creator and (for the corpus) reader, std, the compression libraries",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (real files on tmpfs, short reads and writes injected)",
    assumptions: &["sequentially consistent memory", "where /repo/spec and the pinned version disagree (order of fields in tails, no checksum after cluster data) the pinned version's bytes are the layout", "the lz4, xz2, zstd and blake3 crates are right"],
};

/// Files of a container in a directory, by name.
pub fn files_of(dir: &str) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let n = e.file_name().into_string().unwrap_or_default();
        if n.starts_with("src") || n.ends_with(".facts") || !e.path().is_file() {
            continue;
        }
        m.insert(n, std::fs::read(e.path()).unwrap_or_default());
    }
    m
}

pub fn gen_spec(ctx: &mut Ctx, r: &mut Rng, small: bool) -> (Spec, Frees) {
    gen_spec_with(ctx, r, small, (1, 3, 3))
}
/// (`extras`: one time out of how many there are extra content packs, and how many at most)
pub fn gen_spec_with(ctx: &mut Ctx, r: &mut Rng, small: bool, extras: (u64, u64, u64)) -> (Spec, Frees) {
    let mut spec = Spec::empty();
    spec.mode = *r.pick(&Mode::ALL);
    r.fill(&mut spec.vendor);
    let plan = if small {
        Plan::Mixed(8, 600)
    } else {
        match r.below(40) {
            0 => Plan::Many(1),
            1 => Plan::Boundary,
            _ => Plan::Mixed(12, 6000),
        }
    };
    spec.contents = gen_contents(ctx, r, plan);
    spec.comp = gen_comp(ctx, r, total(&spec.contents));
    spec.cached = r.chance(1, 5);
    spec.extras = if r.chance(extras.0, extras.1) { gen_extras(ctx, r, extras.2) } else { vec![] };
    // (the pinned version does not create everything: no equal sort keys for the corpus)
    let unique = small && r.chance(2, 3);
    let o = DirOpts { sort: unique || r.chance(1, 2), unique, refs: !unique, max_arr: if small { 60 } else { 3000 }, max_entries: if small { 20 } else { 40 }, ..Default::default() };
    let slots: Vec<usize> = spec.slots().iter().map(|s| s.1.len()).collect();
    spec.dir = gen_dir(r, &o, &slots, || ctx.keep());
    r.fill(&mut spec.dir.free);
    for ix in spec.dir.indexes.iter_mut() {
        r.fill(&mut ix.free);
        ix.key = r.below(4) as u8;
    }
    let mut fr = Frees::default();
    for _ in 0..1 + spec.extras.len() {
        let mut x = [0; 24];
        r.fill(&mut x);
        fr.content.push(x);
    }
    r.fill(&mut fr.manifest);
    r.fill(&mut fr.container);
    (spec, fr)
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let corpus = corpus();
    if (ctx.index as usize) < corpus.len() {
        return old_file(ctx, &corpus[ctx.index as usize]);
    }
    let mut r = ctx.rng("scenario");
    let (spec, frees) = gen_spec(ctx, &mut r, false);
    let route = if spec.cached { Route::High } else { gen_route(&mut r) };
    ctx.tell(format!("{route:?} {}", describe(&spec)));
    let mut cfg = ctx.noise("create", 1);
    if total(&spec.contents) > 1 << 20 || spec.contents.len() > 500 {
        cfg.p_short_read = cfg.p_short_read.min(2000);
        cfg.p_short_write = cfg.p_short_write.min(2000);
    }
    let built = create_ok(ctx, &cfg, &spec, route, &frees)?;
    let files = files_of(&ctx.root);
    let (got, problems) = match decode::logical(&files, "out.jbk", false) {
        Ok(x) => x,
        Err(e) => return fail("layout", format!("the independent decoder cannot follow the files: {e}")),
    };
    if let Some(p) = problems.first() {
        return fail("layout", format!("{} problems, first: {p}", problems.len()));
    }
    let want = spec.facts(&built);
    if let Some(d) = first_diff(&want, &got) {
        return fail("content", format!("the independent decoder recovers something else: {d}"));
    }
    if let Some(d) = extra_entry(&want, &got) {
        return fail("content", format!("the independent decoder recovers something more: {d}"));
    }
    meta(&spec, &frees, route, &files)?;
    let n = want.keys().filter(|k| matches!(k, K::Entry(..) | K::Content(..))).count();
    ctx.count("facts.compared", n as u64);
    ctx.count("files.decoded", files.len() as u64);
    if n > 0 {
        ctx.state(h(shape(&spec), hs(0, &format!("{route:?}"))));
        ctx.sample(|| describe(&spec));
    }
    Ok(())
}

/// Vendor ids, free data, index keys.
fn meta(spec: &Spec, frees: &Frees, route: Route, files: &BTreeMap<String, Vec<u8>>) -> R {
    let loose = route != Route::High;
    let ids: Vec<u16> = spec.slots().iter().map(|s| s.0).collect();
    let mut uuid_of: BTreeMap<[u8; 16], u16> = BTreeMap::new();
    let mut seen: Vec<decode::DPack> = vec![];
    for b in files.values() {
        let mut d = decode::Decoder::new(b);
        for p in d.all().unwrap_or_default() {
            seen.push(p);
        }
    }
    for p in &seen {
        if let Some(m) = p.man() {
            for i in &m.infos {
                uuid_of.insert(i.uuid, i.id);
            }
            if loose && m.free != frees.manifest {
                return fail("meta", "the manifest's free data is not the one given");
            }
            let mut got: Vec<u16> = m.infos.iter().filter(|i| i.kind == b'c').map(|i| i.id).collect();
            got.sort();
            let mut want = ids.clone();
            want.sort();
            if got != want {
                return fail("meta", format!("content packs {got:?} in the manifest, {want:?} given"));
            }
        }
    }
    for p in &seen {
        // the container wrapper of a content pack has a vendor of its own
        if p.kind != b'C' && p.vendor != spec.vendor {
            return fail("meta", format!("vendor {:?} in a pack of kind {}", p.vendor, p.kind as char));
        }
        if let Some(d) = p.dir() {
            if loose && d.free != spec.dir.free {
                return fail("meta", "the directory's free data is not the one given");
            }
            if d.indexes.len() != spec.dir.indexes.len() {
                return fail("meta", format!("{} indexes", d.indexes.len()));
            }
            for (a, b) in d.indexes.iter().zip(&spec.dir.indexes) {
                if a.free != b.free || a.key != b.key || a.name != b.name {
                    return fail("meta", format!("index {a:?} where {b:?} was given"));
                }
            }
            for (a, b) in d.values.iter().zip(&spec.dir.vstores) {
                if a.indexed != (*b == Vs::Indexed) {
                    return fail("meta", "kind of a value store");
                }
            }
            if d.stores.iter().zip(&spec.dir.stores).any(|(a, b)| a.count != b.entries.len()) || d.stores.len() != spec.dir.stores.len() {
                return fail("meta", "entry counts of the stores");
            }
        }
        if let (Some(c), true) = (p.content(), loose) {
            let slot = uuid_of.get(&p.uuid).and_then(|i| ids.iter().position(|x| x == i));
            if let Some(s) = slot {
                if c.free != frees.content[s] {
                    return fail("meta", "a content pack's free data is not the one given");
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- corpus

/// Directories of the committed corpus.
pub fn corpus() -> Vec<String> {
    let base = format!("{}/corpus", crate::verif_dir());
    let mut v: Vec<String> = std::fs::read_dir(&base).into_iter().flatten().flatten().map(|e| e.path().to_string_lossy().into_owned()).collect();
    v.sort();
    v
}

fn old_file(ctx: &mut Ctx, dir: &str) -> R {
    ctx.tell(format!("reference container {dir}"));
    let mut files = BTreeMap::new();
    for (n, b) in files_of(dir) {
        std::fs::write(ctx.path(&n), &b).expect("scratch");
        files.insert(n, b);
    }
    let Ok(facts) = std::fs::read(format!("{dir}/reference.facts")) else {
        panic!("no reference.facts in {dir}");
    };
    let want = dec(&zstd::decode_all(&facts[..]).expect("reference.facts"));
    let (got, problems) = decode::logical(&files, "out.jbk", true).map_err(|e| Fail { sig: "corpus-decoder".into(), msg: e })?;
    if let Some(d) = problems.first().cloned().or(first_diff(&want, &got)) {
        panic!("the reference corpus {dir} does not decode: {d}");
    }
    let names: Vec<String> = want
        .keys()
        .filter_map(|k| match k {
            K::Index(n, "count") => Some(n.clone()),
            _ => None,
        })
        .collect();
    let packs: Vec<u16> = want
        .keys()
        .filter_map(|k| match k {
            K::Pack(n, "count") => Some(*n),
            _ => None,
        })
        .collect();
    let cfg = ctx.noise("read", 1);
    let out = ctx.path("out.jbk");
    let ph = ctx.phase(&cfg, || {
        let w = Want { names, packs, bytes: true, check: true, manifest: true, typed: true, ..Default::default() };
        enc(&read_all(&out, &w))
    });
    let got = dec(&ctx.must(ph, "corpus", "reading a reference container")?);
    if let Some(d) = first_diff(&want, &got) {
        return fail("corpus", format!("reference container {dir} reads otherwise: {d}"));
    }
    if got.get(&K::Top("check")) != Some(&F::U(1)) {
        return fail("corpus", format!("reference container {dir}: its check gives {:?}", got.get(&K::Top("check"))));
    }
    ctx.count("reference_containers.read", 1);
    ctx.state(hs(7, dir));
    Ok(())
}

/// Writes the corpus (once, with the pinned version of jubako).
pub fn write_corpus(base: &str, n: u64) {
    let mut done = 0;
    let mut i = 0u64;
    while done < n {
        i += 1;
        let root = format!("{}/jbksim-corpus-{}", if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" }, std::process::id());
        let mut ctx = Ctx::new(crate::rng::sub_seed(77, "corpus", i), i, Tier::Quick, &root);
        ctx.clean();
        let mut r = ctx.rng("scenario");
        let (mut spec, frees) = gen_spec(&mut ctx, &mut r, true);
        spec.comp = match i % 4 {
            0 => Comp::None,
            1 => Comp::Lz4(r.below(16) as u32),
            2 => Comp::Lzma(r.below(9) as u32),
            _ => Comp::Zstd(r.range(1, 19) as i32),
        };
        let route = if spec.cached { Route::High } else { gen_route(&mut r) };
        let cfg = crate::rt::SimCfg::default();
        let mut cfg = cfg;
        cfg.set_root(&root);
        let built = match create_ok(&mut ctx, &cfg, &spec, route, &frees) {
            Ok(b) => b,
            Err(f) => {
                eprintln!("skipped {i}: {}", f.msg);
                continue;
            }
        };
        let want = spec.facts(&built);
        let files = files_of(&root);
        match decode::logical(&files, "out.jbk", true) {
            Ok((got, p)) if p.is_empty() && first_diff(&want, &got).is_none() => {}
            x => {
                eprintln!("skipped {i}: {:?}", x.map(|(g, p)| (p, first_diff(&want, &g))));
                continue;
            }
        }
        let out = format!("{root}/out.jbk");
        let names: Vec<String> = spec.dir.indexes.iter().map(|x| x.name.clone()).collect();
        let packs: Vec<u16> = spec.slots().iter().map(|s| s.0).collect();
        let ph = ctx.phase(&cfg, || enc(&read_all(&out, &Want { names, packs, bytes: true, ..Default::default() })));
        let ok = match ctx.must(ph, "", "") {
            // the pinned reader could not find content packs kept in a container of their own
            Ok(_) if route == Route::High && spec.mode != Mode::OneFile => None,
            Ok(b) => first_diff(&want, &dec(&b)),
            Err(f) => Some(f.msg),
        };
        if let Some(e) = ok {
            eprintln!("skipped {i}: {e}");
            continue;
        }
        let total: usize = files.values().map(|b| b.len()).sum();
        if total > 60_000 {
            continue;
        }
        let dir = format!("{base}/{done:03}");
        std::fs::create_dir_all(&dir).unwrap();
        for (n, b) in &files {
            std::fs::write(format!("{dir}/{n}"), b).unwrap();
        }
        std::fs::write(format!("{dir}/reference.facts"), zstd::encode_all(&enc(&want)[..], 19).unwrap()).unwrap();
        println!("{dir}: {route:?} {}", describe(&spec));
        done += 1;
        ctx.clean();
    }
}
