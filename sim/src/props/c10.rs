//! C10: a container reads the same however its packs are packaged.

use super::c14::gen_spec;
use super::common::*;
use super::packaged::{self, concat, put, tree, Files, First};
use super::Check;
use crate::create;
use crate::ctx::*;
use crate::decode::Decoder;
use crate::facts::*;
use crate::model::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const CHECK: Check = Check {
    id: "C10",
    run,
    quick: 6000,
    thorough: 120_000,
    level: "exploration",
    rule: "seeded containers (0..3 extra content packs, all kinds of stores) created in one file, two files, three files, or as loose packs which are left beside the manifest, moved to other directories, grouped in containers, partly or wholly assembled; then 2..4 further packagings derived one from the other: \
           concatenation by the real tool of all the files or of some of them, in any order, also twice; any bytes before the entry file and before the other files (random, zeros, headers cut or whole, other Jubako files, 1 byte to 70 kB); \
           everything moved to another directory and opened by a relative path; decoys at the recorded locations of packs which are inside the file at hand (altered copies of the same pack, other packs, garbage, directories). \
           After each: every index, entry, content, pack description and check reads exactly as in the first packaging, and that one as given to the creator. A case counts per packaging read; distinct by operation, what it was applied to, and container shape",
    real: "jubako creator, concat tool (library and jbk command) and reader (locators, container packs, blind opening), std",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (short reads and writes injected); moving, copying and prepending is done by the harness",
    assumptions: &["sequentially consistent memory"],
};

/// One packaging: a directory, the file to open, and whether every pack is in that file.
#[derive(Clone, Debug)]
struct Set {
    dir: String,
    entry: String,
    whole: bool,
}

pub fn prefix(r: &mut Rng, files: &Files, foreign: &[u8]) -> Vec<u8> {
    let n = match r.below(8) {
        0 => r.range(1, 63),
        1 => 64,
        2 => r.range(65, 300),
        3 => 4096 + r.below(3) - 1,
        4 => r.range(1, 70_000),
        _ => r.range(1, 2000),
    } as usize;
    let some = r.pick(&files.values().collect::<Vec<_>>()).to_vec();
    match r.below(9) {
        0 => vec![0; n],
        1 => {
            let mut v = b"jbk".to_vec();
            v.push(*r.pick(b"mdcC"));
            v.extend(r.bytes(n));
            v
        }
        2 => {
            // a header, and something else
            let mut v = some[..64.min(some.len())].to_vec();
            v.extend(r.bytes(n));
            v
        }
        3 => {
            // a file cut short, or the end of one
            let k = r.idx(some.len()) + 1;
            if r.chance(1, 2) {
                some[..k].to_vec()
            } else {
                some[some.len() - k..].to_vec()
            }
        }
        4 | 5 => foreign.to_vec(),
        6 => {
            let mut v = b"\x7fELF\x02\x01\x01".to_vec();
            v.extend(r.bytes(n));
            v
        }
        _ => r.bytes(n),
    }
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let mut r = ctx.rng("scenario");
    let (mut spec, mut frees) = gen_spec(ctx, &mut r, false);
    if r.chance(1, 40) {
        packaged::many(ctx, &mut r, &mut spec, &mut frees);
    }
    packaged::spread_out(&mut r, &mut spec);
    // or beside the directory of the entry (which is beside every other one below)
    for (i, e) in spec.extras.iter_mut().enumerate() {
        match r.below(8) {
            0 => e.name = format!("../extra{i}.jbkc"),
            1 => e.name = format!("../beside/extra{i}.jbkc"),
            _ => (),
        }
    }
    let root = ctx.root.clone();
    let high = spec.cached || r.chance(1, 2);
    let First { built, dir: base_dir, files: first, packs, locs, ids, how } = packaged::first(ctx, &mut r, &spec, &frees, high)?;
    let names: Vec<String> = spec.dir.indexes.iter().map(|i| i.name.clone()).collect();
    let content_packs: Vec<u16> = ids[1..].to_vec();
    let want = Want { names, packs: content_packs, bytes: true, manifest: true, check: true, max_contents: 200, max_entries: 300, ..Default::default() };
    let read = |ctx: &mut Ctx, k: usize, set: &Set, relative: u64| -> Result<Facts, Fail> {
        let mut cfg = ctx.noise(&format!("read{k}"), 1);
        cfg.p_short_read = cfg.p_short_read.min(8000);
        let (cwd, path) = match relative {
            1 => (Some(set.dir.clone()), set.entry.clone()),
            2 => (Some(set.dir.clone()), format!("./{}", set.entry)),
            3 => (Some(root.clone()), format!("{}/{}", set.dir.rsplit('/').next().unwrap(), set.entry)),
            _ => (None, format!("{}/{}", set.dir, set.entry)),
        };
        let ph = ctx.phase(&cfg, || {
            if let Some(d) = cwd {
                std::env::set_current_dir(d).expect("chdir");
            }
            enc(&read_all(&path, &want))
        });
        Ok(dec(&ctx.must(ph, "read", &format!("reading {set:?}"))?))
    };
    let mut sets = vec![Set {
        dir: base_dir.clone(),
        entry: "out.jbk".into(),
        whole: first.len() == 1,
    }];
    let base = read(ctx, 0, &sets[0], r.below(5))?;
    let mut expect = spec.facts(&built);
    // packs and indexes with more than what is read at most are read in part
    let (mut contents, mut entries) = (BTreeMap::new(), BTreeMap::new());
    for k in expect.keys() {
        match k {
            K::Content(p, i, _) => drop(contents.insert(*p, *i)),
            K::Entry(x, i, _) => drop(entries.insert(x.clone(), *i)),
            _ => (),
        }
    }
    expect.retain(|k, _| {
        base.contains_key(k)
            || match k {
                K::Content(p, ..) => contents[p] < 200,
                K::Entry(x, ..) => entries[x] < 300,
                _ => true,
            }
    });
    if let Some(d) = first_diff(&expect, &base) {
        return fail("first", format!("as created: {d}"));
    }
    if base.get(&K::Top("check")) != Some(&F::U(1)) {
        return fail("first", format!("as created: check: {:?}", base.get(&K::Top("check"))));
    }
    // ------------------------------------------------ another container, as a prefix
    let mut foreign = r.bytes(200);
    if r.chance(1, 3) {
        let mut f = Spec::empty();
        f.contents = vec![Content { seed: 1, len: 300, pat: Pat::Text, hint: Hint::Yes, src: Src::Mem }];
        f.vendor = *b"othr";
        let dir = format!("{root}/foreign");
        std::fs::create_dir_all(&dir).expect("mkdir");
        let path = format!("{dir}/f.jbk");
        let cfg = ctx.noise("foreign", 0);
        let ph = ctx.phase(&cfg, || create::create(&root, &path, &f, Arc::new(())).err().unwrap_or_default().into_bytes());
        let m = ctx.must(ph, "create", "creation")?;
        if !m.is_empty() {
            return fail("create", String::from_utf8_lossy(&m).into_owned());
        }
        foreign = std::fs::read(&path).expect("read");
        // or only its content pack
        if r.chance(1, 3) {
            if let Ok(v) = Decoder::new(&foreign).all() {
                let p = v.iter().find(|p| p.content().is_some()).unwrap();
                foreign = foreign[p.at..p.at + p.size].to_vec();
            }
        }
    }
    // ------------------------------------------------ further packagings
    let n = r.range(2, 4) as usize;
    for k in 1..=n {
        let from = r.pick(&sets).clone();
        let op = r.below(8);
        let mut q = Rng::new(r.u64());
        let relative = if q.chance(1, 3) { q.range(1, 3) } else { 0 };
        if !ctx.keep() {
            continue;
        }
        let dir = format!("{root}/p{k}");
        std::fs::create_dir_all(&dir).expect("mkdir");
        let mut files = Files::new();
        tree(&from.dir, "", &mut files);
        let story;
        let set = match op {
            0..=3 => {
                // concatenation of the entry and all or some of the others
                let all = from.whole || q.chance(2, 3);
                let mut inputs: Vec<String> = files.keys().filter(|f| **f == from.entry || !from.whole && (all || q.chance(1, 2))).cloned().collect();
                for i in 0..inputs.len() {
                    let j = i + q.idx(inputs.len() - i);
                    inputs.swap(i, j);
                }
                if q.chance(1, 6) {
                    let again = q.pick(&inputs).clone();
                    inputs.push(again);
                }
                let name = q.pick(&["out.jbk", "all", "a b.jbk"]).to_string();
                let paths: Vec<String> = inputs.iter().map(|f| format!("{}/{f}", from.dir)).collect();
                story = format!("p{k}/{name}: concatenation of {inputs:?} of {from:?}");
                let rest: Files = files.iter().filter(|(f, _)| !inputs.contains(*f) && !from.whole).map(|(a, b)| (a.clone(), b.clone())).collect();
                let whole = inputs.iter().collect::<BTreeSet<_>>().len() == files.len() || from.whole;
                put(&dir, &rest);
                ctx.tell(story);
                concat(ctx, &format!("concat{k}"), &paths, &format!("{dir}/{name}"))?;
                ctx.count("packaging.concat", 1);
                Set { dir, entry: name, whole }
            }
            4 | 5 => {
                let pre = prefix(&mut q, &first, &foreign);
                let others = q.chance(1, 4);
                story = format!("p{k}: {from:?} with {} bytes {:02x?}... before the entry{}", pre.len(), &pre[..pre.len().min(8)], if others { " and the others" } else { "" });
                for (f, b) in files.iter_mut() {
                    if *f == from.entry || others {
                        *b = [&pre[..], b].concat();
                    }
                }
                // more before it than 32 bits count (a hole), then concatenated: it is not read into this process
                let far = if q.chance(1, 16) { (1 << 32) * q.range(1, 40) - q.below(700) } else { 0 };
                put(&dir, &files);
                ctx.tell(story);
                ctx.count("packaging.prefix", 1);
                let mut set = Set { dir, entry: from.entry.clone(), whole: from.whole };
                if far > 0 {
                    use std::os::unix::fs::FileExt;
                    let p = format!("{}/{}", set.dir, set.entry);
                    std::fs::File::create(&p).and_then(|f| f.write_all_at(&files[&set.entry], far)).expect("write");
                    ctx.tell(format!("p{k}: and a hole of {far} bytes before the entry"));
                    let got = read(ctx, 1000 + k, &set, relative)?;
                    if let Some(d) = first_diff(&base, &got) {
                        return fail("differs", format!("{set:?} after {far} bytes: {d}"));
                    }
                    concat(ctx, &format!("concat{k}"), &[p.clone()], &format!("{}/near{k}", set.dir))?;
                    std::fs::remove_file(&p).expect("rm");
                    set.entry = format!("near{k}");
                    ctx.count("packaging.far", 1);
                }
                set
            }
            6 if from.whole => {
                // decoys where the manifest says packs may be
                let mut what = vec![];
                let mut out = Files::new();
                for (u, l, _) in &locs {
                    if l.is_empty() || l.starts_with("../") || *l == from.entry || out.contains_key(l) || out.contains_key(&format!("{l}/file")) || !q.chance(3, 4) {
                        continue;
                    }
                    let mut b = packs[u].clone();
                    let kind = q.below(6);
                    match kind {
                        0 => b = q.bytes(300),
                        1 => b.clear(),
                        2 => b = q.pick(&packs.values().collect::<Vec<_>>()).to_vec(),
                        3 => b = foreign.clone(),
                        _ => {
                            // the same pack by its header, other bytes in it
                            let n = b.len();
                            for x in &mut b[64..n.saturating_sub(64).max(64)] {
                                *x = x.wrapping_add(1);
                            }
                        }
                    }
                    what.push((l, kind));
                    if q.chance(1, 8) {
                        out.insert(format!("{l}/file"), b);
                    } else {
                        out.insert(l.clone(), b);
                    }
                }
                story = format!("p{k}: {from:?} with decoys {what:?}");
                put(&dir, &out);
                std::fs::write(format!("{dir}/{}", from.entry), &files[&from.entry]).expect("write");
                ctx.tell(story);
                ctx.count("packaging.decoys", 1);
                Set { dir, entry: from.entry.clone(), whole: true }
            }
            _ => {
                story = format!("p{k}: {from:?} moved");
                if from.whole {
                    files.retain(|f, _| *f == from.entry);
                }
                put(&dir, &files);
                ctx.tell(story);
                ctx.count("packaging.moved", 1);
                Set { dir, entry: from.entry.clone(), whole: from.whole }
            }
        };
        let got = read(ctx, k, &set, relative)?;
        if let Some(d) = first_diff(&base, &got) {
            return fail("differs", format!("{set:?}: {d}"));
        }
        if let Some(x) = got.keys().find(|x| !base.contains_key(*x)) {
            return fail("differs", format!("{set:?}: {x:?} was not there in the first packaging"));
        }
        ctx.count("packagings.compared", 1);
        ctx.state(h(shape(&spec), hs(op * 2 + from.whole as u64, &format!("{high}{how:?}{}", first.len()))));
        sets.push(set);
    }
    ctx.sample(|| ctx_story(&sets, &spec));
    Ok(())
}

fn ctx_story(sets: &[Set], spec: &Spec) -> String {
    format!("{} -> {:?}", describe(spec), sets.iter().map(|s| format!("{}/{}{}", s.dir.rsplit('/').next().unwrap(), s.entry, if s.whole { " (whole)" } else { "" })).collect::<Vec<_>>())
}
