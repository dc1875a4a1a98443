//! C01: stored content reads back byte-identical at the returned address.

use super::common::*;
use super::Check;
use crate::create::Frees;
use crate::ctx::*;
use crate::facts::*;
use crate::model::*;
use jubako::reader::{Container, MayMissPack};

pub const CHECK: Check = Check {
    id: "C01",
    run,
    quick: 6000,
    thorough: 90000,
    level: "exploration",
    rule: "seeded insertion sequences: 0..40 contents of 0..300 kB; running cluster size meeting or crossing 2^8, 2^16, 2^24; around k*4095 tiny contents, around 2^16 of them, and more than 255 clusters of them; contents around and above the 4 MiB cluster limit. \
           Memory, file, file range and file tail sources, duplicates, the deduplicating adder, four compressions and their levels, the three packagings of the high-level creator and packs built by hand, \
           under varied worker counts, schedules, short reads and short writes. A case counts when at least two contents were stored and read back; cases are distinct by compression, packaging, and the sequence of (size magnitude, hint, kind of bytes)",
    real: "jubako creator (content packs, compression workers, cluster writer, directory, manifest, container) and reader (container, content pack, background decompression), lz4/lzma/zstd, std",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (real files on tmpfs, short reads and writes injected)",
    assumptions: &["sequentially consistent memory", "threads preempted only at atomic operations, allocations, futex and file operations"],
};

/// Content `i` of a huge pack: a few bytes, never the same ones twice in a row.
fn tiny(seed: u64, i: u64, zeros: u64) -> ([u8; 8], usize) {
    let x = crate::rng::mix64(seed ^ i);
    // `zeros` of every 256 contents are empty
    let n = if (x >> 48) & 255 < zeros { 0 } else { 1 + (x >> 56) as usize % 8 };
    (x.to_le_bytes(), n)
}

/// Content and cluster numbers beyond one and two bytes: nothing but their count matters, so contents are
/// a few bytes each and both sides know them from their number.
fn huge(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng("huge");
    let n = match if ctx.index % 16 == 15 { 0 } else { r.below(4) } {
        // more than 2^8 clusters
        0 => 4095 * r.range(255, 258) - 1 + r.below(3),
        // around 2^16 contents
        _ => 65_536 - 3 + r.below(8),
    };
    let n = ctx.knob("n", n, 2);
    let seed = r.u64();
    let zeros = *r.pick(&[0, 16, 256]);
    let comp = *r.pick(&[Comp::None, Comp::Zstd(1), Comp::Lz4(0)]);
    // how hints alternate: all raw, one in `every` compressed, or all compressed
    let every = *r.pick(&[0, 1, 2, 3, 7, 5000]);
    let mode = *r.pick(&Mode::ALL);
    ctx.tell(format!("{n} contents of a few bytes ({zeros}/256 empty), one in {every} compressed with {comp:?}, {mode:?}"));
    let mut cfg = ctx.noise("create", 1);
    // (millions of steps: more frequent interruptions would only cost time)
    cfg.quantum = cfg.quantum.max(200);
    cfg.p_spurious = cfg.p_spurious.min(500);
    cfg.p_short_read = cfg.p_short_read.min(500);
    cfg.p_short_write = cfg.p_short_write.min(500);
    let out = ctx.path("out.jbk");
    let o = out.clone();
    let ph = ctx.phase(&cfg, move || {
        use crate::create::es;
        use jubako::creator::BasicCreator;
        let go = || -> crate::create::Es<Vec<u8>> {
            let mut bc = BasicCreator::new(&o, crate::create::concat_mode(mode), [1, 2, 3, 4].into(), crate::create::compression(comp), std::sync::Arc::new(())).map_err(es)?;
            let mut out = vec![];
            for i in 0..n {
                let (b, l) = tiny(seed, i, zeros);
                let h = if every > 0 && i % every == 0 { Hint::Yes } else { Hint::No };
                let a = bc.add_content(Box::new(std::io::Cursor::new(b[..l].to_vec())), crate::create::hint(h)).map_err(es)?;
                let (p, c) = crate::create::pair(a);
                crate::rt::quiet(|| {
                    out.extend(p.to_le_bytes());
                    out.extend(c.to_le_bytes());
                });
            }
            let ds = crate::create::DirStore { dir: Spec::empty().dir, addrs: vec![], handles: Default::default() };
            bc.finalize(Box::new(ds), vec![]).map_err(crate::create::es)?;
            Ok(out)
        };
        go().unwrap_or_else(|e| format!("ERR{e}").into_bytes())
    });
    let got = ctx.must(ph, "create", "creation")?;
    if got.starts_with(b"ERR") || got.len() as u64 != 6 * n {
        return fail("create", format!("creation of {n} contents failed: {}", String::from_utf8_lossy(&got[..got.len().min(200)])));
    }
    let addrs: Vec<(u16, u32)> = got.chunks(6).map(|c| (u16::from_le_bytes([c[0], c[1]]), u32::from_le_bytes([c[2], c[3], c[4], c[5]]))).collect();
    let mut d = addrs.clone();
    d.sort();
    d.dedup();
    if d.len() as u64 != n {
        return fail("address", format!("{n} insertions returned {} distinct addresses", d.len()));
    }
    // every content near a boundary of numbers, and a sample of the others
    let mut order: Vec<u64> = (0..n).filter(|i| i % 4095 < 2 || i % 4095 > 4092 || i % 256 == 255 || *i > n - n.min(600) || i.abs_diff(65_536) < 300).collect();
    for _ in 0..20_000 {
        order.push(r.below(n));
    }
    match r.below(3) {
        0 => order.sort(),
        1 => order.reverse(),
        _ => {}
    }
    let mut cfg = ctx.noise("read", 1);
    cfg.quantum = cfg.quantum.max(200);
    cfg.p_short_read = cfg.p_short_read.min(500);
    let (a, o) = (&addrs, &order);
    let ph = ctx.phase(&cfg, || {
        let go = || -> Result<(), String> {
            let c = Container::new(&out).map_err(|e| format!("{e}"))?;
            match c.get_pack(1.into()).map_err(|e| format!("{e}"))? {
                Some(MayMissPack::FOUND(p)) if p.get_content_count().into_u32() as u64 == n => {}
                Some(MayMissPack::FOUND(p)) => return Err(format!("{} contents counted, {n} stored", p.get_content_count().into_u32())),
                _ => return Err("content pack not found".into()),
            }
            for i in o {
                let (b, l) = tiny(seed, *i, zeros);
                let (p, id) = a[*i as usize];
                let got = c.get_bytes(addr(p, id)).map_err(|e| format!("content {i} of {n}, address {p}:{id}: {e}"))?;
                let Some(MayMissPack::FOUND(Some(rg))) = got else { return Err(format!("content {i} of {n}, address {p}:{id}: nothing there")) };
                let v = region_bytes(&rg).map_err(|e| format!("content {i} of {n}, address {p}:{id}: {e}"))?;
                if v != b[..l] {
                    return Err(format!("content {i} of {n}, address {p}:{id}: {v:?} instead of {:?}", &b[..l]));
                }
            }
            Ok(())
        };
        go().err().unwrap_or_default().into_bytes()
    });
    let e = ctx.must(ph, "read", "reading")?;
    if !e.is_empty() {
        return fail("content", String::from_utf8_lossy(&e).to_string());
    }
    ctx.count("contents.read_back", order.len() as u64);
    ctx.count("plan.Huge", 1);
    ctx.state(crate::rng::mix64(n ^ every << 32 ^ zeros << 48));
    ctx.sample(|| format!("{n} contents of a few bytes, {comp:?}, one in {every} compressed"));
    Ok(())
}

/// A raw cluster of more than 2^32 bytes: one content comes from a file which is mostly a hole.
fn giant(ctx: &mut Ctx) -> R {
    let free = std::fs::read_to_string("/proc/meminfo").ok().and_then(|m| {
        m.lines().find(|l| l.starts_with("MemAvailable"))?.split_whitespace().nth(1)?.parse::<u64>().ok()
    });
    if free.unwrap_or(0) < 14_000_000 {
        ctx.count("giant.no_room", 1);
        return Ok(());
    }
    let mut r = ctx.rng("giant");
    let (a, z) = (r.below(300), 1 + r.below(300));
    // the content itself, or only the cluster, exceeds 32 bits
    let big = (1u64 << 32) - r.below(2 * a + 2 * z) + *r.pick(&[0, 0, 5000]);
    let lens = [a, 40, big, 7, z, 0, 5];
    let seed = r.u64();
    let near = |k: u64, n: usize| crate::rng::Rng::new(seed ^ k).bytes(n);
    let marks: Vec<u64> = vec![0, 4096, 5_000_000, (1 << 31) - 32, (1 << 31) + 9, big - 4096, big - 64];
    {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(ctx.path("src_giant")).expect("source");
        f.set_len(big).expect("source");
        for m in &marks {
            f.write_all_at(&near(*m, 64), *m).expect("source");
        }
    }
    let mode = *r.pick(&[Mode::OneFile, Mode::NoConcat]);
    ctx.tell(format!("contents of {lens:?} bytes in one raw cluster, {mode:?}"));
    let (out, src) = (ctx.path("out.jbk"), ctx.path("src_giant"));
    let mut cfg = ctx.noise("create", 1);
    cfg.quantum = cfg.quantum.max(500);
    // (half a million transfers without copy_file_range: no more of them)
    (cfg.p_short_read, cfg.p_short_write, cfg.cfr_mode) = (0, 0, 0);
    crate::rt::set_cpu_limit(150);
    let o = out.clone();
    let ph = ctx.phase(&cfg, move || {
        use crate::create::es;
        use jubako::creator::{BasicCreator, InputFile};
        let go = || -> crate::create::Es<Vec<u8>> {
            let mut bc = BasicCreator::new(&o, crate::create::concat_mode(mode), [1, 2, 3, 4].into(), jubako::creator::Compression::None, std::sync::Arc::new(())).map_err(es)?;
            let mut out = vec![];
            for (k, n) in lens.iter().enumerate() {
                let hint = crate::create::hint(if k % 2 == 0 { Hint::No } else { Hint::Yes });
                let a = if *n == big {
                    bc.add_content(Box::new(InputFile::open(&src).map_err(es)?), hint)
                } else {
                    bc.add_content(Box::new(std::io::Cursor::new(near(k as u64 + 7, *n as usize))), hint)
                };
                out.extend(crate::create::pair(a.map_err(es)?).1.to_le_bytes());
            }
            let ds = crate::create::DirStore { dir: Spec::empty().dir, addrs: vec![], handles: Default::default() };
            bc.finalize(Box::new(ds), vec![]).map_err(es)?;
            Ok(out)
        };
        go().unwrap_or_else(|e| format!("ERR{e}").into_bytes())
    });
    crate::rt::set_cpu_limit(25);
    let _ = std::fs::remove_file(ctx.path("src_giant"));
    let got = ctx.must(ph, "create", "creation")?;
    if got.starts_with(b"ERR") {
        return fail("create", format!("creation fails: {}", String::from_utf8_lossy(&got)));
    }
    let ids: Vec<u32> = got.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let mut cfg = ctx.noise("read", 1);
    cfg.quantum = cfg.quantum.max(500);
    crate::rt::set_cpu_limit(150);
    let ph = ctx.phase(&cfg, || {
        let go = || -> Result<(), String> {
            let c = Container::new(&out).map_err(|e| format!("{e}"))?;
            for (k, n) in lens.iter().enumerate() {
                let w = |what: &dyn std::fmt::Display| format!("content {k} of {n} bytes: {what}");
                let Some(MayMissPack::FOUND(Some(rg))) = c.get_bytes(addr(1, ids[k])).map_err(|e| w(&e))? else { return Err(w(&"nothing there")) };
                if rg.size().into_u64() != *n {
                    return Err(w(&format!("{} bytes", rg.size().into_u64())));
                }
                if *n != big {
                    if region_bytes(&rg).map_err(|e| w(&e))? != near(k as u64 + 7, *n as usize) {
                        return Err(w(&"other bytes"));
                    }
                    continue;
                }
                for m in &marks {
                    for (at, want) in [(*m, near(*m, 64)), (m + 64, vec![0; 64])] {
                        if at >= big || marks.iter().any(|x| *x > *m && *x < at + 64) {
                            continue;
                        }
                        let s = rg.get_slice(at.into(), 64).map_err(|e| w(&e))?;
                        if *s != want {
                            return Err(w(&format!("other bytes at {at}")));
                        }
                        let mut v = vec![];
                        use std::io::Read;
                        rg.cut(at.into(), 64u64.into()).stream().read_to_end(&mut v).map_err(|e| w(&e))?;
                        if v != want {
                            return Err(w(&format!("other bytes streamed from {at}")));
                        }
                    }
                }
            }
            Ok(())
        };
        go().err().unwrap_or_default().into_bytes()
    });
    crate::rt::set_cpu_limit(25);
    ctx.clean();
    let e = ctx.must(ph, "read", "reading")?;
    if !e.is_empty() {
        return fail("content", String::from_utf8_lossy(&e).to_string());
    }
    ctx.count("plan.Giant", 1);
    ctx.state(big);
    Ok(())
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    if ctx.index % 4096 == 31 {
        return giant(ctx);
    }
    if ctx.index % 64 == 7 || ctx.index % 512 == 15 {
        return huge(ctx);
    }
    let mut r = ctx.rng("scenario");
    let mut spec = Spec::empty();
    let t = ctx.thorough();
    let plan = match r.below(if t { 300 } else { 400 }) {
        0 | 1 => Plan::Many(1),
        2 => Plan::Many(r.range(1, if t { 6 } else { 2 })),
        3..=8 => Plan::Large,
        9..=90 => Plan::Boundary,
        91..=200 => Plan::Mixed(12, 2000),
        201..=380 => Plan::Mixed(40, 20_000),
        _ => Plan::Mixed(20, 300_000),
    };
    spec.contents = gen_contents(ctx, &mut r, plan);
    spec.comp = gen_comp(ctx, &mut r, total(&spec.contents));
    let route = gen_route(&mut r);
    spec.cached = route == Route::High && r.chance(1, 3);
    spec.mode = *r.pick(&Mode::ALL);
    if r.chance(1, 3) {
        spec.extras = gen_extras(ctx, &mut r, 2);
    }
    ctx.tell(format!("{plan:?} {route:?} {}", describe(&spec)));
    let big = matches!(plan, Plan::Many(_)) || total(&spec.contents) > 200_000;
    let mut cfg = ctx.noise("create", 1);
    if big {
        // a short transfer per few bytes would only cost time
        cfg.p_short_read = cfg.p_short_read.min(2000);
        cfg.p_short_write = cfg.p_short_write.min(2000);
    }
    let built = create_ok(ctx, &cfg, &spec, route, &Frees::default())?;
    let mut want = Facts::new();
    spec.content_facts(&built, &mut want);
    for (slot, (id, cs)) in spec.slots().iter().enumerate() {
        if !(spec.cached && slot == 0) {
            let mut a = built.addrs[slot].clone();
            a.sort();
            a.dedup();
            if a.len() != cs.len() {
                return fail("address", format!("{} insertions into pack {id} returned {} distinct addresses", cs.len(), a.len()));
            }
        }
        if let Some(a) = built.addrs[slot].iter().find(|a| a.0 != *id) {
            return fail("address", format!("insertion into pack {id} returned an address of pack {}", a.0));
        }
    }
    // order of reading: by address, backwards, or shuffled with repeats
    let mut order: Vec<(u16, u32)> = built.addrs.iter().flatten().copied().collect();
    match r.below(4) {
        0 => order.reverse(),
        1 | 2 => {
            for i in 0..order.len() {
                let j = i + r.idx(order.len() - i);
                order.swap(i, j);
            }
            let again: Vec<_> = order.iter().take(50).copied().collect();
            order.extend(again);
        }
        _ => {}
    }
    let direct = r.chance(1, 2);
    let packs: Vec<u16> = spec.slots().iter().map(|s| s.0).collect();
    let out = ctx.path("out.jbk");
    let mut cfg = ctx.noise("read", 1);
    if big {
        cfg.p_short_read = cfg.p_short_read.min(2000);
    }
    let ph = ctx.phase(&cfg, || {
        let mut f = Facts::new();
        let c = match Container::new(&out) {
            Ok(c) => c,
            Err(e) => {
                f.insert(K::Top("open"), F::Err(format!("{e}")));
                return enc(&f);
            }
        };
        read_container(&c, &Want { packs: packs.clone(), ..Default::default() }, &mut f);
        for (p, i) in &order {
            let (b, s) = if direct {
                match c.get_pack((*p).into()) {
                    Ok(Some(MayMissPack::FOUND(cp))) => match cp.get_content((*i).into()) {
                        Ok(Some(rg)) => (region_bytes(&rg).map(|v| F::hash(&v)).unwrap_or_else(F::Err), F::U(rg.size().into_u64())),
                        Ok(None) => (F::None, F::None),
                        Err(e) => (F::Err(format!("{e}")), F::None),
                    },
                    Ok(_) => (F::T("pack not found".into()), F::None),
                    Err(e) => (F::Err(format!("{e}")), F::None),
                }
            } else {
                content_fact(&c, *p, *i)
            };
            for (what, v) in [("bytes", b), ("size", s)] {
                // a second read must not hide a wrong first one
                let k = K::Content(*p, *i, what);
                if f.get(&k).is_none_or(|old| want.get(&k) == Some(old)) {
                    f.insert(k, v);
                }
            }
        }
        enc(&f)
    });
    let got = dec(&ctx.must(ph, "read", "reading")?);
    if let Some(d) = first_diff(&want, &got) {
        return fail("content", d);
    }
    let n: usize = order.len();
    ctx.count("contents.read_back", n as u64);
    ctx.count(&format!("plan.{}", format!("{plan:?}").split('(').next().unwrap()), 1);
    ctx.count(&format!("compression.{}", spec.comp.code()), 1);
    if n >= 2 {
        ctx.state(shape(&spec));
        ctx.sample(|| describe(&spec));
    }
    Ok(())
}
