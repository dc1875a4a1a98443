//! C12: rewriting a pack location changes only that location; the manifest stays valid.

use super::c10::prefix;
use super::c14::gen_spec_with;
use super::common::*;
use super::packaged::{self, concat, tree, Files};
use super::Check;
use crate::ctx::*;
use crate::decode::{crc, Decoder, Info};
use crate::facts::*;
use crate::rng::Rng;
use crate::rt::*;
use std::collections::BTreeMap;
use std::os::unix::fs::FileExt;

pub const CHECK: Check = Check {
    id: "C12",
    run,
    quick: 5000,
    thorough: 200_000,
    level: "exploration",
    rule: "seeded containers (1..6 content packs, in groups or not) packaged in every way; the manifest alone in its file or inside a container, at offset 0 or after any other bytes (another Jubako file included); sequences of 1..10 rewrites of any listed pack (directory included) to strings of 0..213 bytes \
           (empty, one byte, full length, characters of 1 to 4 bytes at the limit, NUL, the same string again, another pack's location, relative and absolute paths where the pack is then moved to), with uuids which are not in the manifest among them, and I/O errors and process death in some. \
           After each: no byte outside the one pack info differs, it decodes to the new location and else what it was, the old location and the kind are what is returned; the manifest and the container read as before but for that location, all checks pass. \
           A case counts per rewrite; distinct by pack kind, length of the string, kind of string and shape of the container",
    real: "jubako tools::set_location, the jbk command (locate, concat), manifest and container reader, creator, std",
    stub: "kernel scheduling, futexes, clock, randomness; file system results (short reads and writes, EINTR, errors and process death injected)",
    assumptions: &["sequentially consistent memory", "a rewrite that fails or dies half way may leave its own block half written, nothing else"],
};

fn text(r: &mut Rng, n: usize) -> String {
    let kind = r.below(6);
    let mut s = String::new();
    while s.len() < n {
        let left = n - s.len();
        let c = match kind {
            0 => *r.pick(&['é', 'ÿ', '\u{80}', '\u{7ff}']),
            1 => *r.pick(&['漢', '\u{800}', '\u{ffff}', '√']),
            2 => *r.pick(&['😀', '\u{10ffff}', '𝄞']),
            3 => *r.pick(&['a', 'é', '漢', '😀', '/', '.']),
            4 => *r.pick(&['\0', '\n', '\\', '"', ' ', '%', '\u{7f}']),
            _ => *r.pick(&['a', 'b', 'Z', '-', '_', '.', '9']),
        };
        if c.len_utf8() <= left {
            s.push(c);
        } else {
            s.push('x');
        }
    }
    s
}

/// The manifest in these bytes: where its pack infos are, and what they say.
fn infos(b: &[u8], uuid: Option<[u8; 16]>) -> Result<(Vec<Info>, Vec<String>, [u8; 16]), String> {
    let mut d = Decoder::new(b);
    let v = d.all()?;
    let m = v.iter().filter(|p| uuid.is_none_or(|u| p.uuid == u)).find_map(|p| p.man().map(|m| (m.infos.clone(), p.uuid))).ok_or("no manifest")?;
    Ok((m.0, d.problems, m.1))
}

/// Groups for the packs, which this library reads and never makes.
fn regroup(r: &mut Rng, file: &mut [u8], start: usize) -> Result<(), String> {
    let v = Decoder::new(&file[start..]).all()?;
    let m = v.iter().find(|p| p.man().is_some()).ok_or("no manifest")?;
    let (at, check) = (start + m.at, start + m.check_at);
    let infos: Vec<usize> = m.man().unwrap().infos.iter().map(|i| start + i.at).collect();
    for i in &infos {
        if r.chance(3, 4) {
            file[i + 35] = *r.pick(&[1, 2, 0x7f, 0x80, 0xf0, 0xff]);
        }
        let c = crc(&file[*i..i + 252]);
        file[i + 252..i + 256].copy_from_slice(&c.to_be_bytes());
    }
    let mut covered = file[at..check].to_vec();
    for i in &infos {
        covered[i - at + 38..i - at + 256].fill(0);
    }
    file[check + 1..check + 33].copy_from_slice(blake3::hash(&covered).as_bytes());
    let c = crc(&file[check..check + 33]);
    file[check + 33..check + 37].copy_from_slice(&c.to_be_bytes());
    Ok(())
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let mut r = ctx.rng("scenario");
    let small = r.chance(3, 4);
    let (mut spec, mut frees) = gen_spec_with(ctx, &mut r, small, (3, 4, 5));
    if r.chance(1, 40) {
        packaged::many(ctx, &mut r, &mut spec, &mut frees);
    }
    packaged::spread_out(&mut r, &mut spec);
    let root = ctx.root.clone();
    let high = spec.cached || r.chance(1, 3);
    let first = packaged::first(ctx, &mut r, &spec, &frees, high)?;
    // ------------------------------------------------ where the manifest is
    let dir = first.dir.clone();
    let path = format!("{dir}/out.jbk");
    let mut shape_of = if first.files["out.jbk"].starts_with(b"jbkm") { "manifest".to_string() } else { format!("container ({} files)", first.files.len()) };
    if r.chance(1, 4) && ctx.keep() {
        // in one container file with all the others
        let inputs: Vec<String> = first.files.keys().map(|n| format!("{dir}/{n}")).collect();
        let out = format!("{root}/all.jbk");
        concat(ctx, "all", &inputs, &out)?;
        inputs.iter().for_each(|p| std::fs::remove_file(p).expect("remove"));
        std::fs::rename(&out, &path).expect("rename");
        shape_of = "concatenation".into();
    }
    let pre = prefix(&mut r, &first.files, &first.files["out.jbk"][..64]);
    if r.chance(1, 3) && ctx.keep() {
        let b = std::fs::read(&path).expect("read");
        std::fs::write(&path, [&pre[..], &b].concat()).expect("write");
        shape_of.push_str(&format!(" after {} bytes", pre.len()));
    }
    let mut file = std::fs::read(&path).expect("read");
    let start = if shape_of.contains(" after ") { pre.len() } else { 0 };
    if r.chance(1, 3) {
        let mut q = Rng::new(r.u64());
        if ctx.keep() {
            if let Err(e) = regroup(&mut q, &mut file, start) {
                return fail("layout", e);
            }
            std::fs::write(&path, &file).expect("write");
            shape_of.push_str(", packs in groups");
            ctx.count("manifests.with_groups", 1);
        }
    }
    let (mut model, _, man) = match infos(&file[start..], None) {
        Ok(x) => x,
        Err(e) => return fail("layout", e),
    };
    for i in model.iter_mut() {
        i.at += start;
    }
    // packs which are in the file itself
    let inside: Vec<[u8; 16]> = match Decoder::new(&file[start..]).all() {
        Ok(v) => v.iter().map(|p| p.uuid).collect(),
        Err(e) => return fail("layout", e),
    };
    let names: Vec<String> = spec.dir.indexes.iter().map(|i| i.name.clone()).collect();
    let want = Want { names, packs: first.ids[1..].to_vec(), bytes: true, manifest: true, check: true, max_contents: 40, max_entries: 40, ..Default::default() };
    let ph = {
        let cfg = ctx.noise("base", 0);
        ctx.phase(&cfg, || enc(&read_all(&path, &want)))
    };
    let base = dec(&ctx.must(ph, "read", "reading the container")?);
    if let Some(e) = base.get(&K::Top("open")).or(base.get(&K::Top("manifest"))) {
        return fail("first", format!("{shape_of}: as created: {e:?}"));
    }
    let mut story: Vec<String> = vec![shape_of.clone()];
    // ------------------------------------------------ rewrites
    for k in 0..r.range(1, 10) as usize {
        let mut q = Rng::new(r.u64());
        if !ctx.keep() {
            continue;
        }
        // which pack
        let i = q.idx(model.len());
        let i = if q.chance(1, 4) { model.iter().position(|x| x.kind == b'd').unwrap_or(i) } else { i };
        let mut uuid = model[i].uuid;
        let known = !q.chance(1, 6);
        if !known {
            match q.below(4) {
                0 => uuid = man,
                1 => uuid = [0; 16],
                2 => uuid[q.idx(16)] ^= 1 << q.below(8),
                _ => q.fill(&mut uuid),
            }
            if model.iter().any(|x| x.uuid == uuid) {
                continue;
            }
        }
        // to what
        let mut here = Files::new();
        tree(&dir, "", &mut here);
        let mut moved = None;
        let kind = q.below(8);
        let to = match kind {
            0 => String::new(),
            1 => {
                let n = *q.pick(&[213, 213, 212, 211, 210, 209]);
                text(&mut q, n)
            }
            2 => {
                let n = q.range(1, 213) as usize;
                text(&mut q, n)
            }
            3 => model[i].location.clone(),
            4 => q.pick(&model).location.clone(),
            5 => {
                let n = q.range(1, 3) as usize;
                text(&mut q, n)
            }
            _ => {
                // a place where the pack will really be
                let name = format!("moved{k}.jbkc");
                let new = match q.below(5) {
                    0 => format!("{dir}/{name}"),
                    1 => format!("x/é/漢 {k}/{name}"),
                    2 => format!("./{name}"),
                    // (of 210 to 213 bytes; no component of a path may be longer than 255)
                    3 => format!("{}/{name}", "é".repeat((213 - name.len() - 1) / 2)),
                    _ => name.clone(),
                };
                if known && !inside.contains(&uuid) && new.len() <= 213 {
                    if let Some((from, b)) = here.iter().find(|(n, b)| *n != "out.jbk" && Decoder::new(b).all().is_ok_and(|v| v.iter().any(|p| p.uuid == uuid))) {
                        moved = Some((from.clone(), new.clone(), b.clone()));
                    }
                }
                new
            }
        };
        let to = if to.len() > 213 { "short".to_string() } else { to };
        let faulty = q.chance(1, 6);
        let mut cfg = ctx.noise(&format!("set{k}"), 1);
        cfg.policy = POL_NONE;
        cfg.p_short_read = cfg.p_short_read.min(20_000);
        if q.chance(1, 4) {
            cfg.p_eintr = ctx.knob(&format!("eintr{k}"), q.range(500, 20_000), 0) as u32;
        }
        if faulty {
            cfg.fault_kind = if q.chance(1, 3) { F_CRASH } else { F_ERRNO };
            cfg.fault_errno = *q.pick(&[5, 28, 13, 27]);
            cfg.fault_mask = C_READ | C_WRITE | C_META | C_OPEN | C_MMAP | C_OUT;
            cfg.fault_at = ctx.knob(&format!("fault{k}"), q.range(1, 14), 0);
            cfg.fault_partial = q.chance(1, 2) as u32;
            cfg.fault_sticky = q.chance(1, 2) as u32;
            if cfg.fault_at == 0 {
                cfg.fault_kind = 0;
            }
        }
        let what = format!("{}{}{} to {:?}", if faulty { "(with a fault) " } else { "" }, if known { "pack " } else { "no such pack " }, if known { model[i].id.to_string() } else { String::new() }, to);
        story.push(what.clone());
        ctx.tell(format!("{}: {what}", story.len() - 1));
        let tool = !faulty && q.chance(1, 4);
        let text_uuid = jubako_uuid(uuid).to_string();
        let ph = ctx.phase(&cfg, || {
            let mut e = Enc::default();
            if tool {
                if let Some(x) = crate::cli::locate(&["--", &path, &text_uuid, &to]) {
                    // (it prints what it did: only the file tells)
                    match x {
                        Ok(()) => e.u(3),
                        Err(m) => {
                            e.u(2);
                            e.b(m.as_bytes());
                        }
                    }
                    return e.0;
                }
            }
            match jubako::tools::set_location(&path, jubako_uuid(uuid), to.as_str().into()) {
                Ok(None) => e.u(0),
                Ok(Some((kind, old))) => {
                    e.u(1);
                    e.b(format!("{kind:?}").as_bytes());
                    e.b(old.as_str().as_bytes());
                }
                Err(m) => {
                    e.u(2);
                    e.b(format!("{m}").as_bytes());
                }
            }
            e.0
        });
        let hit = ph.stats.f_errno + ph.stats.f_crash + ph.stats.f_mmap > 0;
        let bytes = if hit && ph.outcome == Outcome::Crash { vec![] } else { ctx.must(ph, "panic", &what)? };
        let now = std::fs::read(&path).expect("read");
        // ---------------- nothing else differs
        let (a, z) = if known { (model[i].at, model[i].at + 256) } else { (0, 0) };
        if now.len() != file.len() {
            return fail("outside", format!("{story:?}: the file had {} bytes, and has {}", file.len(), now.len()));
        }
        if let Some(x) = (0..now.len()).find(|x| !(a..z).contains(x) && now[*x] != file[*x]) {
            return fail("outside", format!("{story:?}: byte {x} of the file changed; the pack info is at {a}..{z}"));
        }
        ctx.count("rewrites", 1);
        ctx.state(h(shape(&spec), hs(kind * 1000 + to.len() as u64, &format!("{known}{faulty}{}{}", model[i].kind, story[0]))));
        // ---------------- what was answered
        let done = if bytes.is_empty() {
            None
        } else {
            let mut d = Dec(&bytes);
            match d.u() {
                0 if known => return fail("answer", format!("{story:?}: the pack is said not to be in the manifest")),
                0 => Some(()),
                1 => {
                    let (k, old) = (d.s(), d.s());
                    if !known {
                        return fail("answer", format!("{story:?}: changed a pack ({k}, {old:?})"));
                    }
                    let kk = if model[i].kind == b'd' { "Directory" } else { "Content" };
                    if old != model[i].location || k != kk {
                        return fail("answer", format!("{story:?}: the {k} pack was at {old:?}, it is answered; the {kk} pack was at {:?}", model[i].location));
                    }
                    Some(())
                }
                3 => {
                    ctx.count("rewrites.by_the_tool", 1);
                    Some(())
                }
                _ if hit => None,
                _ => return fail("answer", format!("{story:?}: fails: {}", d.s())),
            }
        };
        let Some(()) = done else {
            // as if nothing had been tried
            std::fs::write(&path, &file).expect("write");
            story.pop();
            ctx.count("rewrites.failed", 1);
            continue;
        };
        if !known && now != file {
            return fail("outside", format!("{story:?}: the file changed"));
        }
        // ---------------- what it holds now
        file = now;
        if known {
            model[i].location = to.clone();
        }
        let (got, problems, _) = match infos(&file[start..], Some(man)) {
            Ok(x) => x,
            Err(e) => return fail("decode", format!("{story:?}: {e}")),
        };
        for (g, m) in got.iter().zip(&model) {
            let same = (g.uuid, g.size, g.check, g.id, g.kind, g.group, g.free_id, &g.location) == (m.uuid, m.size, m.check, m.id, m.kind, m.group, m.free_id, &m.location);
            if !same || got.len() != model.len() {
                return fail("decode", format!("{story:?}: the manifest has {g:?}, expected {m:?}"));
            }
        }
        if let Some(p) = problems.first() {
            return fail("decode", format!("{story:?}: {p}"));
        }
        if let Some((from, new, b)) = moved {
            // (a file of several packs stays for the others)
            let p = if new.starts_with('/') { new } else { format!("{dir}/{new}") };
            std::fs::create_dir_all(&p[..p.rfind('/').unwrap()]).expect("mkdir");
            std::fs::write(&p, &b).expect("write");
            if model.iter().filter(|x| x.location == from).count() == 0 {
                let _ = std::fs::remove_file(format!("{dir}/{from}"));
            }
            ctx.count("packs.moved", 1);
        }
        if !q.chance(1, 2) && k > 0 {
            continue;
        }
        // ---------------- what is read
        let mut cfg = ctx.noise(&format!("read{k}"), 1);
        cfg.p_short_read = cfg.p_short_read.min(8000);
        let ph = ctx.phase(&cfg, || enc(&read_all(&path, &want)));
        let got = dec(&ctx.must(ph, "read", &format!("{story:?}: reading"))?);
        let mut expect = base.clone();
        let mut there = BTreeMap::new();
        for m in &model {
            expect.insert(K::Pack(m.id, "location"), F::T(m.location.clone()));
            let p = if m.location.starts_with('/') { m.location.clone() } else { format!("{dir}/{}", m.location) };
            // Some(false): it is not there; None: something else is
            let ok = match std::fs::read(&p) {
                _ if inside.contains(&m.uuid) => Some(true),
                Ok(b) => Decoder::new(&b).all().map(|v| v.iter().any(|x| x.uuid == m.uuid)).ok(),
                Err(_) => Some(false),
            };
            there.insert(m.id, ok);
            if ok == Some(true) || m.kind == b'd' {
                continue;
            }
            expect.retain(|k, _| !matches!(k, K::Content(p, ..) if *p == m.id));
            expect.remove(&K::Pack(m.id, "pack.free"));
            expect.remove(&K::Pack(m.id, "count"));
            if ok == Some(false) {
                let F::T(u) = &base[&K::Pack(m.id, "uuid")] else { continue };
                expect.insert(K::Pack(m.id, "count"), F::Missing(format!("uuid {u} size {} id {} kind Content location {:?}", m.size, m.id, m.location)));
            } else {
                expect.remove(&K::Top("check"));
            }
        }
        if there[&0] != Some(true) {
            // the container cannot be opened; its manifest can
            expect.retain(|k, _| matches!(k, K::Top(s) if s.starts_with("manifest.")) || matches!(k, K::Pack(_, s) if !matches!(*s, "count" | "pack.free")));
            let mut g = got.clone();
            g.remove(&K::Top("open"));
            if let Some(d) = first_diff(&expect, &g) {
                return fail("differs", format!("{story:?}: {d}"));
            }
        } else if let Some(d) = first_diff(&expect, &got) {
            return fail("differs", format!("{story:?}: {d}"));
        }
        ctx.count("containers.read", 1);
    }
    // ------------------------------------------------ the same file, further than 32 bits count (after a hole)
    if r.chance(1, 12) && ctx.keep() {
        let far = (1 << 32) * r.range(1, 40) - r.below(700);
        let i = r.idx(model.len());
        let n = r.range(0, 40) as usize;
        let to = text(&mut r, n);
        let p = format!("{dir}/far");
        std::fs::File::create(&p).and_then(|f| f.write_all_at(&file, far)).expect("write");
        let uuid = model[i].uuid;
        for (label, p) in [("near", &path), ("far", &p)] {
            let cfg = ctx.noise(label, 1);
            let ph = ctx.phase(&cfg, || match jubako::tools::set_location(p, jubako_uuid(uuid), to.as_str().into()) {
                Ok(Some(_)) => vec![],
                Ok(None) => b"not in the manifest".to_vec(),
                Err(e) => format!("{e}").into_bytes(),
            });
            let e = ctx.must(ph, "panic", "rewriting")?;
            if !e.is_empty() {
                return fail("answer", format!("{story:?}: then at {far}, {label}: {}", String::from_utf8_lossy(&e)));
            }
        }
        let near = std::fs::read(&path).expect("read");
        let f = std::fs::File::open(&p).expect("open");
        let mut got = vec![0; file.len()];
        f.read_exact_at(&mut got, far).expect("read");
        // (nothing was written into the hole)
        let data = unsafe { libc::lseek(std::os::fd::AsRawFd::as_raw_fd(&f), 0, libc::SEEK_DATA) };
        if got != near || f.metadata().expect("stat").len() != far + near.len() as u64 || (data as u64) < far - far % 4096 {
            return fail("outside", format!("{story:?}: pack {} to {to:?} with {far} bytes before the file does not write what it writes without them", model[i].id));
        }
        std::fs::remove_file(&p).expect("rm");
        ctx.count("rewrites.far", 1);
    }
    ctx.sample(|| format!("{story:?}"));
    Ok(())
}

fn jubako_uuid(u: [u8; 16]) -> uuid::Uuid {
    uuid::Uuid::from_bytes(u)
}
