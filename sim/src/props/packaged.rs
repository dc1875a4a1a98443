//! Containers packaged in every way the library has (shared by C10, C11 and C12).

use super::common::*;
use crate::create::{self, Assemble};
use crate::ctx::*;
use crate::decode::Decoder;
use crate::facts::*;
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Files = BTreeMap<String, Vec<u8>>;

pub fn tree(dir: &str, rel: &str, out: &mut Files) {
    for e in std::fs::read_dir(format!("{dir}/{rel}")).into_iter().flatten().flatten() {
        let n = format!("{rel}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            tree(dir, &format!("{n}/"), out);
        } else if !e.file_name().to_string_lossy().starts_with("src_") {
            // (what cannot be read is a link to nothing)
            if let Ok(b) = std::fs::read(e.path()) {
                out.insert(n, b);
            }
        }
    }
}
pub fn put(dir: &str, files: &Files) {
    for (n, b) in files {
        let p = format!("{dir}/{n}");
        std::fs::create_dir_all(&p[..p.rfind('/').unwrap()]).expect("mkdir");
        std::fs::write(p, b).expect("write");
    }
}

pub fn concat(ctx: &mut Ctx, label: &str, inputs: &[String], out: &str) -> R {
    let mut cfg = ctx.noise(label, 1);
    cfg.p_short_read = cfg.p_short_read.min(8000);
    cfg.p_short_write = cfg.p_short_write.min(8000);
    // sometimes as the command line tool does it
    let tool = ctx.rng(&format!("tool/{label}")).chance(1, 4);
    let ph = ctx.phase(&cfg, || {
        let mut args: Vec<&str> = vec!["-o", out];
        args.extend(inputs.iter().map(|s| s.as_str()));
        let done = if tool { crate::cli::concat(&args) } else { None };
        match done.unwrap_or_else(|| jubako::tools::concat(inputs, out).map_err(create::es)) {
            Ok(()) => vec![],
            Err(e) => format!("{e}").into_bytes(),
        }
    });
    let m = ctx.must(ph, "concat", "concatenation")?;
    if m.is_empty() {
        return Ok(());
    }
    fail("concat", format!("concatenation of {inputs:?} fails: {}", String::from_utf8_lossy(&m)))
}

/// Extra packs in directories below the one of the entry.
pub fn spread_out(r: &mut Rng, spec: &mut Spec) {
    for (i, e) in spec.extras.iter_mut().enumerate() {
        match r.below(6) {
            0 => e.name = format!("sub/extra{i}.jbkc"),
            1 => e.name = format!("a/b c/é{i}"),
            2 => e.name = format!("{i}/extra.jbkc"),
            _ => (),
        }
    }
}

/// More packs than fit in a byte, each of them small.
pub fn many(ctx: &mut Ctx, r: &mut Rng, spec: &mut Spec, frees: &mut create::Frees) {
    let n = match r.below(4) {
        0 => r.range(252, 258),
        1 => r.range(508, 516),
        _ => r.range(200, 330),
    };
    let n = ctx.knob("many packs", n, 0);
    let (first, step) = (2 + r.below(400) as u16, 1 + r.below(3) as u16);
    let mut q = Rng::new(r.u64());
    spec.contents.truncate(20);
    spec.cached = false;
    spec.extras.clear();
    for i in 0..n as u16 {
        let contents = (0..q.below(3)).map(|_| Content { seed: q.u64(), len: q.below(60) as usize, pat: Pat::Text, hint: Hint::No, src: Src::Mem }).collect();
        spec.extras.push(Extra { id: first + i * step, comp: Comp::None, name: format!("extra{i}.jbkc"), contents });
        frees.content.push([i as u8; 24]);
    }
    // (addresses of packs which are no more)
    spec.dir = gen_dir(&mut q, &DirOpts { refs: false, ..Default::default() }, &[spec.contents.len()], || true);
}

/// A container as first created, in a directory of its own.
pub struct First {
    pub built: Built,
    pub dir: String,
    pub files: Files,
    /// the bytes of every pack
    pub packs: BTreeMap<[u8; 16], Vec<u8>>,
    /// the locations recorded in the manifest
    pub locs: Vec<([u8; 16], String, u16)>,
    /// the directory (0) and the content packs
    pub ids: Vec<u16>,
    pub how: Assemble,
}

/// Creation by the high level creator (any of its modes), or by the low level ones: every pack in a file of its own,
/// packs grouped in containers, partly or wholly assembled, in this directory or below it. The entry is `out.jbk`.
pub fn first(ctx: &mut Ctx, r: &mut Rng, spec: &Spec, frees: &create::Frees, high: bool) -> Result<First, Fail> {
    let root = ctx.root.clone();
    let base_dir = format!("{root}/base");
    std::fs::create_dir_all(&base_dir).expect("mkdir");
    create::write_sources(&root, spec);
    let ids: Vec<u16> = std::iter::once(0).chain(spec.slots().iter().map(|s| s.0)).collect();
    let how = *r.pick(&[Assemble::Separate, Assemble::Separate, Assemble::Container, Assemble::Half]);
    // where each loose pack is to be
    let mut place: BTreeMap<u16, String> = BTreeMap::new();
    for id in &ids {
        let own = if *id == 0 { "dir.jbkd".to_string() } else { format!("c{id:05}.jbkc") };
        let p = match r.below(6) {
            0 => format!("sub/{own}"),
            1 => format!("deep/er/pack {id}"),
            2 if how == Assemble::Separate => "group.jbk".to_string(),
            3 if how == Assemble::Separate => "sub/group".to_string(),
            _ => own.clone(),
        };
        let inside = how == Assemble::Container || how == Assemble::Half && *id == 0;
        let p = match (inside, r.below(4)) {
            (true, 0) => String::new(),
            (true, 1) => "no/such/file".to_string(),
            _ => p,
        };
        place.insert(*id, p);
    }
    let mut cfg = ctx.noise("create", 1);
    if total(&spec.contents) > 1 << 20 || spec.contents.len() > 500 {
        cfg.p_short_read = cfg.p_short_read.min(2000);
        cfg.p_short_write = cfg.p_short_write.min(2000);
    }
    if spec.extras.len() > 60 {
        cfg.ncpu = 2;
    }
    let out = format!("{base_dir}/out.jbk");
    ctx.tell(if high { describe(spec) } else { format!("{how:?} {place:?} {}", describe(spec)) });
    let ph = ctx.phase(&cfg, || {
        let res = if high {
            create::create(&root, &out, spec, Arc::new(()))
        } else {
            create::create_loose(&root, &base_dir, &out, spec, frees, how, &|id| place[&id].clone())
        };
        let mut e = Enc::default();
        match res {
            Ok(b) => {
                e.u(1);
                e.b(&b.encode());
            }
            Err(m) => {
                e.u(0);
                e.b(m.as_bytes());
            }
        }
        e.0
    });
    let bytes = ctx.must(ph, "create", "creation")?;
    let mut d = Dec(&bytes);
    if d.u() == 0 {
        return fail("create", format!("creation fails: {}", d.s()));
    }
    let built = Built::decode(d.b());
    if !high {
        // what lies beside the manifest goes where the manifest says
        let mut groups: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for id in &ids {
            let own = format!("{base_dir}/{}", if *id == 0 { "dir.jbkd".to_string() } else { format!("c{id:05}.jbkc") });
            let to = format!("{base_dir}/{}", place[id]);
            if !std::path::Path::new(&own).exists() || own == to {
                continue;
            }
            std::fs::create_dir_all(&to[..to.rfind('/').unwrap()]).expect("mkdir");
            if to.ends_with("group") || to.ends_with("group.jbk") {
                groups.entry(to).or_default().push(own);
            } else {
                std::fs::rename(&own, &to).expect("rename");
            }
        }
        for (i, (to, v)) in groups.iter().enumerate() {
            concat(ctx, &format!("group{i}"), v, to)?;
            v.iter().for_each(|p| std::fs::remove_file(p).expect("remove"));
        }
    }
    let mut first = Files::new();
    tree(&base_dir, "", &mut first);
    // the packs themselves, and the locations recorded in the manifest
    let mut packs: BTreeMap<[u8; 16], Vec<u8>> = BTreeMap::new();
    let mut locs: Vec<([u8; 16], String, u16)> = vec![];
    for (n, b) in &first {
        match Decoder::new(b).all() {
            Ok(v) => {
                for p in v {
                    if let Some(m) = p.man() {
                        locs.extend(m.infos.iter().map(|i| (i.uuid, i.location.clone(), i.id)));
                    }
                    packs.insert(p.uuid, b[p.at..p.at + p.size].to_vec());
                }
            }
            Err(e) => return fail("layout", format!("{n}: {e}")),
        }
    }
    Ok(First { built, dir: base_dir, files: first, packs, locs, ids, how })
}
