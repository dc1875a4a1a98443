//! Reading containers whose files were damaged: what C05 and C06 share.

use super::c14::{files_of, gen_spec};
use super::common::*;
use crate::ctx::*;
use crate::damage::*;
use crate::decode::Body;
use crate::facts::*;
use crate::model::{Content, Spec};
use crate::rng::Rng;
use crate::rt::{self, quiet, Outcome, Ph, SimCfg};
use jubako::reader::{Container, ContainerPack, ContentPack, DirectoryPack, ManifestPack, MayMissPack};
use jubako::{FileSource, Pack, Reader};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What is read of a container, and how.
pub struct View {
    pub w: Want,
    pub out: String,
    /// path, uuid, kind, in a container pack
    pub leaves: Vec<(String, [u8; 16], u8, bool)>,
    pub files: Vec<String>,
    /// also from memory
    pub memory: bool,
    /// also the packs on their own
    pub direct: bool,
    /// also by this many threads at a time
    pub threads: usize,
}

pub fn want_of(spec: &Spec) -> Want {
    let mut names: Vec<String> = spec.dir.indexes.iter().map(|i| i.name.clone()).collect();
    names.push("no such index".into());
    let mut packs: Vec<u16> = spec.slots().iter().map(|s| s.0).collect();
    packs.push(packs.iter().max().unwrap_or(&0).saturating_add(3));
    Want {
        names,
        by_number: spec.dir.indexes.len() as u32,
        packs,
        max_contents: if spec.contents.len() > 1000 { 1500 } else { 10 },
        max_entries: 8,
        bytes: true,
        manifest: true,
        check: true,
        typed: true,
    }
}

fn put_pack(f: &mut Facts, tag: &str, p: &dyn Pack) {
    let k = |s: &str| K::Top(intern(&format!("{tag}.{s}")));
    f.insert(k("kind"), F::T(format!("{:?}", p.kind())));
    f.insert(k("uuid"), F::T(p.uuid().to_string()));
    f.insert(k("size"), F::U(p.size().into_u64()));
    f.insert(k("version"), F::T(format!("{:?}", p.version())));
    f.insert(k("vendor"), F::T(format!("{:?}", p.app_vendor_id())));
    let c = match p.check() {
        Ok(b) => F::U(b as u64),
        Err(e) => F::Err(format!("{e}")),
    };
    f.insert(k("check"), c);
}

/// One pack, on its own.
fn read_pack(f: &mut Facts, tag: &str, kind: u8, r: Reader) -> jubako::Result<()> {
    let k = |s: &str| K::Top(intern(&format!("{tag}.{s}")));
    match kind {
        b'm' => {
            let m = ManifestPack::new(r)?;
            put_pack(f, tag, &m);
            f.insert(k("count"), F::U(m.pack_count().into_u16() as u64));
            f.insert(k("free"), F::B(m.get_free_data().to_vec()));
        }
        b'd' => {
            let d = DirectoryPack::new(r)?;
            put_pack(f, tag, &d);
            f.insert(k("free"), F::B(d.get_free_data().to_vec()));
        }
        _ => {
            let c = ContentPack::new(r)?;
            put_pack(f, tag, &c);
            let n = c.get_content_count().into_u32();
            f.insert(k("count"), F::U(n as u64));
            f.insert(k("free"), F::B(c.get_free_data().to_vec()));
            for i in (0..n.min(12)).chain([n]) {
                let (b, s) = match c.get_content(i.into()) {
                    Err(e) => (F::Err(format!("{e}")), F::Err(format!("{e}"))),
                    Ok(None) => (F::None, F::None),
                    Ok(Some(r)) => {
                        // another way than the stream
                        let n = r.size();
                        let b = match r.get_slice(jubako::Offset::zero(), n.into_u64() as usize) {
                            Ok(b) => quiet(|| F::hash(&b)),
                            Err(e) => F::Err(format!("{e}")),
                        };
                        (b, F::U(n.into_u64()))
                    }
                };
                f.insert(k(&format!("content {i} bytes")), b);
                f.insert(k(&format!("content {i} size")), s);
            }
        }
    }
    Ok(())
}

fn direct(v: &View, f: &mut Facts, memory: bool) {
    let m = if memory { "mem" } else { "file" };
    let open = |p: &str| -> jubako::Result<Reader> {
        Ok(if memory {
            let b = quiet(|| std::fs::read(p).unwrap_or_default());
            Reader::from(b)
        } else {
            Reader::from(FileSource::open(p)?)
        })
    };
    for (i, (p, u, kind, inner)) in v.leaves.iter().enumerate() {
        let tag = format!("{m} {i}");
        let r = (|| {
            let r = open(p)?;
            let r = if *inner {
                let c = ContainerPack::new(r)?;
                f.insert(K::Top(intern(&format!("{tag}.packs"))), F::U(c.pack_count().into_u16() as u64));
                match c.get_pack_reader(&uuid::Uuid::from_bytes(*u)) {
                    Some(r) => r,
                    None => {
                        f.insert(K::Top(intern(&format!("{tag}.open"))), F::None);
                        return Ok(());
                    }
                }
            } else {
                r
            };
            read_pack(f, &tag, *kind, r)
        })();
        if let Err(e) = r {
            let e: jubako::Error = e;
            f.insert(K::Top(intern(&format!("{tag}.open"))), F::Err(format!("{e}")));
        }
    }
    for (i, p) in v.files.iter().enumerate() {
        let tag = format!("{m} c{i}");
        let k = |s: &str| K::Top(intern(&format!("{tag}.{s}")));
        let c = if memory { open(p).and_then(ContainerPack::new) } else { jubako::tools::open_pack(p) };
        match c {
            Err(e) => {
                f.insert(k("open"), F::Err(format!("{e}")));
            }
            Ok(c) => {
                f.insert(k("packs"), F::U(c.pack_count().into_u16() as u64));
                let c = match c.check() {
                    Ok(b) => F::U(b as u64),
                    Err(e) => F::Err(format!("{e}")),
                };
                f.insert(k("check"), c);
            }
        }
    }
}

/// Several readers of one container: the answers of each thread must be those of the others, or errors.
fn together(v: &View, f: &mut Facts) {
    let c = match Container::new(&v.out) {
        Ok(c) => std::sync::Arc::new(c),
        Err(_) => return,
    };
    let w = v.w.clone();
    let mut hs = vec![];
    for t in 0..v.threads {
        let c = std::sync::Arc::clone(&c);
        let packs = w.packs.clone();
        hs.push(std::thread::spawn(move || {
            let mut f = Facts::new();
            for p in &packs {
                let n = match c.get_pack((*p).into()) {
                    Ok(Some(MayMissPack::FOUND(cp))) => cp.get_content_count().into_u32(),
                    _ => continue,
                };
                let m = n.min(16);
                for i in 0..m {
                    let i = if t % 2 == 0 { i } else { m - 1 - i };
                    let (b, s) = content_fact(&c, *p, i);
                    f.insert(K::Content(*p, i, "bytes"), b);
                    f.insert(K::Content(*p, i, "size"), s);
                }
            }
            f
        }));
    }
    let mut panics = None;
    for (t, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok(g) => {
                for (k, x) in g {
                    if let K::Content(p, i, s) = k {
                        f.insert(K::Content(p, i, intern(&format!("{s} of thread {t}"))), x);
                    }
                }
            }
            Err(e) => panics = Some(e),
        }
    }
    if let Some(e) = panics {
        std::panic::resume_unwind(e);
    }
}

pub fn read(v: &View) -> Facts {
    let mut f = read_all(&v.out, &v.w);
    if v.direct {
        direct(v, &mut f, false);
        if v.memory {
            direct(v, &mut f, true);
        }
    }
    if v.threads > 0 {
        together(v, &mut f);
    }
    f
}

fn is_check(k: &K) -> bool {
    match k {
        K::Top(s) => s.ends_with("check"),
        _ => false,
    }
}
fn is_bytes(k: &K) -> bool {
    match k {
        K::Top(s) => s.ends_with(" bytes"),
        K::Content(_, _, s) => s.starts_with("bytes"),
        _ => false,
    }
}

/// Facts whose error explains that `k` was not read.
fn above(k: &K) -> Vec<K> {
    let top = |s: &str| K::Top(intern(s));
    match k {
        K::Top(s) => match s.split_once('.') {
            Some(("manifest", _)) => vec![top("manifest")],
            Some((t, _)) if s.starts_with("mem ") || s.starts_with("file ") => vec![top(&format!("{t}.open"))],
            _ => vec![top("open")],
        },
        K::Pack(_, "count") => vec![top("open")],
        K::Pack(p, "pack.free") => vec![top("open"), K::Pack(*p, "count")],
        K::Pack(..) => vec![top("manifest")],
        K::Index(n, "count") => {
            let _ = n;
            vec![top("open")]
        }
        K::Index(n, _) => vec![top("open"), K::Index(n.clone(), "count")],
        K::Entry(n, i, _) => vec![
            top("open"),
            K::Index(n.clone(), "count"),
            K::Index(n.clone(), "entries"),
            K::Entry(n.clone(), *i, "#entry".into()),
            K::Entry(n.clone(), *i, "#variant".into()),
        ],
        K::Content(p, _, _) => vec![top("open"), K::Pack(*p, "count")],
    }
}

fn refusal(v: &F) -> bool {
    matches!(v, F::Err(_) | F::Missing(_))
}

/// The first answer that is neither what was written nor an error.
pub fn judge(want: &Facts, got: &Facts, counts: &mut Counts) -> Option<String> {
    let excused = |k: &K| above(k).iter().any(|a| got.get(a).is_some_and(refusal));
    let mut bytes = None;
    for (k, v) in want.iter().filter(|x| !x.1.is_err()) {
        match got.get(k) {
            Some(g) if g == v => counts.same += 1,
            Some(F::Err(_)) => counts.errors += 1,
            // a pack which cannot be recognised as such counts as absent, described as it was
            Some(F::Missing(d)) => {
                counts.missing += 1;
                if let F::Missing(w) = v {
                    if w != d {
                        return Some(format!("{k:?}: the missing pack is described as {d}, it was {w}"));
                    }
                }
            }
            Some(F::None) if matches!(k, K::Content(..) | K::Pack(_, "pack.free")) && excused(k) => {}
            Some(F::None) if matches!(k, K::Content(_, _, s) if s.starts_with("size")) && matches!(got.get(&twin(k)), Some(F::Missing(_) | F::Err(_))) => {}
            Some(g) if is_bytes(k) => {
                counts.bytes += 1;
                let (F::H(a, _), F::H(b, _)) = (v, g) else {
                    return Some(format!("{k:?}: read {g:?}, written {v:?}"));
                };
                if a != b {
                    return Some(format!("{k:?}: read {g:?}, written {v:?}"));
                }
                bytes.get_or_insert_with(|| (k.clone(), format!("{k:?}: read {g:?}, written {v:?}")));
            }
            Some(_) if is_check(k) => counts.check_fails += 1,
            Some(g) => return Some(format!("{k:?}: read {g:?}, written {v:?}")),
            None if excused(k) => counts.unreachable += 1,
            // (those open the container again, which may fail this time)
            None if matches!(k, K::Content(_, _, s) if s.contains(" of thread ")) => counts.unreachable += 1,
            None => return Some(format!("{k:?}: nothing was read, and no error tells why; written {v:?}")),
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) && !v.is_err() && !is_check(k) {
            // what is asked of a pack depends on its kind and of its count: all of that was compared
            return Some(format!("{k:?}: read {v:?}, which was never written"));
        }
    }
    if let Some((k, m)) = bytes {
        let check = match &k {
            K::Top(s) => K::Top(intern(&format!("{}.check", s.split_once('.').unwrap().0))),
            _ => K::Top("check"),
        };
        if got.get(&check) == Some(&F::U(1)) {
            return Some(format!("{m}, and the integrity check succeeds"));
        }
    }
    None
}
fn twin(k: &K) -> K {
    match k {
        K::Content(p, i, s) => K::Content(*p, *i, intern(&s.replace("size", "bytes"))),
        k => k.clone(),
    }
}

#[derive(Clone, Copy, Default)]
pub struct Counts {
    pub same: u64,
    pub errors: u64,
    pub missing: u64,
    pub bytes: u64,
    pub check_fails: u64,
    pub unreachable: u64,
}

pub struct Answer {
    pub what: String,
    /// a panic, or how the process ended
    pub crash: Option<String>,
    pub crash_kind: &'static str,
    /// an answer that is neither right nor an error
    pub wrong: Option<String>,
    pub counts: Counts,
    /// anything read that is not an error / any error
    pub some_value: bool,
    pub some_error: bool,
}

// ------------------------------------------------------------------ damage

fn anywhere(r: &mut Rng, img: &Img, f: usize) -> usize {
    let n = img.files[f].len();
    let leaves: Vec<&Leaf> = img.leaves.iter().filter(|l| l.file == f).collect();
    if leaves.is_empty() {
        return r.idx(n);
    }
    let l = leaves[r.idx(leaves.len())];
    let p = &l.pack;
    let at = match r.below(10) {
        0 => p.at + r.idx(128),
        1 => {
            // container header, locators, tail of the file
            if let Some((_, o)) = img.outers.iter().find(|o| o.0 == f) {
                let b = r.pick(&o.blocks);
                b.at + r.idx(b.len + 4)
            } else {
                r.idx(64)
            }
        }
        2 => n - 1 - r.idx(64.min(n)),
        3..=5 => {
            let b = r.pick(&p.blocks);
            b.at + r.idx(b.len + 4)
        }
        6 | 7 => match &p.body {
            Body::Content(c) if !c.clusters.is_empty() => {
                let c = r.pick(&c.clusters);
                let k = match r.below(4) {
                    0 => r.idx(16.min(c.raw_len.max(1))),
                    1 => c.raw_len.saturating_sub(1 + r.idx(16)),
                    _ => r.idx(c.raw_len.max(1)),
                };
                c.raw_at + k
            }
            _ => r.idx(n),
        },
        _ => r.idx(n),
    };
    at.min(n - 1)
}

/// A length at which a file could be cut.
fn cut(r: &mut Rng, img: &Img, f: usize) -> usize {
    let n = img.files[f].len();
    let k = match r.below(6) {
        0 => r.idx(130.min(n)),
        1 => n - 1 - r.idx(130.min(n)),
        2 => anywhere(r, img, f),
        3 => n & !511,
        4 => (n - 1) & !4095,
        _ => r.idx(n),
    };
    k.min(n - 1)
}

fn garbage(r: &mut Rng, n: usize, own: &[u8]) -> Vec<u8> {
    match r.below(5) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let a = r.idx(own.len());
            own[a..].iter().cycle().take(n).cloned().collect()
        }
        3 => (0..n).map(|i| b"The quick brown fox jumps over the lazy dog. "[i % 45]).collect(),
        _ => r.bytes(n),
    }
}

pub fn damage(r: &mut Rng, img: &Img, storage: bool) -> Damage {
    let mut d = Damage::default();
    let f = r.idx(img.files.len());
    damage_file(r, img, f, storage, &mut d);
    if r.chance(1, 8) {
        let g = r.idx(img.files.len());
        damage_file(r, img, g, storage, &mut d);
    }
    d
}

fn damage_file(r: &mut Rng, img: &Img, f: usize, storage: bool, d: &mut Damage) {
    let bytes = &img.files[f];
    let n = bytes.len();
    let mut what = String::new();
    let mut len = None;
    let whole = |b: Vec<u8>, d: &mut Damage| {
        d.patches.push(Patch { file: f, at: 0, bytes: b });
    };
    match r.below(if storage { 24 } else { 15 }) {
        0..=5 => {
            let at = anywhere(r, img, f);
            d.patches.push(Patch { file: f, at, bytes: vec![other(r, bytes[at])] });
            what += "byte";
        }
        6 | 7 => {
            for _ in 0..r.range(2, 5) {
                let at = anywhere(r, img, f);
                d.patches.push(Patch { file: f, at, bytes: vec![other(r, bytes[at])] });
            }
            what += "bytes";
        }
        8..=10 => {
            let at = anywhere(r, img, f);
            let k = match r.below(3) {
                0 => r.range(2, 8),
                1 => r.range(8, 100),
                _ => r.range(100, 2000),
            };
            let k = (k as usize).min(n - at);
            d.patches.push(Patch { file: f, at, bytes: garbage(r, k, bytes) });
            what += "range";
        }
        11 | 12 => {
            // sectors
            let s = *r.pick(&[512, 512, 4096]);
            let a = anywhere(r, img, f) / s * s;
            let b = (a + s * r.range(1, 2) as usize).min(n);
            let g = if r.chance(1, 2) { vec![0; b - a] } else { garbage(r, b - a, bytes) };
            d.patches.push(Patch { file: f, at: a, bytes: g });
            what += "sectors";
        }
        13 => {
            // never written past this point
            let a = cut(r, img, f);
            d.patches.push(Patch { file: f, at: a, bytes: vec![0; n - a] });
            what += "zeroed to the end";
        }
        14 => {
            let k = *r.pick(&[1, 2, 4, 8, 64, 128]);
            let at = anywhere(r, img, f).min(n.saturating_sub(2 * k));
            let mut x = bytes[at..(at + 2 * k).min(n)].to_vec();
            let h = x.len() / 2;
            x.rotate_left(h);
            d.patches.push(Patch { file: f, at, bytes: x });
            what += "swapped halves";
        }
        15..=18 => {
            len = Some(cut(r, img, f));
            what += "truncated";
            if r.chance(1, 4) {
                let at = anywhere(r, img, f);
                d.patches.push(Patch { file: f, at, bytes: vec![other(r, bytes[at])] });
                what += ", byte";
            }
        }
        19 | 20 => {
            let k = match r.below(3) {
                0 => r.range(1, 70),
                1 => r.range(64, 600),
                _ => r.range(600, 9000),
            } as usize;
            len = Some(n + k);
            d.patches.push(Patch { file: f, at: n, bytes: garbage(r, k, bytes) });
            what += "extended";
            if r.chance(1, 2) {
                let at = r.idx(64);
                d.patches.push(Patch { file: f, at, bytes: vec![other(r, bytes[at])] });
                what += ", header byte";
            }
        }
        21 => {
            // the beginning is lost
            let k = cut(r, img, f).max(1);
            whole(bytes[k..].to_vec(), d);
            len = Some(n - k);
            what += "beginning lost";
        }
        22 => {
            // a hole: bytes lost in the middle
            let a = cut(r, img, f);
            let k = (r.range(1, 600) as usize).min(n - a);
            let b = bytes[a + k..].to_vec();
            d.patches.push(Patch { file: f, at: a, bytes: b });
            len = Some(n - k);
            what += "bytes lost";
        }
        _ => {
            // something else entirely
            let k = match r.below(5) {
                0 => r.idx(8),
                1 => r.range(60, 70) as usize,
                2 => r.range(120, 140) as usize,
                _ => r.range(1, 5000) as usize,
            };
            let mut b = garbage(r, k, bytes);
            if r.chance(1, 2) {
                // which begins, or ends, like one
                let m = *r.pick(&[3, 4, 10, 32, 60, 64, 100]);
                for i in 0..m.min(k) {
                    if r.chance(1, 2) || i < 4 {
                        b[i] = bytes[i];
                    }
                }
                if r.chance(1, 2) {
                    for i in 0..m.min(k) {
                        b[k - 1 - i] = bytes[i];
                    }
                }
            }
            whole(b, d);
            len = Some(k);
            what += "something else";
        }
    }
    if len.is_some() {
        if d.len.is_some() {
            // one file of another length is enough
            d.patches.retain(|p| p.file != f);
            return;
        }
        d.len = len.map(|n| (f, n));
    }
    if !d.what.is_empty() {
        d.what += " + ";
    }
    d.what += &what;
}

pub fn apply(root: &str, img: &Img, d: &Damage) {
    quiet(|| {
        if let Some((f, n)) = d.len {
            let h = std::fs::OpenOptions::new().write(true).open(format!("{root}/{}", img.names[f])).unwrap();
            h.set_len(n as u64).unwrap();
        }
        for p in &d.patches {
            let end = match d.len {
                Some((f, n)) if f == p.file => n,
                _ => img.files[p.file].len(),
            };
            let k = p.bytes.len().min(end.saturating_sub(p.at));
            let h = std::fs::OpenOptions::new().write(true).open(format!("{root}/{}", img.names[p.file])).unwrap();
            h.write_all_at(&p.bytes[..k], p.at as u64).unwrap();
        }
    })
}
pub fn restore(root: &str, img: &Img, d: &Damage) {
    quiet(|| {
        for f in img.files_hit(d) {
            let h = std::fs::OpenOptions::new().write(true).open(format!("{root}/{}", img.names[f])).unwrap();
            if img.files[f].len() < 20_000 || d.len.is_some_and(|x| x.0 == f) {
                h.set_len(img.files[f].len() as u64).unwrap();
                h.write_all_at(&img.files[f], 0).unwrap();
            } else {
                for p in d.patches.iter().filter(|p| p.file == f) {
                    h.write_all_at(&img.files[f][p.at..p.at + p.bytes.len()], p.at as u64).unwrap();
                }
            }
        }
    })
}

pub fn show(img: &Img, d: &Damage) -> String {
    let mut v = vec![];
    if let Some((f, n)) = d.len {
        v.push(format!("{} of {} bytes made {} long", img.names[f], img.files[f].len(), n));
    }
    for p in &d.patches {
        let old = &img.files[p.file];
        let diff: Vec<String> = (0..p.bytes.len())
            .filter(|k| old.get(p.at + k) != Some(&p.bytes[*k]))
            .take(10)
            .map(|k| format!("{}:{:02x?}->{:02x}", p.at + k, old.get(p.at + k), p.bytes[k]))
            .collect();
        v.push(format!("{} {}{}", img.names[p.file], diff.join(" "), if p.bytes.len() > 6 { ".." } else { "" }));
    }
    format!("{} ({})", d.what, v.join("; "))
}

/// No byte of any file differs.
pub fn idle(img: &Img, d: &Damage) -> bool {
    d.len.is_none_or(|(f, n)| n == img.files[f].len())
        && d.patches.iter().all(|p| img.files[p.file].get(p.at..p.at + p.bytes.len()) == Some(&p.bytes[..]))
}

// ------------------------------------------------------------------ runs

pub struct Subject {
    pub spec: Spec,
    pub img: Img,
    pub view: View,
    pub sweep: Sweep,
    /// a checksummed block of more than 64 kB
    pub large: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sweep {
    No,
    /// every byte
    Bytes,
    /// every length
    Lengths,
}

/// Makes one block of the container longer than 64 kB.
fn large_block(ctx: &mut Ctx, r: &mut Rng, spec: &mut Spec) {
    use crate::model::*;
    let mut st = Store::default();
    match r.below(3) {
        0 => {
            // a value store
            let vs = spec.dir.vstores.len();
            spec.dir.vstores.push(*r.pick(&[Vs::Plain, Vs::Indexed]));
            st.common.push(Prop { name: "long", kind: Kind::A { fixed: r.below(4) as usize, vs } });
            for _ in 0..r.range(1, 3) {
                let n = r.range(66_000, 250_000) as usize;
                let a = r.bytes(n);
                if ctx.keep() {
                    st.entries.push(Entry { variant: 0, vals: vec![V::A(a)] });
                }
            }
        }
        1 => {
            // an entry store of wide entries
            let vs = spec.dir.vstores.len();
            spec.dir.vstores.push(Vs::Plain);
            let k = r.range(150, 240);
            for i in 0..k {
                st.common.push(Prop { name: intern(&format!("c{i}")), kind: Kind::A { fixed: 31, vs } });
            }
            for _ in 0..r.range(14, 30) {
                let vals = (0..k)
                    .map(|_| {
                        let n = 28 + r.idx(4);
                        V::A(r.bytes(n))
                    })
                    .collect();
                if ctx.keep() {
                    st.entries.push(Entry { variant: 0, vals });
                }
            }
        }
        _ => {
            // the table of the contents
            let n = r.range(16_500, 40_000);
            for i in 0..64 {
                let keep = ctx.keep();
                for _ in 0..n * (i + 1) / 64 - n * i / 64 {
                    let c = Content { seed: r.u64(), len: r.below(4) as usize, pat: Pat::Rand, hint: Hint::No, src: Src::Mem };
                    if keep {
                        spec.contents.push(c);
                    }
                }
            }
            return;
        }
    }
    let store = spec.dir.stores.len();
    spec.dir.indexes.push(Index { name: "large".into(), store, offset: 0, count: st.entries.len() as u32, key: 0, free: [0; 4] });
    spec.dir.stores.push(st);
}

/// A byte of the longest block, among those which are read.
fn in_large(r: &mut Rng, img: &Img, w: &Want) -> Option<Damage> {
    let (file, b) = img.leaves.iter().flat_map(|l| l.pack.blocks.iter().map(move |b| (l.file, b))).max_by_key(|x| x.1.len)?;
    let at = if b.what.contains("content") {
        let n = (b.len / 4) as u32;
        4 * *r.pick(&spread(n, w.max_contents)) as usize + r.idx(4)
    } else {
        match r.below(3) {
            0 => 65_530 + r.idx(12),
            1 => b.len - 1 - r.idx(b.len / 8 + 1),
            _ => r.idx(b.len),
        }
    };
    let at = b.at + at.min(b.len - 1);
    let x = other(r, img.files[file][at]);
    Some(Damage { what: "byte of a block of more than 64 kB".into(), patches: vec![Patch { file, at, bytes: vec![x] }], len: None })
}

/// Creates the container to damage.
pub fn subject(ctx: &mut Ctx, r: &mut Rng, lengths: bool) -> Result<Option<Subject>, Fail> {
    ctx.clean();
    let large = ctx.index % 48 == 5;
    let sweep = match r.below(14) {
        _ if large => Sweep::No,
        0 => Sweep::Bytes,
        1 if lengths => Sweep::Lengths,
        _ => Sweep::No,
    };
    let small = sweep != Sweep::No || large || r.chance(1, 2);
    let (mut spec, frees) = gen_spec(ctx, r, small);
    if large {
        large_block(ctx, r, &mut spec);
    }
    if !small && r.chance(1, 12) {
        // more than one cluster, or stored bytes too long to be copied to memory
        let extra = gen_contents(ctx, r, Plan::Mixed(3, 300_000));
        spec.contents.extend(extra);
    }
    if !small && r.chance(1, 8) {
        // tables too long to be copied to memory
        for _ in 0..1020 + r.below(200) {
            let c = Content::gen(r, 4);
            if ctx.keep() {
                spec.contents.push(c);
            }
        }
    }
    let route = if spec.cached { Route::High } else { gen_route(r) };
    ctx.tell(format!("{route:?} {}", describe(&spec)));
    let mut cfg = ctx.noise("create", 1);
    if total(&spec.contents) > 200_000 || spec.contents.len() > 500 {
        cfg.p_short_read = cfg.p_short_read.min(2000);
        cfg.p_short_write = cfg.p_short_write.min(2000);
    }
    create_ok(ctx, &cfg, &spec, route, &frees)?;
    let files = files_of(&ctx.root);
    let img = match Img::read(&files) {
        Ok(i) => i,
        // the layout itself is C14's business: the files are damaged blindly
        Err(_) => {
            ctx.count("layout_not_followed", 1);
            Img { names: files.keys().cloned().collect(), files: files.values().cloned().collect(), leaves: vec![], outers: vec![] }
        }
    };
    let view = View {
        w: want_of(&spec),
        out: ctx.path("out.jbk"),
        leaves: img.leaves.iter().map(|l| (ctx.path(&img.names[l.file]), l.pack.uuid, l.pack.kind, l.inner)).collect(),
        files: img.names.iter().map(|n| ctx.path(n)).collect(),
        memory: r.chance(1, 3),
        direct: r.chance(1, 2),
        threads: if sweep == Sweep::No && r.chance(1, 5) { 2 + r.idx(3) } else { 0 },
    };
    Ok(Some(Subject { spec, img, view, sweep, large }))
}

fn one(root: &str, img: &Img, d: &Damage, view: &View, want: &Facts) -> Vec<u8> {
    apply(root, img, d);
    let got = catch_unwind(AssertUnwindSafe(|| read(view)));
    restore(root, img, d);
    let mut e = Enc::default();
    match got {
        Err(p) => {
            e.u(1);
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            e.b(m.as_bytes());
        }
        Ok(got) => {
            let mut c = Counts::default();
            let (j, v, er) = quiet(|| {
                (judge(want, &got, &mut c), got.values().any(|x| !refusal(x)), got.values().any(refusal))
            });
            e.u(0);
            e.b(j.unwrap_or_default().as_bytes());
            for x in [c.same, c.errors, c.missing, c.bytes, c.check_fails, c.unreachable, v as u64, er as u64] {
                e.u(x);
            }
        }
    }
    e.0
}

fn answer(d: &Damage, b: &[u8]) -> Answer {
    let mut x = Dec(b);
    let mut a = Answer { what: d.what.clone(), crash: None, crash_kind: "", wrong: None, counts: Counts::default(), some_value: false, some_error: false };
    if x.u() == 1 {
        a.crash = Some(format!("panic: {}", String::from_utf8_lossy(x.b())));
        a.crash_kind = "panic";
        return a;
    }
    let j = String::from_utf8_lossy(x.b()).to_string();
    a.wrong = (!j.is_empty()).then_some(j);
    a.counts = Counts { same: x.u(), errors: x.u(), missing: x.u(), bytes: x.u(), check_fails: x.u(), unreachable: x.u() };
    a.some_value = x.u() == 1;
    a.some_error = x.u() == 1;
    a
}

/// What an undamaged container answers.
pub fn pristine(ctx: &mut Ctx, s: &Subject) -> Result<Facts, Fail> {
    let cfg = ctx.noise("pristine", 1);
    let ph = ctx.phase(&cfg, || {
        let mut e = Enc::default();
        e.facts(&read(&s.view));
        e.0
    });
    let out = ctx.must(ph, "pristine", "reading what was just created")?;
    Ok(Dec(&out).facts())
}

/// Reads under each damage in turn.
pub fn each(ctx: &mut Ctx, s: &Subject, cfg: &SimCfg, want: &Facts, list: &[Damage]) -> Vec<Answer> {
    let root = ctx.root.clone();
    let run = |ctx: &mut Ctx, ds: &[Damage]| -> Ph {
        ctx.phase(cfg, || {
            let mut e = Enc::default();
            for d in ds {
                e.b(&one(&root, &s.img, d, &s.view, want));
            }
            e.0
        })
    };
    let ph = run(ctx, list);
    let mut v = vec![];
    if ph.outcome == Outcome::Done {
        let mut d = Dec(&ph.out);
        for x in list {
            v.push(answer(x, d.b()));
        }
        return v;
    }
    let write_all = || {
        for (f, b) in s.img.files.iter().enumerate() {
            std::fs::write(format!("{root}/{}", s.img.names[f]), b).expect("scratch");
        }
    };
    for x in list {
        write_all();
        let ph = run(ctx, std::slice::from_ref(x));
        match ph.outcome {
            Outcome::Done => v.push(answer(x, Dec(&ph.out).b())),
            Outcome::Lost => {}
            o => {
                let kind = match &o {
                    Outcome::Panic(_) => "panic",
                    Outcome::Deadlock(_) | Outcome::StepCap | Outcome::CpuHang => "hang",
                    _ => "death",
                };
                let mut m = o.describe();
                if !ph.panic.is_empty() && !m.contains(&ph.panic) {
                    m += &format!(" after {}", ph.panic);
                }
                v.push(Answer { what: x.what.clone(), crash: Some(m), crash_kind: kind, wrong: None, counts: Counts::default(), some_value: false, some_error: false });
            }
        }
    }
    write_all();
    v
}

/// The damages of a run.
pub fn damages(ctx: &mut Ctx, r: &mut Rng, s: &Subject, n: usize, storage: bool) -> Vec<Damage> {
    let img = &s.img;
    let mut list = vec![];
    match s.sweep {
        Sweep::No => {
            for i in 0..n {
                let mut d = damage(r, img, storage);
                if s.large && i % 2 == 0 {
                    d = in_large(r, img, &s.view.w).unwrap_or(d);
                }
                if ctx.keep() {
                    list.push(d);
                }
            }
        }
        Sweep::Bytes | Sweep::Lengths => {
            let all: Vec<(usize, usize)> = (0..img.files.len()).flat_map(|f| (0..img.files[f].len()).map(move |at| (f, at))).collect();
            let max = if ctx.thorough() { 8000 } else { 700 };
            let step = all.len().div_ceil(max).max(1);
            let first = r.idx(step);
            for (f, at) in all.into_iter().skip(first).step_by(step) {
                let b = other(r, img.files[f][at]);
                let d = if s.sweep == Sweep::Bytes {
                    Damage { what: "each byte".into(), patches: vec![Patch { file: f, at, bytes: vec![b] }], len: None }
                } else {
                    Damage { what: "each length".into(), patches: vec![], len: Some((f, at)) }
                };
                if ctx.keep() {
                    list.push(d);
                }
            }
        }
    }
    list.retain(|d| !idle(img, d));
    list
}

pub fn chunk(s: &Subject) -> usize {
    let n: usize = s.img.files.iter().map(|f| f.len()).sum();
    let plain: usize = s.spec.slots().iter().map(|x| total(x.1) as usize).sum();
    (8_000_000 / (n + 4 * plain + 4000)).clamp(4, if s.view.threads > 0 { 40 } else { 100 })
}

pub fn add(ctx: &mut Ctx, a: &Answer) {
    for (k, v) in [
        ("facts.as_written", a.counts.same),
        ("facts.errors", a.counts.errors),
        ("facts.pack_missing", a.counts.missing),
        ("facts.content_bytes_differ", a.counts.bytes),
        ("facts.check_fails", a.counts.check_fails),
        ("facts.not_reached", a.counts.unreachable),
    ] {
        if v > 0 {
            ctx.count(k, v);
        }
    }
    ctx.count("damages", 1);
    for w in a.what.split(" + ") {
        ctx.count(&format!("damage.{w}"), 1);
    }
}

pub fn eio(ctx: &mut Ctx, r: &mut Rng, label: &str, cfg: &mut SimCfg) {
    cfg.fault_at = ctx.knob(&format!("eio.{label}"), r.range(1, 600), 0) as _;
    cfg.fault_kind = rt::F_ERRNO;
    cfg.fault_errno = libc::EIO as u32;
    cfg.fault_mask = rt::C_READ | rt::C_MMAP | rt::C_OUT;
}
