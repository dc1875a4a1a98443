//! C13: all views of a stored content agree.

use super::common::*;
use super::Check;
use crate::create;
use crate::ctx::*;
use crate::decode::Decoder;
use crate::facts::*;
use crate::model::*;
use crate::rng::Rng;
use crate::rt::*;
use jubako::reader::{ByteRegion, ByteSlice, ByteStream, Container, ContentPack};
use jubako::{FileSource, Offset, Reader, Size};
use std::os::unix::fs::FileExt;
use std::io::Read;
use std::sync::Arc;

pub const CHECK: Check = Check {
    id: "C13",
    run,
    quick: 5000,
    thorough: 200_000,
    level: "exploration",
    rule: "seeded content packs of 2..40 contents (empty to 60 kB, some larger than a cluster; raw or under every codec; most not at offset 0 of their source), read from memory, a mapped file, a file, and a file inside a container after other bytes; then 1..4 threads each walk seeded chains of views of seeded contents: \
           regions, slices cut from slices to depth 4 (empty ones and those ending with the content included), regions and streams converted from them, kept after the container is dropped; up to 5 streams at a time advanced in turn by seeded read sizes (0, 1, up to more than what is left; read, read_exact, read_to_end, read_vectored, take, chained), slices taken of any sub-range; short reads, EINTR and read errors injected, decoding threads delayed. \
           Every byte, size, offset and remaining length is compared with the content given at creation. A case counts per chain; distinct by source, codec, size and ops of the chain",
    real: "jubako content pack reader, ByteRegion/ByteSlice/ByteStream, sources, decompression pool (rayon), creator, codecs, std",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (short reads, EINTR, EIO injected)",
    assumptions: &["sequentially consistent memory", "an error is only accepted when a read error was injected"],
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum From_ {
    Memory,
    Mapped,
    File,
    Inside,
}

struct Walk<'a> {
    r: Rng,
    want: &'a [Vec<u8>],
    /// errors are possible
    eio: bool,
    ops: u64,
    bytes: u64,
    errors: u64,
    told: Vec<String>,
}
type W<T = ()> = Result<T, String>;

/// A stream, and what it is of.
struct S<'a> {
    s: ByteStream,
    w: &'a [u8],
    at: usize,
    what: String,
}

impl<'a> Walk<'a> {
    fn bad<T>(&self, what: &str, m: impl Into<String>) -> W<T> {
        Err(format!("{what}: {} (after {})", m.into(), self.told.iter().rev().take(6).cloned().collect::<Vec<_>>().join("; ")))
    }
    fn sub(&mut self, n: usize) -> (usize, usize) {
        match self.r.below(8) {
            0 => (0, n),
            1 => (n, 0),
            2 => {
                let o = self.r.idx(n + 1);
                (o, n - o)
            }
            3 => {
                let o = self.r.idx(n + 1);
                (o, self.r.idx((n - o).min(3) + 1))
            }
            _ => {
                let o = self.r.idx(n + 1);
                (o, self.r.idx(n - o + 1))
            }
        }
    }
    fn slice_of(&mut self, what: &str, got: Result<std::borrow::Cow<[u8]>, jubako::Error>, w: &[u8]) -> W {
        self.bytes += w.len() as u64;
        match got {
            Ok(b) if *b == *w => Ok(()),
            Ok(b) if b.len() != w.len() => self.bad(what, format!("a slice of {} bytes has {}", w.len(), b.len())),
            Ok(b) => {
                let at = (0..w.len()).find(|i| b[*i] != w[*i]).unwrap();
                self.bad(what, format!("byte {at} of a slice of {} is {:02x}, not {:02x}", w.len(), b[at], w[at]))
            }
            Err(_) if self.eio => {
                self.errors += 1;
                Ok(())
            }
            Err(e) => self.bad(what, format!("a slice of {} bytes: {e}", w.len())),
        }
    }
    fn look_region(&mut self, what: &str, v: &ByteRegion, w: &[u8]) -> W {
        if v.size() != Size::from(w.len()) {
            return self.bad(what, format!("a region of {} bytes has size {}", w.len(), v.size()));
        }
        let (o, n) = self.sub(w.len());
        self.ops += 1;
        self.slice_of(&format!("{what}.get_slice({o},{n})"), v.get_slice(Offset::from(o), n), &w[o..o + n])
    }
    fn look_slice(&mut self, what: &str, v: &ByteSlice, w: &[u8]) -> W {
        if v.size() != Size::from(w.len()) {
            return self.bad(what, format!("a slice of {} bytes has size {}", w.len(), v.size()));
        }
        let (o, n) = self.sub(w.len());
        self.ops += 1;
        self.slice_of(&format!("{what}.get_slice({o},{n})"), v.get_slice(Offset::from(o), n), &w[o..o + n])
    }
    fn look_stream(&self, s: &S) -> W {
        let (n, o, l) = (s.s.size() as usize, s.s.offset() as usize, s.s.size_left() as usize);
        if (n, o, l) != (s.w.len(), s.at, s.w.len() - s.at) {
            return self.bad(&s.what, format!("a stream of {} bytes at {} says size {n}, offset {o}, {l} left", s.w.len(), s.at));
        }
        Ok(())
    }
    fn took(&mut self, s: &mut S, got: &[u8]) -> W {
        let Some(w) = s.w.get(s.at..s.at + got.len()) else {
            return self.bad(&s.what, format!("{} bytes read at {} of a stream of {}", got.len(), s.at, s.w.len()));
        };
        if let Some(i) = (0..w.len()).find(|i| got[*i] != w[*i]) {
            return self.bad(&s.what, format!("byte {} of a stream of {} read as {:02x}, not {:02x} (in a read of {})", s.at + i, s.w.len(), got[i], w[i], got.len()));
        }
        s.at += got.len();
        self.bytes += got.len() as u64;
        Ok(())
    }
    /// One step of a stream; true when it is over.
    fn step(&mut self, s: &mut S) -> W<bool> {
        self.look_stream(s)?;
        self.ops += 1;
        let left = s.w.len() - s.at;
        let n = match self.r.below(7) {
            0 => 0,
            1 => 1,
            2 => left,
            3 => left + self.r.idx(5000),
            4 => self.r.idx(left.min(10) + 1),
            _ => self.r.idx(left + 1),
        };
        let err = |me: &mut Self, s: &S, e: std::io::Error| -> W<bool> {
            if e.kind() == std::io::ErrorKind::Interrupted {
                return Ok(false);
            }
            if me.eio {
                me.errors += 1;
                return Ok(true);
            }
            me.bad(&s.what, format!("reading {n} at {} of {}: {e}", s.at, s.w.len()))
        };
        match self.r.below(8) {
            0 => {
                // the whole rest
                let mut v = vec![7; 3];
                if let Err(e) = s.s.read_to_end(&mut v) {
                    return err(self, s, e).map(|_| true);
                }
                if v.len() - 3 != left || v[..3] != [7; 3] {
                    return self.bad(&s.what, format!("{left} bytes left, read_to_end read {}", v.len() - 3));
                }
                self.took(s, &v[3..])?;
            }
            1 => {
                let mut v = vec![0; n.min(left)];
                if let Err(e) = s.s.read_exact(&mut v) {
                    return err(self, s, e).map(|_| true);
                }
                self.took(s, &v)?;
            }
            2 => {
                let (mut a, mut b) = (vec![0; n / 3], vec![0; n - n / 3]);
                let got = match s.s.read_vectored(&mut [std::io::IoSliceMut::new(&mut a), std::io::IoSliceMut::new(&mut b)]) {
                    Ok(x) => x,
                    Err(e) => return err(self, s, e),
                };
                a.extend(b);
                if got > a.len() {
                    return self.bad(&s.what, "more read than asked for");
                }
                self.took(s, &a[..got])?;
            }
            3 => {
                let mut v = vec![];
                if let Err(e) = s.s.by_ref().take(n as u64).read_to_end(&mut v) {
                    return err(self, s, e).map(|_| true);
                }
                if v.len() != n.min(left) {
                    return self.bad(&s.what, format!("{left} bytes left, take({n}) read {}", v.len()));
                }
                self.took(s, &v)?;
            }
            _ => {
                let mut v = vec![0x5c; n];
                let got = match s.s.read(&mut v) {
                    Ok(x) => x,
                    Err(e) => {
                        // nothing was taken
                        self.look_stream(s)?;
                        return err(self, s, e);
                    }
                };
                if got > n || got == 0 && n > 0 && left > 0 {
                    return self.bad(&s.what, format!("{left} bytes left, a read of {n} gives {got}"));
                }
                self.took(s, &v[..got])?;
            }
        }
        self.look_stream(s)?;
        if s.at == s.w.len() {
            let mut x = [1; 9];
            return match s.s.read(&mut x) {
                Ok(0) => Ok(true),
                Ok(k) => self.bad(&s.what, format!("{k} bytes read past the end")),
                Err(e) => err(self, s, e).map(|_| true),
            };
        }
        Ok(false)
    }
    /// Slices of slices, and what can be made of them.
    fn down<'w>(&mut self, depth: usize, what: String, v: &ByteSlice, w: &'w [u8], out: &mut Vec<S<'w>>, regions: &mut Vec<(ByteRegion, &'w [u8], String)>) -> W {
        self.look_slice(&what, v, w)?;
        match self.r.below(5) {
            0 => out.push(S { s: v.stream(), w, at: 0, what: format!("{what}.stream()") }),
            1 => {
                let g = ByteRegion::from(v.clone());
                let what = format!("region({what})");
                self.look_region(&what, &g, w)?;
                match self.r.below(3) {
                    0 => out.push(S { s: ByteStream::from(g), w, at: 0, what: format!("stream({what})") }),
                    1 => out.push(S { s: g.stream(), w, at: 0, what: format!("{what}.stream()") }),
                    _ => regions.push((g, w, what)),
                }
            }
            _ => {}
        }
        if depth > 0 {
            let (o, n) = self.sub(w.len());
            let what = format!("{what}.cut({o},{n})");
            let c = v.cut(Offset::from(o), Size::from(n));
            self.down(depth - 1, what, &c, &w[o..o + n], out, regions)?;
            // the one it was cut from is what it was
            self.look_slice("the same after a cut", v, w)?;
        }
        Ok(())
    }

    fn walk(&mut self, get: &dyn Fn(u32) -> Result<Option<ByteRegion>, jubako::Error>, chains: u64) -> W {
        let all: &'a [Vec<u8>] = self.want;
        let mut streams: Vec<S<'a>> = vec![];
        let mut regions: Vec<(ByteRegion, &'a [u8], String)> = vec![];
        for _ in 0..chains {
            if regions.is_empty() || self.r.chance(2, 3) {
                let i = self.r.idx(all.len());
                match get(i as u32) {
                    Ok(Some(g)) => regions.push((g, &all[i], format!("content {i}"))),
                    Ok(None) => return Err(format!("content {i} is not there")),
                    Err(_) if self.eio => self.errors += 1,
                    Err(e) => return Err(format!("content {i}: {e}")),
                }
            }
            let Some(k) = (!regions.is_empty()).then(|| self.r.idx(regions.len())) else { continue };
            let (g, w, what) = (regions[k].0.clone(), regions[k].1, regions[k].2.clone());
            self.told.push(what.clone());
            self.look_region(&what, &g, w)?;
            match self.r.below(6) {
                0 => streams.push(S { s: g.stream(), w, at: 0, what: format!("{what}.stream()") }),
                1 => streams.push(S { s: ByteStream::from(g), w, at: 0, what: format!("stream({what})") }),
                2 => {
                    let v = g.as_slice();
                    self.down(3, format!("{what}.as_slice()"), &v, w, &mut streams, &mut regions)?;
                }
                3 => drop(regions.swap_remove(k)),
                _ => {
                    let (o, n) = self.sub(w.len());
                    let v = g.cut(Offset::from(o), Size::from(n));
                    self.down(3, format!("{what}.cut({o},{n})"), &v, &w[o..o + n], &mut streams, &mut regions)?;
                }
            }
            while streams.len() > 5 || !streams.is_empty() && self.r.chance(2, 3) {
                let k = self.r.idx(streams.len());
                let mut s = streams.swap_remove(k);
                let over = self.step(&mut s)?;
                if !over && (self.r.chance(7, 8) || streams.len() < 2) {
                    streams.push(s);
                }
            }
        }
        // what is left is read to its end
        for mut s in streams {
            let mut k = 0;
            while !self.step(&mut s)? && k < 40 {
                k += 1;
            }
        }
        Ok(())
    }
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let mut r = ctx.rng("scenario");
    let root = ctx.root.clone();
    let mut spec = Spec::empty();
    spec.mode = Mode::ALL[r.idx(Mode::ALL.len())];
    let plan = match r.below(30) {
        0 => Plan::Large,
        1..=8 => Plan::Mixed(8, 60_000),
        _ => Plan::Mixed(40, 5000),
    };
    spec.contents = gen_contents(ctx, &mut r, plan);
    if spec.contents.is_empty() {
        return Ok(());
    }
    // (two contents per cluster at least, mostly)
    let hint = *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]);
    let one = r.chance(1, 2);
    for c in spec.contents.iter_mut() {
        if one {
            c.hint = hint;
        }
    }
    spec.comp = gen_comp(ctx, &mut r, total(&spec.contents));
    create::write_sources(&root, &spec);
    let out = format!("{root}/out.jbk");
    ctx.tell(describe(&spec));
    let mut cfg = ctx.noise("create", 1);
    cfg.p_short_read = cfg.p_short_read.min(2000);
    cfg.p_short_write = cfg.p_short_write.min(2000);
    let ph = ctx.phase(&cfg, || {
        let mut e = Enc::default();
        match create::create(&root, &out, &spec, Arc::new(())) {
            Ok(b) => e.b(&b.encode()),
            Err(m) => {
                e.b(b"");
                e.b(m.as_bytes());
            }
        }
        e.0
    });
    let bytes = ctx.must(ph, "create", "creation")?;
    let mut d = Dec(&bytes);
    let b = d.b();
    if b.is_empty() {
        return fail("create", format!("creation fails: {}", d.s()));
    }
    let built = Built::decode(b);
    // contents by their number
    let n = built.addrs[0].iter().map(|a| a.1 + 1).max().unwrap_or(0) as usize;
    let mut want: Vec<Vec<u8>> = vec![vec![]; n];
    for (a, c) in built.addrs[0].iter().zip(&spec.contents) {
        want[a.1 as usize] = c.bytes();
    }
    // the content pack, wherever it is
    let mut pack = vec![];
    for e in std::fs::read_dir(&root).into_iter().flatten().flatten() {
        // (sources may have huge holes)
        if e.file_name().to_string_lossy().starts_with("src") {
            continue;
        }
        let Ok(b) = std::fs::read(e.path()) else { continue };
        if let Ok(v) = Decoder::new(&b).all() {
            if let Some(p) = v.iter().find(|p| p.content().is_some()) {
                pack = b[p.at..p.at + p.size].to_vec();
            }
        }
    }
    if pack.is_empty() {
        return fail("layout", "no content pack".to_string());
    }
    let loose = format!("{root}/loose.jbkc");
    let pre = r.range(1, 9000) as usize;
    std::fs::write(&loose, &pack).expect("write");
    if r.chance(1, 2) {
        // the container after other bytes
        let b = std::fs::read(&out).expect("read");
        let v = r.bytes(pre);
        let f = std::fs::File::create(&out).expect("write");
        f.write_all_at(&v, 0).expect("write");
        // sometimes further than 32 bits count
        let hole = if r.chance(1, 10) { (1 << 32) * r.range(1, 30) - r.below(9000) } else { 0 };
        f.write_all_at(&b, v.len() as u64 + hole).expect("write");
    }
    // ------------------------------------------------ views
    for k in 0..r.range(1, 2) {
        let mut q = Rng::new(r.u64());
        if !ctx.keep() {
            continue;
        }
        let from = *q.pick(&[From_::Memory, From_::Mapped, From_::File, From_::Inside]);
        let threads = ctx.knob(&format!("threads{k}"), *q.pick(&[1, 1, 2, 3, 4]), 1) as usize;
        let chains = q.range(4, 40);
        let dropped = q.chance(1, 3);
        let mut cfg = ctx.noise(&format!("views{k}"), if q.chance(1, 4) { 2 } else { 1 });
        if total(&spec.contents) > 1 << 20 {
            cfg.p_short_read = cfg.p_short_read.min(2000);
        }
        if q.chance(1, 4) {
            cfg.p_eintr = ctx.knob(&format!("eintr{k}"), q.range(500, 8000), 0) as u32;
        }
        // (pread of a map does not fail; only files do)
        let eio = q.chance(1, 6) && matches!(from, From_::File | From_::Inside);
        if eio {
            cfg.fault_kind = F_ERRNO;
            cfg.fault_errno = 5;
            cfg.fault_mask = C_READ | C_OUT;
            cfg.fault_at = ctx.knob(&format!("eio{k}"), q.range(1, 60), 0);
            cfg.fault_sticky = q.chance(1, 3) as u32;
            if cfg.fault_at == 0 {
                cfg.fault_kind = 0;
            }
        }
        let seeds: Vec<u64> = (0..threads).map(|_| q.u64()).collect();
        ctx.tell(format!("{from:?} {threads} threads {chains} chains eio {eio} {}", describe(&spec)));
        let want = &want;
        let pack = &pack;
        let ph = ctx.phase(&cfg, || {
            let mut e = Enc::default();
            let mut open: Option<(Option<Container>, Option<ContentPack>)> = None;
            let opened = (|| -> Result<(), String> {
                open = Some(match from {
                    From_::Inside => (Some(Container::new(&out).map_err(|e| format!("{e}"))?), None),
                    _ => {
                        let rd = match from {
                            From_::Memory => Reader::from(pack.clone()),
                            From_::Mapped => {
                                let f = std::fs::File::open(&loose).map_err(|e| format!("{e}"))?;
                                Reader::from(unsafe { memmap2::Mmap::map(&f) }.map_err(|e| format!("{e}"))?)
                            }
                            _ => Reader::from(FileSource::open(&loose).map_err(|e| format!("{e}"))?),
                        };
                        (None, Some(ContentPack::new(rd).map_err(|e| format!("{e}"))?))
                    }
                });
                Ok(())
            })();
            if let Err(m) = opened {
                e.u(if eio { 0 } else { 1 });
                e.b(format!("opening: {m}").as_bytes());
                (0..3).for_each(|_| e.u(0));
                return e.0;
            }
            let open = open.unwrap();
            // regions taken while it was open outlive it
            let held: Vec<Result<Option<ByteRegion>, String>> = if dropped {
                (0..want.len().min(60) as u32).map(|i| get(&open, i).map_err(|e| format!("{e}"))).collect()
            } else {
                vec![]
            };
            let open = if dropped { None } else { Some(open) };
            let results: Vec<(W, u64, u64, u64)> = std::thread::scope(|sc| {
                let hs: Vec<_> = seeds
                    .iter()
                    .map(|s| {
                        let (open, held) = (&open, &held);
                        sc.spawn(move || {
                            let n = if dropped { held.len() } else { want.len() };
                            let mut w = Walk { r: Rng::new(*s), want: &want[..n], eio, ops: 0, bytes: 0, errors: 0, told: vec![] };
                            let res = match open {
                                Some(o) => w.walk(&|i| get(o, i), chains),
                                None => w.walk(
                                    &|i| match &held[i as usize] {
                                        Ok(x) => Ok(x.clone()),
                                        Err(m) => Err(std::io::Error::other(m.clone()).into()),
                                    },
                                    chains,
                                ),
                            };
                            (res, w.ops, w.bytes, w.errors)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or((Err("a thread panicked".into()), 0, 0, 0))).collect()
            });
            let bad = results.iter().find_map(|x| x.0.as_ref().err());
            e.u(bad.is_some() as u64);
            e.b(bad.map(|s| s.as_bytes()).unwrap_or(b""));
            e.u(results.iter().map(|x| x.1).sum());
            e.u(results.iter().map(|x| x.2).sum());
            e.u(results.iter().map(|x| x.3).sum());
            e.0
        });
        let out = ctx.must(ph, "panic", &format!("{from:?}: looking at the contents"))?;
        let mut d = Dec(&out);
        let (bad, m) = (d.u(), d.s());
        if bad == 1 {
            return fail("differs", format!("{from:?}: {m}"));
        }
        let (ops, n, errors) = (d.u(), d.u(), d.u());
        ctx.count("view.operations", ops);
        ctx.count("view.bytes.compared", n);
        ctx.count("view.errors.met", errors);
        ctx.state(h(shape(&spec), hs(ops, &format!("{from:?}{dropped}{threads}"))));
    }
    ctx.sample(|| describe(&spec));
    Ok(())
}

fn get(open: &(Option<Container>, Option<ContentPack>), i: u32) -> Result<Option<ByteRegion>, jubako::Error> {
    match open {
        (Some(c), _) => Ok(c.get_bytes(addr(1, i))?.and_then(|m| m.get()).flatten()),
        (_, Some(p)) => p.get_content(i.into()),
        _ => Ok(None),
    }
}
