//! The logical model of a container: what the harness asks the creator to
//! write, and therefore what every reader must give back.

use crate::facts::{Facts, F, K};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Comp {
    None,
    Lz4(u32),
    Lzma(u32),
    Zstd(i32),
}
impl Comp {
    /// the number the format stores in a cluster compressed with it
    pub fn code(&self) -> u8 {
        match self {
            Comp::None => 0,
            Comp::Lz4(_) => 1,
            Comp::Lzma(_) => 2,
            Comp::Zstd(_) => 3,
        }
    }
    /// cheap compression settings (heavy ones only cost time)
    pub fn gen(r: &mut Rng) -> Comp {
        match r.below(8) {
            0 => Comp::None,
            1 | 2 => Comp::Lz4(r.below(16) as u32),
            3 => Comp::Lzma(r.below(4) as u32),
            4 => Comp::Zstd(-(r.below(23) as i32)),
            _ => Comp::Zstd(r.range(1, 12) as i32),
        }
    }
    /// the whole range of levels
    pub fn gen_any(r: &mut Rng) -> Comp {
        match r.below(4) {
            0 => Comp::None,
            1 => Comp::Lz4(r.below(16) as u32),
            2 => Comp::Lzma(r.below(10) as u32),
            _ => Comp::Zstd(r.below(45) as i32 - 22),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    OneFile,
    TwoFiles,
    NoConcat,
}
impl Mode {
    pub const ALL: [Mode; 3] = [Mode::OneFile, Mode::TwoFiles, Mode::NoConcat];
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hint {
    Yes,
    No,
    Detect,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Src {
    Mem,
    File,
    /// a range of a file: bytes before it, bytes after it
    Range(u64, u64),
    /// a file read to its end starting at an origin
    Tail(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pat {
    Zero,
    Rand,
    Text,
    Ramp,
    Mixed,
    /// seeds that differ in the lowest bit only: the same noise but for one byte
    Twin,
    /// zeros but for a few seeded bytes every 32 kB: cheap to compress, unlike any other
    Marks,
}

#[derive(Clone, Debug)]
pub struct Content {
    pub seed: u64,
    pub len: usize,
    pub pat: Pat,
    pub hint: Hint,
    pub src: Src,
}

impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        let mut r = Rng::new(self.seed);
        let mut v = vec![0u8; self.len];
        match self.pat {
            Pat::Zero => {
                let b = r.u64() as u8;
                v.fill(b);
            }
            Pat::Rand => r.fill(&mut v),
            Pat::Marks => {
                for c in v.chunks_mut(1 << 15) {
                    let n = c.len().min(8);
                    r.fill(&mut c[..n]);
                    if let Some(b) = c.last_mut() {
                        *b = r.u64() as u8;
                    }
                }
            }
            Pat::Twin => {
                let mut r = Rng::new(self.seed >> 1);
                let n = v.len().max(1) as u64;
                let last = n - 1;
                let at = *r.pick(&[0, last, last, last / 2, 4095, 4096, (1 << 22) - 1, 1 << 22]);
                let at = if r.chance(1, 4) { r.below(n) } else { at.min(last) };
                r.fill(&mut v);
                if let Some(b) = v.get_mut(at as usize) {
                    *b ^= 0x40 * (self.seed & 1) as u8;
                }
            }
            Pat::Text => {
                let words: Vec<Vec<u8>> = (0..40)
                    .map(|_| {
                        let n = r.range(2, 9) as usize;
                        (0..n).map(|_| b'a' + r.below(26) as u8).collect()
                    })
                    .collect();
                let mut i = 0;
                while i < v.len() {
                    let w = &words[r.idx(words.len())];
                    for b in w.iter().chain(b" ") {
                        if i < v.len() {
                            v[i] = *b;
                            i += 1;
                        }
                    }
                }
            }
            Pat::Ramp => {
                let (a, b) = (r.u64(), r.range(1, 300));
                for (i, x) in v.iter_mut().enumerate() {
                    *x = (a.wrapping_add((i as u64) / b).wrapping_mul(7) >> 1) as u8;
                }
            }
            Pat::Mixed => {
                let mut i = 0;
                while i < v.len() {
                    let n = (r.len(70000) + 1).min(v.len() - i);
                    if r.chance(1, 2) {
                        r.fill(&mut v[i..i + n]);
                    } else {
                        let b = r.u64() as u8;
                        v[i..i + n].fill(b);
                    }
                    i += n;
                }
            }
        }
        v
    }
    pub fn gen(r: &mut Rng, max: usize) -> Content {
        let len = r.len(max);
        Content {
            seed: r.u64(),
            len,
            pat: *r.pick(&[Pat::Zero, Pat::Rand, Pat::Rand, Pat::Text, Pat::Text, Pat::Ramp, Pat::Mixed]),
            hint: *r.pick(&[Hint::Yes, Hint::Yes, Hint::No, Hint::Detect]),
            src: match r.below(8) {
                0 => Src::File,
                1 => Src::Range(r.below(5000), r.below(5000)),
                2 => Src::Tail(r.below(5000)),
                _ => Src::Mem,
            },
        }
    }
}

#[derive(Clone, Debug)]
pub struct Extra {
    pub id: u16,
    pub comp: Comp,
    pub name: String,
    pub contents: Vec<Content>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Vs {
    Plain,
    Indexed,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    U,
    S,
    A { fixed: usize, vs: usize },
    C,
    /// position of an entry of that store, as an unsigned / signed deferred value
    RefU(usize),
    RefS(usize),
}

#[derive(Clone, Debug)]
pub struct Prop {
    pub name: &'static str,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U(u64),
    S(i64),
    A(Vec<u8>),
    /// literal content address
    C(u16, u32),
    /// address the creator returned for (pack slot, content number)
    Ci(usize, usize),
    /// final position of an entry of the property's store
    Ref(usize),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub variant: usize,
    pub vals: Vec<V>,
}

#[derive(Clone, Debug, Default)]
pub struct Store {
    pub common: Vec<Prop>,
    pub variants: Vec<(&'static str, Vec<Prop>)>,
    pub sort: Option<Vec<&'static str>>,
    pub entries: Vec<Entry>,
}
impl Store {
    /// the properties of entry `e`, in the order of its values
    pub fn props(&self, e: &Entry) -> Vec<&Prop> {
        let mut v: Vec<&Prop> = self.common.iter().collect();
        if !self.variants.is_empty() {
            v.extend(self.variants[e.variant].1.iter());
        }
        v
    }
}

#[derive(Clone, Debug)]
pub struct Index {
    pub name: String,
    pub store: usize,
    pub offset: u32,
    pub count: u32,
    pub key: u8,
    pub free: [u8; 4],
}

#[derive(Clone, Debug, Default)]
pub struct Dir {
    pub vstores: Vec<Vs>,
    pub stores: Vec<Store>,
    pub indexes: Vec<Index>,
    pub free: [u8; 24],
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub comp: Comp,
    pub mode: Mode,
    pub cached: bool,
    pub vendor: [u8; 4],
    pub contents: Vec<Content>,
    pub extras: Vec<Extra>,
    pub dir: Dir,
}

impl Spec {
    pub fn empty() -> Spec {
        Spec {
            comp: Comp::Zstd(3),
            mode: Mode::OneFile,
            cached: false,
            vendor: *b"vp01",
            contents: vec![],
            extras: vec![],
            dir: Dir::default(),
        }
    }
    pub fn slots(&self) -> Vec<(u16, &Vec<Content>)> {
        let mut v = vec![(1u16, &self.contents)];
        v.extend(self.extras.iter().map(|e| (e.id, &e.contents)));
        v
    }
}

/// What creation reported: the address of every insertion, and the final
/// position of every entry according to the handle its insertion returned.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Built {
    pub addrs: Vec<Vec<(u16, u32)>>,
    pub handles: Vec<Vec<u32>>,
}

impl Built {
    pub fn encode(&self) -> Vec<u8> {
        let mut w: Vec<u64> = vec![self.addrs.len() as u64];
        for a in &self.addrs {
            w.push(a.len() as u64);
            w.extend(a.iter().map(|(p, c)| ((*p as u64) << 32) | *c as u64));
        }
        w.push(self.handles.len() as u64);
        for h in &self.handles {
            w.push(h.len() as u64);
            w.extend(h.iter().map(|x| *x as u64));
        }
        w.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn decode(b: &[u8]) -> Built {
        let mut it = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()));
        let mut nx = || it.next().unwrap_or(0);
        let n = nx();
        let mut out = Built::default();
        for _ in 0..n {
            let k = nx();
            out.addrs.push(
                (0..k)
                    .map(|_| {
                        let v = nx();
                        ((v >> 32) as u16, v as u32)
                    })
                    .collect(),
            );
        }
        let n = nx();
        for _ in 0..n {
            let k = nx();
            out.handles.push((0..k).map(|_| nx() as u32).collect());
        }
        out
    }
}

/// Value of one property as a reader must report it.
pub fn expect_value(v: &V, p: &Prop, b: &Built) -> F {
    match (v, &p.kind) {
        (V::U(x), _) => F::U(*x),
        (V::S(x), _) => F::S(*x),
        (V::A(x), _) => F::B(x.clone()),
        (V::C(p, c), _) => F::C(*p, *c),
        (V::Ci(s, i), _) => {
            let (p, c) = b.addrs[*s][*i];
            F::C(p, c)
        }
        (V::Ref(e), Kind::RefU(s)) => F::U(b.handles[*s][*e] as u64),
        (V::Ref(e), Kind::RefS(s)) => F::S(b.handles[*s][*e] as i64),
        (V::Ref(_), _) => unreachable!(),
    }
}

impl Spec {
    /// The facts a faithful reader reports.  Entries are placed where their
    /// handles say (that the handles are right is judged separately).
    pub fn facts(&self, b: &Built) -> Facts {
        let mut f = Facts::new();
        self.content_facts(b, &mut f);
        self.entry_facts(b, &mut f);
        f
    }
    pub fn content_facts(&self, b: &Built, f: &mut Facts) {
        for (slot, (id, contents)) in self.slots().iter().enumerate() {
            for (c, a) in contents.iter().zip(&b.addrs[slot]) {
                let data = c.bytes();
                f.insert(K::Content(a.0, a.1, "bytes"), F::hash(&data));
                f.insert(K::Content(a.0, a.1, "size"), F::U(data.len() as u64));
            }
            // the deduplicating adder stores equal contents once
            let n = if self.cached && slot == 0 {
                contents.iter().map(|c| c.bytes()).collect::<std::collections::BTreeSet<_>>().len()
            } else {
                contents.len()
            } as u32;
            f.insert(K::Pack(*id, "count"), F::U(n as u64));
            for x in crate::facts::past_end(n) {
                f.insert(K::Content(*id, x, "bytes"), F::None);
            }
        }
    }
    pub fn entry_facts(&self, b: &Built, f: &mut Facts) {
        for ix in &self.dir.indexes {
            f.insert(K::Index(ix.name.clone(), "count"), F::U(ix.count as u64));
            f.insert(K::Index(ix.name.clone(), "offset"), F::U(ix.offset as u64));
            f.insert(K::Index(ix.name.clone(), "store"), F::U(ix.store as u64));
            let st = &self.dir.stores[ix.store];
            for (ei, e) in st.entries.iter().enumerate() {
                let pos = b.handles[ix.store][ei];
                if pos < ix.offset || pos - ix.offset >= ix.count {
                    continue;
                }
                let at = pos - ix.offset;
                if !st.variants.is_empty() {
                    f.insert(
                        K::Entry(ix.name.clone(), at, "#variant".into()),
                        F::T(st.variants[e.variant].0.into()),
                    );
                }
                for (p, v) in st.props(e).iter().zip(&e.vals) {
                    f.insert(K::Entry(ix.name.clone(), at, p.name.into()), expect_value(v, p, b));
                }
            }
            f.insert(K::Entry(ix.name.clone(), ix.count, "#entry".into()), F::None);
        }
    }
}

// ------------------------------------------------------------------ generation

const NAMES: [&str; 14] = [
    "a", "bb", "path", "mime", "owner", "n1", "size", "value-x", "k9", "data", "ref", "été", "z_z", "longer name with spaces",
];
pub const VNAMES: [&str; 8] = ["v0", "file", "dir", "link", "Ωm", "other thing", "v6", "x"];

fn leak_name(r: &mut Rng, used: &mut Vec<&'static str>) -> &'static str {
    for _ in 0..20 {
        let s = *r.pick(&NAMES);
        if !used.contains(&s) {
            used.push(s);
            return s;
        }
    }
    let n = match r.below(4) {
        0 => 254,
        1 => 120,
        _ => 8,
    };
    let mut s: String = format!("q{}", used.len());
    while s.len() < n {
        s.push((b'a' + r.below(26) as u8) as char);
    }
    let s: &'static str = Box::leak(s.into_boxed_str());
    used.push(s);
    s
}

pub fn gen_u(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(4),
        1 => {
            let k = r.range(1, 8) as u32;
            let top = if k == 8 { u64::MAX } else { (1u64 << (8 * k)) - 1 };
            top.wrapping_sub(r.below(2))
        }
        2 => (1u64 << r.below(64)).wrapping_add(r.below(3)).wrapping_sub(1),
        3 => r.below(256),
        4 => r.below(70000),
        _ => r.u64() >> r.below(64),
    }
}
pub fn gen_s(r: &mut Rng) -> i64 {
    match r.below(7) {
        0 => r.below(5) as i64 - 2,
        1 => {
            let k = r.range(1, 8) as u32;
            let half = 1i128 << (8 * k - 1);
            let v = match r.below(4) {
                0 => half - 1,
                1 => -half,
                2 => half,
                _ => -half - 1,
            };
            v.clamp(i64::MIN as i128, i64::MAX as i128) as i64
        }
        2 => (1u64 << r.below(64)) as i64,
        3 => -((1u64 << r.below(63)) as i64),
        4 => r.below(256) as i64 - 128,
        5 => r.below(70000) as i64 - 35000,
        _ => (r.u64() as i64) >> r.below(64),
    }
}
pub fn gen_arr(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1..=4 => r.below(8) as usize,
        5 | 6 => r.below(40) as usize,
        7 => r.below(300) as usize,
        8 => 254 + r.below(4) as usize,
        _ => r.len(max),
    }
    .min(max);
    match r.below(5) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|_| b'a' + r.below(2) as u8).collect(),
        3 => (0..n).map(|i| i as u8).collect(),
        _ => r.bytes(n),
    }
}

pub struct DirOpts {
    pub max_stores: u64,
    pub max_entries: u64,
    pub max_arr: usize,
    pub refs: bool,
    pub sort: bool,
    /// sort keys unique
    pub unique: bool,
}
impl Default for DirOpts {
    fn default() -> Self {
        DirOpts {
            max_stores: 3,
            max_entries: 40,
            max_arr: 3000,
            refs: true,
            sort: true,
            unique: false,
        }
    }
}

fn gen_props(r: &mut Rng, n: u64, nvs: usize, nst: usize, refs: bool, used: &mut Vec<&'static str>) -> Vec<Prop> {
    (0..n)
        .map(|_| {
            let kind = match r.below(if refs { 12 } else { 10 }) {
                0..=2 => Kind::U,
                3 | 4 => Kind::S,
                5..=7 if nvs > 0 => Kind::A {
                    fixed: match r.below(4) {
                        0 => 0,
                        1 => r.below(4) as usize,
                        _ => r.below(32) as usize,
                    },
                    vs: r.idx(nvs),
                },
                10 => Kind::RefU(r.idx(nst)),
                11 => Kind::RefS(r.idx(nst)),
                _ => Kind::C,
            };
            Prop { name: leak_name(r, used), kind }
        })
        .collect()
}

/// A column is constant, small, or freely varying.
pub fn gen_column(r: &mut Rng, p: &Prop, n: usize, slots: &[usize], store_lens: &[usize], max_arr: usize) -> Vec<V> {
    let shape = r.below(5);
    let one = |r: &mut Rng| match &p.kind {
        Kind::U => {
            let mut v = gen_u(r);
            if shape == 1 {
                v &= 0xff;
            }
            V::U(v)
        }
        Kind::S => {
            let mut v = gen_s(r);
            if shape == 1 {
                v = v as i8 as i64;
            }
            V::S(v)
        }
        Kind::A { .. } => V::A(gen_arr(r, if shape == 1 { 20 } else { max_arr })),
        Kind::C => {
            let live: Vec<usize> = (0..slots.len()).filter(|s| slots[*s] > 0).collect();
            if !live.is_empty() && r.chance(3, 4) {
                let s = *r.pick(&live);
                V::Ci(s, r.idx(slots[s]))
            } else {
                V::C(
                    match shape {
                        1 => 1,
                        2 => r.below(300) as u16,
                        _ => r.u64() as u16 >> r.below(16),
                    },
                    (r.u64() as u32) >> r.range(if shape == 1 { 20 } else { 0 }, 31),
                )
            }
        }
        Kind::RefU(s) | Kind::RefS(s) => V::Ref(r.idx(store_lens[*s])),
    };
    if shape == 0 {
        let v = one(r);
        vec![v; n]
    } else {
        (0..n).map(|_| one(r)).collect()
    }
}

/// `keep` is asked once per entry: the minimiser drops entries through it.
pub fn gen_dir(r: &mut Rng, o: &DirOpts, slots: &[usize], mut keep: impl FnMut() -> bool) -> Dir {
    let mut d = Dir { free: r.bytes(24).try_into().unwrap(), ..Default::default() };
    let nst = r.range(1, o.max_stores) as usize;
    for _ in 0..r.below(4) {
        d.vstores.push(if r.chance(1, 2) { Vs::Plain } else { Vs::Indexed });
    }
    let lens: Vec<usize> = (0..nst)
        .map(|_| match r.below(6) {
            0 => r.below(3) as usize,
            1..=4 => r.below(o.max_entries.min(20)) as usize + 1,
            _ => r.below(o.max_entries) as usize + 1,
        })
        .collect();
    // entries dropped by the minimiser
    let kept: Vec<Vec<bool>> = lens.iter().map(|n| (0..*n).map(|_| keep()).collect()).collect();
    let any_empty = lens.contains(&0) || kept.iter().any(|k| !k.contains(&true));
    for (s, n) in lens.iter().enumerate() {
        let mut used = vec![];
        let nc = r.below(6);
        let common = gen_props(r, nc, d.vstores.len(), nst, o.refs && !lens.contains(&0), &mut used);
        let nv = match r.below(4) {
            0 => 1,
            1 => r.below(5),
            _ => 0,
        };
        let mut variants = vec![];
        for v in 0..nv as usize {
            let mut vu = used.clone();
            let np = match r.below(5) {
                0 => 0,
                _ => r.range(1, 4),
            };
            variants.push((VNAMES[v], gen_props(r, np, d.vstores.len(), nst, o.refs && !lens.contains(&0), &mut vu)));
        }
        let ccols: Vec<Vec<V>> = common.iter().map(|p| gen_column(r, p, *n, slots, &lens, o.max_arr)).collect();
        let vcols: Vec<Vec<Vec<V>>> =
            variants.iter().map(|(_, ps)| ps.iter().map(|p| gen_column(r, p, *n, slots, &lens, o.max_arr)).collect()).collect();
        let mut entries = vec![];
        for i in 0..*n {
            let variant = if variants.is_empty() { 0 } else { r.idx(variants.len()) };
            let mut vals: Vec<V> = ccols.iter().map(|c| c[i].clone()).collect();
            if !variants.is_empty() {
                vals.extend(vcols[variant].iter().map(|c| c[i].clone()));
            }
            entries.push(Entry { variant, vals });
        }
        let keys: Vec<&'static str> =
            common.iter().filter(|p| matches!(p.kind, Kind::U | Kind::S | Kind::A { .. })).map(|p| p.name).collect();
        let sort = if o.sort && !keys.is_empty() && r.chance(1, 2) {
            let mut k = keys.clone();
            let m = r.range(1, k.len() as u64) as usize;
            for i in 0..k.len() {
                let j = i + r.idx(k.len() - i);
                k.swap(i, j);
            }
            k.truncate(m);
            Some(k)
        } else {
            None
        };
        let _ = s;
        d.stores.push(Store { common, variants, sort, entries });
    }
    // drop entries, remapping references
    if kept.iter().any(|k| k.contains(&false)) && !any_empty {
        let maps: Vec<Vec<usize>> = kept
            .iter()
            .map(|k| {
                let mut m = vec![];
                let mut c = 0usize;
                for b in k {
                    m.push(c);
                    if *b {
                        c += 1;
                    }
                }
                let live = c.max(1);
                m.iter().map(|x| x % live).collect()
            })
            .collect();
        for s in 0..d.stores.len() {
            let st = &mut d.stores[s];
            let ents = std::mem::take(&mut st.entries);
            let mut out = vec![];
            for (i, mut e) in ents.into_iter().enumerate() {
                if !kept[s][i] {
                    continue;
                }
                let props: Vec<Prop> = st.props(&e).into_iter().cloned().collect();
                for (p, v) in props.iter().zip(e.vals.iter_mut()) {
                    if let (V::Ref(t), Kind::RefU(ts) | Kind::RefS(ts)) = (&v, &p.kind) {
                        *v = V::Ref(maps[*ts][*t]);
                    }
                }
                out.push(e);
            }
            st.entries = out;
        }
    }
    if o.unique {
        for st in &mut d.stores {
            dedup_keys(st);
        }
    }
    // indexes: each store has a full window, and some have partial ones
    for s in 0..nst {
        let n = d.stores[s].entries.len() as u32;
        d.indexes.push(Index {
            name: format!("full{s}"),
            store: s,
            offset: 0,
            count: n,
            key: r.below(3) as u8,
            free: r.bytes(4).try_into().unwrap(),
        });
        for w in 0..r.below(3) {
            let off = r.below(n as u64 + 1) as u32;
            let cnt = r.below((n - off) as u64 + 1) as u32;
            d.indexes.push(Index {
                name: match r.below(3) {
                    0 => format!("w{w} of {s}"),
                    1 => format!("index/ü/{s}.{w}"),
                    _ => format!("{}{s}{w}", "n".repeat(r.below(240) as usize)),
                },
                store: s,
                offset: off,
                count: cnt,
                key: r.u64() as u8,
                free: r.bytes(4).try_into().unwrap(),
            });
        }
    }
    // the order in which indexes are declared is arbitrary
    for i in 0..d.indexes.len() {
        let j = i + r.idx(d.indexes.len() - i);
        d.indexes.swap(i, j);
    }
    d
}

/// Removes entries whose sort key equals an earlier one's.
pub fn dedup_keys(st: &mut Store) {
    if let Some(keys) = st.sort.clone() {
        let idx: Vec<usize> = keys.iter().map(|k| st.common.iter().position(|p| p.name == *k).unwrap()).collect();
        let mut seen = std::collections::BTreeSet::new();
        st.entries.retain(|e| seen.insert(format!("{:?}", idx.iter().map(|i| &e.vals[*i]).collect::<Vec<_>>())));
    }
}

/// Lexicographic comparison of two entries on the sort keys, as the statement
/// defines it (numbers numerically, arrays bytewise).
pub fn cmp_keys(st: &Store, a: &Entry, b: &Entry) -> std::cmp::Ordering {
    use std::cmp::Ordering::Equal;
    for k in st.sort.as_ref().unwrap() {
        let i = st.common.iter().position(|p| p.name == *k).unwrap();
        let o = match (&a.vals[i], &b.vals[i]) {
            (V::U(x), V::U(y)) => x.cmp(y),
            (V::S(x), V::S(y)) => x.cmp(y),
            (V::A(x), V::A(y)) => x.cmp(y),
            _ => Equal,
        };
        if o != Equal {
            return o;
        }
    }
    Equal
}
