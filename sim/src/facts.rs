//! What a reader reports about a container, as comparable data.

use crate::rt::quiet;
use jubako::reader::builder::{
    AnyBuilder, ArrayProperty, ContentProperty, IntProperty, PropertyBuilderTrait, SignedProperty,
};
use jubako::reader::{ByteRegion, Container, EntryTrait, ManifestPack, MayMissPack, PackInfo, Range};
use jubako::{ContentAddress, Pack, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    /// container level
    Top(&'static str),
    /// one pack, by id
    Pack(u16, &'static str),
    Index(String, &'static str),
    Entry(String, u32, String),
    Content(u16, u32, &'static str),
}

#[derive(Clone, PartialEq, Eq)]
pub enum F {
    U(u64),
    S(i64),
    B(Vec<u8>),
    C(u16, u32),
    T(String),
    /// length and hash of a content
    H(u64, [u8; 32]),
    /// "there is no such thing"
    None,
    /// "pack missing", with the description of the pack
    Missing(String),
    /// an error
    Err(String),
}
impl F {
    pub fn hash(b: &[u8]) -> F {
        F::H(b.len() as u64, *blake3::hash(b).as_bytes())
    }
    pub fn is_err(&self) -> bool {
        matches!(self, F::Err(_))
    }
}
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            F::U(v) => write!(f, "{v}"),
            F::S(v) => write!(f, "{v:+}"),
            F::B(v) if v.len() <= 24 => write!(f, "{v:02x?}"),
            F::B(v) => write!(f, "{} bytes {:02x?}.. #{:02x?}", v.len(), &v[..16], &blake3::hash(v).as_bytes()[..4]),
            F::C(p, c) => write!(f, "address {p}:{c}"),
            F::T(s) => write!(f, "{s:?}"),
            F::H(n, h) => write!(f, "{n} bytes #{:02x?}", &h[..4]),
            F::None => write!(f, "none"),
            F::Missing(s) => write!(f, "pack missing ({s})"),
            F::Err(e) => write!(f, "error ({})", e.chars().take(160).collect::<String>()),
        }
    }
}

pub type Facts = BTreeMap<K, F>;

// ------------------------------------------------------------------ transport

thread_local! {
    static NAMES: RefCell<BTreeSet<&'static str>> = RefCell::new(BTreeSet::new());
}
pub fn intern(s: &str) -> &'static str {
    // (quiet: which names are known depends on the runs before)
    quiet(|| {
        NAMES.with(|n| {
            let mut n = n.borrow_mut();
            if let Some(x) = n.get(s) {
                return *x;
            }
            let l: &'static str = Box::leak(s.to_string().into_boxed_str());
            n.insert(l);
            l
        })
    })
}

#[derive(Default)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    pub fn b(&mut self, v: &[u8]) {
        self.u(v.len() as u64);
        self.0.extend_from_slice(v);
    }
    pub fn facts(&mut self, f: &Facts) {
        self.u(f.len() as u64);
        for (k, v) in f {
            match k {
                K::Top(s) => {
                    self.u(0);
                    self.b(s.as_bytes());
                }
                K::Pack(p, s) => {
                    self.u(1);
                    self.u(*p as u64);
                    self.b(s.as_bytes());
                }
                K::Index(n, s) => {
                    self.u(2);
                    self.b(n.as_bytes());
                    self.b(s.as_bytes());
                }
                K::Entry(n, i, s) => {
                    self.u(3);
                    self.b(n.as_bytes());
                    self.u(*i as u64);
                    self.b(s.as_bytes());
                }
                K::Content(p, c, s) => {
                    self.u(4);
                    self.u(*p as u64);
                    self.u(*c as u64);
                    self.b(s.as_bytes());
                }
            }
            match v {
                F::U(x) => {
                    self.u(0);
                    self.u(*x);
                }
                F::S(x) => {
                    self.u(1);
                    self.u(*x as u64);
                }
                F::B(x) => {
                    self.u(2);
                    self.b(x);
                }
                F::C(p, c) => {
                    self.u(3);
                    self.u(*p as u64);
                    self.u(*c as u64);
                }
                F::T(x) => {
                    self.u(4);
                    self.b(x.as_bytes());
                }
                F::H(n, h) => {
                    self.u(5);
                    self.u(*n);
                    self.b(h);
                }
                F::None => self.u(6),
                F::Missing(x) => {
                    self.u(7);
                    self.b(x.as_bytes());
                }
                F::Err(x) => {
                    self.u(8);
                    self.b(x.as_bytes());
                }
            }
        }
    }
}

pub struct Dec<'a>(pub &'a [u8]);
impl<'a> Dec<'a> {
    pub fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    pub fn b(&mut self) -> &'a [u8] {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    pub fn s(&mut self) -> String {
        String::from_utf8_lossy(self.b()).into_owned()
    }
    pub fn facts(&mut self) -> Facts {
        let n = self.u();
        let mut f = Facts::new();
        for _ in 0..n {
            let k = match self.u() {
                0 => K::Top(intern(&self.s())),
                1 => K::Pack(self.u() as u16, intern(&self.s())),
                2 => K::Index(self.s(), intern(&self.s())),
                3 => K::Entry(self.s(), self.u() as u32, self.s()),
                _ => K::Content(self.u() as u16, self.u() as u32, intern(&self.s())),
            };
            let v = match self.u() {
                0 => F::U(self.u()),
                1 => F::S(self.u() as i64),
                2 => F::B(self.b().to_vec()),
                3 => F::C(self.u() as u16, self.u() as u32),
                4 => F::T(self.s()),
                5 => F::H(self.u(), self.b().try_into().unwrap()),
                6 => F::None,
                7 => F::Missing(self.s()),
                _ => F::Err(self.s()),
            };
            f.insert(k, v);
        }
        f
    }
}
pub fn enc(f: &Facts) -> Vec<u8> {
    let mut e = Enc::default();
    e.facts(f);
    e.0
}
pub fn dec(b: &[u8]) -> Facts {
    Dec(b).facts()
}

// ------------------------------------------------------------------ reading

/// What to look at.
#[derive(Clone, Default)]
pub struct Want {
    /// index names to look up
    pub names: Vec<String>,
    /// also reach the indexes by number, up to this many
    pub by_number: u32,
    /// content packs to visit
    pub packs: Vec<u16>,
    /// read at most this many contents of each pack (0: all)
    pub max_contents: u32,
    pub max_entries: u32,
    /// read the bytes of contents
    pub bytes: bool,
    /// read the pack descriptions of the manifest
    pub manifest: bool,
    /// run the container check
    pub check: bool,
    /// build typed property readers too
    pub typed: bool,
}

/// At most `max` (0: no limit) of the numbers below `n`: the first ones, the last one, some between.
pub fn spread(n: u32, max: u32) -> Vec<u32> {
    if max == 0 || n <= max {
        return (0..n).collect();
    }
    let a = max / 2;
    let b = max - a;
    (0..a).chain((1..=b).map(|k| a - 1 + ((n - a) as u64 * k as u64 / b as u64) as u32)).collect()
}

fn e2f<T, E: std::fmt::Display>(r: Result<T, E>, f: impl FnOnce(T) -> F) -> F {
    match r {
        Ok(v) => f(v),
        Err(e) => F::Err(format!("{e}")),
    }
}

pub fn value_fact(v: Value) -> F {
    match v {
        Value::Content(c) => F::C(c.pack_id.into_u16(), c.content_id.into_u32()),
        Value::Unsigned(v) => F::U(v),
        Value::Signed(v) => F::S(v),
        Value::Array(b) => F::B(b.as_ref().to_vec()),
        _ => F::T("deferred value".into()),
    }
}

pub fn describe_pack(p: &PackInfo) -> String {
    format!(
        "uuid {} size {} id {} kind {:?} location {:?}",
        p.uuid,
        p.pack_size.into_u64(),
        p.pack_id.into_u16(),
        p.pack_kind,
        p.pack_location.as_str()
    )
}

/// All bytes of a region, through its stream.
pub fn region_bytes(r: &ByteRegion) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    r.stream().read_to_end(&mut v).map_err(|e| format!("{e}"))?;
    Ok(v)
}

pub fn addr(p: u16, c: u32) -> ContentAddress {
    ContentAddress::new(p.into(), c.into())
}

/// Contents asked for past the count: there is no such content.
pub fn past_end(n: u32) -> Vec<u32> {
    let mut v = vec![n, n.saturating_add(1), n | 0xfff, n.saturating_add(4096), n.saturating_mul(4) | 1 << 16, 0xff_ffff, u32::MAX - 1, u32::MAX];
    v.retain(|x| *x >= n);
    v.sort();
    v.dedup();
    v
}

/// The fact for the bytes of one content.
pub fn content_fact(c: &Container, p: u16, i: u32) -> (F, F) {
    match c.get_bytes(addr(p, i)) {
        Err(e) => (F::Err(format!("{e}")), F::Err(format!("{e}"))),
        Ok(None) => (F::T("no such pack".into()), F::None),
        Ok(Some(MayMissPack::MISSING(i))) => (F::Missing(describe_pack(&i)), F::None),
        Ok(Some(MayMissPack::FOUND(None))) => (F::None, F::None),
        Ok(Some(MayMissPack::FOUND(Some(r)))) => {
            let n = r.size().into_u64();
            let f = match region_bytes(&r) {
                Ok(v) => quiet(|| F::hash(&v)),
                Err(e) => F::Err(e),
            };
            (f, F::U(n))
        }
    }
}

pub fn read_manifest(path: &str, f: &mut Facts) {
    let r = (|| -> Result<(), String> {
        let cp = jubako::tools::open_pack(path).map_err(|e| format!("{e}"))?;
        let rd = cp
            .get_manifest_pack_reader()
            .map_err(|e| format!("{e}"))?
            .ok_or("no manifest pack")?;
        let m = ManifestPack::new(rd).map_err(|e| format!("{e}"))?;
        f.insert(K::Top("manifest.uuid"), F::T(m.uuid().to_string()));
        f.insert(K::Top("manifest.count"), F::U(m.pack_count().into_u16() as u64));
        f.insert(K::Top("manifest.free"), F::B(m.get_free_data().to_vec()));
        f.insert(K::Top("manifest.check"), e2f(m.check(), |b| F::U(b as u64)));
        f.insert(K::Top("manifest.size"), F::U(m.size().into_u64()));
        f.insert(K::Top("manifest.max_id"), F::U(m.max_id() as u64));
        let mut put = |id: u16, p: &PackInfo| {
            f.insert(K::Pack(id, "uuid"), F::T(p.uuid.to_string()));
            f.insert(K::Pack(id, "size"), F::U(p.pack_size.into_u64()));
            f.insert(K::Pack(id, "kind"), F::T(format!("{:?}", p.pack_kind)));
            f.insert(K::Pack(id, "group"), F::U(p.pack_group as u64));
            f.insert(K::Pack(id, "location"), F::T(p.pack_location.as_str().into()));
            f.insert(K::Pack(id, "free_id"), F::U(p.free_data_id.into_u64()));
            f.insert(
                K::Pack(id, "check_info"),
                e2f(m.get_pack_check_info(p.uuid), |c| match c {
                    None => F::None,
                    Some(c) => F::T(hash_in(&format!("{c:?}"))),
                }),
            );
            f.insert(
                K::Pack(id, "free"),
                e2f(m.get_pack_free_data_uuid(p.uuid), |c| match c {
                    None => F::None,
                    Some(c) => F::B(c.to_vec()),
                }),
            );
        };
        put(0, m.get_directory_pack_info());
        for p in m.get_pack_infos() {
            put(p.pack_id.into_u16(), p);
        }
        Ok(())
    })();
    if let Err(e) = r {
        f.insert(K::Top("manifest"), F::Err(e));
    }
}

/// Entries of one index, through its handle.
pub fn read_index(c: &Container, name: &str, ix: &jubako::reader::Index, w: &Want, f: &mut Facts) {
    f.insert(K::Index(name.into(), "count"), F::U(ix.count().into_u32() as u64));
    f.insert(K::Index(name.into(), "offset"), F::U(ix.offset().into_u32() as u64));
    f.insert(K::Index(name.into(), "store"), F::U(ix.get_store_id().into_u64()));
    let store = match ix.get_store(c.get_entry_storage()) {
        Ok(s) => s,
        Err(e) => {
            f.insert(K::Index(name.into(), "entries"), F::Err(format!("{e}")));
            return;
        }
    };
    let vs = c.get_value_storage();
    let builder = match AnyBuilder::new(store.clone(), &**vs) {
        Ok(b) => b,
        Err(e) => {
            f.insert(K::Index(name.into(), "entries"), F::Err(format!("{e}")));
            return;
        }
    };
    let layout = store.layout();
    let common: Vec<String> = {
        let mut v: Vec<String> = layout.common.iter().map(|(n, _)| n.as_str().to_string()).collect();
        v.sort();
        v
    };
    let mut variants: Vec<(String, Vec<String>)> = vec![];
    if let Some(vp) = &layout.variant_part {
        for (i, p) in vp.variants.iter().enumerate() {
            let vn = vp.names.iter().find(|(_, x)| **x as usize == i).map(|(n, _)| n.as_str().to_string());
            let mut v: Vec<String> = p.iter().map(|(n, _)| n.as_str().to_string()).collect();
            v.sort();
            variants.push((vn.unwrap_or_else(|| format!("?{i}")), v));
        }
    }
    let count = ix.count().into_u32();
    for i in spread(count, w.max_entries).into_iter().chain([count]) {
        let key = |s: &str| K::Entry(name.to_string(), i, s.to_string());
        let e = match ix.get_entry(&builder, i.into()) {
            Ok(Some(e)) => e,
            Ok(None) => {
                f.insert(key("#entry"), F::None);
                continue;
            }
            Err(e) => {
                f.insert(key("#entry"), F::Err(format!("{e}")));
                continue;
            }
        };
        if i >= count {
            f.insert(key("#entry"), F::T("an entry beyond the window".into()));
            continue;
        }
        let mut props = common.clone();
        let mut vid = None;
        match e.get_variant_id() {
            Ok(None) => {}
            Ok(Some(v)) => {
                let v = v.into_u8() as usize;
                vid = Some(v);
                match variants.get(v) {
                    Some((vn, ps)) => {
                        f.insert(key("#variant"), F::T(vn.clone()));
                        props.extend(ps.iter().cloned());
                    }
                    None => {
                        f.insert(key("#variant"), F::T(format!("unknown variant {v}")));
                    }
                }
            }
            Err(e) => {
                f.insert(key("#variant"), F::Err(format!("{e}")));
            }
        }
        for p in &props {
            let v = match e.get_value(p) {
                Ok(None) => F::None,
                Ok(Some(r)) => e2f(r.get(), value_fact),
                Err(e) => F::Err(format!("{e}")),
            };
            f.insert(key(p), v);
        }
        if w.typed {
            let at = (ix.offset().into_u32() + i).into();
            let Some(rd) = store.get_entry_reader(at) else {
                f.insert(key("#typed"), F::T("typed reader has no such entry".into()));
                continue;
            };
            for p in &props {
                let lp = match layout.common.iter().find(|(n, _)| n.as_str() == p.as_str()) {
                    Some((_, l)) => l,
                    None => match &layout.variant_part {
                        Some(vp) => match vp.variants[vid.unwrap()].iter().find(|(n, _)| n.as_str() == p.as_str()) {
                            Some((_, l)) => l,
                            None => continue,
                        },
                        None => continue,
                    },
                };
                let v: Result<F, String> = (|| {
                    let es = |e: jubako::Error| format!("{e}");
                    if let Some(b) = lp.as_builder::<IntProperty, _>(&**vs).map_err(es)? {
                        return Ok(F::U(b.create(&rd).map_err(es)?));
                    }
                    if let Some(b) = lp.as_builder::<SignedProperty, _>(&**vs).map_err(es)? {
                        return Ok(F::S(b.create(&rd).map_err(es)?));
                    }
                    if let Some(b) = lp.as_builder::<ContentProperty, _>(&**vs).map_err(es)? {
                        let c = b.create(&rd).map_err(es)?;
                        return Ok(F::C(c.pack_id.into_u16(), c.content_id.into_u32()));
                    }
                    if let Some(b) = lp.as_builder::<ArrayProperty, _>(&**vs).map_err(es)? {
                        let a = b.create(&rd).map_err(es)?;
                        let mut v = jubako::SmallBytes::new();
                        a.resolve_to_vec(&mut v).map_err(es)?;
                        if let Some(n) = a.size() {
                            if n != v.len() {
                                return Err(format!("array announces {n} bytes, yields {}", v.len()));
                            }
                        }
                        return Ok(F::B(v.as_ref().to_vec()));
                    }
                    Err("no typed reader accepts this property".into())
                })();
                let v = match v {
                    Ok(v) => v,
                    Err(e) => F::Err(e),
                };
                let any = f.get(&key(p)).cloned();
                if any.as_ref() != Some(&v) && !(v.is_err() && any.as_ref().is_some_and(|a| a.is_err())) {
                    f.insert(key(&format!("{p}#typed")), v);
                }
            }
        }
    }
}

pub fn read_container(c: &Container, w: &Want, f: &mut Facts) {
    f.insert(K::Top("uuid"), F::T(c.uuid().to_string()));
    f.insert(K::Top("pack_count"), F::U(c.pack_count().into_u16() as u64));
    f.insert(K::Top("dir.free"), F::B(c.get_directory_pack().get_free_data().to_vec()));
    for name in &w.names {
        match c.get_index_for_name(name) {
            Err(e) => {
                f.insert(K::Index(name.clone(), "count"), F::Err(format!("{e}")));
            }
            Ok(None) => {
                f.insert(K::Index(name.clone(), "count"), F::None);
            }
            Ok(Some(ix)) => read_index(c, name, &ix, w, f),
        }
    }
    for i in 0..w.by_number {
        let n = format!("#{i}");
        match c.get_directory_pack().get_index(i.into()) {
            Err(e) => {
                f.insert(K::Index(n, "count"), F::Err(format!("{e}")));
            }
            Ok(ix) => read_index(c, &n, &ix, w, f),
        }
    }
    for p in &w.packs {
        let n = match c.get_pack((*p).into()) {
            Err(e) => {
                f.insert(K::Pack(*p, "count"), F::Err(format!("{e}")));
                continue;
            }
            Ok(None) => {
                f.insert(K::Pack(*p, "count"), F::None);
                continue;
            }
            Ok(Some(MayMissPack::MISSING(i))) => {
                f.insert(K::Pack(*p, "count"), F::Missing(describe_pack(&i)));
                continue;
            }
            Ok(Some(MayMissPack::FOUND(cp))) => {
                f.insert(K::Pack(*p, "pack.free"), F::B(cp.get_free_data().to_vec()));
                cp.get_content_count().into_u32()
            }
        };
        f.insert(K::Pack(*p, "count"), F::U(n as u64));
        for i in spread(n, w.max_contents).into_iter().chain(past_end(n)) {
            if w.bytes || i >= n {
                let (b, s) = content_fact(c, *p, i);
                f.insert(K::Content(*p, i, "bytes"), b);
                if s != F::None {
                    f.insert(K::Content(*p, i, "size"), s);
                }
            }
        }
    }
    if w.check {
        f.insert(K::Top("check"), e2f(c.check(), |b| F::U(b as u64)));
    }
}

/// Everything `w` asks about the container at `path`.
/// The only way to see a check info is its Debug implementation: whatever that is, the hash is in it.
fn hash_in(t: &str) -> String {
    let run = t.split(|c: char| !c.is_ascii_hexdigit()).find(|w| w.len() == 64);
    run.unwrap_or("no hash").to_string()
}

pub fn read_all(path: &str, w: &Want) -> Facts {
    let mut f = Facts::new();
    match Container::new(path) {
        Err(e) => {
            f.insert(K::Top("open"), F::Err(format!("{e}")));
        }
        Ok(c) => read_container(&c, w, &mut f),
    }
    if w.manifest {
        read_manifest(path, &mut f);
    }
    f
}

/// First difference between what was expected and what was read (facts absent
/// from `want` are not judged).
pub fn first_diff(want: &Facts, got: &Facts) -> Option<String> {
    if let Some(e) = got.get(&K::Top("open")) {
        return Some(format!("opening the container fails: {e:?}"));
    }
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("{k:?}: nothing was read, expected {v:?}")),
            Some(g) if g != v => return Some(format!("{k:?}: read {g:?}, expected {v:?}")),
            _ => {}
        }
    }
    None
}

/// Entry-level facts that were read although nothing of the kind was written.
pub fn extra_entry(want: &Facts, got: &Facts) -> Option<String> {
    for (k, v) in got {
        if let K::Entry(n, _, _) = k {
            if !want.contains_key(k) && want.contains_key(&K::Index(n.clone(), "count")) {
                return Some(format!("{k:?}: read {v:?}, which was never written"));
            }
        }
    }
    None
}
