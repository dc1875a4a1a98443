//! Independent decoder of the on-disk layout.  It shares no code with jubako:
//! it follows the documents under /repo/spec and, where these are silent or
//! disagree with the pinned version, the bytes the pinned version writes.

use crate::facts::{past_end, Facts, F, K};
use std::collections::BTreeMap;
use std::io::Read;

pub type Es<T> = Result<T, String>;

const fn crc_table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = (i as u32) << 24;
        let mut k = 0;
        while k < 8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x1EDC_6F41 } else { c << 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
static TABLE: [u32; 256] = crc_table();
/// CRC-32C polynomial, not reflected, all-ones start, no final xor.
pub fn crc(b: &[u8]) -> u32 {
    let mut c = 0xFFFF_FFFFu32;
    for x in b {
        c = (c << 8) ^ TABLE[((c >> 24) as u8 ^ x) as usize];
    }
    c
}

/// A checksummed block: `len` bytes at `at` of the file, then 4 bytes of CRC.
#[derive(Clone, Debug)]
pub struct Block {
    pub at: usize,
    pub len: usize,
    pub what: &'static str,
}

#[derive(Clone, Debug, Default)]
pub struct Cluster {
    pub comp: u8,
    /// where the stored bytes are in the file
    pub raw_at: usize,
    pub raw_len: usize,
    pub data_size: usize,
    /// (start, end) of each blob in the plain data
    pub blobs: Vec<(usize, usize)>,
}
#[derive(Clone, Debug, Default)]
pub struct ContentBody {
    pub clusters: Vec<Cluster>,
    /// (cluster, blob)
    pub infos: Vec<(u32, u16)>,
    pub free: Vec<u8>,
}
#[derive(Clone, Debug)]
pub enum PK {
    Pad,
    Content { pack: usize, id: usize, def: Option<u16> },
    Int { size: usize, signed: bool, def: Option<Vec<u8>> },
    Arr { len: usize, fixed: usize, key: usize, store: usize, def: Option<Vec<u8>> },
    Variant,
}
#[derive(Clone, Debug)]
pub struct Key {
    pub name: String,
    pub kind: PK,
    /// bytes it takes in an entry
    pub size: usize,
}
#[derive(Clone, Debug, Default)]
pub struct EStore {
    pub count: usize,
    pub size: usize,
    pub data_at: usize,
    pub common: Vec<Key>,
    pub variants: Vec<(String, Vec<Key>)>,
}
#[derive(Clone, Debug, Default)]
pub struct VStore {
    pub indexed: bool,
    pub at: usize,
    pub size: usize,
    /// starts of the values, and the end
    pub offs: Vec<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct DIndex {
    pub name: String,
    pub store: u32,
    pub count: u32,
    pub offset: u32,
    pub key: u8,
    pub free: [u8; 4],
}
#[derive(Clone, Debug, Default)]
pub struct DirBody {
    pub indexes: Vec<DIndex>,
    pub stores: Vec<EStore>,
    pub values: Vec<VStore>,
    pub free: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Info {
    /// in the file
    pub at: usize,
    pub uuid: [u8; 16],
    pub size: u64,
    pub check: (u64, usize),
    pub id: u16,
    pub kind: u8,
    pub group: u8,
    pub free_id: u16,
    pub location: String,
}
#[derive(Clone, Debug, Default)]
pub struct ManBody {
    pub infos: Vec<Info>,
    pub values: Option<VStore>,
    pub free: Vec<u8>,
}
#[derive(Clone, Debug)]
pub enum Body {
    Container(Vec<([u8; 16], usize, usize)>),
    Manifest(ManBody),
    Directory(DirBody),
    Content(ContentBody),
}
#[derive(Clone, Debug)]
pub struct DPack {
    pub at: usize,
    pub size: usize,
    pub kind: u8,
    pub vendor: [u8; 4],
    pub uuid: [u8; 16],
    /// end of the bytes the pack's checksum covers
    pub check_at: usize,
    pub check_kind: u8,
    pub blocks: Vec<Block>,
    pub body: Body,
}
impl DPack {
    pub fn content(&self) -> Option<&ContentBody> {
        match &self.body {
            Body::Content(c) => Some(c),
            _ => None,
        }
    }
    pub fn dir(&self) -> Option<&DirBody> {
        match &self.body {
            Body::Directory(c) => Some(c),
            _ => None,
        }
    }
    pub fn man(&self) -> Option<&ManBody> {
        match &self.body {
            Body::Manifest(c) => Some(c),
            _ => None,
        }
    }
}

pub fn uuid_text(u: &[u8; 16]) -> String {
    let h: String = u.iter().map(|b| format!("{b:02x}")).collect();
    format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
}

struct Cur<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Es<&'a [u8]> {
        let s = self.b.get(self.i..self.i.checked_add(n).ok_or("huge")?).ok_or(format!("{n} bytes at {} of a block of {}", self.i, self.b.len()))?;
        self.i += n;
        Ok(s)
    }
    fn le(&mut self, n: usize) -> Es<u64> {
        Ok(le(self.take(n)?))
    }
    fn zero(&mut self, n: usize, what: &str, p: &mut Vec<String>) -> Es<()> {
        if self.take(n)?.iter().any(|b| *b != 0) {
            p.push(format!("{what}: reserved bytes are not zero"));
        }
        Ok(())
    }
    fn pstring(&mut self) -> Es<String> {
        let n = self.le(1)? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|_| "a string is not UTF-8".to_string())
    }
    fn end(&self, what: &str, p: &mut Vec<String>) {
        if self.i != self.b.len() {
            p.push(format!("{what}: {} of {} bytes used", self.i, self.b.len()));
        }
    }
}
pub fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}
fn sle(b: &[u8]) -> i64 {
    let v = le(b);
    let n = 8 * b.len() as u32;
    if n == 0 || n >= 64 {
        v as i64
    } else {
        ((v << (64 - n)) as i64) >> (64 - n)
    }
}
fn sized(v: u64) -> (usize, usize) {
    ((v >> 16) as usize, (v & 0xffff) as usize)
}

/// Decodes packs of one file.
pub struct Decoder<'a> {
    pub file: &'a [u8],
    pub problems: Vec<String>,
    /// written by the pinned version, which did not count the check block in the size of a container pack
    pub old: bool,
}

impl<'a> Decoder<'a> {
    pub fn new(file: &'a [u8]) -> Self {
        Decoder { file, problems: vec![], old: false }
    }

    fn block(&mut self, blocks: &mut Vec<Block>, at: usize, len: usize, what: &'static str) -> Es<Cur<'a>> {
        let end = at.checked_add(len).and_then(|x| x.checked_add(4)).ok_or("huge")?;
        let all = self.file.get(at..end).ok_or(format!("{what}: {len} bytes at {at} are out of the file"))?;
        let c = u32::from_be_bytes(all[len..].try_into().unwrap());
        if crc(&all[..len]) != c {
            return Err(format!("{what} at {at}: wrong CRC"));
        }
        blocks.push(Block { at, len, what });
        Ok(Cur { b: &all[..len], i: 0 })
    }

    /// The outermost pack of the file and the packs inside.
    pub fn all(&mut self) -> Es<Vec<DPack>> {
        let n = self.file.len();
        let first = match self.pack(0) {
            Ok(p) => p,
            Err(e) => {
                // the pack may be at the end: the tail mirrors its header
                let mut h = self.file.get(n.wrapping_sub(64)..).ok_or(e.clone())?.to_vec();
                h.reverse();
                if &h[..3] != b"jbk" {
                    return Err(e);
                }
                let size = le(&h[32..40]) as usize;
                self.pack(n.checked_sub(size).ok_or("size beyond the file")?)?
            }
        };
        let mut v = vec![];
        if let Body::Container(locs) = &first.body {
            let locs = locs.clone();
            let base = first.at;
            let mut spans: Vec<(usize, usize)> = vec![];
            for (u, at, size) in &locs {
                let p = self.pack(base + at)?;
                if p.uuid != *u {
                    self.problems.push(format!("locator {} points to pack {}", uuid_text(u), uuid_text(&p.uuid)));
                }
                if p.size != *size {
                    self.problems.push(format!("locator says {size} bytes, pack {} has {}", uuid_text(u), p.size));
                }
                if matches!(p.body, Body::Container(_)) {
                    self.problems.push("a container in a container".into());
                }
                spans.push((*at, at + size));
                v.push(p);
            }
            spans.sort();
            if spans.windows(2).any(|w| w[0].1 > w[1].0) || spans.iter().any(|s| s.1 > first.size - 64 || s.0 < 128) {
                self.problems.push(format!("packs of a container overlap or leave it: {spans:?}"));
            }
        }
        v.insert(0, first);
        Ok(v)
    }

    pub fn pack(&mut self, at: usize) -> Es<DPack> {
        let mut blocks = vec![];
        let mut c = self.block(&mut blocks, at, 60, "pack header")?;
        let magic = c.take(4)?;
        if &magic[..3] != b"jbk" {
            return Err(format!("magic {magic:02x?}"));
        }
        let kind = magic[3];
        let vendor: [u8; 4] = c.take(4)?.try_into().unwrap();
        let ver = (c.le(1)?, c.le(1)?);
        if ver != (0, 2) {
            return Err(format!("version {ver:?}"));
        }
        let uuid: [u8; 16] = c.take(16)?.try_into().unwrap();
        if c.le(1)? != 0 {
            self.problems.push("flags of a pack are not zero".into());
        }
        c.zero(5, "pack header", &mut self.problems)?;
        let mut size = c.le(8)? as usize;
        let check = c.le(8)? as usize;
        if self.old && kind == b'C' && check + 64 == size {
            size += 5;
        }
        c.zero(12, "pack header", &mut self.problems)?;
        let end = at.checked_add(size).ok_or("huge pack")?;
        let whole = self.file.get(at..end).ok_or(format!("pack of {size} bytes at {at} of a file of {}", self.file.len()))?;
        if size < 128 + 64 {
            return Err(format!("pack of {size} bytes"));
        }
        // the tail mirrors the header
        if !whole[..64].iter().eq(whole[size - 64..].iter().rev()) {
            self.problems.push(format!("the tail of the pack at {at} does not mirror its header"));
        }
        let cl = size.checked_sub(64 + 4).and_then(|x| x.checked_sub(check)).ok_or("check position beyond the pack")?;
        let mut c = self.block(&mut blocks, at + check, cl, "check info")?;
        let check_kind = c.le(1)? as u8;
        let want_check = if kind == b'C' { 0 } else { 1 };
        if check_kind != want_check {
            self.problems.push(format!("check kind {check_kind} in a pack of kind {}", kind as char));
        }
        let hash: Option<[u8; 32]> = if check_kind == 1 { Some(c.take(32)?.try_into().unwrap()) } else { None };
        c.end("check info", &mut self.problems);
        let body = match kind {
            b'C' => self.container(at, check, &mut blocks)?,
            b'm' => self.manifest(at, check, &mut blocks)?,
            b'd' => self.directory(at, &mut blocks)?,
            b'c' => self.content(at, &mut blocks)?,
            k => return Err(format!("pack of kind {k}")),
        };
        if let Some(h) = hash {
            let mut covered = whole[..check].to_vec();
            if let Body::Manifest(m) = &body {
                for i in &m.infos {
                    covered[i.at - at + 38..i.at - at + 256].fill(0);
                }
            }
            if *blake3::hash(&covered).as_bytes() != h {
                self.problems.push(format!("the checksum of the pack at {at} (kind {}) is wrong", kind as char));
            }
        }
        // every block lies in the pack
        if blocks.iter().any(|b| b.at < at || b.at + b.len + 4 > end) {
            self.problems.push(format!("a block of the pack at {at} is outside of it"));
        }
        Ok(DPack { at, size, kind, vendor, uuid, check_at: at + check, check_kind, blocks, body })
    }

    fn container(&mut self, at: usize, check: usize, blocks: &mut Vec<Block>) -> Es<Body> {
        let mut c = self.block(blocks, at + 64, 60, "container header")?;
        let pos = c.le(8)? as usize;
        let n = c.le(2)? as usize;
        c.zero(26, "container header", &mut self.problems)?;
        let mut v = vec![];
        for i in 0..n {
            let mut c = self.block(blocks, at + pos + i * 36, 32, "pack locator")?;
            let u: [u8; 16] = c.take(16)?.try_into().unwrap();
            let size = c.le(8)? as usize;
            let p = c.le(8)? as usize;
            v.push((u, p, size));
        }
        if pos + n * 36 != check {
            self.problems.push(format!("the check block at {check} does not follow the locators ({n} at {pos})"));
        }
        Ok(Body::Container(v))
    }

    fn value_store(&mut self, blocks: &mut Vec<Block>, tail: usize, len: usize) -> Es<VStore> {
        let mut c = self.block(blocks, tail, len, "value store tail")?;
        let mut s = VStore::default();
        match c.le(1)? {
            0 => {
                s.size = c.le(8)? as usize;
            }
            1 => {
                s.indexed = true;
                let n = c.le(8)? as usize;
                let w = c.le(1)? as usize;
                if !(1..=8).contains(&w) {
                    return Err(format!("offsets of {w} bytes"));
                }
                s.size = c.le(w)? as usize;
                let mut last = 0;
                for i in 0..n {
                    let o = if i == 0 { 0 } else { c.le(w)? as usize };
                    if o < last || o > s.size {
                        return Err(format!("value {i} starts at {o}, after one at {last}, of {}", s.size));
                    }
                    last = o;
                    s.offs.push(o);
                }
                s.offs.push(s.size);
            }
            k => return Err(format!("value store of kind {k}")),
        }
        c.end("value store tail", &mut self.problems);
        s.at = tail.checked_sub(s.size).and_then(|x| x.checked_sub(4)).ok_or("value store before the file")?;
        self.block(blocks, s.at, s.size, "value store data")?;
        Ok(s)
    }

    fn manifest(&mut self, at: usize, check: usize, blocks: &mut Vec<Block>) -> Es<Body> {
        let mut c = self.block(blocks, at + 64, 60, "manifest header")?;
        let n = c.le(2)? as usize;
        let vs = sized(c.le(8)?);
        c.zero(26, "manifest header", &mut self.problems)?;
        let mut m = ManBody { free: c.take(24)?.to_vec(), ..Default::default() };
        if vs != (0, 0) {
            m.values = Some(self.value_store(blocks, at + vs.0, vs.1)?);
        } else {
            self.problems.push("no value store in the manifest".into());
        }
        let mut seen_dir = 0;
        for i in 0..n {
            let ia = (at + check).checked_sub((n - i) * 256).ok_or("pack infos before the pack")?;
            let mut c = self.block(blocks, ia, 252, "pack info")?;
            let uuid: [u8; 16] = c.take(16)?.try_into().unwrap();
            let size = c.le(8)?;
            let ck = sized(c.le(8)?);
            let id = c.le(2)? as u16;
            let kind = c.le(1)? as u8;
            let group = c.le(1)? as u8;
            let free_id = c.le(2)? as u16;
            let location = c.pstring()?;
            if location.len() > 213 {
                return Err("location too long".into());
            }
            c.take(213 - location.len())?;
            match kind {
                b'd' => {
                    seen_dir += 1;
                    if id != 0 {
                        self.problems.push(format!("directory pack with id {id}"));
                    }
                }
                b'c' => {}
                k => self.problems.push(format!("pack info of kind {k}")),
            }
            // the copy of the pack's check info
            // (older creators counted the CRC in its size)
            let len = if self.old && matches!(ck.1, 5 | 37) { ck.1 - 4 } else { ck.1 };
            let mut c = self.block(blocks, at + ck.0, len, "copied check info")?;
            let k = c.le(1)?;
            if !(k == 0 && len == 1 || k == 1 && len == 33) {
                self.problems.push(format!("copied check info of kind {k} has {} bytes", ck.1));
            }
            m.infos.push(Info { at: ia, uuid, size, check: (at as u64 + ck.0 as u64, len + 4), id, kind, group, free_id, location });
        }
        if seen_dir != 1 {
            self.problems.push(format!("{seen_dir} directory packs in the manifest"));
        }
        Ok(Body::Manifest(m))
    }

    fn content(&mut self, at: usize, blocks: &mut Vec<Block>) -> Es<Body> {
        let mut c = self.block(blocks, at + 64, 60, "content pack header")?;
        let ip = c.le(8)? as usize;
        let cp = c.le(8)? as usize;
        let n = c.le(4)? as usize;
        let k = c.le(4)? as usize;
        c.zero(12, "content pack header", &mut self.problems)?;
        let mut b = ContentBody { free: c.take(24)?.to_vec(), ..Default::default() };
        let mut c = self.block(blocks, at + cp, k * 8, "cluster pointers")?;
        for _ in 0..k {
            let (tp, tl) = sized(c.le(8)?);
            let mut t = self.block(blocks, at + tp, tl, "cluster tail")?;
            let comp = t.le(1)? as u8;
            if comp > 3 {
                return Err(format!("cluster compression {comp}"));
            }
            let w = t.le(1)? as usize;
            if !(1..=8).contains(&w) {
                return Err(format!("cluster offsets of {w} bytes"));
            }
            let bc = t.le(2)? as usize;
            let raw_len = t.le(w)? as usize;
            let data_size = t.le(w)? as usize;
            let mut offs = vec![0];
            for _ in 1..bc {
                offs.push(t.le(w)? as usize);
            }
            offs.push(data_size);
            t.end("cluster tail", &mut self.problems);
            if bc == 0 || bc > 4096 {
                self.problems.push(format!("a cluster of {bc} blobs"));
            }
            if offs.windows(2).any(|x| x[0] > x[1]) {
                return Err("blob offsets are not in order".into());
            }
            if comp == 0 && raw_len != data_size {
                self.problems.push(format!("an uncompressed cluster stores {raw_len} bytes for {data_size}"));
            }
            let raw_at = (at + tp).checked_sub(raw_len).ok_or("cluster before the file")?;
            if raw_at < at + 128 {
                return Err("cluster before its pack".into());
            }
            b.clusters.push(Cluster { comp, raw_at, raw_len, data_size, blobs: offs.windows(2).map(|x| (x[0], x[1])).collect() });
        }
        let mut c = self.block(blocks, at + ip, n * 4, "content infos")?;
        for i in 0..n {
            let v = c.le(4)? as u32;
            let (cl, bl) = (v >> 12, (v & 0xfff) as u16);
            if cl as usize >= k || bl as usize >= b.clusters[cl as usize].blobs.len() {
                return Err(format!("content {i} is blob {bl} of cluster {cl}, of {k}"));
            }
            b.infos.push((cl, bl));
        }
        Ok(Body::Content(b))
    }

    fn key(&mut self, c: &mut Cur<'a>) -> Es<Key> {
        let b = c.le(1)? as u8;
        let (t, s) = (b >> 4, (b & 15) as usize);
        let mut name = String::new();
        let (kind, size) = match t {
            0 => (PK::Pad, s + 1),
            1 => {
                let pack = (s >> 2 & 1) + 1;
                let id = (s & 3) + 1;
                let def = if s & 8 != 0 { Some(c.le(pack)? as u16) } else { None };
                name = c.pstring()?;
                (PK::Content { pack, id, def }, id + if def.is_some() { 0 } else { pack })
            }
            2 | 3 => {
                let size = (s & 7) + 1;
                let def = if s & 8 != 0 { Some(c.take(size)?.to_vec()) } else { None };
                name = c.pstring()?;
                let n = if def.is_some() { 0 } else { size };
                (PK::Int { size, signed: t == 3, def }, n)
            }
            5 => {
                let len = s & 3;
                if s & 4 != 0 {
                    self.problems.push("reserved bit of an array key is set".into());
                }
                let x = c.le(1)? as usize;
                let (key, fixed) = (x >> 5, x & 31);
                let store = if key != 0 { c.le(1)? as usize } else { 0 };
                let all = len + fixed + key;
                let def = if s & 8 != 0 { Some(c.take(all)?.to_vec()) } else { None };
                name = c.pstring()?;
                let n = if def.is_some() { 0 } else { all };
                (PK::Arr { len, fixed, key, store, def }, n)
            }
            8 => {
                if s != 0 {
                    self.problems.push("low bits of a variant identifier are set".into());
                }
                name = c.pstring()?;
                (PK::Variant, 1)
            }
            t => return Err(format!("key of type {t}")),
        };
        Ok(Key { name, kind, size })
    }

    fn directory(&mut self, at: usize, blocks: &mut Vec<Block>) -> Es<Body> {
        let mut c = self.block(blocks, at + 64, 60, "directory pack header")?;
        let (ip, ep, vp) = (c.le(8)? as usize, c.le(8)? as usize, c.le(8)? as usize);
        let (ni, ne, nv) = (c.le(4)? as usize, c.le(4)? as usize, c.le(1)? as usize);
        c.zero(3, "directory pack header", &mut self.problems)?;
        let mut d = DirBody { free: c.take(24)?.to_vec(), ..Default::default() };
        let mut c = self.block(blocks, at + vp, nv * 8, "value store pointers")?;
        for _ in 0..nv {
            let (p, l) = sized(c.le(8)?);
            let s = self.value_store(blocks, at + p, l)?;
            d.values.push(s);
        }
        let mut c = self.block(blocks, at + ep, ne * 8, "entry store pointers")?;
        for _ in 0..ne {
            let (p, l) = sized(c.le(8)?);
            let mut t = self.block(blocks, at + p, l, "entry store tail")?;
            let k = t.le(1)?;
            if k != 0 {
                return Err(format!("entry store of kind {k}"));
            }
            let mut s = EStore { count: t.le(4)? as usize, ..Default::default() };
            let flag = t.le(1)?;
            if flag != 0 {
                return Err(format!("entry store with flags {flag}"));
            }
            s.size = t.le(2)? as usize;
            let nvar = t.le(1)? as usize;
            let nk = t.le(1)? as usize;
            for _ in 0..nk {
                let k = self.key(&mut t)?;
                if matches!(k.kind, PK::Variant) {
                    s.variants.push((k.name, vec![]));
                } else if let Some((_, v)) = s.variants.last_mut() {
                    v.push(k);
                } else {
                    s.common.push(k);
                }
            }
            t.end("entry store tail", &mut self.problems);
            if s.variants.len() != nvar {
                return Err(format!("{} variants where {nvar} are declared", s.variants.len()));
            }
            let cs: usize = s.common.iter().map(|k| k.size).sum();
            if s.variants.is_empty() && cs != s.size {
                return Err(format!("properties of {cs} bytes in entries of {}", s.size));
            }
            for (n, v) in &s.variants {
                let vs: usize = v.iter().map(|k| k.size).sum();
                if cs + 1 + vs != s.size {
                    return Err(format!("variant {n}: {cs}+1+{vs} bytes in entries of {}", s.size));
                }
            }
            s.data_at = (at + p).checked_sub(4 + s.count * s.size).ok_or("entries before the file")?;
            self.block(blocks, s.data_at, s.count * s.size, "entries")?;
            d.stores.push(s);
        }
        let mut c = self.block(blocks, at + ip, ni * 8, "index pointers")?;
        for _ in 0..ni {
            let (p, l) = sized(c.le(8)?);
            let mut t = self.block(blocks, at + p, l, "index")?;
            let mut x = DIndex { store: t.le(4)? as u32, count: t.le(4)? as u32, offset: t.le(4)? as u32, ..Default::default() };
            x.free = t.take(4)?.try_into().unwrap();
            x.key = t.le(1)? as u8;
            x.name = t.pstring()?;
            t.end("index", &mut self.problems);
            if x.store as usize >= ne {
                self.problems.push(format!("index {} of store {} of {ne}", x.name, x.store));
            }
            d.indexes.push(x);
        }
        Ok(Body::Directory(d))
    }

    /// Plain bytes of a cluster.
    pub fn cluster_data(&self, c: &Cluster) -> Es<Vec<u8>> {
        let raw = self.file.get(c.raw_at..c.raw_at + c.raw_len).ok_or("cluster out of the file")?;
        let v = decompress(c.comp, raw, c.data_size)?;
        if v.len() != c.data_size {
            return Err(format!("a cluster of {} bytes declares {}", v.len(), c.data_size));
        }
        Ok(v)
    }
}

pub fn decompress(comp: u8, raw: &[u8], cap: usize) -> Es<Vec<u8>> {
    let mut v = Vec::with_capacity(cap);
    let es = |e: std::io::Error| format!("compression {comp}: {e}");
    match comp {
        0 => v.extend_from_slice(raw),
        1 => {
            lz4::Decoder::new(raw).map_err(es)?.read_to_end(&mut v).map_err(es)?;
        }
        2 => {
            let s = xz2::stream::Stream::new_lzma_decoder(u64::MAX).map_err(|e| format!("{e}"))?;
            xz2::read::XzDecoder::new_stream(raw, s).read_to_end(&mut v).map_err(es)?;
        }
        3 => {
            zstd::stream::read::Decoder::new(raw).map_err(es)?.read_to_end(&mut v).map_err(es)?;
        }
        k => return Err(format!("compression {k}")),
    }
    Ok(v)
}

fn value(file: &[u8], d: &DirBody, k: &Key, at: usize) -> Es<F> {
    let b = file.get(at..at + k.size).ok_or("entry out of the file")?;
    Ok(match &k.kind {
        PK::Pad | PK::Variant => F::None,
        PK::Content { pack, id, def } => match def {
            Some(p) => F::C(*p, le(&b[..*id]) as u32),
            None => F::C(le(&b[..*pack]) as u16, le(&b[*pack..*pack + *id]) as u32),
        },
        PK::Int { signed, def, .. } => {
            let b = def.as_deref().unwrap_or(b);
            if *signed {
                F::S(sle(b))
            } else {
                F::U(le(b))
            }
        }
        PK::Arr { len, fixed, key, store, def } => {
            let b = def.as_deref().unwrap_or(b);
            let n = if *len > 0 { Some(le(&b[..*len]) as usize) } else { None };
            let base = &b[*len..*len + *fixed];
            let take = n.map(|n| n.min(*fixed)).unwrap_or(*fixed);
            let mut v = base[..take].to_vec();
            if base[take..].iter().any(|x| *x != 0) {
                return Err(format!("the inline part of {} is not padded with zeros", k.name));
            }
            if *key > 0 {
                let id = le(&b[*len + *fixed..]) as usize;
                let s = d.values.get(*store).ok_or(format!("value store {store}"))?;
                let rest = n.map(|n| n - take);
                let (a, e) = if s.indexed {
                    let (Some(a), Some(e)) = (s.offs.get(id), s.offs.get(id + 1)) else {
                        return Err(format!("value {id} of a store of {}", s.offs.len()));
                    };
                    (*a, rest.map(|r| a + r).unwrap_or(*e).min(*e))
                } else {
                    let Some(r) = rest else { return Err("unsized array in a plain store".into()) };
                    (id, id + r)
                };
                if e > s.size {
                    return Err(format!("value {a}..{e} of a store of {}", s.size));
                }
                v.extend_from_slice(&file[s.at + a..s.at + e]);
            }
            if let Some(n) = n {
                if n != v.len() {
                    return Err(format!("an array of {n} bytes has {}", v.len()));
                }
            }
            F::B(v)
        }
    })
}

/// Only the files the container at `main` is made of: itself, and what its manifest refers to.
pub fn reached(mut files: BTreeMap<String, Vec<u8>>, main: &str) -> BTreeMap<String, Vec<u8>> {
    let mut names = vec![main.to_string()];
    if let Some(Ok(v)) = files.get(main).map(|b| Decoder::new(b).all()) {
        for m in v.iter().filter_map(|p| p.man()) {
            names.extend(m.infos.iter().map(|i| i.location.clone()));
        }
    }
    files.retain(|n, _| names.contains(n));
    files
}

/// The logical content of a container, from the bytes of its files.
/// `files`: path relative to the directory of the entry point, and bytes.
pub fn logical(files: &BTreeMap<String, Vec<u8>>, main: &str, old: bool) -> Es<(Facts, Vec<String>)> {
    let mut problems = vec![];
    let mut f = Facts::new();
    let mut packs: BTreeMap<String, Vec<DPack>> = BTreeMap::new();
    for (n, b) in files {
        let mut d = Decoder { old, ..Decoder::new(b) };
        match d.all() {
            Ok(v) => {
                if v[0].at != 0 && n != main {
                    problems.push(format!("{n} does not start with a pack"));
                }
                if v[0].at + v[0].size != b.len() {
                    problems.push(format!("{n} has {} bytes after its pack", b.len() - v[0].at - v[0].size));
                }
                packs.insert(n.clone(), v);
            }
            Err(e) => return Err(format!("{n}: {e}")),
        }
        problems.extend(d.problems.into_iter().map(|p| format!("{n}: {p}")));
    }
    let here = packs.get(main).ok_or("no entry point")?;
    let man = here.iter().find(|p| p.kind == b'm').ok_or("no manifest pack")?;
    let m = man.man().unwrap();
    let find = |u: &[u8; 16], loc: &str| -> Option<(&Vec<u8>, &DPack)> {
        if let Some(p) = here.iter().find(|p| p.uuid == *u) {
            return Some((&files[main], p));
        }
        let v = packs.get(loc)?;
        v.iter().find(|p| p.uuid == *u).map(|p| (&files[loc], p))
    };
    for i in &m.infos {
        let Some((file, p)) = find(&i.uuid, &i.location) else {
            problems.push(format!("pack {} is not at {:?}", i.id, i.location));
            continue;
        };
        if p.kind != i.kind || p.size as u64 != i.size {
            problems.push(format!("pack {}: kind {} size {} where the manifest has {} {}", i.id, p.kind, p.size, i.kind, i.size));
        }
        // the manifest's copy of the check info is the pack's own
        let own = &file[p.check_at..p.at + p.size - 64];
        let copy = &files[main][i.check.0 as usize..i.check.0 as usize + i.check.1];
        if own != copy {
            problems.push(format!("pack {}: the manifest's copy of its check info differs", i.id));
        }
        if !old {
            let hex: String = copy[1..copy.len() - 4].iter().map(|b| format!("{b:02x}")).collect();
            f.insert(K::Pack(i.id, "check_info"), F::T(if hex.is_empty() { "no hash".into() } else { hex }));
        }
        match &p.body {
            Body::Content(c) => {
                let dec = Decoder::new(file);
                let mut cache: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
                for (x, (cl, bl)) in c.infos.iter().enumerate() {
                    if !cache.contains_key(cl) {
                        let v = dec.cluster_data(&c.clusters[*cl as usize]).map_err(|e| format!("pack {} cluster {cl}: {e}", i.id))?;
                        cache.insert(*cl, v);
                    }
                    let (a, e) = c.clusters[*cl as usize].blobs[*bl as usize];
                    let b = cache[cl].get(a..e).ok_or("blob out of its cluster")?;
                    f.insert(K::Content(i.id, x as u32, "bytes"), F::hash(b));
                    f.insert(K::Content(i.id, x as u32, "size"), F::U(b.len() as u64));
                }
                for (k, c) in c.clusters.iter().enumerate() {
                    if !cache.contains_key(&(k as u32)) {
                        problems.push(format!("pack {}: cluster {k} holds no content", i.id));
                        dec.cluster_data(c).map_err(|e| format!("pack {} cluster {k}: {e}", i.id))?;
                    }
                }
                let n = c.infos.len() as u32;
                f.insert(K::Pack(i.id, "count"), F::U(n as u64));
                for x in past_end(n) {
                    f.insert(K::Content(i.id, x, "bytes"), F::None);
                }
            }
            Body::Directory(d) => {
                for ix in &d.indexes {
                    f.insert(K::Index(ix.name.clone(), "count"), F::U(ix.count as u64));
                    f.insert(K::Index(ix.name.clone(), "offset"), F::U(ix.offset as u64));
                    f.insert(K::Index(ix.name.clone(), "store"), F::U(ix.store as u64));
                    f.insert(K::Entry(ix.name.clone(), ix.count, "#entry".into()), F::None);
                    let st = &d.stores[ix.store as usize];
                    for at in 0..ix.count {
                        let pos = (ix.offset + at) as usize;
                        if pos >= st.count {
                            problems.push(format!("index {} goes beyond its store", ix.name));
                            break;
                        }
                        let mut o = st.data_at + pos * st.size;
                        let mut keys: Vec<&Key> = st.common.iter().collect();
                        for k in &keys {
                            if !matches!(k.kind, PK::Pad) {
                                f.insert(K::Entry(ix.name.clone(), at, k.name.clone()), value(file, d, k, o)?);
                            }
                            o += k.size;
                        }
                        if !st.variants.is_empty() {
                            let v = file[o] as usize;
                            o += 1;
                            let (n, ks) = st.variants.get(v).ok_or(format!("variant {v}"))?;
                            f.insert(K::Entry(ix.name.clone(), at, "#variant".into()), F::T(n.clone()));
                            keys = ks.iter().collect();
                            for k in &keys {
                                if !matches!(k.kind, PK::Pad) {
                                    f.insert(K::Entry(ix.name.clone(), at, k.name.clone()), value(file, d, k, o)?);
                                }
                                o += k.size;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok((f, problems))
}
