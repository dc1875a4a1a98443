//! Alterations of the files of a container, aware of what is where.

use crate::decode::{crc, Block, Body, DPack, Decoder, Es};
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Patch {
    pub file: usize,
    pub at: usize,
    pub bytes: Vec<u8>,
}
/// Bytes put elsewhere than they were written, or a file cut or extended.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Damage {
    pub what: String,
    pub patches: Vec<Patch>,
    /// the file ends here (zero bytes are added where it was shorter)
    pub len: Option<(usize, usize)>,
}

pub struct Leaf {
    pub file: usize,
    pub pack: DPack,
    /// in a container pack
    pub inner: bool,
}
pub struct Img {
    pub names: Vec<String>,
    pub files: Vec<Vec<u8>>,
    pub leaves: Vec<Leaf>,
    /// container packs
    pub outers: Vec<(usize, DPack)>,
}

impl Img {
    pub fn read(files: &BTreeMap<String, Vec<u8>>) -> Es<Img> {
        let mut img = Img { names: vec![], files: vec![], leaves: vec![], outers: vec![] };
        for (n, b) in files {
            let f = img.files.len();
            let mut d = Decoder::new(b);
            let v = d.all().map_err(|e| format!("{n}: {e}"))?;
            // (a checksum of something else than it should be: its bytes are where they are)
            if let Some(p) = d.problems.iter().find(|p| !p.starts_with("the checksum of the pack")) {
                return Err(format!("{n}: {p}"));
            }
            let inner = v[0].kind == b'C';
            for p in v {
                if p.kind == b'C' {
                    img.outers.push((f, p));
                } else {
                    img.leaves.push(Leaf { file: f, pack: p, inner });
                }
            }
            img.names.push(n.clone());
            img.files.push(b.clone());
        }
        Ok(img)
    }

    /// The ranges the checksum of a pack covers, its check block included.
    pub fn covered(&self, leaf: usize) -> Vec<(usize, usize)> {
        let p = &self.leaves[leaf].pack;
        let mut v = vec![];
        let mut at = p.at;
        if let Body::Manifest(m) = &p.body {
            let mut infos: Vec<usize> = m.infos.iter().map(|i| i.at).collect();
            infos.sort();
            for i in infos {
                v.push((at, i + 38));
                at = i + 256;
            }
        }
        v.push((at, p.at + p.size - 64));
        v.retain(|r| r.0 < r.1);
        v
    }
    /// Which leaf covers this byte.
    pub fn who(&self, file: usize, at: usize) -> Option<usize> {
        (0..self.leaves.len()).find(|l| self.leaves[*l].file == file && self.covered(*l).iter().any(|r| r.0 <= at && at < r.1))
    }
    pub fn byte(&self, file: usize, at: usize, d: &Damage) -> u8 {
        let mut b = self.files[file][at];
        for p in &d.patches {
            if p.file == file && p.at <= at && at < p.at + p.bytes.len() {
                b = p.bytes[at - p.at];
            }
        }
        b
    }
    /// Leaves with a covered byte that really differs.
    pub fn altered(&self, d: &Damage) -> Vec<usize> {
        let mut v = vec![];
        for p in &d.patches {
            for k in 0..p.bytes.len() {
                let at = p.at + k;
                if at < self.files[p.file].len() && self.byte(p.file, at, d) != self.files[p.file][at] {
                    if let Some(l) = self.who(p.file, at) {
                        if !v.contains(&l) {
                            v.push(l);
                        }
                    }
                }
            }
        }
        v.sort();
        v
    }
    /// The file after the damage.
    pub fn image(&self, file: usize, d: &Damage) -> Vec<u8> {
        let mut b = self.files[file].clone();
        if let Some((f, n)) = d.len {
            if f == file {
                b.resize(n, 0);
            }
        }
        for p in d.patches.iter().filter(|p| p.file == file) {
            for (k, x) in p.bytes.iter().enumerate() {
                if let Some(c) = b.get_mut(p.at + k) {
                    *c = *x;
                }
            }
        }
        b
    }
    /// A block differs and still has a valid CRC: a valid block (maybe an empty one) took its place.
    /// No checksum of the format can tell.
    pub fn unseen(&self, d: &Damage) -> bool {
        self.files_hit(d).into_iter().any(|f| {
            let (old, new) = (&self.files[f], self.image(f, d));
            let packs = self.leaves.iter().filter(|l| l.file == f).map(|l| &l.pack);
            let packs = packs.chain(self.outers.iter().filter(|o| o.0 == f).map(|o| &o.1));
            let seen = |a: usize, n: usize, rev: bool| {
                let (Some(o), Some(x)) = (old.get(a..a + n), new.get(a..a + n)) else { return true };
                let mut x = x.to_vec();
                if rev {
                    x.reverse();
                }
                let sum = u32::from_be_bytes(x[n - 4..].try_into().unwrap());
                o == &new[a..a + n] || crc(&x[..n - 4]) != sum
            };
            let mut all = vec![seen(old.len().saturating_sub(64), 64.min(old.len()), true)];
            for p in packs {
                all.push(seen(p.at, 64, false));
                all.push(seen(p.at + p.size - 64, 64, true));
                all.extend(p.blocks.iter().map(|b| seen(b.at, b.len + 4, false)));
            }
            all.contains(&false)
        })
    }
    pub fn files_hit(&self, d: &Damage) -> Vec<usize> {
        let mut v: Vec<usize> = d.patches.iter().map(|p| p.file).chain(d.len.map(|l| l.0)).collect();
        v.sort();
        v.dedup();
        v
    }

    /// Changes bytes of a checksummed block and fixes its CRC.
    pub fn reseal(&self, file: usize, b: &Block, edit: impl FnOnce(&mut [u8])) -> Patch {
        let mut x = self.files[file][b.at..b.at + b.len].to_vec();
        edit(&mut x);
        let c = crc(&x);
        x.extend(c.to_be_bytes());
        Patch { file, at: b.at, bytes: x }
    }
}

/// A byte other than the one there.
pub fn other(r: &mut Rng, b: u8) -> u8 {
    match r.below(4) {
        0 | 1 => b ^ (1 << r.below(8)),
        2 => {
            let x = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
            if x == b {
                !b
            } else {
                x
            }
        }
        _ => b.wrapping_add(r.range(1, 255) as u8),
    }
}
