//! Writes content packs as the documented layout describes them.  Shares no code with jubako: it makes
//! packs jubako has to read but would only write for hundreds of megabytes of content (many small clusters).

use crate::decode::crc;
use std::io::Write;

pub struct EncCluster {
    /// 0 none, 1 lz4, 2 lzma, 3 zstd
    pub comp: u8,
    pub blobs: Vec<Vec<u8>>,
}

fn put(v: &mut Vec<u8>, x: u64, n: usize) {
    v.extend_from_slice(&x.to_le_bytes()[..n]);
}
fn block(v: &mut Vec<u8>, b: &[u8]) {
    v.extend_from_slice(b);
    v.extend_from_slice(&crc(b).to_be_bytes());
}

pub fn compress(comp: u8, data: &[u8], level: u32) -> Vec<u8> {
    match comp {
        0 => data.to_vec(),
        1 => {
            let mut e = lz4::EncoderBuilder::new().level(level % 10).build(vec![]).expect("lz4");
            e.write_all(data).expect("lz4");
            let (v, r) = e.finish();
            r.expect("lz4");
            v
        }
        2 => {
            let o = xz2::stream::LzmaOptions::new_preset(0).expect("lzma");
            let mut e = xz2::write::XzEncoder::new_stream(vec![], xz2::stream::Stream::new_lzma_encoder(&o).expect("lzma"));
            e.write_all(data).expect("lzma");
            e.finish().expect("lzma")
        }
        _ => {
            let mut e = zstd::Encoder::new(vec![], level as i32 % 10 + 1).expect("zstd");
            e.write_all(data).expect("zstd");
            e.finish().expect("zstd")
        }
    }
}

/// `order`: the clusters in the order their data is in the file.  `infos`: cluster and blob of each content.
pub fn content_pack(vendor: [u8; 4], uuid: [u8; 16], clusters: &[EncCluster], order: &[usize], infos: &[(u32, u16)], level: u32) -> Vec<u8> {
    let mut v = vec![0; 128];
    let mut ptrs = vec![(0u64, 0u64); clusters.len()];
    for i in order {
        let c = &clusters[*i];
        let data = c.blobs.concat();
        let raw = compress(c.comp, &data, level);
        v.extend_from_slice(&raw);
        let top = data.len().max(raw.len()) as u64;
        let w = ((64 - top.leading_zeros()) as usize).div_ceil(8).max(1);
        let mut t = vec![c.comp, w as u8];
        put(&mut t, c.blobs.len() as u64, 2);
        put(&mut t, raw.len() as u64, w);
        put(&mut t, data.len() as u64, w);
        let mut at = 0;
        for b in &c.blobs[..c.blobs.len() - 1] {
            at += b.len() as u64;
            put(&mut t, at, w);
        }
        ptrs[*i] = (v.len() as u64, t.len() as u64);
        block(&mut v, &t);
    }
    let ptrs_at = v.len() as u64;
    let mut t = vec![];
    for (at, n) in ptrs {
        put(&mut t, at << 16 | n, 8);
    }
    block(&mut v, &t);
    let infos_at = v.len() as u64;
    let mut t = vec![];
    for (c, b) in infos {
        put(&mut t, (*c as u64) << 12 | *b as u64, 4);
    }
    block(&mut v, &t);
    let check_at = v.len() as u64;
    let size = check_at + 37 + 64;
    let mut h = b"jbkc".to_vec();
    h.extend_from_slice(&vendor);
    h.extend_from_slice(&[0, 2]);
    h.extend_from_slice(&uuid);
    h.extend_from_slice(&[0; 6]);
    put(&mut h, size, 8);
    put(&mut h, check_at, 8);
    h.resize(60, 0);
    let mut head = vec![];
    block(&mut head, &h);
    let mut h = vec![];
    put(&mut h, infos_at, 8);
    put(&mut h, ptrs_at, 8);
    put(&mut h, infos.len() as u64, 4);
    put(&mut h, clusters.len() as u64, 4);
    h.resize(60, 0);
    block(&mut head, &h);
    v[..128].copy_from_slice(&head);
    let mut c = vec![1];
    c.extend_from_slice(blake3::hash(&v).as_bytes());
    block(&mut v, &c);
    let mut tail = v[..64].to_vec();
    tail.reverse();
    v.extend(tail);
    v
}
