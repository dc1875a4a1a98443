//! Generators and phases shared by the checks.

use crate::create::{self, Assemble, Frees};
use crate::ctx::*;
use crate::facts::*;
use crate::model::*;
use crate::rng::{mix64, Rng};
use crate::rt::SimCfg;
use std::sync::Arc;

/// What a sequence of insertions looks like.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Plan {
    /// 0..n contents of 0..max bytes
    Mixed(u64, usize),
    /// the running size of a cluster crosses (or just meets) 2^8, 2^16 or 2^24
    Boundary,
    /// around `k` * 4095 tiny contents
    Many(u64),
    /// clusters around 4 MiB and above
    Large,
}

fn any_hint(r: &mut Rng) -> Hint {
    *r.pick(&[Hint::Yes, Hint::Yes, Hint::No, Hint::Detect])
}
/// Where a range starts: sometimes past what 31 or 32 bits hold (in a file with a hole).
fn far(r: &mut Rng) -> u64 {
    match r.below(24) {
        0 => (1 << 31) - 300 + r.below(600),
        1 => (1 << 32) - 300 + r.below(600),
        2 => (1 << 32) * r.range(2, 300) + r.below(5000),
        _ => r.below(5000),
    }
}
fn any_src(r: &mut Rng) -> Src {
    match r.below(8) {
        0 => Src::File,
        1 => Src::Range(far(r), r.below(5000)),
        2 => Src::Tail(far(r)),
        _ => Src::Mem,
    }
}

pub fn gen_contents(ctx: &mut Ctx, r: &mut Rng, plan: Plan) -> Vec<Content> {
    let mut v: Vec<Content> = vec![];
    let push = |c: Content, ctx: &mut Ctx, v: &mut Vec<Content>| {
        if ctx.keep() {
            v.push(c);
        }
    };
    match plan {
        Plan::Mixed(n, max) => {
            let n = match r.below(8) {
                0 => r.below(3),
                _ => r.below(n + 1),
            };
            let mut all: Vec<Content> = vec![];
            for _ in 0..n {
                let c = if !all.is_empty() && r.chance(1, 5) {
                    // the same bytes again, maybe under another hint or from elsewhere
                    let mut c = r.pick(&all).clone();
                    if r.chance(1, 2) {
                        c.hint = any_hint(r);
                        c.src = any_src(r);
                    }
                    c
                } else {
                    Content::gen(r, max)
                };
                all.push(c.clone());
                push(c, ctx, &mut v);
            }
        }
        Plan::Boundary => {
            let target: usize = match r.below(9) {
                0..=3 => 1 << 8,
                4..=7 => 1 << 16,
                _ => 1 << 24,
            };
            let target = (target + r.below(5) as usize).saturating_sub(2);
            let hint = if target > 1 << 20 { Hint::No } else { *r.pick(&[Hint::Yes, Hint::No]) };
            let pat = *r.pick(&[Pat::Rand, Pat::Text, Pat::Zero]);
            // cut points; some of them equal (empty contents), one extra byte at the end
            let k = r.range(1, 7) as usize;
            let mut cuts: Vec<usize> = (0..k).map(|_| r.below(target as u64 + 1) as usize).collect();
            cuts.extend([target]);
            cuts.sort();
            let mut last = 0;
            for c in cuts {
                let c0 = Content { seed: r.u64(), len: c - last, pat, hint, src: any_src(r) };
                last = c;
                push(c0, ctx, &mut v);
            }
            for _ in 0..r.below(4) {
                let c0 = Content { seed: r.u64(), len: r.below(3) as usize, pat, hint, src: Src::Mem };
                push(c0, ctx, &mut v);
            }
        }
        Plan::Many(k) => {
            let n = (k * 4095 + r.below(5)).saturating_sub(2);
            let max = *r.pick(&[0, 1, 3, 20]);
            let hints = match r.below(3) {
                0 => vec![Hint::Yes],
                1 => vec![Hint::No],
                _ => vec![Hint::Yes, Hint::Yes, Hint::Yes, Hint::Yes, Hint::Yes, Hint::Yes, Hint::Yes, Hint::No],
            };
            let mut at = 0;
            while at < n {
                // dropped by the minimiser in groups
                let g = r.range(1, 400).min(n - at);
                let keep = ctx.keep();
                for _ in 0..g {
                    let c = Content {
                        seed: r.u64(),
                        len: r.below(max + 1) as usize,
                        pat: *r.pick(&[Pat::Rand, Pat::Zero]),
                        hint: *r.pick(&hints),
                        src: Src::Mem,
                    };
                    if keep {
                        v.push(c);
                    }
                }
                at += g;
            }
        }
        Plan::Large => {
            const M: u64 = 1 << 20;
            for _ in 0..r.range(1, 8) {
                let len = match r.below(6) {
                    0 => r.below(5000),
                    1 => 4 * M + r.below(5) - 2,
                    2 => r.range(4 * M, 9 * M),
                    3 => 2 * M + r.below(3) - 1,
                    _ => r.below(3 * M),
                } as usize;
                let c = Content {
                    seed: r.u64(),
                    len,
                    pat: *r.pick(&[Pat::Zero, Pat::Rand, Pat::Mixed, Pat::Ramp, Pat::Text]),
                    hint: any_hint(r),
                    src: any_src(r),
                };
                push(c, ctx, &mut v);
            }
        }
    }
    v
}

/// A compression setting affordable for that much data.
pub fn gen_comp(ctx: &Ctx, r: &mut Rng, bytes: usize) -> Comp {
    let (z, l) = if ctx.thorough() { (22, 9) } else { (17, 6) };
    if bytes > 1 << 20 {
        return match r.below(6) {
            0 => Comp::None,
            1 | 2 => Comp::Lz4(r.below(16) as u32),
            3 => Comp::Lzma(r.below(2) as u32),
            _ => Comp::Zstd(r.below(12) as i32 - 6),
        };
    }
    if r.chance(1, 12) {
        match r.below(3) {
            0 => Comp::Lz4(r.below(16) as u32),
            1 => Comp::Lzma(r.range(3, l) as u32),
            _ => Comp::Zstd(*r.pick(&[-22, -7, 0, 13, 15, 16, z])),
        }
    } else {
        Comp::gen(r)
    }
}

pub fn total(v: &[Content]) -> usize {
    v.iter().map(|c| c.len).sum()
}

/// 0..2 extra content packs with ids other than 0 and 1.
pub fn gen_extras(ctx: &mut Ctx, r: &mut Rng, max: u64) -> Vec<Extra> {
    let n = r.below(max + 1);
    let mut v: Vec<Extra> = vec![];
    for i in 0..n {
        let id = match r.below(3) {
            0 => 2 + i as u16,
            1 => 255 + i as u16 * 7,
            _ => 3 + (r.u64() as u16 >> r.below(12)).min(65000) + i as u16,
        };
        let contents = gen_contents(ctx, r, Plan::Mixed(6, 3000));
        let comp = Comp::gen(r);
        if id > 1 && v.iter().all(|e| e.id != id) && ctx.keep() {
            v.push(Extra { id, comp, name: format!("extra{i}.jbkc"), contents });
        }
    }
    v
}

/// How the container of a run is produced.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Route {
    High,
    Loose(Assemble),
}
pub fn gen_route(r: &mut Rng) -> Route {
    match r.below(6) {
        0 => Route::Loose(Assemble::Separate),
        1 => Route::Loose(Assemble::Container),
        2 => Route::Loose(Assemble::Half),
        _ => Route::High,
    }
}

/// The whole creation, inside a phase: container at `<root>/out.jbk`.
pub fn build(root: &str, spec: &Spec, route: Route, frees: &Frees) -> create::Es<Built> {
    let out = format!("{root}/out.jbk");
    match route {
        Route::High => create::create(root, &out, spec, Arc::new(())),
        Route::Loose(how) => create::create_loose(root, root, &out, spec, frees, how, &|id| location(spec, how, id)),
    }
}

/// The location recorded for a pack by the loose routes: where it is, and for packs beside the manifest, anything.
pub fn location(spec: &Spec, how: Assemble, id: u16) -> String {
    let beside = how == Assemble::Container || how == Assemble::Half && id == 0;
    match (beside, spec.vendor[0] % 4) {
        (true, 0 | 1) => String::new(),
        (true, 2) => "no/such/file".into(),
        _ if id == 0 => "dir.jbkd".into(),
        _ => format!("c{id:05}.jbkc"),
    }
}

/// Creation that must succeed.
pub fn create_ok(ctx: &mut Ctx, cfg: &SimCfg, spec: &Spec, route: Route, frees: &Frees) -> Result<Built, Fail> {
    create::write_sources(&ctx.root, spec);
    let root = ctx.root.clone();
    let ph = ctx.phase(cfg, || {
        let mut e = Enc::default();
        match build(&root, spec, route, frees) {
            Ok(b) => {
                e.u(1);
                e.b(&b.encode());
            }
            Err(m) => {
                e.u(0);
                e.b(m.as_bytes());
            }
        }
        e.0
    });
    let out = ctx.must(ph, "create", "creation")?;
    let mut d = Dec(&out);
    match d.u() {
        1 => Ok(Built::decode(d.b())),
        _ => fail("create", format!("creation fails: {}", d.s())),
    }
}

pub fn h(a: u64, b: u64) -> u64 {
    mix64(a.rotate_left(17) ^ b.wrapping_mul(0x9E3779B97F4A7C15))
}
pub fn hs(a: u64, s: &str) -> u64 {
    s.bytes().fold(a, |x, b| h(x, b as u64))
}
/// Fingerprint of the shape of a scenario (sizes bucketed by magnitude).
pub fn shape(spec: &Spec) -> u64 {
    let mut x = hs(1, &format!("{:?} {:?} {}", spec.comp, spec.mode, spec.cached));
    for (id, cs) in spec.slots() {
        x = h(x, id as u64);
        for c in cs.iter().take(200) {
            x = h(x, (64 - (c.len as u64).leading_zeros()) as u64 * 64 + c.hint as u64 * 16 + c.pat as u64);
        }
        x = h(x, cs.len() as u64);
    }
    for s in &spec.dir.stores {
        x = hs(x, &format!("{:?} {:?} {}", s.common, s.variants.iter().map(|v| &v.1).collect::<Vec<_>>(), s.sort.is_some()));
        x = h(x, s.entries.len() as u64);
    }
    x
}

pub fn describe(spec: &Spec) -> String {
    let mut s = format!("{:?} {:?}{}: ", spec.comp, spec.mode, if spec.cached { " cached" } else { "" });
    let slots = spec.slots();
    for (id, cs) in slots.iter().take(9) {
        s += &format!("pack {id} [");
        for c in cs.iter().take(8) {
            s += &format!("{}B {:?} {:?} {:?}; ", c.len, c.pat, c.hint, c.src);
        }
        if cs.len() > 8 {
            s += &format!("... {} contents, {} bytes", cs.len(), total(cs));
        }
        s += "] ";
    }
    if slots.len() > 9 {
        s += &format!("... {} packs, the last is {} ", slots.len(), slots[slots.len() - 1].0);
    }
    for (i, st) in spec.dir.stores.iter().enumerate() {
        s += &format!(
            "store {i} ({} entries, {} common, {} variants, sort {:?}) ",
            st.entries.len(),
            st.common.len(),
            st.variants.len(),
            st.sort
        );
    }
    s
}
