//! C02: entries read back with exactly the property values they were written with.

use super::common::*;
use super::Check;
use crate::create::Frees;
use crate::ctx::*;
use crate::facts::*;
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const CHECK: Check = Check {
    id: "C02",
    run,
    quick: 18000,
    thorough: 200_000,
    level: "exploration",
    rule: "seeded schemas: 0..6 common properties, 0..5 variants of unequal size (also of no size at all), unsigned, signed, array (inline prefix 0..31) and address columns that are constant, small or freely varying, 0..3 plain or indexed value stores shared or not, \
           1..3 entry stores of 0..40 (sometimes thousands of) entries, full and partial index windows; dedicated scenarios for integer widths (every byte boundary, both signs), array length and key widths (255/256/65535/65536 and up to 0xFFFFFF bytes, value stores crossing 2^8/2^16/2^24), \
           stores of more than 65536 entries and of several megabytes (every value read), many values in an indexed store (told apart at their end only), and limits of the format (prefixes over 31, more than 255 properties, variants, stores, long names, values of the wrong type) where creation must fail or store the values unaltered. \
           Entries are read through index, dynamic builder and typed builders. A case counts when at least one property value was compared; distinct by schema shape and entry count",
    real: "jubako creator (schema, entry and value stores, directory pack, packaging, compression workers, rayon sort) and reader (layouts, builders, value stores, indexes), std",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (real files on tmpfs, short reads and writes injected)",
    assumptions: &["sequentially consistent memory", "property, variant and index names of one scope are distinct"],
};

fn int_widths(r: &mut Rng, n: usize) -> Dir {
    // columns whose extreme sits exactly at a byte-width boundary
    let mut d = Dir::default();
    let np = r.range(1, 6) as usize;
    let mut st = Store::default();
    const N: [&str; 6] = ["i0", "i1", "i2", "i3", "i4", "i5"];
    let mut cols: Vec<Vec<V>> = vec![];
    for p in 0..np {
        let signed = r.chance(2, 3);
        let k = r.range(1, 8) as u32;
        let near = r.below(3) as i128 - 1;
        let col = if signed {
            let half = 1i128 << (8 * k - 1);
            let full = 1i128 << (8 * k).min(64);
            let top = match r.below(6) {
                0 => half - 1 + near,
                1 => -half + near,
                2 => full - 1 + near,
                3 => -full + near,
                4 => -1,
                _ => (1i128 << r.below(64)) + near,
            }
            .clamp(i64::MIN as i128, i64::MAX as i128) as i64;
            let constant = r.chance(1, 4);
            let mut v: Vec<V> = (0..n)
                .map(|_| {
                    if constant {
                        V::S(top)
                    } else {
                        // same sign and not larger, or a small number of any sign
                        V::S(if r.chance(1, 2) { top / (r.range(1, 300) as i64) } else { (r.below(4) as i64 - 2).clamp(-(top.unsigned_abs().min(2) as i64), top.unsigned_abs().min(2) as i64) })
                    }
                })
                .collect();
            if n > 0 {
                let at = r.idx(n);
                v[at] = V::S(top);
            }
            v
        } else {
            let full = if k == 8 { u64::MAX as i128 } else { 1i128 << (8 * k) };
            let top = (full + near - r.below(2) as i128).clamp(0, u64::MAX as i128) as u64;
            let constant = r.chance(1, 4);
            let mut v: Vec<V> = (0..n).map(|_| V::U(if constant { top } else { top / r.range(1, 300) })).collect();
            if n > 0 {
                let at = r.idx(n);
                v[at] = V::U(top);
            }
            v
        };
        st.common.push(Prop { name: N[p], kind: if signed { Kind::S } else { Kind::U } });
        cols.push(col);
    }
    st.entries = (0..n).map(|i| Entry { variant: 0, vals: cols.iter().map(|c| c[i].clone()).collect() }).collect();
    d.stores.push(st);
    d
}

/// Lengths of arrays and sizes of value stores at width boundaries.
fn array_widths(r: &mut Rng, big: bool) -> Dir {
    let mut d = Dir::default();
    let kind = if r.chance(1, 2) { Vs::Plain } else { Vs::Indexed };
    d.vstores.push(kind);
    let fixed = *r.pick(&[0, 0, 1, 2, 3, 30, 31]);
    let mut st = Store::default();
    st.common.push(Prop { name: "arr", kind: Kind::A { fixed, vs: 0 } });
    st.common.push(Prop { name: "n", kind: Kind::U });
    let second = r.chance(1, 3);
    if second {
        st.common.push(Prop { name: "brr", kind: Kind::A { fixed: r.below(32) as usize, vs: 0 } });
    }
    let target: usize = match r.below(if big { 4 } else { 3 }) {
        0 | 1 => 1 << 8,
        2 => 1 << 16,
        _ => 1 << 24,
    };
    let arrays: Vec<Vec<u8>> = if r.chance(1, 2) {
        // one array around the boundary, a few short ones
        let n = (target + r.below(4) as usize).saturating_sub(2).min(0xFF_FFFF) + if r.chance(1, 3) && target < 1 << 24 { fixed } else { 0 };
        let mut v = vec![r.bytes(n)];
        for _ in 0..r.below(4) {
            v.push(r_bytes(r, 40));
        }
        v
    } else {
        // the sum of the stored parts around the boundary
        let want = (target + r.below(4) as usize).saturating_sub(2);
        let parts = if kind == Vs::Indexed && r.chance(1, 3) { *r.pick(&[254usize, 255, 256, 257]) } else { r.range(1, 12) as usize };
        let mut v: Vec<Vec<u8>> = vec![];
        let each = want / parts;
        for p in 0..parts {
            let mut a = vec![0u8; fixed.min(1)];
            a.extend(r.bytes(if p == 0 { want - each * (parts - 1) } else { each } + fixed - fixed.min(1)));
            a.truncate(0xFF_FFFF);
            v.push(a);
        }
        v
    };
    for (i, a) in arrays.into_iter().enumerate() {
        let mut vals = vec![V::A(a), V::U(i as u64)];
        if second {
            vals.push(V::A(r_bytes(r, 60)));
        }
        st.entries.push(Entry { variant: 0, vals });
    }
    d.stores.push(st);
    d
}
fn r_bytes(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = r.below(max) as usize;
    r.bytes(n)
}

/// Many values in one store.
fn many_values(r: &mut Rng, n: usize) -> Dir {
    let mut d = Dir::default();
    d.vstores.push(if r.chance(2, 3) { Vs::Indexed } else { Vs::Plain });
    let n = if d.vstores[0] == Vs::Indexed { n.min(5000) } else { n };
    let mut st = Store::default();
    let fixed = *r.pick(&[0, 0, 0, 1, 5]);
    st.common.push(Prop { name: "arr", kind: Kind::A { fixed, vs: 0 } });
    st.common.push(Prop { name: "n", kind: Kind::U });
    let len = *r.pick(&[0usize, 1, 8, 30]);
    // what they have in common may be longer than what tells them apart
    let same = *r.pick(&[0usize, 3, 70, 200]);
    // (every insertion is compared with all the others)
    let same = if n > 2000 { same.min(3) } else { same };
    for i in 0..n {
        let mut a = vec![7u8; fixed + same];
        a.extend((i as u32).to_be_bytes());
        a.extend(r.bytes(len));
        st.entries.push(Entry { variant: 0, vals: vec![V::A(a), V::U(i as u64)] });
    }
    d.stores.push(st);
    d
}

fn leak(s: String) -> &'static str {
    intern(&s)
}

/// Schemas at and beyond what the format can describe; false: creation may fail.
fn limits(r: &mut Rng) -> (Dir, bool) {
    let mut d = Dir::default();
    let mut st = Store::default();
    let mut must = false;
    match r.below(8) {
        0 => {
            // inline prefix beyond the 5 bits it has
            d.vstores.push(*r.pick(&[Vs::Plain, Vs::Indexed]));
            let fixed = *r.pick(&[31, 32, 33, 63, 64, 100, 224, 255, 256, 288, 300]);
            must = fixed <= 31;
            st.common.push(Prop { name: "arr", kind: Kind::A { fixed, vs: 0 } });
            for _ in 0..r.range(1, 6) {
                let n = *r.pick(&[0, 1, 31, 32, 33, fixed, fixed + 1, 400]);
                st.entries.push(Entry { variant: 0, vals: vec![V::A(r.bytes(n))] });
            }
        }
        1 => {
            // number of properties
            let n = *r.pick(&[250, 254, 255, 256, 257, 300]);
            must = n <= 255;
            for i in 0..n {
                st.common.push(Prop { name: leak(format!("p{i}")), kind: Kind::U });
            }
            for e in 0..r.range(1, 4) {
                st.entries.push(Entry { variant: 0, vals: (0..n).map(|i| V::U(i as u64 * 3 + if i % 5 == 0 { e } else { 0 })).collect() });
            }
        }
        2 => {
            // number of variants; no padding is needed as they all have one byte
            let n = *r.pick(&[100, 127, 128, 254, 255, 256, 257]);
            must = n * 3 < 255; // a constant column makes its variant need padding
            st.common.push(Prop { name: "n", kind: Kind::U });
            for i in 0..n {
                st.variants.push((leak(format!("var{i}")), vec![Prop { name: leak(format!("q{}", i % 7)), kind: Kind::U }]));
            }
            for e in 0..r.range(1, 400) {
                let v = if e < 2 { n - 1 - e as usize } else { r.idx(n) };
                st.entries.push(Entry { variant: v, vals: vec![V::U(e), V::U(e & 0xff)] });
            }
        }
        3 => {
            // variants so unequal that the padding takes many properties
            d.vstores.push(Vs::Plain);
            let k = r.range(20, 90) as usize;
            let v = r.range(1, 3) as usize;
            let props: Vec<Prop> = (0..k).map(|i| Prop { name: leak(format!("a{i}")), kind: Kind::A { fixed: 31, vs: 0 } }).collect();
            st.variants.push(("big", props));
            for i in 0..v {
                st.variants.push((leak(format!("small{i}")), vec![Prop { name: "x", kind: Kind::U }]));
            }
            must = k + 1 + v * (k * 40 / 16 + 3) <= 255;
            for e in 0..r.range(2, 8) {
                let variant = if e == 0 { 0 } else { r.idx(v + 1) };
                let vals = if variant == 0 { (0..k).map(|_| V::A(r_bytes(r, 50))).collect() } else { vec![V::U(e)] };
                st.entries.push(Entry { variant, vals });
            }
        }
        4 => {
            // number of value stores
            let n = *r.pick(&[200, 255, 256, 257]);
            must = n <= 255;
            for _ in 0..n {
                d.vstores.push(*r.pick(&[Vs::Plain, Vs::Indexed]));
            }
            let a = r.idx(n);
            st.common.push(Prop { name: "first", kind: Kind::A { fixed: 1, vs: a } });
            st.common.push(Prop { name: "last", kind: Kind::A { fixed: 0, vs: n - 1 } });
            for _ in 0..4 {
                st.entries.push(Entry { variant: 0, vals: vec![V::A(r_bytes(r, 20)), V::A(r_bytes(r, 20))] });
            }
        }
        5 => {
            // long names
            let n = *r.pick(&[200usize, 254, 255, 256, 300, 511, 512]);
            must = n <= 255;
            let long = leak("N".repeat(n));
            if r.chance(1, 2) {
                st.common.push(Prop { name: long, kind: Kind::U });
            } else {
                st.common.push(Prop { name: "n", kind: Kind::U });
                st.variants.push((long, vec![]));
                st.variants.push(("other", vec![Prop { name: "m", kind: Kind::S }]));
            }
            for e in 0..5 {
                let variant = if st.variants.is_empty() { 0 } else { r.idx(2) };
                let mut vals = vec![V::U(e)];
                if variant == 1 {
                    vals.push(V::S(-(e as i64)));
                }
                st.entries.push(Entry { variant, vals });
            }
        }
        6 => {
            // a value whose type is not the property's
            d.vstores.push(Vs::Plain);
            d.vstores.push(Vs::Indexed);
            let kind = match r.below(5) {
                0 => Kind::U,
                1 => Kind::S,
                2 => Kind::A { fixed: r.below(3) as usize, vs: 0 },
                3 => Kind::A { fixed: 0, vs: 1 },
                _ => Kind::C,
            };
            let wrong = match (&kind, r.below(4)) {
                (Kind::U, 0) => V::S(5),
                (Kind::S, 1) => V::U(5),
                (Kind::C, _) => V::U(5),
                (Kind::A { .. }, _) => V::S(-5),
                (_, 2) => V::A(vec![1, 2]),
                _ => V::C(1, 2),
            };
            st.common.push(Prop { name: "x", kind: kind.clone() });
            st.common.push(Prop { name: "y", kind: Kind::U });
            let good = match kind {
                Kind::U => V::U(3),
                Kind::S => V::S(-3),
                Kind::A { .. } => V::A(vec![9]),
                _ => V::C(1, 0),
            };
            let n = r.range(1, 4) as usize;
            let at = r.idx(n);
            for i in 0..n {
                st.entries.push(Entry { variant: 0, vals: vec![if i == at { wrong.clone() } else { good.clone() }, V::U(i as u64)] });
            }
        }
        _ => {
            // long arrays
            d.vstores.push(*r.pick(&[Vs::Plain, Vs::Indexed]));
            let fixed = r.below(3) as usize;
            st.common.push(Prop { name: "arr", kind: Kind::A { fixed, vs: 0 } });
            let n = *r.pick(&[0xFF_FFFEusize, 0xFF_FFFF, 0x100_0000, 0x100_0001]);
            must = n <= 0xFF_FFFF;
            st.entries.push(Entry { variant: 0, vals: vec![V::A(vec![n as u8; n])] });
            st.entries.push(Entry { variant: 0, vals: vec![V::A(vec![1])] });
        }
    }
    d.stores.push(st);
    (d, must)
}

fn windows(r: &mut Rng, d: &mut Dir) {
    for s in 0..d.stores.len() {
        let n = d.stores[s].entries.len() as u32;
        d.indexes.push(Index { name: format!("full{s}"), store: s, offset: 0, count: n, key: 0, free: [0; 4] });
        for w in 0..r.below(3) {
            let off = r.below(n as u64 + 1) as u32;
            let cnt = r.below((n - off) as u64 + 1) as u32;
            d.indexes.push(Index { name: format!("w{s}.{w}"), store: s, offset: off, count: cnt, key: 1, free: [1; 4] });
        }
    }
}

/// Distinct value parts an indexed store would hold: its tail must stay below 64 KiB.
fn tails_fit(d: &Dir) -> bool {
    let mut per: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    for st in &d.stores {
        for e in &st.entries {
            for (p, v) in st.props(e).iter().zip(&e.vals) {
                if let (Kind::A { vs, .. }, V::A(a)) = (&p.kind, v) {
                    let x = per.entry(*vs).or_default();
                    x.0 += 1;
                    x.1 += a.len() as u64;
                }
            }
        }
    }
    per.values().all(|(n, bytes)| {
        let w = (1..8).find(|w| *bytes < 1u64 << (8 * w)).unwrap_or(8);
        14 + n * w <= 65000
    })
}

/// More entries than 16 bits count, in a store of up to many megabytes; every value is read.
fn huge(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng("scenario");
    let n = match r.below(6) {
        0 => 65_535 + r.below(3) as usize,
        1 if ctx.thorough() => r.range(130_000, 300_000) as usize,
        _ => r.range(65_600, 90_000) as usize,
    };
    let mut spec = Spec::empty();
    spec.comp = Comp::None;
    spec.mode = *r.pick(&Mode::ALL);
    let nvs = r.range(1, 2) as usize;
    for _ in 0..nvs {
        spec.dir.vstores.push(*r.pick(&[Vs::Plain, Vs::Plain, Vs::Indexed]));
    }
    let mut st = Store::default();
    const N: [&str; 5] = ["number", "b", "c", "d", "e"];
    // the number of the entry, then others
    st.common.push(Prop { name: N[0], kind: if r.chance(1, 2) { Kind::U } else { Kind::S } });
    let wide = r.chance(1, 3);
    for name in N.iter().skip(1).take(r.range(1, if wide { 4 } else { 3 }) as usize) {
        let kind = match r.below(if wide { 2 } else { 6 }) {
            0 | 1 => Kind::A { fixed: if wide { 31 } else { r.below(9) as usize }, vs: r.idx(nvs) },
            2 => Kind::S,
            3 => Kind::C,
            _ => Kind::U,
        };
        st.common.push(Prop { name, kind });
    }
    if r.chance(1, 3) {
        st.variants.push(("va", vec![Prop { name: "va0", kind: Kind::U }, Prop { name: "va1", kind: Kind::A { fixed: 3, vs: 0 } }]));
        st.variants.push(("vb", vec![Prop { name: "vb0", kind: Kind::S }]));
    }
    // values in an indexed store must be few: its offsets have 64 kB (and from 1024 on, each insertion wakes the pool)
    let few = r.range(2, 1020);
    let salt = r.u64();
    let shift = r.below(64);
    let long = r.range(1, 40);
    let group = n.div_ceil(128);
    let mut keep = true;
    for i in 0..n {
        if i % group == 0 {
            keep = ctx.keep();
        }
        let variant = if st.variants.is_empty() { 0 } else { (crate::rng::mix64(salt ^ i as u64) & 1) as usize };
        let mut e = Entry { variant, vals: vec![] };
        for (c, p) in st.props(&e).into_iter().enumerate() {
            let x = crate::rng::mix64(salt.wrapping_add(c as u64 * 77) ^ i as u64);
            let v = match &p.kind {
                Kind::U if c == 0 => V::U(i as u64),
                Kind::S if c == 0 => V::S(-(i as i64)),
                Kind::U => V::U(x >> shift),
                Kind::S => V::S(x as i64 >> shift),
                Kind::C => V::C(x as u16 & 0x3ff, (x >> 20) as u32),
                Kind::A { vs, .. } => {
                    let k = if spec.dir.vstores[*vs] == Vs::Indexed { x % few } else { x };
                    let m = crate::rng::mix64(k);
                    let mut a = m.to_be_bytes().to_vec();
                    a.resize((m >> 5) as usize % (8 + long as usize), (m >> 40) as u8);
                    V::A(a)
                }
                _ => unreachable!(),
            };
            e.vals.push(v);
        }
        if keep {
            st.entries.push(e);
        }
    }
    let n = st.entries.len() as u32;
    let mut ix = |name: String, offset: u32, count: u32| {
        let offset = offset.min(n);
        spec.dir.indexes.push(Index { name, store: 0, offset, count: count.min(n - offset), key: 0, free: [2; 4] })
    };
    ix("full".into(), 0, n);
    ix("across".into(), 65_516, 40);
    ix("end".into(), n.saturating_sub(20), 20);
    ix("beyond".into(), 65_536, u32::MAX);
    for w in 0..4 {
        ix(format!("w{w}"), r.below(n as u64 + 1) as u32, r.below(30) as u32);
    }
    spec.dir.stores.push(st);
    let route = gen_route(&mut r);
    ctx.tell(format!("huge {route:?} {}", describe(&spec)));
    let mut cfg = ctx.noise("create", 1);
    cfg.p_short_read = cfg.p_short_read.min(500);
    cfg.p_short_write = cfg.p_short_write.min(500);
    let built = create_ok(ctx, &cfg, &spec, route, &Frees::default())?;
    let names: Vec<String> = spec.dir.indexes.iter().map(|i| i.name.clone()).collect();
    let out = ctx.path("out.jbk");
    let mut cfg = ctx.noise("read", 1);
    cfg.p_short_read = cfg.p_short_read.min(500);
    const MAX: u32 = 50;
    let typed = r.chance(1, 2);
    let ph = ctx.phase(&cfg, || {
        let mut e = Enc::default();
        e.facts(&read_all(&out, &Want { names: names.clone(), typed, max_entries: MAX, ..Default::default() }));
        e.b(whole(&out, &spec, &built).err().unwrap_or_default().as_bytes());
        e.0
    });
    let bytes = ctx.must(ph, "read", "reading")?;
    let mut d = Dec(&bytes);
    let got = d.facts();
    let msg = d.s();
    let mut want = Facts::new();
    for ix in &spec.dir.indexes {
        want.insert(K::Index(ix.name.clone(), "count"), F::U(ix.count as u64));
        want.insert(K::Index(ix.name.clone(), "offset"), F::U(ix.offset as u64));
        for i in spread(ix.count, MAX) {
            let st = &spec.dir.stores[0];
            let e = &st.entries[(ix.offset + i) as usize];
            if !st.variants.is_empty() {
                want.insert(K::Entry(ix.name.clone(), i, "#variant".into()), F::T(st.variants[e.variant].0.into()));
            }
            for (p, v) in st.props(e).iter().zip(&e.vals) {
                want.insert(K::Entry(ix.name.clone(), i, p.name.into()), expect_value(v, p, &built));
            }
        }
        want.insert(K::Entry(ix.name.clone(), ix.count, "#entry".into()), F::None);
    }
    if let Some(d) = first_diff(&want, &got) {
        return fail("value", d);
    }
    if let Some(d) = extra_entry(&want, &got) {
        return fail("value", d);
    }
    if !msg.is_empty() {
        return fail("value", msg);
    }
    ctx.count("plan.huge", 1);
    ctx.count("values.compared", n as u64 * spec.dir.stores[0].common.len() as u64);
    ctx.state(shape(&spec));
    ctx.sample(|| describe(&spec));
    Ok(())
}

/// Every value of the full index of an unsorted store.
fn whole(path: &str, spec: &Spec, built: &Built) -> Result<(), String> {
    use jubako::reader::builder::AnyBuilder;
    use jubako::reader::{Container, EntryTrait, Range};
    let es = |e: jubako::Error| format!("{e}");
    let c = Container::new(path).map_err(es)?;
    let ix = c.get_index_for_name("full").map_err(es)?.ok_or("no such index")?;
    let store = ix.get_store(c.get_entry_storage()).map_err(es)?;
    let b = AnyBuilder::new(store, &**c.get_value_storage()).map_err(es)?;
    let st = &spec.dir.stores[0];
    for (i, e) in st.entries.iter().enumerate() {
        let x = ix.get_entry(&b, (i as u32).into()).map_err(|e| format!("entry {i}: {e}"))?.ok_or_else(|| format!("no entry {i}"))?;
        let variant = x.get_variant_id().map_err(es)?.map(|v| v.into_u8() as usize);
        if variant != (!st.variants.is_empty()).then_some(e.variant) {
            return Err(format!("entry {i} has variant {variant:?}, written {}", e.variant));
        }
        for (p, v) in st.props(e).iter().zip(&e.vals) {
            let g = x.get_value(p.name).map_err(es)?.ok_or_else(|| format!("entry {i} has no {}", p.name))?.get().map_err(es)?;
            let g = value_fact(g);
            let w = expect_value(v, p, built);
            if g != w {
                return Err(format!("entry {i}: {} reads {g:?}, written {w:?}", p.name));
            }
        }
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    if ctx.index % 512 == 9 {
        return huge(ctx);
    }
    let mut r = ctx.rng("scenario");
    let mut spec = Spec::empty();
    spec.comp = Comp::None;
    spec.mode = *r.pick(&Mode::ALL);
    let t = ctx.thorough();
    let mut must = true;
    let plan = r.below(1000);
    let name;
    spec.dir = match plan {
        0..=119 => {
            name = "int widths";
            let n = match r.below(4) {
                0 => 1,
                _ => r.below(12) as usize,
            };
            let mut d = int_widths(&mut r, n);
            windows(&mut r, &mut d);
            d
        }
        120..=199 => {
            name = "array widths";
            let big = r.chance(1, if t { 12 } else { 20 });
            let mut d = array_widths(&mut r, big);
            windows(&mut r, &mut d);
            d
        }
        200..=279 => {
            name = "limits";
            let (mut d, m) = limits(&mut r);
            must = m;
            windows(&mut r, &mut d);
            d
        }
        280..=283 => {
            name = "many values";
            let n = match r.below(5) {
                0 => 255 + r.below(3) as usize,
                1 => 1000 + r.below(100) as usize,
                2 => 4000,
                _ if t => 30_000,
                _ => 8000,
            };
            let mut d = many_values(&mut r, n);
            windows(&mut r, &mut d);
            d
        }
        284..=294 => {
            name = "many entries";
            spec.contents = vec![];
            let o = DirOpts { max_stores: 1, max_entries: if t { 6000 } else { 2500 }, max_arr: 60, refs: false, sort: r.chance(1, 3), unique: true };
            gen_dir(&mut r, &o, &[0], || true)
        }
        _ => {
            name = "mixed";
            spec.contents = gen_contents(ctx, &mut r, Plan::Mixed(4, 200));
            let o = DirOpts { refs: false, sort: r.chance(1, 4), unique: true, ..Default::default() };
            let slots = [spec.contents.len()];
            gen_dir(&mut r, &o, &slots, || ctx.keep())
        }
    };
    must &= tails_fit(&spec.dir);
    let route = gen_route(&mut r);
    ctx.tell(format!("{name} {route:?} {}", describe(&spec)));
    if name == "limits" {
        ctx.tell(format!("must succeed: {must}"));
    }
    let mut cfg = ctx.noise("create", 1);
    let entries: usize = spec.dir.stores.iter().map(|s| s.entries.len()).sum();
    let bytes: usize = spec.dir.stores.iter().flat_map(|s| &s.entries).flat_map(|e| &e.vals).map(|v| if let V::A(a) = v { a.len() } else { 8 }).sum();
    let big = entries > 300 || bytes > 100_000;
    if big {
        cfg.p_short_read = cfg.p_short_read.min(2000);
        cfg.p_short_write = cfg.p_short_write.min(2000);
    }
    if name == "many values" && entries > 2000 {
        // (every insertion wakes the pool)
        cfg.quantum = cfg.quantum.max(400);
    }
    let built = match create_ok(ctx, &cfg, &spec, route, &Frees::default()) {
        Ok(b) => b,
        Err(_) if !must => {
            ctx.count("creation.refused", 1);
            return Ok(());
        }
        Err(f) => return Err(f),
    };
    // positions: unsorted stores keep insertion order; for sorted ones only the
    // multiset of entries is judged here, with windows being slices of it
    let mut ident = built.clone();
    for (s, st) in spec.dir.stores.iter().enumerate() {
        if st.sort.is_none() {
            ident.handles[s] = (0..st.entries.len() as u32).collect();
        }
    }
    let mut judged = spec.clone();
    judged.dir.indexes.retain(|i| judged.dir.stores[i.store].sort.is_none());
    let mut want = Facts::new();
    judged.entry_facts(&ident, &mut want);
    for ix in &spec.dir.indexes {
        want.insert(K::Index(ix.name.clone(), "count"), F::U(ix.count as u64));
    }
    let names: Vec<String> = spec.dir.indexes.iter().map(|i| i.name.clone()).collect();
    let typed = r.chance(2, 3);
    let out = ctx.path("out.jbk");
    let mut cfg = ctx.noise("read", 1);
    if big {
        cfg.p_short_read = cfg.p_short_read.min(2000);
    }
    let ph = ctx.phase(&cfg, || enc(&read_all(&out, &Want { names, typed, ..Default::default() })));
    let got = dec(&ctx.must(ph, "read", "reading")?);
    if let Some(d) = first_diff(&want, &got) {
        return fail("value", d);
    }
    if let Some(d) = extra_entry(&want, &got) {
        let sorted = |n: &str| spec.dir.indexes.iter().any(|i| i.name == n && spec.dir.stores[i.store].sort.is_some());
        let real = got.iter().any(|(k, _)| match k {
            K::Entry(n, _, _) => !want.contains_key(k) && !sorted(n),
            _ => false,
        });
        if real {
            return fail("value", d);
        }
    }
    sorted_stores(&spec, &built, &got)?;
    ctx.count(&format!("plan.{name}"), 1);
    let n = want.keys().filter(|k| matches!(k, K::Entry(..))).count();
    ctx.count("values.compared", n as u64);
    if n > 0 {
        ctx.state(shape(&spec));
        ctx.sample(|| describe(&spec));
    }
    Ok(())
}

type Tuple = BTreeMap<String, String>;
/// Rows of an index as read, one map per position.
fn rows(got: &Facts, name: &str, count: u32) -> Vec<Tuple> {
    let mut v = vec![Tuple::new(); count as usize];
    for (k, f) in got {
        if let K::Entry(n, i, p) = k {
            if n == name && (*i as usize) < v.len() {
                v[*i as usize].insert(p.clone(), format!("{f:?}"));
            }
        }
    }
    v
}

fn sorted_stores(spec: &Spec, built: &Built, got: &Facts) -> R {
    for (s, st) in spec.dir.stores.iter().enumerate() {
        if st.sort.is_none() {
            continue;
        }
        let Some(full) = spec.dir.indexes.iter().find(|i| i.store == s && i.offset == 0 && i.count as usize == st.entries.len()) else {
            continue;
        };
        let read = rows(got, &full.name, full.count);
        let mut wanted: Vec<Tuple> = st
            .entries
            .iter()
            .map(|e| {
                let mut t = Tuple::new();
                if !st.variants.is_empty() {
                    t.insert("#variant".into(), format!("{:?}", F::T(st.variants[e.variant].0.into())));
                }
                for (p, v) in st.props(e).iter().zip(&e.vals) {
                    t.insert(p.name.into(), format!("{:?}", expect_value(v, p, built)));
                }
                t
            })
            .collect();
        let mut r2 = read.clone();
        r2.sort();
        wanted.sort();
        if r2 != wanted {
            let a = wanted.iter().zip(&r2).find(|(a, b)| a != b);
            return fail("value", format!("entries of sorted store {s} are not the ones written: {a:?}"));
        }
        for ix in spec.dir.indexes.iter().filter(|i| i.store == s) {
            let w = rows(got, &ix.name, ix.count);
            if w[..] != read[ix.offset as usize..][..ix.count as usize] {
                return fail("window", format!("index {} does not show entries {}..+{} of its store", ix.name, ix.offset, ix.count));
            }
            if got.get(&K::Entry(ix.name.clone(), ix.count, "#entry".into())) != Some(&F::None) {
                return fail("window", format!("index {} shows something beyond its window", ix.name));
            }
        }
    }
    Ok(())
}
