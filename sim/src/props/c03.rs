//! C03: sorted stores follow the reader's order; lookup finds exactly what was written.

use super::c15;
use super::common::*;
use super::Check;
use crate::create::Frees;
use crate::ctx::*;
use crate::facts::*;
use crate::model::*;
use crate::rng::Rng;
use jubako::reader::builder::AnyBuilder;
use jubako::reader::{CompareTrait, Container, EntryTrait, Index as RIndex, Range, RawValue};
use jubako::Value;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

pub const CHECK: Check = Check {
    id: "C03",
    run,
    quick: 18000,
    thorough: 150_000,
    level: "exploration",
    rule: "seeded stores sorted on 1..3 integer, signed or array properties (also followed by properties the sort ignores, variants, shared value stores); array keys drawn from prefix families around the inline prefix length (0..31), over alphabets with 0x00 and 0xff, with the empty key, \
           with and without duplicates, 0..thousands of keys, and stores of more than 65536 entries (the order of every one of them); full and partial index windows. Row order is compared with the sorted keys of the generator; every probe (present, neighbouring absent ones, random) is looked up by binary search, linear scan and the library's own comparator, \
           from one or several simulated threads. Stores sorted on positions of entries of other stores are judged on the order and searches of the keys as read. The search is also run on synthetic sorted ranges (duplicates, any offset, up to 2^32-1 entries, all probes). A case counts when a non-empty sorted window was searched; distinct by key shape, prefix length, store kind, count and window",
    real: "jubako creator (schema, value stores, rayon sort, entry stores, packaging) and reader (range search, builders, raw value comparison, value stores), std",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (real files on tmpfs, short reads and writes injected); the comparator of a synthetic range",
    assumptions: &["sequentially consistent memory", "sort keys are common properties of a type that has an order (integers and arrays)"],
};

fn arr_family(r: &mut Rng, n: usize, fixed: usize) -> Vec<Vec<u8>> {
    let alpha: &[u8] = match r.below(5) {
        0 => &[0x00, 0xff],
        1 => &[0x00],
        2 => &[0x00, 0x01, 0x61, 0xfe, 0xff],
        3 => b"ab",
        _ => &[0x7f, 0x80, 0x00],
    };
    let base_len = match r.below(4) {
        0 => fixed.saturating_sub(1),
        1 => fixed,
        2 => fixed + 1,
        _ => r.below(fixed as u64 + 4) as usize,
    };
    let base: Vec<u8> = if r.chance(1, 2) { vec![*r.pick(alpha); base_len] } else { (0..base_len).map(|_| *r.pick(alpha)).collect() };
    let shape = r.below(5);
    let tail_max = *r.pick(&[0u64, 1, 2, 4, 8, 40, 300]);
    (0..n)
        .map(|i| match shape {
            // extensions of one base
            0 | 1 => {
                let mut k = base.clone();
                for _ in 0..r.below(tail_max + 1) {
                    k.push(*r.pick(alpha));
                }
                k
            }
            // cuts of one base
            2 => {
                let mut k = base.clone();
                k.truncate(r.below(base.len() as u64 + 1) as usize);
                if r.chance(1, 3) {
                    k.push(*r.pick(alpha));
                }
                k
            }
            // mostly distinct numbers spread around the prefix
            3 => {
                let mut k = base.clone();
                k.truncate(r.below(base.len() as u64 + 1) as usize);
                k.extend((i as u32).to_be_bytes());
                k
            }
            _ => {
                let l = r.below(fixed as u64 + tail_max + 1) as usize;
                (0..l).map(|_| if r.chance(1, 4) { r.u64() as u8 } else { *r.pick(alpha) }).collect()
            }
        })
        .collect()
}

fn key_column(r: &mut Rng, kind: &Kind, n: usize) -> Vec<V> {
    match kind {
        Kind::U => {
            let shape = r.below(5);
            let base = gen_u(r);
            (0..n)
                .map(|i| {
                    V::U(match shape {
                        0 => r.below(4),
                        1 => i as u64 * 3,
                        2 => base.wrapping_add(r.below(300)),
                        3 => base,
                        _ => gen_u(r),
                    })
                })
                .collect()
        }
        Kind::S => {
            let shape = r.below(5);
            let base = gen_s(r);
            (0..n)
                .map(|i| {
                    V::S(match shape {
                        0 => r.below(5) as i64 - 2,
                        1 => (i as i64 - n as i64 / 2) * 3,
                        2 => base.wrapping_add(r.below(300) as i64 - 150),
                        3 => base,
                        _ => gen_s(r),
                    })
                })
                .collect()
        }
        Kind::A { fixed, .. } => arr_family(r, n, *fixed).into_iter().map(V::A).collect(),
        _ => unreachable!(),
    }
}

fn gen(ctx: &mut Ctx, r: &mut Rng) -> (Dir, usize) {
    let mut d = Dir::default();
    let nvs = r.range(1, 3) as usize;
    for _ in 0..nvs {
        d.vstores.push(*r.pick(&[Vs::Plain, Vs::Indexed]));
    }
    // sometimes stores before the one that is judged
    if r.chance(1, 4) {
        let mut st = Store::default();
        st.common.push(Prop { name: "other", kind: Kind::A { fixed: r.below(4) as usize, vs: r.idx(nvs) } });
        st.entries = (0..r.below(5)).map(|_| Entry { variant: 0, vals: vec![V::A(gen_arr(r, 30))] }).collect();
        d.stores.push(st);
    }
    let mut st = Store::default();
    let nk = r.weighted(&[0, 6, 3, 1]);
    const KN: [&str; 3] = ["key", "second", "third"];
    let n = if r.chance(1, 40) {
        match r.below(4) {
            0 => 1000 + r.below(100) as usize,
            1 => 2048 + r.below(3) as usize,
            2 if ctx.thorough() => 9000,
            _ => 400,
        }
    } else {
        match r.below(6) {
            0 => r.below(3) as usize,
            1 => 20 + r.below(12) as usize,
            2 => r.below(150) as usize,
            _ => r.below(30) as usize,
        }
    };
    let mut kinds: Vec<Kind> = (0..nk)
        .map(|_| match r.below(6) {
            0 => Kind::U,
            1 => Kind::S,
            _ => Kind::A {
                fixed: match r.below(4) {
                    0 => 0,
                    1 => r.range(1, 3) as usize,
                    2 => r.range(28, 31) as usize,
                    _ => r.below(32) as usize,
                },
                vs: r.idx(nvs),
            },
        })
        .collect();
    let mut cols: Vec<Vec<V>> = kinds.iter().map(|k| key_column(r, k, n)).collect();
    if nk > 1 && n > 0 {
        // few distinct first keys, so that the next one decides
        let few = r.range(1, 4) as usize;
        let firsts: Vec<V> = cols[0].iter().take(few).cloned().collect();
        for v in cols[0].iter_mut() {
            *v = r.pick(&firsts).clone();
        }
    }
    let mut names: Vec<&'static str> = KN[..nk].to_vec();
    // properties the sort ignores, sharing the value stores
    for name in ["extra", "more"] {
        if r.chance(1, 2) {
            let k = match r.below(3) {
                0 => Kind::U,
                _ => Kind::A { fixed: r.below(5) as usize, vs: r.idx(nvs) },
            };
            let c = match &k {
                Kind::A { .. } => (0..n).map(|_| V::A(gen_arr(r, 12))).collect(),
                k => key_column(r, k, n),
            };
            let at = r.below(kinds.len() as u64 + 1) as usize;
            kinds.insert(at, k);
            cols.insert(at, c);
            names.insert(at, name);
        }
    }
    for (n, k) in names.iter().zip(&kinds) {
        st.common.push(Prop { name: n, kind: k.clone() });
    }
    if r.chance(1, 5) {
        st.variants.push(("va", vec![]));
        st.variants.push(("vb", vec![Prop { name: "x", kind: Kind::U }]));
    }
    for i in 0..n {
        let variant = if st.variants.is_empty() { 0 } else { r.idx(2) };
        let mut vals: Vec<V> = cols.iter().map(|c| c[i].clone()).collect();
        if variant == 1 {
            vals.push(V::U(i as u64));
        }
        if ctx.keep() {
            st.entries.push(Entry { variant, vals });
        }
    }
    st.sort = Some(KN[..nk].to_vec());
    if r.chance(2, 3) {
        dedup_keys(&mut st);
    }
    let s = d.stores.len();
    let n = st.entries.len() as u64;
    d.stores.push(st);
    let mut ix = |name: &str, o: u64, c: u64| d.indexes.push(Index { name: name.into(), store: s, offset: o as u32, count: c as u32, key: 0, free: [0; 4] });
    ix("full", 0, n);
    for w in 0..r.below(4) {
        let o = r.below(n + 1);
        let c = if r.chance(1, 4) { (n - o).min(1) } else { r.below(n - o + 1) };
        ix(&format!("w{w}"), o, c);
    }
    (d, s)
}

type Key = Vec<V>;
fn keys_of(st: &Store, e: &Entry) -> Key {
    st.sort.as_ref().unwrap().iter().map(|k| e.vals[st.common.iter().position(|p| p.name == *k).unwrap()].clone()).collect()
}
fn cmp_v(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::U(x), V::U(y)) => x.cmp(y),
        (V::S(x), V::S(y)) => x.cmp(y),
        (V::A(x), V::A(y)) => x.cmp(y),
        _ => unreachable!(),
    }
}
fn cmp_key(a: &Key, b: &Key) -> Ordering {
    a.iter().zip(b).map(|(x, y)| cmp_v(x, y)).find(|o| o.is_ne()).unwrap_or(Ordering::Equal)
}

/// A key near the given one.
fn neighbour(r: &mut Rng, k: &Key) -> Key {
    let mut k = k.clone();
    let i = r.idx(k.len());
    match &mut k[i] {
        V::U(x) => *x = if r.chance(1, 2) { x.wrapping_add(1) } else { x.wrapping_sub(1) },
        V::S(x) => *x = if r.chance(1, 2) { x.wrapping_add(1) } else { x.wrapping_sub(1) },
        V::A(a) => match r.below(7) {
            0 => a.push(0),
            1 => a.push(0xff),
            2 => {
                a.pop();
            }
            3 if !a.is_empty() => {
                let n = a.len() - 1;
                a[n] = a[n].wrapping_add(1);
            }
            4 if !a.is_empty() => {
                let n = a.len() - 1;
                a[n] = a[n].wrapping_sub(1);
            }
            5 if !a.is_empty() => {
                let at = r.idx(a.len());
                a[at] ^= *r.pick(&[1, 0x80, 0xff]);
            }
            _ => {
                let n = r.below(40) as usize;
                let t = r.bytes(n);
                a.extend(t);
            }
        },
        _ => unreachable!(),
    }
    k
}

struct OwnCmp<'a> {
    b: &'a AnyBuilder,
    names: &'a [&'static str],
    key: &'a Key,
    ordered: bool,
    lo: u32,
    hi: u32,
    out_of_range: Cell<bool>,
    calls: Cell<u64>,
}
impl CompareTrait for OwnCmp<'_> {
    fn ordered(&self) -> bool {
        self.ordered
    }
    fn compare_entry(&self, idx: jubako::EntryIdx) -> jubako::Result<Ordering> {
        let i = idx.into_u32();
        self.calls.set(self.calls.get() + 1);
        if i < self.lo || i >= self.hi {
            self.out_of_range.set(true);
            return Ok(Ordering::Equal);
        }
        let Some(e) = self.b_entry(idx)? else {
            self.out_of_range.set(true);
            return Ok(Ordering::Equal);
        };
        for (n, k) in self.names.iter().zip(self.key) {
            let v = e.get_value(n)?.expect("sort key");
            let o = match (&v, k) {
                (RawValue::Array(a), V::A(k)) => a.cmp(k)?,
                (v, V::U(k)) => v.as_unsigned().cmp(k),
                (v, V::S(k)) => v.as_signed().cmp(k),
                _ => panic!("unexpected type {v:?}"),
            };
            if o.is_ne() {
                return Ok(o);
            }
        }
        Ok(Ordering::Equal)
    }
}
impl<'a> OwnCmp<'a> {
    fn b_entry(&self, idx: jubako::EntryIdx) -> jubako::Result<Option<impl EntryTrait + 'a>> {
        use jubako::reader::builder::BuilderTrait;
        let b: &'a AnyBuilder = self.b;
        b.create_entry(idx)
    }
}

fn value_of(v: &V) -> Value {
    match v {
        V::U(x) => Value::Unsigned(*x),
        V::S(x) => Value::Signed(*x),
        V::A(a) => Value::Array(a.as_slice().into()),
        _ => unreachable!(),
    }
}

/// Looks up probes in one index; reports what disagrees as text.
fn search(c: &Container, name: &str, keys: &[&'static str], window: &[Key], probes: &[Key], slow: usize) -> Result<u64, String> {
    let es = |e: jubako::Error| format!("{e}");
    let ix: RIndex = c.get_index_for_name(name).map_err(es)?.ok_or("no such index")?;
    let store = ix.get_store(c.get_entry_storage()).map_err(es)?;
    let b = AnyBuilder::new(store, &**c.get_value_storage()).map_err(es)?;
    let lo = ix.offset().into_u32();
    let hi = lo + ix.count().into_u32();
    let mut done = 0;
    for (pi, p) in probes.iter().enumerate() {
        let present = quiet(|| window.binary_search_by(|k| cmp_key(k, p)).is_ok());
        for mode in ["binary", "linear", "library"] {
            if mode != "binary" && pi >= slow {
                continue;
            }
            let found = if mode == "library" {
                let q = if p.len() == 1 {
                    b.new_property_compare(keys[0].to_string(), value_of(&p[0]))
                } else {
                    b.new_multiple_property_compare(keys.iter().map(|k| k.to_string()).collect(), p.iter().map(value_of).collect())
                };
                ix.find(&q)
            } else {
                let q = OwnCmp { b: &b, names: keys, key: p, ordered: mode == "binary", lo, hi, out_of_range: Cell::new(false), calls: Cell::new(0) };
                let f = ix.find(&q);
                if q.out_of_range.get() {
                    return Err(format!("{name}: {mode} search of {p:?} looked at an entry outside of the window"));
                }
                f
            };
            let found = found.map_err(|e| format!("{name}: {mode} search of {p:?}: {e}"))?;
            match found {
                None if present => return Err(format!("{name}: {mode} search does not find {p:?}, which was written")),
                None => {}
                Some(i) => {
                    let i = i.into_u32();
                    let at = quiet(|| window.get(i as usize).map(|k| cmp_key(k, p).is_eq()));
                    if at != Some(true) {
                        return Err(format!("{name}: {mode} search of {p:?} (written: {present}) gives entry {i}, which has {:?}", window.get(i as usize)));
                    }
                    // what the reader itself shows there
                    let e = ix.get_entry(&b, i.into()).map_err(es)?.ok_or(format!("{name}: found entry {i} of {p:?} does not exist"))?;
                    for (n, k) in keys.iter().zip(p) {
                        let v = e.get_value(n).map_err(es)?.ok_or("no key")?.get().map_err(es)?;
                        let same = quiet(|| match (value_fact(v), k) {
                            (F::U(a), V::U(b)) => a == *b,
                            (F::S(a), V::S(b)) => a == *b,
                            (F::B(a), V::A(b)) => a == *b,
                            _ => false,
                        });
                        if !same {
                            return Err(format!("{name}: {mode} search of {p:?} gives entry {i}, whose {n} reads otherwise"));
                        }
                    }
                }
            }
            done += 1;
        }
    }
    Ok(done)
}
use crate::rt::quiet;

// ---------------------------------------------------------------- synthetic

struct Synth {
    off: u32,
    n: u32,
}
impl Range for Synth {
    fn count(&self) -> jubako::EntryCount {
        self.n.into()
    }
    fn offset(&self) -> jubako::EntryIdx {
        self.off.into()
    }
}
struct SynthCmp<'a> {
    s: &'a Synth,
    at: &'a dyn Fn(u32) -> u64,
    probe: u64,
    ordered: bool,
    bad: RefCell<Option<u32>>,
    calls: Cell<u64>,
    /// stop after this many calls
    cap: u64,
}
impl CompareTrait for SynthCmp<'_> {
    fn ordered(&self) -> bool {
        self.ordered
    }
    fn compare_entry(&self, idx: jubako::EntryIdx) -> jubako::Result<Ordering> {
        let i = idx.into_u32();
        self.calls.set(self.calls.get() + 1);
        if i < self.s.off || i - self.s.off >= self.s.n || self.calls.get() > self.cap {
            *self.bad.borrow_mut() = Some(i);
            return Ok(Ordering::Equal);
        }
        Ok((self.at)(i - self.s.off).cmp(&self.probe))
    }
}
fn synth_one(s: &Synth, at: &dyn Fn(u32) -> u64, probe: u64, present: bool, linear: bool) -> Result<(), String> {
    for ordered in [true, false] {
        if !ordered && !linear {
            continue;
        }
        let cap = if ordered { 80 } else { s.n as u64 };
        let q = SynthCmp { s, at, probe, ordered, bad: RefCell::new(None), calls: Cell::new(0), cap };
        let got = s.find(&q).map_err(|e| format!("{e}"))?;
        let what = || format!("range of {} entries at {} (ordered search: {ordered}), probe {probe}", s.n, s.off);
        if let Some(i) = *q.bad.borrow() {
            return Err(format!("{}: comparison {} is with entry {i}: outside of the range, or endless", what(), q.calls.get()));
        }
        match got {
            None if present => return Err(format!("{}: not found", what())),
            None => {}
            Some(i) => {
                let i = i.into_u32();
                if i >= s.n || at(i) != probe {
                    return Err(format!("{}: found at {i}", what()));
                }
            }
        }
    }
    Ok(())
}
fn synthetic(seed: u64, rounds: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let mut n = 0;
    for _ in 0..rounds {
        let len = match r.below(4) {
            0 => r.below(5),
            1 => r.below(18),
            _ => r.below(70),
        } as u32;
        let off = match r.below(3) {
            0 => 0,
            1 => r.below(1000) as u32,
            _ => u32::MAX - len,
        };
        let step = r.range(1, 4);
        let mut v: Vec<u64> = vec![];
        let mut x = r.below(3);
        for _ in 0..len {
            v.push(x);
            x += if step == 1 { r.below(2) } else { r.below(step + 1) };
        }
        let s = Synth { off, n: len };
        let at = |i: u32| v[i as usize];
        for p in 0..=x + 2 {
            let present = quiet(|| v.contains(&p));
            synth_one(&s, &at, p, present, true)?;
            n += 1;
        }
    }
    // ranges as long as indexes can be
    for _ in 0..4 {
        let cnt = match r.below(4) {
            0 => u32::MAX,
            1 => u32::MAX - r.below(5) as u32,
            2 => (1 << 31) + r.below(5) as u32 - 2,
            _ => r.u64() as u32 | 1 << 20,
        };
        let off = r.below((u32::MAX - cnt) as u64 + 1) as u32;
        let dup = *r.pick(&[1u64, 2, 7, 1 << 20]);
        let s = Synth { off, n: cnt };
        let at = |i: u32| (i as u64 / dup) * 2;
        let top = at(cnt - 1);
        for p in [0, 1, top, top + 1, top + 2, top / 2, r.below(top + 2), r.below(top + 2)] {
            synth_one(&s, &at, p, p % 2 == 0 && p <= top, false)?;
            n += 1;
        }
    }
    Ok(n)
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    if ctx.index % 512 == 11 {
        return huge(ctx);
    }
    let mut r = ctx.rng("scenario");
    if r.chance(1, 10) {
        return deferred(ctx, &mut r);
    }
    let mut spec = Spec::empty();
    spec.comp = Comp::None;
    spec.mode = *r.pick(&Mode::ALL);
    let (dir, s) = gen(ctx, &mut r);
    spec.dir = dir;
    let st = spec.dir.stores[s].clone();
    let names = st.sort.clone().unwrap();
    let route = gen_route(&mut r);
    ctx.tell(format!("{route:?} {}", describe(&spec)));
    if st.entries.len() <= 40 {
        ctx.tell(format!("keys of the sorted store, in insertion order: {:?}", st.entries.iter().map(|e| keys_of(&st, e)).collect::<Vec<_>>()));
    }
    let big = st.entries.len() > 300;
    let mut cfg = ctx.noise("create", 1);
    if big {
        cfg.p_short_read = cfg.p_short_read.min(2000);
        cfg.p_short_write = cfg.p_short_write.min(2000);
    }
    create_ok(ctx, &cfg, &spec, route, &Frees::default())?;

    let mut sorted: Vec<Key> = st.entries.iter().map(|e| keys_of(&st, e)).collect();
    let dups = {
        sorted.sort_by(cmp_key);
        sorted.windows(2).any(|w| cmp_key(&w[0], &w[1]).is_eq())
    };
    // probes
    let n = sorted.len();
    let mut probes: Vec<Key> = if n <= 60 { sorted.clone() } else { (0..60).map(|_| r.pick(&sorted).clone()).collect() };
    probes.dedup();
    for _ in 0..if n == 0 { 0 } else { r.range(10, 50) } {
        let k = r.pick(&sorted).clone();
        probes.push(neighbour(&mut r, &k));
    }
    if n > 0 {
        probes.push(sorted[0].clone());
        probes.push(sorted[n - 1].clone());
    }
    let kinds: Vec<Kind> = names.iter().map(|k| st.common.iter().find(|p| p.name == *k).unwrap().kind.clone()).collect();
    for _ in 0..4 {
        probes.push(kinds.iter().map(|k| key_column(&mut r, k, 1).pop().unwrap()).collect());
    }
    probes.push(
        kinds
            .iter()
            .map(|k| match k {
                Kind::U => V::U(0),
                Kind::S => V::S(i64::MIN),
                _ => V::A(vec![]),
            })
            .collect(),
    );
    let slow = 40_000 / n.max(1);
    let windows: Vec<(String, Vec<Key>)> = spec.dir.indexes.iter().map(|ix| (ix.name.clone(), sorted[ix.offset as usize..][..ix.count as usize].to_vec())).collect();
    let threads = if r.chance(1, 4) { r.range(2, 4) } else { 1 };
    let typed = r.chance(1, 3);
    let rounds = r.range(1, 4);
    let sseed = r.u64();
    let out = ctx.path("out.jbk");
    let mut cfg = ctx.noise("read", 1);
    if big {
        cfg.p_short_read = cfg.p_short_read.min(2000);
    }
    let index_names: Vec<String> = windows.iter().map(|w| w.0.clone()).collect();
    let ph = ctx.phase(&cfg, || {
        let f = read_all(&out, &Want { names: index_names, typed, ..Default::default() });
        let mut e = Enc(vec![]);
        e.facts(&f);
        let found = (|| -> Result<u64, String> {
            let mut n = quiet(|| synthetic(sseed, rounds))?;
            let c = Container::new(&out).map_err(|e| format!("{e}"))?;
            if threads == 1 {
                for (name, w) in &windows {
                    n += search(&c, name, &names, w, &probes, slow)?;
                }
            } else {
                let res: Vec<Result<u64, String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..threads as usize)
                        .map(|t| {
                            let (c, windows, names, probes) = (&c, &windows, &names, &probes);
                            sc.spawn(move || {
                                let mut n = 0;
                                for i in 0..windows.len() {
                                    let (name, w) = &windows[(i + t) % windows.len()];
                                    n += search(c, name, names, w, probes, slow / 2)?;
                                }
                                Ok(n)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a searching thread panicked".into()))).collect()
                });
                for x in res {
                    n += x?;
                }
            }
            Ok(n)
        })();
        match found {
            Ok(n) => {
                e.u(n);
                e.b(b"");
            }
            Err(m) => {
                e.u(0);
                e.b(m.as_bytes());
            }
        }
        e.0
    });
    let bytes = ctx.must(ph, "read", "reading")?;
    let mut d = Dec(&bytes);
    let got = d.facts();
    let searches = d.u();
    let msg = d.s();

    // order, and every row's key
    for (ix, (name, w)) in spec.dir.indexes.iter().zip(&windows) {
        if got.get(&K::Index(name.clone(), "count")) != Some(&F::U(ix.count as u64)) {
            return fail("order", format!("index {name}: count {:?}", got.get(&K::Index(name.clone(), "count"))));
        }
        let mut last: Option<Key> = None;
        for (i, k) in w.iter().enumerate() {
            let read: Option<Key> = names
                .iter()
                .map(|n| match got.get(&K::Entry(name.clone(), i as u32, n.to_string())) {
                    Some(F::U(x)) => Some(V::U(*x)),
                    Some(F::S(x)) => Some(V::S(*x)),
                    Some(F::B(x)) => Some(V::A(x.clone())),
                    _ => None,
                })
                .collect();
            let Some(read) = read.filter(|x| x.iter().zip(k).all(|(a, b)| std::mem::discriminant(a) == std::mem::discriminant(b))) else {
                return fail("order", format!("index {name}: the keys of entry {i} cannot be read"));
            };
            if let Some(l) = &last {
                if cmp_key(l, &read).is_gt() {
                    return fail("order", format!("index {name}: entry {i} has {read:?}, less than {l:?} before it"));
                }
            }
            if cmp_key(&read, k).is_ne() {
                return fail("order", format!("index {name}: entry {i} has {read:?} where the sorted keys have {k:?}"));
            }
            last = Some(read);
        }
    }
    if !msg.is_empty() {
        return fail("search", msg);
    }
    ctx.count("searches", searches);
    if dups {
        ctx.count("stores.with_duplicate_keys", 1);
    }
    if n > 0 {
        let mut x = h(shape(&spec), dups as u64);
        for w in &windows {
            x = h(x, w.1.len() as u64);
        }
        ctx.state(x);
        ctx.sample(|| describe(&spec));
    }
    Ok(())
}

/// More entries than 16 bits count: the order of every one of them, and searches.
fn huge(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng("scenario");
    let n = match r.below(6) {
        0 => 65_535 + r.below(3) as usize,
        1 if ctx.thorough() => r.range(130_000, 250_000) as usize,
        _ => r.range(65_600, 90_000) as usize,
    };
    let mut spec = Spec::empty();
    spec.comp = Comp::None;
    spec.mode = *r.pick(&Mode::ALL);
    spec.dir.vstores.push(Vs::Plain);
    let mut st = Store::default();
    let kind = match r.below(4) {
        0 => Kind::U,
        1 => Kind::S,
        _ => Kind::A { fixed: *r.pick(&[0, 1, 2, 3, 4, 5, 8, 31]), vs: 0 },
    };
    let two = r.chance(1, 2);
    st.common.push(Prop { name: "key", kind: kind.clone() });
    st.common.push(Prop { name: "number", kind: Kind::U });
    if r.chance(1, 2) {
        st.common.push(Prop { name: "wide", kind: Kind::A { fixed: 31, vs: 0 } });
    }
    st.sort = Some(if two { vec!["key", "number"] } else { vec!["key"] });
    let salt = r.u64();
    // how many distinct first keys
    let distinct = *r.pick(&[1u64 << 40, 1 << 40, 100_000, 3000, 40]);
    let order = r.below(3);
    let prefix = r.below(6) as usize;
    let group = n.div_ceil(128);
    let mut keep = true;
    for i in 0..n {
        if i % group == 0 {
            keep = ctx.keep();
        }
        let m = crate::rng::mix64(salt ^ i as u64);
        let x = match order {
            0 => i as u64,
            1 => (n - i) as u64,
            _ => m,
        } % distinct;
        let v = match &kind {
            Kind::U => V::U(x.wrapping_mul(3)),
            Kind::S => V::S((x as i64 - n as i64 / 2).wrapping_mul(3)),
            _ => {
                let mut a = vec![b'p'; prefix];
                let b = x.to_be_bytes();
                a.extend(&b[if distinct > 1 << 32 { 2 } else { 4 }..]);
                // (not fewer than tell them apart)
                a.resize(a.len() + (x % 5) as usize, 0);
                V::A(a)
            }
        };
        let mut vals = vec![v, V::U(m >> 20)];
        if st.common.len() > 2 {
            vals.push(V::A(vec![m as u8; 33]));
        }
        if keep {
            st.entries.push(Entry { variant: 0, vals });
        }
    }
    let n = st.entries.len() as u32;
    let mut ix = |name: &str, o: u32, c: u32| {
        let o = o.min(n);
        spec.dir.indexes.push(Index { name: name.into(), store: 0, offset: o, count: c.min(n - o), key: 0, free: [0; 4] })
    };
    ix("full", 0, n);
    ix("beyond", 65_530, u32::MAX);
    ix("part", r.below(n as u64 + 1) as u32, r.below(n as u64 + 1) as u32);
    spec.dir.stores.push(st.clone());
    let names = st.sort.clone().unwrap();
    let route = gen_route(&mut r);
    ctx.tell(format!("huge {route:?} {}", describe(&spec)));
    let mut cfg = ctx.noise("create", 1);
    cfg.p_short_read = cfg.p_short_read.min(500);
    cfg.p_short_write = cfg.p_short_write.min(500);
    create_ok(ctx, &cfg, &spec, route, &Frees::default())?;
    let mut sorted: Vec<Key> = st.entries.iter().map(|e| keys_of(&st, e)).collect();
    sorted.sort_by(cmp_key);
    let windows: Vec<(String, Vec<Key>)> = spec.dir.indexes.iter().map(|ix| (ix.name.clone(), sorted[ix.offset as usize..][..ix.count as usize].to_vec())).collect();
    let mut probes: Vec<Key> = vec![];
    if n > 0 {
        // (the first ones are searched linearly too)
        probes.push(sorted[n as usize - 1].clone());
        probes.push(sorted[(n as usize - 1).min(65_536)].clone());
        probes.push(sorted[0].clone());
        for _ in 0..150 {
            let k = r.pick(&sorted).clone();
            probes.push(if r.chance(1, 2) { neighbour(&mut r, &k) } else { k });
        }
    }
    let out = ctx.path("out.jbk");
    let mut cfg = ctx.noise("read", 1);
    cfg.p_short_read = cfg.p_short_read.min(500);
    let ph = ctx.phase(&cfg, || {
        let mut e = Enc::default();
        let all = || -> Result<u64, (u64, String)> {
            let c = Container::new(&out).map_err(|e| (0, format!("{e}")))?;
            in_order(&c, &names, &windows).map_err(|m| (0, m))?;
            let mut n = 0;
            for (name, w) in &windows {
                n += search(&c, name, &names, w, &probes, if name == "part" { 1 } else { 2 }).map_err(|m| (1, m))?;
            }
            Ok(n)
        };
        match all() {
            Ok(n) => {
                e.u(n);
                e.b(b"");
            }
            Err((k, m)) => {
                e.u(k);
                e.b(m.as_bytes());
            }
        }
        e.0
    });
    let bytes = ctx.must(ph, "read", "reading")?;
    let mut d = Dec(&bytes);
    let k = d.u();
    let msg = d.s();
    if !msg.is_empty() {
        return fail(if k == 0 { "order" } else { "search" }, msg);
    }
    ctx.count("searches", k);
    ctx.count("stores.huge", 1);
    ctx.state(h(shape(&spec), distinct));
    ctx.sample(|| describe(&spec));
    Ok(())
}

/// The keys of every entry of every index.
fn in_order(c: &Container, names: &[&'static str], windows: &[(String, Vec<Key>)]) -> Result<(), String> {
    let es = |e: jubako::Error| format!("{e}");
    for (name, w) in windows {
        let ix: RIndex = c.get_index_for_name(name).map_err(es)?.ok_or("no such index")?;
        let store = ix.get_store(c.get_entry_storage()).map_err(es)?;
        let b = AnyBuilder::new(store, &**c.get_value_storage()).map_err(es)?;
        if ix.count().into_u32() as usize != w.len() {
            return Err(format!("{name}: {} entries, {} written", ix.count().into_u32(), w.len()));
        }
        for (i, k) in w.iter().enumerate() {
            let e = ix.get_entry(&b, (i as u32).into()).map_err(es)?.ok_or_else(|| format!("{name}: no entry {i}"))?;
            for (p, v) in names.iter().zip(k) {
                let g = e.get_value(p).map_err(es)?.ok_or("no key")?.get().map_err(es)?;
                let g = value_fact(g);
                let same = match (&g, v) {
                    (F::U(a), V::U(b)) => a == b,
                    (F::S(a), V::S(b)) => a == b,
                    (F::B(a), V::A(b)) => a == b,
                    _ => false,
                };
                if !same {
                    return Err(format!("{name}: entry {i} has {g:?} where the sorted keys have {v:?}"));
                }
            }
        }
    }
    Ok(())
}

/// Stores sorted on positions of entries of other stores, known only once those are sorted.
fn deferred(ctx: &mut Ctx, r: &mut Rng) -> R {
    let sts = c15::gen(ctx, r, true);
    let mode = *r.pick(&Mode::ALL);
    if c15::cyclic(&sts) || sts.iter().any(|s| s.rows.len() > 600) {
        // no order may exist, or searching takes long
        return Ok(());
    }
    for (s, st) in sts.iter().enumerate() {
        ctx.tell(format!("store {s}: {} entries, columns {:?}, sorted on {:?}", st.rows.len(), st.cols, st.sort));
        if st.rows.len() <= 20 {
            st.rows.iter().for_each(|r| ctx.tell(format!("  {r:?}")));
        }
    }
    let mut cfg = ctx.noise("create", 1);
    cfg.p_short_write = cfg.p_short_write.min(2000);
    let root = ctx.root.clone();
    let given = sts.clone();
    let ph = ctx.phase(&cfg, || match c15::make(&root, given, mode) {
        Ok(_) => vec![],
        Err(m) => m.into_bytes(),
    });
    let out = ctx.must(ph, "create", "creation")?;
    if !out.is_empty() {
        return fail("create", format!("creation: {}", String::from_utf8_lossy(&out)));
    }
    let mut cfg = ctx.noise("read", 0);
    cfg.p_short_read = cfg.p_short_read.min(2000);
    let out = ctx.path("out.jbk");
    let names: Vec<String> = (0..sts.len()).map(|s| format!("full{s}")).collect();
    let ph = ctx.phase(&cfg, || enc(&read_all(&out, &Want { names: names.clone(), max_entries: u32::MAX, ..Default::default() })));
    let got = dec(&ctx.must(ph, "read", "reading")?);
    let mut todo: Vec<(String, Vec<&'static str>, Vec<Key>, Vec<Key>)> = vec![];
    for (s, st) in sts.iter().enumerate() {
        let Some(keys) = &st.sort else { continue };
        let mut window: Vec<Key> = vec![];
        for i in 0..st.rows.len() as u32 {
            let read: Option<Key> = keys
                .iter()
                .map(|n| match got.get(&K::Entry(names[s].clone(), i, n.to_string())) {
                    Some(F::U(x)) => Some(V::U(*x)),
                    Some(F::S(x)) => Some(V::S(*x)),
                    Some(F::B(x)) => Some(V::A(x.clone())),
                    _ => None,
                })
                .collect();
            let Some(read) = read else {
                return fail("order", format!("store {s}: the keys of entry {i} cannot be read"));
            };
            if let Some(l) = window.last() {
                if cmp_key(l, &read).is_gt() {
                    return fail("order", format!("store {s}, sorted on {keys:?}: entry {i} has {read:?}, less than {l:?} before it"));
                }
            }
            window.push(read);
        }
        let mut probes = vec![];
        for _ in 0..if window.is_empty() { 0 } else { 12 } {
            let k = r.pick(&window).clone();
            probes.push(if r.chance(1, 2) { neighbour(r, &k) } else { k });
        }
        todo.push((names[s].clone(), keys.clone(), window, probes));
    }
    let mut cfg = ctx.noise("search", 0);
    cfg.p_short_read = cfg.p_short_read.min(2000);
    let ph = ctx.phase(&cfg, || {
        let mut e = Enc::default();
        let all = || -> Result<u64, String> {
            let c = Container::new(&out).map_err(|e| format!("{e}"))?;
            let mut n = 0;
            for (name, keys, window, probes) in &todo {
                n += search(&c, name, keys, window, probes, 4)?;
            }
            Ok(n)
        };
        match all() {
            Ok(n) => {
                e.u(n);
                e.b(b"");
            }
            Err(m) => {
                e.u(0);
                e.b(m.as_bytes());
            }
        }
        e.0
    });
    let bytes = ctx.must(ph, "search", "searching")?;
    let mut d = Dec(&bytes);
    let n = d.u();
    let msg = d.s();
    if !msg.is_empty() {
        return fail("search", msg);
    }
    ctx.count("searches", n);
    ctx.count("stores.sorted_on_references", todo.len() as u64);
    if n > 0 {
        let mut x = 3;
        for st in &sts {
            x = hs(x, &format!("{:?}{:?}", st.cols, st.sort));
            x = h(x, st.rows.len() as u64);
        }
        ctx.state(x);
    }
    Ok(())
}
