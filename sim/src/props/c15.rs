//! C15: a property bound to an entry's position is stored as its final position, and handles report it.

use super::common::*;
use super::Check;
use crate::create::{concat_mode, es, Es};
use crate::ctx::*;
use crate::facts::*;
use crate::model::{gen_arr, gen_s, gen_u, Mode};
use crate::rng::Rng;
use crate::rt::{quiet, Outcome, Ph};
use jubako::creator::schema::{CommonProperties, Property, Schema, VariantProperties};
use jubako::creator::{
    BasicCreator, BasicEntry, Compression, DirectoryPackCreator, EntryStore, StoreHandle, ValueStore,
};
use jubako::{Bound, EntryCount, EntryIdx, Value, VendorId, Vow};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

pub const CHECK: Check = Check {
    id: "C15",
    run,
    quick: 14000,
    thorough: 200_000,
    level: "exploration",
    rule: "seeded directories of 1..4 stores (0..40 entries, some at 250..262, 500..3000 or 65530..74530) with up to 5 reference columns (unsigned and signed, common and in variants, to the own store and to others), \
           pointing backward, forward, to itself, in chains, all to one, at random, mixed with plain numbers; stores unsorted or sorted on unique or repeated integer, signed and array keys, in given, reversed or random order, and on references. \
           References are made from handles taken before insertion, handles returned by it, and closures over handles not yet known; entries plain or boxed. Created under seeded schedules of the parallel sort and index assignment (1..16 CPUs), read back through the full index: \
           every reference must be the position at which the referenced entry (known by its identity column) is read, and so must every handle. A case counts when a reference was compared; distinct by store sizes, columns, pattern and sort",
    real: "jubako creator (deferred values, entry stores, schema, rayon sort and index assignment, packaging) and reader (builders, indexes), std",
    stub: "kernel scheduling, futexes, clock, randomness, CPU count; file system results (real files on tmpfs, short reads and writes injected)",
    assumptions: &["sequentially consistent memory", "a store sorted on references to itself, or in a cycle, may be refused (its order may not exist)"],
};

#[derive(Clone, Debug)]
pub enum Val {
    U(u64),
    S(i64),
    A(Vec<u8>),
    Ref(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    U,
    S,
    A(usize),
    Ref { store: usize, signed: bool },
}
#[derive(Clone, Debug)]
pub struct Col {
    pub name: &'static str,
    kind: Kind,
    /// none: common; else the variant it belongs to
    variant: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Row {
    id: u64,
    variant: usize,
    vals: Vec<Val>,
    /// entry made with a vow of ours, holding at first
    vow: Option<u32>,
}
#[derive(Clone, Debug)]
pub struct St {
    pub cols: Vec<Col>,
    variants: usize,
    pub sort: Option<Vec<&'static str>>,
    pub rows: Vec<Row>,
    boxed: bool,
}
impl St {
    fn cols(&self, variant: usize) -> impl Iterator<Item = (usize, &Col)> {
        self.cols.iter().enumerate().filter(move |c| c.1.variant.is_none_or(|v| v == variant))
    }
}

const REFS: [&str; 6] = ["r0", "r1", "r2", "r3", "r4", "r5"];
const VARS: [&str; 3] = ["va", "vb", "vc"];

fn gen_len(ctx: &Ctx, r: &mut Rng) -> usize {
    (match r.below(60) {
        0 => r.below(2),
        1..=6 => 250 + r.below(12),
        7 | 8 => 500 + r.below(2500),
        9 if r.chance(1, if ctx.thorough() { 6 } else { 20 }) => 65530 + if r.chance(1, 3) { r.below(10) } else { r.below(9000) },
        10..=20 => r.range(1, 4),
        _ => r.range(1, 40),
    }) as usize
}

/// `by_ref`: most stores are sorted on references
pub fn gen(ctx: &mut Ctx, r: &mut Rng, by_ref: bool) -> Vec<St> {
    let n = r.range(1, 4) as usize;
    let lens: Vec<usize> = (0..n).map(|_| gen_len(ctx, r)).collect();
    // the minimiser drops entries in at most 64 groups per store
    let kept: Vec<Vec<bool>> = lens
        .iter()
        .map(|n| {
            let g = n.div_ceil(64).max(1);
            let mut v = vec![];
            while v.len() < *n {
                let k = ctx.keep();
                v.extend(vec![k; g.min(*n - v.len())]);
            }
            v
        })
        .collect();
    let live: Vec<Vec<usize>> = kept.iter().map(|k| (0..k.len()).filter(|i| k[*i]).collect()).collect();
    // by_ref: a store is sorted on references to stores of lower rank only
    let mut rank: Vec<usize> = (0..n).collect();
    for i in 0..n {
        let j = i + r.idx(n - i);
        rank.swap(i, j);
    }
    let mut out = vec![];
    for s in 0..n {
        let len = lens[s];
        let variants = if r.chance(1, 4) { r.range(1, 3) as usize } else { 0 };
        let mut cols = vec![];
        let mut data: Vec<Vec<Val>> = vec![];
        let mut keys: Vec<&'static str> = vec![];
        // keys the sort may use
        for name in ["k0", "k1"] {
            let kind = match r.below(8) {
                0 | 1 => continue,
                2..=4 => Kind::U,
                5 => Kind::S,
                _ => Kind::A(*r.pick(&[0, 1, 2, 3, 31])),
            };
            let shape = r.below(7);
            let col = (0..len)
                .map(|i| {
                    let v: u64 = match shape {
                        0 => i as u64,
                        1 => (len - i) as u64,
                        2 => r.below(3),
                        3 => 7,
                        4 => i as u64 ^ 1,
                        _ => r.u64() >> r.below(60),
                    };
                    match &kind {
                        Kind::U if shape == 6 => Val::U(gen_u(r)),
                        Kind::S if shape == 6 => Val::S(gen_s(r)),
                        Kind::A(_) if shape == 6 => Val::A(gen_arr(r, 40)),
                        Kind::U => Val::U(v),
                        Kind::S => Val::S((v as i64).wrapping_neg()),
                        _ => Val::A(v.to_be_bytes()[4..].to_vec()),
                    }
                })
                .collect();
            cols.push(Col { name, kind, variant: None });
            data.push(col);
            keys.push(name);
        }
        let at = r.idx(cols.len() + 1);
        cols.insert(at, Col { name: "id", kind: Kind::U, variant: None });
        let stride = *r.pick(&[1u64, 1, 3, 1 << 20]);
        data.insert(at, (0..len).map(|i| Val::U((i as u64).wrapping_mul(stride))).collect());
        // references
        for name in REFS.iter().take(r.range(1, 5) as usize) {
            let store = if r.chance(1, 2) { s } else { r.idx(n) };
            let signed = r.chance(1, 3);
            let variant = if variants > 0 && r.chance(1, 3) { Some(r.idx(variants)) } else { None };
            let m = lens[store] as u64;
            let pattern = r.below(9);
            let fixed = r.below(m.max(1));
            let col: Vec<Val> = (0..len as u64)
                .map(|i| {
                    let t = match pattern {
                        0 => i,
                        1 => i.saturating_sub(1),
                        2 => i + 1,
                        3 => fixed,
                        4 => m.saturating_sub(1).saturating_sub(i),
                        5 => i / 2,
                        6 => 0,
                        _ => r.below(m.max(1)),
                    };
                    let plain = r.chance(1, 12);
                    let small = r.below(m.max(1));
                    if m == 0 || live[store].is_empty() || plain && pattern == 8 {
                        if signed {
                            Val::S(small as i64)
                        } else {
                            Val::U(small)
                        }
                    } else {
                        let t = t.min(m - 1) as usize;
                        // dropped entries are not referred to
                        let t = live[store].iter().position(|x| *x >= t).unwrap_or(live[store].len() - 1);
                        Val::Ref(t)
                    }
                })
                .collect();
            let at = if variant.is_none() { r.idx(cols.len() + 1) } else { cols.len() };
            cols.insert(at, Col { name, kind: Kind::Ref { store, signed }, variant });
            data.insert(at, col);
        }
        let order = r.below(8);
        let rcol = cols.iter().position(|c| matches!(c.kind, Kind::Ref { store, .. } if !by_ref || rank[store] < rank[s]) && c.variant.is_none());
        let on_ref = r.chance(1, 2);
        let sort = match order {
            _ if by_ref && order < 6 && rcol.is_some() => {
                let mut v = vec![cols[rcol.unwrap()].name];
                v.extend(if keys.is_empty() || order == 0 { vec![] } else { keys.clone() });
                Some(v)
            }
            0..=2 => None,
            7 if rcol.is_some() && on_ref => {
                let mut v = vec![cols[rcol.unwrap()].name];
                v.extend(if keys.is_empty() { vec!["id"] } else { keys.clone() });
                Some(v)
            }
            3 => Some(vec!["id"]),
            _ if keys.is_empty() => Some(vec!["id"]),
            _ => {
                if keys.len() > 1 && r.chance(1, 2) {
                    keys.swap(0, 1);
                }
                keys.truncate(r.range(1, keys.len() as u64) as usize);
                Some(keys)
            }
        };
        let boxed = r.chance(1, 3);
        let vows = r.below(3);
        let mut rows = vec![];
        for i in 0..len {
            let variant = if variants > 0 { r.idx(variants) } else { 0 };
            let own = match vows {
                0 => true,
                1 => false,
                _ => r.chance(1, 2),
            };
            let first = *r.pick(&[0, 0, 1, 0xffff, u32::MAX]);
            let vals = data.iter().map(|c| c[i].clone()).collect();
            let id = (i as u64).wrapping_mul(stride);
            if kept[s][i] {
                rows.push(Row { id, variant, vals, vow: own.then_some(first) });
            }
        }
        out.push(St { cols, variants, sort, rows, boxed });
    }
    out
}

/// Stores whose order depends on positions which depend on that order.
pub fn cyclic(sts: &[St]) -> bool {
    let dep = |s: usize| -> Vec<usize> {
        let st = &sts[s];
        let keys = st.sort.clone().unwrap_or_default();
        st.cols
            .iter()
            .filter(|c| keys.contains(&c.name))
            .filter_map(|c| if let Kind::Ref { store, .. } = c.kind { Some(store) } else { None })
            .collect()
    };
    (0..sts.len()).any(|s| {
        let mut todo = dep(s);
        let mut seen = vec![];
        while let Some(x) = todo.pop() {
            if x == s {
                return true;
            }
            if !seen.contains(&x) {
                seen.push(x);
                todo.extend(dep(x));
            }
        }
        false
    })
}

type Name = &'static str;
type Cell = Arc<OnceLock<Bound<EntryIdx>>>;
/// Handles returned by insertion, and the same taken before insertion where there are.
type Handles = Rc<RefCell<Vec<Vec<(Bound<EntryIdx>, Option<Bound<EntryIdx>>)>>>>;

struct Stores {
    sts: Vec<St>,
    handles: Handles,
}

fn property(c: &Col, vs: &StoreHandle) -> Property<Name> {
    match &c.kind {
        Kind::U | Kind::Ref { signed: false, .. } => Property::new_uint(c.name),
        Kind::S | Kind::Ref { .. } => Property::new_sint(c.name),
        Kind::A(n) => Property::new_array(*n, vs.clone(), c.name),
    }
}

impl jubako::creator::EntryStoreTrait for Stores {
    fn finalize(self: Box<Self>, dp: &mut DirectoryPackCreator) {
        let sts = &self.sts;
        let vs = ValueStore::new_plain(None);
        dp.add_value_store(vs.clone());
        let mut vows: Vec<Vec<Option<Vow<EntryIdx>>>> =
            sts.iter().map(|s| s.rows.iter().map(|r| r.vow.map(|v| Vow::new(EntryIdx::from(v)))).collect()).collect();
        // what is known of each handle
        let known: Vec<Vec<Cell>> = vows
            .iter()
            .map(|v| v.iter().map(|v| Arc::new(v.as_ref().map(|v| OnceLock::from(v.bind())).unwrap_or_default())).collect())
            .collect();
        for (s, st) in sts.iter().enumerate() {
            let common = CommonProperties::new(st.cols.iter().filter(|c| c.variant.is_none()).map(|c| property(c, &vs)).collect());
            let variants = (0..st.variants)
                .map(|v| (VARS[v], VariantProperties::new(st.cols.iter().filter(|c| c.variant == Some(v)).map(|c| property(c, &vs)).collect())))
                .collect();
            let schema: Schema<Name, Name> = Schema::new(common, variants, st.sort.clone());
            let make = |schema: &Schema<Name, Name>, i: usize, vow: Option<Vow<EntryIdx>>| {
                let row = &st.rows[i];
                let mut values: HashMap<Name, Value> = HashMap::new();
                for (c, col) in st.cols(row.variant) {
                    let v = match (&row.vals[c], &col.kind) {
                        (Val::U(x), _) => Value::Unsigned(*x),
                        (Val::S(x), _) => Value::Signed(*x),
                        (Val::A(x), _) => Value::Array(x.as_slice().into()),
                        (Val::Ref(t), Kind::Ref { store, signed }) => {
                            let cell = known[*store][*t].clone();
                            match (cell.get(), signed) {
                                (Some(b), false) => Value::UnsignedWord(b.clone().into()),
                                (None, false) => {
                                    let f: Box<dyn Fn() -> u64 + Sync + Send> = Box::new(move || cell.get().unwrap().get().into_u32() as u64);
                                    Value::UnsignedWord(f.into())
                                }
                                (_, true) => {
                                    let f: Box<dyn Fn() -> i64 + Sync + Send> = Box::new(move || cell.get().unwrap().get().into_u32() as i64);
                                    Value::SignedWord(f.into())
                                }
                            }
                        }
                        _ => unreachable!(),
                    };
                    values.insert(col.name, v);
                }
                let variant = (st.variants > 0).then(|| VARS[row.variant]);
                match vow {
                    Some(v) => BasicEntry::new_from_schema_idx(schema, v, variant, values),
                    None => BasicEntry::new_from_schema(schema, variant, values),
                }
            };
            let mut hs = vec![];
            let mut note = |i: usize, b: Bound<EntryIdx>| {
                let own = st.rows[i].vow.is_some().then(|| known[s][i].get().unwrap().clone());
                known[s][i].get_or_init(|| b.clone());
                hs.push((b, own));
            };
            if st.boxed {
                let mut es: EntryStore<Name, Name, Box<BasicEntry<Name, Name>>> = EntryStore::new(schema, Some(st.rows.len()));
                for i in 0..st.rows.len() {
                    let e = make(&es.schema, i, vows[s][i].take());
                    note(i, es.add_entry(Box::new(e)));
                }
                dp.add_entry_store(Box::new(es));
            } else {
                let mut es: EntryStore<Name, Name, BasicEntry<Name, Name>> = EntryStore::new(schema, None);
                for i in 0..st.rows.len() {
                    let e = make(&es.schema, i, vows[s][i].take());
                    note(i, es.add_entry(e));
                }
                dp.add_entry_store(Box::new(es));
            }
            self.handles.borrow_mut().push(hs);
        }
        for (s, st) in sts.iter().enumerate() {
            dp.create_index(&format!("full{s}"), Default::default(), 0.into(), (s as u32).into(), EntryCount::from(st.rows.len() as u32), EntryIdx::from(0).into());
        }
    }
}

pub fn make(root: &str, sts: Vec<St>, mode: Mode) -> Es<Vec<Vec<(u32, Option<u32>)>>> {
    let bc = BasicCreator::new(format!("{root}/out.jbk"), concat_mode(mode), VendorId::from([1; 4]), Compression::None, Arc::new(())).map_err(es)?;
    let handles: Handles = Default::default();
    bc.finalize(Box::new(Stores { sts, handles: handles.clone() }), vec![]).map_err(es)?;
    let h = handles.borrow();
    Ok(h.iter().map(|v| v.iter().map(|(b, o)| (b.get().into_u32(), o.as_ref().map(|o| o.get().into_u32()))).collect()).collect())
}

fn run(ctx: &mut Ctx) -> R {
    ctx.clean();
    let mut r = ctx.rng("scenario");
    let sts = gen(ctx, &mut r, false);
    let mode = *r.pick(&Mode::ALL);
    for (s, st) in sts.iter().enumerate() {
        ctx.tell(format!(
            "store {s}: {} entries, columns {:?}, {} variants, sorted on {:?}{}",
            st.rows.len(),
            st.cols,
            st.variants,
            st.sort,
            if st.boxed { ", boxed entries" } else { "" }
        ));
        if st.rows.len() <= 20 {
            st.rows.iter().for_each(|r| ctx.tell(format!("  {r:?}")));
        }
    }
    let total: usize = sts.iter().map(|s| s.rows.len()).sum();
    let mut cfg = ctx.noise("create", 1);
    if total > 300 {
        cfg.p_short_read = cfg.p_short_read.min(2000);
        cfg.p_short_write = cfg.p_short_write.min(2000);
    }
    let may_refuse = cyclic(&sts);
    let root = ctx.root.clone();
    let given = sts.clone();
    let ph: Ph = ctx.phase(&cfg, || {
        let res = make(&root, given, mode);
        quiet(|| {
            let mut e = Enc::default();
            match res {
                Err(m) => {
                    e.u(1);
                    e.b(m.as_bytes());
                }
                Ok(all) => {
                    e.u(0);
                    for s in all {
                        e.u(s.len() as u64);
                        for (a, b) in s {
                            e.u(a as u64);
                            e.u(b.map_or(u64::MAX, |x| x as u64));
                        }
                    }
                }
            }
            e.0
        })
    });
    if may_refuse && matches!(&ph.outcome, Outcome::Panic(m) if m.contains("Cannot sort")) {
        ctx.count("refused.cyclic_sort", 1);
        return Ok(());
    }
    let out = ctx.must(ph, "create", "creation")?;
    let mut d = Dec(&out);
    if d.u() == 1 {
        return fail("create", format!("creation: {}", String::from_utf8_lossy(d.b())));
    }
    let handles: Vec<Vec<(u64, u64)>> = sts
        .iter()
        .map(|_| {
            let n = d.u();
            (0..n).map(|_| (d.u(), d.u())).collect()
        })
        .collect();
    let mut cfg = ctx.noise("read", 0);
    if total > 300 {
        cfg.p_short_read = cfg.p_short_read.min(2000);
    }
    let out = ctx.path("out.jbk");
    let names: Vec<String> = (0..sts.len()).map(|s| format!("full{s}")).collect();
    let want = Want { names: names.clone(), max_entries: u32::MAX, ..Default::default() };
    let ph = ctx.phase(&cfg, || enc(&read_all(&out, &want)));
    let got = dec(&ctx.must(ph, "read", "reading")?);
    // where each entry is
    let mut pos: Vec<Vec<u64>> = vec![];
    for (s, st) in sts.iter().enumerate() {
        let mut at: std::collections::BTreeMap<u64, u64> = Default::default();
        for i in 0..st.rows.len() as u32 {
            match got.get(&K::Entry(names[s].clone(), i, "id".into())) {
                Some(F::U(id)) => {
                    at.insert(*id, i as u64);
                }
                other => return fail("entry", format!("store {s}, entry {i}: identity reads {other:?}")),
            }
        }
        let mut v = vec![];
        for row in &st.rows {
            match at.get(&row.id) {
                Some(p) => v.push(*p),
                None => return fail("entry", format!("store {s}: the entry of identity {} is nowhere", row.id)),
            }
        }
        pos.push(v);
    }
    let mut compared = 0;
    let mut moved = 0;
    for (s, st) in sts.iter().enumerate() {
        if handles[s].len() != st.rows.len() {
            return fail("handle", format!("store {s}: {} handles", handles[s].len()));
        }
        for (i, row) in st.rows.iter().enumerate() {
            let p = pos[s][i];
            moved += (p != i as u64) as u64;
            let (h, own) = handles[s][i];
            if h != p || own != u64::MAX && own != p {
                return fail(
                    "handle",
                    format!("store {s}: the handle of insertion {i} reports {h}{}, the entry is at {p}", if own != u64::MAX { format!(" ({own} for the one taken before)") } else { String::new() }),
                );
            }
            for (c, col) in st.cols(row.variant) {
                let k = K::Entry(names[s].clone(), p as u32, col.name.into());
                let want = match (&row.vals[c], &col.kind) {
                    (Val::Ref(t), Kind::Ref { store, signed }) => {
                        compared += 1;
                        let t = pos[*store][*t];
                        if *signed {
                            F::S(t as i64)
                        } else {
                            F::U(t)
                        }
                    }
                    (Val::U(x), Kind::Ref { .. }) => F::U(*x),
                    (Val::S(x), Kind::Ref { .. }) => F::S(*x),
                    _ => continue,
                };
                if got.get(&k) != Some(&want) {
                    return fail(
                        "reference",
                        format!("store {s}, insertion {i} (at {p}): {} reads {:?}; {:?} of {:?} is at {want:?}", col.name, got.get(&k), row.vals[c], col.kind),
                    );
                }
            }
        }
    }
    ctx.count("references", compared);
    ctx.count("handles", total as u64);
    ctx.count("entries.moved_by_sort", moved);
    if compared > 0 {
        let mut x = 0;
        for st in &sts {
            x = hs(x, &format!("{:?}{:?}{}", st.cols, st.sort, st.variants));
            x = h(x, st.rows.len() as u64);
        }
        ctx.state(x);
        ctx.sample(|| sts.iter().map(|s| format!("{} entries, {} columns, sort {:?}; ", s.rows.len(), s.cols.len(), s.sort)).collect());
    }
    Ok(())
}
