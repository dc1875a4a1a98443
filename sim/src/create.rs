//! Drives the real creator from a `Spec`.  Runs inside a phase.

use crate::model::*;
use crate::rt::quiet;
use jubako::creator::schema::{CommonProperties, Property, Schema, VariantProperties};
use jubako::creator::{
    AtomicOutFile, BasicCreator, BasicEntry, CachedContentAdder, CompHint, Compression, ConcatMode, ContainerPackCreator,
    ContentAdder, ContentPackCreator, DirectoryPackCreator, EntryStore, EntryStoreTrait, InputFile, InputReader,
    ManifestPackCreator, PackRecipient, Progress, StoreHandle, ValueStore,
};
use jubako::{Bound, ContentAddress, EntryCount, EntryIdx, Value, VendorId, Vow};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

pub type Es<T> = Result<T, String>;
pub fn es<E: std::fmt::Display>(e: E) -> String {
    format!("{e}")
}

pub fn compression(c: Comp) -> Compression {
    match c {
        Comp::None => Compression::None,
        Comp::Lz4(l) => Compression::Lz4(deranged::RangedU32::new(l).unwrap()),
        Comp::Lzma(l) => Compression::Lzma(deranged::RangedU32::new(l).unwrap()),
        Comp::Zstd(l) => Compression::Zstd(deranged::RangedI32::new(l).unwrap()),
    }
}
pub fn hint(h: Hint) -> CompHint {
    match h {
        Hint::Yes => CompHint::Yes,
        Hint::No => CompHint::No,
        Hint::Detect => CompHint::Detect,
    }
}
pub fn concat_mode(m: Mode) -> ConcatMode {
    match m {
        Mode::OneFile => ConcatMode::OneFile,
        Mode::TwoFiles => ConcatMode::TwoFiles,
        Mode::NoConcat => ConcatMode::NoConcat,
    }
}

pub fn src_path(root: &str, slot: usize, i: usize) -> String {
    format!("{root}/src_{slot}_{i}")
}

/// Before the phase: the files contents are read from.
pub fn write_sources(root: &str, spec: &Spec) {
    for (slot, (_, cs)) in spec.slots().iter().enumerate() {
        for (i, c) in cs.iter().enumerate() {
            let (before, after) = match c.src {
                Src::Mem => continue,
                Src::File => (0, 0),
                Src::Range(a, b) => (a, b),
                Src::Tail(a) => (a, 0),
            };
            let mut r = crate::rng::Rng::new(c.seed ^ 0x5151);
            // (what is far from the content is a hole)
            let near = before.min(10_000);
            let mut v = r.bytes(near as usize);
            v.extend(c.bytes());
            v.extend(r.bytes(after as usize));
            let p = src_path(root, slot, i);
            if near == before {
                std::fs::write(p, v).expect("write source");
            } else {
                use std::os::unix::fs::FileExt;
                std::fs::File::create(p).and_then(|f| f.write_all_at(&v, before - near)).expect("write source");
            }
        }
    }
}

pub fn input(root: &str, slot: usize, i: usize, c: &Content) -> Es<Box<dyn InputReader>> {
    let open = || std::fs::File::open(src_path(root, slot, i)).map_err(es);
    Ok(match c.src {
        Src::Mem => Box::new(std::io::Cursor::new(quiet(|| c.bytes()))),
        Src::File => Box::new(InputFile::open(src_path(root, slot, i)).map_err(es)?),
        Src::Range(a, _) => Box::new(InputFile::new_range(open()?, a, Some(c.len as u64)).map_err(es)?),
        Src::Tail(a) => Box::new(InputFile::new_range(open()?, a, None).map_err(es)?),
    })
}

pub fn pair(a: ContentAddress) -> (u16, u32) {
    (a.pack_id.into_u16(), a.content_id.into_u32())
}

fn add_all<A: ContentAdder>(a: &mut A, root: &str, slot: usize, cs: &[Content]) -> Es<Vec<(u16, u32)>> {
    let mut v = vec![];
    for (i, c) in cs.iter().enumerate() {
        let inp = input(root, slot, i, c)?;
        v.push(pair(a.add_content(inp, hint(c.hint)).map_err(es)?));
    }
    Ok(v)
}

type Name = &'static str;
pub type Handles = Rc<RefCell<Vec<Vec<Bound<EntryIdx>>>>>;

fn property(p: &Prop, vs: &[StoreHandle]) -> Property<Name> {
    match &p.kind {
        Kind::U | Kind::RefU(_) => Property::new_uint(p.name),
        Kind::S | Kind::RefS(_) => Property::new_sint(p.name),
        Kind::A { fixed, vs: v } => Property::new_array(*fixed, vs[*v].clone(), p.name),
        Kind::C => Property::new_content_address(p.name),
    }
}

/// Declares the stores and entries of `d` to a directory pack creator.
pub fn fill_directory(d: &Dir, addrs: &[Vec<(u16, u32)>], dp: &mut DirectoryPackCreator, handles: &Handles) {
    let vs: Vec<StoreHandle> = d
        .vstores
        .iter()
        .map(|k| match k {
            Vs::Plain => ValueStore::new_plain(None),
            Vs::Indexed => ValueStore::new_indexed(),
        })
        .collect();
    let vows: Vec<Vec<Vow<EntryIdx>>> =
        d.stores.iter().map(|s| s.entries.iter().map(|_| Vow::new(EntryIdx::from(0))).collect()).collect();
    let binds: Vec<Vec<Bound<EntryIdx>>> = vows.iter().map(|v| v.iter().map(|x| x.bind()).collect()).collect();
    for v in &vs {
        dp.add_value_store(v.clone());
    }
    let mut all = vec![];
    for (st, vows) in d.stores.iter().zip(vows) {
        let common = CommonProperties::new(st.common.iter().map(|p| property(p, &vs)).collect());
        let variants = st
            .variants
            .iter()
            .map(|(n, ps)| (*n, VariantProperties::new(ps.iter().map(|p| property(p, &vs)).collect())))
            .collect();
        let schema: Schema<Name, Name> = Schema::new(common, variants, st.sort.clone());
        let mut store = EntryStore::new(schema, None);
        let mut hs = vec![];
        for (e, vow) in st.entries.iter().zip(vows) {
            let mut values: HashMap<Name, Value> = HashMap::new();
            for (p, v) in st.props(e).iter().zip(&e.vals) {
                let val = match (v, &p.kind) {
                    (V::U(x), _) => Value::Unsigned(*x),
                    (V::S(x), _) => Value::Signed(*x),
                    (V::A(x), _) => Value::Array(x.as_slice().into()),
                    (V::C(a, b), _) => Value::Content(crate::facts::addr(*a, *b)),
                    (V::Ci(s, i), _) => {
                        let (a, b) = addrs[*s][*i];
                        Value::Content(crate::facts::addr(a, b))
                    }
                    (V::Ref(t), Kind::RefU(s)) => Value::UnsignedWord(binds[*s][*t].clone().into()),
                    (V::Ref(t), Kind::RefS(s)) => {
                        let b = BoundBox(binds[*s][*t].clone());
                        let f: Box<dyn Fn() -> i64 + Sync + Send> = Box::new(move || b.get());
                        Value::SignedWord(f.into())
                    }
                    (V::Ref(_), _) => unreachable!(),
                };
                values.insert(p.name, val);
            }
            let variant = (!st.variants.is_empty()).then(|| st.variants[e.variant].0);
            let entry = BasicEntry::new_from_schema_idx(&store.schema, vow, variant, values);
            hs.push(store.add_entry(entry));
        }
        dp.add_entry_store(Box::new(store));
        all.push(hs);
    }
    for ix in &d.indexes {
        dp.create_index(
            &ix.name,
            ix.free.into(),
            ix.key.into(),
            (ix.store as u32).into(),
            EntryCount::from(ix.count),
            EntryIdx::from(ix.offset).into(),
        );
    }
    *handles.borrow_mut() = all;
}

struct BoundBox(Bound<EntryIdx>);
impl BoundBox {
    fn get(&self) -> i64 {
        self.0.get().into_u32() as i64
    }
}
pub struct DirStore {
    pub dir: Dir,
    pub addrs: Vec<Vec<(u16, u32)>>,
    pub handles: Handles,
}
impl EntryStoreTrait for DirStore {
    fn finalize(self: Box<Self>, dp: &mut DirectoryPackCreator) {
        fill_directory(&self.dir, &self.addrs, dp, &self.handles);
    }
}

pub fn final_handles(h: &Handles) -> Vec<Vec<u32>> {
    h.borrow().iter().map(|v| v.iter().map(|b| b.get().into_u32()).collect()).collect()
}

/// The whole creation through the high-level creator.
pub fn create(root: &str, out: &str, spec: &Spec, progress: Arc<dyn Progress>) -> Es<Built> {
    let mut addrs = vec![];
    let mut bc = BasicCreator::new(out, concat_mode(spec.mode), VendorId::from(spec.vendor), compression(spec.comp), progress)
        .map_err(es)?;
    if spec.cached {
        let mut ca = CachedContentAdder::new(bc, Rc::new(()));
        addrs.push(add_all(&mut ca, root, 0, &spec.contents)?);
        bc = ca.into_inner();
    } else {
        addrs.push(add_all(&mut bc, root, 0, &spec.contents)?);
    }
    let mut extras: Vec<ContentPackCreator<dyn PackRecipient>> = vec![];
    for (i, e) in spec.extras.iter().enumerate() {
        let dir = &out[..out.rfind('/').unwrap()];
        let path = match e.name.strip_prefix("../") {
            // (a path may be written in several ways)
            Some(n) if e.id % 3 > 0 => format!("{}/{n}", &dir[..dir.rfind('/').unwrap()]),
            _ => format!("{dir}/{}", e.name),
        };
        if e.name.contains('/') {
            crate::rt::quiet(|| std::fs::create_dir_all(&path[..path.rfind('/').unwrap()]).expect("mkdir"));
        }
        let f: Box<dyn PackRecipient> = AtomicOutFile::new(path).map_err(es)?;
        let mut cp =
            ContentPackCreator::new_from_output(f, e.id.into(), VendorId::from(spec.vendor), Default::default(), compression(e.comp))
                .map_err(es)?;
        let mut v = vec![];
        for (j, c) in e.contents.iter().enumerate() {
            let inp = input(root, i + 1, j, c)?;
            v.push(pair(cp.add_content(inp, hint(c.hint)).map_err(es)?));
        }
        addrs.push(v);
        extras.push(cp);
    }
    let handles: Handles = Default::default();
    let ds = DirStore { dir: spec.dir.clone(), addrs: addrs.clone(), handles: handles.clone() };
    bc.finalize(Box::new(ds), extras).map_err(es)?;
    Ok(Built { addrs, handles: final_handles(&handles) })
}

/// Free data of each pack built by hand.
#[derive(Clone, Debug, Default)]
pub struct Frees {
    pub content: Vec<[u8; 24]>,
    pub manifest: [u8; 24],
    pub container: [u8; 24],
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Assemble {
    /// manifest alone; directory and contents in files of their own
    Separate,
    /// all in one container file written by `ContainerPackCreator::add_pack`
    Container,
    /// manifest and directory inside a container, contents beside it
    Half,
}

/// Creation through the low-level creators, one file per pack:
/// `<dir>/c<id>.jbkc`, `<dir>/dir.jbkd`, `<dir>/man.jbkm`, then possibly assembled to `out`.
/// `location(id)` is what the manifest records for a pack.
pub fn create_loose(
    root: &str,
    dir: &str,
    out: &str,
    spec: &Spec,
    frees: &Frees,
    how: Assemble,
    location: &dyn Fn(u16) -> String,
) -> Es<Built> {
    let mut addrs = vec![];
    let mut datas = vec![];
    let vendor = || VendorId::from(spec.vendor);
    for (slot, (id, cs)) in spec.slots().iter().enumerate() {
        let comp = if slot == 0 { spec.comp } else { spec.extras[slot - 1].comp };
        let free = frees.content.get(slot).copied().unwrap_or_default();
        let mut cp =
            ContentPackCreator::new(format!("{dir}/c{id:05}.jbkc"), (*id).into(), vendor(), free.into(), compression(comp))
                .map_err(es)?;
        let mut v = vec![];
        for (j, c) in cs.iter().enumerate() {
            let inp = input(root, slot, j, c)?;
            v.push(pair(cp.add_content(inp, hint(c.hint)).map_err(es)?));
        }
        addrs.push(v);
        let (_f, data) = cp.finalize().map_err(es)?;
        datas.push((*id, data));
    }
    let handles: Handles = Default::default();
    let mut dp = DirectoryPackCreator::new(0.into(), vendor(), spec.dir.free.into());
    fill_directory(&spec.dir, &addrs, &mut dp, &handles);
    let mut f = AtomicOutFile::new(format!("{dir}/dir.jbkd")).map_err(es)?;
    let ddata = dp.finalize().map_err(es)?.write(&mut *f).map_err(es)?;
    f.close_file().map_err(es)?;
    let duuid = ddata.uuid;
    let mut mc = ManifestPackCreator::new(vendor(), frees.manifest.into());
    let mut parts = vec![(format!("{dir}/dir.jbkd"), duuid)];
    mc.add_pack(ddata, location(0));
    for (id, d) in datas {
        parts.push((format!("{dir}/c{id:05}.jbkc"), d.uuid));
        mc.add_pack(d, location(id));
    }
    let mpath = if how == Assemble::Separate { out.to_string() } else { format!("{dir}/man.jbkm") };
    let mut f = AtomicOutFile::new(&mpath).map_err(es)?;
    let muuid = mc.finalize(&mut *f).map_err(es)?;
    f.close_file().map_err(es)?;
    if how != Assemble::Separate {
        let mut c = ContainerPackCreator::new(out, frees.container.into()).map_err(es)?;
        if how == Assemble::Half {
            parts.truncate(1);
        }
        parts.push((mpath, muuid));
        for (p, u) in &parts {
            let mut r = std::fs::File::open(p).map_err(es)?;
            c.add_pack(*u, &mut r).map_err(es)?;
        }
        c.finalize().map_err(es)?;
        // only the copies in the container remain
        crate::rt::quiet(|| parts.iter().for_each(|(p, _)| drop(std::fs::remove_file(p))));
    }
    Ok(Built { addrs, handles: final_handles(&handles) })
}
